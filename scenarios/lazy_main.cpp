// Scenarios l01, l02: histories over graphs of lazily computed values, with failing
// allocations and node functions that give up, against plain recomputation.
#include "simapi.h"

#include <lazy.hpp>
#include <algorithm>
#include <any>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <variant>
#include <vector>

namespace {
   using Val = std::vector<long>; // owns memory, so that stale values show
   using R = std::shared_ptr<lazy::root<Val>>;
   using N = std::shared_ptr<lazy::node<Val>>;
   using P = std::shared_ptr<lazy::path<Val>>;
   using Any = std::variant<R, N, P>;

   struct Interrupted {};
   int calls = 0;      // node functions entered since the last reset
   int give_up_at = 0; // the call that throws

   Val mix(int salt, std::initializer_list<const Val*> arguments) {
      Val result;
      long h = salt * 1000003l + 17;
      for (auto a : arguments) {
         for (auto x : *a) {
            h = h * 31 + x;
            h ^= (unsigned long)(h) >> 7;
         }
         h = h * 131 + long(a->size());
      }
      int n = 1 + int((unsigned long)(h) % 5);
      for (int i = 0; i < n; i++) {
         result.push_back(h % 1000 + i);
      }
      return result;
   }
   struct Function {
      int salt;
      int id;
      std::vector<int>* entered;
      template<typename... Args>
      Val operator()(const Args&... args) const {
         entered->push_back(id);
         if (++calls == give_up_at) {
            sim_fault("callback_throws");
            throw Interrupted();
         }
         return mix(salt, {&args...});
      }
   };

   struct Item {
      Any handle;
      bool held = true;            // the user still has the handle
      int kind = 0;                // 0 root, 1 node, 2 path
      int salt = 0;
      std::vector<int> arguments;  // model
      std::optional<Val> value;    // of a root
      bool cached = false;         // a node that was read and whose inputs did not change since
      int graph = 0;
   };

   struct World {
      std::vector<Item> items;
      std::vector<int> entered;
      lazy::Graph graphs[2];
      struct Shot {
         lazy::Snapshot snapshot;
         int graph;
         std::map<int, std::optional<Val>> roots;
         std::map<int, bool> cached;
      };
      std::vector<Shot> shots;

      bool readable(int i) const {
         if (items[i].kind == 0) {
            return bool(items[i].value);
         }
         for (auto a : items[i].arguments) {
            if (!readable(a)) {
               return false;
            }
         }
         return true;
      }
      Val expected(int i) const {
         auto& it = items[i];
         if (it.kind == 0) {
            return *it.value;
         }
         std::vector<Val> a;
         for (auto k : it.arguments) {
            a.push_back(expected(k));
         }
         switch (a.size()) {
            case 0: return mix(it.salt, {});
            case 1: return mix(it.salt, {&a[0]});
            case 2: return mix(it.salt, {&a[0], &a[1]});
            case 3: return mix(it.salt, {&a[0], &a[1], &a[2]});
            case 4: return mix(it.salt, {&a[0], &a[1], &a[2], &a[3]});
            case 5: return mix(it.salt, {&a[0], &a[1], &a[2], &a[3], &a[4]});
            default: return mix(it.salt, {&a[0], &a[1], &a[2], &a[3], &a[4], &a[5]});
         }
      }
      bool depends(int i, int on) const {
         if (i == on) {
            return true;
         }
         for (auto a : items[i].arguments) {
            if (depends(a, on)) {
               return true;
            }
         }
         return false;
      }
      void changed(int root) {
         for (size_t i = 0; i < items.size(); i++) {
            if (int(i) != root && depends(int(i), root)) {
               items[i].cached = false;
            }
         }
      }
      void mark_read(int i) {
         // everything below a value that is computed is computed as well
         auto& it = items[i];
         if (it.kind == 1 && it.cached) {
            return;
         }
         for (auto a : it.arguments) {
            mark_read(a);
         }
         it.cached = it.kind == 1;
      }
      // which node and path functions a read may have to run
      void missing(int i, std::vector<int>& list) const {
         auto& it = items[i];
         if (it.kind == 0 || (it.kind == 1 && it.cached)) {
            return;
         }
         list.push_back(i);
         for (auto a : it.arguments) {
            missing(a, list);
         }
      }
   };
   Val random_value() {
      Val v;
      int n = sim_choose(5, "length");
      for (int i = 0; i < n; i++) {
         v.push_back(sim_choose(50, "number"));
      }
      return v;
   }
   template<typename F>
   bool guarded(const char* what, bool faults, F&& f) {
      // true if the action happened, false if an injected fault stopped it
      int fault = faults ? sim_choose(6, "fault") : 0;
      calls = 0;
      give_up_at = fault == 1 ? 1 + int(sim_choose(4, "which call")) : 0;
      if (fault == 2) {
         sim_alloc_arm(1 + sim_choose(12, "failing allocation"), 0);
      }
      bool done = true;
      try {
         f();
      } catch (const Interrupted&) {
         done = false;
      } catch (const std::bad_alloc&) {
         done = false;
      }
      give_up_at = 0;
      if (fault == 2) {
         int fired = sim_alloc_fired();
         sim_alloc_disarm();
         if (fired) {
            sim_fault("allocation_failure");
         } else if (!done) {
            sim_fail("spurious-failure", "%s reported lack of memory although none was lacking", what);
         }
      } else if (fault != 1 && !done) {
         sim_fail("spurious-failure", "%s failed without a fault", what);
      }
      return done;
   }
   const Val& read(const Any& h, Val& keep) {
      if (auto p = std::get_if<P>(&h)) {
         keep = (*p)->get();
         return keep;
      }
      if (auto n = std::get_if<N>(&h)) {
         return (*n)->get();
      }
      return std::get<R>(h)->get();
   }

   void check(World& w, int i, bool faults) {
      if (!w.items[i].held) {
         return;
      }
      if (w.items[i].kind == 0 && !w.items[i].value) {
         // an input without value: a snapshot of it must be one of an input without value
         std::any data = std::get<R>(w.items[i].handle)->dump();
         auto pointer = std::any_cast<std::shared_ptr<const Val>>(&data);
         if (pointer && *pointer) {
            sim_fail("stale", "input %d has a value although it was unset or had none when the snapshot was taken", i);
         }
         return;
      }
      if (!w.readable(i)) {
         return;
      }
      auto& it = w.items[i];
      std::vector<int> allowed;
      w.missing(i, allowed);
      w.entered.clear();
      w.entered.reserve(256);
      Val got;
      bool done = guarded("get", faults, [&] {
         Val keep;
         got = read(it.handle, keep);
      });
      for (auto e : w.entered) {
         if (w.items[e].kind == 1 && std::count(w.entered.begin(), w.entered.end(), e) > 1) {
            sim_fail("recomputed", "value %d was computed more than once by one read of value %d", e, i);
         }
         if (std::find(allowed.begin(), allowed.end(), e) == allowed.end()) {
            sim_fail("recomputed", "value %d was computed again while reading value %d although nothing it depends on had changed", e, i);
         }
      }
      if (!done) {
         // whatever was finished may be kept; nothing is known to be cached that was not before
         return;
      }
      Val want = w.expected(i);
      if (got != want) {
         sim_fail("stale", "value %d differs from recomputing it", i);
      }
      w.mark_read(i);
      sim_count("reads", 1);
   }

   int pick(World& w, int kinds, int graph = -1) {
      std::vector<int> candidates;
      for (size_t i = 0; i < w.items.size(); i++) {
         if (w.items[i].held && (graph < 0 || w.items[i].graph == graph) && (kinds >> w.items[i].kind & 1)) {
            candidates.push_back(int(i));
         }
      }
      if (candidates.empty()) {
         return -1;
      }
      return candidates[sim_choose(uint32_t(candidates.size()), "which")];
   }

   // four to six arguments: the first two of any kind, the further ones of one kind
   template<typename H, typename B>
   void many(World& w, const std::vector<int>& a, B& build) {
      auto further = [&](size_t k) -> H& { return std::get<H>(w.items[a[k]].handle); };
      std::visit(
            [&](auto& x, auto& y) {
               switch (a.size()) {
                  case 4: build(x, y, further(2), further(3)); break;
                  case 5: build(x, y, further(2), further(3), further(4)); break;
                  default: build(x, y, further(2), further(3), further(4), further(5));
               }
            },
            w.items[a[0]].handle,
            w.items[a[1]].handle);
   }

   void make(World& w, bool faults, bool separate) {
      int kind = w.items.empty() ? 0 : int(sim_choose(6, "create"));
      kind = kind <= 1 ? 0 : kind <= 4 ? 1 : 2;
      Item it;
      it.kind = kind;
      it.graph = sim_choose(2, "graph");
      it.salt = int(w.items.size()) + 1;
      lazy::use_graph(w.graphs[it.graph]);
      int id = int(w.items.size());
      bool done = true;
      if (kind == 0) {
         if (sim_coin(1, 3, "without value")) {
            done = guarded("Root", faults, [&] { it.handle = lazy::Root<Val>(); });
         } else {
            it.value = random_value();
            if (sim_coin(1, 2, "moved")) {
               Val v = *it.value;
               done = guarded("Root", faults, [&] { it.handle = lazy::Root(std::move(v)); });
            } else {
               const Val& v = *it.value;
               done = guarded("Root", faults, [&] { it.handle = lazy::Root(v); });
            }
         }
      } else {
         int n = sim_choose(7, "arguments");
         int rest = n > 3 ? 1 << sim_choose(3, "kind of the further arguments") : 0;
         for (int k = 0; k < n; k++) {
            int a = pick(w, k < 2 || n <= 3 ? 7 : rest, separate ? it.graph : -1); // a graph can only restore what lies in it
            if (a >= 0) {
               it.arguments.push_back(a);
            }
         }
         if (n > 3 && it.arguments.size() <= 3) {
            it.arguments.resize(std::min<size_t>(it.arguments.size(), 2));
         }
         Function f{it.salt, id, &w.entered};
         auto build = [&](auto&... args) {
            if (kind == 1) {
               it.handle = lazy::Node(f, args...);
            } else {
               it.handle = lazy::Path(f, args...);
            }
         };
         done = guarded(kind == 1 ? "Node" : "Path", faults, [&] {
            auto& a = it.arguments;
            switch (a.size()) {
               case 0: build(); break;
               case 1: std::visit(build, w.items[a[0]].handle); break;
               case 2: std::visit(build, w.items[a[0]].handle, w.items[a[1]].handle); break;
               case 3: std::visit(build, w.items[a[0]].handle, w.items[a[1]].handle, w.items[a[2]].handle); break;
               default: rest == 1 ? many<R>(w, a, build) : rest == 2 ? many<N>(w, a, build) : many<P>(w, a, build);
            }
         });
      }
      lazy::use_graph();
      if (done) {
         w.items.push_back(std::move(it));
      }
   }

   void act(World& w, bool faults, bool snapshots) {
      int what = sim_choose(snapshots ? 13 : 10, "action");
      switch (what) {
         case 0:
         case 1:
         case 2: {
            int i = pick(w, 7);
            if (i >= 0) {
               check(w, i, faults);
            }
            break;
         }
         case 3:
         case 4:
         case 5: {
            // give a root a new value
            int i = pick(w, 1);
            if (i < 0) {
               break;
            }
            auto& root = std::get<R>(w.items[i].handle);
            int from = sim_choose(4, "source of the value");
            Val v;
            bool done;
            w.entered.clear();
            w.entered.reserve(256);
            if (from <= 1) {
               v = random_value();
               Val given = v;
               if (from == 0) {
                  done = guarded("set", faults, [&] { root->set(given); });
               } else {
                  done = guarded("set", faults, [&] { root->set(std::move(given)); });
               }
               if (!w.entered.empty()) {
                  sim_fail("eager", "setting root %d computed value %d", i, w.entered[0]);
               }
            } else {
               // the value of the graph itself, possibly one computed from this very root
               int j = from == 2 ? i : pick(w, 7);
               if (j < 0 || !w.readable(j)) {
                  break;
               }
               v = w.expected(j);
               std::vector<int> allowed;
               w.missing(j, allowed);
               done = guarded("set", faults, [&] {
                  Val keep;
                  root->set(read(w.items[j].handle, keep));
               });
               for (auto e : w.entered) {
                  if (std::find(allowed.begin(), allowed.end(), e) == allowed.end()) {
                     sim_fail("eager", "setting root %d from value %d computed value %d, which is not needed for it", i, j, e);
                  }
               }
               if (done) {
                  w.mark_read(j);
               }
            }
            if (done) {
               w.items[i].value = v;
               w.changed(i);
            } else {
               // the root must have kept its value; what depends on it may have been dropped
               w.changed(i);
            }
            sim_count("sets", 1);
            break;
         }
         case 6: {
            if (sim_coin(1, 2, "really")) {
               int i = pick(w, 1);
               if (i >= 0) {
                  w.entered.clear();
                  std::get<R>(w.items[i].handle)->unset();
                  if (!w.entered.empty()) {
                     sim_fail("eager", "unsetting root %d computed value %d", i, w.entered[0]);
                  }
                  w.items[i].value.reset();
                  w.changed(i);
               }
            }
            break;
         }
         case 7:
         case 8:
            if (w.items.size() < 14) {
               make(w, faults, snapshots);
            }
            break;
         case 9: {
            // the user drops a handle; others may still depend on it
            if (w.items.size() > 3 && sim_coin(1, 3, "really")) {
               int i = pick(w, 7);
               if (i >= 0) {
                  w.items[i].held = false;
                  w.items[i].handle = R();
                  sim_count("dropped", 1);
               }
            }
            break;
         }
         case 10: {
            World::Shot s;
            s.graph = sim_choose(2, "graph");
            if (w.shots.size() >= 4) {
               break;
            }
            bool done = guarded("dump", faults, [&] { s.snapshot = w.graphs[s.graph].dump(); });
            if (done) {
               for (size_t i = 0; i < w.items.size(); i++) {
                  if (w.items[i].graph == s.graph && w.items[i].kind == 0) {
                     s.roots[int(i)] = w.items[i].value;
                  }
               }
               w.shots.push_back(std::move(s));
               sim_count("snapshots", 1);
            }
            break;
         }
         default: {
            if (w.shots.empty()) {
               break;
            }
            auto& s = w.shots[sim_choose(uint32_t(w.shots.size()), "snapshot")];
            bool done = guarded("load", faults, [&] { w.graphs[s.graph].load(s.snapshot); });
            if (!done) {
               sim_discard("restoring gave up half way");
            }
            for (auto& [i, v] : s.roots) {
               w.items[i].value = v;
            }
            // what is cached after a restore is not promised
            for (auto& it : w.items) {
               it.cached = false;
            }
            sim_count("restores", 1);
            break;
         }
      }
   }
   void run(bool snapshots) {
      uint64_t live = sim_alloc_live_blocks();
      {
         World w;
         w.items.reserve(64);
         bool faults = sim_coin(2, 3, "faults");
         int start = 2 + sim_choose(6, "graph size");
         for (int i = 0; i < start; i++) {
            make(w, false, snapshots);
         }
         int steps = 3 + sim_choose(30, "steps");
         for (int i = 0; i < steps; i++) {
            act(w, faults, snapshots);
            sim_count("actions", 1);
         }
         // no more faults: every value must be what recomputation gives
         for (size_t i = 0; i < w.items.size(); i++) {
            check(w, int(i), false);
         }
         sim_nontrivial();
      }
      if (sim_alloc_live_blocks() != live) {
         sim_fail("leak", "%lld blocks remain after the whole graph was dropped", (long long)(sim_alloc_live_blocks() - live));
      }
      sim_alloc_check();
   }
} // namespace

extern "C" __attribute__((visibility("default"))) void sim_main(const char* scenario) {
   std::string s = scenario;
   run(s == "l02");
}
