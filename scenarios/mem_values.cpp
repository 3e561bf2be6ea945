#define TAT_NOTHING_BITS 7
#include "mem_kind.hpp"
#include "ops.hpp"
using namespace h;

namespace {
   // overwrites the part of the stack that finished calls have used
   __attribute__((noinline)) void scribble(int pattern) {
      volatile unsigned char dirt[96 << 10];
      for (size_t i = 0; i < sizeof(dirt); i++) {
         dirt[i] = (unsigned char)(pattern + (pattern ? 0 : i));
      }
   }
   struct Nested {
      scope_resource<1 << 12> scope;
      pmr::vector<int> mine = pmr::vector<int>(17, 5);
      bool ok() const {
         for (auto x : mine) {
            if (x != 5) {
               return false;
            }
         }
         return true;
      }
   };
   struct Interrupted {};

   template<typename T>
   struct Mem : Ops<T> {
      using O = Ops<T>;
      using typename O::A;
      using typename O::Made;
      using typename O::N;
      using typename O::S;
      using O::elements;
      using O::rebuild;

      static T operand(Rng& r, int max_rank, int maximum) {
         for (;;) {
            T t = make_tensor<T>(r, 1, max_rank, maximum);
            if (elements(t) != 0) {
               return t;
            }
         }
      }
      // runs an operation and describes what happened
      __attribute__((noinline)) static std::string outcome(int op, const T& a, const T& b, uint64_t seed, Made* keep = nullptr) {
         try {
            Made m = O::read(op, a, b, seed);
            sim_alloc_disarm();
            std::string s = m.print();
            if (keep) {
               *keep = std::move(m);
            }
            return s;
         } catch (const std::bad_alloc&) {
            throw;
         } catch (const std::exception& e) {
            return std::string("error: ") + e.what();
         }
      }
      static void unchanged(const T& t, const std::string& before, const char* which, const char* op, const char* when) {
         if (fingerprint(t) != before) {
            sim_fail("operand-changed", "%s: %s was changed %s", op, which, when);
         }
      }

      static void a01() {
         O::register_names();
         Rng r(sim_choose(1u << 20, "operands"));
         T a = operand(r, 4, 2);
         bool same = sim_coin(1, 3, "same operand");
         T b = same ? a : operand(r, 3, 2);
         T sharing = sim_coin(1, 2, "shared") ? a : T();
         uint64_t seed = sim_choose(1u << 20, "details");
         int op = sim_choose(O::reading_ops + O::writing_ops, "operation");
         int repeat = 1 + sim_choose(3, "failures");
         bool writing = op >= O::reading_ops;
         const char* name = writing ? O::writing_name(op - O::reading_ops) : O::reading_name(op);
         std::string before_a = fingerprint(a), before_b = fingerprint(b);
         bool shared = sharing.core != nullptr;

         // without failures
         std::string expected;
         uint64_t attempts;
         {
            T target = rebuild(a);
            sim_alloc_arm(uint64_t(1) << 60, 0);
            if (writing) {
               try {
                  O::write(op - O::reading_ops, target, b, seed);
                  expected = fingerprint(target);
               } catch (const std::exception& e) {
                  expected = std::string("error: ") + e.what();
               }
            } else {
               expected = outcome(op, a, b, seed);
            }
            attempts = sim_alloc_disarm();
         }
         auto resource = pmr::get_default_resource();
         auto call = [&]() -> std::string {
            if (!writing) {
               return outcome(op, a, b, seed);
            }
            try {
               O::write(op - O::reading_ops, a, b, seed);
            } catch (const std::bad_alloc&) {
               throw;
            } catch (const std::exception& e) {
               return std::string("error: ") + e.what();
            }
            sim_alloc_disarm();
            return fingerprint(a);
         };
         for (int i = 0; i < repeat; i++) {
            uint64_t nth = 1 + sim_choose(uint32_t(std::max<uint64_t>(attempts, 1)), "failing allocation");
            uint64_t every = sim_coin(1, 4, "all later ones too");
            uint64_t live = sim_alloc_live_blocks();
            bool failed = false;
            std::string got;
            sim_alloc_arm(nth, every);
            try {
               got = call();
            } catch (const std::bad_alloc&) {
               failed = true;
            }
            int fired = sim_alloc_fired();
            sim_alloc_disarm();
            if (fired) {
               sim_fault("allocation_failure");
               sim_count(failed ? "failure_reported" : "failure_absorbed", 1);
               sim_nontrivial();
            }
            if (failed && !fired) {
               sim_fail("spurious-failure", "%s reported lack of memory although none was lacking", name);
            }
            if (!failed && got != expected) {
               sim_fail("wrong-after-failure", "%s returned another result when allocation %llu failed", name, (unsigned long long)nth);
            }
            if (pmr::get_default_resource() != resource) {
               sim_fail("scratch-not-restored", "%s left its scratch memory installed", name);
            }
            unchanged(b, before_b, "the second operand", name, "by a failed call");
            if (shared) {
               unchanged(sharing, before_a, "a tensor sharing data with the operand", name, "by a failed call");
            }
            if (!writing || failed) {
               unchanged(a, before_a, "the operand", name, failed ? "by a failed call" : "by the call");
            }
            got = std::string();
            if (!writing || (failed && !shared && !same)) {
               // a failed writing call may have given the target data of its own: only the value counts then
               if (sim_alloc_live_blocks() != live) {
                  sim_fail("leak", "%s: %lld blocks not returned after allocation %llu failed", name, (long long)(sim_alloc_live_blocks() - live), (unsigned long long)nth);
               }
            }
            if (writing && !failed) {
               a = shared ? sharing : b;
               if (!shared) {
                  return;
               }
            }
         }
         // memory is back: the same call works and gives the same result
         std::string again = call();
         if (again != expected) {
            sim_fail("wrong-after-failure", "%s repeated after a failure gives another result", name);
         }
         unchanged(b, before_b, "the second operand", name, "by the repeated call");
         if (shared) {
            unchanged(sharing, before_a, "a tensor sharing data with the operand", name, "by the repeated call");
         }
         sim_alloc_check();
      }

      struct Handle {
         T t;
         std::string value;
      };
      static void verify(const std::vector<Handle>& pool, const char* op, int skip = -1) {
         for (size_t i = 0; i < pool.size(); i++) {
            if (int(i) != skip && fingerprint(pool[i].t) != pool[i].value) {
               sim_fail("value-changed", "%s changed tensor %zu, which it was not applied to", op, i);
            }
         }
      }
      static void a02() {
         O::register_names();
         std::vector<Handle> pool;
         uint32_t n = 2 + sim_choose(4, "tensors");
         for (uint32_t i = 0; i < n; i++) {
            if (i && sim_coin(1, 2, "copy of an earlier one")) {
               uint32_t from = sim_choose(i, "from");
               T copy = pool[from].t;
               pool.push_back({copy, pool[from].value});
            } else {
               Rng r(sim_choose(1u << 20, "tensor"));
               T t = operand(r, 3, 2);
               std::string v = fingerprint(t);
               pool.push_back({std::move(t), v});
            }
         }
         int steps = 3 + sim_choose(20, "steps");
         for (int step = 0; step < steps; step++) {
            uint32_t i = sim_choose(n, "on"), j = sim_choose(n, "with");
            uint64_t seed = sim_choose(1u << 16, "details");
            auto& x = pool[i];
            auto& y = pool[j];
            int kind = sim_choose(8, "action");
            if (kind <= 2) {
               // in place
               int op = sim_choose(O::writing_ops, "operation");
               const char* name = O::writing_name(op);
               std::string expected;
               {
                  T alone = rebuild(x.t);
                  T other = i == j ? alone : rebuild(y.t);
                  try {
                     if (!O::plainly(op, alone, seed)) {
                        O::write(op, alone, other, seed);
                     }
                     expected = fingerprint(alone);
                  } catch (const std::exception& e) {
                     expected = x.value; // refused: nothing may change
                  }
               }
               bool inject = sim_coin(1, 4, "fail an allocation");
               bool failed = false;
               if (inject) {
                  sim_alloc_arm(1 + sim_choose(12, "failing allocation"), 0);
               }
               try {
                  O::write(op, x.t, y.t, seed);
               } catch (const std::bad_alloc&) {
                  failed = true;
               } catch (const std::exception&) {
               }
               if (inject) {
                  if (sim_alloc_fired()) {
                     sim_fault("allocation_failure");
                  }
                  sim_alloc_disarm();
               }
               std::string now = fingerprint(x.t);
               if (now != (failed ? x.value : expected)) {
                  sim_fail("wrong-value", "%s on a tensor that shares data gives another result than on an independent one", name);
               }
               x.value = now;
               verify(pool, name);
            } else if (kind == 3) {
               // an update whose own function gives up half way: only the tensor it was applied to may be affected
               int count = sim_choose(6, "calls before giving up");
               int calls = 0;
               try {
                  x.t.transform([&](A v) {
                     if (calls++ == count) {
                        throw Interrupted();
                     }
                     return v + A(1);
                  });
               } catch (const Interrupted&) {
                  sim_fault("callback_throws");
               }
               verify(pool, "interrupted transform", int(i));
               std::string bad = unsound(x.t);
               if (!bad.empty()) {
                  sim_fail("unsound", "interrupted transform left a tensor with %s", bad.c_str());
               }
               x.value = fingerprint(x.t);
            } else if (kind == 4) {
               // handle traffic
               switch (sim_choose(5, "assignment")) {
                  case 0: x.t = y.t; break;
                  case 1: {
                     if (i == j) {
                        break;
                     }
                     T moved = std::move(x.t);
                     x.t = y.t;
                     if (fingerprint(moved) != x.value) {
                        sim_fail("wrong-value", "a moved tensor has another value");
                     }
                     break;
                  }
                  case 2: {
                     std::swap(x.t, y.t);
                     std::swap(x.value, y.value);
                     verify(pool, "swap");
                     continue;
                  }
                  case 3: x.t = y.t.copy(); break;
                  default: {
                     std::string data = y.t.dump();
                     x.t.load(data);
                     break;
                  }
               }
               x.value = y.value;
               verify(pool, "assignment");
            } else {
               int op = sim_choose(O::reading_ops, "operation");
               const char* name = O::reading_name(op);
               std::string expected;
               {
                  T alone = rebuild(x.t);
                  T other = i == j ? alone : rebuild(y.t);
                  expected = outcome(op, alone, other, seed);
               }
               Made made;
               bool keep = true;
               std::string got = outcome(op, x.t, y.t, seed, &made);
               if (got != expected) {
                  sim_fail("wrong-value", "%s on tensors that share data gives another result than on independent ones", name);
               }
               verify(pool, name);
               if (keep && !made.t.empty() && sim_coin(2, 3, "keep result")) {
                  auto& t = made.t[seed % made.t.size()];
                  if (t.names.size() <= 4 && elements(t) <= 120) {
                     auto& z = pool[sim_choose(n, "into")];
                     z.t = O::ordinary(t);
                     z.value = fingerprint(z.t);
                     // the other results must not notice what happens to this one
                     std::string rest;
                     made.t.erase(made.t.begin() + seed % made.t.size());
                     rest = made.print();
                     z.t *= A(2);
                     z.value = fingerprint(z.t);
                     if (made.print() != rest) {
                        sim_fail("value-changed", "changing one result of %s changed another", name);
                     }
                     verify(pool, name);
                  }
               }
            }
            sim_count("actions", 1);
         }
         sim_nontrivial();
         sim_alloc_check();
      }

      static void a03() {
         O::register_names();
         Rng r(sim_choose(1u << 20, "operands"));
         T a = operand(r, 4, 3);
         T b = operand(r, 3, 2);
         uint64_t seed = sim_choose(1u << 20, "details");
         int op = sim_choose(O::reading_ops, "operation");
         const char* name = O::reading_name(op);
         std::string first;
         std::vector<void*> dirt;
         auto resource = pmr::get_default_resource();
         for (int i = 0; i < 3; i++) {
            // another state of the memory for every repetition
            static const int patterns[] = {0x00, 0xcd, 0x7f, 0xff, 0x3f};
            sim_alloc_fill(patterns[sim_choose(5, "fresh memory")]);
            sim_alloc_mode(sim_choose(3, "heap"));
            int junk = sim_choose(8, "junk");
            for (int k = 0; k < junk; k++) {
               dirt.push_back(operator new(16 + r.below(3000)));
            }
            for (int k = 0; k < junk / 2; k++) {
               operator delete(dirt.back());
               dirt.pop_back();
            }
            scribble(patterns[sim_choose(5, "stack")]);
            bool nested = sim_coin(1, 2, "inside a scratch scope");
            Made made;
            std::string got;
            T x = sim_coin(1, 2, "rebuilt operand") ? rebuild(a) : a;
            if (nested) {
               Nested scope;
               auto mine = pmr::get_default_resource();
               got = outcome(op, x, b, seed, &made);
               if (pmr::get_default_resource() != mine) {
                  sim_fail("scratch-not-restored", "%s replaced the caller's scratch memory", name);
               }
               if (!scope.ok()) {
                  sim_fail("scratch-overwritten", "%s overwrote the caller's scratch memory", name);
               }
               sim_count("nested", 1);
            } else {
               got = outcome(op, x, b, seed, &made);
            }
            if (pmr::get_default_resource() != resource) {
               sim_fail("scratch-not-restored", "%s left its scratch memory installed", name);
            }
            scribble(0xa5);
            sim_fault("memory_reset");
            if (got.compare(0, 6, "error:") != 0 && made.print() != got) {
               sim_fail("result-in-scratch", "the result of %s changed when its working memory was reused", name);
            }
            if (i == 0) {
               first = got;
            } else if (got != first) {
               sim_fail("memory-dependent", "%s gives another result when memory held something else before", name);
            }
            for (auto& t : made.t) {
               std::string bad = unsound(t);
               if (!bad.empty()) {
                  sim_fail("unsound", "%s returned a tensor with %s", name, bad.c_str());
               }
            }
         }
         for (auto p : dirt) {
            operator delete(p);
         }
         sim_count(name, 1);
         sim_nontrivial();
         sim_alloc_check();
      }
      static void add(std::vector<MemKind>& v, const char* name) {
         v.push_back({name, a01, a02, a03});
      }
   };
} // namespace

#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define STR2(a) #a
#define STR(a) STR2(a)
void CAT(mem_, SYM)(std::vector<MemKind>& v) {
   using S = CAT(SYM, Symmetry);
   Mem<Tensor<double, S, FastName>>::add(v, "double," STR(SYM));
   Mem<Tensor<std::complex<double>, S, std::string>>::add(v, "cdouble," STR(SYM) ",string");
}
