// Scenarios a01..a03, a03r: one process on a machine whose memory misbehaves.
#define TAT_NOTHING_BITS 7
#include "mem_kind.hpp"
using namespace h;

namespace {
   struct Upstream : pmr::memory_resource {
      struct Piece {
         char* p;
         size_t n;
      };
      std::vector<Piece> live;
      int fail_at = 0, calls = 0;
      void* do_allocate(std::size_t bytes, std::size_t) override {
         if (++calls == fail_at) {
            sim_fault("upstream_failure");
            throw std::bad_alloc();
         }
         auto p = static_cast<char*>(operator new(bytes));
         live.push_back({p, bytes});
         return p;
      }
      void do_deallocate(void* p, std::size_t bytes, std::size_t) override {
         for (auto i = live.begin(); i != live.end(); ++i) {
            if (i->p == p) {
               if (i->n != bytes) {
                  sim_fail("scratch", "a buffer of %zu bytes was returned as %zu", i->n, bytes);
               }
               operator delete(p);
               live.erase(i);
               return;
            }
         }
         sim_fail("scratch", "a buffer was returned that had not been handed out");
      }
      bool do_is_equal(const memory_resource& other) const noexcept override {
         return this == &other;
      }
   };
   // the scratch allocator itself
   void a03r() {
      Upstream up;
      up.live.reserve(64);
      size_t initial = sim_choose(600, "initial buffer");
      auto buffer = static_cast<char*>(operator new(initial + 64));
      size_t shift = sim_choose(17, "shift");
      struct Given {
         char* p;
         size_t n;
         unsigned char mark;
      };
      std::vector<Given> given;
      given.reserve(64);
      {
         pmr::monotonic_buffer_resource scratch(buffer + shift, initial, &up);
         int steps = 1 + sim_choose(30, "requests");
         for (int i = 0; i < steps; i++) {
            int what = sim_choose(16, "request");
            if (what == 15) {
               scratch.release();
               given.clear();
               if (!up.live.empty()) {
                  sim_fail("scratch", "releasing scratch memory kept %zu buffers", up.live.size());
               }
               continue;
            }
            size_t bytes = what < 10 ? sim_choose(64, "bytes") : sim_choose(3000, "many bytes");
            size_t alignment = size_t(1) << sim_choose(5, "alignment");
            up.fail_at = 0;
            bool break_upstream = sim_coin(1, 8, "upstream fails"), break_heap = !break_upstream && sim_coin(1, 6, "heap fails");
            if (break_upstream) {
               up.fail_at = up.calls + 1;
            }
            if (break_heap) {
               sim_alloc_arm(1 + sim_choose(2, "which"), 0);
            }
            char* p = nullptr;
            try {
               p = static_cast<char*>(scratch.allocate(bytes, alignment));
            } catch (const std::bad_alloc&) {
            }
            if (break_heap) {
               if (sim_alloc_fired()) {
                  sim_fault("allocation_failure");
               }
               sim_alloc_disarm();
            }
            if (p == nullptr) {
               continue;
            }
            if (reinterpret_cast<uintptr_t>(p) % alignment) {
               sim_fail("scratch", "scratch memory is not aligned to %zu", alignment);
            }
            bool inside = p >= buffer + shift && p + bytes <= buffer + shift + initial;
            for (auto& piece : up.live) {
               inside = inside || (p >= piece.p && p + bytes <= piece.p + piece.n);
            }
            if (bytes && !inside) {
               sim_fail("scratch", "%zu bytes of scratch memory lie outside every buffer", bytes);
            }
            for (auto& g : given) {
               if (p < g.p + g.n && g.p < p + bytes) {
                  sim_fail("scratch", "two pieces of scratch memory overlap");
               }
            }
            auto mark = (unsigned char)(i * 7 + 1);
            memset(p, mark, bytes);
            given.push_back({p, bytes, mark});
            for (auto& g : given) {
               for (size_t k = 0; k < g.n; k++) {
                  if ((unsigned char)(g.p[k]) != g.mark) {
                     sim_fail("scratch", "scratch memory was overwritten");
                  }
               }
            }
            sim_count("pieces", 1);
         }
      }
      if (!up.live.empty()) {
         sim_fail("scratch", "%zu buffers of scratch memory were not returned", up.live.size());
      }
      operator delete(buffer);
      sim_nontrivial();
      sim_alloc_check();
   }
   // registering names while memory is short
   void a01n() {
      int steps = 1 + sim_choose(12, "names");
      std::vector<std::pair<std::string, int>> seen;
      seen.reserve(64);
      for (int i = 0; i < steps; i++) {
         std::string text(1 + sim_choose(30, "length"), char('a' + sim_choose(3, "letter")));
         bool inject = sim_coin(1, 2, "fail");
         int id = -1;
         if (inject) {
            sim_alloc_arm(1 + sim_choose(4, "failing allocation"), 0);
         }
         try {
            id = sim_coin(1, 2, "from characters") ? FastName(text.c_str()).id : FastName(text).id;
         } catch (const std::bad_alloc&) {
         }
         if (inject) {
            if (sim_alloc_fired()) {
               sim_fault("allocation_failure");
               sim_nontrivial();
            }
            sim_alloc_disarm();
         }
         if (id >= 0) {
            for (auto& [s, n] : seen) {
               if ((s == text) != (n == id)) {
                  sim_fail("name-table", "names \"%s\" and \"%s\" got identities %d and %d", s.c_str(), text.c_str(), n, id);
               }
            }
            seen.push_back({text, id});
         }
         for (auto& [s, n] : seen) {
            if (std::string(FastName(n)) != s || FastName(s).id != n) {
               sim_fail("name-table", "name \"%s\" is no longer found under its identity", s.c_str());
            }
         }
         // a fresh name must still get a usable identity
         if (i + 1 == steps) {
            FastName fresh("zz fresh");
            if (std::string(fresh) != "zz fresh") {
               sim_fail("name-table", "a name registered after a failure reads back as another one");
            }
         }
      }
      sim_alloc_check();
   }
} // namespace

extern "C" __attribute__((visibility("default"))) void sim_main(const char* scenario) {
   std::vector<MemKind> kinds;
   kinds.reserve(32);
   mem_No(kinds);
   mem_Z2(kinds);
   mem_U1(kinds);
   mem_Fermi(kinds);
   mem_FermiZ2(kinds);
   mem_FermiU1(kinds);
   std::string s = scenario;
   if (s == "a03r") {
      a03r();
      return;
   }
   if (s == "a01n") {
      a01n();
      return;
   }
   auto& k = kinds[sim_choose(uint32_t(kinds.size()), "kind")];
   sim_event("kind %s", k.name);
   if (s == "a01") {
      k.a01();
   } else if (s == "a02") {
      k.a02();
   } else if (s == "a03") {
      k.a03();
   } else {
      sim_fail("simulator", "unknown scenario %s", scenario);
   }
}
