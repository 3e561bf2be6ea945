// Deterministic simulator core: decisions, scheduler, process images, heap,
// clock, entropy, output and storage seams, run driver.
#include "core.h"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#include <algorithm>
#include <exception>
#include <iostream>
#include <new>
#include <random>
#include <set>
#include <streambuf>

namespace sim {
   // ---------------------------------------------------------------- shared result of one run
   constexpr uint32_t max_choices = 1u << 20;
   constexpr uint32_t max_counters = 320;
   constexpr uint32_t max_log = 1u << 19;
   enum Outcome { running = 0, ok = 1, violation = 2, discarded = 3, broken = 4 };
   struct Counter {
      char name[56];
      uint64_t value;
   };
   struct Result {
      volatile int outcome;
      int nontrivial;
      char cls[160];
      char msg[6000];
      uint64_t hash;       // hash of the whole event history
      uint64_t schedule;   // hash of the schedule only (which rank / delivery at each step)
      uint64_t steps;
      uint64_t now;
      uint64_t seq;
      uint32_t counters_used;
      Counter counters[max_counters];
      uint32_t log_used;
      char log[max_log];
      uint32_t choices_used;
      uint32_t choices[max_choices];
   };
   Result* R;
   bool log_enabled = false;

   // ---------------------------------------------------------------- configuration
   std::string image_prefix;
   int image_count = 0;
   int images_used = 0;
   std::string scenario;
   int ranks_min = 1, ranks_max = 1;
   uint64_t step_budget = 400000;
   std::map<std::string, std::string> params;
   int cpu_limit = 60;

   // ---------------------------------------------------------------- decisions
   struct Rng {
      uint64_t s;
      uint64_t next() {
         uint64_t z = (s += 0x9e3779b97f4a7c15ull);
         z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
         z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
         return z ^ (z >> 31);
      }
   };
   Rng rng;
   bool replaying = false;
   std::vector<uint32_t> replay_choices;

   int current = -1;
   int world = 1;
   Swarm swarm;
   bool inside = true; // simulator owns allocations unless a rank's own code runs

   Inside::Inside() : saved(inside) {
      inside = true;
   }
   Inside::~Inside() {
      inside = saved;
   }

   void mix(uint64_t& h, uint64_t v) {
      h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
      h *= 0xff51afd7ed558ccdull;
      h ^= h >> 32;
   }
   void hash_bytes(uint64_t& h, const void* p, size_t n) {
      auto b = static_cast<const unsigned char*>(p);
      uint64_t acc = 1469598103934665603ull;
      for (size_t i = 0; i < n; i++) {
         acc = (acc ^ b[i]) * 1099511628211ull;
      }
      mix(h, acc);
      mix(h, n);
   }

   void vlog(const char* fmt, va_list ap) {
      char line[1024];
      int n = vsnprintf(line, sizeof(line), fmt, ap);
      if (n < 0) {
         return;
      }
      if (n >= (int)sizeof(line)) {
         n = sizeof(line) - 1;
      }
      R->seq++;
      mix(R->hash, R->seq * 31 + current + 1);
      hash_bytes(R->hash, line, n);
      if (R->log_used + n + 40 < max_log) {
         uint32_t used = R->log_used;
         used += snprintf(R->log + used, 40, "%llu r%d ", (unsigned long long)R->seq, current);
         memcpy(R->log + used, line, n);
         used += n;
         R->log[used++] = '\n';
         R->log_used = log_enabled ? used : 0;
      }
   }
   void note(const char* fmt, ...) {
      va_list ap;
      va_start(ap, fmt);
      vlog(fmt, ap);
      va_end(ap);
   }

   [[noreturn]] void finish(int outcome) {
      R->outcome = outcome;
      _exit(0);
   }

   // ---------------------------------------------------------------- heap
   // All operator new traffic of the process lives in one fixed-address arena with guards.
   // slot: [Block header | back pointer] [shift for alignment] [user bytes] [guard]
   struct Block {
      uint64_t magic;
      uint64_t size;
      int32_t owner; // rank or -1 (simulator)
      uint32_t klass;
      Block* next;
      uint64_t shift;
   };
   constexpr uint64_t header = 48;
   static_assert(sizeof(Block) + sizeof(Block*) == header, "");
   constexpr uint64_t tail = 16;
   constexpr uint64_t live_magic = 0x4c4956455f424c4bull;
   constexpr uint64_t free_magic = 0x465245455f424c4bull;
   char* const arena_base = reinterpret_cast<char*>(0x100000000000ull);
   constexpr uint64_t arena_size = 1ull << 36;
   char* arena_next = nullptr;
   constexpr int classes = 4096 + 64;
   Block* free_list[classes];
   constexpr int quarantine_capacity = 256;
   Block* quarantine[quarantine_capacity];
   int quarantine_used = 0, quarantine_head = 0;
   int heap_mode = 0;
   uint64_t heap_limit = 1ull << 28;
   uint64_t heap_denied = 0;
   uint64_t live_blocks[max_ranks + 1], live_bytes[max_ranks + 1];
   uint64_t total_rank_bytes = 0;
   unsigned char fill_pattern = 0xcd;
   constexpr uint64_t poison_span = 1024;

   // fault arming
   uint64_t alloc_count = 0, alloc_nth = 0, alloc_every = 0;
   int alloc_fired_count = 0;

   uint32_t class_of(uint64_t size) {
      if (size <= 65520) {
         uint64_t k = (size + 15) / 16;
         return uint32_t(k == 0 ? 1 : k);
      }
      uint64_t p = 1ull << 17;
      uint32_t k = 4096;
      while (p < size) {
         p <<= 1;
         k++;
      }
      return k;
   }
   uint64_t slot_of(uint32_t klass) {
      return klass < 4096 ? uint64_t(klass) * 16 : (1ull << 17) << (klass - 4096);
   }
   unsigned char* user_of(Block* b) {
      return reinterpret_cast<unsigned char*>(b) + header + b->shift;
   }
   uint64_t guard_span(Block* b) {
      uint64_t n = slot_of(b->klass) - b->shift - b->size + tail;
      return n < 64 ? n : 64;
   }
   bool guards_ok(Block* b) {
      auto user = user_of(b);
      uint64_t span = guard_span(b);
      for (uint64_t i = 0; i < span; i++) {
         if (user[b->size + i] != 0xe7) {
            return false;
         }
      }
      Block* back;
      memcpy(&back, user - sizeof(back), sizeof(back));
      return back == b;
   }
   bool poison_ok(Block* b) {
      auto user = user_of(b);
      uint64_t span = b->size < poison_span ? b->size : poison_span;
      for (uint64_t i = 0; i < span; i++) {
         if (user[i] != 0xdb) {
            return false;
         }
      }
      return true;
   }
   [[noreturn]] void heap_error(const char* what, void* p) {
      inside = true;
      sim_fail((std::string("heap:") + what).c_str(), "%s at block %p (rank %d)", what, p, current);
   }
   void put_free(Block* b) {
      b->next = free_list[b->klass];
      free_list[b->klass] = b;
   }
   void* heap_allocate(uint64_t size, uint64_t alignment) {
      if (arena_next == nullptr) {
         void* m = mmap(arena_base, arena_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
         if (m != arena_base) {
            fprintf(stderr, "simrun: cannot map arena\n");
            _exit(9);
         }
         arena_next = arena_base;
      }
      uint32_t k = class_of(alignment > 16 ? size + alignment : size);
      Block* b = nullptr;
      if (heap_mode != 2 && free_list[k]) {
         b = free_list[k];
         free_list[k] = b->next;
         if (!poison_ok(b)) {
            heap_error("write-after-free", user_of(b));
         }
      } else {
         b = reinterpret_cast<Block*>(arena_next);
         arena_next += header + slot_of(k) + tail;
         if (uint64_t(arena_next - arena_base) > arena_size) {
            heap_error("runaway-memory", b);
         }
         b->klass = k;
      }
      b->magic = live_magic;
      b->size = size;
      b->owner = inside ? -1 : current;
      b->next = nullptr;
      b->shift = 0;
      if (alignment > 16) {
         uint64_t at = reinterpret_cast<uint64_t>(b) + header;
         b->shift = (alignment - at % alignment) % alignment;
      }
      auto user = user_of(b);
      memcpy(user - sizeof(b), &b, sizeof(b));
      memset(user + size, 0xe7, guard_span(b));
      if (!inside) {
         memset(user, fill_pattern, size < poison_span ? size : poison_span);
      }
      int o = b->owner + 1;
      live_blocks[o]++;
      live_bytes[o] += size;
      if (b->owner >= 0) {
         total_rank_bytes += size;
         if (total_rank_bytes > (3ull << 30)) {
            heap_error("runaway-memory", user);
         }
      }
      return user;
   }
   void heap_free(void* p) {
      if (p == nullptr) {
         return;
      }
      char* user = static_cast<char*>(p);
      if (user < arena_base + header || user >= arena_next || reinterpret_cast<uint64_t>(user) % 16 != 0) {
         heap_error("invalid-free", p);
      }
      Block* b;
      memcpy(&b, user - sizeof(b), sizeof(b));
      char* raw = reinterpret_cast<char*>(b);
      if (raw < arena_base || raw > user - header || reinterpret_cast<uint64_t>(raw) % 16 != 0) {
         heap_error("invalid-free", p);
      }
      if (b->magic == free_magic) {
         heap_error("double-free", p);
      }
      if (b->magic != live_magic || user_of(b) != reinterpret_cast<unsigned char*>(user)) {
         heap_error("invalid-free", p);
      }
      if (!guards_ok(b)) {
         heap_error("overflow", p);
      }
      int o = b->owner + 1;
      live_blocks[o]--;
      live_bytes[o] -= b->size;
      if (b->owner >= 0) {
         total_rank_bytes -= b->size;
      }
      b->magic = free_magic;
      memset(user, 0xdb, b->size < poison_span ? b->size : poison_span);
      if (heap_mode == 0) {
         put_free(b);
      } else if (heap_mode == 1) {
         if (quarantine_used == quarantine_capacity) {
            Block* old = quarantine[quarantine_head];
            put_free(old);
            quarantine[quarantine_head] = b;
            quarantine_head = (quarantine_head + 1) % quarantine_capacity;
         } else {
            quarantine[(quarantine_head + quarantine_used) % quarantine_capacity] = b;
            quarantine_used++;
         }
      }
   }
   void heap_check_all() {
      for (char* p = arena_base; p < arena_next;) {
         Block* b = reinterpret_cast<Block*>(p);
         if (b->magic == live_magic) {
            if (!guards_ok(b)) {
               heap_error("overflow", user_of(b));
            }
         } else if (b->magic == free_magic) {
            if (!poison_ok(b)) {
               heap_error("write-after-free", user_of(b));
            }
         } else {
            heap_error("corrupted-header", p);
         }
         p += header + slot_of(b->klass) + tail;
      }
   }
   void* checked_new(uint64_t size, uint64_t alignment = 16) {
      if (!inside && current >= 0) {
         alloc_count += alloc_nth != 0;
         if (alloc_nth != 0 && (alloc_count == alloc_nth || (alloc_every != 0 && alloc_count > alloc_nth && (alloc_count - alloc_nth) % alloc_every == 0))) {
            alloc_fired_count++;
            mix(R->hash, 0xa110cull + alloc_count);
            throw std::bad_alloc();
         }
         if (size > heap_limit) {
            heap_denied++;
            throw std::bad_alloc();
         }
      }
      return heap_allocate(size, alignment);
   }

   // ---------------------------------------------------------------- storage and blackboard
   std::map<std::string, std::string> disk, board;

   // ---------------------------------------------------------------- clock
   uint64_t clock_rate = 50;
   int64_t clock_offset = 0;
   constexpr int64_t epoch = 1600000000ll;

   // ---------------------------------------------------------------- output capture
   std::string captured[3];
   struct Capture : std::streambuf {
      int which;
      std::string pending[max_ranks];
      explicit Capture(int w) : which(w) {}
      void emit(const char* s, size_t n) {
         Inside guard;
         captured[which].append(s, n);
         mix(R->hash, which);
         hash_bytes(R->hash, s, n);
      }
      std::streamsize xsputn(const char* s, std::streamsize n) override {
         if (current < 0) {
            return n;
         }
         if (swarm.output_unbuffered[which]) {
            sim_yield("write");
            emit(s, n);
            sim_yield("written");
         } else {
            Inside guard;
            pending[current].append(s, n);
         }
         return n;
      }
      int_type overflow(int_type c) override {
         if (!traits_type::eq_int_type(c, traits_type::eof())) {
            char x = traits_type::to_char_type(c);
            xsputn(&x, 1);
         }
         return traits_type::not_eof(c);
      }
      int sync() override {
         if (current >= 0 && !pending[current].empty()) {
            Inside guard;
            sim_yield("flush");
            std::string s;
            s.swap(pending[current]);
            emit(s.data(), s.size());
         }
         return 0;
      }
   };
   Capture* capture[3];

   // ---------------------------------------------------------------- ranks
   struct Fiber {
      ucontext_t context;
      char* stack = nullptr;
      void* image = nullptr;
      void (*entry)(const char*) = nullptr;
      bool started = false;
      bool done = true;
      bool blocked = false;
      std::function<bool()> predicate;
      const char* where = "";
      int incarnation = 0;
      uint64_t stalled_until = 0;
      int priority = 0;
      bool inside = false;
      bool unload = false;
      char eh[32]; // saved exception handling globals
      struct {
         std::ios_base::fmtflags flags;
         std::streamsize precision, width;
         char fill;
      } ios[3];
      bool ios_valid = false;
   };
   Fiber fibers[max_ranks];
   ucontext_t scheduler_context;
   constexpr size_t stack_size = 8u << 20;
   bool restart_requested = false;
   bool preemptible = true;
   std::ostream* streams[3] = {&std::cout, &std::clog, &std::cerr};

   void save_tls(Fiber& f) {
      memcpy(f.eh, abi::__cxa_get_globals(), 16);
      for (int i = 0; i < 3; i++) {
         f.ios[i].flags = streams[i]->flags();
         f.ios[i].precision = streams[i]->precision();
         f.ios[i].width = streams[i]->width();
         f.ios[i].fill = streams[i]->fill();
      }
      f.ios_valid = true;
   }
   void load_tls(Fiber& f) {
      memcpy(abi::__cxa_get_globals(), f.eh, 16);
      for (int i = 0; i < 3; i++) {
         if (f.ios_valid) {
            streams[i]->flags(f.ios[i].flags);
            streams[i]->precision(f.ios[i].precision);
            streams[i]->width(f.ios[i].width);
            streams[i]->fill(f.ios[i].fill);
         } else {
            streams[i]->flags(std::ios_base::skipws | std::ios_base::dec | (i == 2 ? std::ios_base::unitbuf : std::ios_base::fmtflags(0)));
            streams[i]->precision(6);
            streams[i]->width(0);
            streams[i]->fill(' ');
         }
         streams[i]->clear();
      }
   }

   void switch_out() {
      int me = current;
      Fiber& f = fibers[me];
      f.inside = inside;
      save_tls(f);
      swapcontext(&f.context, &scheduler_context);
      // resumed
      load_tls(f);
      inside = f.inside;
      current = me;
   }

   std::string exception_name() {
      auto type = abi::__cxa_current_exception_type();
      if (!type) {
         return "unknown";
      }
      int status = 0;
      char* name = abi::__cxa_demangle(type->name(), nullptr, nullptr, &status);
      std::string result = name ? name : type->name();
      free(name);
      return result;
   }

   void fiber_main() {
      int me = current;
      Fiber& f = fibers[me];
      load_tls(f);
      inside = false;
      try {
         f.entry(scenario.c_str());
         if (f.unload) {
            note("unload image");
            auto leave = reinterpret_cast<void (*)()>(dlsym(f.image, "sim_image_exit"));
            if (!leave) {
               sim_fail("simulator", "no sim_image_exit");
            }
            leave();
            note("image unloaded");
            if (sim_mpi_inits() != 1 || sim_mpi_finalizes() != 1) {
               sim_fail("lifecycle", "rank %d exited after %d MPI_Init and %d MPI_Finalize calls", me, sim_mpi_inits(), sim_mpi_finalizes());
            }
         }
      } catch (const std::exception& e) {
         inside = true;
         sim_fail("uncaught-exception", "rank %d: %s: %s", me, exception_name().c_str(), e.what());
      } catch (...) {
         inside = true;
         sim_fail("uncaught-exception", "rank %d: %s", me, exception_name().c_str());
      }
      inside = true;
      note("exit");
      f.done = true;
      f.inside = true;
      save_tls(f);
      swapcontext(&f.context, &scheduler_context);
      abort();
   }

   void block(const char* what, std::function<bool()> predicate) {
      Fiber& f = fibers[current];
      f.blocked = true;
      f.where = what;
      f.predicate = std::move(predicate);
      switch_out();
      f.blocked = false;
      f.predicate = nullptr;
   }

   void start_rank(int r) {
      Fiber& f = fibers[r];
      Inside guard;
      if (images_used >= image_count) {
         sim_fail("simulator", "out of process images");
      }
      std::string path = image_prefix + std::to_string(images_used++) + ".so";
      current = r;
      inside = false;
      f.ios_valid = false;
      memset(f.eh, 0, sizeof(f.eh));
      load_tls(f);
      // static constructors of the image run as rank r (this is where a global MPI handle is created)
      void* image = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
      inside = true;
      if (!image) {
         R->outcome = broken;
         snprintf(R->msg, sizeof(R->msg), "dlopen: %s", dlerror());
         _exit(0);
      }
      current = -1;
      f.image = image;
      f.entry = reinterpret_cast<void (*)(const char*)>(dlsym(image, "sim_main"));
      if (!f.entry) {
         R->outcome = broken;
         snprintf(R->msg, sizeof(R->msg), "no sim_main");
         _exit(0);
      }
      if (!f.stack) {
         f.stack = static_cast<char*>(mmap(nullptr, stack_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
         mprotect(f.stack, 16384, PROT_NONE);
      } else {
         f.stack = static_cast<char*>(mmap(nullptr, stack_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
         mprotect(f.stack, 16384, PROT_NONE);
      }
      getcontext(&f.context);
      f.context.uc_stack.ss_sp = f.stack;
      f.context.uc_stack.ss_size = stack_size;
      f.context.uc_link = nullptr;
      makecontext(&f.context, fiber_main, 0);
      f.done = false;
      f.blocked = false;
      f.started = false;
      f.stalled_until = 0;
   }

   void resume(int r) {
      current = r;
      swapcontext(&scheduler_context, &fibers[r].context);
      current = -1;
      inside = true;
      memset(abi::__cxa_get_globals(), 0, 16);
   }

   uint64_t current_step() {
      return R->steps;
   }

   // Picks an index with the given weights through one decision.
   int weighted(const std::vector<uint32_t>& weights, const char* tag) {
      uint64_t total = 0;
      for (auto w : weights) {
         total += w;
      }
      uint32_t v = sim_choose(uint32_t(total), tag);
      for (size_t i = 0; i < weights.size(); i++) {
         if (v < weights[i]) {
            return int(i);
         }
         v -= weights[i];
      }
      return int(weights.size()) - 1;
   }

   int next_world = 0;
   void configure_swarm() {
      if (world <= 1) {
         return;
      }
      swarm.policy = sim_choose(6, "policy");
      swarm.slow = sim_choose(1u << world, "slow set");
      swarm.send_mode = sim_choose(4, "send mode");
      swarm.send_limit = 1u << sim_choose(12, "send limit");
      swarm.stall_links = sim_coin(1, 3, "stall links");
      swarm.stall_ranks = sim_coin(1, 4, "stall ranks");
      swarm.collective_early = sim_coin(1, 2, "collective early");
      for (int i = 0; i < 3; i++) {
         swarm.output_unbuffered[i] = sim_coin(1, 2, "unbuffered");
      }
   }

   void run_world() {
      int last = -1;
      std::vector<int> kinds;
      std::vector<uint32_t> weights;
      while (true) {
         if (restart_requested) {
            restart_requested = false;
            if (next_world) {
               world = next_world;
               next_world = 0;
               configure_swarm();
            }
            note("world restart %d", world);
            mpi_reset(world);
            for (int r = 0; r < world; r++) {
               fibers[r].incarnation++;
               for (int w = 0; w < 3; w++) {
                  capture[w]->pending[r].clear();
               }
            }
            for (int r = 0; r < world; r++) {
               start_rank(r);
            }
         }
         bool all_done = true;
         for (int r = 0; r < world; r++) {
            all_done = all_done && fibers[r].done;
         }
         if (all_done) {
            return;
         }
         R->steps++;
         R->now += 1000;
         if (R->steps > step_budget) {
            sim_fail("no-progress", "no completion within %llu scheduler steps; %s", (unsigned long long)step_budget, mpi_describe().c_str());
         }
         kinds.clear();
         weights.clear();
         bool any_ready_but_stalled = false;
         for (int pass = 0; pass < 2; pass++) {
            for (int r = 0; r < world; r++) {
               Fiber& f = fibers[r];
               if (f.done || (f.blocked && !f.predicate())) {
                  continue;
               }
               if (pass == 0 && f.stalled_until > R->steps) {
                  any_ready_but_stalled = true;
                  continue;
               }
               uint32_t w = 8;
               switch (swarm.policy) {
                  case 1: w = r == last ? 64 : 8; break;
                  case 2: w = (swarm.slow >> r) & 1 ? 1 : 64; break;
                  case 3: w = 1u << (2 * fibers[r].priority); break;
                  default: break;
               }
               kinds.push_back(r);
               weights.push_back(w);
            }
            int deliverable = mpi_deliverable();
            for (int d = 0; d < deliverable; d++) {
               if (pass == 0 && mpi_channel_stalled(d, R->steps)) {
                  any_ready_but_stalled = true;
                  continue;
               }
               kinds.push_back(100 + d);
               weights.push_back(swarm.policy == 4 ? 1 : swarm.policy == 5 ? 64 : 8);
            }
            if (!kinds.empty() || !any_ready_but_stalled) {
               break;
            }
            R->now += 1000000; // everything waits: the stall passes
         }
         if (kinds.empty()) {
            std::string s;
            for (int r = 0; r < world; r++) {
               s += "rank " + std::to_string(r) + (fibers[r].done ? ": finished; " : std::string(": in ") + fibers[r].where + "; ");
            }
            sim_fail("deadlock", "%s%s", s.c_str(), mpi_describe().c_str());
         }
         int pick = kinds.size() == 1 ? 0 : weighted(weights, "sched");
         int kind = kinds[pick];
         mix(R->schedule, kind);
         mix(R->hash, kind);
         if (kind >= 100) {
            mpi_deliver(kind - 100);
         } else {
            if (swarm.stall_ranks && sim_coin(1, 40, "stall rank")) {
               fibers[kind].stalled_until = R->steps + 5 + sim_choose(60, "stall length");
               sim_fault("rank_stalled");
            }
            last = kind;
            resume(kind);
            if (swarm.policy == 3 && sim_coin(1, 16, "priority change")) {
               fibers[kind].priority = sim_choose(6, "priority");
            }
         }
      }
   }

   // ---------------------------------------------------------------- one run
   void signal_handler(int sig) {
      inside = true;
      if (R->outcome == running) {
         snprintf(R->cls, sizeof(R->cls), sig == SIGPROF ? "hang" : "crash:%s", sig == SIGPROF ? "" : sigabbrev_np(sig));
         if (sig == SIGPROF) {
         R->hash = 0; // where the interval timer hit is not part of the history
      }
      snprintf(R->msg, sizeof(R->msg), sig == SIGPROF ? "no progress within the CPU budget (rank %d)" : "killed by a signal while rank %d was running", current);
         R->outcome = violation;
      }
      _exit(0);
   }
   [[noreturn]] void on_terminate() {
      inside = true;
      std::string what = "std::terminate called";
      if (std::current_exception()) {
         what += " for " + exception_name();
      }
      sim_fail("terminate", "rank %d: %s", current, what.c_str());
   }

   void run_once() {
      inside = true;
      R->outcome = running;
      std::set_terminate(on_terminate);
      stack_t alt{};
      alt.ss_sp = mmap(nullptr, 1 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      alt.ss_size = 1 << 16;
      sigaltstack(&alt, nullptr);
      struct sigaction action {};
      action.sa_handler = signal_handler;
      action.sa_flags = SA_ONSTACK;
      for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGPROF}) {
         sigaction(s, &action, nullptr);
      }
      struct itimerval timer {};
      timer.it_value.tv_sec = cpu_limit;
      setitimer(ITIMER_PROF, &timer, nullptr);

      world = ranks_min + (ranks_max > ranks_min ? int(sim_choose(ranks_max - ranks_min + 1, "world size")) : 0);
      memset(&swarm, 0, sizeof(swarm));
      fill_pattern = sim_choose(4, "fill") ? 0xcd : 0x00;
      heap_mode = sim_choose(3, "heap reuse");
      configure_swarm();
      mpi_reset(world);
      for (int r = 0; r < world; r++) {
         start_rank(r);
      }
      run_world();
      heap_check_all();
      finish(ok);
   }
} // namespace sim

using namespace sim;

// -------------------------------------------------------------------- operator new/delete
void* operator new(size_t n) {
   return checked_new(n);
}
void* operator new[](size_t n) {
   return checked_new(n);
}
void* operator new(size_t n, const std::nothrow_t&) noexcept {
   try {
      return checked_new(n);
   } catch (...) {
      return nullptr;
   }
}
void* operator new[](size_t n, const std::nothrow_t&) noexcept {
   try {
      return checked_new(n);
   } catch (...) {
      return nullptr;
   }
}
void operator delete(void* p) noexcept {
   heap_free(p);
}
void operator delete[](void* p) noexcept {
   heap_free(p);
}
void operator delete(void* p, size_t) noexcept {
   heap_free(p);
}
void operator delete[](void* p, size_t) noexcept {
   heap_free(p);
}
void operator delete(void* p, const std::nothrow_t&) noexcept {
   heap_free(p);
}
void operator delete[](void* p, const std::nothrow_t&) noexcept {
   heap_free(p);
}

void* operator new(size_t n, std::align_val_t a) {
   return checked_new(n, uint64_t(a));
}
void* operator new[](size_t n, std::align_val_t a) {
   return checked_new(n, uint64_t(a));
}
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept {
   try {
      return checked_new(n, uint64_t(a));
   } catch (...) {
      return nullptr;
   }
}
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept {
   try {
      return checked_new(n, uint64_t(a));
   } catch (...) {
      return nullptr;
   }
}
void operator delete(void* p, std::align_val_t) noexcept {
   heap_free(p);
}
void operator delete[](void* p, std::align_val_t) noexcept {
   heap_free(p);
}
void operator delete(void* p, size_t, std::align_val_t) noexcept {
   heap_free(p);
}
void operator delete[](void* p, size_t, std::align_val_t) noexcept {
   heap_free(p);
}
void operator delete(void* p, std::align_val_t, const std::nothrow_t&) noexcept {
   heap_free(p);
}
void operator delete[](void* p, std::align_val_t, const std::nothrow_t&) noexcept {
   heap_free(p);
}

// -------------------------------------------------------------------- entropy seam
static uint64_t entropy_reads = 0;
namespace std {
   void random_device::_M_init(const std::string&) {}
   void random_device::_M_init_pretr1(const std::string&) {}
   void random_device::_M_fini() {}
   random_device::result_type random_device::_M_getval() {
      entropy_reads++;
      sim_fault("entropy_read");
      return sim_choose(0xffffffffu, "entropy");
   }
   random_device::result_type random_device::_M_getval_pretr1() {
      return _M_getval();
   }
} // namespace std

extern "C" {
// -------------------------------------------------------------------- clock seam
int clock_gettime(clockid_t id, struct timespec* ts) {
   if (!R || current < 0) {
      return int(syscall(SYS_clock_gettime, id, ts));
   }
   R->now += clock_rate;
   int64_t t = int64_t(R->now) + (id == CLOCK_REALTIME ? clock_offset : 0);
   int64_t s = epoch + t / 1000000000ll, n = t % 1000000000ll;
   if (n < 0) {
      n += 1000000000ll;
      s -= 1;
   }
   ts->tv_sec = s;
   ts->tv_nsec = n;
   return 0;
}
int gettimeofday(struct timeval* tv, void*) {
   struct timespec ts;
   clock_gettime(CLOCK_REALTIME, &ts);
   tv->tv_sec = ts.tv_sec;
   tv->tv_usec = ts.tv_nsec / 1000;
   return 0;
}
time_t time(time_t* t) {
   struct timespec ts;
   clock_gettime(CLOCK_REALTIME, &ts);
   if (t) {
      *t = ts.tv_sec;
   }
   return ts.tv_sec;
}

uint32_t sim_choose(uint32_t n, const char* tag) {
   if (n <= 1) {
      return 0;
   }
   uint32_t v;
   uint32_t i = R->choices_used;
   if (i >= max_choices) {
      v = 0;
   } else {
      if (replaying) {
         v = i < replay_choices.size() ? replay_choices[i] % n : 0;
      } else {
         v = uint32_t((__uint128_t(rng.next()) * n) >> 64);
      }
      R->choices[i] = v;
      R->choices_used = i + 1;
   }
   mix(R->hash, (uint64_t(n) << 32) | v);
   // formatted whether or not anybody listens: the stack below holds the same bytes in both modes
   if (R->log_used + 80 < max_log && strcmp(tag, "sched") != 0) {
      int used = snprintf(R->log + R->log_used, 80, "        #%u %s: %u of %u\n", i, tag, v, n);
      R->log_used += log_enabled ? used : 0;
   }
   return v;
}
int sim_coin(uint32_t num, uint32_t den, const char* tag) {
   return sim_choose(den, tag) >= den - num;
}
int sim_rank() {
   return current;
}
int sim_size() {
   return world;
}
int sim_incarnation() {
   return current >= 0 ? fibers[current].incarnation : 0;
}
const char* sim_param(const char* key, const char* fallback) {
   Inside guard;
   auto found = params.find(key);
   return found == params.end() ? fallback : found->second.c_str();
}
void sim_event(const char* fmt, ...) {
   va_list ap;
   va_start(ap, fmt);
   vlog(fmt, ap);
   va_end(ap);
}
void sim_hash(const void* data, size_t length) {
   hash_bytes(R->hash, data, length);
}
void sim_count(const char* name, uint64_t n) {
   for (uint32_t i = 0; i < R->counters_used; i++) {
      if (strncmp(R->counters[i].name, name, sizeof(Counter::name) - 1) == 0) {
         R->counters[i].value += n;
         return;
      }
   }
   if (R->counters_used < max_counters) {
      auto& c = R->counters[R->counters_used++];
      snprintf(c.name, sizeof(c.name), "%s", name);
      c.value = n;
   }
}
void sim_fault(const char* kind) {
   char name[56];
   snprintf(name, sizeof(name), "fault.%s", kind);
   sim_count(name, 1);
   R->nontrivial = 1;
}
void sim_nontrivial() {
   R->nontrivial = 1;
}
void sim_fail(const char* cls, const char* fmt, ...) {
   inside = true;
   if (R->outcome == running) {
      snprintf(R->cls, sizeof(R->cls), "%s", cls);
      va_list ap;
      va_start(ap, fmt);
      vsnprintf(R->msg, sizeof(R->msg), fmt, ap);
      va_end(ap);
   }
   finish(violation);
}
void sim_discard(const char* why) {
   snprintf(R->msg, sizeof(R->msg), "%s", why);
   finish(discarded);
}
uint64_t sim_now() {
   return R->now;
}
void sim_advance(uint64_t ns) {
   R->now += ns;
}
uint64_t sim_seq() {
   return R->seq;
}
void sim_yield(const char* where) {
   if (current < 0 || world == 1) {
      return;
   }
   Inside guard;
   fibers[current].where = where;
   switch_out();
}
static int sync_arrived = 0;
static uint64_t sync_round = 0;
void sim_sync() {
   Inside guard;
   uint64_t my = sync_round;
   if (++sync_arrived == world) {
      sync_arrived = 0;
      sync_round++;
      return;
   }
   block("harness sync", [my] { return sync_round != my; });
}
void sim_restart_world_with(int ranks, int planned) {
   inside = true;
   sync_arrived = 0;
   restart_requested = true;
   next_world = ranks;
   if (!planned) {
      sim_fault("crash_restart");
   }
   swapcontext(&fibers[current].context, &scheduler_context);
   abort();
}
void sim_restart_world() {
   sim_restart_world_with(0, 0);
}
void sim_request_unload() {
   // once sim_main returned, run the static destructors of this rank's image as this rank
   fibers[current].unload = true;
}

void sim_alloc_arm(uint64_t nth, uint64_t every) {
   alloc_count = 0;
   alloc_nth = nth;
   alloc_every = every;
   alloc_fired_count = 0;
}
uint64_t sim_alloc_disarm() {
   alloc_nth = 0;
   alloc_every = 0;
   return alloc_count;
}
int sim_alloc_fired() {
   return alloc_fired_count;
}
uint64_t sim_alloc_live_blocks() {
   return live_blocks[current + 1];
}
uint64_t sim_alloc_live_bytes() {
   return live_bytes[current + 1];
}
void sim_alloc_check() {
   heap_check_all();
}
void sim_alloc_mode(int m) {
   heap_mode = m;
}
void sim_alloc_fill(int pattern) {
   fill_pattern = (unsigned char)(pattern);
}
void sim_alloc_limit(uint64_t bytes) {
   heap_limit = bytes;
}
uint64_t sim_alloc_denied() {
   return heap_denied;
}
void sim_clock_set_rate(uint64_t r) {
   clock_rate = r;
}
void sim_clock_jump(int64_t ns) {
   clock_offset += ns;
}
uint64_t sim_entropy_reads() {
   return entropy_reads;
}

void sim_disk_write(const char* name, const void* data, size_t length) {
   Inside guard;
   disk[name].assign(static_cast<const char*>(data), length);
   // the length only: raw images of multi-part symmetries contain padding bytes nobody sets
   mix(R->hash, length);
}
void sim_disk_append(const char* name, const void* data, size_t length) {
   Inside guard;
   disk[name].append(static_cast<const char*>(data), length);
   mix(R->hash, length);
}
size_t sim_disk_size(const char* name) {
   Inside guard;
   auto found = disk.find(name);
   return found == disk.end() ? size_t(-1) : found->second.size();
}
size_t sim_disk_read(const char* name, size_t offset, void* data, size_t length) {
   Inside guard;
   auto found = disk.find(name);
   if (found == disk.end() || offset >= found->second.size()) {
      return 0;
   }
   size_t n = std::min(length, found->second.size() - offset);
   memcpy(data, found->second.data() + offset, n);
   return n;
}
void sim_disk_remove(const char* name) {
   Inside guard;
   disk.erase(name);
}
void sim_board_put(const char* key, const void* data, size_t length) {
   Inside guard;
   board[key].assign(static_cast<const char*>(data), length);
}
size_t sim_board_size(const char* key) {
   Inside guard;
   auto found = board.find(key);
   return found == board.end() ? size_t(-1) : found->second.size();
}
size_t sim_board_get(const char* key, void* data, size_t length) {
   Inside guard;
   auto found = board.find(key);
   if (found == board.end()) {
      return 0;
   }
   size_t n = std::min(length, found->second.size());
   memcpy(data, found->second.data(), n);
   return n;
}
size_t sim_output_size(int which) {
   return captured[which].size();
}
const char* sim_output_data(int which) {
   return captured[which].data();
}
void sim_output_clear() {
   for (auto& c : captured) {
      c.clear();
   }
}
void* sim_image_handle() {
   return fibers[current].image;
}
} // extern "C"

// -------------------------------------------------------------------- driver
namespace sim {
   void json_string(FILE* out, const char* s, size_t n) {
      fputc('"', out);
      for (size_t i = 0; i < n; i++) {
         unsigned char c = s[i];
         if (c == '"' || c == '\\') {
            fputc('\\', out);
            fputc(c, out);
         } else if (c < 0x20 || c >= 0x7f) {
            fprintf(out, "\\u%04x", c);
         } else {
            fputc(c, out);
         }
      }
      fputc('"', out);
   }
   double real_seconds() {
      struct timespec ts;
      syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
      return ts.tv_sec + ts.tv_nsec * 1e-9;
   }
   void prepare() {
      R->outcome = running;
      R->nontrivial = 0;
      R->cls[0] = R->msg[0] = 0;
      R->hash = 0x5157;
      R->schedule = 0x1234;
      R->steps = R->now = R->seq = 0;
      R->counters_used = 0;
      R->log_used = 0;
      R->choices_used = 0;
   }
   // executes one run in a forked child; returns the outcome
   int execute() {
      prepare();
      fflush(nullptr);
      pid_t pid = fork();
      if (pid == 0) {
         run_once();
         _exit(0);
      }
      int status = 0;
      while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {
      }
      if (R->outcome == running) {
         R->outcome = violation;
         if (WIFSIGNALED(status)) {
            snprintf(R->cls, sizeof(R->cls), "crash:%s", sigabbrev_np(WTERMSIG(status)));
            snprintf(R->msg, sizeof(R->msg), "simulated process killed by signal %d", WTERMSIG(status));
         } else {
            snprintf(R->cls, sizeof(R->cls), "exit");
            snprintf(R->msg, sizeof(R->msg), "code under test ended the process with status %d", WEXITSTATUS(status));
         }
      }
      return R->outcome;
   }
   void print_run(FILE* out, long long run, bool full) {
      fprintf(out, "{\"type\":\"run\",\"run\":%lld,\"outcome\":%d,\"class\":", run, R->outcome);
      json_string(out, R->cls, strlen(R->cls));
      fprintf(out, ",\"msg\":");
      json_string(out, R->msg, strlen(R->msg));
      fprintf(out, ",\"hash\":\"%016llx\",\"schedule\":\"%016llx\",\"steps\":%llu,\"now\":%llu,\"nontrivial\":%d", (unsigned long long)R->hash,
              (unsigned long long)R->schedule, (unsigned long long)R->steps, (unsigned long long)R->now, R->nontrivial);
      if (full) {
         fprintf(out, ",\"choices\":[");
         for (uint32_t i = 0; i < R->choices_used; i++) {
            fprintf(out, i ? ",%u" : "%u", R->choices[i]);
         }
         fprintf(out, "],\"counters\":{");
         for (uint32_t i = 0; i < R->counters_used; i++) {
            fprintf(out, i ? "," : "");
            json_string(out, R->counters[i].name, strlen(R->counters[i].name));
            fprintf(out, ":%llu", (unsigned long long)R->counters[i].value);
         }
         fprintf(out, "}");
         if (log_enabled) {
            fprintf(out, ",\"log\":");
            json_string(out, R->log, R->log_used);
         }
      }
      fprintf(out, "}\n");
      fflush(out);
   }
} // namespace sim

int main(int argc, char** argv) {
   // fixed addresses for libraries and stacks as well
   if (!getenv("SIM_NO_ASLR_DONE")) {
      setenv("SIM_NO_ASLR_DONE", "1", 1);
      int p = personality(0xffffffff);
      if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) {
         execv("/proc/self/exe", argv);
      }
   }
   uint64_t seed = 1;
   long long first = 0, count = 1, stride = 1;
   double time_limit = 1e9;
   int max_violations = 1;
   bool serve = false;
   bool list_hashes = false;
   long long samples = 0;
   std::string replay_file;
   for (int i = 1; i < argc; i++) {
      std::string a = argv[i];
      auto value = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
      if (a == "--images") {
         image_prefix = value();
      } else if (a == "--image-count") {
         image_count = std::stoi(value());
      } else if (a == "--scenario") {
         scenario = value();
      } else if (a == "--seed") {
         seed = std::stoull(value());
      } else if (a == "--first") {
         first = std::stoll(value());
      } else if (a == "--count") {
         count = std::stoll(value());
      } else if (a == "--stride") {
         stride = std::stoll(value());
      } else if (a == "--time-limit") {
         time_limit = std::stod(value());
      } else if (a == "--ranks-min") {
         ranks_min = std::stoi(value());
      } else if (a == "--ranks-max") {
         ranks_max = std::stoi(value());
      } else if (a == "--steps") {
         step_budget = std::stoull(value());
      } else if (a == "--cpu-limit") {
         cpu_limit = std::stoi(value());
      } else if (a == "--max-violations") {
         max_violations = std::stoi(value());
      } else if (a == "--log") {
         log_enabled = true;
      } else if (a == "--samples") {
         samples = std::stoll(value());
      } else if (a == "--hashes") {
         list_hashes = true;
      } else if (a == "--replay") {
         replay_file = value();
      } else if (a == "--serve") {
         serve = true;
      } else if (a == "-p") {
         std::string kv = value();
         auto eq = kv.find('=');
         params[kv.substr(0, eq)] = eq == std::string::npos ? "" : kv.substr(eq + 1);
      } else {
         fprintf(stderr, "unknown option %s\n", a.c_str());
         return 9;
      }
   }
   R = static_cast<Result*>(mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
   for (int i = 0; i < 3; i++) {
      capture[i] = new Capture(i);
      streams[i]->rdbuf(capture[i]);
   }
   if (serve || !replay_file.empty()) {
      // each input line: a list of decisions; one run per line
      replaying = true;
      FILE* in = serve ? stdin : fopen(replay_file.c_str(), "r");
      if (!in) {
         perror("replay");
         return 9;
      }
      char* line = nullptr;
      size_t capacity = 0;
      long long n = 0;
      while (getline(&line, &capacity, in) >= 0) {
         replay_choices.clear();
         char* p = line;
         while (*p) {
            if (*p >= '0' && *p <= '9') {
               replay_choices.push_back(uint32_t(strtoul(p, &p, 10)));
            } else {
               p++;
            }
         }
         execute();
         print_run(stdout, n++, true);
         if (!serve) {
            break;
         }
      }
      return 0;
   }
   double start = real_seconds();
   std::map<std::string, unsigned long long> counters;
   std::map<std::string, unsigned long long> counter_runs;
   std::set<uint64_t> hashes, schedules;
   unsigned long long runs = 0, discards = 0, steps = 0, nontrivial = 0;
   double simulated = 0;
   int violations = 0;
   long long done = 0;
   for (long long k = 0; k < count; k++) {
      if (real_seconds() - start > time_limit) {
         break;
      }
      long long run = first + k * stride;
      rng.s = seed * 0x9e3779b97f4a7c15ull + uint64_t(run) * 0xd1342543de82ef95ull + 0x2545f4914f6cdd1dull;
      rng.next();
      rng.s ^= rng.next();
      int outcome = execute();
      done++;
      if (list_hashes) {
         printf("{\"type\":\"hash\",\"run\":%lld,\"hash\":\"%016llx\",\"outcome\":%d}\n", run, (unsigned long long)R->hash, outcome);
      }
      if (outcome == broken) {
         print_run(stdout, run, false);
         return 3;
      }
      runs++;
      steps += R->steps;
      simulated += double(R->now) * 1e-9;
      if (outcome == discarded) {
         discards++;
      }
      for (uint32_t i = 0; i < R->counters_used; i++) {
         counters[R->counters[i].name] += R->counters[i].value;
         counter_runs[R->counters[i].name] += 1;
      }
      if (outcome == ok && R->nontrivial) {
         nontrivial++;
         hashes.insert(R->hash);
         schedules.insert(R->schedule);
      }
      if (outcome != violation && k < samples) {
         print_run(stdout, run, true);
      }
      if (outcome == violation) {
         print_run(stdout, run, true);
         if (++violations >= max_violations) {
            break;
         }
      }
   }
   printf("{\"type\":\"summary\",\"runs\":%llu,\"discarded\":%llu,\"steps\":%llu,\"simulated_s\":%.6f,\"nontrivial\":%llu,\"wall\":%.3f,\"violations\":%d,\"counters\":{", runs,
          discards, steps, simulated, nontrivial, real_seconds() - start, violations);
   bool comma = false;
   for (auto& [name, v] : counters) {
      printf("%s\"%s\":[%llu,%llu]", comma ? "," : "", name.c_str(), v, counter_runs[name]);
      comma = true;
   }
   printf("},\"hashes\":[");
   comma = false;
   for (auto h : hashes) {
      printf("%s\"%llx\"", comma ? "," : "", (unsigned long long)h);
      comma = true;
   }
   printf("],\"schedules\":[");
   comma = false;
   for (auto h : schedules) {
      printf("%s\"%llx\"", comma ? "," : "", (unsigned long long)h);
      comma = true;
   }
   printf("]}\n");
   return 0;
}
