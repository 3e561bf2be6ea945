// Scenarios q01, q02, q04: jobs of several processes working on square lattices.
#include "square_common.hpp"
using namespace h;
using namespace square;

namespace {
   int phase() {
      std::string v;
      return look("phase", v) ? atoi(v.c_str()) : 0;
   }
   [[noreturn]] void next_phase(int ranks, bool planned) {
      post("phase", std::to_string(phase() + 1));
      sim_restart_world_with(ranks, planned);
   }
   bool finite(const std::string& fp) {
      return fp.find("nan ") == std::string::npos;
   }

   // ------------------------------------------------------------------ q01
   template<typename T>
   std::vector<std::string> update_program(uint64_t plan) {
      Rng r(plan);
      static const int shapes[][2] = {{1, 2}, {2, 1}, {2, 2}, {1, 3}, {3, 1}, {2, 3}, {3, 2}, {1, 4}, {4, 1}, {1, 1}, {3, 3}};
      if (r.coin(1, 3)) {
         // before, the processes sampled some other lattice, each with random numbers of its own
         auto [m, n] = shapes[r.below(7)];
         random::seed(1 + r.below(1000000));
         SamplingGradientLattice<double> other(m, n, 1 + r.below(2), 4, 2);
         make_hamiltonians(r, other, 0, true, false);
         random::split_seed();
         other.initialize_spin([&](int, int) { return random::uniform<int>(0, 1)(); });
         if (other.spin() != 0) {
            other.equilibrate(1 + r.below(2));
         }
         random::merge_seed();
      }
      if (r.coin(1, 4)) {
         // or updated another one
         auto [m, n] = shapes[r.below(5)];
         random::seed(1 + r.below(1000000));
         SimpleUpdateLattice<double> other(m, n, 1 + r.below(2), 2);
         make_hamiltonians(r, other, 0, true, false);
         other.update(1, 0.01, 0);
      }
      auto [M, N] = shapes[r.below(11)];
      int D = 1 + r.below(M * N > 6 ? 2 : 3), d = M * N > 6 ? 2 : 2 + r.below(2);
      random::seed(1 + r.below(1000000));
      SimpleUpdateLattice<T> lattice(M, N, D, d);
      make_hamiltonians(r, lattice, r.below(2), true, false);
      int rounds = 1 + r.below(2);
      std::vector<std::string> trace{fingerprint(lattice)};
      for (int k = 0; k < rounds; k++) {
         int steps = 1 + r.below(M * N > 4 ? 2 : 3);
         real<T> delta = 0.01 + 0.05 * r.below(5);
         Size dimension = r.coin(1, 2) ? 0 : 1 + r.below(3);
         if (r.coin(1, 6)) {
            // something update does not support: every process says so and changes nothing
            auto copy = lattice;
            copy.hamiltonians[{{0, 0}, {M, N}}] = std::make_shared<const square::Tensor<T>>(make_operator<T>(r, 2, d, 0));
            bool thrown = false;
            try {
               copy.update(steps, delta, 0);
            } catch (const NotImplementedError&) {
               thrown = true;
            }
            trace.push_back(thrown ? "unsupported" : "supported");
         }
         lattice.update(steps, delta, dimension);
         trace.push_back(fingerprint(lattice));
         if (r.coin(1, 3)) {
            make_hamiltonians(r, lattice, r.below(2), true, false);
         }
         if (r.coin(1, 3)) {
            ExactLattice<T> exact(lattice);
            trace.push_back(fingerprint(exact));
         }
      }
      return trace;
   }
   // every amplitude of a lattice of tensors
   template<typename T, typename L>
   std::vector<T> all_amplitudes(const L& lattice, int d) {
      Plain<T> plain(lattice);
      uint64_t count = 1;
      for (int k = 0; k < lattice.M * lattice.N; k++) {
         count *= d;
      }
      std::vector<T> result;
      for (uint64_t c = 0; c < count; c++) {
         result.push_back(plain.amplitude(configuration_of(lattice.M, lattice.N, d, c)));
      }
      return result;
   }
   // state <- exp(-t op) state, by its series
   template<typename T>
   void evolve(std::vector<T>& state, int M, int N, int d, const Positions& positions, const square::Tensor<T>& op, double t) {
      std::vector<uint64_t> stride;
      for (auto [x, y] : positions) {
         uint64_t p = 1;
         for (int k = 0; k < x * N + y; k++) {
            p *= d;
         }
         stride.push_back(p);
      }
      int n = positions.size() == 2 ? d * d : d;
      auto split = [&](int k) {
         return positions.size() == 2 ? std::vector<int>{k % d, k / d} : std::vector<int>{k};
      };
      std::vector<T> matrix(n * n);
      for (int a = 0; a < n; a++) {
         for (int b = 0; b < n; b++) {
            matrix[a * n + b] = element(op, split(a), split(b));
         }
      }
      auto term = state;
      for (int order = 1; order < 60; order++) {
         std::vector<T> next(state.size(), T(0));
         for (uint64_t c = 0; c < state.size(); c++) {
            int in = 0;
            uint64_t base = c;
            for (int k = int(positions.size()) - 1; k >= 0; k--) {
               int v = int(c / stride[k] % d);
               in = in * d + v;
               base -= v * stride[k];
            }
            for (int out = 0; out < n; out++) {
               auto o = split(out);
               uint64_t to = base;
               for (size_t k = 0; k < o.size(); k++) {
                  to += o[k] * stride[k];
               }
               next[to] += matrix[in * n + out] * term[c];
            }
         }
         for (uint64_t c = 0; c < state.size(); c++) {
            term[c] = next[c] * T(-t / order);
            state[c] += term[c];
         }
      }
   }
   // an update that cuts nothing applies each term to the sites it names; the terms here commute
   template<typename T>
   void evolution_program(uint64_t plan) {
      Rng r(plan);
      static const int shapes[][2] = {{1, 2}, {2, 1}, {2, 2}, {1, 3}, {3, 1}};
      auto [M, N] = shapes[r.below(5)];
      int D = 1 + r.below(2), d = 2 + r.below(2);
      random::seed(1 + r.below(1000000));
      SimpleUpdateLattice<T> lattice(M, N, D, d);
      Positions bond;
      if (N > 1 && (M == 1 || r.coin(1, 2))) {
         int i = r.below(M), j = r.below(N - 1);
         bond = {{i, j}, {i, j + 1}};
      } else {
         int i = r.below(M - 1), j = r.below(N);
         bond = {{i, j}, {i + 1, j}};
      }
      if (r.coin(1, 2)) {
         std::swap(bond[0], bond[1]);
      }
      lattice.hamiltonians[bond] = std::make_shared<const square::Tensor<T>>(make_operator<T>(r, 2, d, 0));
      for (int i = 0; i < M; i++) {
         for (int j = 0; j < N; j++) {
            if (Position{i, j} != bond[0] && Position{i, j} != bond[1] && r.coin(1, 2)) {
               lattice.hamiltonians[{{i, j}}] = std::make_shared<const square::Tensor<T>>(make_operator<T>(r, 1, d, 0));
            }
         }
      }
      int steps = 1 + r.below(2);
      double delta = 0.01 + 0.02 * r.below(3);
      auto want = all_amplitudes<T>(lattice, d);
      for (const auto& [positions, term] : lattice.hamiltonians) {
         evolve(want, M, N, d, positions, *term, 2 * steps * delta);
      }
      lattice.update(steps, real<T>(delta), 32);
      SamplingGradientLattice<T> result(lattice, 4);
      auto got = all_amplitudes<T>(result, d);
      double a = 0, b = 0;
      T overlap = 0;
      for (size_t c = 0; c < got.size(); c++) {
         a += std::norm(want[c]);
         b += std::norm(got[c]);
         if constexpr (is_complex_v<T>) {
            overlap += std::conj(want[c]) * got[c];
         } else {
            overlap += want[c] * got[c];
         }
      }
      if (!(a > 0) || !(b > 0) || !(std::abs(std::abs(overlap) / std::sqrt(a * b) - 1) < 1e-6)) {
         sim_fail("evolution", "an update that cuts nothing away does not apply its terms: overlap %.9f", std::abs(overlap) / std::sqrt(a * b));
      }
      sim_count("evolutions compared with the exact one", 1);
   }
   void q01() {
      bool is_complex = shared_decision("complex", 4) == 3;
      auto plan = shared_decision("plan", 1u << 20);
      auto run = [&] { return is_complex ? update_program<std::complex<double>>(plan) : update_program<double>(plan); };
      if (phase() == 0) {
         if (sim_choose(2, "against the exact evolution") == 1) {
            auto exact_plan = sim_choose(1u << 20, "evolution");
            is_complex ? evolution_program<std::complex<double>>(exact_plan) : evolution_program<double>(exact_plan);
         }
         auto trace = run();
         for (size_t i = 0; i < trace.size(); i++) {
            if (!finite(trace[i])) {
               sim_discard("the evolution left the finite numbers");
            }
            post("reference " + std::to_string(i), trace[i]);
         }
         post("length", std::to_string(trace.size()));
         next_phase(1 + sim_choose(6, "processes"), true);
      }
      auto trace = run();
      std::string length;
      look("length", length);
      if (int(trace.size()) != atoi(length.c_str())) {
         sim_fail("distributed", "rank %d went through %zu stages instead of %s", sim_rank(), trace.size(), length.c_str());
      }
      for (size_t i = 0; i < trace.size(); i++) {
         std::string want;
         look("reference " + std::to_string(i), want);
         if (trace[i] != want) {
            sim_fail("distributed", "rank %d of %d holds another lattice than a single process after stage %zu", sim_rank(), sim_size(), i);
         }
      }
      sim_count("stages", trace.size());
      if (sim_size() > 1) {
         sim_nontrivial();
      }
      sim_sync();
      if (sim_mpi_residual()) {
         sim_fail("residual", "%d messages were sent and never received", sim_mpi_residual());
      }
   }

   // ------------------------------------------------------------------ q02
   std::string engine_state() {
      std::ostringstream s;
      s << random::engine;
      return s.str();
   }
   std::string draws(int count, int kind) {
      std::ostringstream s;
      s.precision(17);
      for (int i = 0; i < count; i++) {
         switch (kind) {
            case 0: s << random::uniform<int>(0, 1000000)() << " "; break;
            case 1: s << random::uniform<double>(0, 1)() << " "; break;
            case 2: s << random::normal<double>(0, 1)() << " "; break;
            default: {
               auto z = random::uniform<std::complex<double>>({0, 0}, {1, 1})();
               s << z.real() << " " << z.imag() << " ";
            }
         }
      }
      return s.str();
   }
   // every process posts a value, all see all of them
   std::vector<std::string> exchange(const std::string& key, const std::string& value) {
      post(key + " " + std::to_string(sim_rank()), value);
      sim_sync();
      std::vector<std::string> all(sim_size());
      for (int r = 0; r < sim_size(); r++) {
         look(key + " " + std::to_string(r), all[r]);
      }
      sim_sync();
      return all;
   }
   void q02() {
      auto agree = [](const std::vector<std::string>& all, const char* what) {
         for (size_t r = 1; r < all.size(); r++) {
            if (all[r] != all[0]) {
               sim_fail("random", "%s: process %zu has %s and process 0 %s", what, r, all[r].c_str(), all[0].c_str());
            }
         }
      };
      int steps = 2 + int(shared_decision("steps", 12));
      bool merged = false;
      std::map<std::string, std::string> stream;  // label of an agreed state -> what is drawn from it
      std::string label = "";                     // "" when the state is not reproducible
      std::vector<std::string> chosen;            // states chosen from entropy
      for (int k = 0; k < steps; k++) {
         auto tag = [&](const char* s) { return std::string(s) + " " + std::to_string(k); };
         int what = int(shared_decision(tag("what").c_str(), 8));
         if (k == 0) {
            what = what % 2; // agree first
         }
         if (what == 0) {
            uint32_t x = 1 + uint32_t(shared_decision(tag("seed").c_str(), 5)) * 400000007u;
            random::seed(x);
            merged = true;
            label = "s" + std::to_string(x);
            agree(exchange(tag("state"), engine_state()), "after seeding with one number");
         } else if (what == 1) {
            auto before = sim_entropy_reads();
            random::seed(0);
            merged = true;
            label = "";
            auto all = exchange(tag("state"), engine_state());
            agree(all, "after seeding by entropy");
            if (sim_rank() == 0) {
               (void)before;
               for (auto& old : chosen) {
                  if (old == all[0]) {
                     sim_fail("random", "two seeds taken from entropy gave the same numbers");
                  }
               }
               chosen.push_back(all[0]);
            }
         } else if (what == 2 || what == 3) {
            if (!merged) {
               random::merge_seed();
               merged = true;
               label = label == "" ? "" : label + "m";
               agree(exchange(tag("state"), engine_state()), "after merging");
            } else {
               random::split_seed();
               merged = false;
               label = label == "" ? "" : label + "/" + std::to_string(sim_rank());
               auto all = exchange(tag("state"), engine_state());
               for (size_t a = 0; a < all.size(); a++) {
                  for (size_t b = 0; b < a; b++) {
                     if (all[a] == all[b]) {
                        sim_fail("random", "processes %zu and %zu draw the same numbers after splitting", b, a);
                     }
                  }
               }
            }
         } else if (what == 4) {
            // each process offers a seed; the first process decides for all
            auto offer = [&](int r) { return uint32_t(shared_decision((tag("offer") + " " + std::to_string(r)).c_str(), 3)) * 77777u; };
            uint32_t mine = offer(sim_rank()), roots = offer(0);
            uint32_t got = random::get_seed(mine);
            agree(exchange(tag("got"), std::to_string(got)), "the common seed");
            if (roots != 0 && got != roots) {
               sim_fail("random", "the common seed is %u and not the %u the first process gave", got, roots);
            }
         } else {
            int count = 1 + int(shared_decision(tag("count").c_str(), 4)), kind = int(shared_decision(tag("kind").c_str(), 4));
            auto text = draws(count, kind);
            if (merged) {
               agree(exchange(tag("draws"), text), "numbers drawn together");
            } else {
               if (sim_coin(1, 2, "draw more")) {
                  (void)draws(1 + sim_choose(3, "more"), 0);
                  label = ""; // this process went its own way
               }
            }
            if (label != "") {
               label += "d" + std::to_string(count) + std::to_string(kind);
               auto found = stream.emplace(label, text).first;
               if (found->second != text) {
                  sim_fail("random", "the same seed and history gave %s once and %s now", found->second.c_str(), text.c_str());
               }
            }
         }
         if (merged) {
            // after a merge the label of the first process decides, it was the only one that mattered
            auto all = exchange(tag("label"), label);
            label = all[0];
         }
      }
      sim_count("steps", steps);
      sim_nontrivial();
   }

   // ------------------------------------------------------------------ q04
   // a lattice of one of three kinds, worked on, stored, and worked on again
   struct Work {
      virtual ~Work() {}
      virtual void create(Rng& r) = 0;
      virtual void advance(Rng& r) = 0;
      virtual void write(std::ostream& out) = 0;
      virtual void read(std::istream& in) = 0;
      virtual std::string print() = 0;
      virtual bool parallel() = 0;
      virtual std::string probe() = 0; // something computed from the lattice
   };
   template<typename T>
   struct SimpleWork : Work {
      SimpleUpdateLattice<T> l;
      void create(Rng& r) override {
         int M = 1 + r.below(2), N = 1 + r.below(3);
         l = SimpleUpdateLattice<T>(M, N, 1 + r.below(3), 2);
         make_hamiltonians(r, l, r.below(2), false, false);
      }
      void advance(Rng& r) override {
         int steps = 1 + r.below(2);
         real<T> delta = 0.01 + 0.05 * r.below(4);
         l.update(steps, delta, r.coin(1, 2) ? 0 : 1 + r.below(3));
      }
      void write(std::ostream& out) override {
         out < l;
      }
      void read(std::istream& in) override {
         in > l;
      }
      std::string print() override {
         return fingerprint(l);
      }
      bool parallel() override {
         return true;
      }
      std::string probe() override {
         return fingerprint(ExactLattice<T>(l));
      }
   };
   template<typename T>
   struct ExactWork : Work {
      ExactLattice<T> l;
      void create(Rng& r) override {
         int M = 1 + r.below(2), N = 1 + r.below(3);
         l = ExactLattice<T>(M, N, 2);
         make_hamiltonians(r, l, r.below(2), true, false);
      }
      void advance(Rng& r) override {
         l.update(1 + r.below(2), -0.5 - 0.5 * r.below(3));
      }
      void write(std::ostream& out) override {
         out < l;
      }
      void read(std::istream& in) override {
         in > l;
      }
      std::string print() override {
         return fingerprint(l);
      }
      bool parallel() override {
         return true;
      }
      std::string probe() override {
         Print p;
         print_real(p, l.observe_energy());
         return p.s;
      }
   };
   struct SamplingWork : Work {
      SamplingGradientLattice<double> l;
      void create(Rng& r) override {
         int M = 1 + r.below(2), N = 1 + r.below(3), shift = r.below(2);
         l = SamplingGradientLattice<double>(M, N, 1 + r.below(3), 1 + r.below(6), 2);
         make_hamiltonians(r, l, 0, false, false);
         if (r.coin(4, 5)) {
            l.initialize_spin([&](int i, int j) { return (i + j + shift) % 2; });
            if (r.coin(1, 4)) {
               l.spin.set({int(r.below(M)), int(r.below(N))}, -1);
            }
         }
      }
      bool set() {
         for (auto& row : l.spin.configuration) {
            for (int x : row) {
               if (x == -1) {
                  return false;
               }
            }
         }
         return l.M > 0;
      }
      void advance(Rng& r) override {
         int seed = 1 + r.below(100000), steps = 1 + r.below(2);
         if (!set()) {
            return;
         }
         random::seed(seed);
         if (l.spin() != 0) {
            l.equilibrate(steps);
         }
      }
      void write(std::ostream& out) override {
         out < l;
      }
      void read(std::istream& in) override {
         in > l;
      }
      std::string print() override {
         return fingerprint(l);
      }
      bool parallel() override {
         return false;
      }
      std::string probe() override {
         Print p;
         if (set()) {
            print_real(p, l.spin());
            print_value(p, l.spin(Positions{{0, 0}}));
         }
         return p.s;
      }
   };
   std::unique_ptr<Work> make_work(uint64_t kind) {
      switch (kind) {
         case 0: return std::make_unique<SimpleWork<double>>();
         case 1: return std::make_unique<ExactWork<double>>();
         case 2: return std::make_unique<SamplingWork>();
         case 3: return std::make_unique<SimpleWork<std::complex<double>>>();
         default: return std::make_unique<ExactWork<float>>();
      }
   }
   // writes name table and lattice; returns whether the store reported success
   bool store(Work& w, const std::string& file, size_t buffer, size_t capacity, int mode) {
      SimOut device(file, buffer, capacity, mode);
      std::ostream out(&device);
      if (mode && sim_coin(1, 2, "exceptions on")) {
         out.exceptions(std::ios::badbit | std::ios::failbit);
      }
      try {
         out < fast_name_dataset;
         w.write(out);
         out.flush();
      } catch (const std::ios_base::failure&) {
         return false;
      }
      return bool(out);
   }
   void q04() {
      auto kind = shared_decision("kind", 5);
      auto plan = shared_decision("plan", 1u << 20);
      int before = int(shared_decision("before", 3)), after = int(shared_decision("after", 3));
      auto first_half = [&](Work& w) {
         Rng r(plan);
         random::seed(1 + r.below(100000));
         w.create(r);
         for (int i = 0; i < before; i++) {
            w.advance(r);
         }
      };
      auto second_half = [&](Work& w) {
         Rng r(plan + 77);
         for (int i = 0; i < after; i++) {
            w.advance(r);
         }
      };
      auto w = make_work(kind);
      if (phase() == 0) {
         // one process without any interruption
         first_half(*w);
         post("half", w->print());
         second_half(*w);
         auto print = w->print();
         auto probe = w->probe();
         if (!finite(print) || !finite(probe)) {
            sim_discard("the evolution left the finite numbers");
         }
         post("whole", print);
         post("probe", probe);
         next_phase(w->parallel() ? 1 + sim_choose(3, "processes writing") : 1, true);
      }
      if (phase() == 1) {
         first_half(*w);
         sim_sync();
         if (sim_rank() == 0) {
            int fault = sim_choose(4, "while storing"); // 0,1 none, 2 the disk fills up, 3 the crash comes while storing
            size_t buffer = choose_buffer("write buffer");
            bool ok = store(*w, "checkpoint", buffer, size_t(-1), 0);
            if (!ok) {
               sim_fail("checkpoint", "writing to a healthy device reported a failure");
            }
            size_t total = sim_disk_size("checkpoint");
            post("total", std::to_string(total));
            size_t good = total;
            if (fault == 2) {
               size_t capacity = sim_choose(uint32_t(total), "capacity");
               int mode = sim_choose(2, "error mode");
               if (store(*w, "broken", buffer, capacity, mode)) {
                  sim_fail("checkpoint", "a lattice written to a full device was reported as stored");
               }
               std::string data;
               disk_read("broken", data);
               disk_write("checkpoint", data);
               good = data.size();
            } else if (fault == 3) {
               good = sim_choose(uint32_t(total), "durable bytes");
               std::string data;
               disk_read("checkpoint", data);
               disk_write("checkpoint", data.substr(0, good));
               sim_fault("torn_write");
            }
            post("good", std::to_string(good));
            next_phase(w->parallel() ? 1 + sim_choose(3, "processes reading") : 1, false);
         }
         sim_sync(); // the crash ends this
      }
      // after the crash
      std::string half, whole, probe, text;
      look("half", half);
      look("whole", whole);
      look("probe", probe);
      look("good", text);
      size_t good = std::stoull(text);
      look("total", text);
      size_t total = std::stoull(text);
      int history = int(shared_decision("used before reading", 3));
      if (history == 1) {
         // this process did something else first, names included
         for (auto n : {"I1", "O1", "R", "P-1-0", "q", "L"}) {
            (void)FastName(n);
         }
      } else if (history == 2) {
         Rng r(plan + 5);
         random::seed(9);
         make_work(kind)->create(r);
      }
      std::string data;
      disk_read("checkpoint", data);
      size_t piece = choose_piece("read piece");
      if (auto older = shared_decision("over an older lattice", 6); older < 2) {
         Rng r(plan + 6);
         random::seed(9);
         w->create(r);
         if (older == 1) {
            w->advance(r);
         }
      }
      std::string trailer = "and more";
      bool complete = good == total;
      SimIn device(complete ? data + trailer : data, piece, size_t(-1), complete ? 0 : sim_choose(2, "end or error"));
      std::istream in(&device);
      if (sim_coin(1, 3, "exceptions on")) {
         in.exceptions(std::ios::badbit | std::ios::failbit);
      }
      sim_alloc_limit(64u << 20);
      bool reported = false;
      try {
         in > fast_name_dataset;
         w->read(in);
         reported = !in;
      } catch (const std::exception&) {
         reported = true;
      }
      sim_alloc_limit(uint64_t(-1));
      if (!complete) {
         if (!reported) {
            sim_fail("checkpoint", "a checkpoint cut from %zu to %zu bytes was read without an error", total, good);
         }
         sim_count("refused", 1);
         sim_nontrivial();
         // the process can start again from nothing
         w = make_work(kind);
         return;
      }
      if (reported) {
         sim_fail("checkpoint", "a complete checkpoint could not be read");
      }
      if (device.consumed() != data.size()) {
         sim_fail("checkpoint", "reading took %zu of %zu bytes", device.consumed(), data.size());
      }
      if (w->print() != half) {
         sim_fail("checkpoint", "the lattice read back differs from the one stored");
      }
      second_half(*w);
      if (w->print() != whole) {
         sim_fail("checkpoint", "work continued from a checkpoint ends in another lattice than uninterrupted work");
      }
      if (w->probe() != probe) {
         sim_fail("checkpoint", "a quantity computed after a restart differs from uninterrupted work");
      }
      sim_count("continued", 1);
      sim_nontrivial();
      sim_sync();
   }
} // namespace

extern "C" __attribute__((visibility("default"))) void sim_main(const char* scenario) {
   std::string s = scenario;
   if (s == "q01") {
      q01();
   } else if (s == "q02") {
      q02();
   } else if (s == "q04") {
      q04();
   } else {
      sim_fail("simulator", "unknown scenario %s", scenario);
   }
}
