// Scenarios q03, q05, q05s, q06: sampling lattices and their caches.
#include "square_common.hpp"
using namespace h;
using namespace square;
using L = SamplingGradientLattice<double>;

namespace {
   constexpr Size wide = 1000; // no truncation
   bool complete(const L& l) {
      if (l.M == 0) {
         return false;
      }
      for (auto& row : l.spin.configuration) {
         for (int x : row) {
            if (x == -1) {
               return false;
            }
         }
      }
      return true;
   }
   // the only site whose spin is not set
   bool one_missing(const L& l, Position& where) {
      int n = 0;
      for (int x = 0; x < l.M; x++) {
         for (int y = 0; y < l.N; y++) {
            if (l.spin.configuration[x][y] == -1) {
               n++;
               where = {x, y};
            }
         }
      }
      return n == 1;
   }
   // the same lattice built from nothing
   std::unique_ptr<L> rebuilt(const L& l) {
      auto fresh = std::make_unique<L>();
      static_cast<AbstractNetworkLattice<double>&>(*fresh) = static_cast<const AbstractNetworkLattice<double>&>(l);
      fresh->dimension_cut = l.dimension_cut;
      fresh->spin = SpinConfiguration<double>(fresh.get());
      fresh->initialize_spin(l.spin.configuration);
      return fresh;
   }
   // what is asked about a lattice; answered the same way by the lattice and by its rebuilt twin
   struct Question {
      int kind = 0;
      std::map<Position, int> replacement;
      Position hole;
      char hint = ' ';
   };
   Question make_question(const L& l) {
      Question q;
      q.kind = sim_choose(4, "question");
      q.hint = " hv"[sim_choose(3, "hint")];
      int x = sim_choose(l.M, "x"), y = sim_choose(l.N, "y");
      q.hole = {x, y};
      if (q.kind >= 2) {
         int d = int(l.dimension_physics);
         q.replacement[{x, y}] = sim_choose(d, "new spin");
         if (q.kind == 3) {
            int way = sim_choose(4, "neighbour");
            static const int dx[] = {0, 1, 0, -1}, dy[] = {1, 0, -1, 0};
            int u = x + dx[way], v = y + dy[way];
            if (u >= 0 && u < l.M && v >= 0 && v < l.N) {
               q.replacement[{u, v}] = sim_choose(d, "other spin");
            }
         }
      }
      return q;
   }
   std::string answer(const L& l, const Question& q) {
      Print p;
      if (q.kind == 0) {
         print_real(p, l.spin());
      } else if (q.kind == 1) {
         print_value(p, l.spin(Positions{q.hole}, q.hint));
      } else {
         print_real(p, l.spin(q.replacement, complete(l) ? l.spin() : 0, q.hint));
      }
      return p.s;
   }
   void check_exact(const L& l, const Question& q) {
      Plain<double> plain(l);
      auto conf = l.spin.configuration;
      double tolerance = 1e-10 * plain.scale;
      if (q.kind == 1) {
         auto [x, y] = q.hole;
         square::Tensor<double> hole = l.spin(Positions{q.hole}, q.hint).edge_rename({{"L0", "L"}, {"R0", "R"}, {"U0", "U"}, {"D0", "D"}});
         const auto& s = plain.site[x][y];
         for (int u = 0; u < s.u; u++) {
            for (int a = 0; a < s.l; a++) {
               for (int dn = 0; dn < s.dn; dn++) {
                  for (int r = 0; r < s.r; r++) {
                     std::map<square::Name, Size> at;
                     auto add = [&](const char* n, int v) {
                        if (hole.name_to_index.find(n) != hole.name_to_index.end()) {
                           at[n] = v;
                        }
                     };
                     add("U", u);
                     add("L", a);
                     add("D", dn);
                     add("R", r);
                     double want = plain.amplitude(conf, {x, y, u, a, dn, r});
                     double own = 0;
                     for (auto& e : s.a) {
                        own += e * e;
                     }
                     double got = hole.const_at(at);
                     if (!close(got, want, tolerance / std::sqrt(own) + 1e-12)) {
                        sim_fail("amplitude", "derivative at (%d,%d) is %.17g instead of %.17g", x, y, got, want);
                     }
                  }
               }
            }
         }
         return;
      }
      for (auto& [position, spin] : q.replacement) {
         conf[std::get<0>(position)][std::get<1>(position)] = spin;
      }
      double want = plain.amplitude(conf);
      double got = q.kind == 0 ? l.spin() : l.spin(q.replacement, complete(l) ? l.spin() : 0, q.hint);
      if (!close(got, want, tolerance)) {
         sim_fail("amplitude", "amplitude of %s is %.17g instead of %.17g", show_configuration(conf).c_str(), got, want);
      }
   }

   // arms a failing allocation around one call; returns false if the call failed for lack of memory
   template<typename F>
   bool attempt(bool inject, F&& call) {
      if (!inject) {
         call();
         return true;
      }
      uint64_t nth = 1 + sim_choose(sim_coin(1, 2, "late") ? 1500 : 40, "failing allocation");
      uint64_t every = sim_choose(3, "and then") == 0 ? 1 : 0;
      bool ok = true;
      sim_alloc_arm(nth, every);
      try {
         call();
      } catch (const std::bad_alloc&) {
         ok = false;
      }
      int fired = sim_alloc_fired();
      sim_alloc_disarm();
      if (fired) {
         sim_fault("allocation_failure");
      }
      if (!ok && !fired) {
         sim_fail("spurious", "std::bad_alloc although memory was available");
      }
      return ok;
   }

   void q03_history(bool exact, bool faults) {
      Rng r = data_rng("lattices");
      auto cut = [&]() -> Size { return exact ? wide : Size(1 + sim_choose(8, "cut")); };
      random::engine.seed(1 + r.below(1000000));
      std::vector<std::unique_ptr<L>> pool;
      auto make = [&] {
         static const int shapes[][2] = {{2, 2}, {1, 2}, {2, 1}, {1, 3}, {3, 1}, {2, 3}, {3, 2}, {1, 1}, {3, 3}, {4, 1}, {1, 4}, {4, 2}, {2, 4}};
         auto [M, N] = shapes[sim_choose(13, "shape")];
         int D = 1 + sim_choose(M * N > 6 ? 2 : 3, "D"), d = 2 + sim_choose(M * N > 4 ? 1 : 2, "d");
         auto l = std::make_unique<L>(M, N, D, cut(), d);
         if (sim_coin(1, 2, "terms")) {
            make_hamiltonians(r, *l, 0, false, false);
         }
         l->initialize_spin([&](int, int) { return int(r.below(d)); });
         return l;
      };
      // the program around has a lazy graph of its own
      lazy::Graph own;
      if (sim_coin(1, 3, "own graph")) {
         lazy::use_graph(own);
      }
      auto selected = &lazy::current_graph();
      pool.push_back(make());
      auto ask = [&](L& l, const Question& q, bool inject) {
         std::string got;
         if (!attempt(inject, [&] { got = answer(l, q); })) {
            return;
         }
         auto fresh = rebuilt(l);
         if (got != answer(*fresh, q)) {
            sim_fail("stale", "question %d at (%d,%d) is answered otherwise by a lattice built anew, configuration %s", q.kind, std::get<0>(q.hole),
                     std::get<1>(q.hole), show_configuration(l.spin.configuration).c_str());
         }
         if (l.dimension_cut == wide) {
            check_exact(l, q);
         }
         sim_count("questions", 1);
      };
      int steps = 4 + sim_choose(20, "steps");
      for (int k = 0; k <= steps; k++) {
         if (&lazy::current_graph() != selected) {
            sim_fail("graph", "the lazy graph the program had selected is no longer selected");
         }
         if (k == steps) {
            break;
         }
         int who = sim_choose(uint32_t(pool.size()), "lattice");
         L& l = *pool[who];
         int what = sim_choose(12, "what");
         bool inject = faults && sim_coin(1, 3, "memory fails");
         bool usable = l.M > 0;
         if (what <= 3 && usable) { // ask
            if (complete(l)) {
               auto q = make_question(l);
               ask(l, q, inject);
               if (sim_coin(1, 3, "again")) {
                  // the same question after a flip elsewhere
                  int x = sim_choose(l.M, "x"), y = sim_choose(l.N, "y");
                  int to = (l.spin.configuration[x][y] + 1) % int(l.dimension_physics);
                  if (attempt(faults && sim_coin(1, 4, "memory fails"), [&] { l.spin.set({x, y}, to); })) {
                     ask(l, q, false);
                  }
               }
            } else if (Position where; one_missing(l, where)) {
               // the surroundings of the missing spin are known
               Question q;
               q.kind = 1 + sim_choose(2, "question");
               q.hint = " hv"[sim_choose(3, "hint")];
               q.hole = where;
               q.replacement[where] = sim_choose(int(l.dimension_physics), "new spin");
               ask(l, q, inject);
            }
         } else if (what <= 6 && usable) { // flip
            int x = sim_choose(l.M, "x"), y = sim_choose(l.N, "y");
            int to = sim_choose(int(l.dimension_physics), "spin");
            if (sim_coin(1, 8, "unset")) {
               to = -1;
            }
            int from = l.spin.configuration[x][y];
            bool ok = attempt(inject, [&] { l.spin.set({x, y}, to); });
            int now = l.spin.configuration[x][y];
            if (now != (ok ? to : from)) {
               sim_fail("spin", "a spin set from %d to %d %s is %d", from, to, ok ? "successfully" : "in vain", now);
            }
         } else if (what == 7 && usable) { // set all
            bool ok = attempt(inject, [&] { l.initialize_spin([&](int, int) { return int(r.below(uint32_t(l.dimension_physics))); }); });
            (void)ok;
         } else if (what == 8 && usable) { // cut
            auto c = cut();
            auto before = l.spin.configuration;
            if (attempt(inject, [&] { l.set_dimension_cut(c); })) {
               if (l.spin.configuration != before) {
                  sim_fail("spin", "a new cut changed the configuration");
               }
               if (l.dimension_cut != c) {
                  sim_fail("spin", "the new cut was not taken");
               }
            } else {
               // what is left can be replaced
               pool[who] = make();
            }
         } else if (what == 9) { // copy or move into another
            if (pool.size() < 3 && sim_coin(1, 2, "new object")) {
               auto print = fingerprint(l);
               std::unique_ptr<L> copy;
               bool moved = sim_coin(1, 3, "move");
               if (attempt(inject && !moved, [&] {
                      copy = moved ? std::make_unique<L>(std::move(l)) : std::make_unique<L>(l);
                   })) {
                  if (fingerprint(*copy) != print) {
                     sim_fail("copy", "a %s lattice differs from the original", moved ? "moved" : "copied");
                  }
                  if (moved) {
                     pool[who] = std::move(copy);
                  } else {
                     if (fingerprint(l) != print) {
                        sim_fail("copy", "copying changed the original");
                     }
                     pool.push_back(std::move(copy));
                  }
               } else if (fingerprint(l) != print) {
                  sim_fail("copy", "copying in vain changed the original");
               }
            } else {
               int other = sim_choose(uint32_t(pool.size()), "target");
               L& target = *pool[other];
               auto print = fingerprint(l);
               bool moved = other != who && sim_coin(1, 3, "move");
               bool ok = attempt(inject, [&] {
                  if (moved) {
                     target = std::move(l);
                  } else {
                     target = l;
                  }
               });
               if (ok) {
                  if (fingerprint(target) != print) {
                     sim_fail("copy", "an assigned lattice differs from the original");
                  }
               } else {
                  // the target may hold anything, but it can be dropped or assigned again
                  auto another = make();
                  if (sim_coin(1, 2, "drop it")) {
                     pool[other] = std::move(another);
                     if (moved) {
                        pool[who] = make();
                     }
                     continue;
                  }
                  print = fingerprint(*another);
                  target = *another;
                  if (fingerprint(target) != print) {
                     sim_fail("copy", "a lattice assigned after a failure differs from the original");
                  }
               }
               if (moved) {
                  pool[who] = make();
               }
            }
         } else if (what == 10) { // through a file
            std::stringstream stream;
            stream < l;
            int other = sim_choose(uint32_t(pool.size()), "target");
            L& target = *pool[other];
            auto print = fingerprint(l);
            bool ok = attempt(inject, [&] { stream > target; });
            if (ok && stream) {
               if (fingerprint(target) != print) {
                  sim_fail("copy", "a lattice read from a stream differs from the one written");
               }
            } else if (!inject) {
               sim_fail("copy", "a lattice could not be read");
            } else {
               auto another = make();
               target = *another;
            }
         } else { // another lattice, or one less
            if (pool.size() > 1 && sim_coin(1, 2, "drop")) {
               pool.erase(pool.begin() + who);
            } else if (pool.size() < 3) {
               pool.push_back(make());
            } else {
               std::swap(*pool[0], *pool[1]);
            }
         }
      }
      // at the end every complete lattice is asked once more
      for (auto& l : pool) {
         if (complete(*l)) {
            for (int kind = 0; kind < 2; kind++) {
               Question q;
               q.kind = kind;
               q.hole = {0, 0};
               if (answer(*l, q) != answer(*rebuilt(*l), q)) {
                  sim_fail("stale", "the final amplitude differs from a lattice built anew");
               }
            }
         }
      }
      lazy::use_graph();
   }
   void q03() {
      bool exact = sim_coin(1, 2, "wide cut");
      bool faults = sim_coin(1, 2, "memory faults");
      {
         // names and other things that stay are created once
         Rng r(1);
         L l(2, 2, 1, 2, 2);
         make_hamiltonians(r, l, 0, true, true);
         for (int i = 0; i < 6; i++) {
            (void)make_operator<double>(r, 1 + i % 2, 2, 0);
         }
         l.initialize_spin([](int, int) { return 0; });
         for (int kind = 0; kind < 4; kind++) {
            for (char hint : {'h', 'v'}) {
               Question q;
               q.kind = kind;
               q.hint = hint;
               q.hole = {0, 0};
               q.replacement[{0, 0}] = 1;
               (void)answer(l, q);
               q.replacement[{hint == 'h' ? 0 : 1, hint == 'h' ? 1 : 0}] = 1;
               (void)answer(l, q);
            }
         }
         Question q;
         q.kind = 1;
         q.hole = {0, 0};
         check_exact(l, q);
         std::stringstream stream;
         stream < l;
         stream > l;
      }
      auto before = sim_alloc_live_blocks();
      q03_history(exact, faults);
      sim_alloc_check();
      auto after = sim_alloc_live_blocks();
      if (after != before) {
         sim_fail("leak", "%lld blocks of memory were never released", (long long)(after - before));
      }
      sim_nontrivial();
   }

   // ------------------------------------------------------------------ q05: what sampling reports
   template<typename T>
   using Observers = std::map<std::string, std::map<Positions, Operator<T>>>;
   template<typename T>
   struct Setup {
      std::unique_ptr<SamplingGradientLattice<T>> l;
      Observers<T> observers;
   };
   template<typename T>
   Setup<T> make_setup(Rng& r, int style, bool complete_terms, bool small) {
      static const int shapes[][2] = {{1, 2}, {2, 1}, {2, 2}, {1, 3}, {3, 1}, {2, 3}};
      auto [M, N] = shapes[r.below(small ? 4 : 6)];
      int D = 1 + r.below(3), d = M * N > 3 ? 2 : 2 + r.below(2);
      Setup<T> s;
      s.l = std::make_unique<SamplingGradientLattice<T>>(M, N, D, wide, d);
      make_hamiltonians(r, *s.l, style, true, complete_terms);
      if constexpr (!std::is_same_v<T, double>) {
         // the library's own random numbers are real
         for (auto& row : s.l->lattice) {
            for (auto& t : row) {
               for (auto& [key, block] : t.core->blocks) {
                  for (auto& x : block) {
                     x = T(x.real(), (int(r.below(2001)) - 1000) * 1e-3);
                  }
               }
            }
         }
      }
      if (r.coin(1, 4)) {
         // some exact zeros in the state
         for (auto& row : s.l->lattice) {
            for (auto& t : row) {
               for (auto& [key, block] : t.core->blocks) {
                  for (auto& x : block) {
                     if (r.coin(1, 4)) {
                        x = 0;
                     }
                  }
               }
            }
         }
      }
      int kinds = r.below(3);
      for (int k = 0; k < kinds; k++) {
         auto& group = s.observers["O" + std::to_string(k)];
         int n = 1 + r.below(3);
         for (int i = 0; i < n; i++) {
            int x = r.below(M), y = r.below(N);
            Positions p = {{x, y}};
            if (r.coin(1, 2)) {
               int u = x + (r.coin(1, 2) ? 1 : 0), v = y + (u == x);
               if (u < M && v < N) {
                  if (r.coin(1, 2)) {
                     p = {{x, y}, {u, v}};
                  } else {
                     p = {{u, v}, {x, y}};
                  }
               }
            }
            group[p] = std::make_shared<const square::Tensor<T>>(make_operator<T>(r, int(p.size()), d, r.below(2)));
         }
      }
      return s;
   }
   double turned(double x) {
      return x;
   }
   std::complex<double> turned(std::complex<double> x) {
      return std::conj(x);
   }
   // one element of an operator applied to a vector of all configurations
   template<typename T>
   T act_on(const std::vector<T>& v, std::vector<std::vector<int>> conf, const Positions& positions, const square::Tensor<T>& op, int d) {
      std::vector<int> now;
      int n = 1;
      for (auto [x, y] : positions) {
         now.push_back(conf[x][y]);
         n *= d;
      }
      T sum = 0;
      for (int k = 0; k < n; k++) {
         std::vector<int> from;
         int rest = k;
         for (auto [x, y] : positions) {
            from.push_back(rest % d);
            conf[x][y] = rest % d;
            rest /= d;
         }
         uint64_t code = 0, unit = 1;
         for (auto& row : conf) {
            for (int x : row) {
               code += unit * x;
               unit *= d;
            }
         }
         sum += element(op, from, now) * v[code];
      }
      return sum;
   }
   template<typename T>
   uint64_t state_count(const SamplingGradientLattice<T>& l) {
      uint64_t n = 1;
      for (int i = 0; i < l.M * l.N; i++) {
         n *= l.dimension_physics;
      }
      return n;
   }
   void compare(const char* what, std::complex<double> got, std::complex<double> want, double tolerance) {
      if (!(std::abs(got - want) <= tolerance)) {
         sim_fail("estimate", "%s is %.17g%+.17gi instead of %.17g%+.17gi (tolerance %.3g)", what, got.real(), got.imag(), want.real(), want.imag(), tolerance);
      }
   }
   void compare(const char* what, double got, double want, double tolerance) {
      if (!(std::abs(got - want) <= tolerance)) {
         sim_fail("estimate", "%s is %.17g instead of %.17g (tolerance %.3g)", what, got, want, tolerance);
      }
   }
   template<typename T>
   void check_ergodic(SamplingGradientLattice<T>& l, const Observers<T>& observers, bool energy) {
      energy = energy && !l.hamiltonians.empty();
      Plain<T> plain(l);
      auto all = observers;
      if (energy) {
         all["Energy"] = l.hamiltonians;
      }
      double norm = 0;
      uint64_t n = state_count(l);
      int d = int(l.dimension_physics);
      std::map<std::string, std::map<Positions, double>> want, bound;
      for (uint64_t c = 0; c < n; c++) {
         auto conf = configuration_of(l.M, l.N, d, c);
         T w = plain.amplitude(conf);
         norm += std::norm(w);
         for (auto& [kind, group] : all) {
            for (auto& [positions, op] : group) {
               want[kind][positions] += std::real(turned(w) * applied(plain, conf, positions, *op, d));
            }
         }
      }
      if (!(norm > 1e-6 * plain.scale * plain.scale)) {
         return; // the state is (almost) zero: its expectation values mean nothing
      }
      auto got = l.ergodic(observers, energy);
      if (got.size() != want.size()) {
         sim_fail("estimate", "%zu kinds of observables reported instead of %zu", got.size(), want.size());
      }
      for (auto& [kind, group] : want) {
         if (got[kind].size() != group.size()) {
            sim_fail("estimate", "%zu observables of kind %s reported instead of %zu", got[kind].size(), kind.c_str(), group.size());
         }
         for (auto& [positions, value] : group) {
            compare("an observable averaged over all configurations", got[kind][positions], value / norm, 1e-10 * n * plain.scale * plain.scale / norm);
         }
      }
      sim_count("ergodic", 1);
   }
   // a sampling run must report the averages over the configurations it went through
   template<typename T>
   void check_markov(SamplingGradientLattice<T>& l, const Observers<T>& observers, bool energy, bool gradient, int steps, int seed) {
      energy = energy && !l.hamiltonians.empty();
      gradient = gradient && !l.hamiltonians.empty();
      Plain<T> plain(l);
      int d = int(l.dimension_physics);
      auto all = observers;
      if (energy || gradient) {
         all["Energy"] = l.hamiltonians;
      }
      // the configurations
      auto walker = l;
      random::engine.seed(seed);
      random::split_seed();
      std::map<std::string, std::map<Positions, double>> sum, square_sum;
      std::vector<T> energies;
      std::vector<std::vector<std::vector<int>>> visited;
      double worst = 0;
      bool bad = false;
      for (int k = 0; k < steps; k++) {
         walker.equilibrate(1);
         auto conf = walker.spin.configuration;
         T w = plain.amplitude(conf);
         if (std::abs(w) < 1e-4 * plain.scale) {
            bad = true; // badly conditioned
         }
         worst = std::max(worst, plain.scale / std::abs(w));
         T e = 0;
         for (auto& [kind, group] : all) {
            for (auto& [positions, op] : group) {
               T local = applied(plain, conf, positions, *op, d) / w;
               double v = std::real(local);
               sum[kind][positions] += v;
               square_sum[kind][positions] += v * v;
               if (kind == "Energy") {
                  e += local;
               }
            }
         }
         energies.push_back(e);
         visited.push_back(conf);
      }
      random::merge_seed();
      auto after = random::engine;
      // if one process cannot be judged, none goes on
      static int turn = 0;
      auto key = "bad " + std::to_string(turn++) + " ";
      post(key + std::to_string(sim_rank()), bad ? "1" : "0");
      sim_sync();
      for (int k = 0; k < sim_size(); k++) {
         std::string v;
         look(key + std::to_string(k), v);
         if (v == "1") {
            return;
         }
      }
      random::engine.seed(seed);
      auto [result, variance, slope] = l.markov(steps, observers, energy, gradient);
      if (l.spin.configuration != walker.spin.configuration || !(random::engine == after)) {
         sim_fail("estimate", "the same random numbers led sampling to another configuration");
      }
      double tolerance = 1e-10 * worst * worst;
      if (result.size() != all.size()) {
         sim_fail("estimate", "%zu kinds of observables reported instead of %zu", result.size(), all.size());
      }
      for (auto& [kind, group] : all) {
         for (auto& [positions, op] : group) {
            double mean = sum[kind][positions] / steps;
            compare("a sampled observable", result[kind][positions], mean, tolerance);
            if (steps > 1) {
               compare("a variance", variance[kind][positions], (square_sum[kind][positions] / steps - mean * mean) / (steps - 1), tolerance * worst);
            }
         }
      }
      if (gradient) {
         T total = 0;
         for (T e : energies) {
            total += e / double(steps);
         }
         for (int i = 0; i < l.M; i++) {
            for (int j = 0; j < l.N; j++) {
               const auto& s = plain.site[i][j];
               for (int p = 0; p < s.d; p++) {
                  for (int u = 0; u < s.u; u++) {
                     for (int a = 0; a < s.l; a++) {
                        for (int dn = 0; dn < s.dn; dn++) {
                           for (int q = 0; q < s.r; q++) {
                              T with_energy = 0, alone = 0;
                              for (int k = 0; k < steps; k++) {
                                 if (visited[k][i][j] == p) {
                                    T h = turned(plain.amplitude(visited[k], {i, j, u, a, dn, q}) / plain.amplitude(visited[k]));
                                    with_energy += h * energies[k] / double(steps);
                                    alone += h / double(steps);
                                 }
                              }
                              std::map<square::Name, Size> at{{"P", p}};
                              const auto& t = slope.at(i).at(j);
                              auto add = [&](const char* n, int v) {
                                 if (t.name_to_index.find(n) != t.name_to_index.end()) {
                                    at[n] = v;
                                 }
                              };
                              add("U", u);
                              add("L", a);
                              add("D", dn);
                              add("R", q);
                              compare("the gradient", t.const_at(at), 2. * with_energy - 2. * total * alone, tolerance * worst);
                           }
                        }
                     }
                  }
               }
            }
         }
         sim_count(std::is_same_v<T, double> ? "gradients" : "complex gradients", 1);
      }
      sim_count("markov", 1);
   }
   // the state vector and the enumeration of all configurations tell the same about a lattice, however it was made
   template<typename T>
   void check_vector(Rng& r) {
      static const int shapes[][2] = {{1, 2}, {2, 1}, {2, 2}, {1, 3}, {3, 1}, {2, 3}};
      auto [M, N] = shapes[r.below(6)];
      SimpleUpdateLattice<T> simple(M, N, 1 + r.below(3), 2);
      make_hamiltonians(r, simple, r.below(2), true, false);
      simple.update(r.below(3), 0.02 + 0.05 * r.below(3), 1 + r.below(3));
      SamplingGradientLattice<T> sampling(simple, wide);
      ExactLattice<T> one(simple), two(sampling);
      Plain<T> plain(sampling);
      double norm = 0;
      int d = int(sampling.dimension_physics);
      uint64_t n = state_count(sampling);
      for (uint64_t c = 0; c < n; c++) {
         T w = plain.amplitude(configuration_of(M, N, d, c));
         norm += std::norm(w);
      }
      if (!(norm > 1e-6 * plain.scale * plain.scale) || simple.hamiltonians.empty()) {
         return;
      }
      auto got = sampling.ergodic({}, true);
      double total = 0, tolerance = 1e-10 * n * plain.scale * plain.scale / norm;
      for (auto& [positions, op] : sampling.hamiltonians) {
         total += got["Energy"][positions];
         compare("a term observed in the state vector", one.observe(positions, *op, true), got["Energy"][positions], tolerance);
         compare("a term observed in the state vector of the sampling lattice", two.observe(positions, *op, true), got["Energy"][positions], tolerance);
      }
      compare("the energy of the state vector", one.observe_energy(), total / (M * N), tolerance * sampling.hamiltonians.size());
      compare("the energy of the state vector of the sampling lattice", two.observe_energy(), total / (M * N), tolerance * sampling.hamiltonians.size());
      // (a - H) applied again and again; the energy is a - v'/v in the last step
      std::vector<T> v;
      double largest = 0;
      for (uint64_t c = 0; c < n; c++) {
         v.push_back(plain.amplitude(configuration_of(M, N, d, c)));
         largest = std::max(largest, std::abs(v.back()));
      }
      for (auto& x : v) {
         x /= largest;
      }
      int steps = 1 + r.below(3);
      double approximate = -(0.5 + r.below(4)), a = std::abs(approximate) * M * N, bad = plain.scale / largest;
      for (int k = 0; k < steps; k++) {
         std::vector<T> next(n, T(0));
         largest = 0;
         for (uint64_t c = 0; c < n; c++) {
            next[c] = a * v[c];
            auto conf = configuration_of(M, N, d, c);
            for (auto& [positions, op] : sampling.hamiltonians) {
               next[c] -= act_on(v, conf, positions, *op, d);
            }
            largest = std::max(largest, std::abs(next[c]));
         }
         bad *= std::max(1., a / largest);
         for (auto& x : next) {
            x /= largest;
         }
         v = std::move(next);
      }
      if (bad > 1e5) {
         return;
      }
      double reported = one.update(steps, approximate);
      compare("the energy an update of the state vector reports", reported, (a - largest) / (M * N), 1e-9 * bad * a);
      T factor = 0;
      for (uint64_t c = 0; c < n; c++) {
         auto conf = configuration_of(M, N, d, c);
         std::map<square::Name, Size> at;
         for (int i = 0; i < M; i++) {
            for (int j = 0; j < N; j++) {
               at["P-" + std::to_string(i) + "-" + std::to_string(j)] = conf[i][j];
            }
         }
         T got = one.vector.const_at(at);
         // up to a sign or phase
         if (factor == T(0) && std::abs(v[c]) > 0.5) {
            factor = got / v[c];
            c = uint64_t(-1);
            continue;
         }
         if (factor != T(0)) {
            compare("an element of an updated state vector", got, factor * v[c], 1e-8 * bad);
         }
      }
      compare("the size of an updated state vector", std::abs(factor), 1., 1e-8 * bad);
      sim_count("state vectors", 1);
   }
   template<typename T>
   void q05() {
      auto plan = shared_decision("plan", 1u << 20);
      Rng r(plan);
      random::seed(1 + r.below(1000000));
      auto s = make_setup<T>(r, r.below(2), false, false);
      int rounds = 1 + r.below(3);
      for (int k = 0; k < rounds; k++) {
         int d = int(s.l->dimension_physics);
         bool energy = r.coin(1, 2), gradient = r.coin(2, 3);
         if (r.coin(1, 6)) {
            check_vector<T>(r);
            continue;
         }
         if (r.coin(1, 3)) {
            check_ergodic(*s.l, s.observers, energy);
            continue;
         }
         s.l->initialize_spin([&](int, int) { return int(r.below(d)); });
         Plain<T> plain(*s.l);
         int steps = r.coin(1, 6) ? 1 : 2 + r.below(4), seed = 1 + r.below(1000000);
         bool good = std::abs(plain.amplitude(s.l->spin.configuration)) > 1e-4 * plain.scale;
         if (good) {
            check_markov(*s.l, s.observers, energy, gradient, steps, seed);
         }
      }
      // all processes of the job go on with the same random numbers
      std::ostringstream state;
      state << random::engine;
      post("engine " + std::to_string(sim_rank()), state.str());
      sim_sync();
      std::string first;
      look("engine 0", first);
      if (first != state.str()) {
         sim_fail("estimate", "process %d and process 0 draw different numbers after sampling", sim_rank());
      }
      sim_nontrivial();
   }

   // ------------------------------------------------------------------ q05s: the distribution
   // Configurations drawn from |w|^2 are still distributed like |w|^2 after some sweeps.
   void q05s() {
      Rng r = data_rng("state");
      random::engine.seed(1 + r.below(1000000));
      bool bond = r.coin(1, 2); // a single bond, looked at closely
      Setup<double> s;
      if (bond) {
         int d = 2 + r.below(2);
         bool upright = r.coin(1, 2);
         s.l = std::make_unique<L>(upright ? 2 : 1, upright ? 1 : 2, 1 + r.below(3), wide, d);
         Positions p = {{0, 0}, {upright, !upright}};
         if (r.coin(1, 2)) {
            std::swap(p[0], p[1]);
         }
         s.l->hamiltonians[p] = std::make_shared<const square::Tensor<double>>(make_operator<double>(r, 2, d, 1));
      } else {
         s = make_setup<double>(r, r.below(2), true, true);
      }
      L& l = *s.l;
      if (l.hamiltonians.empty()) {
         sim_discard("no terms");
      }
      Plain<double> plain(l);
      int d = int(l.dimension_physics);
      uint64_t n = state_count(l);
      std::vector<double> p, cumulative;
      double norm = 0;
      for (uint64_t c = 0; c < n; c++) {
         double w = plain.amplitude(configuration_of(l.M, l.N, d, c));
         p.push_back(w * w);
         norm += w * w;
         cumulative.push_back(norm);
      }
      if (!(norm > 1e-6 * plain.scale * plain.scale)) {
         sim_discard("the state is zero");
      }
      int samples = bond ? 5000 : 600, sweeps = bond ? 2 + r.below(3) : 1 + r.below(3);
      std::vector<int> count(n, 0);
      for (int k = 0; k < samples; k++) {
         double u = double(r.next() >> 11) / double(1ull << 53) * norm;
         uint64_t c = 0;
         while (c + 1 < n && cumulative[c] <= u) {
            c++;
         }
         if (p[c] < 1e-12 * norm) {
            continue;
         }
         l.initialize_spin(configuration_of(l.M, l.N, d, c));
         l.equilibrate(sweeps);
         uint64_t code = 0, unit = 1;
         for (auto& row : l.spin.configuration) {
            for (int x : row) {
               code += unit * x;
               unit *= d;
            }
         }
         count[code]++;
      }
      // every set {c} and every half of the configurations sorted by weight; Bernstein bound with probability below 1e-10 each
      auto test = [&](double q, double seen, const std::string& what) {
         double bound = std::sqrt(2 * 24 * samples * q * (1 - q)) + 2 * 24 / 3.0 + 2;
         if (std::abs(seen - q * samples) > bound) {
            sim_fail("distribution", "%s: seen %.0f times in %d, expected %.2f +- %.2f", what.c_str(), seen, samples, q * samples, bound);
         }
      };
      for (uint64_t c = 0; c < n; c++) {
         test(p[c] / norm, count[c], "configuration " + show_configuration(configuration_of(l.M, l.N, d, c)));
      }
      std::vector<int> order(n);
      for (uint64_t c = 0; c < n; c++) {
         order[c] = int(c);
      }
      std::sort(order.begin(), order.end(), [&](int a, int b) { return p[a] < p[b] || (p[a] == p[b] && a < b); });
      double q = 0, seen = 0;
      for (uint64_t c = 0; c + 1 < n; c++) {
         q += p[order[c]] / norm;
         seen += count[order[c]];
         test(std::min(q, 1.0), seen, "the " + std::to_string(c + 1) + " least likely configurations");
      }
      sim_count("samples", samples);
      sim_nontrivial();
   }

   // ------------------------------------------------------------------ q06: operators come and go
   void q06() {
      Rng r = data_rng("setup");
      random::engine.seed(1 + r.below(1000000));
      auto s = make_setup<double>(r, 0, false, true);
      L& l = *s.l;
      int d = int(l.dimension_physics);
      int rounds = 2 + sim_choose(5, "rounds");
      for (int k = 0; k < rounds; k++) {
         int what = sim_choose(4, "what");
         if (what == 0) {
            l.hamiltonians.clear();
            make_hamiltonians(r, l, r.below(2), true, false);
         } else if (what <= 2) {
            s.observers.clear();
            int x = sim_choose(l.M, "x"), y = sim_choose(l.N, "y");
            s.observers["O"][{{x, y}}] = std::make_shared<const square::Tensor<double>>(make_operator<double>(r, 1, d, r.below(2)));
         } // 3: nothing changes
         if (sim_coin(1, 2, "all configurations")) {
            check_ergodic(l, s.observers, true);
         } else {
            l.initialize_spin([&](int, int) { return int(r.below(d)); });
            Plain<double> plain(l);
            if (std::abs(plain.amplitude(l.spin.configuration)) > 1e-4 * plain.scale) {
               check_markov(l, s.observers, true, false, 1 + sim_choose(2, "steps"), 1 + r.below(100000));
            }
         }
      }
      sim_nontrivial();
   }
} // namespace

extern "C" __attribute__((visibility("default"))) void sim_main(const char* scenario) {
   std::string s = scenario;
   if (s == "q03") {
      q03();
   } else if (s == "q05") {
      if (shared_decision("complex", 4) == 3) {
         q05<std::complex<double>>();
      } else {
         q05<double>();
      }
   } else if (s == "q05s") {
      q05s();
   } else if (s == "q06") {
      q06();
   } else {
      sim_fail("simulator", "unknown scenario %s", scenario);
   }
}
