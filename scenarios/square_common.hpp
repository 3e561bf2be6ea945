// Shared by the square lattice scenarios.
#pragma once
#define TAT_NOTHING_BITS 7
#include "streams.hpp"

#include <square/square.hpp>

namespace h {
   using Position = std::tuple<int, int>;
   using Positions = std::vector<Position>;
   template<typename T>
   using Operator = std::shared_ptr<const square::Tensor<T>>;

   // a one or two site operator, symmetric; style 0: dense, 1: sparse, possibly with empty rows
   template<typename T>
   square::Tensor<T> make_operator(Rng& r, int body, int d, int style) {
      std::vector<std::string> text = {"I0", "O0"};
      if (body == 2) {
         static const char* const orders[][4] = {{"I0", "I1", "O0", "O1"}, {"O1", "O0", "I1", "I0"}, {"I1", "O0", "I0", "O1"}};
         auto& o = orders[r.below(3)];
         text.assign(o, o + 4);
      } else if (r.coin(1, 3)) {
         text = {"O0", "I0"};
      }
      std::vector<square::Name> names(text.begin(), text.end());
      square::Tensor<T> t(names, std::vector<square::Size>(2 * body, square::Size(d)));
      t.zero();
      int n = body == 2 ? d * d : d;
      for (int a = 0; a < n; a++) {
         for (int b = 0; b <= a; b++) {
            T v = make_scalar<T>(r, 1);
            if (style == 1 && r.coin(3, 5)) {
               v = 0;
            }
            if constexpr (is_complex_v<T>) {
               if (a == b) {
                  v = v.real();
               }
            }
            auto put = [&](int in, int out, T value) {
               std::map<square::Name, square::Size> at;
               if (body == 1) {
                  at = {{"I0", in}, {"O0", out}};
               } else {
                  at = {{"I0", in / d}, {"I1", in % d}, {"O0", out / d}, {"O1", out % d}};
               }
               t.at(at) = value;
            };
            put(a, b, v);
            if constexpr (is_complex_v<T>) {
               put(b, a, std::conj(v));
            } else {
               put(b, a, v);
            }
         }
      }
      return t;
   }
   // which: 0 one site terms too, both orientations of a bond possible
   template<typename T>
   void make_hamiltonians(Rng& r, square::AbstractLattice<T>& l, int style, bool reversed, bool complete) {
      std::vector<Operator<T>> pool[2];
      auto get = [&](int body) {
         auto& p = pool[body - 1];
         if (!p.empty() && p.size() < 4 && r.coin(1, 6)) {
            // an operator like another one: negative, or another copy
            auto like = *p[r.below(uint32_t(p.size()))];
            if (r.coin(3, 4)) {
               like = like * T(-1);
            }
            p.push_back(std::make_shared<const square::Tensor<T>>(std::move(like)));
            return p.back();
         }
         if (p.empty() || (p.size() < 4 && r.coin(1, 3))) {
            p.push_back(std::make_shared<const square::Tensor<T>>(make_operator<T>(r, body, int(l.dimension_physics), style)));
         }
         return p[r.below(uint32_t(p.size()))];
      };
      int dense = complete ? 8 : 2 + r.below(7);
      bool sites = r.coin(1, 2);
      for (int i = 0; i < l.M; i++) {
         for (int j = 0; j < l.N; j++) {
            if (sites && r.coin(dense, 8)) {
               l.hamiltonians[{{i, j}}] = get(1);
            }
            for (int k = 0; k < 2; k++) {
               int x = i + (k == 1), y = j + (k == 0);
               if (x >= l.M || y >= l.N || !r.coin(dense, 8)) {
                  continue;
               }
               int way = reversed ? r.below(4) : 0;
               if (way != 1) {
                  l.hamiltonians[{{i, j}, {x, y}}] = get(2);
               }
               if (way == 1 || way == 2) {
                  l.hamiltonians[{{x, y}, {i, j}}] = get(2);
               }
            }
         }
      }
   }

   // ------------------------------------------------------------------ fingerprints
   template<typename T>
   void print_value(Print& p, const square::AbstractLattice<T>& l) {
      p.u64(l.M);
      p.u64(l.N);
      p.u64(l.dimension_physics);
      p.u64(l.hamiltonians.size());
      for (const auto& [positions, term] : l.hamiltonians) {
         for (const auto& [x, y] : positions) {
            p.u64(uint64_t(int64_t(x)));
            p.u64(uint64_t(int64_t(y)));
         }
         p.s += ';';
         print_value(p, *term);
      }
   }
   template<typename T>
   void print_value(Print& p, const square::AbstractNetworkLattice<T>& l) {
      print_value(p, static_cast<const square::AbstractLattice<T>&>(l));
      p.u64(l.dimension_virtual);
      print_value(p, l.lattice);
   }
   template<typename T>
   void print_value(Print& p, const square::SimpleUpdateLattice<T>& l) {
      print_value(p, static_cast<const square::AbstractNetworkLattice<T>&>(l));
      p.u64(l.environment.size());
      for (const auto& [key, s] : l.environment) {
         p.u64(std::get<0>(key));
         p.u64(uint64_t(int64_t(std::get<1>(key))));
         p.u64(uint64_t(int64_t(std::get<2>(key))));
         print_value(p, s);
      }
   }
   template<typename T>
   void print_value(Print& p, const square::ExactLattice<T>& l) {
      print_value(p, static_cast<const square::AbstractLattice<T>&>(l));
      print_value(p, l.vector);
   }
   template<typename T>
   void print_value(Print& p, const square::SamplingGradientLattice<T>& l) {
      print_value(p, static_cast<const square::AbstractNetworkLattice<T>&>(l));
      p.u64(l.dimension_cut);
      print_value(p, l.spin.configuration);
   }

   // ------------------------------------------------------------------ plain reference
   // exact amplitude of a configuration, computed site by site on plain arrays
   template<typename T>
   struct Plain {
      int M, N;
      struct Site {
         int d, u, l, dn, r;
         std::vector<T> a; // p u l d r
         T at(int p, int x, int y, int z, int w) const {
            return a[(((size_t(p) * u + x) * l + y) * dn + z) * r + w];
         }
      };
      std::vector<std::vector<Site>> site;
      double scale = 1; // product of the norms of all sites
      template<typename L>
      explicit Plain(const L& lattice) : M(lattice.M), N(lattice.N) {
         for (int i = 0; i < M; i++) {
            site.emplace_back();
            for (int j = 0; j < N; j++) {
               const auto& t = lattice.lattice[i][j];
               auto size_of = [&](const char* n) {
                  auto found = t.name_to_index.find(n);
                  return found == t.name_to_index.end() ? 1 : int(t.core->edges[found->second].map.begin()->second);
               };
               Site s{size_of("P"), size_of("U"), size_of("L"), size_of("D"), size_of("R"), {}};
               double norm = 0;
               for (int p = 0; p < s.d; p++) {
                  for (int x = 0; x < s.u; x++) {
                     for (int y = 0; y < s.l; y++) {
                        for (int z = 0; z < s.dn; z++) {
                           for (int w = 0; w < s.r; w++) {
                              std::map<square::Name, square::Size> at{{"P", p}};
                              auto add = [&](const char* n, int v) {
                                 if (t.name_to_index.find(n) != t.name_to_index.end()) {
                                    at[n] = v;
                                 }
                              };
                              add("U", x);
                              add("L", y);
                              add("D", z);
                              add("R", w);
                              s.a.push_back(t.const_at(at));
                              norm += std::norm(s.a.back());
                           }
                        }
                     }
                  }
               }
               scale *= std::sqrt(norm);
               site.back().push_back(std::move(s));
            }
         }
      }
      // the site (hi, hj), if any, is replaced by the unit tensor at the given element
      struct Hole {
         int i = -1, j = -1, u = 0, l = 0, d = 0, r = 0;
      };
      T amplitude(const std::vector<std::vector<int>>& conf, const Hole& hole = Hole()) const {
         // state: bond values below each column, then the bond to the right
         std::vector<int> dims(N, 1);
         std::vector<T> v(1, T(1));
         for (int i = 0; i < M; i++) {
            for (int j = 0; j < N; j++) {
               const Site& s = site[i][j];
               int p = conf[i][j];
               size_t before = 1, after = 1;
               for (int k = 0; k < j; k++) {
                  before *= dims[k];
               }
               for (int k = j + 1; k < N; k++) {
                  after *= dims[k];
               }
               std::vector<T> w(before * s.dn * after * s.r, T(0));
               for (size_t b = 0; b < before; b++) {
                  for (size_t a = 0; a < after; a++) {
                     for (int x = 0; x < s.u; x++) {
                        for (int y = 0; y < s.l; y++) {
                           T c = v[((b * s.u + x) * after + a) * s.l + y];
                           if (c == T(0)) {
                              continue;
                           }
                           for (int z = 0; z < s.dn; z++) {
                              for (int q = 0; q < s.r; q++) {
                                 T e = hole.i == i && hole.j == j ? T(hole.u == x && hole.l == y && hole.d == z && hole.r == q) : s.at(p, x, y, z, q);
                                 w[((b * s.dn + z) * after + a) * s.r + q] += c * e;
                              }
                           }
                        }
                     }
                  }
               }
               dims[j] = s.dn;
               v = std::move(w);
            }
         }
         return v[0];
      }
   };
   inline std::vector<std::vector<int>> configuration_of(int M, int N, int d, uint64_t code) {
      std::vector<std::vector<int>> c(M, std::vector<int>(N));
      for (auto& row : c) {
         for (auto& x : row) {
            x = int(code % d);
            code /= d;
         }
      }
      return c;
   }
   // element of an operator by plain indices
   template<typename T>
   T element(const square::Tensor<T>& t, const std::vector<int>& in, const std::vector<int>& out) {
      std::map<square::Name, square::Size> at;
      for (size_t i = 0; i < in.size(); i++) {
         at["I" + std::to_string(i)] = in[i];
         at["O" + std::to_string(i)] = out[i];
      }
      return t.const_at(at);
   }
   // operators lead from I to O: sum over in of O[in][current] * w(in)
   template<typename T>
   T applied(const Plain<T>& plain, std::vector<std::vector<int>> conf, const Positions& positions, const square::Tensor<T>& op, int d) {
      std::vector<int> in;
      for (auto [x, y] : positions) {
         in.push_back(conf[x][y]);
      }
      int n = 1;
      for (size_t i = 0; i < in.size(); i++) {
         n *= d;
      }
      T sum = 0;
      for (int k = 0; k < n; k++) {
         std::vector<int> out;
         int rest = k;
         for (size_t i = 0; i < in.size(); i++) {
            out.push_back(rest % d);
            rest /= d;
         }
         T e = element(op, out, in);
         if (e != T(0)) {
            for (size_t i = 0; i < in.size(); i++) {
               conf[std::get<0>(positions[i])][std::get<1>(positions[i])] = out[i];
            }
            sum += e * plain.amplitude(conf);
         }
      }
      return sum;
   }
   inline bool close(double a, double b, double tolerance) {
      return std::abs(a - b) <= tolerance;
   }
   inline std::string show_configuration(const std::vector<std::vector<int>>& c) {
      std::string s;
      for (auto& row : c) {
         for (int x : row) {
            s += std::to_string(x);
         }
         s += '/';
      }
      return s;
   }
} // namespace h
