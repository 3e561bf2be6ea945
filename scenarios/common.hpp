// Shared by all scenarios: data generation from one decision, bit-exact fingerprints,
// faulty streams. Nothing here looks at how the library is written.
#pragma once
#include "simapi.h"

#include <TAT/TAT.hpp>
#include <cmath>
#include <cstring>
#include <functional>
#include <sstream>
#include <streambuf>
#include <string>
#include <vector>

namespace h {
   using namespace TAT;

   struct Rng {
      uint64_t s;
      explicit Rng(uint64_t seed) : s(seed * 0x9e3779b97f4a7c15ull + 0x1234567) {
         next();
      }
      uint64_t next() {
         uint64_t z = (s += 0x9e3779b97f4a7c15ull);
         z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
         z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
         return z ^ (z >> 31);
      }
      uint32_t below(uint32_t n) {
         return n <= 1 ? 0 : uint32_t((__uint128_t(next()) * n) >> 64);
      }
      bool coin(uint32_t num, uint32_t den) {
         return below(den) < num;
      }
   };
   // one decision seeds a whole value; small decisions give small values
   inline Rng data_rng(const char* tag) {
      return Rng(sim_choose(1u << 20, tag));
   }

   // ------------------------------------------------------------------ scalars
   // style 0: small integers (exact arithmetic), 1: ordinary values, 2: any bit pattern including special values
   template<typename T>
   T make_real(Rng& r, int style) {
      if (style == 0) {
         return T(int(r.below(19)) - 9);
      }
      if (style == 2) {
         switch (r.below(12)) {
            case 0: return T(-0.0);
            case 1: return std::numeric_limits<T>::infinity();
            case 2: return -std::numeric_limits<T>::infinity();
            case 3: return std::numeric_limits<T>::quiet_NaN();
            case 4: return std::numeric_limits<T>::denorm_min();
            case 5: return std::numeric_limits<T>::max();
            case 6: return std::numeric_limits<T>::lowest();
            case 7: return T(0);
            default: break;
         }
      }
      return T((double(int64_t(r.next() >> 11)) / double(1ll << 53) - 0.5) * 4);
   }
   template<typename T>
   T make_scalar(Rng& r, int style) {
      if constexpr (is_complex_v<T>) {
         using B = real_base_t<T>;
         B a = make_real<B>(r, style);
         B b = make_real<B>(r, style);
         return T(a, b);
      } else {
         return make_real<T>(r, style);
      }
   }

   // ------------------------------------------------------------------ symmetries
   template<typename S>
   S make_symmetry(Rng& r) {
      if constexpr (std::is_same_v<S, NoSymmetry>) {
         return S();
      } else if constexpr (std::is_same_v<S, Z2Symmetry>) {
         return S(r.coin(1, 2));
      } else if constexpr (std::is_same_v<S, U1Symmetry>) {
         return S(int(r.below(5)) - 2);
      } else if constexpr (std::is_same_v<S, FermiSymmetry>) {
         return S(int(r.below(4)) - 1);
      } else if constexpr (std::is_same_v<S, FermiZ2Symmetry>) {
         int f = int(r.below(3)) - 1;
         return S(f, r.coin(1, 2));
      } else {
         int f = int(r.below(3)) - 1;
         int u = int(r.below(3)) - 1;
         return S(f, u);
      }
   }
   template<typename S>
   const char* symmetry_name() {
      if constexpr (std::is_same_v<S, NoSymmetry>) {
         return "No";
      } else if constexpr (std::is_same_v<S, Z2Symmetry>) {
         return "Z2";
      } else if constexpr (std::is_same_v<S, U1Symmetry>) {
         return "U1";
      } else if constexpr (std::is_same_v<S, FermiSymmetry>) {
         return "Fermi";
      } else if constexpr (std::is_same_v<S, FermiZ2Symmetry>) {
         return "FermiZ2";
      } else {
         return "FermiU1";
      }
   }
   template<typename T>
   const char* scalar_name() {
      if constexpr (std::is_same_v<T, float>) {
         return "float";
      } else if constexpr (std::is_same_v<T, double>) {
         return "double";
      } else if constexpr (std::is_same_v<T, std::complex<float>>) {
         return "cfloat";
      } else if constexpr (std::is_same_v<T, std::complex<double>>) {
         return "cdouble";
      } else {
         return "other";
      }
   }

   // ------------------------------------------------------------------ names
   inline const char* const name_pool[] = {"Left", "Right", "Up", "Down", "Phy", "A", "B", "C1", "x.y", "with_long_name_number_eleven", "Z", "T2", "q", "PhysicalIn", "i-j", "~"};
   constexpr int name_pool_size = 16;
   inline void register_names() {
      for (auto n : name_pool) {
         (void)FastName(n);
      }
   }
   inline std::string name_string(const std::string& n) {
      return n;
   }
   inline std::string name_string(const FastName& n) {
      if (n.id < 0 || n.id >= int(fast_name_dataset.id_to_name.size())) {
         return "#" + std::to_string(n.id);
      }
      return fast_name_dataset.id_to_name[n.id];
   }

   // ------------------------------------------------------------------ tensors
   template<typename S>
   Edge<S> make_edge(Rng& r, int maximum) {
      Edge<S> e;
      if constexpr (std::is_same_v<S, NoSymmetry>) {
         e.map[S()] = 1 + r.below(maximum);
      } else {
         int n = 1 + r.below(3);
         for (int i = 0; i < n; i++) {
            S key = make_symmetry<S>(r);
            e.map[key] = 1 + r.below(maximum);
         }
         if (r.coin(1, 2)) {
            e.map[S()] = 1 + r.below(maximum);
         }
         if constexpr (is_fermi_symmetry_v<S>) {
            e.arrow = r.coin(1, 2);
         }
      }
      return e;
   }
   template<typename T>
   struct Shape {
      std::vector<typename T::name_t> names;
      std::vector<typename T::edge_t> edges;
   };
   template<typename T>
   Shape<T> make_shape(Rng& r, int max_rank, int maximum) {
      using S = typename T::symmetry_t;
      int rank = r.below(max_rank + 1);
      Shape<T> s;
      int offset = r.below(name_pool_size);
      int step = 1 + 2 * r.below(4);
      for (int i = 0; i < rank; i++) {
         s.names.push_back(typename T::name_t(name_pool[(offset + i * step) % name_pool_size]));
      }
      for (int i = 0; i < rank; i++) {
         s.edges.push_back(make_edge<S>(r, maximum));
      }
      if constexpr (!std::is_same_v<S, NoSymmetry>) {
         if (rank > 0 && r.coin(3, 4)) {
            // close the shape so that some block exists: the last edge carries minus the sum of one choice
            S sum = S();
            for (int i = 0; i + 1 < rank; i++) {
               auto it = s.edges[i].map.begin();
               std::advance(it, r.below(uint32_t(s.edges[i].map.size())));
               sum += it->first;
            }
            s.edges[rank - 1].map[-sum] = 1 + r.below(maximum);
         }
      }
      return s;
   }
   template<typename T>
   void fill(T& t, Rng& r, int style) {
      for (auto& [key, block] : t.core->blocks) {
         for (auto& x : block) {
            x = make_scalar<typename T::scalar_t>(r, style);
         }
      }
   }
   template<typename T>
   T make_tensor(Rng& r, int style, int max_rank = 4, int maximum = 3) {
      auto s = make_shape<T>(r, max_rank, maximum);
      T t(s.names, s.edges);
      fill(t, r, style);
      return t;
   }
   template<typename G>
   struct singular_traits;
   template<typename A, typename B, typename C>
   struct singular_traits<Singular<A, B, C>> {
      using scalar = A;
      using symmetry = B;
   };
   template<typename G>
   G make_singular(Rng& r, int style) {
      using S = typename singular_traits<G>::symmetry;
      using B = real_base_t<typename singular_traits<G>::scalar>;
      G g;
      int n = std::is_same_v<S, NoSymmetry> ? 1 : r.below(4);
      for (int i = 0; i < n; i++) {
         S key = make_symmetry<S>(r);
         int m = 1 + r.below(5);
         auto& v = g.value[key];
         v.clear();
         for (int k = 0; k < m; k++) {
            v.push_back(make_real<B>(r, style));
         }
      }
      return g;
   }

   // ------------------------------------------------------------------ fingerprints (bit exact)
   struct Print {
      std::string s;
      void raw(const void* p, size_t n) {
         s.append(static_cast<const char*>(p), n);
      }
      void u64(uint64_t v) {
         raw(&v, 8);
      }
      void str(const std::string& v) {
         u64(v.size());
         s += v;
      }
   };
   template<typename S>
   void print_symmetry(Print& p, const S& s) {
      if constexpr (std::is_same_v<S, NoSymmetry>) {
      } else if constexpr (std::is_same_v<S, Z2Symmetry>) {
         p.u64(s.z2);
      } else if constexpr (std::is_same_v<S, U1Symmetry>) {
         p.u64(uint64_t(int64_t(s.u1)));
      } else if constexpr (std::is_same_v<S, FermiSymmetry>) {
         p.u64(uint64_t(int64_t(s.fermi)));
      } else if constexpr (std::is_same_v<S, FermiZ2Symmetry>) {
         p.u64(uint64_t(int64_t(s.fermi)));
         p.u64(s.z2);
      } else {
         p.u64(uint64_t(int64_t(s.fermi)));
         p.u64(uint64_t(int64_t(s.u1)));
      }
   }
   template<typename T>
   void print_real(Print& p, const T& v) {
      if (v != v) {
         p.s += "nan "; // NaN payloads are not part of a value
         return;
      }
      p.raw(&v, sizeof(v));
   }
   template<typename T>
   void print_scalar(Print& p, const T& v) {
      if constexpr (is_complex_v<T>) {
         print_real(p, v.real());
         print_real(p, v.imag());
      } else {
         print_real(p, v);
      }
   }
   template<typename S>
   void print_value(Print& p, const Edge<S>& e) {
      if constexpr (is_fermi_symmetry_v<S>) {
         p.u64(e.arrow);
      }
      p.u64(e.map.size());
      for (const auto& [k, d] : e.map) {
         print_symmetry(p, k);
         p.u64(d);
      }
   }
   template<typename A, typename S, typename N>
   void print_edges(Print& p, const Tensor<A, S, N>& t) {
      p.u64(t.core->edges.size());
      for (const auto& e : t.core->edges) {
         print_value(p, e);
      }
   }
   template<typename A, typename S, typename N>
   void print_value(Print& p, const Tensor<A, S, N>& t) {
      if (!t.core) {
         p.s += "invalid tensor";
         return;
      }
      p.u64(t.names.size());
      for (const auto& n : t.names) {
         p.str(name_string(n));
         auto found = t.name_to_index.find(n);
         p.u64(found == t.name_to_index.end() ? 9999 : found->second);
      }
      p.u64(t.name_to_index.size());
      print_edges(p, t);
      p.u64(t.core->blocks.size());
      for (const auto& [k, b] : t.core->blocks) {
         p.u64(k.size());
         for (const auto& s : k) {
            print_symmetry(p, s);
         }
         p.u64(b.size());
         for (const auto& x : b) {
            print_scalar(p, x);
         }
      }
   }
   template<typename A, typename S, typename N>
   void print_value(Print& p, const Singular<A, S, N>& g) {
      p.u64(g.value.size());
      for (const auto& [k, b] : g.value) {
         print_symmetry(p, k);
         p.u64(b.size());
         for (const auto& x : b) {
            print_real(p, x);
         }
      }
   }
   inline void print_value(Print& p, const std::string& s) {
      p.str(s);
   }
   template<typename T, typename = std::enable_if_t<std::is_arithmetic_v<T>>>
   void print_value(Print& p, const T& v) {
      print_real(p, v);
   }
   template<typename T>
   void print_value(Print& p, const std::complex<T>& v) {
      print_scalar(p, v);
   }
   template<typename T, typename A>
   void print_value(Print& p, const std::vector<T, A>& v) {
      p.u64(v.size());
      for (const auto& x : v) {
         print_value(p, x);
      }
   }
   template<typename T>
   std::string fingerprint(const T& v) {
      Print p;
      print_value(p, v);
      return p.s;
   }
   // is the value a structurally sound tensor: every block has the size its edges say
   template<typename A, typename S, typename N>
   std::string unsound(const Tensor<A, S, N>& t) {
      if (!t.core) {
         return "no core";
      }
      if (t.names.size() != t.core->edges.size()) {
         return "rank mismatch";
      }
      for (const auto& [k, b] : t.core->blocks) {
         if (k.size() != t.names.size()) {
            return "block key length";
         }
         uint64_t n = 1;
         S sum = S();
         for (size_t i = 0; i < k.size(); i++) {
            auto found = t.core->edges[i].map.find(k[i]);
            if (found == t.core->edges[i].map.end()) {
               return "block symmetry not on edge";
            }
            n *= found->second;
            sum += k[i];
         }
         if (!(sum == S())) {
            return "block breaks symmetry";
         }
         if (n != b.size()) {
            return "block size";
         }
      }
      return "";
   }

   inline uint64_t hash_of(const std::string& s) {
      uint64_t acc = 1469598103934665603ull;
      for (unsigned char c : s) {
         acc = (acc ^ c) * 1099511628211ull;
      }
      return acc;
   }

   // a plan shared by all simulated processes of a job: decided once by whoever asks first
   inline uint64_t shared_decision(const char* key, uint32_t n) {
      uint64_t v = 0;
      if (sim_board_size(key) == size_t(-1)) {
         v = sim_choose(n, key);
         sim_board_put(key, &v, sizeof(v));
      } else {
         sim_board_get(key, &v, sizeof(v));
      }
      return v;
   }
   inline void post(const std::string& key, const std::string& value) {
      sim_board_put(key.c_str(), value.data(), value.size());
   }
   inline bool look(const std::string& key, std::string& value) {
      size_t n = sim_board_size(key.c_str());
      if (n == size_t(-1)) {
         return false;
      }
      value.resize(n);
      sim_board_get(key.c_str(), value.data(), n);
      return true;
   }
   inline void disk_write(const std::string& name, const std::string& data) {
      sim_disk_write(name.c_str(), data.data(), data.size());
   }
   inline bool disk_read(const std::string& name, std::string& data) {
      size_t n = sim_disk_size(name.c_str());
      if (n == size_t(-1)) {
         return false;
      }
      data.resize(n);
      sim_disk_read(name.c_str(), 0, data.data(), n);
      return true;
   }
} // namespace h
