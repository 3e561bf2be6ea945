// Message kinds of one symmetry (SYM is given on the command line; PLAIN for non-tensor values).
#define TAT_NOTHING_BITS 7
#include "mpi_kind.hpp"
using namespace h;
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"

template<typename T>
struct is_tensor : std::false_type {};
template<typename A, typename B, typename C>
struct is_tensor<Tensor<A, B, C>> : std::true_type {};
template<typename T>
struct is_singular : std::false_type {};
template<typename A, typename B, typename C>
struct is_singular<Singular<A, B, C>> : std::true_type {};

struct Pod {
   int a;
   char b[12];
   double c;
};
inline void print_value(Print& p, const Pod& v) {
   p.raw(&v, sizeof(v));
}

template<typename T>
T make(uint64_t seed) {
   Rng r(seed);
   if constexpr (is_tensor<T>::value) {
      if (r.coin(1, 40)) {
         return make_tensor<T>(r, 1, 2, 40 + r.below(60)); // tens of kilobytes
      }
      return make_tensor<T>(r, r.coin(1, 2) ? 1 : 2, 4, 1 + r.below(5));
   } else if constexpr (is_singular<T>::value) {
      return make_singular<T>(r, 2);
   } else if constexpr (std::is_same_v<T, std::string>) {
      std::string s;
      int n = r.coin(1, 8) ? (r.coin(1, 8) ? 70000 : 5000) : r.below(40);
      for (int i = 0; i < n; i++) {
         s.push_back(char(r.below(256)));
      }
      return s;
   } else if constexpr (std::is_same_v<T, Pod>) {
      Pod p{};
      p.a = int(r.next());
      for (auto& x : p.b) {
         x = char(r.below(256));
      }
      p.c = make_real<double>(r, 1);
      return p;
   } else if constexpr (std::is_arithmetic_v<T>) {
      return T(int64_t(r.next() % 2000003) - 1000001);
   } else if constexpr (is_complex_v<T>) {
      return make_scalar<T>(r, 1);
   } else {
      T v;
      int n = std::is_arithmetic_v<typename T::value_type> && r.coin(1, 12) ? 3000 + r.below(20000) : r.below(7);
      for (int i = 0; i < n; i++) {
         v.push_back(make<typename T::value_type>(r.next()));
      }
      return v;
   }
}
template<typename T>
std::string print(const T& v) {
   Print p;
   print_value(p, v);
   return p.s;
}

template<typename T>
struct Ops {
   static std::string expect(uint64_t seed) {
      return print(make<T>(seed));
   }
   static std::string blank() {
      return print(T());
   }
   static void send(const mpi_t& m, uint64_t seed, int destination, int variant) {
      T value = make<T>(seed);
      if constexpr (is_tensor<T>::value) {
         if (variant == 1) {
            value.send(destination);
            return;
         }
      }
      m.send(value, destination);
      if (print(value) != expect(seed)) {
         sim_fail("send-changed-value", "the value passed to send was modified");
      }
   }
   static std::string receive(const mpi_t& m, int source, int variant) {
      if constexpr (is_tensor<T>::value) {
         if (variant == 1) {
            return print(T::receive(source));
         }
      }
      return print(m.receive<T>(source));
   }
   static std::string send_receive(const mpi_t& m, bool own, uint64_t seed, int source, int destination, int variant) {
      T value = own ? make<T>(seed) : T();
      if constexpr (is_tensor<T>::value) {
         if (variant == 1) {
            return print(value.send_receive(source, destination));
         }
      }
      return print(m.send_receive(value, source, destination));
   }
   static std::string broadcast(const mpi_t& m, bool own, uint64_t seed, int root, int variant) {
      T value = own ? make<T>(seed) : T();
      if constexpr (is_tensor<T>::value) {
         if (variant == 1) {
            return print(value.broadcast(root));
         }
      }
      return print(m.broadcast(value, root));
   }

   // values of one shape
   static T same_shape(uint64_t shape, uint64_t seed, bool ordinary) {
      Rng r(seed);
      if constexpr (is_tensor<T>::value) {
         Rng s(shape);
         auto sh = make_shape<T>(s, 3, 3);
         T t(sh.names, sh.edges);
         fill(t, r, ordinary ? 1 : 0);
         return t;
      } else if constexpr (std::is_same_v<T, std::string>) {
         return "<" + std::to_string(seed) + ">";
      } else if constexpr (std::is_same_v<T, std::vector<int>>) {
         return {int(seed), int(seed >> 8)};
      } else if constexpr (std::is_arithmetic_v<T>) {
         return ordinary && std::is_floating_point_v<T> ? make_real<T>(r, 1) : T(int(r.below(2001)) - 1000);
      } else {
         return make<T>(seed);
      }
   }
   static T combine(const T& a, const T& b) {
      if constexpr (is_tensor<T>::value) {
         return a + b;
      } else if constexpr (std::is_arithmetic_v<T>) {
         return a + b;
      } else if constexpr (std::is_same_v<T, std::string>) {
         return a + b;
      } else if constexpr (std::is_same_v<T, std::vector<int>>) {
         auto c = a;
         c.insert(c.end(), b.begin(), b.end());
         return c;
      } else {
         return a;
      }
   }
   // order-free form of a combined value
   static std::string canonical(const T& v) {
      if constexpr (std::is_same_v<T, std::string>) {
         std::multiset<std::string> parts;
         std::string cur;
         for (char c : v) {
            cur.push_back(c);
            if (c == '>') {
               parts.insert(cur);
               cur.clear();
            }
         }
         parts.insert(cur);
         std::string out;
         for (auto& p : parts) {
            out += p;
         }
         return out;
      } else if constexpr (std::is_same_v<T, std::vector<int>>) {
         std::multiset<std::pair<int, int>> parts;
         for (size_t i = 0; i + 1 < v.size(); i += 2) {
            parts.insert({v[i], v[i + 1]});
         }
         std::string out = std::to_string(v.size());
         for (auto& p : parts) {
            out += "," + std::to_string(p.first) + "/" + std::to_string(p.second);
         }
         return out;
      } else {
         return print(v);
      }
   }
   static std::string reduce(const mpi_t& m, uint64_t shape, uint64_t seed, int root, int variant, bool ordinary) {
      T value = same_shape(shape, seed, ordinary);
      std::string before = print(value);
      T result;
      auto f = [](const T& a, const T& b) {
         sim_yield("in reduction");
         return combine(a, b);
      };
      if constexpr (is_tensor<T>::value) {
         if (variant == 1) {
            result = value.reduce(root, f);
         } else if (variant == 2) {
            result = value.summary(root);
         } else {
            result = m.reduce(value, root, f);
         }
      } else {
         result = m.reduce(value, root, f);
      }
      if (print(value) != before) {
         sim_fail("reduce-changed-value", "the contribution passed to reduce was modified");
      }
      return m.rank == root || m.size == 1 ? (ordinary ? print(result) : canonical(result)) : std::string();
   }
   static std::string expect_sum(uint64_t shape, const std::vector<uint64_t>& seeds) {
      T sum = same_shape(shape, seeds[0], false);
      for (size_t i = 1; i < seeds.size(); i++) {
         T other = same_shape(shape, seeds[i], false);
         if constexpr (is_tensor<T>::value) {
            // by hand, without the library's arithmetic
            auto it = other.core->blocks.begin();
            for (auto& [k, b] : sum.core->blocks) {
               for (size_t j = 0; j < b.size(); j++) {
                  b[j] += it->second[j];
               }
               ++it;
            }
         } else {
            sum = combine(sum, other);
         }
      }
      return canonical(sum);
   }
   static void add(std::vector<Kind>& v, const char* name, bool reducible) {
      v.push_back({name, expect, blank, send, receive, send_receive, broadcast, reducible ? reduce : nullptr, reducible ? expect_sum : nullptr});
   }
};

#ifdef PLAIN
void kinds_plain(std::vector<Kind>& v) {
   Ops<std::string>::add(v, "string", true);
   Ops<std::vector<int>>::add(v, "vector<int>", true);
   Ops<int>::add(v, "int", true);
   Ops<double>::add(v, "double", true);
   Ops<long>::add(v, "long", true);
   Ops<std::complex<double>>::add(v, "complex<double>", false);
   Ops<std::vector<double>>::add(v, "vector<double>", false);
   Ops<std::vector<std::string>>::add(v, "vector<string>", false);
   Ops<std::vector<std::vector<int>>>::add(v, "vector<vector<int>>", false);
   Ops<std::vector<Tensor<double, U1Symmetry>>>::add(v, "vector<Tensor<double,U1>>", false);
   Ops<std::vector<std::complex<float>>>::add(v, "vector<complex<float>>", false);
   Ops<Pod>::add(v, "struct", false);
}
#else
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define STR2(a) #a
#define STR(a) STR2(a)
void CAT(kinds_, SYM)(std::vector<Kind>& v) {
   using S = CAT(SYM, Symmetry);
#define ONE(A, AN)                                                           \
   Ops<Tensor<A, S, FastName>>::add(v, "Tensor<" AN "," STR(SYM) ">", true); \
   Ops<Tensor<A, S, std::string>>::add(v, "Tensor<" AN "," STR(SYM) ",string>", true);
   ONE(double, "double")
   ONE(float, "float")
   ONE(std::complex<double>, "cdouble")
   ONE(std::complex<float>, "cfloat")
   Ops<Singular<double, S, FastName>>::add(v, "Singular<double," STR(SYM) ">", false);
   Ops<Singular<std::complex<float>, S, FastName>>::add(v, "Singular<cfloat," STR(SYM) ">", false);
}
#endif
