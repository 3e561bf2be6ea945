#define TAT_NOTHING_BITS 7
#include "io_kind.hpp"
using namespace h;

template<typename T>
struct is_tensor : std::false_type {};
template<typename A, typename B, typename C>
struct is_tensor<Tensor<A, B, C>> : std::true_type {};
template<typename T>
struct is_singular : std::false_type {};
template<typename A, typename B, typename C>
struct is_singular<Singular<A, B, C>> : std::true_type {};

template<typename T>
struct is_edge_type : std::false_type {};
template<typename S>
struct is_edge_type<Edge<S>> : std::true_type {};

// styles: 0 small integers, 1 ordinary, 2 any bit pattern, 3 wide range of magnitudes (finite, no negative zero)
template<typename T>
T real_value(Rng& r, int style) {
   if (style == 3) {
      T v = make_real<T>(r, 1);
      int e = int(r.below(41)) - 20;
      v = T(std::ldexp(v, e));
      return v == 0 ? T(1) : v;
   }
   return make_real<T>(r, style);
}
template<typename T>
T scalar_value(Rng& r, int style) {
   if constexpr (is_complex_v<T>) {
      using B = real_base_t<T>;
      B a = r.coin(1, 6) ? B(0) : real_value<B>(r, style);
      B b = r.coin(1, 6) ? B(0) : real_value<B>(r, style);
      return T(a, b);
   } else {
      return r.coin(1, 10) ? T(0) : real_value<T>(r, style);
   }
}
inline std::string random_name(Rng& r, bool any_byte) {
   std::string s;
   int n = r.coin(1, 6) ? r.below(r.coin(1, 8) ? 900 : 250) : r.below(12);
   for (int i = 0; i < n; i++) {
      char c;
      if (any_byte) {
         c = char(r.below(256));
      } else {
         do {
            c = char(33 + r.below(94));
         } while (c == ',' || c == '[' || c == ']');
      }
      s.push_back(c);
   }
   return s;
}

template<typename T>
T make(uint64_t seed, int style) {
   Rng r(seed);
   if constexpr (is_tensor<T>::value) {
      bool large = style != 3 && r.coin(1, 60);
      auto s = large ? make_shape<T>(r, 2, 90) : make_shape<T>(r, 4, 3);
      if constexpr (std::is_same_v<typename T::symmetry_t, NoSymmetry>) {
         if (!s.edges.empty() && r.coin(1, 10)) {
            s.edges[r.below(uint32_t(s.edges.size()))].map.begin()->second = 0;
         }
      }
      if constexpr (std::is_same_v<typename T::name_t, std::string>) {
         for (auto& n : s.names) {
            if (r.coin(1, 3)) {
               // a name that ends in its own position stays unique
               n = random_name(r, style == 2) + "#" + std::to_string(&n - s.names.data());
            }
         }
      }
      T t(s.names, s.edges);
      for (auto& [key, block] : t.core->blocks) {
         for (auto& x : block) {
            x = scalar_value<typename T::scalar_t>(r, style);
         }
      }
      return t;
   } else if constexpr (is_singular<T>::value) {
      T g = make_singular<T>(r, 1);
      for (auto& [k, v] : g.value) {
         for (auto& x : v) {
            x = real_value<std::decay_t<decltype(x)>>(r, style);
         }
      }
      return g;
   } else if constexpr (std::is_same_v<T, std::string>) {
      return random_name(r, style == 2);
   } else if constexpr (is_edge_type<T>::value) {
      return make_edge<typename T::symmetry_type>(r, 5);
   } else if constexpr (std::is_arithmetic_v<T>) {
      return T(int64_t(r.next() % 2000003) - 1000001);
   } else if constexpr (is_complex_v<T>) {
      return scalar_value<T>(r, style);
   } else {
      T v;
      int n = std::is_arithmetic_v<typename T::value_type> && r.coin(1, 12) ? 3000 + r.below(20000) : r.below(7);
      for (int i = 0; i < n; i++) {
         v.push_back(make<typename T::value_type>(r.next(), style));
      }
      return v;
   }
}

template<typename T>
struct Io {
   static std::string expect(uint64_t seed, int style) {
      return fingerprint(make<T>(seed, style));
   }
   static void write(std::ostream& out, uint64_t seed, int style, int variant) {
      T v = make<T>(seed, style);
      if constexpr (is_tensor<T>::value) {
         if (variant % 4 == 1) {
            v.meta_put(out).data_put(out);
            return;
         }
      }
      if (variant % 4 == 2) {
         std::move(out) < v;
      } else {
         out < v;
      }
      if (fingerprint(v) != expect(seed, style)) {
         sim_fail("write-changed-value", "writing a value modified it");
      }
   }
   // reads into a fresh object or over an old one which somebody else may still share
   template<typename F>
   static std::string into(int variant, F&& f) {
      if (variant % 3 == 0) {
         T v{};
         f(v);
         return fingerprint(v);
      }
      uint64_t old = variant * 977ull + 5;
      T v = make<T>(old, 1);
      T other = v; // tensors share their data here
      std::string before = fingerprint(other);
      auto verify = [&] {
         if (fingerprint(other) != before) {
            sim_fail("aliasing", "reading into one object changed another object that shared its old content");
         }
      };
      try {
         f(v);
      } catch (...) {
         verify();
         throw;
      }
      verify();
      return fingerprint(v);
   }
   static std::string read(std::istream& in, int variant) {
      return into(variant, [&](T& v) {
         if constexpr (is_tensor<T>::value) {
            if (variant % 4 == 1) {
               v.meta_get(in).data_get(in);
               return;
            }
         }
         if (variant % 4 == 2) {
            std::move(in) > v;
         } else {
            in > v;
         }
      });
   }
   static std::string dump(uint64_t seed, int style) {
      return make<T>(seed, style).dump();
   }
   static std::string load(const std::string& data, int variant) {
      if (variant % 4 == 3) {
         return fingerprint(T().load(data));
      }
      return into(variant, [&](T& v) { v.load(data); });
   }
   static void print(std::ostream& out, uint64_t seed, int style) {
      out << make<T>(seed, style);
   }
   static std::string show(uint64_t seed, int style) {
      return make<T>(seed, style).show();
   }
   static std::string scan(std::istream& in, int variant) {
      return into(variant, [&](T& v) { in >> v; });
   }
   static void add(std::vector<IoKind>& list, const char* name) {
      IoKind k{};
      k.name = name;
      k.expect = expect;
      k.write = write;
      k.read = read;
      if constexpr (is_tensor<T>::value || is_singular<T>::value) {
         k.text = true;
         k.dump = dump;
         k.load = load;
         k.print = print;
         k.show = show;
         k.scan = scan;
      }
      list.push_back(k);
   }
};

#ifdef PLAIN
void io_plain(std::vector<IoKind>& v) {
   Io<std::string>::add(v, "string");
   Io<std::vector<int>>::add(v, "vector<int>");
   Io<double>::add(v, "double");
   Io<std::complex<float>>::add(v, "complex<float>");
   Io<std::vector<std::string>>::add(v, "vector<string>");
   Io<std::vector<std::vector<double>>>::add(v, "vector<vector<double>>");
   Io<std::vector<Tensor<double, FermiU1Symmetry, std::string>>>::add(v, "vector<Tensor<double,FermiU1,string>>");
   Io<std::vector<Singular<double, U1Symmetry>>>::add(v, "vector<Singular<double,U1>>");
}
#else
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define STR2(a) #a
#define STR(a) STR2(a)
void CAT(io_, SYM)(std::vector<IoKind>& v) {
   using S = CAT(SYM, Symmetry);
#define ONE(A, AN)                                                    \
   Io<Tensor<A, S, FastName>>::add(v, "Tensor<" AN "," STR(SYM) ">"); \
   Io<Tensor<A, S, std::string>>::add(v, "Tensor<" AN "," STR(SYM) ",string>");
   ONE(double, "double")
   ONE(float, "float")
   ONE(std::complex<double>, "cdouble")
   ONE(std::complex<float>, "cfloat")
   Io<Edge<S>>::add(v, "Edge<" STR(SYM) ">");
   Io<std::vector<Edge<S>>>::add(v, "vector<Edge<" STR(SYM) ">>");
   Io<Singular<double, S, FastName>>::add(v, "Singular<double," STR(SYM) ">");
   Io<Singular<float, S, std::string>>::add(v, "Singular<float," STR(SYM) ",string>");
   Io<Singular<std::complex<float>, S, FastName>>::add(v, "Singular<cfloat," STR(SYM) ">");
}
#endif
