// The tensor operations a history is made of. Every operation is a function of its operands and one number.
#pragma once
#include "common.hpp"

namespace h {
   template<typename T>
   struct Ops {
      using S = typename T::symmetry_t;
      using N = typename T::name_t;
      using A = typename T::scalar_t;
      using G = typename T::SingularType;
      struct Made {
         std::vector<T> t;
         std::vector<G> g;
         std::string raw;
         std::string print() const {
            Print p;
            for (auto& x : t) {
               print_value(p, x);
            }
            p.s += "|";
            for (auto& x : g) {
               print_value(p, x);
            }
            p.s += "|" + raw;
            return p.s;
         }
      };

      // a copy that shares nothing, made without the library's own copying calls
      static T rebuild(const T& t) {
         T r;
         r.names.assign(t.names.begin(), t.names.end());
         for (const auto& [k, v] : t.name_to_index) {
            r.name_to_index[k] = v;
         }
         auto core = std::make_shared<Core<A, S>>();
         for (const auto& e : t.core->edges) {
            core->edges.push_back(e);
         }
         for (const auto& [k, b] : t.core->blocks) {
            auto& v = core->blocks[k];
            v.resize(b.size());
            for (size_t i = 0; i < b.size(); i++) {
               v[i] = b[i];
            }
         }
         r.core = core;
         return r;
      }
      static size_t elements(const T& t) {
         size_t n = 0;
         for (const auto& [k, b] : t.core->blocks) {
            n += b.size();
         }
         return n;
      }
      static N name(const char* text) {
         return N(text);
      }
      static N primed(int i) {
         static const char* const list[] = {"p'0", "p'1", "p'2", "p'3", "p'4", "p'5", "p'6", "p'7"};
         return N(list[i]);
      }
      static void register_names() {
         h::register_names();
         for (int i = 0; i < 8; i++) {
            (void)primed(i);
         }
         for (auto n : {"new1", "new2", "new3", "new4"}) {
            (void)N(n);
         }
      }
      // gives edges that carry one of the names used above ordinary names, so that operations can use them again
      static T ordinary(const T& t) {
         std::set<N> reserved, used(t.names.begin(), t.names.end());
         for (int i = 0; i < 8; i++) {
            reserved.insert(primed(i));
         }
         for (auto n : {"new1", "new2", "new3", "new4"}) {
            reserved.insert(N(n));
         }
         std::map<N, N> m;
         int next = 0;
         for (auto& n : t.names) {
            if (reserved.count(n)) {
               while (used.count(N(name_pool[next]))) {
                  next++;
               }
               used.insert(N(name_pool[next]));
               m[n] = N(name_pool[next]);
            }
         }
         return t.edge_rename(m);
      }
      static std::vector<N> shuffled(Rng& r, std::vector<N> v) {
         for (size_t i = v.size(); i > 1; i--) {
            std::swap(v[i - 1], v[r.below(uint32_t(i))]);
         }
         return v;
      }
      // the conjugate of a tensor with all edges renamed to primed names
      static T partner(const T& a) {
         std::map<N, N> m;
         for (size_t i = 0; i < a.names.size(); i++) {
            m[a.names[i]] = primed(int(i));
         }
         return a.conjugate().edge_rename(m);
      }
      // contract a with its partner over all edges but a few
      static T squared(const T& a, int keep, Rng& r, std::vector<int>* kept = nullptr) {
         T b = partner(a);
         std::set<std::tuple<N, N>> pairs;
         std::vector<int> order;
         for (size_t i = 0; i < a.names.size(); i++) {
            order.push_back(int(i));
         }
         for (size_t i = order.size(); i > 1; i--) {
            std::swap(order[i - 1], order[r.below(uint32_t(i))]);
         }
         for (size_t i = 0; i < order.size(); i++) {
            if (int(i) < keep) {
               if (kept) {
                  kept->push_back(order[i]);
               }
            } else {
               pairs.insert({a.names[order[i]], primed(order[i])});
            }
         }
         return a.contract(b, pairs);
      }

      static constexpr int reading_ops = 30;
      static const char* reading_name(int op) {
         static const char* const list[reading_ops] = {"rename", "transpose", "conjugate", "scalar arithmetic", "tensor arithmetic", "contract", "svd", "qr", "trace", "exponential", "identity", "merge and split",
                                                       "reverse", "shrink", "expand", "convert", "dump and load", "map", "copy", "norm", "read elements", "construct", "contract all", "contract fused", "contract with other sectors", "singular values", "edge operator", "arithmetic over other sectors", "split into more sectors", "contract empty edges"};
         return list[op];
      }
      // operations that only read their operands
      static Made read(int op, const T& a, const T& b, uint64_t seed) {
         Rng r(seed);
         Made m;
         uint32_t rank = uint32_t(a.names.size());
         switch (op) {
            case 0: {
               std::map<N, N> dictionary;
               if (rank) {
                  dictionary[a.names[r.below(rank)]] = N("new1");
               }
               m.t.push_back(a.edge_rename(dictionary));
               break;
            }
            case 1: m.t.push_back(a.transpose(shuffled(r, a.names))); break;
            case 2: m.t.push_back(a.conjugate()); break;
            case 3: {
               A x = make_scalar<A>(r, 1);
               switch (r.below(8)) {
                  case 0: m.t.push_back(a + x); break;
                  case 1: m.t.push_back(a - x); break;
                  case 2: m.t.push_back(a * x); break;
                  case 3: m.t.push_back(a / x); break;
                  case 4: m.t.push_back(x + a); break;
                  case 5: m.t.push_back(x - a); break;
                  case 6: m.t.push_back(x * a); break;
                  default: m.t.push_back(x / a); break;
               }
               break;
            }
            case 4: {
               T c = r.coin(1, 3) ? b : r.coin(1, 2) ? a.transpose(shuffled(r, a.names)) : a;
               switch (r.below(4)) {
                  case 0: m.t.push_back(a + c); break;
                  case 1: m.t.push_back(a - c); break;
                  case 2: m.t.push_back(a * c); break;
                  default: m.t.push_back(c / a); break;
               }
               break;
            }
            case 5: m.t.push_back(squared(a, std::min<int>(rank, r.below(3)), r)); break;
            case 6: {
               std::set<N> free;
               for (auto& n : a.names) {
                  if (r.coin(1, 2)) {
                     free.insert(n);
                  }
               }
               if (free.empty() || free.size() == rank) {
                  m.raw = "no cut";
                  break;
               }
               auto result = a.svd(free, N("new1"), N("new2"), r.coin(1, 2) ? Size(-1) : Size(1 + r.below(4)));
               m.t.push_back(result.U);
               m.t.push_back(result.V);
               m.g.push_back(result.S);
               if (r.coin(1, 2)) {
                  m.t.push_back(result.U.multiple(result.S, N("new1"), 'u', r.coin(1, 3)));
               } else {
                  m.t.push_back(result.V.multiple(result.S, N("new2"), 'v'));
               }
               break;
            }
            case 7: {
               std::set<N> free;
               for (auto& n : a.names) {
                  if (r.coin(1, 2)) {
                     free.insert(n);
                  }
               }
               if (free.empty() || free.size() == rank) {
                  m.raw = "no cut";
                  break;
               }
               auto result = a.qr(r.coin(1, 2) ? 'q' : 'r', free, N("new1"), N("new2"));
               m.t.push_back(result.Q);
               m.t.push_back(result.R);
               break;
            }
            case 8:
            case 9:
            case 10: {
               std::vector<int> kept;
               T matrix = squared(a, std::min<int>(rank, op == 8 ? 2 : 1), r, &kept);
               std::set<std::tuple<N, N>> pairs;
               for (auto i : kept) {
                  if (op != 8 || pairs.empty() || r.coin(1, 2)) {
                     pairs.insert({a.names[i], primed(i)});
                  }
               }
               if (op == 8) {
                  m.t.push_back(matrix.trace(pairs));
               } else if (op == 9) {
                  auto scale = matrix.template norm<-1>();
                  if (!kept.empty() && elements(matrix) > 0 && scale > 0 && scale < 1e6) {
                     m.t.push_back((matrix / A(scale)).exponential(pairs, 1 + r.below(3)));
                  }
               } else {
                  m.t.push_back(matrix.identity(pairs));
               }
               break;
            }
            case 11: {
               if (rank < 2) {
                  break;
               }
               auto order = shuffled(r, a.names);
               int n = 1 + r.below(std::min<uint32_t>(3, rank));
               std::vector<N> group(order.begin(), order.begin() + n);
               bool parity = r.coin(1, 2);
               T merged = a.merge_edge(std::map<N, std::vector<N>>{{N("new1"), group}}, parity);
               m.t.push_back(merged);
               std::vector<std::tuple<N, BoseEdge<S>>> parts;
               // after merging the arrows of the group agree, so only edges that agreed before can be split back
               for (auto& g : group) {
                  auto& e = a.core->edges[a.name_to_index.at(g)];
                  BoseEdge<S> edge;
                  edge.map = e.map;
                  parts.push_back({g, edge});
               }
               m.t.push_back(merged.split_edge(std::map<N, std::vector<std::tuple<N, BoseEdge<S>>>>{{N("new1"), parts}}, parity));
               break;
            }
            case 12: {
               std::set<N> some;
               for (auto& n : a.names) {
                  if (r.coin(1, 2)) {
                     some.insert(n);
                  }
               }
               m.t.push_back(a.reverse_edge(some, r.coin(1, 2)));
               break;
            }
            case 13: {
               if (rank == 0 || elements(a) == 0) {
                  break;
               }
               std::map<N, typename T::EdgePoint> points;
               auto block = a.core->blocks.begin();
               std::advance(block, r.below(uint32_t(a.core->blocks.size())));
               uint32_t n = r.below(rank + 1);
               for (uint32_t i = 0; i < n; i++) {
                  auto s = block->first[i];
                  Size index = r.below(uint32_t(a.core->edges[i].map.at(s)));
                  if constexpr (std::is_same_v<S, NoSymmetry>) {
                     points[a.names[i]] = index;
                  } else {
                     points[a.names[i]] = {s, index};
                  }
               }
               m.t.push_back(std::is_same_v<S, NoSymmetry> && r.coin(1, 2) ? a.shrink(points) : a.shrink(points, N("new3"), r.coin(1, 2)));
               break;
            }
            case 14: {
               typename T::EdgePointWithArrow point;
               Size dimension = 1 + r.below(3), index = r.below(uint32_t(dimension));
               if constexpr (std::is_same_v<S, NoSymmetry>) {
                  point = {index, dimension};
               } else if constexpr (is_fermi_symmetry_v<S>) {
                  point = {r.coin(1, 2), S(), index, dimension};
               } else {
                  point = {S(), index, dimension};
               }
               m.t.push_back(a.expand(std::map<N, typename T::EdgePointWithArrow>{{N("new4"), point}}));
               break;
            }
            case 15: {
               m.t.push_back(a.template to<A>());
               if constexpr (is_complex_v<A>) {
                  auto c = a.template to<real_base_t<A>>();
                  m.raw = fingerprint(c);
               } else {
                  auto c = a.template to<std::complex<A>>();
                  m.raw = fingerprint(c);
               }
               break;
            }
            case 16: {
               std::string data = a.dump();
               m.t.push_back(T().load(data));
               m.raw = data + a.show();
               break;
            }
            case 17: {
               A x = make_scalar<A>(r, 1);
               m.t.push_back(a.map([&](A v) { return v * x + A(1); }));
               break;
            }
            case 18: m.t.push_back(a.copy()); break;
            case 19: {
               Print p;
               print_real(p, a.template norm<-1>());
               print_real(p, a.template norm<0>());
               print_real(p, a.template norm<1>());
               print_real(p, a.template norm<2>());
               print_real(p, a.template norm<3>());
               m.raw = p.s;
               break;
            }
            case 20: {
               if (elements(a) == 0) {
                  break;
               }
               Print p;
               visit_one(a, r, [&](const auto& position, const auto& block_position) {
                  print_scalar(p, a.const_at(position));
                  print_scalar(p, a.at(position));
                  for (auto& v : a.const_block(block_position)) {
                     print_scalar(p, v);
                  }
               });
               m.raw = p.s;
               break;
            }
            case 21: {
               m.t.push_back(a.same_shape().zero());
               m.t.push_back(T(make_scalar<A>(r, 1)));
               m.t.push_back(T(a.names, a.core->edges).zero());
               std::vector<S> symmetries;
               std::vector<Arrow> arrows;
               if constexpr (!std::is_same_v<S, NoSymmetry>) {
                  S sum = S();
                  for (uint32_t i = 0; i < rank; i++) {
                     S s = i + 1 == rank ? -sum : make_symmetry<S>(r);
                     sum += s;
                     symmetries.push_back(s);
                     arrows.push_back(r.coin(1, 2));
                  }
               }
               m.t.push_back(T::one(make_scalar<A>(r, 1), a.names, symmetries, arrows));
               break;
            }
            case 22: m.t.push_back(r.coin(1, 2) ? a.contract_all_edge() : a.contract_all_edge(a.conjugate())); break;
            case 23: {
               // edges of the same name on both sides: only without symmetry
               if constexpr (std::is_same_v<S, NoSymmetry>) {
                  std::map<N, N> rename;
                  std::set<std::tuple<N, N>> pairs;
                  for (uint32_t i = 0; i < rank; i++) {
                     switch (r.below(3)) {
                        case 0: break; // stays, and is fused
                        case 1: rename[a.names[i]] = primed(int(i)); break;
                        default:
                           rename[a.names[i]] = primed(int(i));
                           pairs.insert({a.names[i], primed(int(i))});
                           break;
                     }
                  }
                  T other = a.edge_rename(rename);
                  if (r.coin(1, 2)) {
                     other = other.transpose(shuffled(r, other.names));
                  }
                  m.t.push_back(r.coin(1, 2) ? a.contract(other, pairs) : a.map([](A v) { return v + A(1); }).contract(other, pairs));
               }
               break;
            }
            case 24: {
               // the other side lacks some sectors or has more of them
               if constexpr (!std::is_same_v<S, NoSymmetry>) {
                  T conj = a.conjugate();
                  std::vector<N> names;
                  std::vector<Edge<S>> edges;
                  std::set<std::tuple<N, N>> pairs;
                  uint32_t joined = 1 + r.below(std::max<uint32_t>(rank, 1));
                  for (uint32_t i = 0; i < rank && i < joined; i++) {
                     names.push_back(primed(int(i)));
                     pairs.insert({a.names[i], primed(int(i))});
                     Edge<S> e = conj.core->edges[i];
                     if (e.map.size() > 1 && r.coin(1, 2)) {
                        auto at = e.map.begin();
                        std::advance(at, r.below(uint32_t(e.map.size())));
                        e.map.erase(at);
                     }
                     if (r.coin(1, 2)) {
                        e.map.insert({make_symmetry<S>(r), Size(1 + r.below(2))});
                     }
                     edges.push_back(e);
                  }
                  if (rank > 0 && r.coin(1, 2)) {
                     names.push_back(primed(7));
                     edges.push_back(conj.core->edges[rank - 1]);
                  }
                  T other(names, edges);
                  other.set([&] { return make_scalar<A>(r, 1); });
                  m.t.push_back(a.contract(other, pairs));
                  m.t.push_back(other.contract(a, [&] {
                     std::set<std::tuple<N, N>> turned;
                     for (auto& [x, y] : pairs) {
                        turned.insert({y, x});
                     }
                     return turned;
                  }()));
               }
               break;
            }
            case 25: {
               if (rank < 2) {
                  break;
               }
               auto result = a.svd(std::set<N>{a.names[r.below(rank)]}, N("new1"), N("new2"));
               G one = result.S, two = result.S.copy();
               if (!one.value.empty() && !one.value.begin()->second.empty()) {
                  switch (r.below(4)) {
                     case 0: one *= 2; break;
                     case 1: one /= one.value.begin()->second.front(); break;
                     case 2: one += one.value.begin()->second.back(); break;
                     default: one -= 1; break;
                  }
               }
               m.g.push_back(one);
               m.g.push_back(two);
               m.g.push_back(result.S);
               G three;
               three.load(one.dump());
               m.g.push_back(three);
               Print p;
               print_real(p, one.template norm<-1>());
               print_real(p, one.template norm<2>());
               m.raw = one.show() + p.s;
               break;
            }
            case 27: {
               // each side has sectors the other lacks: the result has blocks that neither side has
               if constexpr (!std::is_same_v<S, NoSymmetry>) {
                  std::vector<Edge<S>> one, two;
                  for (uint32_t i = 0; i < rank; i++) {
                     Edge<S> e = a.core->edges[i];
                     for (int k = r.below(3); k > 0; k--) {
                        e.map.insert({make_symmetry<S>(r), Size(1 + r.below(2))});
                     }
                     auto part = [&] {
                        Edge<S> f = e;
                        while (f.map.size() > 1 && r.coin(1, 2)) {
                           auto at = f.map.begin();
                           std::advance(at, r.below(uint32_t(f.map.size())));
                           f.map.erase(at);
                        }
                        return f;
                     };
                     one.push_back(part());
                     two.push_back(part());
                  }
                  T x(a.names, one), y(a.names, two);
                  x.set([&] { return make_scalar<A>(r, 1); });
                  y.set([&] { return make_scalar<A>(r, 1); });
                  if (r.coin(1, 3)) {
                     y = y.transpose(shuffled(r, y.names));
                  }
                  switch (r.below(3)) {
                     case 0: m.t.push_back(x + y); break;
                     case 1: m.t.push_back(x - y); break;
                     default: m.t.push_back(x * y); break;
                  }
               }
               break;
            }
            case 28: {
               // the parts have sectors that the edge they come from does not have
               if constexpr (!std::is_same_v<S, NoSymmetry>) {
                  if (rank < 1) {
                     break;
                  }
                  BoseEdge<S> p, q;
                  for (int k = 1 + r.below(2); k > 0; k--) {
                     p.map.insert({make_symmetry<S>(r), Size(1 + r.below(2))});
                     q.map.insert({make_symmetry<S>(r), Size(1 + r.below(2))});
                  }
                  std::map<S, Size> product;
                  for (auto& [u, n] : p.map) {
                     for (auto& [v, k] : q.map) {
                        product[u + v] += n * k;
                     }
                  }
                  uint32_t at = r.below(rank);
                  std::vector<Edge<S>> edges(a.core->edges.begin(), a.core->edges.end());
                  edges[at].map.clear();
                  for (auto& [u, n] : product) {
                     edges[at].map[u] = n;
                  }
                  while (edges[at].map.size() > 1 && r.coin(2, 3)) {
                     auto gone = edges[at].map.begin();
                     std::advance(gone, r.below(uint32_t(edges[at].map.size())));
                     edges[at].map.erase(gone);
                  }
                  T x(a.names, edges);
                  x.set([&] { return make_scalar<A>(r, 1); });
                  std::map<N, std::vector<std::tuple<N, BoseEdge<S>>>> split{{a.names[at], {{N("new1"), p}, {N("new2"), q}}}};
                  bool parity = r.coin(1, 2);
                  m.t.push_back(x.split_edge(split, parity));
                  // the same with other edges merged in the same call
                  std::vector<N> target, group;
                  for (uint32_t i = 0; i < rank; i++) {
                     if (i == at) {
                        target.push_back(N("new1"));
                        target.push_back(N("new2"));
                     } else if (group.size() < 2) {
                        group.push_back(a.names[i]);
                     } else {
                        target.push_back(a.names[i]);
                     }
                  }
                  if (group.size() == 2) {
                     target.push_back(N("new3"));
                     m.t.push_back(x.edge_operator(std::map<N, N>{}, split, std::set<N>{}, std::map<N, std::vector<N>>{{N("new3"), group}}, shuffled(r, target), parity));
                  }
               }
               break;
            }
            case 29: {
               // an edge without any element is joined: a sum over nothing
               std::vector<N> one{primed(0), primed(1)}, two{primed(2), primed(3)};
               Edge<S> empty = rank ? a.core->edges[0] : Edge<S>(2);
               for (auto& [k, v] : empty.map) {
                  if (std::is_same_v<S, NoSymmetry> || r.coin(1, 2)) {
                     v = 0;
                  }
               }
               Edge<S> turned, left, right;
               for (auto& [k, v] : empty.map) {
                  turned.map[-k] = v;
                  left.map[-k] = 1 + r.below(3);
                  right.map[k] = 1 + r.below(3);
               }
               if constexpr (is_fermi_symmetry_v<S>) {
                  turned.arrow = !empty.arrow;
               }
               bool first = r.coin(1, 2), second = r.coin(1, 2);
               T x(one, first ? std::vector<Edge<S>>{left, empty} : std::vector<Edge<S>>{empty, left});
               T y(two, second ? std::vector<Edge<S>>{turned, right} : std::vector<Edge<S>>{right, turned});
               x.set([&] { return make_scalar<A>(r, 1); });
               y.set([&] { return make_scalar<A>(r, 1); });
               m.t.push_back(x.contract(y, std::set<std::tuple<N, N>>{{primed(first), primed(second ? 2 : 3)}}));
               break;
            }
            default: {
               // rename, reverse, merge and transpose in one call
               if (rank < 2) {
                  break;
               }
               auto order = shuffled(r, a.names);
               std::map<N, N> rename;
               std::map<N, std::vector<N>> merge;
               std::set<N> reversed;
               rename[order[0]] = N("new2");
               order[0] = N("new2");
               if (is_fermi_symmetry_v<S> && r.coin(1, 2)) {
                  reversed.insert(order[1]);
               }
               std::vector<N> target(order.begin(), order.end());
               if (r.coin(1, 2)) {
                  merge[N("new1")] = {order[0], order[1]};
                  target.erase(target.begin(), target.begin() + 2);
                  target.push_back(N("new1"));
               }
               m.t.push_back(a.edge_operator(rename, std::map<N, std::vector<std::tuple<N, BoseEdge<S>>>>{}, reversed, merge, target, r.coin(1, 2)));
               break;
            }
         }
         return m;
      }
      template<typename F>
      static void visit_one(const T& a, Rng& r, F&& f) {
         auto block = a.core->blocks.begin();
         std::advance(block, r.below(uint32_t(a.core->blocks.size())));
         std::map<N, typename T::EdgePoint> position;
         std::map<N, S> block_position;
         for (size_t i = 0; i < a.names.size(); i++) {
            auto s = block->first[i];
            Size index = r.below(uint32_t(a.core->edges[i].map.at(s)));
            if constexpr (std::is_same_v<S, NoSymmetry>) {
               position[a.names[i]] = index;
            } else {
               position[a.names[i]] = {s, index};
            }
            block_position[a.names[i]] = s;
         }
         f(position, block_position);
      }

      static constexpr int writing_ops = 11;
      static const char* writing_name(int op) {
         static const char* const list[writing_ops] = {"in-place scalar arithmetic", "in-place tensor arithmetic", "transform", "set", "zero", "test", "write one element", "write one block", "in-place arithmetic with itself", "in-place arithmetic with its own element", "rvalue transform"};
         return list[op];
      }
      // in-place arithmetic with an element of the same tensor, spelt out with a copy of the element
      static bool plainly(int op, T& a, uint64_t seed) {
         if (op != 9 || elements(a) == 0) {
            return false;
         }
         Rng r(seed);
         visit_one(a, r, [&](const auto& position, const auto&) {
            A x = a.const_at(position);
            auto way = r.below(4);
            for (auto& [k, b] : a.core->blocks) {
               for (auto& v : b) {
                  switch (way) {
                     case 0: v += x; break;
                     case 1: v -= x; break;
                     case 2: v *= x; break;
                     default: v /= x; break;
                  }
               }
            }
         });
         return true;
      }
      // operations that change their first operand; they either happen or not
      static void write(int op, T& a, const T& b, uint64_t seed) {
         Rng r(seed);
         switch (op) {
            case 0: {
               A x = make_scalar<A>(r, 1);
               switch (r.below(4)) {
                  case 0: a += x; break;
                  case 1: a -= x; break;
                  case 2: a *= x; break;
                  default: a /= x; break;
               }
               break;
            }
            case 1: {
               T c = r.coin(1, 3) ? b : r.coin(1, 2) ? rebuild(a).transpose(shuffled(r, a.names)) : a;
               switch (r.below(4)) {
                  case 0: a += c; break;
                  case 1: a -= c; break;
                  case 2: a *= c; break;
                  default: a /= c; break;
               }
               break;
            }
            case 2: {
               A x = make_scalar<A>(r, 1);
               a.transform([&](A v) { return v + x; });
               break;
            }
            case 3: {
               a.set([&] { return make_scalar<A>(r, 1); });
               break;
            }
            case 4: a.zero(); break;
            case 5: a.test(make_scalar<A>(r, 0), make_scalar<A>(r, 0)); break;
            case 6: {
               if (elements(a) == 0) {
                  break;
               }
               A x = make_scalar<A>(r, 1);
               visit_one(a, r, [&](const auto& position, const auto&) { a.at(position) = x; });
               break;
            }
            case 7: {
               if (elements(a) == 0) {
                  break;
               }
               A x = make_scalar<A>(r, 1);
               visit_one(a, r, [&](const auto&, const auto& position) {
                  for (auto& v : a.block(position)) {
                     v = v * x;
                  }
               });
               break;
            }
            case 8: {
               switch (r.below(4)) {
                  case 0: a += a; break;
                  case 1: a -= a; break;
                  case 2: a *= a; break;
                  default: a /= a; break;
               }
               break;
            }
            case 9: {
               if (elements(a) == 0) {
                  break;
               }
               visit_one(a, r, [&](const auto& position, const auto&) {
                  switch (r.below(4)) {
                     case 0: a += a.const_at(position); break;
                     case 1: a -= a.const_at(position); break;
                     case 2: a *= a.const_at(position); break;
                     default: a /= a.const_at(position); break;
                  }
               });
               break;
            }
            default: {
               A x = make_scalar<A>(r, 1);
               T c = T(a).transform([&](A v) { return v - x; });
               a = std::move(c);
               break;
            }
         }
      }
   };
} // namespace h
