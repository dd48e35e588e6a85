// C10: flat edge lists (every record form, several containers), and graph -> flat list -> graph round trips.
#include <graph/graph.hpp>
#include <graph/edge_list/edge_list.hpp>
#include <graph/edge_list/edge_list_descriptor.hpp>
#include <graph/views/edgelist.hpp>
#include "kinds.hpp"
#include <graph/container/traits/mous_graph_traits.hpp>
namespace vw = graph::views;
namespace el_ = graph::edge_list;

#if UNIT == 8
template <class I>
I mk_id(int i) {
  if constexpr (std::is_same_v<I, std::string>) return "vertex number " + std::to_string(i) + " of the graph";
  else if constexpr (std::is_same_v<I, double>) return i / 4.0;
  else return static_cast<I>(i);
}
template <class V>
V mk_val(int i) {
  if constexpr (std::is_same_v<V, std::string>) return "a value that does not fit in place: " + std::to_string(i);
  else if constexpr (std::is_same_v<V, double>) return i / 8.0;
  else return static_cast<V>(i);
}
template <class I, class V>
struct Rec {
  I s, t;
  V v;
};
template <class I>
struct Rec<I, void> {
  I s, t;
};
struct EvFn { // assignable, as a standard view's members must be
  std::string salt;
  template <class L, class E>
  std::string operator()(const L& l, const E& e) const {
    std::string r = salt;
    if constexpr (el_::has_edge_value<L>) {
      std::ostringstream o;
      o << graph::edge_value(l, e);
      r += o.str();
    }
    return r;
  }
};
// The flat list `el` must report exactly the records `want`, in order.
template <class EL, class I, class V>
void check_list(Case& c, EL& el, const std::vector<Rec<I, V>>& want, const char* what, bool views) {
  static_assert(el_::basic_sourced_edgelist<EL>);
  static_assert(el_::basic_sourced_index_edgelist<EL> == std::is_integral_v<I>);
  static_assert(std::is_same_v<el_::vertex_id_t<EL>, I>);
  static_assert(el_::has_edge_value<EL> == !std::is_void_v<V>);
  if constexpr (!std::is_void_v<V>) static_assert(std::is_same_v<el_::edge_value_t<EL>, V>);
  size_t i = 0;
  for (auto&& uv : el) {
    PCHECK(i < want.size(), what << ": more records than stored");
    PCHECK(graph::source_id(el, uv) == want[i].s, what << ": source_id of record " << i);
    PCHECK(graph::target_id(el, uv) == want[i].t, what << ": target_id of record " << i);
    if constexpr (!std::is_void_v<V>) PCHECK(graph::edge_value(el, uv) == want[i].v, what << ": edge_value of record " << i);
    ++i;
  }
  PCHECK(i == want.size(), what << ": " << i << " records instead of " << want.size());
  if (!views) return;
  auto view_ok = [&](auto v, auto&& chk, const char* w) {
    for (int round = 0; round < 2; ++round) {
      size_t k = 0;
      for (auto&& x : v) {
        PCHECK(k < want.size(), what << "/" << w << ": more elements than records");
        chk(x, k);
        ++k;
      }
      PCHECK(k == want.size(), what << "/" << w << ": " << k << " elements instead of " << want.size());
      PCHECK(std::ranges::empty(v) == want.empty(), what << "/" << w << ": empty()");
      if constexpr (requires { v.size(); }) PCHECK(static_cast<size_t>(v.size()) == want.size(), what << "/" << w << ": size()");
      if (!want.empty()) { // postfix
        auto it = v.begin();
        auto o  = it++;
        chk(*o, 0);
        if (want.size() > 1) chk(*it, 1);
        PCHECK((it == v.end()) == (want.size() == 1), what << "/" << w << ": end after one step");
        PCHECK(!(o == it), what << "/" << w << ": iterator equals its successor");
      }
    }
    auto cp = v;
    auto mv = std::move(v);
    size_t k = 0;
    for (auto&& x : mv) chk(x, k++);
    PCHECK(k == want.size(), what << "/" << w << ": moved view");
    k = 0;
    for (auto&& x : cp) chk(x, k++);
    PCHECK(k == want.size(), what << "/" << w << ": copied view");
  };
  view_ok(
        vw::edgelist(el),
        [&](const auto& x, size_t k) {
          auto& [s, t, e] = x;
          PCHECK(s == want[k].s && t == want[k].t, what << ": edgelist(el) element " << k);
          PCHECK(graph::source_id(el, e) == want[k].s && graph::target_id(el, e) == want[k].t, what << ": edgelist(el) edge " << k);
          if constexpr (!std::is_void_v<V>) PCHECK(graph::edge_value(el, e) == want[k].v, what << ": edgelist(el) edge value " << k);
        },
        "edgelist(el)");
  std::string salt(50, 's');
  EvFn        evf{salt};
  view_ok(
        vw::edgelist(el, evf),
        [&](const auto& x, size_t k) {
          auto& [s, t, e, v] = x;
          PCHECK(s == want[k].s && t == want[k].t, what << ": edgelist(el,evf) element " << k);
          PCHECK(graph::source_id(el, e) == want[k].s && graph::target_id(el, e) == want[k].t, what << ": edgelist(el,evf) edge " << k);
          std::string w = salt;
          if constexpr (!std::is_void_v<V>) {
            std::ostringstream o;
            o << want[k].v;
            w += o.str();
          }
          PCHECK(v == w, what << ": edgelist(el,evf) value " << k);
        },
        "edgelist(el,evf)");
}
template <class I, class V>
std::vector<Rec<I, V>> records(Case& c) {
  std::vector<Rec<I, V>> r;
  int                    n = c.s.chance(1, 12) ? c.s.range(0, 80) : c.s.range(0, 8), k = c.s.range(1, 6);
  for (int i = 0; i < n; ++i) {
    int s = c.s.range(0, k), t = c.s.range(0, k), v = c.s.range(-3, 9);
    c.desc << s << ">" << t << ":" << v << " ";
    if constexpr (std::is_void_v<V>) r.push_back({mk_id<I>(s), mk_id<I>(t)});
    else r.push_back({mk_id<I>(s), mk_id<I>(t), mk_val<V>(v)});
  }
  c.nontrivial = n >= 2;
  return r;
}
template <class C, class R, class F>
C fill(const R& r, F f) {
  C c;
  if constexpr (requires { c.push_back(f(r[0])); })
    for (auto& x : r) c.push_back(f(x));
  else
    for (size_t i = r.size(); i--;) c.push_front(f(r[i]));
  return c;
}
// One record form in several containers, const and not, and as a range of temporaries
template <class El, class R, class F>
void containers(Case& c, const R& r, F f, const char* what) {
  auto v = fill<std::vector<El>>(r, f);
  check_list(c, v, r, what, true);
  const auto& cv = v;
  check_list(c, cv, r, what, true);
  auto l = fill<std::list<El>>(r, f);
  check_list(c, l, r, what, true);
  auto fl = fill<std::forward_list<El>>(r, f);
  check_list(c, fl, r, what, true);
  auto d = fill<std::deque<El>>(r, f);
  check_list(c, d, r, what, true);
  auto tv = v | std::views::transform([](const El& e) { return El(e); });
  check_list(c, tv, r, what, true);
  std::span<const El> sp(v.data(), v.size());
  check_list(c, sp, r, what, true);
}
template <class I, class V>
void flat(Case& c) {
  using R = Rec<I, V>;
  auto r  = records<I, V>(c);
  if constexpr (std::is_void_v<V>) {
    containers<std::pair<I, I>>(c, r, [](const R& x) { return std::pair<I, I>(x.s, x.t); }, "pair");
    containers<std::tuple<I, I>>(c, r, [](const R& x) { return std::tuple<I, I>(x.s, x.t); }, "tuple<2>");
    using ED = graph::edge_data<I, true, void, void>;
    containers<ED>(c, r, [](const R& x) { return ED{x.s, x.t}; }, "edge_data");
  } else {
    containers<std::tuple<I, I, V>>(c, r, [](const R& x) { return std::tuple<I, I, V>(x.s, x.t, x.v); }, "tuple<3>");
    using T4 = std::tuple<I, I, V, int>;
    containers<T4>(c, r, [](const R& x) { return T4(x.s, x.t, x.v, -77); }, "tuple<4>");
    using ED = graph::edge_data<I, true, void, V>;
    containers<ED>(c, r, [](const R& x) { return ED{x.s, x.t, x.v}; }, "edge_data");
  }
  // Edge handles: refer to the records above
  using D = el_::edge_descriptor<I, V>;
  auto mk = [](const R& x) {
    if constexpr (std::is_void_v<V>) return D(x.s, x.t);
    else return D(x.s, x.t, x.v);
  };
  std::vector<D> ds;
  ds.reserve(r.size());
  std::list<D> dl;
  for (auto& x : r) {
    ds.emplace_back(mk(x));
    dl.emplace_back(mk(x));
  }
  check_list(c, ds, r, "handle", true);
  check_list(c, dl, r, "handle", true);
  auto r2 = r; // equal contents at other addresses
  size_t n = std::min<size_t>(r.size(), 12);
  for (size_t i = 0; i < n; ++i) {
    PCHECK(&ds[i].source_id() == &r[i].s && &ds[i].target_id() == &r[i].t, "a handle refers to other ids");
    if constexpr (!std::is_void_v<V>) PCHECK(&ds[i].value() == &r[i].v, "a handle refers to another value");
    for (size_t j = 0; j < n; ++j) {
      D    o  = mk(r2[j]);
      auto key = [](const R& x) {
        if constexpr (std::is_void_v<V>) return std::tie(x.s, x.t);
        else return std::tie(x.s, x.t, x.v);
      };
      auto a = key(r[i]), b = key(r2[j]);
      PCHECK((ds[i] == o) == (a == b) && (ds[i] != o) == (a != b), "== of handles " << i << "," << j);
      PCHECK((ds[i] < o) == (a < b) && (ds[i] > o) == (a > b), "< > of handles " << i << "," << j);
      PCHECK((ds[i] <= o) == (a <= b) && (ds[i] >= o) == (a >= b), "<= >= of handles " << i << "," << j);
    }
  }
}
// The value may be compared through a partial order: unordered values are neither equal, less nor greater.
void nan_order(Case& c) {
  double nan = std::numeric_limits<double>::quiet_NaN();
  int    a = c.s.range(0, 2), b = c.s.range(0, 2), x = c.s.range(0, 2), y = c.s.range(0, 2);
  double v = c.s.chance(1, 2) ? nan : c.s.range(0, 2), w = c.s.chance(1, 2) ? nan : c.s.range(0, 2);
  c.desc << a << ">" << b << ":" << v << " and " << x << ">" << y << ":" << w;
  c.nontrivial = true;
  el_::edge_descriptor<int, double> p(a, b, v), q(x, y, w);
  auto                              s = std::tie(a, b, v) <=> std::tie(x, y, w);
  PCHECK((p <=> q) == s, "three-way comparison of handles");
}
static int reg_ = [] {
  auto& t = pbt::targets();
  t.push_back({"flat int", flat<int, void>, 1.0});
  t.push_back({"flat int int", flat<int, int>, 1.0});
  t.push_back({"flat uint8 string", flat<uint8_t, std::string>, 1.0});
  t.push_back({"flat string", flat<std::string, void>, 1.0});
  t.push_back({"flat string double", flat<std::string, double>, 1.0});
  t.push_back({"unordered values", nan_order, 0.3});
  return 0;
}();
#else
// The graph's edge list, loaded into other containers, gives a graph with the same edges and values.
template <class G0, class G>
void trip(Case& c, G& g, const MGraph& m) {
  using ID = idc<G0>;
  using E  = std::tuple<int, int, int>;
  constexpr bool vals = has_ev<G0>();
  std::vector<E> want;
  for (auto u : graph::vertices(g))
    for (auto uv : graph::edges(g, u)) {
      int w = 0;
      if constexpr (vals) w = as_int(graph::edge_value(g, uv));
      want.emplace_back(ID::dec(graph::vertex_id(g, u)), ID::dec(graph::target_id(g, uv)), w);
    }
  auto evf = [](const auto& gg, const auto& e) {
    if constexpr (vals) return as_int(graph::edge_value(gg, e));
    else return 0;
  };
  auto proj = [&](auto&& x) {
    auto&& [s, t, v] = x;
    return graph::copyable_edge_t<uint32_t, int>{static_cast<uint32_t>(ID::dec(s)), static_cast<uint32_t>(ID::dec(t)), v};
  };
  auto list_of = [](auto& h) {
    std::vector<E> r;
    for (auto u : graph::vertices(h))
      for (auto uv : graph::edges(h, u))
        r.emplace_back(static_cast<int>(graph::vertex_id(h, u)), static_cast<int>(graph::target_id(h, uv)), static_cast<int>(graph::edge_value(h, uv)));
    return r;
  };
  auto stable = want;
  std::stable_sort(stable.begin(), stable.end(), [](const E& a, const E& b) { return std::get<0>(a) < std::get<0>(b); });
  // through the view, straight into a container
  auto ev = vw::basic_edgelist(g, evf);
  {
    DG_U(vov, int, int, uint32_t) h;
    h.load_edges(ev, proj, static_cast<size_t>(m.n));
    PCHECK(graph::num_vertices(h) == static_cast<size_t>(m.n), "round trip into vov: vertices");
    PCHECK(list_of(h) == stable, "round trip into vov: " << list_of(h).size() << " edges for " << stable.size());
  }
  {
    DG_B(vol, int, int, uint32_t) h;
    h.load_edges(ev, proj, static_cast<size_t>(m.n));
    PCHECK(list_of(h) == stable, "round trip into bidirectional vol");
    std::vector<E> in;
    for (auto v : graph::vertices(h))
      for (auto uv : graph::in_edges(h, v))
        in.emplace_back(static_cast<int>(graph::source_id(h, uv)), static_cast<int>(graph::vertex_id(h, v)), static_cast<int>(graph::edge_value(h, uv)));
    auto a = in, b = want;
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    PCHECK(a == b, "round trip into bidirectional vol: incoming edges");
  }
  // through flat records; map-based containers keep the order of sources, compressed needs sorted input
  std::vector<std::tuple<uint32_t, uint32_t, int>> flat;
  for (auto&& [s, t, e, v] : vw::edgelist(g, evf)) {
    flat.emplace_back(static_cast<uint32_t>(ID::dec(s)), static_cast<uint32_t>(ID::dec(t)), v);
    PCHECK(graph::source_id(g, e) == s && graph::target_id(g, e) == t, "edge handle of the edge list");
  }
  PCHECK(flat.size() == want.size(), "edge list of the graph: " << flat.size() << " records, " << want.size() << " edges");
  for (size_t i = 0; i < flat.size(); ++i)
    PCHECK(static_cast<int>(std::get<0>(flat[i])) == std::get<0>(want[i]) && static_cast<int>(std::get<1>(flat[i])) == std::get<1>(want[i]) &&
                 std::get<2>(flat[i]) == std::get<2>(want[i]),
           "edge list of the graph: record " << i);
  auto fproj = [&](auto&& x) {
    return graph::copyable_edge_t<uint32_t, int>{graph::source_id(flat, x), graph::target_id(flat, x), graph::edge_value(flat, x)};
  };
  {
    DG_U(mol, int, int, uint32_t) h;
    h.load_edges(flat, fproj);
    PCHECK(list_of(h) == stable, "round trip into mol");
  }
  std::stable_sort(flat.begin(), flat.end(), [](auto& a, auto& b) { return std::get<0>(a) < std::get<0>(b); });
  {
    gc::compressed_graph<int, void, void, uint32_t, uint32_t> h;
    h.load_edges(flat, fproj, static_cast<size_t>(m.n));
    PCHECK(list_of(h) == stable, "round trip into compressed");
    // and back again
    std::vector<E> back;
    for (auto&& [s, t, v] : vw::basic_edgelist(h, [](const auto& gg, const auto& e) { return graph::edge_value(gg, e); }))
      back.emplace_back(static_cast<int>(s), static_cast<int>(t), v);
    PCHECK(back == stable, "the compressed graph's own edge list");
  }
  // bare pairs
  {
    std::vector<std::pair<uint32_t, uint32_t>> pairs;
    for (auto&& [s, t] : vw::basic_edgelist(g)) pairs.emplace_back(static_cast<uint32_t>(ID::dec(s)), static_cast<uint32_t>(ID::dec(t)));
    DG_U(vov, void, void, uint32_t) h;
    h.load_edges(pairs, [&](auto&& x) { return graph::copyable_edge_t<uint32_t, void>{graph::source_id(pairs, x), graph::target_id(pairs, x)}; }, static_cast<size_t>(m.n));
    std::vector<std::pair<int, int>> a, b;
    for (auto u : graph::vertices(h))
      for (auto uv : graph::edges(h, u)) a.emplace_back(static_cast<int>(graph::vertex_id(h, u)), static_cast<int>(graph::target_id(h, uv)));
    for (auto& [s, t, w] : stable) b.emplace_back(s, t);
    PCHECK(a == b, "round trip of pairs");
  }
  c.nontrivial = m.n >= 2 && want.size() >= 2;
}
template <class G>
void run(Case& c) {
  gen::Opt o;
  o.max_n  = 8;
  o.big_n  = 40;
  MGraph m = gen::graph(c.s, o);
  for (size_t i = 0; i < m.e.size(); ++i) m.e[i].w = static_cast<int>(i) + 1;
  c.desc << gen::str(m);
  G              g  = make<G>(m);
  constexpr bool cg = graph::adj_list::adjacency_list<const G>;
  if constexpr (cg)
    if (c.s.chance(1, 4)) return trip<G, const G>(c, g, m);
  trip<G, G>(c, g, m);
}
struct Trip {
  template <class G>
  static void run(Case& c) { ::run<G>(c); }
};
RegisterKinds<Trip> reg_;
#endif
