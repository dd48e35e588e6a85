// V01: vertexlist, incidence, neighbors and edgelist views (and their basic, incoming and range-limited forms).
#include "kinds.hpp"
#include <graph/views/basic_views.hpp>
namespace vw = graph::views;

// A value function with state on the heap (copyable and assignable, as a standard view's members must be).
template <class D>
struct ValueFn {
  std::shared_ptr<int> salt;
  std::string          pad;
  template <class G>
  long operator()(const G&, const D& d) const {
    if (pad.size() != 40) return -1;
    return static_cast<long>(std::hash<D>{}(d) * 31u + static_cast<size_t>(*salt));
  }
};

// Everything a view promises about being a sequence. `to` turns an element into a comparable tuple.
template <class MakeView, class To, class Row>
void seq(Case& c, const std::string& what, MakeView mk, To to, const std::vector<Row>& want) {
  auto list = [&](auto& v) {
    std::vector<Row> r;
    for (auto&& x : v) {
      r.push_back(to(x));
      if (r.size() > want.size() + 5) break; // no endless lists
    }
    return r;
  };
  auto v = mk();
  auto a = list(v);
  PCHECK(a.size() == want.size(), what << " lists " << a.size() << " elements instead of " << want.size());
  for (size_t i = 0; i < a.size(); ++i)
    PCHECK(a[i] == want[i], what << ": element " << i << " differs");
  PCHECK(list(v) == want, what << ": a second iteration lists something else");
  PCHECK(std::ranges::empty(v) == want.empty(), what << ": empty()");
  if constexpr (requires { v.size(); }) {
    PCHECK(static_cast<size_t>(v.size()) == want.size(), what << ": size() is " << v.size() << ", it lists " << want.size());
    PCHECK(static_cast<size_t>(std::ranges::size(v)) == want.size(), what << ": ranges::size");
  } else
    c.label("unsized view");
  if (!want.empty())
    PCHECK(to(*v.begin()) == want[0], what << ": first element");
  // postfix increment and iterator equality
  {
    auto   it = v.begin();
    size_t i  = 0;
    while (it != v.end() && i < want.size()) {
      auto jt = it;
      PCHECK(jt == it, what << ": a copy of an iterator differs");
      auto old = it++;
      PCHECK(to(*old) == want[i], what << ": element at a postfix-incremented iterator " << i);
      ++jt;
      PCHECK(jt == it, what << ": prefix and postfix increments part at " << i);
      PCHECK((old == it) == false, what << ": an iterator equals its successor at " << i);
      ++i;
    }
    PCHECK(it == v.end() && i == want.size(), what << ": iterators meet the end at " << i);
  }
  // copies and moves outlive the original
  {
    auto o  = std::make_unique<decltype(mk())>(mk());
    auto cp = *o;
    if (!want.empty()) (void)*o->begin();
    o.reset();
    PCHECK(list(cp) == want, what << ": a copy lists something else");
    auto mv = std::move(cp);
    PCHECK(list(mv) == want, what << ": a moved view lists something else");
  }
}

template <class G0, class G, bool Const>
void views_of(Case& c, G& g, const MGraph& m) {
  using ID  = idc<G0>;
  using VD  = std::remove_cvref_t<decltype(*graph::vertices(g).begin())>;
  using ED  = std::remove_cvref_t<decltype(*graph::edges(g, std::declval<VD>()).begin())>;
  using VId = std::remove_cvref_t<decltype(graph::vertex_id(g, std::declval<VD>()))>;
  struct E {
    ED  d;
    VId t;
    VD  n;
  };
  constexpr bool index = graph::adj_list::index_adjacency_list<G>;
  // plain enumeration
  std::vector<std::pair<VId, VD>> vs;
  std::vector<std::vector<E>>     es;
  for (auto u : graph::vertices(g)) {
    vs.push_back({graph::vertex_id(g, u), u});
    es.emplace_back();
    for (auto uv : graph::edges(g, u))
      es.back().push_back({uv, static_cast<VId>(graph::target_id(g, uv)), graph::target(g, uv)});
  }
  // value functions: stateful (a string on the heap), and applied to the element they are given
  auto salt = std::make_shared<int>(c.s.range(0, 100));
  std::string pad(40, 'x');
  auto vval_of = [&](const VD& u) { return static_cast<long>(std::hash<VD>{}(u) * 31u + static_cast<size_t>(*salt)); };
  auto eval_of = [&](const ED& e) { return static_cast<long>(std::hash<ED>{}(e) * 31u + static_cast<size_t>(*salt)); };
  ValueFn<VD> vvf{salt, pad};
  ValueFn<ED> evf{salt, pad};
  using R1 = std::tuple<VId>;
  using R2 = std::tuple<VId, VD>;
  using R3 = std::tuple<VId, VD, long>;
  using RV = std::tuple<VId, long>;
  auto t1  = [](const auto& x) { auto& [a] = x; return R1(a); };
  auto t2  = [](const auto& x) { auto& [a, b] = x; return R2(a, b); };
  auto t3  = [](const auto& x) { auto& [a, b, v] = x; return R3(a, b, v); };
  auto tv  = [](const auto& x) { auto& [a, v] = x; return RV(a, v); };
  // rows of the vertices from position a to b
  auto rows = [&](size_t a, size_t b, auto&& f) {
    std::vector<std::remove_cvref_t<decltype(f(size_t{}))>> r;
    for (size_t i = a; i < b; ++i) r.push_back(f(i));
    return r;
  };
  size_t n  = vs.size();
  auto   r1 = [&](size_t i) { return R1(vs[i].first); };
  auto   r2 = [&](size_t i) { return R2(vs[i].first, vs[i].second); };
  auto   r3 = [&](size_t i) { return R3(vs[i].first, vs[i].second, vval_of(vs[i].second)); };
  auto   rv = [&](size_t i) { return RV(vs[i].first, vval_of(vs[i].second)); };
  seq(c, "vertexlist(g)", [&] { return vw::vertexlist(g); }, t2, rows(0, n, r2));
  seq(c, "vertexlist(g,vvf)", [&] { return vw::vertexlist(g, vvf); }, t3, rows(0, n, r3));
  seq(c, "basic_vertexlist(g)", [&] { return vw::basic_vertexlist(g); }, t1, rows(0, n, r1));
  seq(c, "basic_vertexlist(g,vvf)", [&] { return vw::basic_vertexlist(g, vvf); }, tv, rows(0, n, rv));
  size_t a = static_cast<size_t>(c.s.range(0, static_cast<int>(n))), b = static_cast<size_t>(c.s.range(0, static_cast<int>(n)));
  if (a > b) std::swap(a, b);
  auto at = [&](size_t k) {
    auto it = graph::vertices(g).begin();
    for (size_t i = 0; i < k; ++i) ++it;
    return it;
  };
  if constexpr (index) {
    VD fa = *at(a), fb = *at(b);
    seq(c, "vertexlist(g,first,last)", [&] { return vw::vertexlist(g, fa, fb); }, t2, rows(a, b, r2));
    seq(c, "vertexlist(g,first,last,vvf)", [&] { return vw::vertexlist(g, fa, fb, vvf); }, t3, rows(a, b, r3));
    VId ia = static_cast<VId>(a), ib = static_cast<VId>(b);
    seq(c, "basic_vertexlist(g,first,last)", [&] { return vw::basic_vertexlist(g, ia, ib); }, t1, rows(a, b, r1));
    seq(c, "basic_vertexlist(g,first,last,vvf)", [&] { return vw::basic_vertexlist(g, ia, ib, vvf); }, tv, rows(a, b, rv));
    c.label("index range");
  }
  {
    auto sr = std::ranges::subrange(at(a), at(b), b - a);
    seq(c, "vertexlist(g,vr)", [&] { return vw::vertexlist(g, sr); }, t2, rows(a, b, r2));
    seq(c, "vertexlist(g,vr,vvf)", [&] { return vw::vertexlist(g, sr, vvf); }, t3, rows(a, b, r3));
    seq(c, "basic_vertexlist(g,vr)", [&] { return vw::basic_vertexlist(g, sr); }, t1, rows(a, b, r1));
    seq(c, "basic_vertexlist(g,vr,vvf)", [&] { return vw::basic_vertexlist(g, sr, vvf); }, tv, rows(a, b, rv));
  }
  // per vertex
  using X2 = std::tuple<VId, ED>;
  using X3 = std::tuple<VId, ED, long>;
  auto x2  = [](const auto& x) { auto& [p, q] = x; return X2(p, q); };
  auto x3  = [](const auto& x) { auto& [p, q, v] = x; return X3(p, q, v); };
  std::vector<size_t> pick;
  for (size_t i = 0; i < n; ++i)
    if (n <= 6 || c.s.chance(6, static_cast<uint32_t>(n))) pick.push_back(i);
  for (size_t i : pick) {
    auto& [uid, u] = vs[i];
    size_t k       = es[i].size();
    auto   e1      = rows(0, k, [&](size_t j) { return R1(es[i][j].t); });
    auto   ev      = rows(0, k, [&](size_t j) { return RV(es[i][j].t, eval_of(es[i][j].d)); });
    auto   nv      = rows(0, k, [&](size_t j) { return RV(es[i][j].t, vval_of(es[i][j].n)); });
    auto   i2      = rows(0, k, [&](size_t j) { return X2(es[i][j].t, es[i][j].d); });
    auto   i3      = rows(0, k, [&](size_t j) { return X3(es[i][j].t, es[i][j].d, eval_of(es[i][j].d)); });
    auto   n2      = rows(0, k, [&](size_t j) { return R2(es[i][j].t, es[i][j].n); });
    auto   n3      = rows(0, k, [&](size_t j) { return R3(es[i][j].t, es[i][j].n, vval_of(es[i][j].n)); });
    seq(c, "incidence(g,u)", [&] { return vw::incidence(g, u); }, x2, i2);
    seq(c, "incidence(g,u,evf)", [&] { return vw::incidence(g, u, evf); }, x3, i3);
    seq(c, "out_incidence(g,u)", [&] { return vw::out_incidence(g, u); }, x2, i2);
    seq(c, "out_incidence(g,u,evf)", [&] { return vw::out_incidence(g, u, evf); }, x3, i3);
    seq(c, "basic_incidence(g,uid)", [&] { return vw::basic_incidence(g, uid); }, t1, e1);
    seq(c, "basic_incidence(g,uid,evf)", [&] { return vw::basic_incidence(g, uid, evf); }, tv, ev);
    seq(c, "basic_out_incidence(g,uid)", [&] { return vw::basic_out_incidence(g, uid); }, t1, e1);
    seq(c, "basic_out_incidence(g,uid,evf)", [&] { return vw::basic_out_incidence(g, uid, evf); }, tv, ev);
    seq(c, "neighbors(g,u)", [&] { return vw::neighbors(g, u); }, t2, n2);
    seq(c, "neighbors(g,u,vvf)", [&] { return vw::neighbors(g, u, vvf); }, t3, n3);
    seq(c, "out_neighbors(g,u)", [&] { return vw::out_neighbors(g, u); }, t2, n2);
    seq(c, "out_neighbors(g,u,vvf)", [&] { return vw::out_neighbors(g, u, vvf); }, t3, n3);
    seq(c, "basic_neighbors(g,uid)", [&] { return vw::basic_neighbors(g, uid); }, t1, e1);
    seq(c, "basic_neighbors(g,uid,vvf)", [&] { return vw::basic_neighbors(g, uid, vvf); }, tv, nv);
    seq(c, "basic_out_neighbors(g,uid)", [&] { return vw::basic_out_neighbors(g, uid); }, t1, e1);
    seq(c, "basic_out_neighbors(g,uid,vvf)", [&] { return vw::basic_out_neighbors(g, uid, vvf); }, tv, nv);
    if constexpr (index) {
      seq(c, "incidence(g,uid)", [&] { return vw::incidence(g, uid); }, x2, i2);
      seq(c, "incidence(g,uid,evf)", [&] { return vw::incidence(g, uid, evf); }, x3, i3);
      seq(c, "out_incidence(g,uid)", [&] { return vw::out_incidence(g, uid); }, x2, i2);
      seq(c, "out_incidence(g,uid,evf)", [&] { return vw::out_incidence(g, uid, evf); }, x3, i3);
      seq(c, "neighbors(g,uid)", [&] { return vw::neighbors(g, uid); }, t2, n2);
      seq(c, "neighbors(g,uid,vvf)", [&] { return vw::neighbors(g, uid, vvf); }, t3, n3);
      seq(c, "out_neighbors(g,uid)", [&] { return vw::out_neighbors(g, uid); }, t2, n2);
      seq(c, "out_neighbors(g,uid,vvf)", [&] { return vw::out_neighbors(g, uid, vvf); }, t3, n3);
    }
    if constexpr (graph::adj_list::bidirectional_adjacency_list<G>) {
      using IE = std::remove_cvref_t<decltype(*graph::in_edges(g, u).begin())>;
      struct I {
        IE  d;
        VId s;
        VD  n;
      };
      std::vector<I> in;
      for (auto vu : graph::in_edges(g, u)) {
        // the other endpoint of an incoming edge is its source; seen from an undirected vertex it is the neighbor
        VId s = graph::source_id(g, vu);
        if (s == uid) s = graph::target_id(g, vu);
        in.push_back({vu, s, *graph::find_vertex(g, s)});
      }
      auto ieval = [&](const IE& e) { return static_cast<long>(std::hash<IE>{}(e) * 31u + static_cast<size_t>(*salt)); };
      ValueFn<IE> ievf{salt, pad};
      using Y2 = std::tuple<VId, IE>;
      using Y3 = std::tuple<VId, IE, long>;
      auto y2  = [](const auto& x) { auto& [p, q] = x; return Y2(p, q); };
      auto y3  = [](const auto& x) { auto& [p, q, v] = x; return Y3(p, q, v); };
      size_t h  = in.size();
      auto   a1 = rows(0, h, [&](size_t j) { return R1(in[j].s); });
      auto   ai2 = rows(0, h, [&](size_t j) { return Y2(in[j].s, in[j].d); });
      auto   ai3 = rows(0, h, [&](size_t j) { return Y3(in[j].s, in[j].d, ieval(in[j].d)); });
      auto   aiv = rows(0, h, [&](size_t j) { return RV(in[j].s, ieval(in[j].d)); });
      auto   an2 = rows(0, h, [&](size_t j) { return R2(in[j].s, in[j].n); });
      auto   an3 = rows(0, h, [&](size_t j) { return R3(in[j].s, in[j].n, vval_of(in[j].n)); });
      auto   anv = rows(0, h, [&](size_t j) { return RV(in[j].s, vval_of(in[j].n)); });
      seq(c, "in_incidence(g,u)", [&] { return vw::in_incidence(g, u); }, y2, ai2);
      seq(c, "in_incidence(g,u,evf)", [&] { return vw::in_incidence(g, u, ievf); }, y3, ai3);
      seq(c, "in_neighbors(g,u)", [&] { return vw::in_neighbors(g, u); }, t2, an2);
      seq(c, "in_neighbors(g,u,vvf)", [&] { return vw::in_neighbors(g, u, vvf); }, t3, an3);
      if constexpr (index) {
        seq(c, "in_incidence(g,uid)", [&] { return vw::in_incidence(g, uid); }, y2, ai2);
        seq(c, "in_incidence(g,uid,evf)", [&] { return vw::in_incidence(g, uid, ievf); }, y3, ai3);
        seq(c, "in_neighbors(g,uid)", [&] { return vw::in_neighbors(g, uid); }, t2, an2);
        seq(c, "in_neighbors(g,uid,vvf)", [&] { return vw::in_neighbors(g, uid, vvf); }, t3, an3);
        seq(c, "basic_in_incidence(g,uid)", [&] { return vw::basic_in_incidence(g, uid); }, t1, a1);
        seq(c, "basic_in_incidence(g,uid,evf)", [&] { return vw::basic_in_incidence(g, uid, ievf); }, tv, aiv);
        seq(c, "basic_in_neighbors(g,uid)", [&] { return vw::basic_in_neighbors(g, uid); }, t1, a1);
        seq(c, "basic_in_neighbors(g,uid,vvf)", [&] { return vw::basic_in_neighbors(g, uid, vvf); }, tv, anv);
      }
      c.label("incoming");
    }
  }
  // all edges
  using L2 = std::tuple<VId, VId>;
  using L3 = std::tuple<VId, VId, ED>;
  using L4 = std::tuple<VId, VId, ED, long>;
  using LV = std::tuple<VId, VId, long>;
  std::vector<L2> l2;
  std::vector<L3> l3;
  std::vector<L4> l4;
  std::vector<LV> lv;
  for (size_t i = 0; i < n; ++i)
    for (auto& e : es[i]) {
      l2.emplace_back(vs[i].first, e.t);
      l3.emplace_back(vs[i].first, e.t, e.d);
      l4.emplace_back(vs[i].first, e.t, e.d, eval_of(e.d));
      lv.emplace_back(vs[i].first, e.t, eval_of(e.d));
    }
  auto q2 = [](const auto& x) { auto& [p, q] = x; return L2(p, q); };
  auto q3 = [](const auto& x) { auto& [p, q, e] = x; return L3(p, q, e); };
  auto q4 = [](const auto& x) { auto& [p, q, e, v] = x; return L4(p, q, e, v); };
  auto qv = [](const auto& x) { auto& [p, q, v] = x; return LV(p, q, v); };
  seq(c, "edgelist(g)", [&] { return vw::edgelist(g); }, q3, l3);
  seq(c, "edgelist(g,evf)", [&] { return vw::edgelist(g, evf); }, q4, l4);
  seq(c, "basic_edgelist(g)", [&] { return vw::basic_edgelist(g); }, q2, l2);
  seq(c, "basic_edgelist(g,evf)", [&] { return vw::basic_edgelist(g, evf); }, qv, lv);
  c.nontrivial = n >= 2 && !l2.empty();
  if (n && !l2.empty() && (es[0].empty() || es[n - 1].empty())) c.label("edgeless first or last vertex");
  if constexpr (Const) c.label("const graph");
}

template <class G>
void run(Case& c) {
  gen::Opt o;
  o.max_n  = 7;
  o.big_n  = 30;
  MGraph m = gen::graph(c.s, o);
  if (c.s.chance(1, 3)) { // runs of vertices without edges
    int k = c.s.range(0, m.n);
    std::erase_if(m.e, [&](const Edge& e) { return e.u < k; });
  }
  for (size_t i = 0; i < m.e.size(); ++i) m.e[i].w = static_cast<int>(i) + 1;
  c.desc << gen::str(m);
  G g = make<G>(m);
  constexpr bool cg = graph::adj_list::adjacency_list<const G>;
  if constexpr (cg) {
    if (c.s.chance(1, 4)) {
      views_of<G, const G, true>(c, g, m);
      return;
    }
  }
  views_of<G, G, false>(c, g, m);
}
struct Views {
  template <class G>
  static void run(Case& c) { ::run<G>(c); }
};
RegisterKinds<Views> reg_;
