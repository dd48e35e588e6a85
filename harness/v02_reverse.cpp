// V02: incoming views and incoming searches (VUNIT 0-2), and the transpose view (VUNIT 3-4), against the reversed graph.
#include "kinds.hpp"
#include <graph/views.hpp>
#include <graph/views/transpose.hpp>
namespace vw = graph::views;
template <class D>
struct ValueFn {
  std::shared_ptr<int> salt;
  template <class G>
  long operator()(const G&, const D& d) const {
    return static_cast<long>(std::hash<D>{}(d) * 31u + static_cast<size_t>(*salt));
  }
};
using Pairs = std::vector<std::pair<int, int>>; // neighbor, weight
static Pairs sorted(Pairs p) {
  std::sort(p.begin(), p.end());
  return p;
}
static std::vector<int> sorted(std::vector<int> p) {
  std::sort(p.begin(), p.end());
  return p;
}
template <class G>
constexpr bool dedups() {
  if constexpr (is_dynamic<G>::value)
    return assoc<typename is_dynamic<G>::edges_type>;
  else
    return false;
}
template <class G>
MGraph make_model(Case& c, bool undirected) {
  gen::Opt o;
  o.max_n = 7;
  o.big_n = 25;
  if (dedups<G>()) o.parallel = false;
  MGraph m = gen::graph(c.s, o);
  (void)undirected;
  for (size_t i = 0; i < m.e.size(); ++i) m.e[i].w = static_cast<int>(i) + 1;
  c.desc << gen::str(m);
  c.nontrivial = m.n >= 2 && !m.e.empty();
  return m;
}
// who[v] = (other endpoint, weight) of every edge that ends at v
static std::vector<Pairs> sources_of(const MGraph& m, bool undirected, bool weights) {
  std::vector<Pairs> r(static_cast<size_t>(m.n));
  for (auto& e : m.e) {
    int w = weights ? e.w : 0;
    r[static_cast<size_t>(e.v)].push_back({e.u, w});
    if (undirected && e.u != e.v) r[static_cast<size_t>(e.u)].push_back({e.v, w});
  }
  return r;
}
static std::vector<int> firsts(const Pairs& p) {
  std::vector<int> r;
  for (auto& x : p) r.push_back(x.first);
  return r;
}

template <class G0, class G>
void incoming(Case& c, G& g, const MGraph& m) {
  using ID            = idc<G0>;
  constexpr bool und  = is_undirected<G0>::value;
  constexpr bool ev   = has_ev<G0>();
  using VD            = std::remove_cvref_t<decltype(*graph::vertices(g).begin())>;
  using VId           = graph::adj_list::vertex_id_t<G>;
  using IE            = std::remove_cvref_t<decltype(*graph::in_edges(g, std::declval<VD>()).begin())>;
  auto want           = sources_of(m, und, ev);
  auto salt           = std::make_shared<int>(c.s.range(0, 99));
  ValueFn<IE> evf{salt};
  ValueFn<VD> vvf{salt};
  std::vector<std::vector<int>> order(static_cast<size_t>(m.n)); // sources in the order in_edges lists them
  std::vector<VD>               hs(static_cast<size_t>(m.n));
  constexpr bool                index = graph::adj_list::index_adjacency_list<G>;
  int                           listed = 0;
  for (auto u : graph::vertices(g)) {
    int i = ID::dec(graph::vertex_id(g, u));
    PCHECK(i >= 0 && i < m.n, "vertex id");
    ++listed;
    hs[static_cast<size_t>(i)] = u;
    auto& W                    = want[static_cast<size_t>(i)];
    Pairs a;
    for (auto&& [sid, e] : vw::in_incidence(g, u)) {
      int s = ID::dec(sid), w = 0;
      if constexpr (ev) w = static_cast<int>(graph::edge_value(g, e));
      a.push_back({s, w});
      order[static_cast<size_t>(i)].push_back(s);
      if constexpr (!und) {
        PCHECK(ID::dec(graph::source_id(g, e)) == s && ID::dec(graph::target_id(g, e)) == i, "in_incidence(g,u): endpoints of the edge from " << s << " at " << i);
      }
    }
    PCHECK(sorted(a) == sorted(W), "in_incidence(g," << i << ") lists " << a.size() << " edges, " << W.size() << " end there, or with other sources or values");
    Pairs b;
    for (auto&& [sid, e, val] : vw::in_incidence(g, u, evf)) {
      int w = 0;
      if constexpr (ev) w = static_cast<int>(graph::edge_value(g, e));
      b.push_back({ID::dec(sid), w});
      PCHECK(val == evf(g, e), "in_incidence(g," << i << ",evf): value of another edge");
    }
    PCHECK(b == a, "in_incidence(g," << i << ",evf) differs from the plain form");
    auto ids = firsts(a);
    std::vector<int> d, e1, f, h;
    for (auto&& [sid, n] : vw::in_neighbors(g, u)) {
      d.push_back(ID::dec(sid));
      PCHECK(graph::vertex_id(g, n) == sid, "in_neighbors(g," << i << "): handle of another vertex");
    }
    for (auto&& [sid, n, val] : vw::in_neighbors(g, u, vvf)) {
      e1.push_back(ID::dec(sid));
      PCHECK(val == vvf(g, n) && graph::vertex_id(g, n) == sid, "in_neighbors(g," << i << ",vvf): value of another vertex");
    }
    PCHECK(d == ids && e1 == ids, "in_neighbors(g," << i << ") lists " << pbt::show(d) << ", the edges come from " << pbt::show(ids));
    if constexpr (index) {
      auto uid = static_cast<VId>(i);
      for (auto&& [sid] : vw::basic_in_incidence(g, uid)) f.push_back(ID::dec(sid));
      for (auto&& [sid] : vw::basic_in_neighbors(g, uid)) h.push_back(ID::dec(sid));
      PCHECK(f == ids && h == ids, "basic_in_incidence/basic_in_neighbors(g," << i << ") list " << pbt::show(f) << " and " << pbt::show(h) << ", the edges come from " << pbt::show(ids));
      f.clear();
      h.clear();
      for (auto&& [sid, e] : vw::in_incidence(g, uid)) f.push_back(ID::dec(sid));
      for (auto&& [sid, n] : vw::in_neighbors(g, uid)) h.push_back(ID::dec(sid));
      PCHECK(f == ids && h == ids, "in_incidence/in_neighbors by id " << i);
    }
  }
  PCHECK(listed == m.n, "vertices listed: " << listed);
  // incoming searches = the same searches on the reversed graph, rows in the same order
  if constexpr (index) {
    if (m.n == 0) return;
    VVI R = order;
    for (int r = 0; r < 3; ++r) {
      int  s   = c.s.range(0, m.n - 1);
      auto sid = static_cast<VId>(s);
      c.desc << " from " << s;
      using RS = size_t;
      auto verts = [&](auto& gg, auto view) {
        std::vector<int> o;
        for (auto&& [v] : view) o.push_back(static_cast<int>(graph::vertex_id(gg, v)));
        return o;
      };
      auto froms = [&](auto& gg, auto view, bool in) {
        std::vector<std::pair<int, int>> o;
        for (auto&& [e] : view) {
          int x = static_cast<int>(graph::source_id(gg, e)), y = static_cast<int>(graph::target_id(gg, e));
          // an undirected graph lists its edges away from the vertex, as incoming ones too
          o.push_back(in && !und ? std::pair{y, x} : std::pair{x, y});
        }
        return o;
      };
      auto bi_ = verts(g, vw::vertices_bfs<vw::in_edge_accessor>(g, sid));
      auto br  = verts(R, vw::vertices_bfs(R, static_cast<RS>(s)));
      PCHECK(bi_ == br, "vertices_bfs over incoming edges from " << s << ": " << pbt::show(bi_) << " vs " << pbt::show(br) << " on the reversed graph");
      auto di = verts(g, vw::vertices_dfs<vw::in_edge_accessor>(g, hs[static_cast<size_t>(s)]));
      auto dr = verts(R, vw::vertices_dfs(R, static_cast<RS>(s)));
      PCHECK(di == dr, "vertices_dfs over incoming edges from " << s << ": " << pbt::show(di) << " vs " << pbt::show(dr) << " on the reversed graph");
      PCHECK(froms(g, vw::edges_bfs<vw::in_edge_accessor>(g, sid), true) == froms(R, vw::edges_bfs(R, static_cast<RS>(s)), false), "edges_bfs over incoming edges from " << s);
      PCHECK(froms(g, vw::edges_dfs<vw::in_edge_accessor>(g, sid), true) == froms(R, vw::edges_dfs(R, static_cast<RS>(s)), false), "edges_dfs over incoming edges from " << s);
      // reachability against the model itself
      auto             hop = gen::hops(want, {s});
      std::vector<int> reached;
      for (int v = 0; v < m.n; ++v)
        if (hop[static_cast<size_t>(v)] >= 0 && hop[static_cast<size_t>(v)] < m.n + 1) reached.push_back(v);
      PCHECK(sorted(bi_) == reached, "vertices_bfs over incoming edges from " << s << " visits " << pbt::show(sorted(bi_)) << ", the vertices that reach it are " << pbt::show(reached));
    }
    c.label("incoming searches");
  }
}

// Everything a graph answers, compared with the model whose edges are (u,v,w) in m
template <class G0, class TV>
void queries(Case& c, TV& tv, const MGraph& m, const MGraph& orig, const std::string& what) {
  using ID           = idc<G0>;
  constexpr bool ev  = has_ev<G0>();
  constexpr bool vv  = has_vv<G0>();
  using VId          = graph::adj_list::vertex_id_t<G0>;
  size_t             n = static_cast<size_t>(m.n);
  std::vector<Pairs> out(n), in(n);
  for (auto& e : m.e) {
    out[static_cast<size_t>(e.u)].push_back({e.v, ev ? e.w : 0});
    in[static_cast<size_t>(e.v)].push_back({e.u, ev ? e.w : 0});
  }
  for (auto& x : out) std::sort(x.begin(), x.end());
  for (auto& x : in) std::sort(x.begin(), x.end());
  auto wt = [&](const auto& e) {
    if constexpr (ev) return static_cast<int>(graph::edge_value(tv, e));
    else return 0;
  };
  PCHECK(static_cast<size_t>(graph::num_vertices(tv)) == n, what << ": num_vertices");
  PCHECK(static_cast<size_t>(graph::num_edges(tv)) == m.e.size(), what << ": num_edges is " << graph::num_edges(tv) << " of " << m.e.size());
  PCHECK(graph::has_edges(tv) == !m.e.empty(), what << ": has_edges");
  std::map<int, std::remove_cvref_t<decltype(*graph::vertices(tv).begin())>> hs;
  std::vector<int> seen;
  for (auto u : graph::vertices(tv)) {
    int i = ID::dec(graph::vertex_id(tv, u));
    PCHECK(i >= 0 && i < m.n, what << ": vertex id");
    PCHECK(hs.emplace(i, u).second, what << ": vertex " << i << " listed twice");
    seen.push_back(i);
  }
  PCHECK(hs.size() == n, what << ": lists " << hs.size() << " vertices");
  for (auto& [i, u] : hs) {
    VId  id = static_cast<VId>(ID::enc(i));
    auto k  = static_cast<size_t>(i);
    auto rows = [&](auto&& r, bool incoming) {
      Pairs p;
      for (auto e : r) {
        int s = ID::dec(graph::source_id(tv, e)), t = ID::dec(graph::target_id(tv, e));
        PCHECK((incoming ? t : s) == i, what << ": " << (incoming ? "incoming" : "outgoing") << " edge of vertex " << i << " reports " << s << ">" << t);
        PCHECK(ID::dec(graph::vertex_id(tv, graph::source(tv, e))) == s && ID::dec(graph::vertex_id(tv, graph::target(tv, e))) == t, what << ": source/target handles of an edge of vertex " << i);
        p.push_back({incoming ? s : t, wt(e)});
      }
      return sorted(p);
    };
    PCHECK(rows(graph::edges(tv, u), false) == out[k], what << ": edges(tv,u) of vertex " << i);
    PCHECK(rows(graph::edges(tv, id), false) == out[k], what << ": edges(tv,uid) of vertex " << i);
    PCHECK(rows(graph::out_edges(tv, u), false) == out[k], what << ": out_edges(tv,u) of vertex " << i);
    PCHECK(rows(graph::in_edges(tv, u), true) == in[k], what << ": in_edges(tv,u) of vertex " << i);
    PCHECK(rows(graph::in_edges(tv, id), true) == in[k], what << ": in_edges(tv,uid) of vertex " << i);
    PCHECK(static_cast<size_t>(graph::degree(tv, u)) == out[k].size() && static_cast<size_t>(graph::degree(tv, id)) == out[k].size(), what << ": degree of vertex " << i << " is " << graph::degree(tv, u) << ", should be " << out[k].size());
    PCHECK(static_cast<size_t>(graph::out_degree(tv, u)) == out[k].size(), what << ": out_degree of vertex " << i);
    PCHECK(static_cast<size_t>(graph::in_degree(tv, u)) == in[k].size() && static_cast<size_t>(graph::in_degree(tv, id)) == in[k].size(), what << ": in_degree of vertex " << i << " is " << graph::in_degree(tv, u) << ", should be " << in[k].size());
    PCHECK(static_cast<size_t>(graph::num_edges(tv, u)) == out[k].size() && static_cast<size_t>(graph::num_edges(tv, id)) == out[k].size(), what << ": num_edges of vertex " << i << " is " << graph::num_edges(tv, u) << ", should be " << out[k].size());
    auto it = graph::find_vertex(tv, id);
    PCHECK(*it == u, what << ": find_vertex(" << i << ")");
    if constexpr (vv)
      PCHECK(static_cast<long>(graph::vertex_value(tv, u)) == static_cast<long>(vval(i)), what << ": vertex_value of " << i);
    // views on it
    Pairs a;
    for (auto&& [t, e] : vw::incidence(tv, u)) a.push_back({ID::dec(t), wt(e)});
    PCHECK(sorted(a) == out[k], what << ": incidence view of vertex " << i);
    std::vector<int> b;
    for (auto&& [t, x] : vw::neighbors(tv, u)) {
      b.push_back(ID::dec(t));
      PCHECK(graph::vertex_id(tv, x) == t, what << ": neighbors view handle");
    }
    PCHECK(sorted(b) == firsts(out[k]), what << ": neighbors view of vertex " << i);
    a.clear();
    for (auto&& [t, e] : vw::in_incidence(tv, u)) a.push_back({ID::dec(t), wt(e)});
    PCHECK(sorted(a) == in[k], what << ": in_incidence view of vertex " << i);
    b.clear();
    for (auto&& [t, x] : vw::in_neighbors(tv, u)) b.push_back(ID::dec(t));
    PCHECK(sorted(b) == firsts(in[k]), what << ": in_neighbors view of vertex " << i);
    for (auto& [j, v] : hs) {
      VId  jd  = static_cast<VId>(ID::enc(j));
      bool has = std::ranges::any_of(out[k], [&](auto& p) { return p.first == j; });
      PCHECK(graph::contains_edge(tv, u, v) == has, what << ": contains_edge(" << i << "," << j << ") by handle");
      PCHECK(graph::contains_edge(tv, id, jd) == has, what << ": contains_edge(" << i << "," << j << ") by id");
      // contains_in_edge(g,u,v) and find_in_edge(g,u,v): the edge from v to u
      bool hasin = std::ranges::any_of(in[k], [&](auto& p) { return p.first == j; });
      PCHECK(graph::contains_in_edge(tv, u, v) == hasin, what << ": contains_in_edge(" << i << "," << j << ") by handle");
      PCHECK(graph::contains_in_edge(tv, id, jd) == hasin, what << ": contains_in_edge(" << i << "," << j << ") by id");
      if (has) {
        auto ok = [&](const auto& e, const char* how) {
          PCHECK(ID::dec(graph::source_id(tv, e)) == i && ID::dec(graph::target_id(tv, e)) == j, what << ": find_vertex_edge(" << i << "," << j << ") " << how << " gives another edge");
          PCHECK(std::ranges::count(out[k], std::pair{j, wt(e)}) >= 1, what << ": find_vertex_edge(" << i << "," << j << ") value");
        };
        ok(graph::find_vertex_edge(tv, u, v), "by handle");
        ok(graph::find_vertex_edge(tv, u, jd), "by handle and id");
        ok(graph::find_vertex_edge(tv, id, jd), "by id");
      }
      if (hasin) {
        auto ok = [&](const auto& e, const char* how) {
          PCHECK(ID::dec(graph::source_id(tv, e)) == j && ID::dec(graph::target_id(tv, e)) == i, what << ": find_in_edge(" << i << "," << j << ") " << how << " gives another edge");
        };
        ok(graph::find_in_edge(tv, u, v), "by handle");
        ok(graph::find_in_edge(tv, u, jd), "by handle and id");
        ok(graph::find_in_edge(tv, id, jd), "by id");
      }
    }
  }
  std::vector<std::tuple<int, int, int>> all, want;
  for (auto& e : m.e) want.push_back({e.u, e.v, ev ? e.w : 0});
  for (auto&& [s, t, e] : vw::edgelist(tv)) all.push_back({ID::dec(s), ID::dec(t), wt(e)});
  std::sort(all.begin(), all.end());
  std::sort(want.begin(), want.end());
  PCHECK(all == want, what << ": edgelist view");
  std::vector<int> vl;
  for (auto&& [id, u] : vw::vertexlist(tv)) vl.push_back(ID::dec(id));
  PCHECK(vl == seen, what << ": vertexlist view");
  PCHECK(static_cast<size_t>(graph::num_partitions(tv)) == 1, what << ": num_partitions");
  (void)orig;
}

template <class G0, class G>
void transposed(Case& c, G& g, const MGraph& m) {
  MGraph r = m;
  for (auto& e : r.e) std::swap(e.u, e.v);
  auto tv = vw::transpose(g);
  static_assert(graph::adj_list::bidirectional_adjacency_list<decltype(tv)>);
  queries<G0>(c, tv, r, m, "transpose");
  const auto& ctv = tv;
  queries<G0>(c, ctv, r, m, "const transpose");
  auto cp = tv;
  queries<G0>(c, cp, r, m, "copied transpose");
  auto tt = vw::transpose(tv);
  queries<G0>(c, tt, m, m, "transpose of transpose");
  PCHECK(&tv.base() == &g && &ctv.base() == &g, "base()");
  if constexpr (graph::adj_list::index_adjacency_list<decltype(tv)>) {
    using VId = graph::adj_list::vertex_id_t<G0>;
    // searches on the transpose are searches of the reversed graph
    if (m.n > 0) {
      VVI R(static_cast<size_t>(m.n));
      for (auto u : graph::vertices(tv))
        for (auto e : graph::edges(tv, u)) R[static_cast<size_t>(graph::vertex_id(tv, u))].push_back(static_cast<int>(graph::target_id(tv, e)));
      int  s   = c.s.range(0, m.n - 1);
      auto ids = [&](auto& gg, auto view) {
        std::vector<int> o;
        for (auto&& [v] : view) o.push_back(static_cast<int>(graph::vertex_id(gg, v)));
        return o;
      };
      PCHECK(ids(tv, vw::vertices_bfs(tv, static_cast<VId>(s))) == ids(R, vw::vertices_bfs(R, static_cast<size_t>(s))), "vertices_bfs of the transpose from " << s);
      PCHECK(ids(tv, vw::vertices_dfs(tv, static_cast<VId>(s))) == ids(R, vw::vertices_dfs(R, static_cast<size_t>(s))), "vertices_dfs of the transpose from " << s);
      c.label("searches of the transpose");
    }
  }
}
template <class G>
struct Go {
  static void in(Case& c) {
    MGraph m = make_model<G>(c, is_undirected<G>::value);
    G      g = make<G>(m);
    if constexpr (graph::adj_list::bidirectional_adjacency_list<const G>)
      if (c.s.chance(1, 4)) {
        c.label("const graph");
        return incoming<G, const G>(c, g, m);
      }
    incoming<G, G>(c, g, m);
  }
  static void tr(Case& c) {
    MGraph m = make_model<G>(c, false);
    G      g = make<G>(m);
    if constexpr (graph::adj_list::bidirectional_adjacency_list<const G>)
      if (c.s.chance(1, 4)) {
        c.label("const graph");
        return transposed<G, const G>(c, g, m);
      }
    transposed<G, G>(c, g, m);
  }
};
struct Reg {
  template <class G>
  static void in(const char* n) { pbt::targets().push_back({n, Go<G>::in, 1.0}); }
  template <class G>
  static void tr(const char* n) { pbt::targets().push_back({n, Go<G>::tr, 1.0}); }
  Reg() {
#if VUNIT == 0
    in<DG_B(vov, int, int, uint32_t)>("vov");
    in<DG_B(vofl, int, void, int)>("vofl");
    in<DG_B(dol, long, int, uint16_t)>("dol");
    in<DG_B(vos, int, int, uint64_t)>("vos");
    in<DG_B(vom, int, int, uint32_t)>("vom");
    in<DG_B(v_mixed, int, int, uint32_t)>("v_mixed");
#elif VUNIT == 1
    in<DG_B(dod, void, int, uint32_t)>("dod");
    in<DG_B(vous, int, int, int)>("vous");
    in<DG_B(mov, int, int, uint32_t)>("mov");
    in<DG_B(mol, int, void, int)>("mol");
    in<DG_B(uofl, int, int, uint32_t)>("uofl");
    in<DG_B(mos, int, int, std::string)>("mos string");
#elif VUNIT == 2
    in<gc::undirected_adjacency_list<int, int, int, uint32_t>>("undirected");
    in<gc::undirected_adjacency_list<long, int, void, int>>("undirected int");
    in<gc::undirected_adjacency_list<int, int, void, uint64_t, std::deque>>("undirected deque");
    in<DG_B(m_mixed, int, int, uint32_t)>("m_mixed");
    in<DG_B(uous, int, int, int)>("uous");
    in<user::both>("user's own");
#elif VUNIT == 3
    tr<DG_B(vov, int, int, uint32_t)>("vov");
    tr<DG_B(vod, int, void, int)>("vod");
    tr<DG_B(dov, void, int, uint64_t)>("dov");
    tr<user::both>("user's own");
#elif VUNIT == 4
    tr<DG_B(mov, int, int, uint32_t)>("mov");
    tr<DG_B(uov, int, int, int)>("uov");
    tr<DG_B(dod, long, int, uint16_t)>("dod");
    tr<DG_B(mod, int, void, std::string)>("mod string");
#endif
  }
} reg_;
