// C07: lookups and counts agree with plain enumeration on every kind of graph; values written are the values read.
#include "kinds.hpp"

template <class G0, bool Const>
void lookups(Case& c, std::conditional_t<Const, const G0, G0>& g, const MGraph& m) {
  using G  = std::remove_reference_t<decltype(g)>;
  using ID = idc<G0>;
  size_t n = static_cast<size_t>(m.n);
  // plain enumeration
  using VD = std::remove_cvref_t<decltype(*graph::vertices(g).begin())>;
  using ED = std::remove_cvref_t<decltype(*graph::edges(g, std::declval<VD>()).begin())>;
  struct E {
    ED  d;
    int t, w;
  };
  std::map<int, std::pair<VD, std::vector<E>>> lst;
  size_t                                       nv = 0, ne = 0, loops = 0;
  for (auto u : graph::vertices(g)) {
    ++nv;
    int  id = ID::dec(graph::vertex_id(g, u));
    auto [it, ok] = lst.emplace(id, std::pair{u, std::vector<E>{}});
    PCHECK(ok, "vertex " << id << " is listed twice");
    for (auto uv : graph::edges(g, u)) {
      int t = ID::dec(graph::target_id(g, uv));
      int w = 0;
      if constexpr (has_ev<G0>())
        w = as_int(graph::edge_value(g, uv));
      it->second.second.push_back(E{uv, t, w});
      ++ne;
      loops += t == id;
    }
  }
  // the model: enumeration lists what was put in (so the rest is not vacuous)
  PCHECK(nv == n, "enumerated " << nv << " vertices, built with " << n);
  // counts
  PCHECK(static_cast<size_t>(graph::num_vertices(g)) == nv, "num_vertices(g) " << graph::num_vertices(g) << ", listed " << nv);
  size_t want_ne = ne;
  if constexpr (is_undirected<G0>::value)
    want_ne = m.e.size();
  if constexpr (is_dynamic<G0>::value)
    if (assoc<typename is_dynamic<G0>::edges_type>)
      want_ne = m.e.size(); // documented: the number of edges supplied
  PCHECK(static_cast<size_t>(graph::num_edges(g)) == want_ne, "num_edges(g) " << graph::num_edges(g) << ", listed " << want_ne);
  if constexpr (requires { graph::has_edges(g); })
    PCHECK(graph::has_edges(g) == (ne > 0), "has_edges(g), " << ne << " edges listed");
  else
    c.label("no has_edges");

  // finding vertices
  auto absent = [&](auto k) {
    auto id = k;
    if constexpr (is_undirected<G0>::value) { // the graph's own id type
      using I = typename is_undirected<G0>::vid;
      I own   = static_cast<I>(k);
      auto it = graph::find_vertex(g, own);
      if (static_cast<decltype(k)>(own) == k)
        PCHECK(it == graph::vertices(g).end(), "find_vertex of the absent id " << own << " is not end(vertices(g)), " << n << " vertices");
    } else if constexpr (requires { graph::find_vertex(g, id); }) {
      auto it = graph::find_vertex(g, id);
      PCHECK(it == graph::vertices(g).end(), "find_vertex of the absent id " << id << " is not end(vertices(g)), " << n << " vertices");
    }
  };
  using VId = std::remove_cvref_t<decltype(graph::vertex_id(g, std::declval<VD>()))>;
  std::vector<int> probe; // model numbers without a vertex
  for (int k : {0, 1, 2, 40}) probe.push_back(m.n + k);
  // (the id given to a plain sequence, a compressed graph or most user graphs has to be valid)
  if constexpr (!plain_seq<G0> && !is_compressed<G0>::value && (!user_kind<G0> || std::is_same_v<G0, user::members>)) {
  for (int k : probe) absent(static_cast<VId>(ID::enc(k)));
  if constexpr (std::is_integral_v<VId> && !seq_vertices<G0>) {
    absent(static_cast<VId>(0));
    absent(static_cast<VId>(2));
  }
  if constexpr (std::is_signed_v<VId>)
    absent(static_cast<VId>(-1));
  if constexpr (std::is_integral_v<VId>)
    absent(std::numeric_limits<VId>::max());
  }

  auto degree_of = [&](const auto& u) -> size_t { return static_cast<size_t>(graph::degree(g, u)); };
  for (auto& [id, ue] : lst) {
    auto& [u, es] = ue;
    auto uid      = static_cast<VId>(ID::enc(id));
    PCHECK(graph::vertex_id(g, u) == uid, "vertex_id of vertex " << id);
    auto it = graph::find_vertex(g, uid);
    PCHECK(it != graph::vertices(g).end(), "find_vertex(" << uid << ") is the end");
    PCHECK(*it == u, "find_vertex(" << uid << ") gives another vertex");
    PCHECK(graph::vertex_id(g, *it) == uid, "find_vertex(" << uid << ") gives vertex " << graph::vertex_id(g, *it));
    PCHECK(degree_of(u) == es.size(), "degree of vertex " << uid << " is " << degree_of(u) << ", " << es.size() << " edges listed");
    PCHECK(degree_of(uid) == es.size(), "degree by id of vertex " << uid << " is " << degree_of(uid) << ", " << es.size() << " edges listed");
    if constexpr (requires { graph::num_edges(g, u); })
      PCHECK(static_cast<size_t>(graph::num_edges(g, u)) == es.size(), "num_edges(g,u) of vertex " << uid);
    else
      c.label("no num_edges(g,u)");
    if constexpr (requires { graph::num_edges(g, uid); })
      PCHECK(static_cast<size_t>(graph::num_edges(g, uid)) == es.size(), "num_edges by id of vertex " << uid);
    else
      c.label("no num_edges(g,uid)");
    // edges by id
    size_t k = 0;
    for (auto uv : graph::edges(g, uid)) {
      PCHECK(k < es.size() && uv == es[k].d, "edges by id of vertex " << uid << " differs at position " << k);
      ++k;
    }
    PCHECK(k == es.size(), "edges by id of vertex " << uid << " lists " << k << " edges, not " << es.size());
    // endpoints
    for (auto& e : es) {
      PCHECK(ID::dec(graph::source_id(g, e.d)) == id, "source_id of an edge of " << uid << " is " << graph::source_id(g, e.d));
      PCHECK(graph::source(g, e.d) == u, "source of an edge of vertex " << uid);
      auto t = graph::target(g, e.d);
      auto f = lst.find(e.t);
      PCHECK(f != lst.end() && t == f->second.first, "target of an edge " << id << "->" << e.t);
    }
    // edge lookups
    for (auto& [jd, vf] : lst) {
      auto  vid = static_cast<VId>(ID::enc(jd));
      auto& v   = vf.first;
      auto  f   = std::find_if(es.begin(), es.end(), [&](const E& e) { return e.t == jd; });
      bool  has = f != es.end();
      PCHECK(graph::contains_edge(g, u, v) == has, "contains_edge(" << id << "," << jd << ") by handles");
      PCHECK(graph::contains_edge(g, uid, vid) == has, "contains_edge(" << id << "," << jd << ") by ids");
      if (has) {
        PCHECK(graph::find_vertex_edge(g, u, v) == f->d, "find_vertex_edge(" << id << "," << jd << ") by handles");
        PCHECK(graph::find_vertex_edge(g, u, vid) == f->d, "find_vertex_edge(" << id << "," << jd << ") by handle and id");
        PCHECK(graph::find_vertex_edge(g, uid, vid) == f->d, "find_vertex_edge(" << id << "," << jd << ") by ids");
      }
    }
    for (int q : probe)
      PCHECK(!graph::contains_edge(g, uid, static_cast<VId>(ID::enc(q))), "contains_edge(" << id << ", absent " << q << ")");
  }
  // partitions of an unpartitioned graph
  PCHECK(static_cast<size_t>(graph::num_partitions(g)) == 1, "num_partitions of an unpartitioned graph");
}

template <class G>
void run(Case& c) {
  gen::Opt o;
  o.max_n = 7;
  o.big_n = 24;
  // an undirected graph lists an edge at both ends, so the model holds each edge once
  MGraph m = gen::graph(c.s, o);
  for (size_t i = 0; i < m.e.size(); ++i) m.e[i].w = static_cast<int>(i) + 1;
  c.desc << gen::str(m);
  G g = make<G>(m);
  lookups<G, false>(c, g, m);
  if constexpr (requires(const G& cg) {
                  graph::vertices(cg);
                  graph::find_vertex(cg, graph::vertex_id_t<G>{});
                  graph::edges(cg, graph::vertex_id_t<G>{});
                })
    lookups<G, true>(c, g, m);
  else
    c.label("not const");
  // values: what was stored, and what is written through one path is read through all
  std::map<int, std::multiset<std::pair<int, int>>> want;
  bool                                              dedup = std::is_same_v<G, VMI> || std::is_same_v<G, VUM>;
  if constexpr (is_dynamic<G>::value)
    dedup = assoc<typename is_dynamic<G>::edges_type>;
  std::set<std::pair<int, int>> seen;
  for (auto& e : m.e) {
    if (dedup && !seen.insert({e.u, e.v}).second)
      continue;
    want[e.u].insert({e.v, e.w});
    if (is_undirected<G>::value && e.u != e.v)
      want[e.v].insert({e.u, e.w});
  }
  using ID = idc<G>;
  for (auto u : graph::vertices(g)) {
    std::multiset<std::pair<int, int>> got;
    int                                id = ID::dec(graph::vertex_id(g, u));
    for (auto uv : graph::edges(g, u)) {
      int w = 0;
      if constexpr (has_ev<G>()) {
        w = as_int(graph::edge_value(g, uv));
        if constexpr (tuple_edges<G>)
          PCHECK(std::get<1>(graph::edge_value(g, uv)) == w + 1, "second element of an edge value of vertex " << id);
      }
      got.insert({ID::dec(graph::target_id(g, uv)), w});
    }
    auto wv = want[id];
    if constexpr (!has_ev<G>()) {
      std::multiset<std::pair<int, int>> z;
      for (auto& [t, w] : wv) z.insert({t, 0});
      wv = z;
    }
    PCHECK(got == wv, "vertex " << id << " lists " << pbt::show(got) << ", stored " << pbt::show(wv));
    if constexpr (has_vv<G>())
      PCHECK(static_cast<int>(graph::vertex_value(g, u)) == vval(id), "vertex_value of " << id << " is " << graph::vertex_value(g, u));
    else if constexpr (plain_map<G>)
      PCHECK(&graph::vertex_value(g, u) == &g.at(graph::vertex_id(g, u)), "vertex_value of " << id << " is not the mapped value");
    else if constexpr (plain_seq<G>)
      PCHECK(&graph::vertex_value(g, u) == &g[static_cast<size_t>(id)], "vertex_value of " << id << " is not the element");
  }
  constexpr bool set_edges = [] {
    if constexpr (is_dynamic<G>::value) {
      using EC = typename is_dynamic<G>::edges_type;
      return assoc<EC> && !requires { typename EC::mapped_type; };
    }
    return false;
  }();
  if constexpr (has_ev<G>() && !set_edges) {
    // write every edge (an undirected edge once), then read along other paths
    std::map<int, int> now; // old value -> new value
    for (auto u : graph::vertices(g))
      for (auto uv : graph::edges(g, u)) {
        if constexpr (tuple_edges<G>) {
          auto&& v = graph::edge_value(g, uv);
          int    a = std::get<0>(v);
          now[a]   = a + 5000;
          std::get<0>(v) = a + 5000;
        } else {
          auto& v = graph::edge_value(g, uv);
          int   a = static_cast<int>(v);
          if (a > 5000) continue; // the other end of an undirected edge
          now[a] = a + 5000;
          if constexpr (requires { v.weight; })
            v.weight = a + 5000; // the value is the whole record
          else
            v = static_cast<std::remove_cvref_t<decltype(v)>>(a + 5000);
        }
      }
    for (auto u : graph::vertices(g)) {
      std::multiset<std::pair<int, int>> got, ww;
      int                                id = ID::dec(graph::vertex_id(g, u));
      const G&                           cg = g;
      for (auto uv : graph::edges(g, u)) {
        int w = as_int(graph::edge_value(g, uv));
        int t = ID::dec(graph::target_id(g, uv));
        got.insert({t, w});
        if constexpr (requires { graph::edge_value(cg, uv); })
          PCHECK(as_int(graph::edge_value(cg, uv)) == w, "edge_value through a const graph");
      }
      for (auto& [t, w] : want[id]) ww.insert({t, now[w]});
      PCHECK(got == ww, "after writing edge values vertex " << id << " lists " << pbt::show(got) << ", written " << pbt::show(ww));
      for (auto& [t, w] : got) {
        auto uv = graph::find_vertex_edge(g, graph::vertex_id(g, u), static_cast<graph::vertex_id_t<G>>(ID::enc(t)));
        PCHECK(got.count({t, as_int(graph::edge_value(g, uv))}), "value of the edge found by ids " << id << "," << t);
      }
    }
  }
  if constexpr (has_vv<G>()) {
    using VVt = std::remove_cvref_t<decltype(graph::vertex_value(g, *graph::vertices(g).begin()))>;
    for (auto u : graph::vertices(g))
      graph::vertex_value(g, u) = static_cast<VVt>(vval(ID::dec(graph::vertex_id(g, u))) + 77);
    for (int i = 0; i < m.n; ++i) {
      auto u = *graph::find_vertex(g, static_cast<graph::vertex_id_t<G>>(ID::enc(i)));
      PCHECK(graph::vertex_value(g, u) == static_cast<VVt>(vval(i) + 77), "vertex_value written at " << i << " reads " << graph::vertex_value(g, u));
      const G& cg = g;
      if constexpr (requires { graph::vertex_value(cg, u); })
        PCHECK(graph::vertex_value(cg, u) == static_cast<VVt>(vval(i) + 77), "vertex_value through a const graph");
    }
  }
  if constexpr (requires { graph::graph_value(g) = 5; }) {
    using GVt = std::remove_cvref_t<decltype(graph::graph_value(g))>;
    int k = c.s.range(0, 1000);
    graph::graph_value(g) = static_cast<GVt>(k);
    const G& cg = g;
    PCHECK(graph::graph_value(g) == static_cast<GVt>(k) && graph::graph_value(cg) == static_cast<GVt>(k), "graph_value");
    G h = g;
    PCHECK(graph::graph_value(h) == static_cast<GVt>(k), "graph_value of a copy");
    c.label("graph_value");
  }
  c.nontrivial = m.n >= 2 && !m.e.empty();
  bool par = false, loop = false;
  std::set<std::pair<int, int>> s2;
  for (auto& e : m.e) {
    par |= !s2.insert({e.u, e.v}).second;
    loop |= e.u == e.v;
  }
  if (par) c.label("parallel edges");
  if (loop) c.label("self-loop");
}

struct Lookup {
  template <class G>
  static void run(Case& c) { ::run<G>(c); }
};
RegisterKinds<Lookup> reg_;

