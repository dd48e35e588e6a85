// The vertices and edges of a graph as the library lists them, by position, for the algorithm harnesses.
#pragma once
#include "kinds.hpp"
template <class G>
struct Lists {
  using VD = std::remove_cvref_t<decltype(*graph::vertices(std::declval<G&>()).begin())>;
  using ED = std::remove_cvref_t<decltype(*graph::edges(std::declval<G&>(), std::declval<VD>()).begin())>;
  std::vector<VD>               vs;
  std::vector<std::vector<ED>>  es;
  std::vector<std::vector<int>> adj;
  size_t                        m = 0;
  explicit Lists(G& g) {
    for (auto u : graph::vertices(g)) {
      if (static_cast<size_t>(graph::vertex_id(g, u)) != vs.size()) throw pbt::Fail{"vertex ids are not 0, 1, ..."};
      vs.push_back(u);
      es.emplace_back();
      adj.emplace_back();
      for (auto uv : graph::edges(g, u)) {
        es.back().push_back(uv);
        adj.back().push_back(static_cast<int>(graph::target_id(g, uv)));
        ++m;
      }
    }
  }
  size_t n() const { return vs.size(); }
  std::pair<int, int> find(G& g, const ED& e) const { // source and position in its list
    auto u = static_cast<size_t>(graph::source_id(g, e));
    if (u < es.size())
      for (size_t k = 0; k < es[u].size(); ++k)
        if (es[u][k] == e) return {static_cast<int>(u), static_cast<int>(k)};
    return {-1, -1};
  }
};
// The algorithms' domain: ids are indices
template <class G>
inline constexpr bool algo_kind = graph::adj_list::index_adjacency_list<G>;
// A graph that fits G; now and then as many vertices as a one-byte id can name
template <class G>
inline MGraph algo_graph(Case& c, gen::Opt o) {
  using Id = graph::vertex_id_t<G>;
  MGraph m;
  if (std::is_integral_v<Id> && sizeof(Id) == 1 && c.s.chance(1, 12)) {
    m.n     = c.s.range(254, 256);
    int cnt = c.s.range(0, 40), span = c.s.range(1, 60);
    for (int i = 0; i + 1 < m.n; ++i) { // long chains with some gaps
      if (c.s.chance(1, 60)) continue;
      gen::Edge e{};
      e.u = i, e.v = i + 1, e.w = c.s.range(o.wlo, o.whi);
      m.e.push_back(e);
      if (o.symmetric && !is_undirected<G>::value) std::swap(e.u, e.v), m.e.push_back(e);
    }
    for (int i = 0; i < cnt; ++i) {
      gen::Edge e{};
      e.u = c.s.range(0, m.n - 1), e.v = std::min(m.n - 1, e.u + c.s.range(1, span)), e.w = c.s.range(o.wlo, o.whi);
      if (!o.acyclic && c.s.chance(1, 3)) std::swap(e.u, e.v);
      if (e.u == e.v) continue;
      m.e.push_back(e);
      if (o.symmetric && !is_undirected<G>::value) std::swap(e.u, e.v), m.e.push_back(e);
    }
    c.label("as many vertices as ids");
  } else if (o.symmetric && is_undirected<G>::value) { // each edge once, listed at both ends by the container
    auto p      = o;
    p.symmetric = false;
    m           = gen::graph(c.s, p);
    if (!o.parallel) {
      std::set<std::pair<int, int>> seen;
      std::vector<gen::Edge>        r;
      for (auto& x : m.e)
        if (seen.insert({std::min(x.u, x.v), std::max(x.u, x.v)}).second) r.push_back(x);
      m.e = std::move(r);
    }
  } else
    m = gen::graph(c.s, o);
  if (is_compressed<G>::value) gen::sort_by_source(m);
  return m;
}
