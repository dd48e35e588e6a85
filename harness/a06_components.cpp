// A06 (MODE=0) connected components and A07 (MODE=1) strongly connected components against reachability.
#include "kinds_list.hpp"
#include <unordered_map>
#include <graph/algorithm/connected_components.hpp>
#ifndef MODE
#  define MODE 0
#endif

inline std::vector<std::vector<int>> joined(const std::vector<std::vector<int>>& adj) { // both ways
  std::vector<std::vector<int>> r(adj.size());
  for (size_t u = 0; u < adj.size(); ++u)
    for (int v : adj[u]) r[u].push_back(v), r[static_cast<size_t>(v)].push_back(static_cast<int>(u));
  return r;
}
inline std::vector<char> from(const std::vector<std::vector<int>>& adj, size_t s) {
  std::vector<char>   in(adj.size(), 0);
  std::vector<size_t> q{s};
  in[s] = 1;
  while (!q.empty()) {
    auto u = q.back();
    q.pop_back();
    for (int v : adj[u])
      if (!std::exchange(in[static_cast<size_t>(v)], 1)) q.push_back(static_cast<size_t>(v));
  }
  return in;
}
inline std::vector<int> weak(const std::vector<std::vector<int>>& adj) { // least vertex of each one's component
  auto             both = joined(adj);
  std::vector<int> r(adj.size(), -1);
  for (size_t u = 0; u < adj.size(); ++u) {
    if (r[u] >= 0) continue;
    auto in = from(both, u);
    for (size_t v = 0; v < adj.size(); ++v)
      if (in[v]) r[v] = static_cast<int>(u);
  }
  return r;
}
inline std::vector<int> strong(const std::vector<std::vector<int>>& adj) {
  std::vector<int>               r(adj.size(), -1);
  std::vector<std::vector<char>> in;
  for (size_t u = 0; u < adj.size(); ++u) in.push_back(from(adj, u));
  for (size_t u = 0; u < adj.size(); ++u)
    for (size_t v = 0; v <= u; ++v)
      if (in[u][v] && in[v][u]) { r[u] = static_cast<int>(v); break; }
  return r;
}
template <class C>
void grouped(Case& c, const char* what, const std::vector<int>& want, const C& got) {
  std::map<long, int> a;
  std::map<int, long> b;
  for (size_t v = 0; v < want.size(); ++v) {
    long x = static_cast<long>(got[v]);
    PCHECK(a.emplace(x, want[v]).first->second == want[v], what << ": " << v << " and " << a[x] << " share label " << x << " but are in different components");
    PCHECK(b.emplace(want[v], x).first->second == x, what << ": " << v << " and " << want[v] << " are in one component but have labels " << x << " and " << b[want[v]]);
  }
}
template <class C>
size_t numbered(Case& c, const char* what, const C& got, size_t n) { // labels 0 ... k-1
  std::set<long> s;
  for (size_t v = 0; v < n; ++v) s.insert(static_cast<long>(got[v]));
  PCHECK(s.empty() || (*s.begin() == 0 && *s.rbegin() == static_cast<long>(s.size()) - 1), what << ": labels are not 0, 1, ...: " << pbt::show(s));
  return s.size();
}
template <class X> std::vector<X> room(Case& c, size_t n, int fill) {
  return std::vector<X>(n + (c.s.chance(1, 5) ? 2 : 0), static_cast<X>(fill));
}

#if MODE == 0
template <class G>
void check(Case& c, G& g, const MGraph& m) {
  Lists<G> L(g);
  using Id  = graph::vertex_id_t<G>;
  auto want = weak(L.adj);
  auto test = [&]<class X>(std::type_identity<X>) {
    auto   comp = room<X>(c, L.n(), 3);
    size_t k    = graph::connected_components(g, comp);
    grouped(c, "connected_components", want, comp);
    PCHECK(numbered(c, "connected_components", comp, L.n()) == k, "connected_components returns " << k << " for labels " << pbt::show(comp));
  };
  if (c.s.chance(1, 2)) test(std::type_identity<size_t>());
  else test(std::type_identity<int>());
  if (L.n() < 255 && c.s.chance(1, 4)) test(std::type_identity<unsigned char>());
  constexpr bool sized = requires(graph::vertex_t<G> u) { graph::edges(g, u).size(); graph::edges(g, Id()).size(); };
  if constexpr (sized) {
    auto rounds = static_cast<size_t>(c.s.range(0, 4));
    auto comp   = room<Id>(c, L.n(), 0);
    if (comp.size() - (comp.size() ? 1 : 0) <= static_cast<size_t>(std::numeric_limits<Id>::max())) {
      c.desc << " rounds " << rounds;
      if (c.s.chance(1, 3)) rounds = 2, graph::afforest(g, comp);
      else graph::afforest(g, comp, rounds);
      grouped(c, "afforest", want, comp);
    }
    auto comp2 = std::vector<size_t>(L.n());
    graph::afforest(g, comp2, rounds);
    grouped(c, "afforest", want, comp2);
    c.label("afforest");
  }
  (void)m;
  if (std::set<int>(want.begin(), want.end()).size() > 1) c.label("several components");
  c.nontrivial = L.n() >= 3 && L.m >= 2;
}
template <class G> // the weak components of a directed graph, from it and its transpose
void check_transposed(Case& c, G& g, G& t) {
  Lists<G>       L(g);
  using Id           = graph::vertex_id_t<G>;
  constexpr bool sized = requires(graph::vertex_t<G> u) { graph::edges(g, u).size(); graph::edges(g, Id()).size(); };
  if constexpr (sized) {
    auto rounds = static_cast<size_t>(c.s.range(0, 4));
    auto comp   = std::vector<Id>(L.n());
    c.desc << " with its transpose, rounds " << rounds;
    graph::afforest(g, t, comp, rounds);
    grouped(c, "afforest with transpose", weak(L.adj), comp);
    c.label("afforest with transpose");
  }
  c.nontrivial = L.n() >= 3 && L.m >= 2;
}
template <class G>
void run(Case& c) {
  gen::Opt o;
  o.max_n      = 9;
  o.big_n      = 40;
  o.symmetric  = !c.s.chance(1, 3);
  bool   dense = c.s.chance(1, 3);
  MGraph m     = algo_graph<G>(c, o);
  if (!dense && !is_undirected<G>::value && o.symmetric && m.n > 3) { // fewer edges, more components
    std::set<std::pair<int, int>> drop;
    for (auto& e : m.e)
      if (c.s.chance(1, 3)) drop.insert({std::min(e.u, e.v), std::max(e.u, e.v)});
    m.e.erase(std::remove_if(m.e.begin(), m.e.end(), [&](auto& e) { return drop.count({std::min(e.u, e.v), std::max(e.u, e.v)}) > 0; }), m.e.end());
  }
  c.desc << gen::str(m);
  G g = make<G>(m);
  if (!o.symmetric && !is_undirected<G>::value) {
    MGraph r = m;
    for (auto& e : r.e) std::swap(e.u, e.v);
    if (is_compressed<G>::value) gen::sort_by_source(r);
    G t = make<G>(r);
    return check_transposed<G>(c, g, t);
  }
  if constexpr (graph::adj_list::index_adjacency_list<const G>)
    if (c.s.chance(1, 5)) return check<const G>(c, g, m);
  check<G>(c, g, m);
}
// compress points every vertex at its root
inline void run_compress(Case& c) {
  std::vector<size_t> p(static_cast<size_t>(c.s.range(0, 30)));
  for (size_t i = 0; i < p.size(); ++i) p[i] = c.s.chance(1, 4) ? i : static_cast<size_t>(c.s.range(c.s.chance(1, 2) && i > 3 ? static_cast<int>(i) - 3 : 0, static_cast<int>(i)));
  c.desc << pbt::show(p);
  auto q = p;
  graph::compress(q);
  for (size_t i = 0; i < p.size(); ++i) {
    size_t r = i;
    while (p[r] != r) r = p[r];
    PCHECK(q[i] == r, "compress: " << i << " points at " << q[i] << " instead of its root " << r);
  }
  c.nontrivial = p.size() > 3;
}
struct RegC { RegC() { if (UNIT == 0) pbt::targets().push_back({"compress", [](Case& c) { run_compress(c); }, 1}); } } regc_;
#else
template <class G, class T>
void check(Case& c, G& g, T& t) {
  Lists<G> L(g);
  auto     want = strong(L.adj);
  auto     test = [&]<class X>(std::type_identity<X>) {
    auto verify = [&](const char* what, const std::vector<X>& comp) {
      grouped(c, what, want, comp);
      numbered(c, what, comp, L.n());
      for (size_t u = 0; u < L.n(); ++u)
        for (int v : L.adj[u])
          PCHECK(comp[u] <= comp[static_cast<size_t>(v)], what << ": edge " << u << ">" << v << " goes from component " << +comp[u] << " back to " << +comp[static_cast<size_t>(v)]);
    };
    auto comp = room<X>(c, L.n(), 1);
    graph::kosaraju(g, t, comp);
    verify("kosaraju(graph, transpose)", comp);
    if constexpr (graph::adj_list::index_bidirectional_adjacency_list<G>) {
      auto comp2 = room<X>(c, L.n(), 2);
      graph::kosaraju(g, comp2);
      verify("kosaraju(bidirectional graph)", comp2);
      c.label("bidirectional");
    }
  };
  if (c.s.chance(1, 2)) test(std::type_identity<size_t>());
  else test(std::type_identity<int>());
  auto k = std::set<int>(want.begin(), want.end()).size();
  if (k > 1 && k < L.n()) c.label("some vertices alone or several classes");
  c.nontrivial = L.n() >= 3 && L.m >= 3;
}
template <class G>
void run(Case& c) {
  gen::Opt o;
  o.max_n  = 9;
  o.big_n  = 40;
  MGraph m = algo_graph<G>(c, o);
  c.desc << gen::str(m);
  G      g = make<G>(m);
  MGraph r = m;
  for (auto& e : r.e) std::swap(e.u, e.v);
  for (size_t i = r.e.size(); i > 1; --i) // in any order
    if (c.s.chance(1, 2)) std::swap(r.e[i - 1], r.e[static_cast<size_t>(c.s.range(0, static_cast<int>(i) - 1))]);
  if (is_compressed<G>::value) gen::sort_by_source(r);
  if constexpr (graph::adj_list::index_adjacency_list<const G>)
    if (c.s.chance(1, 5)) {
      const G t = make<G>(r);
      return check<const G>(c, g, t);
    }
  if (c.s.chance(1, 4)) { // a transpose of another kind
    VVI t = make<VVI>(r);
    return check<G>(c, g, t);
  }
  G t = make<G>(r);
  check<G>(c, g, t);
}
#endif
struct Comp {
  template <class G> static constexpr bool accepts = algo_kind<G> && (MODE == 0 || !is_undirected<G>::value);
  template <class G> static void run(Case& c) { ::run<G>(c); }
};
RegisterKinds<Comp> reg_;
