// The properties again on graphs of up to 150 000 vertices, with hubs, long paths and id widths passed, against
// linear-time references: what only shows beyond 255, 32 767 or 65 535 vertices or edges, or at great depth.
// A case is a short recipe (size, shape, numbering, order) and a seed for its expansion.
#include "graphs.hpp"
#include "traits.hpp"
#include <graph/algorithms.hpp>
#include <graph/algorithm/tc.hpp>
#include <graph/views.hpp>
#include <graph/views/bfs.hpp>
#include <graph/views/dfs.hpp>
#include <graph/views/topological_sort.hpp>
#include <graph/views/transpose.hpp>
using namespace gr;
using pbt::Case;
namespace vw = graph::views;
enum Prop { A01 = 1, A02, A03, A04, A05, A06, A07, A08, A09, A10, A11, A12, A13, A14, A15, V01 = 101, V02, V03, V04, V05, V06, C01 = 201, C02, C03, C04, C05, C06, C07, C08, C09, C10 };
#ifndef PROP
#  define PROP A01
#endif
constexpr Prop prop = PROP;
using Nbrs          = std::vector<std::vector<int>>;
constexpr size_t z(int x) { return static_cast<size_t>(x); }

struct Rng {
  uint64_t s;
  uint64_t next() { return s = pbt::mix(s + 1); }
  int      below(int n) { return static_cast<int>(next() % static_cast<uint64_t>(n)); }
};
struct Want {
  bool symmetric = false, acyclic = false, bounded = false, simple = false, shallow = false;
  int  top = 150000;
};
inline MGraph recipe(Case& c, const Want& w) {
  static const std::vector<std::pair<int, int>> sizes{{2, 12}, {250, 262}, {1000, 3000}, {32760, 32775}, {65530, 65545}, {100000, 150000}};
  size_t k = c.s.chance(1, 2) ? sizes.size() - 1 : c.s.below(static_cast<uint32_t>(sizes.size()));
  while (sizes[k].first > w.top) --k;
  MGraph m;
  m.n       = c.s.range(sizes[k].first, std::min(w.top, sizes[k].second));
  int shape = c.s.range(0, 7), numbering = c.s.range(0, 2), order = c.s.range(0, 2);
  Rng r{c.s.below(1u << 30)};
  int n = m.n;
  auto add = [&](int u, int v) {
    gen::Edge e{};
    e.u = u, e.v = v, e.w = r.below(10);
    m.e.push_back(e);
  };
  if (w.bounded && shape == 5) shape = 4;
  if (w.shallow && n > 1500) shape = shape < 3 ? 2 : shape < 6 ? 5 : 7;
  switch (shape) {
  case 0: for (int i = 0; i + 1 < n; ++i) add(i, i + 1); break; // path
  case 1: // cycle
    for (int i = 0; i + 1 < n; ++i) add(i, i + 1);
    if (!w.acyclic && n > 2) add(n - 1, 0);
    break;
  case 2: for (int i = 1; i < n; ++i) add((i - 1) / 2, i); break; // binary tree
  case 3: for (int i = 0; i + 1 < n; ++i) add(i % 2 ? i - 1 : i, i % 2 ? i + 1 : i + 1); break; // path with teeth
  case 4: // ladder
    for (int i = 0; i + 2 < n; ++i) {
      add(i, i + 2);
      if (i % 2 == 0) add(i, i + 1);
    }
    break;
  case 5: for (int i = 1; i < n; ++i) add(0, i); break; // hub
  case 6: { // any
    std::set<std::pair<int, int>> seen;
    for (int i = 0; i < 2 * n; ++i) {
      int u = r.below(n), v = r.below(n);
      if (w.acyclic && u > v) std::swap(u, v);
      if (u == v) continue;
      if (w.simple && !seen.insert({std::min(u, v), std::max(u, v)}).second) continue;
      add(u, v);
    }
    break;
  }
  case 7: // small pieces
    for (int i = 0; i + 4 < n; i += 5) {
      add(i, i + 1);
      add(i + 1, i + 2);
      if (w.acyclic || w.simple) add(i, i + 2);
      else add(i + 2, i);
      add(i + 2, i + 3);
    }
    break;
  }
  static const char* shapes[] = {"path", "cycle", "binary tree", "path with teeth", "ladder", "hub", "any", "small pieces"};
  static const char* nums[]   = {"", " numbered backwards", " numbered anyhow"};
  static const char* ords[]   = {"", " last edge first", " edges in any order"};
  std::vector<int> p(z(n));
  std::iota(p.begin(), p.end(), 0);
  if (numbering == 1) std::reverse(p.begin(), p.end());
  if (numbering == 2)
    for (int i = n; i > 1; --i) std::swap(p[z(i - 1)], p[z(r.below(i))]);
  for (auto& e : m.e) e.u = p[z(e.u)], e.v = p[z(e.v)];
  if (order == 1) std::reverse(m.e.begin(), m.e.end());
  if (order == 2)
    for (int i = static_cast<int>(m.e.size()); i > 1; --i) std::swap(m.e[z(i - 1)], m.e[z(r.below(i))]);
  c.desc << shapes[shape] << " n=" << n << " m=" << m.e.size() << nums[numbering] << ords[order] << " seed " << r.s;
  c.nontrivial = n >= 200;
  c.label(shapes[shape]);
  c.label(n > 65536 ? "more than 65 536 vertices" : n > 255 ? "more than 255 vertices" : "small");
  return m;
}
template <class G>
MGraph fit(const MGraph& m, bool symmetric) { // what make<G> is given
  MGraph r = m;
  if (symmetric && !is_undirected<G>::value) gen::symmetrize(r);
  if (is_compressed<G>::value) gen::sort_by_source(r);
  return r;
}
inline Nbrs lists(const MGraph& m, bool symmetric) {
  Nbrs a(z(m.n));
  for (auto& e : m.e) {
    a[z(e.u)].push_back(e.v);
    if (symmetric && e.u != e.v) a[z(e.v)].push_back(e.u);
  }
  return a;
}
inline Nbrs reversed(const Nbrs& a) {
  Nbrs r(a.size());
  for (size_t u = 0; u < a.size(); ++u)
    for (int v : a[u]) r[z(v)].push_back(static_cast<int>(u));
  return r;
}
inline std::vector<int> levels(const Nbrs& a, const std::vector<int>& src) {
  std::vector<int> d(a.size(), -1), q;
  for (int s : src)
    if (d[z(s)] < 0) d[z(s)] = 0, q.push_back(s);
  for (size_t i = 0; i < q.size(); ++i)
    for (int v : a[z(q[i])])
      if (d[z(v)] < 0) d[z(v)] = d[z(q[i])] + 1, q.push_back(v);
  return d;
}
// Is this order one in which some depth-first search from order[0] (then from any next root) enters the vertices?
inline void preorder(Case& c, const char* what, Nbrs a, const std::vector<int>& order) {
  std::vector<size_t> next(a.size(), 0);
  std::vector<char>   seen(a.size(), 0);
  std::vector<int>    st;
  for (auto& l : a) std::sort(l.begin(), l.end());
  size_t reached = 0;
  for (int d : levels(a, {order[0]})) reached += d >= 0;
  PCHECK(order.size() == reached, what << ": visits " << order.size() << " of " << reached << " vertices");
  for (size_t i = 0; i < order.size(); ++i) {
    int v = order[i];
    PCHECK(!seen[z(v)], what << ": visits " << v << " twice");
    if (i) {
      for (; !st.empty(); st.pop_back()) {
        auto  u = z(st.back());
        auto& k = next[u];
        while (k < a[u].size() && seen[z(a[u][k])]) ++k;
        if (k < a[u].size()) break;
      }
      PCHECK(!st.empty(), what << ": visits " << v << " with nothing left to visit");
      auto& l = a[z(st.back())];
      PCHECK(std::binary_search(l.begin(), l.end(), v), what << ": visits " << v << " before what is left below " << st.back());
    }
    seen[z(v)] = 1;
    st.push_back(v);
  }
}
inline void before(Case& c, const char* what, const Nbrs& a, const std::vector<int>& order, size_t count) {
  std::vector<int> at(a.size(), -1);
  PCHECK(order.size() == count, what << ": lists " << order.size() << " of " << count << " vertices");
  for (size_t i = 0; i < order.size(); ++i) {
    PCHECK(at[z(order[i])] < 0, what << ": lists " << order[i] << " twice");
    at[z(order[i])] = static_cast<int>(i);
  }
  for (size_t u = 0; u < a.size(); ++u)
    if (at[u] >= 0)
      for (int v : a[u]) PCHECK(at[u] < at[z(v)], what << ": " << v << " before " << u);
}
inline bool cyclic(const Nbrs& a) {
  std::vector<int> in(a.size(), 0), q;
  for (auto& l : a)
    for (int v : l) in[z(v)]++;
  for (size_t u = 0; u < a.size(); ++u)
    if (!in[u]) q.push_back(static_cast<int>(u));
  for (size_t i = 0; i < q.size(); ++i)
    for (int v : a[z(q[i])])
      if (--in[z(v)] == 0) q.push_back(v);
  return q.size() < a.size();
}
struct Sets {
  std::vector<int> p;
  explicit Sets(size_t n) : p(n) { std::iota(p.begin(), p.end(), 0); }
  int  root(int x) { while (p[z(x)] != x) x = p[z(x)] = p[z(p[z(x)])]; return x; }
  bool join(int a, int b) { a = root(a), b = root(b); if (a == b) return false; p[z(a)] = b; return true; }
};
template <class A, class B>
void alike(Case& c, const char* what, const A& want, const B& got) { // same classes
  std::unordered_map<long, long> f, b;
  PCHECK(want.size() <= got.size(), what << ": too few labels");
  for (size_t i = 0; i < want.size(); ++i) {
    PCHECK(f.emplace(static_cast<long>(want[i]), static_cast<long>(got[i])).first->second == static_cast<long>(got[i]), what << ": one class has several labels, at " << i);
    PCHECK(b.emplace(static_cast<long>(got[i]), static_cast<long>(want[i])).first->second == static_cast<long>(want[i]), what << ": one label has several classes, at " << i);
  }
}
// Low points by an explicit stack: cut vertices, and the block of each edge
struct Cuts {
  std::set<int>              cut;
  std::vector<std::set<int>> block;
};
inline Cuts cuts(const Nbrs& a) {
  size_t                           n = a.size();
  Cuts                             r;
  std::vector<int>                 in(n, -1), low(n, 0), par(n, -1);
  std::vector<size_t>              at(n, 0);
  std::vector<std::pair<int, int>> es;
  int                              t = 0;
  for (size_t s = 0; s < n; ++s) {
    if (in[s] >= 0) continue;
    int              children = 0;
    std::vector<int> st{static_cast<int>(s)};
    in[s] = low[s] = t++;
    while (!st.empty()) {
      int u = st.back();
      if (at[z(u)] < a[z(u)].size()) {
        int v = a[z(u)][at[z(u)]++];
        if (v == u) continue;
        if (in[z(v)] < 0) {
          par[z(v)] = u;
          in[z(v)] = low[z(v)] = t++;
          es.push_back({u, v});
          st.push_back(v);
          children += u == static_cast<int>(s);
        } else if (v != par[z(u)] && in[z(v)] < in[z(u)]) {
          low[z(u)] = std::min(low[z(u)], in[z(v)]);
          es.push_back({u, v});
        }
      } else {
        st.pop_back();
        if (st.empty()) break;
        int p     = st.back();
        low[z(p)] = std::min(low[z(p)], low[z(u)]);
        if (low[z(u)] >= in[z(p)]) {
          if (p != static_cast<int>(s)) r.cut.insert(p);
          std::set<int> b;
          while (true) {
            auto e = es.back();
            es.pop_back();
            b.insert(e.first), b.insert(e.second);
            if (e == std::pair(p, u)) break;
          }
          r.block.push_back(std::move(b));
        }
      }
    }
    if (children > 1) r.cut.insert(static_cast<int>(s));
    if (children == 0) r.block.push_back({static_cast<int>(s)});
  }
  return r;
}
inline std::vector<int> strong(const Nbrs& a) { // two passes
  auto                b = reversed(a);
  std::vector<int>    fin, lab(a.size(), -1), st;
  std::vector<size_t> at(a.size(), 0);
  std::vector<char>   seen(a.size(), 0);
  for (size_t s = 0; s < a.size(); ++s) {
    if (seen[s]) continue;
    seen[s] = 1;
    st.assign(1, static_cast<int>(s));
    while (!st.empty()) {
      auto u = z(st.back());
      if (at[u] < a[u].size()) {
        int v = a[u][at[u]++];
        if (!seen[z(v)]) seen[z(v)] = 1, st.push_back(v);
      } else fin.push_back(static_cast<int>(u)), st.pop_back();
    }
  }
  for (size_t i = fin.size(); i-- > 0;) {
    if (lab[z(fin[i])] >= 0) continue;
    lab[z(fin[i])] = fin[i];
    st.assign(1, fin[i]);
    while (!st.empty()) {
      auto u = z(st.back());
      st.pop_back();
      for (int v : b[u])
        if (lab[z(v)] < 0) lab[z(v)] = fin[i], st.push_back(v);
    }
  }
  return lab;
}
template <class G>
int vid(G& g, const auto& u) { return static_cast<int>(graph::vertex_id(g, u)); }
template <class R> std::vector<int> ints(const R& r) { return std::vector<int>(r.begin(), r.end()); }

template <class G, class Id>
struct Found {
  std::vector<int>* found;
  void on_discover_vertex(const auto&, const Id& u) { found->push_back(static_cast<int>(u)); }
};
template <class G, class Id>
struct Classes {
  std::vector<int>*found, *fin;
  std::vector<char>* state;
  size_t*            tree;
  long*              bad;
  void on_discover_vertex(const auto&, const Id& u) { found->push_back(static_cast<int>(u)), (*state)[static_cast<size_t>(u)] = 1; }
  void on_finish_vertex(const auto&, const Id& u) { fin->push_back(static_cast<int>(u)), (*state)[static_cast<size_t>(u)] = 2; }
  void on_tree_edge(const auto& gg, const graph::edge_t<G>& e) { ++*tree, *bad += (*state)[static_cast<size_t>(graph::target_id(gg, e))] != 0; }
  void on_back_edge(const auto& gg, const graph::edge_t<G>& e) { *bad += (*state)[static_cast<size_t>(graph::target_id(gg, e))] != 1; }
  void on_forward_or_cross_edge(const auto& gg, const graph::edge_t<G>& e) { *bad += (*state)[static_cast<size_t>(graph::target_id(gg, e))] != 2; }
};
template <class G>
void check(Case& c, G& g, const MGraph& m, bool symmetric) { // m: the recipe, each edge once
  using Id     = graph::vertex_id_t<G>;
  Nbrs   a     = lists(m, symmetric);
  size_t n     = z(m.n);
  int    start = c.s.chance(1, 2) ? m.n - 1 : c.s.chance(1, 2) ? 0 : c.s.range(0, m.n - 1);
  if (!m.e.empty() && c.s.chance(1, 2)) start = m.e[c.s.chance(1, 2) ? 0 : m.e.size() / 2].u;
  c.desc << " from " << start;
  auto sid = static_cast<Id>(start);
  if constexpr (prop == A01) {
    std::vector<int> found;
    graph::breadth_first_search(g, sid, Found<G, Id>{&found});
    auto   d = levels(a, {start});
    size_t k = static_cast<size_t>(std::count_if(d.begin(), d.end(), [](int x) { return x >= 0; }));
    PCHECK(found.size() == k && std::set<int>(found.begin(), found.end()).size() == k, "breadth_first_search: discovers " << found.size() << " of " << k);
    for (size_t i = 1; i < found.size(); ++i) PCHECK(d[z(found[i])] >= d[z(found[i - 1])] && d[z(found[i])] > 0, "breadth_first_search: not in level order at " << i);
  }
  if constexpr (prop == A02) {
    std::vector<int>  found, fin;
    std::vector<char> state(n, 0);
    size_t            tree = 0;
    long              bad  = 0;
    graph::depth_first_search(g, sid, Classes<G, Id>{&found, &fin, &state, &tree, &bad});
    PCHECK(!found.empty() && found[0] == start, "depth_first_search: does not start at its source");
    preorder(c, "depth_first_search", a, found);
    PCHECK(tree + 1 == found.size() && !bad && fin.size() == found.size(), "depth_first_search: " << tree << " tree edges, " << bad << " misclassified, " << fin.size() << " finished of " << found.size());
    auto d = levels(a, {start});
    std::vector<size_t> at(n, 0);
    for (size_t i = 0; i < fin.size(); ++i) at[z(fin[i])] = i;
    PCHECK(fin.back() == start, "depth_first_search: the source does not finish last");
  }
  if constexpr (prop == A03 || prop == A04) {
    auto w = [&](int u, int v) { return static_cast<int>(pbt::mix(static_cast<uint64_t>(u + v) * 7919u) % 10); };
    auto wf = [&](const auto& gg, const graph::edge_t<G>& e) { return w(static_cast<int>(graph::source_id(gg, e)), static_cast<int>(graph::target_id(gg, e))); };
    std::vector<int> dist(n), pred(n);
    graph::init_shortest_paths(dist, pred);
    constexpr int inf = std::numeric_limits<int>::max();
    if constexpr (prop == A03) graph::dijkstra_shortest_paths(g, sid, dist, pred, wf);
    else PCHECK(!graph::bellman_ford_shortest_paths(g, sid, dist, pred, wf).has_value(), "bellman_ford_shortest_paths: reports a cycle of negative weight");
    auto d = levels(a, {start});
    PCHECK(dist[z(start)] == 0 && pred[z(start)] == start, "shortest paths: the source has distance " << dist[z(start)]);
    for (size_t u = 0; u < n; ++u) {
      PCHECK((d[u] >= 0) == (dist[u] != inf), "shortest paths: " << u << " reached or not");
      if (d[u] < 0) continue;
      for (int v : a[u]) PCHECK(dist[z(v)] <= dist[u] + w(static_cast<int>(u), v), "shortest paths: the edge " << u << '>' << v << " improves a distance");
      if (static_cast<int>(u) != start) {
        int p = pred[u];
        PCHECK(p >= 0 && z(p) < n && d[z(p)] >= 0 && dist[z(p)] + w(p, static_cast<int>(u)) == dist[u], "shortest paths: predecessor " << p << " of " << u);
      }
    }
    std::vector<std::pair<int, int>> es;
    for (size_t u = 0; u < n; ++u)
      for (int v : a[u]) es.push_back({static_cast<int>(u), v});
    std::sort(es.begin(), es.end());
    for (size_t u = 0; u < n; ++u)
      if (d[u] > 0) PCHECK(std::binary_search(es.begin(), es.end(), std::pair(pred[u], static_cast<int>(u))), "shortest paths: no edge " << pred[u] << '>' << u);
    std::vector<char> good(n, 0); // predecessors lead to the source
    good[z(start)] = 1;
    for (size_t u = 0; u < n; ++u) {
      if (d[u] < 0) continue;
      std::vector<size_t> path;
      size_t              x = u;
      while (!good[x] && path.size() <= n) path.push_back(x), x = z(pred[x]);
      PCHECK(good[x], "shortest paths: predecessors of " << u << " do not lead to the source");
      for (auto y : path) good[y] = 1;
    }
  }
  if constexpr (prop == A05) {
    std::vector<Id> out;
    bool            cyc = cyclic(a), ok = graph::topological_sort(g, std::back_inserter(out));
    PCHECK(ok == !cyc, "topological_sort says " << (ok ? "acyclic" : "cyclic"));
    if (ok) before(c, "topological_sort", a, ints(out), n);
    out.clear();
    if (!cyc) {
      auto d = levels(a, {start});
      PCHECK(graph::topological_sort(g, sid, std::back_inserter(out)), "topological_sort(source) says cyclic");
      before(c, "topological_sort(source)", a, ints(out), static_cast<size_t>(std::count_if(d.begin(), d.end(), [](int x) { return x >= 0; })));
    }
  }
  if constexpr (prop == A06) {
    Sets s(n);
    for (auto& e : m.e) s.join(e.u, e.v);
    std::vector<int> want(n);
    std::set<int>    ids;
    for (size_t u = 0; u < n; ++u) ids.insert(want[u] = s.root(static_cast<int>(u)));
    std::vector<uint32_t> comp(n, 9);
    size_t                k = graph::connected_components(g, comp);
    alike(c, "connected_components", want, comp);
    PCHECK(k == ids.size(), "connected_components returns " << k << " instead of " << ids.size());
    if constexpr (requires { graph::afforest(g, comp); }) {
      graph::afforest(g, comp);
      alike(c, "afforest", want, comp);
    }
  }
  if constexpr (prop == A07) {
    MGraph r = m;
    for (auto& e : r.e) std::swap(e.u, e.v);
    VVI                   t = make<VVI>(r);
    std::vector<uint32_t> comp(n, 1);
    auto                  want = strong(a);
    graph::kosaraju(g, t, comp);
    alike(c, "kosaraju", want, comp);
    for (size_t u = 0; u < n; ++u)
      for (int v : a[u]) PCHECK(comp[u] <= comp[z(v)], "kosaraju: edge " << u << '>' << v << " goes back");
    if constexpr (graph::adj_list::index_bidirectional_adjacency_list<G>) {
      graph::kosaraju(g, comp);
      alike(c, "kosaraju(bidirectional)", want, comp);
    }
  }
  if constexpr (prop == A08 || prop == A09) {
    auto e = m.e;
    auto w = [&](int u, int v) { return static_cast<int>(pbt::mix(static_cast<uint64_t>(u + v) * 31337u) % 1000); };
    for (auto& x : e) x.w = w(x.u, x.v);
    std::stable_sort(e.begin(), e.end(), [](auto& x, auto& y) { return x.w < y.w; });
    Sets                  s(n);
    long                  total = 0;
    size_t                edges = 0;
    std::vector<gen::Edge> kept;
    for (auto& x : e)
      if (s.join(x.u, x.v)) total += x.w, ++edges, kept.push_back(x);
    if constexpr (prop == A08) {
      using Rec = graph::edge_data<uint32_t, true, void, int>;
      std::vector<Rec> in, t;
      for (auto& x : m.e) in.push_back(Rec{static_cast<uint32_t>(x.u), static_cast<uint32_t>(x.v), w(x.u, x.v)});
      bool   inplace = c.s.chance(1, 3);
      auto   r       = inplace ? graph::inplace_kruskal(in, t) : graph::kruskal(in, t);
      size_t ids     = 0;
      for (auto& x : m.e) ids = std::max({ids, z(x.u) + 1, z(x.v) + 1});
      Sets f(n);
      long sum = 0;
      for (auto& x : t) {
        PCHECK(f.join(static_cast<int>(x.source_id), static_cast<int>(x.target_id)), "kruskal: output edge closes a cycle");
        PCHECK(x.value == w(static_cast<int>(x.source_id), static_cast<int>(x.target_id)), "kruskal: output edge of another weight");
        sum += x.value;
      }
      PCHECK(t.size() == edges && sum == total && r.first == total && r.second == ids - edges, "kruskal: " << t.size() << " edges of weight " << sum << ", reported " << r.first << " and " << r.second << " components; expected " << edges << ", " << total);
    } else {
      std::vector<uint32_t> pred(n, 0);
      std::vector<int>      wt(n, 0);
      auto wf = [&](const auto& gg, const graph::edge_t<G>& uv) { return w(static_cast<int>(graph::source_id(gg, uv)), static_cast<int>(graph::target_id(gg, uv))); };
      int  got = graph::prim(g, pred, wt, [](int x, int y) { return x < y; }, std::numeric_limits<int>::max(), wf, sid);
      long mine = 0;
      for (auto& x : kept)
        if (s.root(x.u) == s.root(start)) mine += x.w;
      PCHECK(got == mine, "prim returns " << got << " instead of " << mine);
      Sets f(n);
      for (size_t v = 0; v < n; ++v)
        if (s.root(static_cast<int>(v)) == s.root(start) && static_cast<int>(v) != start) {
          PCHECK(f.join(static_cast<int>(v), static_cast<int>(pred[v])), "prim: the predecessors of " << v << " close a cycle");
          PCHECK(wt[v] == w(static_cast<int>(v), static_cast<int>(pred[v])), "prim: weight of " << v);
        }
    }
  }
  if constexpr (prop == A10) {
    std::vector<Id> out;
    graph::articulation_points(g, std::back_inserter(out));
    auto want = cuts(a).cut;
    auto got  = std::set<int>(out.begin(), out.end());
    PCHECK(out.size() == got.size() && got == want, "articulation_points: " << out.size() << " instead of " << want.size());
  }
  if constexpr (prop == A11) {
    std::vector<std::vector<Id>> out;
    graph::biconnected_components(g, out);
    std::vector<std::vector<int>> got, want;
    for (auto& x : out) got.push_back(ints(x)), std::sort(got.back().begin(), got.back().end());
    for (auto& x : cuts(a).block) want.push_back(ints(x));
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    PCHECK(got == want, "biconnected_components: " << got.size() << " components, expected " << want.size() << " or others");
  }
  if constexpr (prop == A12 || prop == A13) {
    auto sets = a;
    for (auto& l : sets) {
      std::sort(l.begin(), l.end());
      l.erase(std::unique(l.begin(), l.end()), l.end());
    }
    auto common = [&](size_t u, size_t v) {
      size_t k = 0;
      for (int x : sets[u]) k += std::binary_search(sets[v].begin(), sets[v].end(), x);
      return k;
    };
    if constexpr (prop == A12) {
      size_t k = 0;
      for (size_t u = 0; u < n; ++u)
        for (int v : sets[u])
          if (static_cast<int>(u) < v) k += common(u, z(v));
      size_t got = graph::triangle_count(g);
      PCHECK(got * 3 == k, "triangle_count returns " << got << " instead of " << k / 3);
    } else {
      size_t calls = 0, m2 = 0;
      for (size_t u = 0; u < n; ++u) m2 += a[u].size();
      graph::jaccard_coefficient(g, [&](Id u, Id v, const auto&, double x) {
        ++calls;
        auto i = static_cast<size_t>(u), j = static_cast<size_t>(v);
        auto k = common(i, j), all = sets[i].size() + sets[j].size() - k;
        PCHECK(std::abs(x - static_cast<double>(k) / static_cast<double>(all)) < 1e-9, "jaccard_coefficient of " << u << '>' << v << " is " << x);
      });
      PCHECK(calls == m2, "jaccard_coefficient: " << calls << " calls for " << m2 << " edges");
    }
  }
  if constexpr (prop == A14) {
    std::vector<Id> out;
    size_t          k = graph::maximal_independent_set(g, std::back_inserter(out), sid);
    std::vector<char> in(n, 0);
    PCHECK(k == out.size(), "maximal_independent_set returns " << k << " for " << out.size());
    for (auto x : out) {
      PCHECK(!in[static_cast<size_t>(x)], "maximal_independent_set: " << x << " twice");
      in[static_cast<size_t>(x)] = 1;
    }
    PCHECK(in[z(start)], "maximal_independent_set: without its seed");
    for (size_t u = 0; u < n; ++u) {
      bool near = false;
      for (int v : a[u]) near = near || in[z(v)];
      PCHECK(in[u] != near, "maximal_independent_set: " << u << (near ? " and a neighbor are in it" : " could be added"));
    }
  }
  if constexpr (prop == A15) {
    std::vector<int> label(n);
    Rng              r{static_cast<uint64_t>(start) + 5};
    int              kinds = c.s.range(1, 3);
    for (auto& x : label) x = kinds == 1 ? 4 : kinds == 2 ? r.below(3) : r.below(m.n);
    auto             first = label;
    std::mt19937     eng(static_cast<unsigned>(start));
    size_t           rounds = c.s.chance(1, 2) ? 1 : m.n > 5000 ? 2 : std::numeric_limits<size_t>::max();
    graph::label_propagation(g, label, eng, rounds);
    Sets s(n);
    for (auto& e : m.e) s.join(e.u, e.v);
    std::set<std::pair<int, int>> had;
    for (size_t u = 0; u < n; ++u) had.insert({s.root(static_cast<int>(u)), first[u]});
    for (size_t u = 0; u < n; ++u) {
      PCHECK(had.count({s.root(static_cast<int>(u)), label[u]}), "label_propagation: " << u << " has a label from elsewhere");
      if (a[u].empty()) PCHECK(label[u] == first[u], "label_propagation: lone vertex " << u << " changed");
    }
    if (rounds > 100) { // stopped by itself: every label is one of the most frequent around
      for (size_t u = 0; u < n; ++u) {
        if (a[u].empty()) continue;
        std::map<int, int> f;
        int                top = 0;
        for (int v : a[u]) top = std::max(top, ++f[label[z(v)]]);
        PCHECK(f[label[u]] == top, "label_propagation: " << u << " is not stable");
      }
    }
  }
  if constexpr (prop == V03) {
    std::vector<int> order;
    for (auto&& [v] : vw::vertices_dfs(g, sid)) order.push_back(vid(g, v));
    PCHECK(!order.empty() && order[0] == start, "vertices_dfs: does not start at the seed");
    preorder(c, "vertices_dfs", a, order);
    std::vector<int> heads{start};
    for (auto&& [e] : vw::edges_dfs(g, sid)) heads.push_back(static_cast<int>(graph::target_id(g, e)));
    preorder(c, "edges_dfs", a, heads);
  }
  if constexpr (prop == V04) {
    auto   d = levels(a, {start});
    size_t k = static_cast<size_t>(std::count_if(d.begin(), d.end(), [](int x) { return x >= 0; }));
    auto   test = [&](const char* what, const std::vector<int>& o) {
      PCHECK(o.size() == k && std::set<int>(o.begin(), o.end()).size() == k && o[0] == start, what << ": visits " << o.size() << " of " << k);
      for (size_t i = 1; i < o.size(); ++i) PCHECK(d[z(o[i])] >= d[z(o[i - 1])], what << ": not in level order at " << i);
    };
    std::vector<int> order, heads{start};
    for (auto&& [v] : vw::vertices_bfs(g, sid)) order.push_back(vid(g, v));
    test("vertices_bfs", order);
    for (auto&& [e] : vw::edges_bfs(g, sid)) heads.push_back(static_cast<int>(graph::target_id(g, e)));
    test("edges_bfs", heads);
  }
  if constexpr (prop == V05) {
    bool             cyc = cyclic(a);
    std::vector<int> order;
    for (auto&& [v] : vw::vertices_topological_sort(g)) order.push_back(vid(g, v));
    if (!cyc) before(c, "vertices_topological_sort", a, order, n);
    PCHECK(order.size() == n, "vertices_topological_sort yields " << order.size() << " of " << n);
    auto safe = vw::vertices_topological_sort_safe(g);
    PCHECK(safe.has_value() == !cyc, "vertices_topological_sort_safe: cycle or none");
    if (!cyc) {
      order.clear();
      for (auto&& [v] : *safe) order.push_back(vid(g, v));
      before(c, "vertices_topological_sort_safe", a, order, n);
    }
    size_t k = 0, m2 = 0;
    for (auto& l : a) m2 += l.size();
    for (auto&& [e] : vw::edges_topological_sort(g)) (void)e, ++k;
    PCHECK(k == m2, "edges_topological_sort yields " << k << " of " << m2);
  }
  if constexpr (prop >= V01 && (prop == V01 || prop == V02 || prop >= C01)) { // content
    std::vector<std::vector<std::pair<int, int>>> want(n);
    for (auto& e : m.e) {
      want[z(e.u)].push_back({e.v, e.w});
      if (symmetric && e.u != e.v) want[z(e.v)].push_back({e.u, e.w});
    }
    size_t total = 0, i = 0;
    for (auto& l : want) total += l.size(), std::sort(l.begin(), l.end());
    auto value = [&](const auto& e) { return static_cast<int>(graph::edge_value(g, e)); };
    PCHECK(graph::num_vertices(g) == n, "num_vertices is " << graph::num_vertices(g));
    for (auto u : graph::vertices(g)) {
      PCHECK(z(vid(g, u)) == i && i < n, "vertex " << i << " has id " << vid(g, u));
      std::vector<std::pair<int, int>> got;
      for (auto e : graph::edges(g, u)) {
        got.push_back({static_cast<int>(graph::target_id(g, e)), value(e)});
        PCHECK(static_cast<size_t>(graph::source_id(g, e)) == i, "an edge of " << i << " has source " << graph::source_id(g, e));
      }
      PCHECK(static_cast<size_t>(graph::degree(g, u)) == got.size(), "degree of " << i);
      std::sort(got.begin(), got.end());
      PCHECK(got == want[i], "edges of vertex " << i << ": " << got.size() << " listed, expected " << want[i].size() << " (or others)");
      if constexpr (!plain_seq<std::remove_const_t<G>>) PCHECK(static_cast<int>(graph::vertex_value(g, u)) == vval(static_cast<int>(i)), "value of vertex " << i);
      ++i;
    }
    PCHECK(i == n, "vertices(g) lists " << i);
    if constexpr (prop == C07) {
      PCHECK(static_cast<size_t>(graph::num_edges(g)) == (is_undirected<std::remove_const_t<G>>::value ? m.e.size() : total), "num_edges is " << graph::num_edges(g) << " of " << total);
      for (int t = 0; t < 200 && !m.e.empty(); ++t) {
        auto& e = m.e[c.s.below(static_cast<uint32_t>(m.e.size()))];
        auto  f = graph::find_vertex_edge(g, static_cast<Id>(e.u), static_cast<Id>(e.v));
        PCHECK(static_cast<int>(graph::target_id(g, f)) == e.v && static_cast<int>(graph::source_id(g, f)) == e.u, "find_vertex_edge of " << e.u << '>' << e.v);
        PCHECK(graph::contains_edge(g, static_cast<Id>(e.u), static_cast<Id>(e.v)), "contains_edge of " << e.u << '>' << e.v);
      }
      PCHECK(vid(g, *graph::find_vertex(g, sid)) == start, "find_vertex of " << start);
    }
    if constexpr (prop == V01) {
      size_t k = 0;
      for (auto&& [id, u] : vw::vertexlist(g)) {
        PCHECK(static_cast<size_t>(id) == k && z(vid(g, u)) == k, "vertexlist at " << k);
        ++k;
      }
      PCHECK(k == n, "vertexlist: " << k);
      std::vector<std::vector<std::pair<int, int>>> got(n);
      for (auto&& [s, t, e, x] : vw::edgelist(g, [&](const auto& gg, const auto& e) { return static_cast<int>(graph::edge_value(gg, e)); })) {
        got[static_cast<size_t>(s)].push_back({static_cast<int>(t), x});
        PCHECK(value(e) == x, "edgelist: value");
      }
      for (auto& l : got) std::sort(l.begin(), l.end());
      PCHECK(got == want, "edgelist: other edges than the graph");
      std::vector<int> inc, nb;
      for (auto&& [t, e] : vw::incidence(g, *graph::find_vertex(g, sid))) inc.push_back(static_cast<int>(t)), (void)e;
      for (auto&& [t, v] : vw::neighbors(g, *graph::find_vertex(g, sid))) nb.push_back(vid(g, v)), (void)t;
      std::sort(inc.begin(), inc.end()), std::sort(nb.begin(), nb.end());
      std::vector<int> ws;
      for (auto& x : want[z(start)]) ws.push_back(x.first);
      PCHECK(inc == ws && nb == ws, "incidence or neighbors of " << start);
    }
    if constexpr ((prop == V02 || prop == C02) && graph::adj_list::bidirectional_adjacency_list<G>) {
      std::vector<std::vector<std::pair<int, int>>> back(n), got(n), tr(n);
      for (auto& e : m.e) back[z(e.v)].push_back({e.u, e.w});
      for (auto& l : back) std::sort(l.begin(), l.end());
      for (auto v : graph::vertices(g)) {
        for (auto e : graph::in_edges(g, v)) got[z(vid(g, v))].push_back({static_cast<int>(graph::source_id(g, e)), value(e)});
        PCHECK(static_cast<size_t>(graph::in_degree(g, v)) == back[z(vid(g, v))].size(), "in_degree of " << vid(g, v));
      }
      for (auto& l : got) std::sort(l.begin(), l.end());
      PCHECK(got == back, "in_edges: other edges than the reverse");
      if constexpr (prop == V02) {
        auto t = vw::transpose(g);
        for (auto u : graph::vertices(t))
          for (auto e : graph::edges(t, u)) tr[z(vid(t, u))].push_back({static_cast<int>(graph::target_id(t, e)), static_cast<int>(graph::edge_value(t, e))});
        for (auto& l : tr) std::sort(l.begin(), l.end());
        PCHECK(tr == back, "transpose: other edges than the reverse");
      }
    }
  }
}
template <class G>
void run(Case& c) {
  Want w;
  bool directed = prop == A01 || prop == A02 || prop == A03 || prop == A04 || prop == A05 || prop == A07 || prop >= V01;
  bool symmetric = is_undirected<G>::value || !directed || (prop != A05 && prop != A07 && prop < V01 && c.s.chance(1, 3));
  if (prop >= V01 && !is_undirected<G>::value) symmetric = false;
  w.bounded = prop == A12 || prop == A13;
  w.simple  = prop == A12 || prop == A08 || prop == A09;
  w.acyclic = (prop == A05 || prop == V05) && c.s.chance(4, 5);
  if (prop == A15) w.top = 70000;
  w.shallow = prop == A04;
  MGraph m = recipe(c, w);
  if (prop == A12) // sorted neighbor lists
    for (auto& e : m.e)
      if (e.u > e.v) std::swap(e.u, e.v);
  MGraph f = fit<G>(m, symmetric);
  if (prop == A12) std::sort(f.e.begin(), f.e.end());
  G g = make<G>(f);
  check<G>(c, g, m, symmetric);
  if constexpr (prop == C05 || prop == C06) {
    if constexpr (prop == C06) {
      G h = g;
      check<G>(c, h, m, symmetric);
      G k = std::move(h);
      check<G>(c, k, m, symmetric);
      std::swap(g, k);
    } else { // erase some edges and vertices
      Rng               r{7};
      using VId = graph::vertex_id_t<G>;
      std::vector<char> gone(z(m.n), 0);
      for (auto& x : gone) x = r.below(50) == 0;
      for (int i = 0; i < m.n; ++i) { // all edges of some vertices
        auto& v  = g.vertices()[z(i)];
        auto  id = static_cast<VId>(i);
        if (!gone[z(i)]) continue;
        while (v.edges_begin(g, id) != v.edges_end(g, id)) v.erase_edge(g, v.edges_begin(g, id));
      }
      m.e.erase(std::remove_if(m.e.begin(), m.e.end(), [&](auto& e) { return gone[z(e.u)] || gone[z(e.v)]; }), m.e.end());
    }
    check<G>(c, g, m, symmetric);
    PCHECK(static_cast<size_t>(g.num_edges()) == m.e.size(), "num_edges is " << g.num_edges() << " of " << m.e.size());
  }
}
template <class G> void reg(const char* n) { pbt::targets().push_back({n, [](Case& c) { run<G>(c); }, 1}); }
struct RegAll {
  RegAll() {
    constexpr bool undirected_only = prop == C05 || prop == C06, csr_only = prop == C03, bi_only = prop == C02 || prop == V02, dyn_only = prop == C01;
    if constexpr (!undirected_only && !csr_only && !bi_only) {
      if constexpr (!dyn_only && prop < V01) reg<VVI>("plain");
      reg<DG_U(vov, int, int, uint32_t)>("vov");
      if constexpr (prop == C01 || prop == C07) reg<DG_U(dofl, int, int, int)>("dofl");
    }
    if constexpr (bi_only || prop == A07) reg<DG_B(vov, int, int, uint32_t)>("bi vov");
    if constexpr (csr_only || (prop != C01 && !undirected_only && !bi_only)) reg<gc::compressed_graph<int, int, void, uint32_t, uint32_t>>("csr");
    if constexpr (undirected_only || (prop != A05 && prop != A07 && prop != V05 && prop != C01 && prop != C03 && !bi_only)) reg<gc::undirected_adjacency_list<int, int, int, uint32_t>>("undirected");
  }
} reg_all;
