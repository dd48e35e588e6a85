// Generated graph model and generators shared by every harness.
#pragma once
#include "pbt.hpp"
#include <numeric>
#include <optional>
#include <queue>

namespace gen {
using pbt::Case;
using pbt::Src;

struct Edge {
  int  u, v, w;
  bool operator==(const Edge&) const  = default;
  auto operator<=>(const Edge&) const = default;
};
struct MGraph {
  int               n = 0;
  std::vector<Edge> e; // in insertion order
  // adjacency in insertion order: (target, weight)
  std::vector<std::vector<std::pair<int, int>>> adj() const {
    std::vector<std::vector<std::pair<int, int>>> a(static_cast<size_t>(n));
    for (auto& x : e)
      a[static_cast<size_t>(x.u)].push_back({x.v, x.w});
    return a;
  }
};
inline std::string str(const MGraph& g) {
  std::ostringstream o;
  o << "n=" << g.n << " E{";
  for (size_t i = 0; i < g.e.size(); ++i)
    o << (i ? " " : "") << g.e[i].u << ">" << g.e[i].v << ":" << g.e[i].w;
  o << "}";
  return o.str();
}

struct Opt {
  int  max_n        = 8;
  int  min_n        = 0;
  int  wlo          = 0;
  int  whi          = 9;
  bool self_loops   = true;
  bool parallel     = true;
  bool symmetric    = false; // every edge stored in both directions (self-loops once)
  bool acyclic      = false;
  bool sorted       = false; // edges sorted by (u) stably
  bool big          = true;  // sometimes generate much larger graphs
  int  big_n        = 60;
};

inline int pick_n(Src& s, const Opt& o) {
  int mx = o.max_n;
  if (o.big && s.chance(1, 12))
    mx = o.big_n;
  return s.range(o.min_n, std::max(o.min_n, mx));
}
inline int weight(Src& s, const Opt& o) {
  return s.range(o.wlo, o.whi);
}
inline void dedup(MGraph& g) {
  std::set<std::pair<int, int>> seen;
  std::vector<Edge>             r;
  for (auto& x : g.e)
    if (seen.insert({x.u, x.v}).second)
      r.push_back(x);
  g.e = std::move(r);
}
inline void symmetrize(MGraph& g) { // (u,v) -> both directions adjacent in the list, same weight
  std::vector<Edge> r;
  for (auto& x : g.e) {
    r.push_back(x);
    if (x.u != x.v)
      r.push_back({x.v, x.u, x.w});
  }
  g.e = std::move(r);
}
inline void sort_by_source(MGraph& g) {
  std::stable_sort(g.e.begin(), g.e.end(), [](const Edge& a, const Edge& b) { return a.u < b.u; });
}

// Base generator: shape families mixed with random edges. Shape 0 (random) is the simplest.
inline MGraph graph(Src& s, const Opt& o) {
  MGraph g;
  g.n   = pick_n(s, o);
  int n = g.n;
  if (n == 0)
    return g;
  int  shape = s.chance(1, 3) ? s.range(1, 9) : 0;
  auto add   = [&](int u, int v) {
    if (!o.self_loops && u == v)
      return;
    g.e.push_back({u, v, weight(s, o)});
  };
  switch (shape) {
  case 1: // path
    for (int i = 0; i + 1 < n; ++i)
      add(i, i + 1);
    break;
  case 2: // cycle
    for (int i = 0; i < n; ++i)
      add(i, (i + 1) % n);
    break;
  case 3: { // star (in, out or both)
    int k = s.range(0, 2);
    for (int i = 1; i < n; ++i) {
      if (k != 1)
        add(0, i);
      if (k != 0)
        add(i, 0);
    }
    break;
  }
  case 4: { // complete, bounded
    int m = std::min(n, 7);
    for (int i = 0; i < m; ++i)
      for (int j = 0; j < m; ++j)
        if (i != j)
          add(i, j);
    break;
  }
  case 5: // random tree, edges away from the parent or towards it
    for (int i = 1; i < n; ++i) {
      int p = s.range(0, i - 1);
      if (s.chance(1, 4))
        add(i, p);
      else
        add(p, i);
    }
    break;
  case 6: { // grid
    int w = 1;
    while (w * w < n)
      ++w;
    for (int i = 0; i < n; ++i) {
      if ((i + 1) % w && i + 1 < n)
        add(i, i + 1);
      if (i + w < n)
        add(i, i + w);
    }
    break;
  }
  case 7: { // chain of cliques or cycles of size k sharing a vertex or joined by a bridge
    int k = s.range(2, 4);
    for (int b = 0; b + 1 < n; b += k) {
      int hi = std::min(n - 1, b + k);
      for (int i = b; i < hi; ++i)
        add(i, i + 1);
      if (hi - b >= 2)
        add(hi, b);
    }
    break;
  }
  case 8: { // layered
    int L = s.range(1, 3);
    for (int i = 0; i < n; ++i)
      for (int j = i + 1; j < std::min(n, i + 1 + L); ++j)
        add(i, j);
    break;
  }
  case 9: { // two disjoint random halves
    int h = n / 2;
    int m = s.range(0, n);
    for (int k = 0; k < m; ++k) {
      if (h > 0 && s.chance(1, 2))
        add(s.range(0, h - 1), s.range(0, h - 1));
      else
        add(s.range(h, n - 1), s.range(h, n - 1));
    }
    break;
  }
  default: break;
  }
  // random edges: sparse, medium or dense
  int dens = s.range(0, 3);
  int mmax = shape ? n / 2 : dens == 0 ? n : dens == 1 ? 2 * n : dens == 2 ? 3 * n : n * n / 2 + 1;
  if (mmax > 400)
    mmax = 400;
  int m = s.range(0, mmax);
  for (int k = 0; k < m; ++k) {
    int u = s.range(0, n - 1), v = s.range(0, n - 1);
    if (o.parallel && !g.e.empty() && s.chance(1, 16)) { // repeat an edge
      auto& x = g.e[s.below(static_cast<uint32_t>(g.e.size()))];
      u       = x.u;
      v       = x.v;
    } else if (o.self_loops && s.chance(1, 24))
      v = u;
    add(u, v);
  }
  if (o.acyclic) {
    // orient along a random permutation, drop self-loops
    std::vector<int> pos(static_cast<size_t>(n));
    std::iota(pos.begin(), pos.end(), 0);
    if (s.chance(3, 4))
      for (int i = n - 1; i > 0; --i)
        std::swap(pos[static_cast<size_t>(i)], pos[static_cast<size_t>(s.range(0, i))]);
    std::vector<Edge> r;
    for (auto x : g.e) {
      if (x.u == x.v)
        continue;
      if (pos[static_cast<size_t>(x.u)] > pos[static_cast<size_t>(x.v)])
        std::swap(x.u, x.v);
      r.push_back(x);
    }
    g.e = std::move(r);
  }
  // relabel so that structured shapes do not always come with ordered ids
  if (shape && s.chance(1, 2)) {
    std::vector<int> p(static_cast<size_t>(n));
    std::iota(p.begin(), p.end(), 0);
    for (int i = n - 1; i > 0; --i)
      std::swap(p[static_cast<size_t>(i)], p[static_cast<size_t>(s.range(0, i))]);
    for (auto& x : g.e) {
      x.u = p[static_cast<size_t>(x.u)];
      x.v = p[static_cast<size_t>(x.v)];
    }
  }
  // shuffle the edge order sometimes
  if (s.chance(1, 3))
    for (int i = static_cast<int>(g.e.size()) - 1; i > 0; --i)
      std::swap(g.e[static_cast<size_t>(i)], g.e[static_cast<size_t>(s.range(0, i))]);
  if (!o.parallel) {
    if (o.symmetric) { // at most one undirected edge per pair
      std::set<std::pair<int, int>> seen;
      std::vector<Edge>             r;
      for (auto& x : g.e)
        if (seen.insert({std::min(x.u, x.v), std::max(x.u, x.v)}).second)
          r.push_back(x);
      g.e = std::move(r);
    } else
      dedup(g);
  }
  if (o.symmetric)
    symmetrize(g);
  if (o.symmetric && s.chance(1, 3))
    for (int i = static_cast<int>(g.e.size()) - 1; i > 0; --i)
      std::swap(g.e[static_cast<size_t>(i)], g.e[static_cast<size_t>(s.range(0, i))]);
  if (o.sorted)
    sort_by_source(g);
  return g;
}

// ------------------------------------------------------------------------------------- reference helpers
using Adj = std::vector<std::vector<std::pair<int, int>>>; // (target, weight)

inline std::vector<int> hops(const Adj& a, const std::vector<int>& src) {
  std::vector<int> d(a.size(), -1);
  std::queue<int>  q;
  for (int x : src)
    if (d[static_cast<size_t>(x)] < 0) {
      d[static_cast<size_t>(x)] = 0;
      q.push(x);
    }
  while (!q.empty()) {
    int u = q.front();
    q.pop();
    for (auto& [v, w] : a[static_cast<size_t>(u)])
      if (d[static_cast<size_t>(v)] < 0) {
        d[static_cast<size_t>(v)] = d[static_cast<size_t>(u)] + 1;
        q.push(v);
      }
  }
  return d;
}
inline std::vector<std::vector<char>> reach(const Adj& a) { // reflexive-transitive closure
  size_t                         n = a.size();
  std::vector<std::vector<char>> r(n, std::vector<char>(n, 0));
  for (size_t i = 0; i < n; ++i) {
    auto d = hops(a, {static_cast<int>(i)});
    for (size_t j = 0; j < n; ++j)
      r[i][j] = d[j] >= 0;
  }
  return r;
}
// component number per vertex, edges taken as undirected; -1 for vertices in skip
inline std::pair<int, std::vector<int>> components(const Adj& a, int skip = -1) {
  size_t           n = a.size();
  std::vector<int> p(n);
  std::iota(p.begin(), p.end(), 0);
  std::function<int(int)> find = [&](int x) {
    while (p[static_cast<size_t>(x)] != x)
      x = p[static_cast<size_t>(x)] = p[static_cast<size_t>(p[static_cast<size_t>(x)])];
    return x;
  };
  for (size_t u = 0; u < n; ++u)
    for (auto& [v, w] : a[u])
      if (static_cast<int>(u) != skip && v != skip)
        p[static_cast<size_t>(find(static_cast<int>(u)))] = find(v);
  std::vector<int>   c(n, -1);
  std::map<int, int> id;
  int                k = 0;
  for (size_t u = 0; u < n; ++u) {
    if (static_cast<int>(u) == skip)
      continue;
    int  r  = find(static_cast<int>(u));
    auto it = id.find(r);
    if (it == id.end())
      it = id.emplace(r, k++).first;
    c[u] = it->second;
  }
  return {k, c};
}
inline bool has_cycle(const Adj& a, const std::vector<char>* in = nullptr) {
  size_t           n = a.size();
  std::vector<int> indeg(n, 0);
  size_t           total = 0, done = 0;
  for (size_t u = 0; u < n; ++u) {
    if (in && !(*in)[u])
      continue;
    ++total;
    for (auto& [v, w] : a[u])
      if (!in || (*in)[static_cast<size_t>(v)])
        ++indeg[static_cast<size_t>(v)];
  }
  std::vector<size_t> st;
  for (size_t u = 0; u < n; ++u)
    if ((!in || (*in)[u]) && indeg[u] == 0)
      st.push_back(u);
  while (!st.empty()) {
    size_t u = st.back();
    st.pop_back();
    ++done;
    for (auto& [v, w] : a[u])
      if ((!in || (*in)[static_cast<size_t>(v)]) && --indeg[static_cast<size_t>(v)] == 0)
        st.push_back(static_cast<size_t>(v));
  }
  return done != total;
}
// do two labellings group the indices in the same way?
template <class A, class B>
bool same_partition(const A& a, const B& b, size_t n) {
  std::map<long long, long long> ab, ba;
  for (size_t i = 0; i < n; ++i) {
    long long x = static_cast<long long>(a[i]), y = static_cast<long long>(b[i]);
    auto [p, i1] = ab.emplace(x, y);
    auto [q, i2] = ba.emplace(y, x);
    if (p->second != y || q->second != x)
      return false;
  }
  return true;
}
} // namespace gen
