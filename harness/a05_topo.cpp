// A05: topological sort of a graph or of what its sources reach.
#include "kinds_list.hpp"
#include <graph/algorithm/topological_sort.hpp>

template <class G>
void check(Case& c, const G& g) {
  Lists<const G> L(g);
  using Id = graph::vertex_id_t<G>;
  int  n   = static_cast<int>(L.n());
  auto verify = [&](const char* what, bool ok, const std::vector<int>& out, const std::vector<char>& part) {
    std::vector<int> indeg(L.n(), 0); // by removing vertices without incoming edges
    size_t           size = 0;
    for (size_t u = 0; u < L.n(); ++u)
      if (part[u]) {
        ++size;
        for (int v : L.adj[u]) indeg[static_cast<size_t>(v)]++;
      }
    std::vector<size_t> ready;
    for (size_t u = 0; u < L.n(); ++u)
      if (part[u] && !indeg[u]) ready.push_back(u);
    size_t removed = 0;
    while (!ready.empty()) {
      auto u = ready.back();
      ready.pop_back();
      ++removed;
      for (int v : L.adj[u])
        if (--indeg[static_cast<size_t>(v)] == 0) ready.push_back(static_cast<size_t>(v));
    }
    PCHECK(ok == (removed == size), "topological_sort(" << what << ") says " << (ok ? "acyclic" : "cyclic"));
    if (!ok) {
      c.label("cyclic");
      return;
    }
    c.label("acyclic");
    std::vector<int> at(L.n(), -1);
    for (size_t i = 0; i < out.size(); ++i) {
      PCHECK(out[i] >= 0 && out[i] < n, "topological_sort(" << what << ") outputs " << out[i]);
      auto v = static_cast<size_t>(out[i]);
      PCHECK(part[v], "topological_sort(" << what << ") outputs " << v << ", which no source reaches: " << pbt::show(out));
      PCHECK(at[v] < 0, "topological_sort(" << what << ") outputs " << v << " twice: " << pbt::show(out));
      at[v] = static_cast<int>(i);
    }
    PCHECK(out.size() == size, "topological_sort(" << what << ") outputs " << out.size() << " of " << size << " vertices: " << pbt::show(out));
    for (size_t u = 0; u < L.n(); ++u)
      if (part[u])
        for (int v : L.adj[u])
          PCHECK(at[u] < at[static_cast<size_t>(v)], "topological_sort(" << what << "): " << v << " before " << u << " despite the edge " << u << ">" << v << ": " << pbt::show(out));
  };
  auto reached = [&](const std::vector<int>& src) {
    std::vector<char>   in(L.n(), 0);
    std::vector<size_t> q;
    for (int s : src)
      if (!std::exchange(in[static_cast<size_t>(s)], 1)) q.push_back(static_cast<size_t>(s));
    while (!q.empty()) {
      auto u = q.back();
      q.pop_back();
      for (int v : L.adj[u])
        if (!std::exchange(in[static_cast<size_t>(v)], 1)) q.push_back(static_cast<size_t>(v));
    }
    return in;
  };
  auto ints = [](const auto& x) { return std::vector<int>(x.begin(), x.end()); };
  {
    std::vector<Id> out;
    bool            ok = graph::topological_sort(g, std::back_inserter(out));
    verify("graph", ok, ints(out), std::vector<char>(L.n(), 1));
  }
  if (n > 0) {
    int             s = c.s.range(0, n - 1);
    std::deque<int> out;
    bool            ok = graph::topological_sort(g, static_cast<Id>(s), std::back_inserter(out));
    c.desc << " from " << s;
    verify("source", ok, ints(out), reached({s}));
  }
  std::vector<int> src;
  if (n > 0) src.resize(static_cast<size_t>(c.s.range(c.s.chance(1, 6) ? 0 : 1, std::min(n, 5))));
  for (auto& x : src) x = c.s.range(0, n - 1);
  c.desc << " from " << pbt::show(src);
  auto part = reached(src);
  if (c.s.chance(1, 2)) {
    std::vector<Id> ids, out(L.n() + 1);
    for (int s : src) ids.push_back(static_cast<Id>(s));
    size_t size = static_cast<size_t>(std::count(part.begin(), part.end(), 1));
    bool   ok   = graph::topological_sort(g, ids, out.begin());
    out.resize(size);
    verify("sources", ok, ints(out), part);
  } else {
    std::list<int>  l(src.begin(), src.end());
    std::vector<Id> out;
    bool            ok = graph::topological_sort(g, l, std::back_inserter(out));
    verify("list of sources", ok, ints(out), part);
  }
  c.nontrivial = L.n() >= 3 && L.m >= 2;
}
template <class G>
void run(Case& c) {
  gen::Opt o;
  o.max_n   = 9;
  o.big_n   = 40;
  o.acyclic = c.s.chance(2, 3);
  MGraph m  = algo_graph<G>(c, o);
  if (o.acyclic && m.n > 1 && c.s.chance(1, 5)) { // one edge against the order
    gen::Edge e{};
    e.u = c.s.range(0, m.n - 1), e.v = c.s.range(0, m.n - 1);
    m.e.push_back(e);
    if (is_compressed<G>::value) gen::sort_by_source(m);
  }
  if (o.acyclic && c.s.chance(1, 2)) { // other ids
    std::vector<int> p(static_cast<size_t>(m.n));
    std::iota(p.begin(), p.end(), 0);
    for (size_t i = p.size(); i > 1; --i) std::swap(p[i - 1], p[static_cast<size_t>(c.s.range(0, static_cast<int>(i) - 1))]);
    for (auto& e : m.e) e.u = p[static_cast<size_t>(e.u)], e.v = p[static_cast<size_t>(e.v)];
    if (is_compressed<G>::value) gen::sort_by_source(m);
  }
  c.desc << gen::str(m);
  G g = make<G>(m);
  check<G>(c, g);
}
struct Topo {
  template <class G> static constexpr bool accepts = algo_kind<G> && algo_kind<const G>;
  template <class G> static void run(Case& c) { ::run<G>(c); }
};
RegisterKinds<Topo> reg_;
