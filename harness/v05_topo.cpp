// V05: topological views (forward and over incoming edges), checked variants, counters and cancellation.
#include "kinds.hpp"
#include <graph/views/topological_sort.hpp>
#include <memory_resource>
namespace vw = graph::views;
using vw::cancel_search;

template <class D>
struct ValueFn {
  std::shared_ptr<int> salt;
  std::string          pad;
  template <class G>
  long operator()(const G&, const D& d) const {
    if (pad.size() != 40) return -1;
    return static_cast<long>(std::hash<D>{}(d) * 31u + static_cast<size_t>(*salt));
  }
};
template <class G, bool In>
struct List {
  using VD = std::remove_cvref_t<decltype(*graph::vertices(std::declval<G&>()).begin())>;
  static auto list(G& g, const VD& u) {
    if constexpr (In) return graph::in_edges(g, u);
    else return graph::edges(g, u);
  }
  using ED = std::remove_cvref_t<decltype(*list(std::declval<G&>(), std::declval<VD>()).begin())>;
  std::vector<VD>               vs;
  std::vector<std::vector<ED>>  es;
  std::vector<std::vector<int>> adj; // successors in the direction followed
  std::vector<std::vector<char>> reach; // by at least one edge
  bool                          cyclic = false;
  explicit List(G& g) {
    for (auto u : graph::vertices(g)) {
      if (static_cast<size_t>(graph::vertex_id(g, u)) != vs.size()) throw pbt::Fail{"vertex ids are not 0, 1, ..."};
      vs.push_back(u);
      es.emplace_back();
      adj.emplace_back();
      for (auto uv : list(g, u)) {
        es.back().push_back(uv);
        if constexpr (In) {
          auto s = static_cast<size_t>(graph::source_id(g, uv));
          adj.back().push_back(static_cast<int>(s == vs.size() - 1 ? static_cast<size_t>(graph::target_id(g, uv)) : s));
        } else
          adj.back().push_back(static_cast<int>(graph::target_id(g, uv)));
      }
    }
    size_t n = vs.size();
    reach.assign(n, std::vector<char>(n, 0));
    for (size_t i = 0; i < n; ++i) {
      std::vector<int> st(adj[i].begin(), adj[i].end());
      while (!st.empty()) {
        auto x = static_cast<size_t>(st.back());
        st.pop_back();
        if (reach[i][x]) continue;
        reach[i][x] = 1;
        for (int y : adj[x]) st.push_back(y);
      }
      cyclic |= reach[i][i];
    }
  }
};

// One topological vertex view: the order it gives (validated), counters, repeated iteration, cancellation
template <class G, bool In, class Mk>
std::vector<int> vertex_view(Case& c, G& g, List<G, In>& L, Mk mk, long salt, const std::string& what) {
  using VD = typename List<G, In>::VD;
  size_t n = L.vs.size();
  auto   v = mk();
  PCHECK(static_cast<size_t>(v.size()) == n, what << ": size() is " << v.size() << " of " << n);
  PCHECK(v.num_visited() == 0 && v.cancel() == cancel_search::continue_search, what << ": state before iteration");
  auto element = [&](const auto& x) {
    using XT = std::remove_cvref_t<decltype(x)>;
    auto id  = static_cast<size_t>(graph::vertex_id(g, x.vertex));
    PCHECK(id < n && x.vertex == L.vs[id], what << ": handle of no vertex");
    if constexpr (requires(XT y) { y.value; })
      PCHECK(x.value == static_cast<long>(std::hash<VD>{}(x.vertex) * 31u + static_cast<size_t>(salt)), what << ": value of another vertex");
    return static_cast<int>(id);
  };
  std::vector<int> o;
  {
    auto it = v.begin();
    PCHECK(v.num_visited() == 0, what << ": begin() counts as a visit");
    for (; it != v.end();) {
      PCHECK(o.size() < n, what << ": yields more than " << n << " vertices");
      o.push_back(element(*it));
      PCHECK(element(*it) == o.back(), what << ": dereferencing twice");
      if (c.s.chance(1, 5)) {
        auto old = it++;
        PCHECK(element(*old) == o.back() && !(old == it), what << ": postfix ++");
      } else
        ++it;
      PCHECK(v.num_visited() == o.size(), what << ": num_visited() is " << v.num_visited() << " after " << o.size() << " vertices");
    }
  }
  std::vector<int> pos(n, -1);
  for (size_t i = 0; i < o.size(); ++i) {
    PCHECK(pos[static_cast<size_t>(o[i])] < 0, what << ": vertex " << o[i] << " yielded twice in " << pbt::show(o));
    pos[static_cast<size_t>(o[i])] = static_cast<int>(i);
  }
  PCHECK(o.size() == n, what << ": yields " << o.size() << " of " << n << " vertices");
  if (!L.cyclic)
    for (size_t u = 0; u < n; ++u)
      for (int t : L.adj[u])
        PCHECK(pos[u] < pos[static_cast<size_t>(t)], what << ": " << u << " comes after " << t << " in " << pbt::show(o));
  // again, by a range-for, a copy and algorithms
  std::vector<int> o2;
  for (auto&& x : v) o2.push_back(element(x));
  PCHECK(o2 == o, what << ": a second iteration yields another order");
  auto cp = v;
  o2.clear();
  for (auto&& x : cp) o2.push_back(element(x));
  PCHECK(o2 == o, what << ": a copy yields another order");
  // cancellation
  if (n) {
    auto w     = mk();
    auto stop  = static_cast<size_t>(c.s.range(0, static_cast<int>(n) - 1));
    auto how   = c.s.chance(1, 2) ? cancel_search::cancel_all : cancel_search::cancel_branch;
    o2.clear();
    for (auto&& x : w) {
      o2.push_back(element(x));
      if (o2.size() == stop + 1) {
        w.cancel(how);
        PCHECK(w.cancel() == how, what << ": cancel() does not report what was set");
      }
    }
    PCHECK(std::vector<int>(o.begin(), o.begin() + static_cast<long>(stop) + 1) == o2, what << ": cancelled at element " << stop << " it yields " << pbt::show(o2) << " of " << pbt::show(o));
  }
  return o;
}
template <class G, bool In, class Mk>
void edge_view(Case& c, G& g, List<G, In>& L, Mk mk, long salt, const std::string& what) {
  using ED = typename List<G, In>::ED;
  size_t n = L.vs.size(), m = 0, bare = 0;
  for (auto& e : L.es) m += e.size(), bare += e.empty();
  auto v = mk();
  PCHECK(v.num_visited() == 0 && v.cancel() == cancel_search::continue_search, what << ": state before iteration");
  using Id     = std::pair<size_t, size_t>; // vertex, slot
  auto element = [&](const auto& x) {
    using XT = std::remove_cvref_t<decltype(x)>;
    auto u   = static_cast<size_t>(x.edge.source_id()); // the vertex that lists it
    if constexpr (!In) PCHECK(u == static_cast<size_t>(graph::source_id(g, x.edge)), what << ": source of an edge");
    PCHECK(u < n, what << ": edge of no vertex");
    size_t k = 0;
    while (k < L.es[u].size() && !(L.es[u][k] == x.edge)) ++k;
    PCHECK(k < L.es[u].size(), what << ": yields a handle that is not an edge of vertex " << u);
    if constexpr (requires(XT y) { y.value; })
      PCHECK(x.value == static_cast<long>(std::hash<ED>{}(x.edge) * 31u + static_cast<size_t>(salt)), what << ": value of another edge");
    return Id{u, k};
  };
  std::vector<Id>  o;
  std::vector<int> left(n);
  for (size_t u = 0; u < n; ++u) left[u] = static_cast<int>(L.es[u].size());
  {
    auto   it   = v.begin();
    size_t full = 0, last = 0;
    PCHECK(v.num_visited() == 0, what << ": begin() counts as a visit");
    for (; it != v.end();) {
      PCHECK(o.size() < m, what << ": yields more than " << m << " edges");
      o.push_back(element(*it));
      full += --left[o.back().first] == 0;
      if (c.s.chance(1, 5)) {
        auto old = it++;
        PCHECK(element(*old) == o.back() && !(old == it), what << ": postfix ++");
      } else
        ++it;
      // sources whose edges have all been yielded; those without edges may be counted when they are passed
      PCHECK(v.num_visited() >= full && v.num_visited() <= full + bare && v.num_visited() >= last, what << ": num_visited() is " << v.num_visited() << " after all edges of " << full << " vertices");
      last = v.num_visited();
    }
  }
  PCHECK(o.size() == m, what << ": yields " << o.size() << " of " << m << " edges");
  {
    auto s = o;
    std::sort(s.begin(), s.end());
    PCHECK(std::unique(s.begin(), s.end()) == s.end(), what << ": yields an edge twice");
  }
  if (!L.cyclic) { // every edge into a vertex is yielded before every edge out of it
    std::vector<size_t> first(n, m), last_in(n, 0);
    std::vector<char>   has_in(n, 0);
    for (size_t i = 0; i < o.size(); ++i) {
      auto [u, k] = o[i];
      first[u]    = std::min(first[u], i);
      auto t      = static_cast<size_t>(L.adj[u][k]);
      last_in[t]  = i;
      has_in[t]   = 1;
    }
    for (size_t u = 0; u < n; ++u)
      if (has_in[u] && first[u] < m)
        PCHECK(last_in[u] < first[u], what << ": an edge into " << u << " comes after one out of it");
  }
  std::vector<Id> o2;
  for (auto&& x : v) o2.push_back(element(x));
  PCHECK(o2 == o, what << ": a second iteration yields another order");
  auto cp = v;
  o2.clear();
  for (auto&& x : cp) o2.push_back(element(x));
  PCHECK(o2 == o, what << ": a copy yields another order");
  if (m) {
    auto w    = mk();
    auto stop = static_cast<size_t>(c.s.range(0, static_cast<int>(m) - 1));
    auto how  = c.s.chance(1, 2) ? cancel_search::cancel_all : cancel_search::cancel_branch;
    o2.clear();
    for (auto&& x : w) {
      o2.push_back(element(x));
      if (o2.size() == stop + 1) w.cancel(how);
    }
    PCHECK(std::vector<Id>(o.begin(), o.begin() + static_cast<long>(stop) + 1) == o2, what << ": cancelled at element " << stop << " it yields " << o2.size() << " edges");
  }
}

template <class G, bool In>
void topo(Case& c, G& g) {
  using Acc = std::conditional_t<In, vw::in_edge_accessor, vw::out_edge_accessor>;
  List<G, In> L(g);
  using VD = typename List<G, In>::VD;
  using ED = typename List<G, In>::ED;
  auto        saltp = std::make_shared<int>(c.s.range(0, 100));
  std::string pad(40, 'x');
  ValueFn<VD> vvf{saltp, pad};
  ValueFn<ED> evf{saltp, pad};
  long        salt = *saltp;
  std::pmr::polymorphic_allocator<bool> pa;
  auto V = [&](auto mk, const char* w) { vertex_view<G, In>(c, g, L, mk, salt, w); };
  auto E = [&](auto mk, const char* w) { edge_view<G, In>(c, g, L, mk, salt, w); };
  auto VS = [&](auto mk, const char* w) {
    auto r = mk();
    PCHECK(r.has_value() == !L.cyclic, w << (L.cyclic ? ": accepts a graph with a cycle" : ": rejects an acyclic graph"));
    if (r.has_value()) vertex_view<G, In>(c, g, L, [&] { return *mk(); }, salt, w);
    else {
      auto x = static_cast<size_t>(graph::vertex_id(g, r.error()));
      PCHECK(x < L.vs.size() && L.reach[x][x], w << ": the error names vertex " << x << ", which is on no cycle");
    }
  };
  auto ES = [&](auto mk, const char* w) {
    auto r = mk();
    PCHECK(r.has_value() == !L.cyclic, w << (L.cyclic ? ": accepts a graph with a cycle" : ": rejects an acyclic graph"));
    if (r.has_value()) edge_view<G, In>(c, g, L, [&] { return *mk(); }, salt, w);
    else {
      auto x = static_cast<size_t>(graph::vertex_id(g, r.error()));
      PCHECK(x < L.vs.size() && L.reach[x][x], w << ": the error names vertex " << x << ", which is on no cycle");
    }
  };
  if constexpr (!In) {
    V([&] { return vw::vertices_topological_sort(g); }, "vertices(g)");
    E([&] { return vw::edges_topological_sort(g); }, "edges(g)");
    VS([&] { return vw::vertices_topological_sort_safe(g); }, "vertices_safe(g)");
    ES([&] { return vw::edges_topological_sort_safe(g); }, "edges_safe(g)");
    V([&] { return vw::vertices_topological_sort(g, vvf); }, "vertices(g,vvf)");
    E([&] { return vw::edges_topological_sort(g, evf); }, "edges(g,evf)");
    VS([&] { return vw::vertices_topological_sort_safe(g, vvf); }, "vertices_safe(g,vvf)");
    ES([&] { return vw::edges_topological_sort_safe(g, evf); }, "edges_safe(g,evf)");
    if (c.s.chance(1, 2)) {
      V([&] { return vw::vertices_topological_sort(g, pa); }, "vertices(g,alloc)");
      E([&] { return vw::edges_topological_sort(g, pa); }, "edges(g,alloc)");
      VS([&] { return vw::vertices_topological_sort_safe(g, pa); }, "vertices_safe(g,alloc)");
      ES([&] { return vw::edges_topological_sort_safe(g, pa); }, "edges_safe(g,alloc)");
      V([&] { return vw::vertices_topological_sort(g, vvf, pa); }, "vertices(g,vvf,alloc)");
      E([&] { return vw::edges_topological_sort(g, evf, pa); }, "edges(g,evf,alloc)");
      VS([&] { return vw::vertices_topological_sort_safe(g, vvf, pa); }, "vertices_safe(g,vvf,alloc)");
      ES([&] { return vw::edges_topological_sort_safe(g, evf, pa); }, "edges_safe(g,evf,alloc)");
    }
  }
  if (In || c.s.chance(1, 2)) {
    V([&] { return vw::vertices_topological_sort<Acc>(g); }, "vertices<accessor>(g)");
    E([&] { return vw::edges_topological_sort<Acc>(g); }, "edges<accessor>(g)");
    VS([&] { return vw::vertices_topological_sort_safe<Acc>(g); }, "vertices_safe<accessor>(g)");
    ES([&] { return vw::edges_topological_sort_safe<Acc>(g); }, "edges_safe<accessor>(g)");
    V([&] { return vw::vertices_topological_sort<Acc>(g, vvf); }, "vertices<accessor>(g,vvf)");
    E([&] { return vw::edges_topological_sort<Acc>(g, evf); }, "edges<accessor>(g,evf)");
    VS([&] { return vw::vertices_topological_sort_safe<Acc>(g, vvf); }, "vertices_safe<accessor>(g,vvf)");
    ES([&] { return vw::edges_topological_sort_safe<Acc>(g, evf); }, "edges_safe<accessor>(g,evf)");
  }
  size_t m = 0;
  for (auto& e : L.es) m += e.size();
  c.nontrivial = L.vs.size() >= 3 && m >= 2;
  c.label(L.cyclic ? "cyclic" : "acyclic");
  if (In) c.label("incoming");
}
template <class G>
void all(Case& c, G& g) {
  if constexpr (graph::adj_list::bidirectional_adjacency_list<G>)
    if (c.s.chance(1, 2)) return topo<G, true>(c, g);
  topo<G, false>(c, g);
}
template <class G>
void run(Case& c) {
  gen::Opt o;
  o.max_n   = 8;
  o.big_n   = 40;
  o.acyclic = c.s.chance(2, 3);
  MGraph m  = gen::graph(c.s, o);
  if (o.acyclic && m.n > 1 && c.s.chance(1, 6)) { // one edge that may close a single long cycle
    gen::Edge e{};
    e.u = c.s.range(0, m.n - 1);
    e.v = c.s.range(0, m.n - 1);
    m.e.insert(m.e.begin() + c.s.range(0, static_cast<int>(m.e.size())), e);
    if (is_compressed<G>::value) gen::sort_by_source(m);
  }
  for (size_t i = 0; i < m.e.size(); ++i) m.e[i].w = static_cast<int>(i) + 1;
  c.desc << gen::str(m);
  G g = make<G>(m);
  if constexpr (graph::adj_list::index_adjacency_list<const G>)
    if (c.s.chance(1, 5)) return all<const G>(c, g);
  all<G>(c, g);
}
struct Topo {
  template <class G>
  static constexpr bool accepts = graph::adj_list::index_adjacency_list<G>;
  template <class G>
  static void run(Case& c) { ::run<G>(c); }
};
RegisterKinds<Topo> reg_;
