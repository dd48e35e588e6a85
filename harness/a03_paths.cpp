// A03 (MODE=0) Dijkstra and A04 (MODE=1) Bellman-Ford against label correcting over the listed edges.
#include "kinds_list.hpp"
#include <graph/algorithm/bellman_ford_shortest_paths.hpp>
#include <graph/algorithm/dijkstra_shortest_paths.hpp>
#ifndef MODE
#  define MODE 0
#endif

struct Best {
  std::vector<std::optional<long>> d;
  bool                             cycle = false; // a reachable negative one
};
template <class G>
struct Problem {
  const Lists<G>&                L;
  std::vector<std::vector<int>>  w; // as the lists
  bool                           widest = false; // combine is max, else plus
  long combine(long a, long b) const { return widest ? std::max(a, b) : a + b; }
  Best solve(const std::vector<int>& src) const {
    Best b{std::vector<std::optional<long>>(L.n())};
    for (int s : src) b.d[static_cast<size_t>(s)] = 0;
    bool changed = true;
    for (size_t round = 0; changed && round <= L.n(); ++round) {
      changed = false;
      for (size_t u = 0; u < L.n(); ++u)
        if (b.d[u])
          for (size_t k = 0; k < L.adj[u].size(); ++k) {
            auto& t = b.d[static_cast<size_t>(L.adj[u][k])];
            long  x = combine(*b.d[u], w[u][k]);
            if (!t || x < *t) t = x, changed = true;
          }
    }
    b.cycle = changed;
    return b;
  }
};
template <class G>
struct Log {
  const Lists<G>*                L;
  G*                             g;
  std::map<int, int>             init, discovered, examined, finished;
  std::map<std::pair<int, int>, int> examined_edge, relaxed, not_relaxed, minimized, not_minimized;
  template <class V> void vertex(std::map<int, int>& m, const V& x) {
    if constexpr (requires { x.vertex_id(); }) {
      auto id = static_cast<size_t>(graph::vertex_id(*g, x));
      if (id >= L->n() || !(L->vs[id] == x)) throw pbt::Fail{"an event names no vertex of the graph"};
      m[static_cast<int>(id)]++;
    } else
      m[static_cast<int>(x)]++;
  }
  template <class D> void edge(std::map<std::pair<int, int>, int>& m, const D& e) {
    auto p = L->find(*g, e);
    if (p.first < 0) throw pbt::Fail{"an event names an edge that is not in the graph"};
    m[p]++;
  }
};
#define EVENTS(T)                                                                  \
  void on_initialize_vertex(const auto&, const T& x) { s->vertex(s->init, x); }     \
  void on_discover_vertex(const auto&, const T& x) { s->vertex(s->discovered, x); } \
  void on_examine_vertex(const auto&, const T& x) { s->vertex(s->examined, x); }    \
  void on_finish_vertex(const auto&, const T& x) { s->vertex(s->finished, x); }     \
  void on_examine_edge(const auto&, const graph::edge_t<G>& e) { s->edge(s->examined_edge, e); } \
  void on_edge_relaxed(const auto&, const graph::edge_t<G>& e) { s->edge(s->relaxed, e); }       \
  void on_edge_not_relaxed(const auto&, const graph::edge_t<G>& e) { s->edge(s->not_relaxed, e); } \
  void on_edge_minimized(const auto&, const graph::edge_t<G>& e) { s->edge(s->minimized, e); }     \
  void on_edge_not_minimized(const auto&, const graph::edge_t<G>& e) { s->edge(s->not_minimized, e); }
template <class G> struct HandleVisitor { Log<G>* s; EVENTS(graph::vertex_t<G>) };
template <class G> struct IdVisitor { Log<G>* s; EVENTS(graph::vertex_id_t<G>) };
inline long total(const auto& m) {
  long r = 0;
  for (auto& [k, x] : m) r += x;
  return r;
}
template <class Dist>
struct Combine {
  bool                                 widest;
  template <class W> constexpr Dist operator()(const Dist& a, const W& b) const {
    return widest ? std::max(a, static_cast<Dist>(b)) : static_cast<Dist>(a + b);
  }
};

template <class Dist, class G>
void check(Case& c, G& g, bool with_negative) {
  Lists<G> L(g);
  using Id = graph::vertex_id_t<G>;
  using P  = int; // what the predecessors are kept in
  int        n = static_cast<int>(L.n());
  Problem<G> p{L, {}};
  int        scale = c.s.chance(1, 6) && n <= 40 ? 100000 : 1;
  if (sizeof(Dist) < 4) scale = 1;
  bool own = has_ev<std::remove_const_t<G>>() && c.s.chance(1, 2); // the edges' own values
  for (size_t u = 0; u < L.n(); ++u) {
    p.w.emplace_back();
    for (auto& e : L.es[u]) {
      int x = c.s.chance(1, 3) ? c.s.range(0, 2) : c.s.range(0, 9);
      if constexpr (has_ev<std::remove_const_t<G>>())
        if (own) x = as_int(graph::edge_value(g, e));
      (void)e;
      if (!own && with_negative && c.s.chance(1, 4)) x = -x;
      p.w.back().push_back(own ? x : x * scale);
    }
  }
  c.desc << " weights ";
  for (auto& x : p.w) c.desc << pbt::show(x);
  std::vector<int> src;
  if (n > 0) {
    src.resize(static_cast<size_t>(c.s.range(c.s.chance(1, 10) ? 0 : 1, std::min(n, 3))));
    for (auto& x : src) x = c.s.range(0, n - 1);
  }
  bool repeated = std::set<int>(src.begin(), src.end()).size() != src.size();
  c.desc << " from " << pbt::show(src);
  bool some_negative = false;
  for (auto& l : p.w)
    for (int x : l) some_negative = some_negative || x < 0;
  p.widest = !some_negative && c.s.chance(1, 4);
  if (p.widest) c.desc << " widest";
  Best want = p.solve(src);
  bool bad  = false; // a negative weight in reach
  for (size_t u = 0; u < L.n(); ++u)
    if (want.d[u])
      for (int x : p.w[u]) bad = bad || x < 0;
  constexpr Dist inf = std::numeric_limits<Dist>::max();

  auto value = [&](const auto&, const graph::edge_t<G>& e) -> int {
    auto [u, k] = L.find(g, e);
    if (u < 0) throw pbt::Fail{"the weight function was given an edge that is not in the graph"};
    return p.w[static_cast<size_t>(u)][static_cast<size_t>(k)];
  };
  auto refer = [&](const auto&, const graph::edge_t<G>& e) -> const int& {
    auto [u, k] = L.find(g, e);
    if (u < 0) throw pbt::Fail{"the weight function was given an edge that is not in the graph"};
    return p.w[static_cast<size_t>(u)][static_cast<size_t>(k)];
  };
  std::vector<Id> ids;
  for (int s : src) ids.push_back(static_cast<Id>(s));
  size_t            extra = static_cast<size_t>(c.s.chance(1, 4) ? c.s.range(1, 3) : 0);
  std::vector<Dist> dist;
  std::vector<P>    pred;
  auto reset = [&] {
    dist.assign(L.n(), Dist(7));
    pred.assign(L.n(), P(-1));
    if (c.s.chance(1, 2)) {
      graph::init_shortest_paths(dist, pred);
    } else {
      graph::init_shortest_paths(dist);
      std::iota(pred.begin(), pred.end(), 0);
    }
    for (size_t i = 0; i < L.n(); ++i) PCHECK(dist[i] == inf && pred[i] == static_cast<int>(i), "init_shortest_paths");
    for (size_t i = 0; i < extra; ++i) dist.push_back(Dist(5)), pred.push_back(-3);
  };
  auto distances_right = [&](const char* what) {
    for (size_t v = 0; v < L.n(); ++v) {
      Dist expect = want.d[v] ? static_cast<Dist>(*want.d[v]) : inf;
      PCHECK(dist[v] == expect, what << ": distance of " << v << " is " << +dist[v] << " instead of " << +expect);
    }
    for (size_t i = 0; i < extra; ++i)
      PCHECK(dist[L.n() + i] == Dist(5) && pred[L.n() + i] == -3, what << ": wrote beyond the vertices");
  };
  auto tree_right = [&](const char* what) {
    for (size_t v = 0; v < L.n(); ++v) {
      if (!want.d[v]) {
        PCHECK(pred[v] == static_cast<int>(v), what << ": predecessor of unreachable " << v << " was set to " << pred[v]);
        continue;
      }
      size_t x = v;
      for (int steps = 0; pred[x] != static_cast<int>(x); ++steps) {
        PCHECK(steps <= n, what << ": predecessors of " << v << " go round");
        int q = pred[x];
        PCHECK(q >= 0 && q < n && want.d[static_cast<size_t>(q)], what << ": predecessor of " << x << " is " << q);
        bool ok = false;
        for (size_t k = 0; k < L.adj[static_cast<size_t>(q)].size(); ++k)
          ok = ok || (L.adj[static_cast<size_t>(q)][k] == static_cast<int>(x) &&
                      p.combine(*want.d[static_cast<size_t>(q)], p.w[static_cast<size_t>(q)][k]) == *want.d[x]);
        PCHECK(ok, what << ": no edge from predecessor " << q << " gives " << x << " its distance");
        x = static_cast<size_t>(q);
      }
      PCHECK(std::find(src.begin(), src.end(), static_cast<int>(x)) != src.end(), what << ": predecessors of " << v << " end at " << x << ", not a source");
    }
  };
  // every call form
  Log<G>           log{&L, &g, {}, {}, {}, {}, {}, {}, {}, {}, {}};
  HandleVisitor<G> hv{&log};
  IdVisitor<G>     iv{&log};
  Combine<Dist>    combine{p.widest};
  std::list<int>   listed(src.begin(), src.end());
  int              form   = src.size() == 1 ? c.s.range(0, 4) : c.s.range(0, 2);
  bool             paths  = form != 2 && form != 4;
  bool             logged = form != 4;
  std::optional<Id> found;
  std::less<Dist>  less;
  auto real = [&](const auto&, const graph::edge_t<G>& e) {
    auto [u, k] = L.find(g, e);
    return static_cast<std::conditional_t<std::is_floating_point_v<Dist>, double, short>>(p.w[static_cast<size_t>(u)][static_cast<size_t>(k)]);
  };
  if (scale > 1 && !std::is_floating_point_v<Dist> && form == 4) form = 3, paths = true, logged = true;
  auto go = [&] {
#if MODE == 0
    switch (form) {
    case 0: graph::dijkstra_shortest_paths(g, ids, dist, pred, value, hv, less, combine); break;
    case 1: graph::dijkstra_shortest_paths(g, listed, dist, pred, refer, iv, less, combine); break;
    case 2: graph::dijkstra_shortest_distances(g, ids, dist, refer, hv, less, combine); break;
    case 3: graph::dijkstra_shortest_paths(g, ids[0], dist, pred, value, iv, less, combine); break;
    case 4: graph::dijkstra_shortest_distances(g, ids[0], dist, real, graph::empty_visitor(), less, combine); break;
    }
#else
    switch (form) {
    case 0: found = graph::bellman_ford_shortest_paths(g, ids, dist, pred, value, hv, less, combine); break;
    case 1: found = graph::bellman_ford_shortest_paths(g, listed, dist, pred, refer, iv, less, combine); break;
    case 2: found = graph::bellman_ford_shortest_distances(g, ids, dist, refer, hv, less, combine); break;
    case 3: found = graph::bellman_ford_shortest_paths(g, ids[0], dist, pred, value, iv, less, combine); break;
    case 4: found = graph::bellman_ford_shortest_distances(g, ids[0], dist, real, graph::empty_visitor(), less, combine); break;
    }
#endif
  };
  const char* what =
#if MODE == 0
        paths ? "dijkstra_shortest_paths" : "dijkstra_shortest_distances";
#else
        paths ? "bellman_ford_shortest_paths" : "bellman_ford_shortest_distances";
#endif
  reset();
#if MODE == 0
  bool threw = false;
  try { go(); } catch (const std::out_of_range&) { threw = true; }
  PCHECK(threw == bad, what << (bad ? ": a negative weight in reach was not rejected" : ": rejected without a negative weight in reach"));
  if (!threw) {
    distances_right(what);
    if (paths) tree_right(what);
    if (logged) {
      for (int v = 0; v < n; ++v) {
        bool in = want.d[static_cast<size_t>(v)].has_value();
        PCHECK(log.init[v] == 1, what << ": vertex " << v << " initialized " << log.init[v] << " times");
        if (!repeated) PCHECK(log.discovered[v] == in, what << ": vertex " << v << " discovered " << log.discovered[v] << " times");
        PCHECK((log.examined[v] > 0) == in && log.examined[v] == log.finished[v], what << ": vertex " << v << " examined " << log.examined[v] << " times and finished " << log.finished[v] << " times");
        for (size_t k = 0; k < L.adj[static_cast<size_t>(v)].size(); ++k) {
          std::pair<int, int> e{v, static_cast<int>(k)};
          PCHECK(log.examined_edge[e] == log.examined[v], what << ": edge " << v << '#' << k << " examined " << log.examined_edge[e] << " times, its source " << log.examined[v] << " times");
          PCHECK(log.relaxed[e] + log.not_relaxed[e] == log.examined_edge[e], what << ": edge " << v << '#' << k << " examined " << log.examined_edge[e] << " times but reported " << log.relaxed[e] << " + " << log.not_relaxed[e]);
        }
      }
      for (int v = 0; v < n; ++v) { // a vertex other than a source gets a finite distance by relaxing an edge to it
        long into = 0;
        for (auto& [e, k] : log.relaxed)
          if (L.adj[static_cast<size_t>(e.first)][static_cast<size_t>(e.second)] == v) into += k;
        bool is_src = std::find(src.begin(), src.end(), v) != src.end();
        PCHECK((into > 0) == (want.d[static_cast<size_t>(v)].has_value() && !is_src), what << ": " << into << " relaxed edges into " << v);
      }
    }
  } else
    c.label("negative weight");
#else
  go();
  PCHECK(found.has_value() == want.cycle, what << (want.cycle ? ": missed a reachable negative cycle" : ": reported a negative cycle where none is in reach"));
  if (!found) {
    distances_right(what);
    if (paths) {
      tree_right(what);
      std::vector<Id> none;
      graph::find_negative_cycle(g, pred, found, std::back_inserter(none));
      PCHECK(none.empty(), "find_negative_cycle found a cycle where none was reported");
    }
  } else {
    c.label("negative cycle");
    PCHECK(static_cast<size_t>(*found) < L.n() && want.d[static_cast<size_t>(*found)], what << ": cycle vertex " << +*found << " is not in reach");
    if (paths) {
      std::vector<int> cyc;
      struct Bounded {
        using iterator_category = std::output_iterator_tag;
        using difference_type   = std::ptrdiff_t;
        using value_type        = void;
        std::vector<int>* out;
        size_t            most;
        Bounded&          operator*() { return *this; }
        Bounded&          operator++() { return *this; }
        Bounded           operator++(int) { return *this; }
        Bounded&          operator=(const Id& x) {
          if (out->size() >= most) throw pbt::Fail{"find_negative_cycle does not stop: the reported vertex is not on a cycle of predecessors"};
          out->push_back(static_cast<int>(x));
          return *this;
        }
      };
      graph::find_negative_cycle(g, pred, found, Bounded{&cyc, L.n()});
      PCHECK(!cyc.empty() && cyc[0] == static_cast<int>(*found), "find_negative_cycle starts with another vertex");
      PCHECK(std::set<int>(cyc.begin(), cyc.end()).size() == cyc.size(), "find_negative_cycle: vertex repeated in " << pbt::show(cyc));
      long weight = 0;
      for (size_t i = 0; i < cyc.size(); ++i) { // listed against the edges
        size_t             to = static_cast<size_t>(cyc[i]), from = static_cast<size_t>(cyc[(i + 1) % cyc.size()]);
        std::optional<int> least;
        for (size_t k = 0; k < L.adj[from].size(); ++k)
          if (L.adj[from][k] == static_cast<int>(to) && (!least || p.w[from][k] < *least)) least = p.w[from][k];
        PCHECK(least, "find_negative_cycle: no edge from " << from << " to " << to << " in " << pbt::show(cyc));
        weight += *least;
      }
      PCHECK(weight < 0, "find_negative_cycle: " << pbt::show(cyc) << " weighs " << weight);
    }
  }
  if (logged) {
    for (int v = 0; v < n; ++v)
      for (size_t k = 0; k < L.adj[static_cast<size_t>(v)].size(); ++k) {
        std::pair<int, int> e{v, static_cast<int>(k)};
        PCHECK(log.relaxed[e] + log.not_relaxed[e] == log.examined_edge[e] && log.examined_edge[e] > 0, what << ": edge " << v << '#' << k << " examined " << log.examined_edge[e] << " times but reported " << log.relaxed[e] << " + " << log.not_relaxed[e]);
      }
    PCHECK(total(log.not_minimized) == found.has_value(), what << ": " << total(log.not_minimized) << " edges reported as not at their minimum");
    for (int s : src) PCHECK(log.discovered[s] > 0, what << ": source " << s << " was not discovered");
  }
#endif
  // the default weight is one per edge
  if (c.s.chance(1, 4)) {
    auto keep = std::exchange(p.w, {});
    bool wide = std::exchange(p.widest, false);
    for (auto& l : L.adj) p.w.emplace_back(l.size(), 1);
    want = p.solve(src);
    reset();
#if MODE == 0
    graph::dijkstra_shortest_paths(g, ids, dist, pred);
#else
    PCHECK(!graph::bellman_ford_shortest_paths(g, ids, dist, pred), "negative cycle without weights");
#endif
    distances_right("without weights");
    tree_right("without weights");
    p.w      = keep;
    p.widest = wide;
  }
  // what must be rejected
  auto rejects = [&](const char* w, auto f) {
    bool t = false;
    try { f(); } catch (const std::out_of_range&) { t = true; }
    PCHECK(t, what << ": " << w << " was not rejected");
  };
  auto attempt = [&](const auto& sources) {
#if MODE == 0
    graph::dijkstra_shortest_paths(g, sources, dist, pred, value);
#else
    (void)graph::bellman_ford_shortest_paths(g, sources, dist, pred, value);
#endif
  };
  if (c.s.chance(1, 3)) {
    extra = 0;
    reset();
    std::list<int> l(src.begin(), src.end());
    l.insert(std::next(l.begin(), c.s.range(0, static_cast<int>(l.size()))), c.s.chance(1, 2) ? n : c.s.chance(1, 2) ? n + c.s.range(0, 300) : -1 - c.s.range(0, 3));
    if (!bad) rejects("a source outside the graph", [&] { attempt(l); });
    if (static_cast<unsigned long long>(n) <= static_cast<unsigned long long>(std::numeric_limits<Id>::max())) {
      Id out = static_cast<Id>(n);
      rejects("a single source outside the graph", [&] { attempt(out); });
    }
    if (n > 0) {
      reset();
      dist.resize(static_cast<size_t>(c.s.range(0, n - 1)));
      rejects("a short distance range", [&] { go(); });
      reset();
      pred.resize(static_cast<size_t>(c.s.range(0, n - 1)));
      if (paths) rejects("a short predecessor range", [&] { go(); });
    }
  }
  if (src.size() > 1) c.label("several sources");
  if (n > 0 && std::any_of(want.d.begin(), want.d.end(), [](auto& x) { return !x; })) c.label("unreachable vertices");
  c.nontrivial = L.n() >= 3 && L.m >= 3 && !src.empty();
}
template <class G>
void run(Case& c) {
  gen::Opt o;
  o.max_n = 8;
  o.big_n = 24;
  o.wlo   = 0;
  o.whi   = 9;
  bool negative = c.s.chance(MODE ? 2 : 1, MODE ? 3 : 6);
  if (negative) o.wlo = c.s.chance(1, 2) ? -3 : -9;
  MGraph m = algo_graph<G>(c, o);
  if (MODE && m.n > 40 && c.s.chance(3, 4)) m.n = 250; // dense rounds are slow; the whole range now and then
  m.e.erase(std::remove_if(m.e.begin(), m.e.end(), [&](auto& e) { return e.u >= m.n || e.v >= m.n; }), m.e.end());
  c.desc << gen::str(m);
  G g = make<G>(m);
  auto go = [&]<class D>(std::type_identity<D>) {
    if constexpr (std::is_same_v<D, int> && graph::adj_list::index_adjacency_list<const G>)
      if (c.s.chance(1, 4)) return check<D, const G>(c, g, negative);
    check<D, G>(c, g, negative);
  };
  using Other = std::conditional_t<UNIT % 4 == 0, double, std::conditional_t<UNIT % 4 == 1, short, std::conditional_t<UNIT % 4 == 2 || MODE, long, unsigned>>>;
  if (c.s.chance(1, 2) || (sizeof(Other) < 4 && m.n > 40)) {
    c.desc << " int";
    go(std::type_identity<int>());
  } else {
    c.desc << (UNIT % 4 == 0 ? " double" : UNIT % 4 == 1 ? " short" : UNIT % 4 == 2 || MODE ? " long" : " unsigned");
    go(std::type_identity<Other>());
  }
}
struct Paths {
  template <class G> static constexpr bool accepts = algo_kind<G>;
  template <class G> static void run(Case& c) { ::run<G>(c); }
};
RegisterKinds<Paths> reg_;
