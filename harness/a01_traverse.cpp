// A01 (MODE=0) breadth-first and A02 (MODE=1) depth-first search: the exact sequence of visitor events.
#include "kinds_list.hpp"
#include <graph/algorithm/breadth_first_search.hpp>
#include <graph/algorithm/depth_first_search.hpp>
#ifndef MODE
#  define MODE 0
#endif

enum Ev : int { init, start, discover, examine, examine_edge, tree, back, cross, finish_edge, finish };
struct E {
  int  kind, a, b; // vertex, or source and position of an edge
  bool operator==(const E&) const = default;
};
using Log = std::vector<E>;
inline std::string show(const Log& l) {
  static const char* names[] = {"init", "start", "discover", "examine", "edge", "tree", "back", "cross", "edge-done", "finish"};
  std::ostringstream o;
  for (size_t i = 0; i < l.size() && i < 40; ++i) {
    o << names[l[i].kind] << ' ' << l[i].a;
    if (l[i].b >= 0) o << '#' << l[i].b;
    o << "; ";
  }
  return o.str();
}
template <class G>
struct Sink {
  const Lists<G>* L;
  G*              g;
  Log             log;
  template <class V> void vertex(int k, const V& x) {
    if constexpr (requires { x.vertex_id(); }) {
      auto id = static_cast<size_t>(graph::vertex_id(*g, x));
      if (id >= L->n() || !(L->vs[id] == x)) throw pbt::Fail{"an event names no vertex of the graph"};
      log.push_back({k, static_cast<int>(id), -1});
    } else
      log.push_back({k, static_cast<int>(x), -1});
  }
  template <class D> void edge(int k, const D& e) {
    auto [u, i] = L->find(*g, e);
    if (u < 0) throw pbt::Fail{"an event names an edge that is not in the graph"};
    log.push_back({k, u, i});
  }
};
#define VERTEX_EVENTS(T)                                                    \
  void on_initialize_vertex(const auto&, const T& x) { s->vertex(init, x); } \
  void on_start_vertex(const auto&, const T& x) { s->vertex(start, x); }     \
  void on_discover_vertex(const auto&, const T& x) { s->vertex(discover, x); } \
  void on_examine_vertex(const auto&, const T& x) { s->vertex(examine, x); } \
  void on_finish_vertex(const auto&, const T& x) { s->vertex(finish, x); }
#define EDGE_EVENTS(T)                                                     \
  void on_examine_edge(const auto&, const T& e) { s->edge(examine_edge, e); } \
  void on_tree_edge(const auto&, const T& e) { s->edge(tree, e); }          \
  void on_back_edge(const auto&, const T& e) { s->edge(back, e); }          \
  void on_forward_or_cross_edge(const auto&, const T& e) { s->edge(cross, e); } \
  void on_finish_edge(const auto&, const T& e) { s->edge(finish_edge, e); }
template <class G> struct HandleVisitor { Sink<G>* s; VERTEX_EVENTS(graph::vertex_t<G>) EDGE_EVENTS(graph::edge_t<G>) };
template <class G> struct IdVisitor { Sink<G>* s; VERTEX_EVENTS(graph::vertex_id_t<G>) EDGE_EVENTS(graph::edge_t<G>) };
template <class G> struct GenericVisitor { Sink<G>* s; VERTEX_EVENTS(auto) EDGE_EVENTS(auto) };
template <class G> struct EdgesOnly { Sink<G>* s; EDGE_EVENTS(graph::edge_t<G>) };
template <class G> struct Partial {
  Sink<G>* s;
  void on_discover_vertex(const auto&, const graph::vertex_id_t<G>& x) { s->vertex(discover, x); }
  void on_finish_vertex(const auto&, const graph::vertex_t<G>& x) { s->vertex(finish, x); }
  void on_tree_edge(const auto&, const graph::edge_t<G>& e) { s->edge(tree, e); }
};
inline Log only(const Log& l, std::initializer_list<int> ks) {
  Log r;
  for (auto& e : l)
    if (std::find(ks.begin(), ks.end(), e.kind) != ks.end()) r.push_back(e);
  return r;
}
inline Log without(const Log& l, std::initializer_list<int> ks) {
  Log r;
  for (auto& e : l)
    if (std::find(ks.begin(), ks.end(), e.kind) == ks.end()) r.push_back(e);
  return r;
}

#if MODE == 0
// Events of a breadth-first search, without initialization. Documented: a repeated source is discovered again.
template <class G>
Log reference(const Lists<G>& L, const std::vector<int>& src) {
  Log               l;
  std::vector<char> seen(L.n(), 0);
  std::deque<int>   q;
  for (int s : src) {
    l.push_back({discover, s, -1});
    seen[static_cast<size_t>(s)] = 1;
    q.push_back(s);
  }
  while (!q.empty()) {
    int u = q.front();
    q.pop_front();
    l.push_back({examine, u, -1});
    for (size_t k = 0; k < L.adj[static_cast<size_t>(u)].size(); ++k) {
      int v = L.adj[static_cast<size_t>(u)][k];
      l.push_back({examine_edge, u, static_cast<int>(k)});
      if (!seen[static_cast<size_t>(v)]) {
        seen[static_cast<size_t>(v)] = 1;
        l.push_back({discover, v, -1});
        q.push_back(v);
      }
    }
    l.push_back({finish, u, -1});
  }
  return l;
}
template <class G>
void check(Case& c, G& g) {
  Lists<G> L(g);
  using Id = graph::vertex_id_t<G>;
  int n    = static_cast<int>(L.n());
  if (n == 0) { // no source exists
    std::vector<Id> none;
    graph::breadth_first_search(g, none);
    return;
  }
  std::vector<int> src(static_cast<size_t>(c.s.range(c.s.chance(1, 8) ? 0 : 1, std::min(n, 4))));
  for (auto& x : src) x = c.s.range(0, n - 1);
  bool repeated = std::set<int>(src.begin(), src.end()).size() != src.size();
  if (repeated && c.s.chance(1, 2)) {
    std::set<int> s(src.begin(), src.end());
    src.assign(s.begin(), s.end());
    repeated = false;
  }
  c.desc << " from " << pbt::show(src);
  Log               want = reference(L, src), inits;
  for (int s : src) inits.push_back({init, s, -1});
  auto compare = [&](const char* what, const Log& got, const Log& expect) {
    PCHECK(got == expect, "breadth_first_search(" << what << "): events " << show(got) << " instead of " << show(expect));
  };
  std::vector<Id> ids;
  for (int s : src) ids.push_back(static_cast<Id>(s));
  auto run = [&](const char* what, auto call) {
    Sink<G> s{&L, &g, {}};
    switch (c.s.range(0, 4)) {
    case 0: { HandleVisitor<G> v{&s}; call(v); compare(what, only(s.log, {init}), inits); compare(what, without(s.log, {init}), want); break; }
    case 1: call(IdVisitor<G>{&s}); compare(what, only(s.log, {init}), inits); compare(what, without(s.log, {init}), want); break;
    case 2: { GenericVisitor<G> v{&s}; call(v); compare(what, only(s.log, {init}), inits); compare(what, without(s.log, {init}), want); break; }
    case 3: call(EdgesOnly<G>{&s}); compare(what, s.log, only(want, {examine_edge})); break;
    case 4: { Partial<G> v{&s}; call(v); compare(what, s.log, only(want, {discover, finish})); break; }
    }
  };
  run("sources", [&](auto&& v) { graph::breadth_first_search(g, ids, std::forward<decltype(v)>(v)); });
  if (c.s.chance(1, 2)) {
    std::list<Id> l(ids.begin(), ids.end());
    run("list of sources", [&](auto&& v) { graph::breadth_first_search(g, l, std::forward<decltype(v)>(v)); });
  }
  if (src.size() == 1) run("source", [&](auto&& v) { graph::breadth_first_search(g, ids[0], std::forward<decltype(v)>(v)); });
  // what the sequence means, from the list of edges alone
  auto              h = gen::hops([&] { gen::Adj a(L.n()); for (size_t i = 0; i < L.n(); ++i) for (int t : L.adj[i]) a[i].push_back({t, 0}); return a; }(), src);
  std::vector<int>  order;
  std::map<int,int> times;
  for (auto& e : want)
    if (e.kind == discover) order.push_back(e.a), times[e.a]++;
  for (size_t i = 0; i + 1 < order.size(); ++i) PCHECK(h[static_cast<size_t>(order[i])] <= h[static_cast<size_t>(order[i + 1])], "model: order is not by hops");
  for (int v = 0; v < n; ++v) PCHECK((h[static_cast<size_t>(v)] >= 0) == (times.count(v) > 0), "model: reached");
  if (repeated) c.label("repeated source");
  if (src.size() > 1) c.label("several sources");
  c.nontrivial = L.n() >= 3 && L.m >= 2 && !src.empty();
}
#else
template <class G>
struct Model {
  const Lists<G>&   L;
  Log               l{};
  std::vector<char> color;
  void visit(int u) {
    color[static_cast<size_t>(u)] = 1;
    l.push_back({discover, u, -1});
    for (size_t k = 0; k < L.adj[static_cast<size_t>(u)].size(); ++k) {
      int v = L.adj[static_cast<size_t>(u)][k], kk = static_cast<int>(k);
      l.push_back({examine_edge, u, kk});
      if (color[static_cast<size_t>(v)] == 0) {
        l.push_back({tree, u, kk});
        visit(v);
      } else
        l.push_back({color[static_cast<size_t>(v)] == 1 ? back : cross, u, kk});
    }
    color[static_cast<size_t>(u)] = 2;
    l.push_back({finish, u, -1});
  }
};
template <class G>
void check(Case& c, G& g) {
  Lists<G> L(g);
  using Id = graph::vertex_id_t<G>;
  int n    = static_cast<int>(L.n());
  if (n == 0) return;
  int source = c.s.range(0, n - 1);
  c.desc << " from " << source;
  Model<G> M{L, {}, std::vector<char>(L.n(), 0)};
  M.visit(source);
  Log& want = M.l;
  Log  first{{init, source, -1}, {start, source, -1}};
  auto compare = [&](const char* what, const Log& got, const Log& expect) {
    PCHECK(got == expect, "depth_first_search(" << what << "): events " << show(got) << " instead of " << show(expect));
  };
  auto full = [&](const char* what, const Log& log) {
    compare(what, only(log, {init, start}), first);
    compare(what, without(log, {init, start, finish_edge}), want);
    Log done = only(log, {finish_edge}), edges = only(want, {examine_edge});
    for (auto& e : edges) e.kind = finish_edge;
    auto less = [](const E& x, const E& y) { return std::tie(x.a, x.b) < std::tie(y.a, y.b); };
    std::sort(done.begin(), done.end(), less);
    std::sort(edges.begin(), edges.end(), less);
    compare(what, done, edges); // each examined edge is finished once
  };
  auto run = [&](const char* what, int form, auto call) {
    Sink<G> s{&L, &g, {}};
    switch (form) {
    case 0: { HandleVisitor<G> v{&s}; call(v); full(what, s.log); break; }
    case 1: call(IdVisitor<G>{&s}); full(what, s.log); break;
    case 2: { GenericVisitor<G> v{&s}; call(v); full(what, s.log); break; }
    case 3: call(EdgesOnly<G>{&s}); compare(what, without(s.log, {finish_edge}), only(want, {examine_edge, tree, back, cross})); break;
    case 4: { Partial<G> v{&s}; call(v); compare(what, s.log, only(want, {discover, tree, finish})); break; }
    }
  };
  int a = c.s.range(0, 4), b = c.s.range(0, 4);
  run("source", a, [&](auto&& v) { graph::depth_first_search(g, static_cast<Id>(source), std::forward<decltype(v)>(v)); });
  run("source again", b, [&](auto&& v) { graph::depth_first_search(g, static_cast<Id>(source), std::forward<decltype(v)>(v)); });
  if (!only(want, {back}).empty()) c.label("back edge");
  if (!only(want, {cross}).empty()) c.label("forward or cross edge");
  c.nontrivial = L.n() >= 3 && L.m >= 2;
}
#endif
template <class G>
void run(Case& c) {
  gen::Opt o;
  o.max_n  = 8;
  o.big_n  = 40;
  MGraph m = algo_graph<G>(c, o);
  for (size_t i = 0; i < m.e.size(); ++i) m.e[i].w = static_cast<int>(i % 200) + 1;
  c.desc << gen::str(m);
  G g = make<G>(m);
  if constexpr (graph::adj_list::index_adjacency_list<const G>)
    if (c.s.chance(1, 5)) return check<const G>(c, g);
  check<G>(c, g);
}
struct Trav {
  template <class G> static constexpr bool accepts = algo_kind<G>;
  template <class G> static void run(Case& c) { ::run<G>(c); }
};
RegisterKinds<Trav> reg_;
