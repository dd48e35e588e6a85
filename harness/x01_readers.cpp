// X01: reading a const graph writes nothing, and any number of threads can read it at once.
// The graph lives in an arena of its own that is read-only while it is being read (a write is a crash); then several
// threads ask the same questions at once, under the thread sanitizer, and each must get the answers asked alone.
#define PBT_PLAIN_SIGNALS
#include "kinds_list.hpp"
#include <sys/mman.h>
#include <atomic>
#include <random>
#include <thread>
#include <graph/algorithms.hpp>
#include <graph/views/basic_views.hpp>
#include <graph/views/edgelist.hpp>
#include <graph/views/bfs.hpp>
#include <graph/views/dfs.hpp>
#include <graph/views/topological_sort.hpp>
namespace vw = graph::views;
#if defined(__SANITIZE_THREAD__)
#  define TSAN 1
#elif defined(__has_feature)
#  if __has_feature(thread_sanitizer)
#    define TSAN 1
#  endif
#endif
#ifdef TSAN
extern "C" const char* __tsan_default_options() { return "halt_on_error=1:exitcode=66:history_size=4:report_thread_leaks=0"; }
#endif

namespace arena {
constexpr size_t size = size_t(4) << 20;
char*            base = nullptr;
size_t           used = 0;
bool             on   = false;
inline void open() {
  if (!base) base = static_cast<char*>(mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  mprotect(base, size, PROT_READ | PROT_WRITE);
  used = 0;
}
inline void* take(size_t n) {
  used = (used + 63) / 64 * 64;
  if (used + n > size) {
    std::fputs("arena full\n", stderr);
    std::abort();
  }
  void* p = base + used;
  used += n;
  return p;
}
inline bool has(void* p) { return base && p >= base && p < base + size; }
inline void lock(bool ro) { mprotect(base, size, ro ? PROT_READ : PROT_READ | PROT_WRITE); }
struct On {
  On() { on = true; }
  ~On() { on = false; }
};
} // namespace arena
void* operator new(size_t n) {
  if (arena::on) return arena::take(n);
  if (void* p = std::malloc(n ? n : 1)) return p;
  throw std::bad_alloc();
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, std::align_val_t) { return operator new(n); }
void  operator delete(void* p) noexcept {
  if (!arena::has(p)) std::free(p);
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { operator delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { operator delete(p); }

using Answer = std::vector<long>;
template <class T>
long num(const T& x) {
  if constexpr (requires { static_cast<long>(x); }) return static_cast<long>(x);
  else return static_cast<long>(std::hash<T>{}(x) & 0xffffff);
}
struct Op {
  const char*             name;
  std::function<Answer()> f;
};
struct Log { // a visitor of every event
  Answer a;
#define EV(F, K) void F(const auto&, const auto&) { a.push_back(K); }
  EV(on_initialize_vertex, 0) EV(on_start_vertex, 1) EV(on_discover_vertex, 2) EV(on_examine_vertex, 3) EV(on_finish_vertex, 4)
  EV(on_examine_edge, 5) EV(on_tree_edge, 6) EV(on_back_edge, 7) EV(on_forward_or_cross_edge, 8) EV(on_finish_edge, 9)
  EV(on_edge_relaxed, 10) EV(on_edge_not_relaxed, 11) EV(on_edge_minimized, 12) EV(on_edge_not_minimized, 13)
#undef EV
};

// The questions that can be asked of a const graph. at: position of a vertex; salt: any number.
template <class G0>
std::vector<Op> questions(const G0& g, size_t n, size_t at, unsigned salt) {
  using G = const G0;
  using Lst = Lists<const G0>;
  using VD  = typename Lst::VD;
  using ED  = typename Lst::ED;
  std::vector<Op> q;
  auto nth = [&g](size_t k) {
    auto vs = graph::vertices(g);
    auto it = vs.begin();
    while (k--) ++it;
    return *it;
  };
  auto edge = [&g](Answer& a, const ED& e) {
    a.push_back(num(graph::target_id(g, e)));
    if constexpr (requires { graph::source_id(g, e); }) a.push_back(num(graph::source_id(g, e)));
    if constexpr (has_ev<G0>()) {
      if constexpr (requires { as_int(graph::edge_value(g, e)); }) a.push_back(as_int(graph::edge_value(g, e)));
    }
  };
  q.push_back({"the graph enumerated", [=, &g] {
                 Answer a;
                 for (auto u : graph::vertices(g)) {
                   a.push_back(num(graph::vertex_id(g, u)));
                   if constexpr (has_vv<G0>()) {
                     if constexpr (requires { as_int(graph::vertex_value(g, u)); }) a.push_back(as_int(graph::vertex_value(g, u)));
                   }
                   if constexpr (requires { graph::degree(g, u); }) a.push_back(num(graph::degree(g, u)));
                   for (auto uv : graph::edges(g, u)) edge(a, uv);
                 }
                 return a;
               }});
  q.push_back({"counts", [=, &g] {
                 Answer a;
                 a.push_back(num(graph::num_vertices(g)));
                 if constexpr (requires { graph::num_edges(g); }) a.push_back(num(graph::num_edges(g)));
                 if constexpr (requires { graph::has_edges(g); }) a.push_back(graph::has_edges(g));
                 if constexpr (requires { graph::num_partitions(g); }) a.push_back(num(graph::num_partitions(g)));
                 if constexpr (requires { graph::graph_value(g); }) {
                   if constexpr (requires { as_int(graph::graph_value(g)); }) a.push_back(as_int(graph::graph_value(g)));
                 }
                 return a;
               }});
  if (n) {
    q.push_back({"one vertex looked up", [=, &g] {
                   Answer a;
                   auto   id = graph::vertex_id(g, nth(at));
                   auto   it = graph::find_vertex(g, id);
                   a.push_back(num(graph::vertex_id(g, *it)));
                   if constexpr (requires { graph::edges(g, id); })
                     for (auto uv : graph::edges(g, id)) edge(a, uv);
                   if constexpr (requires { graph::degree(g, id); }) a.push_back(num(graph::degree(g, id)));
                   if constexpr (requires { graph::num_edges(g, id); }) a.push_back(num(graph::num_edges(g, id)));
                   if constexpr (requires { graph::partition_id(g, *it); }) a.push_back(num(graph::partition_id(g, *it)));
                   return a;
                 }});
    q.push_back({"edges looked up", [=, &g] {
                   Answer a;
                   auto   u  = nth(at);
                   auto   ui = graph::vertex_id(g, u);
                   for (auto v : graph::vertices(g)) {
                     auto vi = graph::vertex_id(g, v);
                     if constexpr (requires { graph::contains_edge(g, ui, vi); }) a.push_back(graph::contains_edge(g, ui, vi));
                     if constexpr (requires { graph::contains_edge(g, u, v); }) {
                       a.push_back(graph::contains_edge(g, u, v));
                       if constexpr (requires { edge(a, graph::find_vertex_edge(g, u, v)); })
                         if (a.back()) edge(a, graph::find_vertex_edge(g, u, v));
                     }
                   }
                   return a;
                 }});
    if constexpr (requires { graph::in_edges(g, nth(0)); })
      q.push_back({"incoming edges", [=, &g] {
                     Answer a;
                     for (auto u : graph::vertices(g)) {
                       for (auto uv : graph::in_edges(g, u)) {
                         if constexpr (requires { graph::source_id(g, uv); }) a.push_back(num(graph::source_id(g, uv)));
                         else a.push_back(1);
                       }
                       if constexpr (requires { graph::in_degree(g, u); }) a.push_back(num(graph::in_degree(g, u)));
                     }
                     return a;
                   }});
  }
  if constexpr (!std::is_same_v<G0, gc::undirected_adjacency_list<long, int, void, uint32_t, std::deque>>) // doesn't compile
  q.push_back({"a copy", [=, &g] {
                 Answer a;
                 G0     h(g);
                 for (auto u : graph::vertices(h)) {
                   a.push_back(num(graph::vertex_id(h, u)));
                   for (auto uv : graph::edges(h, u)) a.push_back(num(graph::target_id(h, uv)));
                 }
                 std::sort(a.begin(), a.end());
                 return a;
               }});
  // views
  auto elem = [&g](Answer& a, const auto& x) {
    using T = std::remove_cvref_t<decltype(x)>;
    if constexpr (requires { graph::vertex_id(g, x.vertex); }) a.push_back(num(graph::vertex_id(g, x.vertex)));
    if constexpr (requires { x.id; }) a.push_back(num(x.id));
    if constexpr (requires { x.source_id; }) a.push_back(num(x.source_id));
    if constexpr (requires { x.target_id; }) a.push_back(num(x.target_id));
    if constexpr (requires { graph::target_id(g, x.edge); }) a.push_back(num(graph::target_id(g, x.edge)));
    if constexpr (requires(T y) { static_cast<long>(y.value); }) a.push_back(static_cast<long>(x.value));
  };
  auto vvf = [salt](const auto& gg, const VD& u) { return static_cast<long>((static_cast<size_t>(num(graph::vertex_id(gg, u))) * 7 + salt) % 1000); };
  auto evf = [salt](const auto& gg, const ED& e) { return static_cast<long>((static_cast<size_t>(num(graph::target_id(gg, e))) * 5 + salt) % 1000); };
  auto view = [&](const char* name, auto mk) {
    if constexpr (requires { mk().begin(); })
      q.push_back({name, [mk, elem] {
                     Answer a;
                     auto   v = mk();
                     for (auto&& x : v) elem(a, x);
                     return a;
                   }});
  };
  view("vertexlist", [=, &g] { return vw::vertexlist(g, vvf); });
  view("basic vertexlist", [=, &g] { return vw::basic_vertexlist(g); });
  view("edgelist", [=, &g] { return vw::edgelist(g, evf); });
  view("basic edgelist", [=, &g] { return vw::basic_edgelist(g); });
  if (n) {
    view("incidence", [=, &g] { return vw::incidence(g, nth(at), evf); });
    view("neighbors", [=, &g] { return vw::neighbors(g, nth(at), vvf); });
    if constexpr (algo_kind<const G0>) {
      auto id = static_cast<graph::vertex_id_t<G>>(at);
      view("vertices_dfs", [=, &g] { return vw::vertices_dfs(g, id, vvf); });
      view("edges_dfs", [=, &g] { return vw::edges_dfs(g, id, evf); });
      view("vertices_bfs", [=, &g] { return vw::vertices_bfs(g, id, vvf); });
      view("edges_bfs", [=, &g] { return vw::edges_bfs(g, id, evf); });
    }
  }
  if constexpr (algo_kind<const G0>) {
    view("vertices_topological_sort", [=, &g] { return vw::vertices_topological_sort(g, vvf); });
    view("edges_topological_sort", [=, &g] { return vw::edges_topological_sort(g, evf); });
    // algorithms
    using Id    = graph::vertex_id_t<G>;
    auto weight = [](const auto& gg, const graph::edge_t<G>& e) {
      if constexpr (has_ev<G0>()) return static_cast<long>(as_int(graph::edge_value(gg, e)));
      else return 1L + 0 * static_cast<long>(graph::target_id(gg, e));
    };
    Id s = static_cast<Id>(at);
    if (n) {
      q.push_back({"breadth_first_search", [=, &g] { Log v; graph::breadth_first_search(g, s, v); return v.a; }});
      q.push_back({"depth_first_search", [=, &g] { Log v; graph::depth_first_search(g, s, v); return v.a; }});
      auto paths = [&](const char* name, auto call) {
        q.push_back({name, [=] {
                       std::vector<long> d(n);
                       std::vector<Id>   p(n);
                       graph::init_shortest_paths(d, p);
                       call(d, p);
                       for (auto x : p) d.push_back(static_cast<long>(x));
                       return Answer(d);
                     }});
      };
      paths("dijkstra_shortest_paths", [=, &g](auto& d, auto& p) { graph::dijkstra_shortest_paths(g, s, d, p, weight); });
      paths("dijkstra_shortest_distances", [=, &g](auto& d, auto&) { graph::dijkstra_shortest_distances(g, s, d, weight); });
      paths("bellman_ford_shortest_paths", [=, &g](auto& d, auto& p) { (void)graph::bellman_ford_shortest_paths(g, s, d, p, weight); });
      paths("bellman_ford_shortest_distances", [=, &g](auto& d, auto&) { (void)graph::bellman_ford_shortest_distances(g, s, d, weight); });
      q.push_back({"topological_sort from a source", [=, &g] {
                     std::vector<Id> o;
                     Answer          a{graph::topological_sort(g, s, std::back_inserter(o))};
                     for (auto x : o) a.push_back(static_cast<long>(x));
                     return a;
                   }});
      q.push_back({"maximal_independent_set", [=, &g] {
                     std::vector<Id> o;
                     Answer          a{static_cast<long>(graph::maximal_independent_set(g, std::back_inserter(o), s))};
                     for (auto x : o) a.push_back(static_cast<long>(x));
                     return a;
                   }});
      q.push_back({"prim", [=, &g] {
                     std::vector<Id>   p(n);
                     std::vector<long> w(n);
                     graph::prim(g, p, w, std::less<long>{}, 1000000L, weight, s);
                     for (auto x : p) w.push_back(static_cast<long>(x));
                     return Answer(w);
                   }});
    }
    q.push_back({"topological_sort", [=, &g] {
                   std::vector<Id> o;
                   Answer          a{graph::topological_sort(g, std::back_inserter(o))};
                   for (auto x : o) a.push_back(static_cast<long>(x));
                   return a;
                 }});
    q.push_back({"connected_components", [=, &g] {
                   std::vector<size_t> cc(n);
                   Answer              a{static_cast<long>(graph::connected_components(g, cc))};
                   for (auto x : cc) a.push_back(static_cast<long>(x));
                   return a;
                 }});
    q.push_back({"articulation_points", [=, &g] {
                   std::vector<Id> o;
                   graph::articulation_points(g, std::back_inserter(o));
                   Answer a;
                   for (auto x : o) a.push_back(static_cast<long>(x));
                   return a;
                 }});
    q.push_back({"biconnected_components", [=, &g] {
                   std::vector<std::vector<Id>> o;
                   graph::biconnected_components(g, o);
                   Answer a;
                   for (auto& x : o) {
                     a.push_back(-1);
                     for (auto y : x) a.push_back(static_cast<long>(y));
                   }
                   return a;
                 }});
    q.push_back({"label_propagation", [=, &g] {
                   Answer l(n);
                   for (size_t i = 0; i < n; ++i) l[i] = static_cast<long>((i + salt) % 5);
                   std::minstd_rand r(salt + 1);
                   graph::label_propagation(g, l, r, 5);
                   return l;
                 }});
    q.push_back({"jaccard_coefficient", [=, &g] {
                   Answer a;
                   graph::jaccard_coefficient(g, [&](const auto& x, const auto& y, const auto&, double v) {
                     a.push_back(static_cast<long>(x));
                     a.push_back(static_cast<long>(y));
                     a.push_back(static_cast<long>(v * 1e6));
                   });
                   return a;
                 }});
    if constexpr (requires { graph::triangle_count(g); })
      q.push_back({"triangle_count", [=, &g] { return Answer{static_cast<long>(graph::triangle_count(g))}; }});
    q.push_back({"kruskal", [=, &g] {
                   struct E {
                     using source_id_type = Id;
                     using target_id_type = Id;
                     using value_type     = long;
                     Id   source_id{}, target_id{};
                     long value = 0;
                   };
                   std::vector<E> el, t;
                   for (auto u : graph::vertices(g))
                     for (auto uv : graph::edges(g, u)) el.push_back({graph::vertex_id(g, u), static_cast<Id>(graph::target_id(g, uv)), weight(g, uv)});
                   graph::kruskal(el, t);
                   Answer a;
                   for (auto& e : t) a.push_back(e.value);
                   return a;
                 }});
  }
  return q;
}
inline std::string show(const Answer& a) {
  std::ostringstream o;
  for (size_t i = 0; i < a.size() && i < 40; ++i) o << a[i] << ' ';
  return o.str();
}
template <class G>
void run(Case& c) {
  gen::Opt o;
  o.max_n = 7, o.big_n = 14;
  o.wlo = 0, o.whi = 9;
  if (c.s.chance(1, 2)) o.symmetric = true, o.self_loops = o.parallel = false, o.sorted = true;
  MGraph m;
  if constexpr (algo_kind<G>) m = algo_graph<G>(c, o);
  else {
    m = gen::graph(c.s, o);
    if (is_compressed<G>::value) gen::sort_by_source(m);
  }
  c.desc << gen::str(m);
  arena::open();
  G* gp;
  {
    arena::On a;
    gp = new (arena::take(sizeof(G))) G(make<G>(m));
  }
  const G& g = *gp;
  {
    size_t   n    = 0;
    for (auto u : graph::vertices(g)) { (void)u; ++n; }
    auto     at   = n ? static_cast<size_t>(c.s.range(0, static_cast<int>(n) - 1)) : 0;
    unsigned salt = c.s.below(1000);
    auto     qs   = questions<G>(g, n, at, salt);
    size_t   k    = static_cast<size_t>(c.s.range(1, 4)), T = static_cast<size_t>(c.s.range(2, 4));
    std::vector<Op> ask;
    c.desc << ", vertex " << at << ", " << T << " readers:";
    for (size_t i = 0; i < k; ++i) {
      ask.push_back(qs[c.s.below(static_cast<uint32_t>(qs.size()))]);
      c.desc << ' ' << ask.back().name << (i + 1 < k ? "," : "");
    }
    std::vector<std::vector<Answer>> got(T, std::vector<Answer>(k));
    std::vector<Answer>              alone(k);
    pbt::publish(c);
    arena::lock(true);
    std::atomic<size_t>      ready{0};
    std::vector<std::string> err(T);
    {
      std::vector<std::thread> ts;
      for (size_t t = 0; t < T; ++t)
        ts.emplace_back([&, t] {
          ready.fetch_add(1);
          while (ready.load() < T) {}
          try {
            for (size_t i = 0; i < k; ++i) got[t][(i + t) % k] = ask[(i + t) % k].f();
          } catch (std::exception& e) { err[t] = e.what(); }
        });
      for (auto& t : ts) t.join();
    }
    for (size_t i = 0; i < k; ++i) alone[i] = ask[i].f();
    for (size_t t = 0; t < T; ++t) {
      PCHECK(err[t].empty(), "a reader threw " << err[t]);
      for (size_t i = 0; i < k; ++i)
        PCHECK(got[t][i] == alone[i], ask[i].name << ": asked by " << T << " threads at once, one is told " << show(got[t][i]) << "and asked alone " << show(alone[i]));
    }
    c.nontrivial = n >= 2 && m.e.size() >= 1;
  }
  arena::lock(false);
  gp->~G();
}
struct F {
  template <class G> static void run(Case& c) { ::run<G>(c); }
};
RegisterKinds<F> reg_;
