// A16: exceptions from caller-supplied functions and failed allocations in the algorithms (MODE 0) and views (MODE 1).
#include "kinds_list.hpp"
#include "fault.hpp"
#ifndef MODE
#  define MODE 0
#endif
using fault::Armed;
using fault::Quiet;
using fault::tick;

// Ids, values and handles: unchanged, whatever happened
template <class G>
struct Before {
  Lists<G>         L;
  std::vector<int> vals;
  static std::vector<int> values(G& g, const Lists<G>& l) {
    std::vector<int> r;
    if constexpr (has_ev<std::remove_const_t<G>>())
      for (auto& x : l.es)
        for (auto& e : x) r.push_back(as_int(graph::edge_value(g, e)));
    return r;
  }
  explicit Before(G& g) : L(g), vals(values(g, L)) {}
  bool same(G& g) const {
    Lists<G> n(g);
    return n.adj == L.adj && n.vs == L.vs && n.es == L.es && values(g, n) == vals;
  }
};
template <class T>
std::string text(const T& r) {
  std::ostringstream o;
  for (auto& x : r) o << x << ' ';
  return o.str();
}

#if MODE == 0
#  include <graph/algorithms.hpp>
#  include <graph/views/edgelist.hpp>
// a visitor of every event, handed over by reference
struct Events {
  std::vector<int> log;
  void add(int k) {
    {
      Quiet q;
      log.push_back(k);
    }
    tick();
  }
#  define EV(F, K) void F(const auto&, const auto&) { add(K); }
  EV(on_initialize_vertex, 0) EV(on_start_vertex, 1) EV(on_discover_vertex, 2) EV(on_examine_vertex, 3) EV(on_finish_vertex, 4)
  EV(on_examine_edge, 5) EV(on_tree_edge, 6) EV(on_back_edge, 7) EV(on_forward_or_cross_edge, 8) EV(on_finish_edge, 9)
  EV(on_edge_relaxed, 10) EV(on_edge_not_relaxed, 11) EV(on_edge_minimized, 12) EV(on_edge_not_minimized, 13)
};
// an output iterator whose assignments tick
template <class T>
struct Out {
  using difference_type = std::ptrdiff_t;
  std::vector<T>* to;
  struct Ref {
    std::vector<T>* to;
    const Ref& operator=(const T& x) const {
      tick();
      Quiet q;
      to->push_back(x);
      return *this;
    }
  };
  Ref  operator*() const { return {to}; }
  Out& operator++() { return *this; }
  Out  operator++(int) { return *this; }
};
// an input range whose increments tick
template <class T>
struct In {
  std::vector<T>* from;
  struct iterator {
    using value_type      = T;
    using difference_type = std::ptrdiff_t;
    const T* p;
    const T& operator*() const { return *p; }
    iterator& operator++() {
      tick();
      ++p;
      return *this;
    }
    void operator++(int) { ++*this; }
    bool operator==(const iterator&) const = default;
  };
  iterator begin() const { return {from->data()}; }
  iterator end() const { return {from->data() + from->size()}; }
};
struct Rng {
  std::minstd_rand r;
  using result_type = std::minstd_rand::result_type;
  static constexpr result_type min() { return std::minstd_rand::min(); }
  static constexpr result_type max() { return std::minstd_rand::max(); }
  result_type operator()() {
    tick();
    return r();
  }
};
struct Less {
  template <class A, class B>
  bool operator()(const A& a, const B& b) const {
    tick();
    return a < b;
  }
};

template <class G0, class G>
void faults(Case& c, G& g) {
  using Id = graph::vertex_id_t<G>;
  Before<G> b(g);
  size_t    n     = b.L.n();
  auto      after = [&](bool) { PCHECK(b.same(g), "the graph has changed"); };
  auto weight = [](const auto& gg, const graph::edge_t<G>& e) {
    tick();
    if constexpr (has_ev<G0>()) return static_cast<long>(as_int(graph::edge_value(gg, e)));
    else return 1L;
  };
  auto combine = [](long x, long y) {
    tick();
    return x + y;
  };
  Id               s0 = static_cast<Id>(n ? c.s.range(0, static_cast<int>(n) - 1) : 0);
  std::vector<Id>  many;
  if (n)
    for (int i = c.s.range(1, 3); i > 0; --i) many.push_back(static_cast<Id>(c.s.range(0, static_cast<int>(n) - 1)));
  std::vector<int> first; // events of the undisturbed run
  auto logged = [&](const Events& v, bool done) {
    if (done && first.empty()) first = v.log;
    PCHECK(v.log.size() <= first.size() && std::equal(v.log.begin(), v.log.end(), first.begin()),
           "the events before the exception are not those of an undisturbed run");
  };
  auto visit = [&](const std::string& what, auto call) {
    fault::sweep(
          c, what,
          [&] {
            Events v;
            try {
              Armed a;
              call(v);
            } catch (...) {
              logged(v, false);
              throw;
            }
            logged(v, true);
            return text(v.log);
          },
          after);
  };
  auto plain = [&](const std::string& what, auto call) { // call() makes outputs, runs, and describes them
    fault::sweep(c, what, call, after);
  };
  struct Op {
    const char*           name;
    std::function<void()> f;
  };
  std::vector<Op> ops;
  auto op = [&](const char* name, auto f) { ops.push_back({name, f}); };
  if (n) {
    op("breadth_first_search", [&] { visit("breadth_first_search", [&](Events& v) { graph::breadth_first_search(g, s0, v); }); });
    op("breadth_first_search of a range", [&] {
      visit("breadth_first_search of a range", [&](Events& v) { graph::breadth_first_search(g, In<Id>{&many}, v); });
    });
    op("depth_first_search", [&] { visit("depth_first_search", [&](Events& v) { graph::depth_first_search(g, s0, v); }); });
    for (int form = 0; form < 4; ++form)
      op("shortest paths", [&, form] {
        static const char* names[] = {"dijkstra_shortest_paths", "dijkstra_shortest_distances", "bellman_ford_shortest_paths", "bellman_ford_shortest_distances"};
        first.clear();
        fault::sweep(
              c, names[form],
              [&, form] {
                Events            v;
                std::vector<long> dist(n);
                std::vector<Id>   pred(n);
                graph::init_shortest_paths(dist, pred);
                try {
                  Armed a;
                  switch (form) {
                  case 0: graph::dijkstra_shortest_paths(g, In<Id>{&many}, dist, pred, weight, v, Less{}, combine); break;
                  case 1: graph::dijkstra_shortest_distances(g, s0, dist, weight, v, Less{}, combine); break;
                  case 2: (void)graph::bellman_ford_shortest_paths(g, In<Id>{&many}, dist, pred, weight, v, Less{}, combine); break;
                  case 3: (void)graph::bellman_ford_shortest_distances(g, s0, dist, weight, v, Less{}, combine); break;
                  }
                } catch (...) {
                  logged(v, false);
                  throw;
                }
                logged(v, true);
                return text(dist);
              },
              after);
      });
    op("find_negative_cycle", [&] {
      std::vector<long> dist(n);
      std::vector<Id>   pred(n);
      graph::init_shortest_paths(dist, pred);
      auto neg = [&](const auto& gg, const graph::edge_t<G>& e) {
        auto t = static_cast<size_t>(graph::target_id(gg, e));
        return static_cast<long>(t % 3) - 1;
      };
      auto at = graph::bellman_ford_shortest_paths(g, many, dist, pred, neg);
      if (!at) return;
      plain("find_negative_cycle", [&] {
        std::vector<Id> cyc;
        {
          Armed a;
          graph::find_negative_cycle(g, pred, at, Out<Id>{&cyc});
        }
        return text(cyc);
      });
    });
    op("topological_sort from a source", [&] {
      plain("topological_sort from a source", [&] {
        std::vector<Id> out;
        bool ok;
        {
          Armed a;
          ok = graph::topological_sort(g, s0, Out<Id>{&out});
        }
        return (ok ? "sorted " : "cycle ") + text(out);
      });
    });
    op("topological_sort from a range", [&] {
      plain("topological_sort from a range", [&] {
        std::vector<Id> out;
        bool ok;
        {
          Armed a;
          ok = graph::topological_sort(g, In<Id>{&many}, Out<Id>{&out});
        }
        return (ok ? "sorted " : "cycle ") + text(out);
      });
    });
    op("maximal_independent_set", [&] {
      plain("maximal_independent_set", [&] {
        std::vector<Id> out;
        size_t          k;
        {
          Armed a;
          k = graph::maximal_independent_set(g, Out<Id>{&out}, s0);
        }
        return std::to_string(k) + ": " + text(out);
      });
    });
    op("prim", [&] {
      plain("prim", [&] {
        std::vector<Id>   pred(n);
        std::vector<long> wt(n);
        {
          Armed a;
          graph::prim(g, pred, wt, Less{}, 1000000L, weight, s0);
        }
        return text(wt);
      });
    });
  }
  op("topological_sort", [&] {
    plain("topological_sort", [&] {
      std::vector<Id> out;
      bool ok;
      {
        Armed a;
        ok = graph::topological_sort(g, Out<Id>{&out});
      }
      return (ok ? "sorted " : "cycle ") + text(out);
    });
  });
  op("connected_components", [&] {
    plain("connected_components", [&] {
      std::vector<size_t> comp(n);
      size_t k;
      {
        Armed a;
        k = graph::connected_components(g, comp);
      }
      return std::to_string(k) + ": " + text(comp);
    });
  });
  op("kosaraju", [&] {
    std::vector<std::vector<Id>> t(n); // the transpose
    for (size_t u = 0; u < n; ++u)
      for (int v : b.L.adj[u]) t[static_cast<size_t>(v)].push_back(static_cast<Id>(u));
    plain("kosaraju", [&] {
      std::vector<size_t> comp(n);
      {
        Armed a;
        graph::kosaraju(g, t, comp);
      }
      return text(comp);
    });
  });
  op("articulation_points", [&] {
    plain("articulation_points", [&] {
      std::vector<Id> out;
      {
        Armed a;
        graph::articulation_points(g, Out<Id>{&out});
      }
      return text(out);
    });
  });
  op("biconnected_components", [&] {
    plain("biconnected_components", [&] {
      std::vector<std::vector<Id>> out;
      {
        Armed a;
        graph::biconnected_components(g, out);
      }
      std::string r;
      for (auto& x : out) r += text(x) + "; ";
      return r;
    });
  });
  op("label_propagation", [&] {
    bool sentinel = c.s.chance(1, 2);
    plain("label_propagation", [&, sentinel] {
      std::vector<int> l(n);
      for (size_t i = 0; i < n; ++i) l[i] = sentinel && i % 3 ? -1 : static_cast<int>(i % 4);
      {
        Armed a;
        Rng   r{};
        if (sentinel) graph::label_propagation(g, l, -1, r, 6);
        else graph::label_propagation(g, l, r, 6);
      }
      return text(l);
    });
  });
  op("jaccard_coefficient", [&] {
    plain("jaccard_coefficient", [&] {
      std::vector<double> out;
      {
        Armed a;
        graph::jaccard_coefficient(g, [&](const Id&, const Id&, graph::edge_t<G>&, double v) {
          {
            Quiet q;
            out.push_back(v);
          }
          tick();
        });
      }
      return text(out);
    });
  });
  if constexpr (requires { graph::triangle_count(g); })
    op("triangle_count", [&] { // documented never to throw
      auto count = [&](long fail) {
        fault::reset(fail, -1);
        size_t k;
        {
          Armed a;
          k = graph::triangle_count(g);
        }
        fault::reset();
        return k;
      };
      PCHECK(count(-1) == count(0), "triangle_count depends on an allocation");
    });
  op("kruskal", [&] {
    struct E {
      using source_id_type = Id;
      using target_id_type = Id;
      using value_type     = long;
      Id   source_id{}, target_id{};
      long value = 0;
    };
    std::vector<E> el;
    for (size_t u = 0; u < n; ++u)
      for (int v : b.L.adj[u]) el.push_back({static_cast<Id>(u), static_cast<Id>(v), static_cast<long>((u * 7 + static_cast<size_t>(v) * 5) % 11)});
    bool inplace = c.s.chance(1, 2);
    plain(inplace ? "inplace_kruskal" : "kruskal", [&, inplace] {
      std::vector<E> in = el, t;
      {
        Armed a;
        if (inplace) graph::inplace_kruskal(in, t, Less{});
        else graph::kruskal(in, t, Less{});
      }
      long sum = 0;
      for (auto& e : t) sum += e.value;
      if (!inplace) {
        bool same = in.size() == el.size();
        for (size_t i = 0; same && i < in.size(); ++i) same = in[i].value == el[i].value;
        if (!same) throw pbt::Fail{"kruskal changed its input"};
      }
      return std::to_string(t.size()) + " edges of weight " + std::to_string(sum);
    });
  });
  auto& o = ops[c.s.below(static_cast<uint32_t>(ops.size()))];
  c.desc << ", " << o.name;
  o.f();
}
#else
#  include <graph/views/basic_views.hpp>
#  include <graph/views/bfs.hpp>
#  include <graph/views/dfs.hpp>
#  include <graph/views/topological_sort.hpp>
namespace vw = graph::views;
template <class D>
struct ValueFn {
  template <class G>
  long operator()(const G&, const D& d) const {
    tick();
    return static_cast<long>(std::hash<D>{}(d) % 1000);
  }
};
template <class G0, class G>
void faults(Case& c, G& g) {
  using Id = graph::vertex_id_t<G>;
  Before<G> b(g);
  using VD    = typename Lists<G>::VD;
  using ED    = typename Lists<G>::ED;
  size_t n    = b.L.n();
  auto after  = [&](bool) { PCHECK(b.same(g), "the graph has changed"); };
  ValueFn<VD> vvf;
  ValueFn<ED> evf;
  size_t at = n ? static_cast<size_t>(c.s.range(0, static_cast<int>(n) - 1)) : 0;
  Id     id = static_cast<Id>(at);
  auto one = [&](const auto& x) { // an element of a view, whatever it is made of
    std::string r;
    using T = std::remove_cvref_t<decltype(x)>;
    if constexpr (requires { graph::vertex_id(g, x.vertex); }) r += " v" + std::to_string(static_cast<long>(graph::vertex_id(g, x.vertex)));
    else if constexpr (requires(T y) { y.id + 1; }) r += " #" + std::to_string(static_cast<long>(x.id));
    if constexpr (requires(T y) { y.target_id + 1; }) r += " >" + std::to_string(static_cast<long>(x.target_id));
    if constexpr (requires { graph::target_id(g, x.edge); }) r += " e" + std::to_string(static_cast<long>(graph::target_id(g, x.edge)));
    if constexpr (requires(T y) { y.value + 1; }) r += "=" + std::to_string(static_cast<long>(x.value));
    return r;
  };
  auto view = [&](const char* what, auto mk) {
    std::string want;
    fault::sweep(
          c, what,
          [&] {
            std::string r;
            {
              Armed a;
              auto  v = mk();
              for (auto&& x : v) {
                Quiet q;
                r += one(x);
                if (r.size() > 200000) throw pbt::Fail{"endless"};
              }
            }
            return want = r;
          },
          after);
    // an element whose value could not be computed is there to be read again, and the iteration goes on from it
    fault::reset();
    {
      Armed a;
      auto  v = mk();
      for (auto&& x : v) {
        Quiet q;
        (void)x;
      }
    }
    long ticks = fault::state().ticks;
    if (!ticks) return;
    long k = c.s.range(0, static_cast<int>(ticks - 1));
    fault::reset(-1, k);
    std::string r;
    int         thrown = 0;
    try {
      Armed a;
      auto  v = mk();
      auto  it = v.begin();
      for (; !(it == v.end());) {
        std::string e;
        try {
          auto  x = *it;
          Quiet q;
          e = one(x);
        } catch (const fault::Boom&) {
          ++thrown;
          auto  x = *it;
          Quiet q;
          e = one(x);
        }
        {
          Quiet q;
          r += e;
          if (r.size() > 200000) throw pbt::Fail{"endless"};
        }
        ++it;
      }
    } catch (const fault::Boom&) { // thrown elsewhere than by the element
      fault::reset();
      return;
    }
    fault::reset();
    PCHECK(thrown <= 1, what);
    PCHECK(r == want, what << ", the value function throwing at call " << k << ": read again and continued it gives" << r << " instead of" << want);
    if (thrown) c.label("continued after a throw");
  };
  std::vector<std::function<void()>> ops;
#  define V(...) ops.push_back([&] { view(#__VA_ARGS__, [&] { return vw::__VA_ARGS__; }); })
  V(vertexlist(g, vvf));
  V(basic_vertexlist(g, vvf));
  V(edgelist(g, evf));
  V(basic_edgelist(g, evf));
  if (n) {
    V(incidence(g, id, evf));
    V(basic_incidence(g, id, evf));
    V(neighbors(g, id, vvf));
    V(basic_neighbors(g, id, vvf));
    for (int i = 0; i < 2; ++i) {
      V(vertices_dfs(g, id, vvf));
      V(edges_dfs(g, id, evf));
      V(vertices_bfs(g, id, vvf));
      V(edges_bfs(g, id, evf));
      V(vertices_dfs(g, id));
      V(edges_bfs(g, id));
    }
  }
  V(vertices_topological_sort(g, vvf));
  V(edges_topological_sort(g, evf));
  V(vertices_topological_sort(g));
  ops.push_back([&] {
    view("vertices_topological_sort_safe(g, vvf)", [&] {
      auto r = vw::vertices_topological_sort_safe(g, vvf);
      return r ? std::move(*r) : vw::vertices_topological_sort(g, vvf);
    });
  });
  auto& o = ops[c.s.below(static_cast<uint32_t>(ops.size()))];
  o();
}
#endif

template <class G>
void run(Case& c) {
  if constexpr (algo_kind<G>) {
    gen::Opt o;
    o.max_n = 7, o.big_n = 16;
    o.wlo = 0, o.whi = 9;
    if (c.s.chance(2, 3)) o.symmetric = true, o.self_loops = o.parallel = false, o.sorted = true;
    MGraph m = algo_graph<G>(c, o);
    c.desc << gen::str(m);
    G g = make<G>(m);
    if constexpr (algo_kind<const G>) {
      if (c.s.chance(1, 4)) {
        faults<G, const G>(c, g);
        return;
      }
    }
    faults<G, G>(c, g);
  }
}
struct F {
  template <class G> static constexpr bool accepts = algo_kind<G>;
  template <class G> static void run(Case& c) {
    ::run<G>(c);
  }
};
RegisterKinds<F> reg_;
