// Building every kind of graph from the generated model.
#pragma once
#include "gen.hpp"
#include <deque>
#include <list>
#include <forward_list>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <graph/graph.hpp>
#include "user_graphs.hpp"
#include <graph/container/dynamic_graph.hpp>
#include <graph/container/compressed_graph.hpp>
#include <graph/container/undirected_adjacency_list.hpp>

namespace gr {
using gen::Adj;
using gen::Edge;
using gen::MGraph;
namespace gc = graph::container;

template <class G>
struct is_dynamic : std::false_type {};
template <class EV, class VV, class GV, class VId, bool B, class T>
struct is_dynamic<gc::dynamic_graph<EV, VV, GV, VId, B, T>> : std::true_type {
  using ev                     = EV;
  using vv                     = VV;
  using vid                    = VId;
  static constexpr bool bidir  = B;
  using vertices_type          = typename T::vertices_type;
  using edges_type             = typename T::edges_type;
};
template <class G>
struct is_compressed : std::false_type {};
template <class EV, class VV, class GV, class VId, class EI, class A>
struct is_compressed<gc::compressed_graph<EV, VV, GV, VId, EI, A>> : std::true_type {
  using ev  = EV;
  using vv  = VV;
  using vid = VId;
};
template <class G>
struct is_undirected : std::false_type {};
template <class EV, class VV, class GV, class VId, template <typename, typename> class C, class A>
struct is_undirected<gc::undirected_adjacency_list<EV, VV, GV, VId, C, A>> : std::true_type {
  using ev  = EV;
  using vv  = VV;
  using vid = VId;
};
template <class C>
concept assoc = requires { typename C::key_type; };
template <class C>
inline constexpr bool is_flist = false;
template <class T, class A>
inline constexpr bool is_flist<std::forward_list<T, A>> = true;

template <class C>
inline constexpr bool reserved_assoc = requires { typename C::key_type; };

// How a model vertex number becomes a vertex id of G and back. Specialise for sparse or string ids.
template <class G>
struct idc {
  template <class T = int>
  static int enc(int i) { return i; }
  template <class I>
  static int dec(const I& i) { return static_cast<int>(i); }
};
inline int vval(int i) { return 1000 + 7 * i; } // the value given to vertex i

// Plain standard-library graphs (weights kept where the element can hold one)
using VVI = std::vector<std::vector<int>>;
using VVP = std::vector<std::vector<std::pair<int, int>>>;
using VVT = std::vector<std::vector<std::tuple<int, int, int>>>;
using VLP = std::vector<std::list<std::pair<int, int>>>;
using DVP = std::deque<std::vector<std::pair<int, int>>>;
using VDI = std::vector<std::deque<int>>;
using VFP = std::vector<std::forward_list<std::pair<int, int>>>;
using VMI = std::vector<std::map<int, int>>;
using MVP = std::map<int, std::vector<std::pair<int, int>>>;
using MLP = std::map<int, std::list<std::pair<int, int>>>;

template <class G>
concept plain_map = requires { typename G::mapped_type; };
template <class G>
concept plain_seq = !plain_map<G> && requires(G g) {
  g.resize(3);
  typename G::value_type;
} && !user_kind<G> && !is_dynamic<G>::value && !is_compressed<G>::value && !is_undirected<G>::value;

template <class EC, class I>
void plain_add(EC& ec, I v, int w) {
  using E = typename EC::value_type;
  if constexpr (std::is_integral_v<E>)
    ec.insert(ec.end(), v);
  else if constexpr (requires { ec.push_front(E{v, w}); } && !requires { ec.push_back(E{v, w}); })
    ec.push_front(E{v, w});
  else if constexpr (requires { typename EC::mapped_type; })
    ec.emplace(v, w);
  else if constexpr (std::tuple_size_v<E> == 3)
    ec.push_back(E{v, w, w + 1});
  else
    ec.push_back(E{v, w});
}

template <class G>
G make(const MGraph& m) {
  if constexpr (user_kind<G>) {
    return make_user<G>(m, vval);
  } else if constexpr (is_dynamic<G>::value) {
    using D   = is_dynamic<G>;
    using VId = typename D::vid;
    G g;
    if constexpr (std::is_void_v<typename D::vv>) {
      std::vector<graph::copyable_vertex_t<VId, void>> vs;
      for (int i = 0; i < m.n; ++i)
        vs.push_back({static_cast<VId>(idc<G>::enc(i))});
      if constexpr (assoc<typename D::vertices_type>) {
        // vertices without a value: created by loading their ids
        g.load_vertices(vs, std::identity{});
      } else
        g.resize_vertices(static_cast<size_t>(m.n));
    } else {
      std::vector<graph::copyable_vertex_t<VId, typename D::vv>> vs;
      for (int i = 0; i < m.n; ++i)
        vs.push_back({static_cast<VId>(idc<G>::enc(i)), static_cast<typename D::vv>(vval(i))});
      g.load_vertices(vs, std::identity{}, static_cast<size_t>(m.n));
    }
    if constexpr (std::is_void_v<typename D::ev>) {
      std::vector<graph::copyable_edge_t<VId, void>> es;
      for (auto& e : m.e)
        es.push_back({static_cast<VId>(idc<G>::enc(e.u)), static_cast<VId>(idc<G>::enc(e.v))});
      g.load_edges(es, std::identity{}, static_cast<size_t>(m.n));
    } else {
      std::vector<graph::copyable_edge_t<VId, typename D::ev>> es;
      for (auto& e : m.e)
        es.push_back({static_cast<VId>(idc<G>::enc(e.u)), static_cast<VId>(idc<G>::enc(e.v)), static_cast<typename D::ev>(e.w)});
      g.load_edges(es, std::identity{}, static_cast<size_t>(m.n));
    }
    return g;
  } else if constexpr (is_compressed<G>::value) {
    using D   = is_compressed<G>;
    using VId = typename D::vid;
    MGraph s  = m;
    gen::sort_by_source(s);
    G g;
    if constexpr (std::is_void_v<typename D::ev>) {
      std::vector<graph::copyable_edge_t<VId, void>> es;
      for (auto& e : s.e)
        es.push_back({static_cast<VId>(idc<G>::enc(e.u)), static_cast<VId>(idc<G>::enc(e.v))});
      if constexpr (std::is_void_v<typename D::vv>)
        g.load_edges(es, std::identity{}, static_cast<size_t>(m.n));
      else {
        std::vector<graph::copyable_vertex_t<VId, typename D::vv>> vs;
        for (int i = 0; i < m.n; ++i)
          vs.push_back({static_cast<VId>(idc<G>::enc(i)), static_cast<typename D::vv>(vval(i))});
        g.load(es, vs);
      }
    } else {
      std::vector<graph::copyable_edge_t<VId, typename D::ev>> es;
      for (auto& e : s.e)
        es.push_back({static_cast<VId>(idc<G>::enc(e.u)), static_cast<VId>(idc<G>::enc(e.v)), static_cast<typename D::ev>(e.w)});
      if constexpr (std::is_void_v<typename D::vv>)
        g.load_edges(es, std::identity{}, static_cast<size_t>(m.n));
      else {
        std::vector<graph::copyable_vertex_t<VId, typename D::vv>> vs;
        for (int i = 0; i < m.n; ++i)
          vs.push_back({static_cast<VId>(idc<G>::enc(i)), static_cast<typename D::vv>(vval(i))});
        g.load(es, vs);
      }
    }
    return g;
  } else if constexpr (is_undirected<G>::value) {
    // m must list each undirected edge once
    using D   = is_undirected<G>;
    using VId = typename D::vid;
    G g;
    for (int i = 0; i < m.n; ++i) {
      if constexpr (std::is_void_v<typename D::vv>)
        g.create_vertex();
      else
        g.create_vertex(static_cast<typename D::vv>(vval(i)));
    }
    for (auto& e : m.e) {
      if constexpr (std::is_void_v<typename D::ev>)
        g.create_edge(static_cast<VId>(idc<G>::enc(e.u)), static_cast<VId>(idc<G>::enc(e.v)));
      else
        g.create_edge(static_cast<VId>(idc<G>::enc(e.u)), static_cast<VId>(idc<G>::enc(e.v)), static_cast<typename D::ev>(e.w));
    }
    return g;
  } else if constexpr (plain_map<G>) {
    G g;
    for (int i = 0; i < m.n; ++i)
      (void)g[idc<G>::enc(i)];
    for (auto& e : m.e)
      plain_add(g[idc<G>::enc(e.u)], idc<G>::enc(e.v), e.w);
    return g;
  } else {
    G g;
    g.resize(static_cast<size_t>(m.n));
    for (auto& e : m.e)
      plain_add(g[static_cast<size_t>(e.u)], e.v, e.w);
    return g;
  }
}

template <class G>
concept has_edge_values = requires(G& g, graph::edge_t<G> e) {
  graph::edge_value(g, e);
};

// What plain enumeration of a graph lists: per vertex in enumeration order. Only vertices/vertex_id/edges/target_id.
template <class G>
struct Listing {
  std::vector<int> ids; // in enumeration order
  Adj              adj; // indexed by vertex id (ids must be < adj.size())
};
template <class G>
Adj extract(G& g, int n) {
  Adj a(static_cast<size_t>(n));
  for (auto u : graph::vertices(g)) {
    auto uid = static_cast<size_t>(idc<std::remove_const_t<G>>::dec(graph::vertex_id(g, u)));
    if (uid >= a.size())
      throw pbt::Fail{"vertex id out of range while enumerating"};
    for (auto uv : graph::edges(g, u)) {
      int t = idc<std::remove_const_t<G>>::dec(graph::target_id(g, uv));
      int w = 0;
      if constexpr (has_edge_values<G> && !std::is_same_v<G, VVI> && !std::is_same_v<G, VDI>) {
        if constexpr (std::is_convertible_v<std::remove_cvref_t<decltype(graph::edge_value(g, uv))>, int>)
          w = static_cast<int>(graph::edge_value(g, uv));
      }
      if (t < 0 || t >= n)
        throw pbt::Fail{"target id out of range while enumerating"};
      a[uid].push_back({t, w});
    }
  }
  return a;
}
// The enumeration must list the model's edges as a multiset (targets only).
template <class G>
Adj extract_checked(pbt::Case& c, G& g, const MGraph& m, bool undirected = false) {
  Adj                           a = extract(g, m.n);
  std::vector<std::vector<int>> want(static_cast<size_t>(m.n));
  for (auto& e : m.e) {
    want[static_cast<size_t>(e.u)].push_back(e.v);
    if (undirected && e.u != e.v)
      want[static_cast<size_t>(e.v)].push_back(e.u);
  }
  for (int i = 0; i < m.n; ++i) {
    std::vector<int> got;
    for (auto& [t, w] : a[static_cast<size_t>(i)])
      got.push_back(t);
    auto x = got, y = want[static_cast<size_t>(i)];
    std::sort(x.begin(), x.end());
    std::sort(y.begin(), y.end());
    bool dedups = false;
    if constexpr (is_dynamic<G>::value)
      dedups = assoc<typename is_dynamic<G>::edges_type>;
    if (std::is_same_v<G, VMI>)
      dedups = true;
    if (dedups)
      y.erase(std::unique(y.begin(), y.end()), y.end());
    PCHECK(x == y, "built graph does not list the edges it was given at vertex " << i << ": " << pbt::show(x) << " vs "
                                                                               << pbt::show(y));
  }
  return a;
}
} // namespace gr
