// Graph types a user of the library could bring along, adapted only through the documented customization points. Their
// storage is deliberately not what the library's own fallbacks would read: target ids are stored scrambled and values
// in side tables, so an answer is right only if the user's own function was called.
#pragma once
#include <deque>
#include <graph/graph.hpp>
#include <list>
#include <ranges>
#include <vector>
namespace user {
constexpr unsigned scramble(unsigned x) { return x ^ 0x2a5u; }
template <class U>
concept vd = graph::adj_list::is_vertex_descriptor_v<U>;
template <class E>
concept ed = graph::adj_list::is_edge_descriptor_v<E>;

// An edge record that knows its target: vector<vector<edge_member>> (docs, containers.md, "custom struct", option A)
struct edge_member {
  unsigned code   = 0;
  int      weight = 0;
  int      target_id() const { return static_cast<int>(scramble(code)); }
  operator int() const { return weight; }
  edge_member& operator=(int w) { return weight = w, *this; }
};
template <class G, ed E> // must lose against the member
  requires requires(const E& e) { { *e.value() } -> std::convertible_to<const edge_member&>; }
int target_id(const G&, const E&) { return -1; }
// An edge record with a free function instead: vector<list<edge_free>> (option B)
struct edge_free {
  unsigned code   = 0;
  int      weight = 0;
  operator int() const { return weight; }
  edge_free& operator=(int w) { return weight = w, *this; }
};
template <class G, ed E>
  requires requires(const E& e) { { *e.value() } -> std::convertible_to<const edge_free&>; }
int target_id(const G&, const E& uv) {
  const edge_free& e = *uv.value();
  return static_cast<int>(scramble(e.code));
}

// A whole graph of the user's own, adapted with free functions only
struct half_edge {
  unsigned code;
  size_t   slot; // of its weight
};
struct node {
  std::vector<half_edge> out;
};
struct plain {
  std::vector<node> nodes;
  std::vector<int>  weights, tags;
  int               whole = 0;
};
inline auto& vertices(plain& g) { return g.nodes; }
inline auto& vertices(const plain& g) { return g.nodes; }
template <vd U> auto& edges(plain& g, const U& u) { return g.nodes[u.vertex_id()].out; }
template <vd U> auto& edges(const plain& g, const U& u) { return g.nodes[u.vertex_id()].out; }
template <ed E> const half_edge& rec(const plain& g, const E& uv) { return g.nodes[uv.source().vertex_id()].out[uv.value()]; }
template <ed E> size_t target_id(const plain& g, const E& uv) { return scramble(rec(g, uv).code); }
template <ed E> int& edge_value(plain& g, const E& uv) { return g.weights[rec(g, uv).slot]; }
template <ed E> const int& edge_value(const plain& g, const E& uv) { return g.weights[rec(g, uv).slot]; }
template <vd U> int& vertex_value(plain& g, const U& u) { return g.tags[u.vertex_id()]; }
template <vd U> const int& vertex_value(const plain& g, const U& u) { return g.tags[u.vertex_id()]; }
inline int& graph_value(plain& g) { return g.whole; }
inline const int& graph_value(const plain& g) { return g.whole; }

// The same with member functions, and its own counts and finders, which the library has to prefer
//
class members {
public:
  struct cell {
    unsigned code;
    size_t   slot;
  };
  std::vector<std::deque<cell>> cells;
  std::vector<int>              weights, tags;
  size_t                        m = 0;

  auto vertices() { return graph::adj_list::vertex_descriptor_view<std::vector<std::deque<cell>>::iterator>(size_t{0}, cells.size()); }
  auto vertices() const {
    return graph::adj_list::vertex_descriptor_view<std::vector<std::deque<cell>>::const_iterator>(size_t{0}, cells.size());
  }
  auto   find_vertex(size_t uid) { return std::ranges::next(vertices().begin(), static_cast<std::ptrdiff_t>(std::min(uid, cells.size()))); }
  auto   find_vertex(size_t uid) const { return std::ranges::next(vertices().begin(), static_cast<std::ptrdiff_t>(std::min(uid, cells.size()))); }
  size_t num_vertices() const { return cells.size(); }
  size_t num_edges() const { return m; }
  bool   has_edges() const { return m != 0; }
  template <vd U> size_t num_edges(const U& u) const { return cells[u.vertex_id()].size(); }
  template <vd U> size_t degree(const U& u) const { return cells[u.vertex_id()].size(); }
  template <ed E> size_t source_id(const E& uv) const { return uv.source().vertex_id(); }
  template <ed E> int&   edge_value(const E& uv) { return weights[at(uv).slot]; }
  template <ed E> const int& edge_value(const E& uv) const { return weights[at(uv).slot]; }
  template <vd U> int&   vertex_value(const U& u) { return tags[u.vertex_id()]; }
  template <vd U> const int& vertex_value(const U& u) const { return tags[u.vertex_id()]; }
  template <ed E> const cell& at(const E& uv) const { return cells[uv.source().vertex_id()][uv.value()]; }
};
template <vd U> auto& edges(members& g, const U& u) { return g.cells[u.vertex_id()]; }
template <vd U> auto& edges(const members& g, const U& u) { return g.cells[u.vertex_id()]; }
template <ed E> size_t target_id(const members& g, const E& uv) { return scramble(g.at(uv).code); }

// The documented order is member first, then free function: these must lose
inline auto vertices(members& g) { return graph::adj_list::vertex_descriptor_view<std::vector<std::deque<members::cell>>::iterator>(size_t{0}, size_t{0}); }
inline auto vertices(const members& g) { return graph::adj_list::vertex_descriptor_view<std::vector<std::deque<members::cell>>::const_iterator>(size_t{0}, size_t{0}); }
inline auto find_vertex(members& g, size_t) { return g.vertices().end(); }
inline auto find_vertex(const members& g, size_t) { return g.vertices().end(); }
inline size_t num_vertices(const members& g) { return g.cells.size() + 1; }
inline size_t num_edges(const members& g) { return g.m + 1; }
inline bool   has_edges(const members& g) { return g.m == 0; }
template <vd U> size_t num_edges(const members& g, const U& u) { return g.cells[u.vertex_id()].size() + 1; }
template <vd U> size_t degree(const members& g, const U& u) { return g.cells[u.vertex_id()].size() + 1; }
template <ed E> size_t source_id(const members& g, const E& uv) { return uv.source().vertex_id() + 1; }
template <ed E> int edge_value(const members& g, const E& uv) { return -1; }
template <vd U> int vertex_value(const members& g, const U& u) { return -1; }

// A range of vertex objects that hand out their edges through a member function
struct station {
  int                   tag = 0;
  std::list<edge_free>  lines_;
  std::list<edge_free>& edges() { return lines_; }
  const std::list<edge_free>& edges() const { return lines_; }
};
struct metro : std::deque<station> {};
template <vd U> int& vertex_value(metro& g, const U& u) { return g[u.vertex_id()].tag; }
template <vd U> const int& vertex_value(const metro& g, const U& u) { return g[u.vertex_id()].tag; }

// A graph that also keeps its incoming edges, in an order of its own, as cells naming the source
struct both {
  struct cell {
    unsigned code;
    size_t   slot;
  };
  struct place {
    std::vector<cell> out, in;
  };
  std::vector<place> places;
  std::vector<int>   weights, tags;
  template <ed E> const cell& at(const E& uv) const {
    auto& p = places[uv.source().vertex_id()]; // the vertex whose list holds the edge
    return E::is_in_edge ? p.in[uv.value()] : p.out[uv.value()];
  }
};
inline auto& vertices(both& g) { return g.places; }
inline auto& vertices(const both& g) { return g.places; }
template <vd U> auto& edges(both& g, const U& u) { return g.places[u.vertex_id()].out; }
template <vd U> auto& edges(const both& g, const U& u) { return g.places[u.vertex_id()].out; }
template <class G, vd U>
  requires std::same_as<std::remove_const_t<G>, both>
auto in_edges(G& g, const U& u) {
  auto& l = g.places[u.vertex_id()].in;
  return graph::adj_list::edge_descriptor_view<decltype(l.begin()), typename U::iterator_type, graph::adj_list::in_edge_tag>(l, u);
}
template <ed E> size_t target_id(const both& g, const E& uv) { return E::is_in_edge ? uv.source().vertex_id() : scramble(g.at(uv).code); }
template <ed E> size_t source_id(const both& g, const E& uv) { return E::is_in_edge ? scramble(g.at(uv).code) : uv.source().vertex_id(); }
template <ed E> int& edge_value(both& g, const E& uv) { return g.weights[g.at(uv).slot]; }
template <ed E> const int& edge_value(const both& g, const E& uv) { return g.weights[g.at(uv).slot]; }
template <vd U> int& vertex_value(both& g, const U& u) { return g.tags[u.vertex_id()]; }
template <vd U> const int& vertex_value(const both& g, const U& u) { return g.tags[u.vertex_id()]; }
} // namespace user

namespace gr {
using UVM = std::vector<std::vector<user::edge_member>>;
using ULF = std::vector<std::list<user::edge_free>>;
template <class G>
inline constexpr bool user_kind = std::is_same_v<G, UVM> || std::is_same_v<G, ULF> || std::is_same_v<G, user::plain> ||
                                  std::is_same_v<G, user::members> || std::is_same_v<G, user::metro> || std::is_same_v<G, user::both>;
template <class G> // has values on its vertices
inline constexpr bool user_vv = user_kind<G> && !std::is_same_v<G, UVM> && !std::is_same_v<G, ULF>;
template <class G, class M>
G make_user(const M& m, int (*value)(int)) {
  G g;
  for (int i = 0; i < m.n; ++i)
    if constexpr (std::is_same_v<G, user::plain>)
      g.nodes.emplace_back(), g.tags.push_back(value(i));
    else if constexpr (std::is_same_v<G, user::members>)
      g.cells.emplace_back(), g.tags.push_back(value(i));
    else if constexpr (std::is_same_v<G, user::both>)
      g.places.emplace_back(), g.tags.push_back(value(i));
    else if constexpr (std::is_same_v<G, user::metro>)
      g.emplace_back(), g.back().tag = value(i);
    else
      g.emplace_back();
  for (auto& e : m.e) {
    auto     u = static_cast<size_t>(e.u);
    unsigned k = user::scramble(static_cast<unsigned>(e.v));
    if constexpr (std::is_same_v<G, user::plain>) {
      g.weights.insert(g.weights.begin(), e.w); // the newest weight first
      for (auto& x : g.nodes)
        for (auto& h : x.out) ++h.slot;
      g.nodes[u].out.push_back({k, 0});
    } else if constexpr (std::is_same_v<G, user::members>) {
      g.cells[u].push_back({k, g.weights.size()});
      g.weights.push_back(e.w);
      ++g.m;
    } else if constexpr (std::is_same_v<G, user::both>) {
      g.places[u].out.push_back({k, g.weights.size()});
      auto& in = g.places[static_cast<size_t>(e.v)].in;
      in.insert(in.begin(), {user::scramble(static_cast<unsigned>(e.u)), g.weights.size()});
      g.weights.push_back(e.w);
    } else if constexpr (std::is_same_v<G, user::metro>)
      g[u].lines_.push_back({k, e.w});
    else
      g[u].push_back({k, e.w});
  }
  return g;
}
} // namespace gr
