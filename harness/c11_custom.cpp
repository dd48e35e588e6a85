// C11: a function the user's own graph type provides is the one the library calls, in every calling form, and what the
// library derives by itself (the forms the type does not provide) is derived from the user's functions.
// (The same types run through every lookup, view and algorithm: the UNIT=8 programs of this check.)
#include "graphs.hpp"
using pbt::Case;
using gr::idc;
namespace own {
namespace al = graph::adj_list;
using Cells  = std::vector<std::vector<int>>;
using VIt    = Cells::iterator;
using CVIt   = Cells::const_iterator;
template <class U> concept vd = al::is_vertex_descriptor_v<U>;
template <class E> concept ed = al::is_edge_descriptor_v<E>;
using U0 = al::vertex_descriptor<VIt>;
using CU0 = al::vertex_descriptor<CVIt>;

// The answers: each is deliberately not what the library would work out itself
struct thrown {};
inline bool angry = false; // every user function throws
inline void touch() {
  if (angry) throw thrown{};
}
struct store {
  Cells c;
  store() = default;
  explicit store(Cells x) : c(std::move(x)) {}
  size_t n() const { return c.size(); }
  int    a_num_vertices() const { touch(); return 1000 + static_cast<int>(n()); }
  int    a_num_edges() const { touch(); return 2000 + static_cast<int>(n()); }
  bool   a_has_edges() const { touch(); // negated
    for (auto& x : c)
      if (!x.empty()) return false;
    return true;
  }
  size_t a_find(size_t uid) const { touch(); return n() ? (uid + 1) % n() : 0; }
  int    a_num_edges_u(size_t u) const { touch(); return 3000 + static_cast<int>(c[u].size()); }
  int    a_num_edges_id(size_t u) const { touch(); return 3500 + static_cast<int>(c[u].size()); }
  int    a_degree_u(size_t u) const { touch(); return 4000 + static_cast<int>(c[u].size()); }
  int    a_degree_id(size_t u) const { touch(); return 4500 + static_cast<int>(c[u].size()); }
  int    a_in_degree_u(size_t u) const { touch(); return 5000 + static_cast<int>(u); }
  int    a_in_degree_id(size_t u) const { touch(); return 5500 + static_cast<int>(u); }
  bool   has(size_t u, size_t v) const { return std::find(c[u].begin(), c[u].end(), static_cast<int>(v)) != c[u].end(); }
  int    a_edge_uv(size_t u, size_t v) const { touch(); return 6000 + 100 * static_cast<int>(u) + static_cast<int>(v); }
  int    a_edge_uid(size_t u, size_t v) const { touch(); return 16000 + 100 * static_cast<int>(u) + static_cast<int>(v); }
  int    a_edge_idid(size_t u, size_t v) const { touch(); return 26000 + 100 * static_cast<int>(u) + static_cast<int>(v); }
  bool   a_contains_uv(size_t u, size_t v) const { touch(); return !has(u, v); }
  bool   a_contains_idid(size_t u, size_t v) const { touch(); return (u + v) % 2; }
  size_t a_source_id(size_t u) const { touch(); return u + 70; }
  int    a_edge_value(size_t u, size_t k) const { touch(); return 7000 + 100 * static_cast<int>(u) + static_cast<int>(k); }
  int    a_vertex_value(size_t u) const { touch(); return 8000 + static_cast<int>(u); }
  size_t a_partition(size_t u) const { touch(); return u % 3; }
  int    a_num_vertices_p(size_t p) const { touch(); return 9000 + static_cast<int>(p); }
  size_t a_target(size_t u, size_t k) const { touch(); return (static_cast<size_t>(c[u][k]) + 1) % n(); }
  size_t a_source(size_t u) const { touch(); return (u + 1) % n(); }
};
// views over the first n-1 vertices, so that vertices(g) is told apart from the storage itself
#define SHORT(IT) al::vertex_descriptor_view<IT>(size_t{0}, c.empty() ? size_t{0} : c.size() - 1)
#define PART(IT) al::vertex_descriptor_view<IT>(std::min(c.size(), static_cast<size_t>(p)), c.size())

// member functions; every free function of the same name must lose
struct by_member : store {
  using store::store;
  auto   vertices() { return SHORT(VIt); }
  auto   vertices() const { return SHORT(CVIt); }
  auto   vertices(int p) { return PART(VIt); }
  auto   vertices(int p) const { return PART(CVIt); }
  auto   find_vertex(size_t uid) { return al::vertex_descriptor_view<VIt>::iterator{a_find(uid)}; }
  auto   find_vertex(size_t uid) const { return al::vertex_descriptor_view<CVIt>::iterator{a_find(uid)}; }
  int    num_vertices() const { return a_num_vertices(); }
  int    num_vertices(int p) const { return a_num_vertices_p(static_cast<size_t>(p)); }
  int    num_edges() const { return a_num_edges(); }
  bool   has_edges() const { return a_has_edges(); }
  template <vd U> int num_edges(const U& u) const { return a_num_edges_u(u.vertex_id()); }
  int    num_edges(size_t u) const { return a_num_edges_id(u); }
  template <vd U> int degree(const U& u) const { return a_degree_u(u.vertex_id()); }
  int    degree(size_t u) const { return a_degree_id(u); }
  template <vd U> int in_degree(const U& u) const { return a_in_degree_u(u.vertex_id()); }
  int    in_degree(size_t u) const { return a_in_degree_id(u); }
  template <vd U, vd V> int find_vertex_edge(const U& u, const V& v) const { return a_edge_uv(u.vertex_id(), v.vertex_id()); }
  template <vd U> int find_vertex_edge(const U& u, size_t v) const { return a_edge_uid(u.vertex_id(), v); }
  int    find_vertex_edge(size_t u, size_t v) const { return a_edge_idid(u, v); }
  template <vd U, vd V> int find_in_edge(const U& u, const V& v) const { return -a_edge_uv(u.vertex_id(), v.vertex_id()); }
  template <vd U> int find_in_edge(const U& u, size_t v) const { return -a_edge_uid(u.vertex_id(), v); }
  int    find_in_edge(size_t u, size_t v) const { return -a_edge_idid(u, v); }
  template <vd U, vd V> bool contains_edge(const U& u, const V& v) const { return a_contains_uv(u.vertex_id(), v.vertex_id()); }
  bool   contains_edge(size_t u, size_t v) const { return a_contains_idid(u, v); }
  template <vd U, vd V> bool contains_in_edge(const U& u, const V& v) const { return !a_contains_uv(u.vertex_id(), v.vertex_id()); }
  bool   contains_in_edge(size_t u, size_t v) const { return !a_contains_idid(u, v); }
  template <ed E> auto target(const E& uv) { return U0{a_target(uv.source().vertex_id(), uv.value())}; }
  template <ed E> auto target(const E& uv) const { return CU0{a_target(uv.source().vertex_id(), uv.value())}; }
  template <ed E> auto source(const E& uv) { return al::vertex_descriptor_view<VIt>::iterator{a_source(uv.source().vertex_id())}; }
  template <ed E> auto source(const E& uv) const { return al::vertex_descriptor_view<CVIt>::iterator{a_source(uv.source().vertex_id())}; }
  template <ed E> size_t source_id(const E& uv) const { return a_source_id(uv.source().vertex_id()); }
  template <ed E> int edge_value(const E& uv) const { return a_edge_value(uv.source().vertex_id(), uv.value()); }
  template <vd U> int vertex_value(const U& u) const { return a_vertex_value(u.vertex_id()); }
  int    graph_value() const { touch(); return 42; }
  template <vd U> size_t partition_id(const U& u) const { return a_partition(u.vertex_id()); }
  int    num_partitions() const { touch(); return 3; }
};
// free functions
struct by_free : store {
  using store::store;
};
// both, the free ones losing
struct by_both : by_member {
  using by_member::by_member;
};

#define COMMON(T)                                                                                                      \
  template <vd U> auto& edges(T& g, const U& u) { return g.c[u.vertex_id()]; }                                         \
  template <vd U> auto& edges(const T& g, const U& u) { return g.c[u.vertex_id()]; }                                   \
  template <ed E> size_t target_id(const T& g, const E& uv) {                                                          \
    touch();                                                                                                           \
    return static_cast<size_t>(g.c[uv.source().vertex_id()][uv.value()]);                                              \
  }
COMMON(by_member) COMMON(by_free) COMMON(by_both)
#define FREE(T, L) /* L: how much the losing answers are off */                                                        \
  inline auto vertices(T& g) { auto& c = g.c; if (L) return al::vertex_descriptor_view<VIt>(size_t{0}, size_t{0}); return SHORT(VIt); }      \
  inline auto vertices(const T& g) { auto& c = g.c; if (L) return al::vertex_descriptor_view<CVIt>(size_t{0}, size_t{0}); return SHORT(CVIt); } \
  inline auto vertices(T& g, int p) { auto& c = g.c; p += L; return PART(VIt); }                                       \
  inline auto vertices(const T& g, int p) { auto& c = g.c; p += L; return PART(CVIt); }                                \
  inline auto find_vertex(T& g, size_t uid) { return al::vertex_descriptor_view<VIt>::iterator{g.a_find(uid) + L}; }   \
  inline auto find_vertex(const T& g, size_t uid) { return al::vertex_descriptor_view<CVIt>::iterator{g.a_find(uid) + L}; } \
  inline int  num_vertices(const T& g) { return g.a_num_vertices() + L; }                                              \
  inline int  num_vertices(const T& g, int p) { return g.a_num_vertices_p(static_cast<size_t>(p)) + L; }               \
  inline int  num_edges(const T& g) { return g.a_num_edges() + L; }                                                    \
  inline bool has_edges(const T& g) { return g.a_has_edges() != (L != 0); }                                            \
  template <vd U> int num_edges(const T& g, const U& u) { return g.a_num_edges_u(u.vertex_id()) + L; }                 \
  inline int  num_edges(const T& g, size_t u) { return g.a_num_edges_id(u) + L; }                                      \
  template <vd U> int degree(const T& g, const U& u) { return g.a_degree_u(u.vertex_id()) + L; }                       \
  inline int  degree(const T& g, size_t u) { return g.a_degree_id(u) + L; }                                            \
  template <vd U> int in_degree(const T& g, const U& u) { return g.a_in_degree_u(u.vertex_id()) + L; }                 \
  inline int  in_degree(const T& g, size_t u) { return g.a_in_degree_id(u) + L; }                                      \
  template <vd U, vd V> int find_vertex_edge(const T& g, const U& u, const V& v) { return g.a_edge_uv(u.vertex_id(), v.vertex_id()) + L; } \
  template <vd U> int find_vertex_edge(const T& g, const U& u, size_t v) { return g.a_edge_uid(u.vertex_id(), v) + L; } \
  inline int  find_vertex_edge(const T& g, size_t u, size_t v) { return g.a_edge_idid(u, v) + L; }                     \
  template <vd U, vd V> int find_in_edge(const T& g, const U& u, const V& v) { return -g.a_edge_uv(u.vertex_id(), v.vertex_id()) - L; } \
  template <vd U> int find_in_edge(const T& g, const U& u, size_t v) { return -g.a_edge_uid(u.vertex_id(), v) - L; }   \
  inline int  find_in_edge(const T& g, size_t u, size_t v) { return -g.a_edge_idid(u, v) - L; }                        \
  template <vd U, vd V> bool contains_edge(const T& g, const U& u, const V& v) { return g.a_contains_uv(u.vertex_id(), v.vertex_id()) != (L != 0); } \
  inline bool contains_edge(const T& g, size_t u, size_t v) { return g.a_contains_idid(u, v) != (L != 0); }            \
  template <vd U, vd V> bool contains_in_edge(const T& g, const U& u, const V& v) { return g.a_contains_uv(u.vertex_id(), v.vertex_id()) == (L != 0); } \
  inline bool contains_in_edge(const T& g, size_t u, size_t v) { return g.a_contains_idid(u, v) == (L != 0); }         \
  template <ed E> auto target(T& g, const E& uv) { return U0{g.a_target(uv.source().vertex_id(), uv.value()) + L}; }   \
  template <ed E> auto target(const T& g, const E& uv) { return CU0{g.a_target(uv.source().vertex_id(), uv.value()) + L}; } \
  template <ed E> auto source(T& g, const E& uv) { return al::vertex_descriptor_view<VIt>::iterator{g.a_source(uv.source().vertex_id()) + L}; } \
  template <ed E> auto source(const T& g, const E& uv) { return al::vertex_descriptor_view<CVIt>::iterator{g.a_source(uv.source().vertex_id()) + L}; } \
  template <ed E> size_t source_id(const T& g, const E& uv) { return g.a_source_id(uv.source().vertex_id()) + L; }     \
  template <ed E> int edge_value(const T& g, const E& uv) { return g.a_edge_value(uv.source().vertex_id(), uv.value()) + L; } \
  template <vd U> int vertex_value(const T& g, const U& u) { return g.a_vertex_value(u.vertex_id()) + L; }             \
  inline int  graph_value(const T&) { touch(); return 42 + L; }                                                                 \
  template <vd U> size_t partition_id(const T& g, const U& u) { return g.a_partition(u.vertex_id()) + L; }             \
  inline int  num_partitions(const T&) { touch(); return 3 + L; }
FREE(by_free, 0) FREE(by_both, 1)

// Only some of the functions: the rest is derived, and from these
// (no counts, no finders: vertices, edges and target_id, plus ids that do not follow the storage order)
struct node {
  int              id;
  std::vector<int> to;
};
struct minimal {
  std::vector<node> nodes;
};
inline auto& vertices(minimal& g) { return g.nodes; }
inline auto& vertices(const minimal& g) { return g.nodes; }
template <vd U> auto& edges(minimal& g, const U& u) { return g.nodes[u.value()].to; }
template <vd U> auto& edges(const minimal& g, const U& u) { return g.nodes[u.value()].to; }
template <vd U> int vertex_id(const minimal& g, const U& u) { return g.nodes[u.value()].id; }
template <ed E> int target_id(const minimal& g, const E& uv) { return ~g.nodes[uv.source().value()].to[uv.value()]; }
template <ed E> int source_id(const minimal& g, const E& uv) { return g.nodes[uv.source().value()].id; }
inline auto find_vertex(minimal& g, int id) {
  size_t i = 0;
  while (i < g.nodes.size() && g.nodes[i].id != id) ++i;
  return al::vertex_descriptor_view<std::vector<node>::iterator>::iterator{i};
}
inline auto find_vertex(const minimal& g, int id) {
  size_t i = 0;
  while (i < g.nodes.size() && g.nodes[i].id != id) ++i;
  return al::vertex_descriptor_view<std::vector<node>::const_iterator>::iterator{i};
}
} // namespace own

template <class T, bool Const>
void preferred(Case& c) {
  constexpr bool Throwing = true;
  gen::Opt o;
  o.max_n = 5, o.min_n = 2, o.big_n = 6;
  gen::MGraph     m = gen::graph(c.s, o);
  own::Cells x(static_cast<size_t>(m.n));
  for (auto& e : m.e) x[static_cast<size_t>(e.u)].push_back(e.v);
  c.desc << gen::str(m);
  c.nontrivial = !m.e.empty();
  T gg(x);
  std::conditional_t<Const, const T, T>& g = gg;
  const own::store&                      s = gg;
#define SAME(CALL, WANT)                                                                                               \
  do {                                                                                                                 \
    PCHECK((CALL) == (WANT), #CALL " gives " << (CALL) << ", the user's function " << (WANT));                         \
    bool through = false;                                                                                              \
    own::angry   = true;                                                                                               \
    try {                                                                                                              \
      (void)(CALL);                                                                                                    \
    } catch (const own::thrown&) {                                                                                     \
      through = true;                                                                                                  \
    }                                                                                                                  \
    own::angry = false;                                                                                                \
    PCHECK(through || !Throwing, #CALL ": the exception of the user's function does not come through");                \
  } while (0)
  size_t nv = 0;
  using VD  = std::remove_cvref_t<decltype(*graph::vertices(g).begin())>;
  for (auto u : graph::vertices(g)) nv += u.vertex_id() == nv;
  PCHECK(nv == s.n() - 1, "vertices(g) lists " << nv);
  for (int p = 0; p < 3; ++p) {
    std::vector<size_t> got, want;
    for (auto u : graph::vertices(g, p)) got.push_back(u.vertex_id());
    for (size_t i = static_cast<size_t>(p); i < s.n(); ++i) want.push_back(i);
    PCHECK(got == want, "vertices(g, " << p << ") lists " << pbt::show(got));
    SAME(graph::num_vertices(g, p), s.a_num_vertices_p(static_cast<size_t>(p)));
  }
  SAME(graph::num_vertices(g), s.a_num_vertices());
  SAME(graph::num_edges(g), s.a_num_edges());
  SAME(graph::has_edges(g), s.a_has_edges());
  SAME(static_cast<int>(graph::num_partitions(g)), 3);
  SAME(graph::graph_value(g), 42);
  for (size_t i = 0; i < s.n(); ++i) {
    VD u{i};
    SAME((*graph::find_vertex(g, i)).vertex_id(), s.a_find(i));
    SAME(graph::num_edges(g, u), s.a_num_edges_u(i));
    SAME(graph::num_edges(g, i), s.a_num_edges_id(i));
    SAME(graph::degree(g, u), s.a_degree_u(i));
    SAME(graph::degree(g, i), s.a_degree_id(i));
    SAME(graph::out_degree(g, u), s.a_degree_u(i));
    SAME(graph::out_degree(g, i), s.a_degree_id(i));
    SAME(graph::in_degree(g, u), s.a_in_degree_u(i));
    SAME(graph::in_degree(g, i), s.a_in_degree_id(i));
    SAME(graph::vertex_value(g, u), s.a_vertex_value(i));
    SAME(static_cast<size_t>(graph::partition_id(g, u)), s.a_partition(i));
    { // edges by id come from the user's finder
      std::vector<size_t> got, want;
      for (auto uv : graph::edges(g, i)) got.push_back(graph::target_id(g, uv));
      for (int t : s.c[s.a_find(i)]) want.push_back(static_cast<size_t>(t));
      PCHECK(got == want, "edges(g, " << i << ") lists " << pbt::show(got) << " instead of the edges of the vertex the user's find_vertex gives");
    }
    size_t k = 0;
    for (auto uv : graph::edges(g, u)) {
      SAME(graph::target_id(g, uv), static_cast<size_t>(s.c[i][k]));
      SAME(graph::source_id(g, uv), s.a_source_id(i));
      SAME(graph::edge_value(g, uv), s.a_edge_value(i, k));
      SAME(graph::target(g, uv).vertex_id(), s.a_target(i, k));
      SAME(graph::source(g, uv).vertex_id(), s.a_source(i));
      ++k;
    }
    PCHECK(k == s.c[i].size(), "edges(g,u) lists " << k);
    for (size_t j = 0; j < s.n(); ++j) {
      VD v{j};
      SAME(graph::find_vertex_edge(g, u, v), s.a_edge_uv(i, j));
      SAME(graph::find_vertex_edge(g, u, j), s.a_edge_uid(i, j));
      SAME(graph::find_vertex_edge(g, i, j), s.a_edge_idid(i, j));
      SAME(graph::find_out_edge(g, u, v), s.a_edge_uv(i, j));
      SAME(graph::find_in_edge(g, u, v), -s.a_edge_uv(i, j));
      SAME(graph::find_in_edge(g, u, j), -s.a_edge_uid(i, j));
      SAME(graph::find_in_edge(g, i, j), -s.a_edge_idid(i, j));
      SAME(graph::contains_edge(g, u, v), s.a_contains_uv(i, j));
      SAME(graph::contains_edge(g, i, j), s.a_contains_idid(i, j));
      SAME(graph::contains_out_edge(g, i, j), s.a_contains_idid(i, j));
      SAME(graph::contains_in_edge(g, u, v), !s.a_contains_uv(i, j));
      SAME(graph::contains_in_edge(g, i, j), !s.a_contains_idid(i, j));
    }
  }
}

template <bool Const>
void derived(Case& c) {
  constexpr bool Throwing = false;
  gen::Opt o;
  o.max_n = 7;
  gen::MGraph           m = gen::graph(c.s, o);
  own::minimal     gg;
  std::vector<int> ids; // distinct ids in no order
  for (int i = 0; i < m.n; ++i) {
    int id = 10 * i + c.s.range(0, 9);
    ids.push_back(id);
  }
  for (int i = m.n - 1; i > 0; --i) std::swap(ids[static_cast<size_t>(i)], ids[static_cast<size_t>(c.s.range(0, i))]);
  for (int i = 0; i < m.n; ++i) gg.nodes.push_back({ids[static_cast<size_t>(i)], {}});
  for (auto& e : m.e) gg.nodes[static_cast<size_t>(e.u)].to.push_back(~ids[static_cast<size_t>(e.v)]);
  c.desc << gen::str(m) << " ids " << pbt::show(ids);
  c.nontrivial                                                 = m.n >= 2 && !m.e.empty();
  std::conditional_t<Const, const own::minimal, own::minimal>& g = gg;
  auto n = static_cast<size_t>(m.n);
  SAME(static_cast<size_t>(graph::num_vertices(g)), n);
  SAME(static_cast<size_t>(graph::num_edges(g)), m.e.size());
  SAME(graph::has_edges(g), !m.e.empty());
  std::vector<int> listed;
  for (auto u : graph::vertices(g)) listed.push_back(graph::vertex_id(g, u));
  PCHECK(listed == ids, "vertices listed " << pbt::show(listed));
  for (size_t i = 0; i < n; ++i) {
    int  id = ids[i];
    auto u  = *graph::find_vertex(g, id);
    SAME(graph::vertex_id(g, u), id);
    SAME(static_cast<size_t>(graph::degree(g, u)), gg.nodes[i].to.size());
    SAME(static_cast<size_t>(graph::degree(g, id)), gg.nodes[i].to.size());
    SAME(static_cast<size_t>(graph::num_edges(g, u)), gg.nodes[i].to.size());
    SAME(static_cast<size_t>(graph::num_edges(g, id)), gg.nodes[i].to.size());
    std::vector<int> a, b, want;
    for (int t : gg.nodes[i].to) want.push_back(~t);
    for (auto uv : graph::edges(g, u)) {
      a.push_back(graph::target_id(g, uv));
      SAME(graph::source_id(g, uv), id);
      SAME(graph::vertex_id(g, graph::target(g, uv)), a.back());
      SAME(graph::vertex_id(g, graph::source(g, uv)), id);
    }
    for (auto uv : graph::edges(g, id)) b.push_back(graph::target_id(g, uv));
    PCHECK(a == want && b == want, "vertex " << id << " lists " << pbt::show(a) << ", by id " << pbt::show(b) << ", has " << pbt::show(want));
    for (size_t j = 0; j < n; ++j) {
      int  jd  = ids[j];
      auto v   = *graph::find_vertex(g, jd);
      bool has = std::find(want.begin(), want.end(), jd) != want.end();
      SAME(graph::contains_edge(g, u, v), has);
      SAME(graph::contains_edge(g, id, jd), has);
      SAME(graph::contains_in_edge(g, v, u), has);
      SAME(graph::contains_in_edge(g, jd, id), has);
      if (has) {
        SAME(graph::target_id(g, graph::find_vertex_edge(g, u, v)), jd);
        SAME(graph::target_id(g, graph::find_vertex_edge(g, u, jd)), jd);
        SAME(graph::target_id(g, graph::find_vertex_edge(g, id, jd)), jd);
      }
    }
  }
}
struct Reg {
  Reg() {
    auto t = [](const char* n, void (*f)(Case&)) { pbt::targets().push_back({n, f, 1.0}); };
    t("members", preferred<own::by_member, false>);
    t("members const", preferred<own::by_member, true>);
    t("free functions", preferred<own::by_free, false>);
    t("free functions const", preferred<own::by_free, true>);
    t("members before free functions", preferred<own::by_both, false>);
    t("members before free functions const", preferred<own::by_both, true>);
    t("derived", derived<false>);
    t("derived const", derived<true>);
  }
} reg_;
