// V06: the pipe syntax and the adaptor objects give the same view as the direct call, which composes with std::views.
#include "kinds.hpp"
#include <graph/views/adaptors.hpp>
#include <memory_resource>
namespace vw = graph::views;
namespace ad = graph::views::adaptors;

template <class D, bool Basic>
struct ValueFn {
  std::shared_ptr<int> salt;
  std::string          pad;
  template <class G>
  long operator()(const G&, const D& d) const {
    if (pad.size() != 40) return -1;
    return static_cast<long>(std::hash<D>{}(d) * 31u + static_cast<size_t>(*salt));
  }
};
using Rec = std::array<long, 6>;
template <class Id>
long idnum(const Id& i) { return static_cast<long>(std::hash<Id>{}(i) & 0x7fffffff); }
struct Ser {
  template <class X>
  Rec operator()(const X& x) const {
    Rec r{-1, -1, -1, -1, -1, -1};
    if constexpr (requires { x.id; }) r[0] = idnum(x.id);
    if constexpr (requires { x.source_id; }) r[1] = idnum(x.source_id);
    if constexpr (requires { x.target_id; }) r[2] = idnum(x.target_id);
    if constexpr (requires { x.vertex; }) r[3] = static_cast<long>(std::hash<std::remove_cvref_t<decltype(x.vertex)>>{}(x.vertex));
    if constexpr (requires { x.edge; }) r[4] = static_cast<long>(std::hash<std::remove_cvref_t<decltype(x.edge)>>{}(x.edge));
    if constexpr (requires { x.value; }) r[5] = x.value;
    return r;
  }
};
struct Keep {
  int mod, want;
  bool operator()(const Rec& r) const {
    unsigned long h = 0;
    for (long x : r) h = h * 1000003u + static_cast<unsigned long>(x);
    h ^= h >> 17;
    return static_cast<int>(h % static_cast<unsigned long>(mod)) != want;
  }
};
template <class X>
struct Pred {
  Keep k;
  template <class Y> bool operator()(const Y& y) const { return k(Ser{}(y)); }
};
template <class V>
std::vector<Rec> all(V v) {
  std::vector<Rec> o;
  for (auto&& x : v) o.push_back(Ser{}(x));
  return o;
}
inline std::string show(const std::vector<Rec>& v) {
  std::ostringstream o;
  for (auto& r : v) {
    o << '(';
    for (long x : r)
      if (x != -1) o << ' ' << x;
    o << " )";
  }
  return o.str();
}
template <class D, class P>
void same(Case& c, const char* what, D direct, P pipe) {
  using DV = decltype(direct());
  using PV = decltype(pipe());
  std::vector<Rec> want = all(direct());
  PCHECK((std::is_same_v<DV, PV>), what << ": the pipe syntax gives another kind of view");
  auto got = all(pipe());
  PCHECK(got == want, what << ": the pipe syntax yields " << show(got) << " and the direct call " << show(want));
  if constexpr (std::ranges::sized_range<DV>) PCHECK(std::ranges::size(pipe()) == want.size(), what << ": size() of the piped view");
  constexpr bool composes = std::ranges::view<PV> && std::ranges::input_range<PV>;
  PCHECK(composes, what << ": the result is not a view that std::views adaptors accept");
  if constexpr (composes) {
    Keep k{c.s.range(1, 4), 0};
    k.want     = c.s.range(0, k.mod);
    long  take = c.s.range(0, static_cast<int>(want.size()) + 1), drop = c.s.range(0, 2);
    std::vector<Rec> kept, w2, o;
    for (auto& r : want)
      if (k(r)) kept.push_back(r);
    switch (c.s.range(0, 2)) {
    case 0:
      for (auto&& r : pipe() | std::views::transform(Ser{}) | std::views::filter(k) | std::views::take(take)) o.push_back(r);
      w2.assign(kept.begin(), kept.begin() + std::min<long>(take, static_cast<long>(kept.size())));
      PCHECK(o == w2, what << ": transform, filter, take(" << take << ") gives " << show(o) << " instead of " << show(w2));
      break;
    case 1:
      for (auto&& r : pipe() | std::views::filter(Pred<int>{k}) | std::views::transform(Ser{})) o.push_back(r);
      PCHECK(o == kept, what << ": filter, transform gives " << show(o) << " instead of " << show(kept));
      break;
    case 2: {
      auto v = pipe() | std::views::drop(drop) | std::views::transform(Ser{});
      auto w = std::move(v);
      for (auto&& r : w) o.push_back(r);
      w2.assign(want.begin() + std::min<long>(drop, static_cast<long>(want.size())), want.end());
      PCHECK(o == w2, what << ": drop(" << drop << "), transform gives " << show(o) << " instead of " << show(w2));
      break;
    }
    }
  }
}
// the same closure used on the graph twice, and kept while the temporary it was built from is gone
template <class D, class Mk, class G>
void closure(Case& c, const char* what, G& g, D direct, Mk mk) {
  same(c, what, direct, [&] { return g | mk(); });
  if (!c.s.chance(1, 3)) return;
  auto cl = std::make_unique<decltype(mk())>(mk());
  auto v1 = g | *cl;
  auto v2 = g | *cl;
  cl.reset();
  auto want = all(direct());
  auto v3   = v2;
  PCHECK(all(v1) == want, what << ": a view made from a kept closure yields another sequence");
  PCHECK(all(v2) == want, what << ": a view made from a closure used before yields another sequence");
  if constexpr (std::ranges::forward_range<decltype(v3)>) PCHECK(all(v3) == want, what << ": a copied view yields another sequence");
}

template <class G>
void pipes(Case& c, G& g) {
  using VD = std::remove_cvref_t<decltype(*graph::vertices(g).begin())>;
  using ED = std::remove_cvref_t<decltype(*graph::edges(g, std::declval<VD>()).begin())>;
  using Id = graph::vertex_id_t<std::remove_const_t<G>>;
  auto n   = static_cast<size_t>(graph::num_vertices(g));
  ValueFn<VD, false> vf{std::make_shared<int>(c.s.range(0, 100)), std::string(40, 'x')};
  ValueFn<ED, false> ef{vf.salt, vf.pad};
  auto mv = [](const auto& f) { return f; }; // a temporary
  std::pmr::polymorphic_allocator<bool> pa;
  closure(c, "vertexlist()", g, [&] { return vw::vertexlist(g); }, [&] { return ad::vertexlist(); });
  closure(c, "vertexlist(vvf)", g, [&] { return vw::vertexlist(g, vf); }, [&] { return ad::vertexlist(mv(vf)); });
  closure(c, "basic_vertexlist()", g, [&] { return vw::basic_vertexlist(g); }, [&] { return ad::basic_vertexlist(); });
  closure(c, "basic_vertexlist(vvf)", g, [&] { return vw::basic_vertexlist(g, vf); }, [&] { return ad::basic_vertexlist(vf); });
  closure(c, "edgelist()", g, [&] { return vw::edgelist(g); }, [&] { return ad::edgelist(); });
  closure(c, "edgelist(evf)", g, [&] { return vw::edgelist(g, ef); }, [&] { return ad::edgelist(mv(ef)); });
  closure(c, "basic_edgelist()", g, [&] { return vw::basic_edgelist(g); }, [&] { return ad::basic_edgelist(); });
  closure(c, "basic_edgelist(evf)", g, [&] { return vw::basic_edgelist(g, ef); }, [&] { return ad::basic_edgelist(ef); });
  closure(c, "vertices_topological_sort()", g, [&] { return vw::vertices_topological_sort(g); }, [&] { return ad::vertices_topological_sort(); });
  closure(c, "vertices_topological_sort(vvf)", g, [&] { return vw::vertices_topological_sort(g, vf); }, [&] { return ad::vertices_topological_sort(mv(vf)); });
  closure(c, "vertices_topological_sort(vvf,alloc)", g, [&] { return vw::vertices_topological_sort(g, vf, pa); }, [&] { return ad::vertices_topological_sort(vf, pa); });
  closure(c, "edges_topological_sort()", g, [&] { return vw::edges_topological_sort(g); }, [&] { return ad::edges_topological_sort(); });
  closure(c, "edges_topological_sort(evf)", g, [&] { return vw::edges_topological_sort(g, ef); }, [&] { return ad::edges_topological_sort(mv(ef)); });
  closure(c, "edges_topological_sort(evf,alloc)", g, [&] { return vw::edges_topological_sort(g, ef, pa); }, [&] { return ad::edges_topological_sort(ef, pa); });
  same(c, "adaptors::vertexlist(g)", [&] { return vw::vertexlist(g); }, [&] { return ad::vertexlist(g); });
  same(c, "adaptors::vertexlist(g,vvf)", [&] { return vw::vertexlist(g, vf); }, [&] { return ad::vertexlist(g, vf); });
  same(c, "adaptors::basic_vertexlist(g)", [&] { return vw::basic_vertexlist(g); }, [&] { return ad::basic_vertexlist(g); });
  same(c, "adaptors::basic_vertexlist(g,vvf)", [&] { return vw::basic_vertexlist(g, vf); }, [&] { return ad::basic_vertexlist(g, vf); });
  same(c, "adaptors::edgelist(g)", [&] { return vw::edgelist(g); }, [&] { return ad::edgelist(g); });
  same(c, "adaptors::edgelist(g,evf)", [&] { return vw::edgelist(g, ef); }, [&] { return ad::edgelist(g, ef); });
  same(c, "adaptors::basic_edgelist(g)", [&] { return vw::basic_edgelist(g); }, [&] { return ad::basic_edgelist(g); });
  same(c, "adaptors::basic_edgelist(g,evf)", [&] { return vw::basic_edgelist(g, ef); }, [&] { return ad::basic_edgelist(g, ef); });
  same(c, "adaptors::vertices_topological_sort(g)", [&] { return vw::vertices_topological_sort(g); }, [&] { return ad::vertices_topological_sort(g); });
  same(c, "adaptors::vertices_topological_sort(g,vvf)", [&] { return vw::vertices_topological_sort(g, vf); }, [&] { return ad::vertices_topological_sort(g, vf); });
  same(c, "adaptors::vertices_topological_sort(g,vvf,alloc)", [&] { return vw::vertices_topological_sort(g, vf, pa); }, [&] { return ad::vertices_topological_sort(g, vf, pa); });
  same(c, "adaptors::edges_topological_sort(g)", [&] { return vw::edges_topological_sort(g); }, [&] { return ad::edges_topological_sort(g); });
  same(c, "adaptors::edges_topological_sort(g,evf)", [&] { return vw::edges_topological_sort(g, ef); }, [&] { return ad::edges_topological_sort(g, ef); });
  same(c, "adaptors::edges_topological_sort(g,evf,alloc)", [&] { return vw::edges_topological_sort(g, ef, pa); }, [&] { return ad::edges_topological_sort(g, ef, pa); });
  size_t m = 0;
  for (auto u : graph::vertices(g))
    for ([[maybe_unused]] auto&& uv : graph::edges(g, u)) ++m;
  c.nontrivial = n >= 2 && m >= 1;
  if (!n) return;
  auto i = c.s.range(0, static_cast<int>(n) - 1);
  Id   uid{};
  VD   u = *graph::vertices(g).begin();
  for (auto x : graph::vertices(g)) {
    uid = graph::vertex_id(g, x);
    u   = x;
    if (i-- == 0) break;
  }
#define ONE(name, ARG, f)                                                                                                                        \
  closure(c, #name "(" #ARG ")", g, [&] { return vw::name(g, ARG); }, [&] { return ad::name(ARG); });                                            \
  closure(c, #name "(" #ARG "," #f ")", g, [&] { return vw::name(g, ARG, f); }, [&] { return ad::name(ARG, mv(f)); });
#define CALL(name, f)                                                                                                                            \
  same(c, "adaptors::" #name "(g,uid)", [&] { return vw::name(g, uid); }, [&] { return ad::name(g, uid); });                                      \
  same(c, "adaptors::" #name "(g,uid," #f ")", [&] { return vw::name(g, uid, f); }, [&] { return ad::name(g, uid, f); });
#define ALLOC(name, ARG, f)                                                                                                                      \
  closure(c, #name "(" #ARG "," #f ",alloc)", g, [&] { return vw::name(g, ARG, f, pa); }, [&] { return ad::name(ARG, f, pa); });                  \
  same(c, "adaptors::" #name "(g," #ARG "," #f ",alloc)", [&] { return vw::name(g, ARG, f, pa); }, [&] { return ad::name(g, ARG, f, pa); });
  ONE(incidence, uid, ef) CALL(incidence, ef)
  ONE(out_incidence, uid, ef) CALL(out_incidence, ef)
  ONE(basic_incidence, uid, ef) CALL(basic_incidence, ef)
  ONE(basic_out_incidence, uid, ef) CALL(basic_out_incidence, ef)
  ONE(neighbors, uid, vf) CALL(neighbors, vf)
  ONE(neighbors, u, vf)
  ONE(out_neighbors, uid, vf) CALL(out_neighbors, vf)
  ONE(basic_neighbors, uid, vf) CALL(basic_neighbors, vf)
  ONE(basic_out_neighbors, uid, vf) CALL(basic_out_neighbors, vf)
  ONE(vertices_dfs, uid, vf) CALL(vertices_dfs, vf) ONE(vertices_dfs, u, vf) ALLOC(vertices_dfs, uid, vf)
  ONE(edges_dfs, uid, ef) CALL(edges_dfs, ef) ONE(edges_dfs, u, ef) ALLOC(edges_dfs, uid, ef)
  ONE(vertices_bfs, uid, vf) CALL(vertices_bfs, vf) ONE(vertices_bfs, u, vf) ALLOC(vertices_bfs, uid, vf)
  ONE(edges_bfs, uid, ef) CALL(edges_bfs, ef) ONE(edges_bfs, u, ef) ALLOC(edges_bfs, uid, ef)
  if constexpr (graph::adj_list::index_bidirectional_adjacency_list<std::remove_const_t<G>> && !std::is_const_v<G>) {
    using IE = std::remove_cvref_t<decltype(*graph::in_edges(g, u).begin())>;
    ValueFn<IE, false> jf{vf.salt, vf.pad};
    ONE(in_incidence, uid, jf) CALL(in_incidence, jf)
    ONE(basic_in_incidence, uid, jf) CALL(basic_in_incidence, jf)
    ONE(in_neighbors, uid, vf) CALL(in_neighbors, vf)
    ONE(basic_in_neighbors, uid, vf) CALL(basic_in_neighbors, vf)
    c.label("incoming views");
  }
}
template <class G>
void run(Case& c) {
  gen::Opt o;
  o.max_n  = 6;
  o.big_n  = 20;
  MGraph m = gen::graph(c.s, o);
  if (is_compressed<G>::value) gen::sort_by_source(m);
  for (size_t i = 0; i < m.e.size(); ++i) m.e[i].w = static_cast<int>(i) + 1;
  c.desc << gen::str(m);
  G g = make<G>(m);
  pipes<G>(c, g);
}
struct Pipe {
  template <class G>
  static constexpr bool accepts = graph::adj_list::index_adjacency_list<G>;
  template <class G>
  static void run(Case& c) { ::run<G>(c); }
};
RegisterKinds<Pipe> reg_;
