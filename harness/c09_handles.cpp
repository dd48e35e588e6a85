// C09: equality, order and hash of vertex and edge handles, on every kind of graph.
#include "kinds.hpp"

template <class T>
void laws(Case& c, const std::vector<T>& a, const char* what) {
  // a: pairwise different handles; equality exactly by position, hash agrees with equality, order is a strict total order
  for (size_t i = 0; i < a.size(); ++i)
    for (size_t j = 0; j < a.size(); ++j) {
      PCHECK((a[i] == a[j]) == (i == j), what << " handles " << i << " and " << j << " compare " << ((a[i] == a[j]) ? "equal" : "different"));
      PCHECK((a[i] != a[j]) == (i != j), what << " handles " << i << " and " << j << ": != disagrees with ==");
      if constexpr (std::three_way_comparable<T>) {
        bool lt = a[i] < a[j], gt = a[i] > a[j];
        PCHECK(lt + gt + (i == j) == 1, what << " handles " << i << " and " << j << ": not exactly one of <, ==, >");
        PCHECK(lt == (a[j] > a[i]), what << " handles " << i << "<" << j << " is not the reverse of >");
        PCHECK((a[i] <= a[j]) == (lt || i == j) && (a[i] >= a[j]) == (gt || i == j), what << " handles " << i << "," << j << ": <= or >=");
      }
    }
  if constexpr (std::three_way_comparable<T>) {
    size_t n = std::min<size_t>(a.size(), 14);
    for (size_t i = 0; i < n; ++i)
      for (size_t j = 0; j < n; ++j)
        for (size_t k = 0; k < n; ++k)
          if (a[i] < a[j] && a[j] < a[k])
            PCHECK(a[i] < a[k], what << " handles " << i << "<" << j << "<" << k << " is not transitive");
    auto b = a;
    std::sort(b.begin(), b.end());
    for (size_t i = 0; i + 1 < b.size(); ++i)
      PCHECK(b[i] < b[i + 1], what << " handles do not sort");
    c.label("ordered");
  } else
    c.label("unordered");
  std::unordered_set<T> set(a.begin(), a.end());
  PCHECK(set.size() == a.size(), what << " handles in a hash set: " << set.size() << " of " << a.size());
  for (auto& x : a) {
    T y = x;
    PCHECK(y == x && std::hash<T>{}(y) == std::hash<T>{}(x), what << ": a copy differs");
    PCHECK(set.count(y) == 1, what << ": a copy is not found in a hash set");
  }
}
template <class T>
void same(Case& c, const T& a, const T& b, const std::string& what) {
  PCHECK(a == b && !(a != b), what << ": handles differ");
  PCHECK(std::hash<T>{}(a) == std::hash<T>{}(b), what << ": equal handles hash differently");
  if constexpr (std::three_way_comparable<T>)
    PCHECK(!(a < b) && !(a > b) && a <= b && a >= b, what << ": equal handles are ordered");
}
template <class R>
auto collect(R&& r) {
  std::vector<std::remove_cvref_t<decltype(*r.begin())>> v;
  for (auto&& x : r) v.push_back(x);
  return v;
}
// A range of handles: size, emptiness, front, copies, default ends, postfix increment, advancing the handle itself.
template <class R>
void range_laws(Case& c, R r, const char* what) {
  auto v = collect(r);
  PCHECK(static_cast<size_t>(std::ranges::distance(r.begin(), r.end())) == v.size(), what << " range: distance");
  if constexpr (requires { r.size(); })
    PCHECK(static_cast<size_t>(r.size()) == v.size(), what << " range: size " << r.size() << ", lists " << v.size());
  else
    c.label("unsized range");
  PCHECK(std::ranges::empty(r) == v.empty(), what << " range: empty");
  R    copy = r;
  auto w    = collect(copy);
  PCHECK(w == v, what << " range: a copy lists other handles");
  auto z = collect(r);
  PCHECK(z == v, what << " range: the second enumeration lists other handles");
  if (!v.empty()) {
    same(c, *r.begin(), v[0], "front");
    auto it = r.begin(), jt = r.begin();
    for (size_t i = 0; i < v.size(); ++i) {
      PCHECK(it == jt && it != r.end(), what << " range: iterators at " << i);
      auto old = it++;
      PCHECK(*old == v[i] && old == jt, what << " range: postfix increment at " << i);
      ++jt;
    }
    PCHECK(it == r.end(), what << " range: end");
    // advancing a handle gives the next one of the range
    auto h = v[0];
    if constexpr (requires { ++h; h++; }) {
      for (size_t i = 0; i + 1 < v.size(); ++i) {
        auto k = h;
        auto o = k++;
        same(c, o, v[i], "postfix result");
        same(c, k, v[i + 1], "postfix advance");
        auto& ref = ++h;
        PCHECK(&ref == &h, what << ": prefix increment returns another handle");
        same(c, h, v[i + 1], "prefix advance");
      }
      c.label("handles advanced");
    }
  }
}

template <class G0, class G>
void handles(Case& c, G& g, const MGraph& m) {
  using ID  = idc<G0>;
  auto  vs  = collect(graph::vertices(g));
  using VId = std::remove_cvref_t<decltype(graph::vertex_id(g, vs[0]))>;
  auto  n   = static_cast<int>(vs.size());
  range_laws(c, graph::vertices(g), "vertex");
  laws(c, vs, "vertex");
  // enumeration order and handle order
  using VD = std::remove_cvref_t<decltype(vs[0])>;
  if constexpr (std::three_way_comparable<VD>)
    PCHECK(std::is_sorted(vs.begin(), vs.end()), "vertex handles are not ordered as enumerated");
  std::map<int, VD> by_id;
  for (auto& u : vs) by_id.emplace(ID::dec(graph::vertex_id(g, u)), u);
  PCHECK(by_id.size() == vs.size(), "two vertices share an id");
  for (auto& [id, u] : by_id) {
    same(c, *graph::find_vertex(g, static_cast<VId>(ID::enc(id))), u, "find_vertex");
    for (auto& [jd, v] : by_id)
      PCHECK((u == v) == (id == jd), "vertex handles of ids " << id << " and " << jd);
  }
  // edges: all out-edge handles of all vertices are different from each other
  using ED = std::remove_cvref_t<decltype(*graph::edges(g, vs[0]).begin())>;
  std::vector<ED> all;
  for (auto& u : vs) {
    auto es = collect(graph::edges(g, u));
    range_laws(c, graph::edges(g, u), "edge");
    auto by = collect(graph::edges(g, graph::vertex_id(g, u)));
    PCHECK(by == es, "edges by id of vertex " << graph::vertex_id(g, u) << " are other handles");
    if constexpr (std::three_way_comparable<ED>)
      PCHECK(std::is_sorted(es.begin(), es.end()), "edge handles of a vertex are not ordered as enumerated");
    for (auto& uv : es) {
      same(c, graph::source(g, uv), u, "source of an edge");
      same(c, graph::target(g, uv), by_id.at(ID::dec(graph::target_id(g, uv))), "target of an edge");
      auto f = std::find_if(es.begin(), es.end(), [&](auto& e) { return graph::target_id(g, e) == graph::target_id(g, uv); });
      same(c, static_cast<ED>(graph::find_vertex_edge(g, u, graph::target(g, uv))), *f, "find_vertex_edge");
      all.push_back(uv);
    }
  }
  laws(c, all, "edge");
  if constexpr (requires { graph::in_edges(g, vs[0]); } && !is_undirected<G0>::value) {
    using ID2 = std::remove_cvref_t<decltype(*graph::in_edges(g, vs[0]).begin())>;
    std::vector<ID2> ins;
    for (auto& u : vs) {
      range_laws(c, graph::in_edges(g, u), "in-edge");
      auto es = collect(graph::in_edges(g, u));
      PCHECK(collect(graph::in_edges(g, graph::vertex_id(g, u))) == es, "in_edges by id are other handles");
      for (auto& vu : es) {
        same(c, graph::target(g, vu), u, "target of an in-edge");
        same(c, graph::source(g, vu), by_id.at(ID::dec(graph::source_id(g, vu))), "source of an in-edge");
        ins.push_back(vu);
      }
    }
    laws(c, ins, "in-edge");
    c.label("in-edges");
  }
  // handles usable as keys: mapping a handle to its id and back
  std::unordered_map<VD, int> hm;
  for (auto& u : vs) hm[u] = ID::dec(graph::vertex_id(g, u));
  for (auto& u : all)
    PCHECK(hm.at(graph::target(g, u)) == ID::dec(graph::target_id(g, u)), "a target handle finds another vertex in a hash map");
  c.nontrivial = n >= 2 && !all.empty();
}

template <class G>
void run(Case& c) {
  gen::Opt o;
  o.max_n  = 6;
  o.min_n  = 1;
  o.big_n  = 16;
  MGraph m = gen::graph(c.s, o);
  if (m.e.size() > 60) m.e.resize(60);
  for (size_t i = 0; i < m.e.size(); ++i) m.e[i].w = static_cast<int>(i) + 1;
  c.desc << gen::str(m);
  G g = make<G>(m);
  if constexpr (requires(const G& cg) { graph::vertices(cg); graph::find_vertex(cg, graph::vertex_id_t<G>{}); graph::edges(cg, graph::vertex_id_t<G>{}); }) {
    if (c.s.chance(1, 3)) {
      handles<G, const G>(c, g, m);
      return;
    }
  }
  handles<G, G>(c, g, m);
}
struct Handles {
  template <class G>
  static void run(Case& c) { ::run<G>(c); }
};
RegisterKinds<Handles> reg_;
