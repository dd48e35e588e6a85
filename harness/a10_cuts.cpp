// A10 (MODE=0) articulation points and A11 (MODE=1) biconnected components, against removing each vertex.
#include "kinds_list.hpp"
#include <graph/algorithm/articulation_points.hpp>
#include <graph/algorithm/biconnected_components.hpp>
#ifndef MODE
#  define MODE 0
#endif
using Adjacency = std::vector<std::vector<int>>;
// label of each vertex's component once x is removed (-1 for x itself)
inline std::vector<int> parts(const Adjacency& a, int x) {
  std::vector<int> r(a.size(), -1);
  int              k = 0;
  for (size_t s = 0; s < a.size(); ++s) {
    if (static_cast<int>(s) == x || r[s] >= 0) continue;
    std::vector<size_t> q{s};
    r[s] = k;
    while (!q.empty()) {
      auto u = q.back();
      q.pop_back();
      for (int v : a[u])
        if (v != x && r[static_cast<size_t>(v)] < 0) r[static_cast<size_t>(v)] = k, q.push_back(static_cast<size_t>(v));
    }
    ++k;
  }
  return r;
}
inline std::set<int> cuts(const Adjacency& a) { // vertices whose neighbors fall apart without them
  std::set<int> r;
  for (size_t x = 0; x < a.size(); ++x) {
    auto          p = parts(a, static_cast<int>(x));
    std::set<int> s;
    for (int v : a[x])
      if (v != static_cast<int>(x)) s.insert(p[static_cast<size_t>(v)]);
    if (s.size() > 1) r.insert(static_cast<int>(x));
  }
  return r;
}
// Two edges at x belong together exactly if their other ends stay connected without x
inline std::multiset<std::set<int>> blocks(const Adjacency& a) {
  std::map<std::pair<int, int>, int> id;
  std::vector<std::pair<int, int>>   ends;
  for (size_t u = 0; u < a.size(); ++u)
    for (int v : a[u])
      if (v != static_cast<int>(u)) {
        std::pair<int, int> p{std::min(static_cast<int>(u), v), std::max(static_cast<int>(u), v)};
        if (id.emplace(p, static_cast<int>(ends.size())).second) ends.push_back(p);
      }
  std::vector<int> cls(ends.size());
  std::iota(cls.begin(), cls.end(), 0);
  auto join = [&](int x, int y) {
    x = cls[static_cast<size_t>(x)], y = cls[static_cast<size_t>(y)];
    if (x != y)
      for (int& k : cls)
        if (k == y) k = x;
  };
  for (size_t x = 0; x < a.size(); ++x) {
    auto               p = parts(a, static_cast<int>(x));
    std::map<int, int> first; // one edge of each part
    for (int v : a[x])
      if (v != static_cast<int>(x)) {
        int e = id[{std::min(static_cast<int>(x), v), std::max(static_cast<int>(x), v)}];
        auto [it, fresh] = first.emplace(p[static_cast<size_t>(v)], e);
        if (!fresh) join(it->second, e);
      }
  }
  std::map<int, std::set<int>> m;
  std::set<int>                covered;
  for (size_t e = 0; e < ends.size(); ++e) {
    m[cls[e]].insert({ends[e].first, ends[e].second});
    covered.insert({ends[e].first, ends[e].second});
  }
  std::multiset<std::set<int>> r;
  for (auto& [k, s] : m) r.insert(s);
  for (size_t u = 0; u < a.size(); ++u)
    if (!covered.count(static_cast<int>(u))) r.insert({static_cast<int>(u)});
  return r;
}
template <class G>
void check(Case& c, G& g) {
  Lists<G> L(g);
  using Id = graph::vertex_id_t<G>;
#if MODE == 0
  auto want = cuts(L.adj);
  auto judge = [&](const auto& out) {
    std::set<int> got;
    for (auto x : out) PCHECK(got.insert(static_cast<int>(x)).second, "articulation_points: " << +x << " output twice");
    PCHECK(got == want, "articulation_points: " << pbt::show(got) << " instead of " << pbt::show(want));
  };
  if (c.s.chance(1, 2)) {
    std::vector<Id> out;
    graph::articulation_points(g, std::back_inserter(out));
    judge(out);
  } else {
    std::vector<Id> out(L.n(), Id(0));
    std::vector<Id> sized(want.size());
    if (c.s.chance(1, 2)) {
      std::list<long> l;
      graph::articulation_points(g, std::front_inserter(l));
      judge(l);
    }
    graph::articulation_points(g, out.begin());
    out.resize(want.size());
    judge(out);
  }
  if (!want.empty()) c.label("cut vertices");
  if (want.empty() && L.m > 6) c.label("no cut vertex");
#else
  auto want = blocks(L.adj);
  auto judge = [&](const auto& out) {
    std::multiset<std::set<int>> got;
    for (auto& comp : out) {
      std::set<int> s;
      for (auto x : comp) PCHECK(s.insert(static_cast<int>(x)).second, "biconnected_components: " << +x << " repeated in one component");
      got.insert(s);
    }
    auto text = [](const std::multiset<std::set<int>>& m) { std::string r; for (auto& s : m) r += pbt::show(s); return r; };
    PCHECK(got == want, "biconnected_components: " << text(got) << " instead of " << text(want));
  };
  switch (c.s.range(0, 2)) {
  case 0: { std::vector<std::vector<Id>> out; graph::biconnected_components(g, out); judge(out); break; }
  case 1: { std::list<std::set<Id>> out; graph::biconnected_components(g, out); judge(out); break; }
  case 2: { std::deque<std::list<long>> out; graph::biconnected_components(g, out); judge(out); break; }
  }
  if (want.size() > 1) c.label("several components");
  for (auto& s : want)
    if (s.size() > 2) { c.label("component of three or more"); break; }
#endif
  c.nontrivial = L.n() >= 3 && L.m >= 4;
}
// blocks glued together in a random way
inline void glue(Case& c, MGraph& m, const gen::Opt& o, bool once) {
  m.n = 0;
  m.e.clear();
  int k = c.s.range(1, 4);
  for (int b = 0; b < k; ++b) {
    int              size = c.s.range(1, 5);
    std::vector<int> vs;
    if (m.n > 0 && c.s.chance(3, 4)) vs.push_back(c.s.range(0, m.n - 1));
    while (static_cast<int>(vs.size()) < size) vs.push_back(m.n++);
    auto add = [&](int x, int y) {
      gen::Edge e{};
      e.u = x, e.v = y, e.w = c.s.range(o.wlo, o.whi);
      m.e.push_back(e);
      if (!once && x != y) std::swap(e.u, e.v), m.e.push_back(e);
    };
    bool ring = c.s.chance(2, 3);
    for (size_t i = 0; i + 1 < vs.size(); ++i) add(vs[i], vs[i + 1]);
    if (ring && vs.size() > 2) add(vs.back(), vs.front());
    if (c.s.chance(1, 6)) add(vs[0], vs[0]);
    if (c.s.chance(1, 4) && vs.size() > 1) add(vs[0], vs[1]);
    if (c.s.chance(1, 4) && vs.size() > 3) add(vs[0], vs[2]);
  }
  std::vector<int> p(static_cast<size_t>(m.n)); // any numbering, any order
  std::iota(p.begin(), p.end(), 0);
  for (size_t i = p.size(); i > 1; --i) std::swap(p[i - 1], p[static_cast<size_t>(c.s.range(0, static_cast<int>(i) - 1))]);
  for (auto& e : m.e) e.u = p[static_cast<size_t>(e.u)], e.v = p[static_cast<size_t>(e.v)];
  for (size_t i = m.e.size(); i > 1; --i) std::swap(m.e[i - 1], m.e[static_cast<size_t>(c.s.range(0, static_cast<int>(i) - 1))]);
}
template <class G>
void run(Case& c) {
  gen::Opt o;
  o.max_n     = 9;
  o.big_n     = 24;
  o.symmetric = true;
  MGraph m;
  if (c.s.chance(1, 2)) {
    m = algo_graph<G>(c, o);
  } else {
    glue(c, m, o, is_undirected<G>::value);
    if (is_compressed<G>::value) gen::sort_by_source(m);
    c.label("glued blocks");
  }
  c.desc << gen::str(m);
  G g = make<G>(m);
  if constexpr (graph::adj_list::index_adjacency_list<const G>)
    if (c.s.chance(1, 4)) return check<const G>(c, g);
  check<G>(c, g);
}
struct Cuts {
  template <class G> static constexpr bool accepts = algo_kind<G>;
  template <class G> static void run(Case& c) { ::run<G>(c); }
};
RegisterKinds<Cuts> reg_;
