// A12 (MODE=0) triangle count, A13 (MODE=1) Jaccard coefficients, A14 (MODE=2) maximal independent set,
// A15 (MODE=3) label propagation.
#include "kinds_list.hpp"
#include <cassert>
#include <graph/algorithm/jaccard.hpp>
#include <graph/algorithm/label_propagation.hpp>
#include <graph/algorithm/mis.hpp>
#include <graph/algorithm/tc.hpp>
#include <random>
#ifndef MODE
#  define MODE 0
#endif
using Adjacency = std::vector<std::vector<int>>;
inline std::vector<std::set<int>> neighbor_sets(const Adjacency& a) { // without self-loops and repetitions
  std::vector<std::set<int>> r(a.size());
  for (size_t u = 0; u < a.size(); ++u)
    for (int v : a[u])
      if (v != static_cast<int>(u)) r[u].insert(v);
  return r;
}
#if MODE == 0
template <class G>
void check(Case& c, G& g) {
  Lists<G> L(g);
  if (!std::all_of(L.adj.begin(), L.adj.end(), [](auto& l) { return std::is_sorted(l.begin(), l.end()); })) {
    c.label("lists not sorted");
    return;
  }
  auto   nb   = neighbor_sets(L.adj);
  size_t want = 0;
  for (size_t a = 0; a < nb.size(); ++a)
    for (int b : nb[a])
      if (b > static_cast<int>(a))
        for (int x : nb[static_cast<size_t>(b)])
          if (x > b && nb[a].count(x)) ++want;
  size_t got = graph::triangle_count(g);
  PCHECK(got == want, "triangle_count: " << got << " instead of " << want);
  Lists<G> after(g);
  PCHECK(after.adj == L.adj, "triangle_count changed the graph");
  if (want) c.label("triangles");
  if (want > 10) c.label("more than ten triangles");
  c.nontrivial = L.n() >= 3 && L.m >= 6;
}
#elif MODE == 1
template <class G, class F = double>
void check(Case& c, G& g) {
  Lists<G> L(g);
  using Id = graph::vertex_id_t<G>;
  auto                             nb = neighbor_sets(L.adj);
  std::map<std::pair<int, int>, int> seen;
  auto                             out = [&](Id u, Id v, auto& uv, auto val) {
    static_assert(std::is_same_v<decltype(val), F>);
    auto where = L.find(g, uv);
    PCHECK(where.first >= 0, "jaccard_coefficient: an edge that is not in the graph, " << +u << "->" << +v);
    PCHECK(where.first == static_cast<int>(u) && L.adj[static_cast<size_t>(u)][static_cast<size_t>(where.second)] == static_cast<int>(v),
                                       "jaccard_coefficient: ids " << +u << "->" << +v << " with another edge");
    PCHECK(u != v, "jaccard_coefficient: self-loop of " << +u << " reported");
    PCHECK(++seen[where] == 1, "jaccard_coefficient: " << +u << "->" << +v << " reported twice");
    auto&  a      = nb[static_cast<size_t>(u)];
    auto&  b      = nb[static_cast<size_t>(v)];
    size_t common = 0;
    for (int x : a) common += b.count(x);
    double want = static_cast<double>(common) / static_cast<double>(a.size() + b.size() - common);
    PCHECK(std::abs(static_cast<double>(val) - want) < (sizeof(F) < sizeof(double) ? 1e-5 : 1e-12), "jaccard_coefficient: " << +u << "->" << +v << " is " << val << " instead of " << want);
    PCHECK(val >= F(0) && val <= F(1), "jaccard_coefficient: " << val);
    if (common) c.label("common neighbors");
  };
  if constexpr (std::is_same_v<F, double>)
    graph::jaccard_coefficient(g, out);
  else
    graph::jaccard_coefficient<G&, decltype(out)&, F>(g, out);
  size_t listed = 0;
  for (size_t u = 0; u < L.n(); ++u)
    for (int v : L.adj[u]) listed += v != static_cast<int>(u);
  PCHECK(seen.size() == listed, "jaccard_coefficient: " << seen.size() << " edges reported instead of " << listed);
  Lists<G> after(g);
  PCHECK(after.adj == L.adj, "jaccard_coefficient changed the graph");
  c.nontrivial = L.n() >= 3 && L.m >= 3;
}
#elif MODE == 2
template <class G>
void check(Case& c, G& g) {
  Lists<G> L(g);
  using Id = graph::vertex_id_t<G>;
  std::vector<Id> out(L.n() + 1, Id(0));
  size_t          count = 0, written = 0;
  Id              seed{0};
  bool            given = L.n() > 0 && c.s.chance(4, 5);
  if (given) seed = static_cast<Id>(c.s.range(0, static_cast<int>(L.n()) - 1));
  c.desc << (given ? " seed " : " default seed ") << +seed;
  if (c.s.chance(1, 2)) {
    std::vector<Id> v;
    count = given ? graph::maximal_independent_set(g, std::back_inserter(v), seed) : graph::maximal_independent_set(g, std::back_inserter(v));
    out   = v;
  } else if (c.s.chance(1, 2)) {
    std::list<long> l;
    count = given ? graph::maximal_independent_set(g, std::front_inserter(l), seed) : graph::maximal_independent_set(g, std::front_inserter(l));
    out.clear();
    for (long x : l) out.push_back(static_cast<Id>(x));
  } else {
    count = given ? graph::maximal_independent_set(g, out.begin(), seed) : graph::maximal_independent_set(g, out.begin());
    PCHECK(count <= L.n(), "maximal_independent_set: returned " << count);
    out.resize(count);
  }
  written = out.size();
  PCHECK(count == written, "maximal_independent_set: returned " << count << " and wrote " << written << " vertices");
  std::set<int> in;
  for (auto x : out) {
    PCHECK(static_cast<size_t>(x) < L.n(), "maximal_independent_set: " << +x << " is not a vertex");
    PCHECK(in.insert(static_cast<int>(x)).second, "maximal_independent_set: " << +x << " written twice");
  }
  auto loop = [&](int u) { auto& l = L.adj[static_cast<size_t>(u)]; return std::find(l.begin(), l.end(), u) != l.end(); };
  for (int u = 0; u < static_cast<int>(L.n()); ++u) {
    bool touches = false;
    for (int v : L.adj[static_cast<size_t>(u)]) touches |= v != u && in.count(v) > 0;
    if (in.count(u)) {
      PCHECK(!touches, "maximal_independent_set: " << u << " is adjacent to another member");
      PCHECK(!loop(u), "maximal_independent_set: " << u << " has a self-loop");
    } else {
      PCHECK(touches || loop(u), "maximal_independent_set: " << u << " could be added");
      if (!touches) c.label("left out for its self-loop");
    }
  }
  if (L.n() > 0 && !loop(static_cast<int>(seed))) PCHECK(in.count(static_cast<int>(seed)), "maximal_independent_set: without its seed " << +seed);
  if (L.n() > 0 && loop(static_cast<int>(seed))) c.label("seed with self-loop");
  Lists<G> after(g);
  PCHECK(after.adj == L.adj, "maximal_independent_set changed the graph");
  c.nontrivial = L.n() >= 3 && L.m >= 2;
}
#else
struct Label { // what a label has to offer: equality and a hash
  int  v = 0;
  bool operator==(const Label&) const = default;
};
template <>
struct std::hash<Label> {
  size_t operator()(const Label& l) const { return static_cast<size_t>(l.v % 3); }
};
template <class T>
T as_label(int v) {
  if constexpr (std::is_same_v<T, std::string>)
    return std::string(1, static_cast<char>('a' + (v + 26) % 26));
  else if constexpr (std::is_same_v<T, Label>)
    return Label{v};
  else
    return static_cast<T>(v);
}
using Labels = std::vector<int>;
constexpr int none = -1;
// labels that may be adopted by u (none: u keeps its own)
inline std::set<int> votes(const Adjacency& a, const Labels& l, size_t u, bool sentinel) {
  std::map<int, int> f;
  for (int v : a[u])
    if (int x = l[static_cast<size_t>(v)]; !sentinel || x != none) ++f[x];
  int best = 0;
  for (auto& [x, k] : f) best = std::max(best, k);
  std::set<int> r;
  for (auto& [x, k] : f)
    if (k == best) r.insert(x);
  return r;
}
// Whether some order of the vertices turns one labelling into the other
inline bool one_round(const Adjacency& a, const Labels& from, const Labels& to, bool sentinel) {
  size_t            n = a.size();
  std::vector<char> ok(size_t(1) << n, 0);
  ok[0] = 1;
  for (size_t s = 0; s < ok.size(); ++s) {
    if (!ok[s]) continue;
    Labels cur = from;
    for (size_t u = 0; u < n; ++u)
      if (s >> u & 1) cur[u] = to[u];
    for (size_t u = 0; u < n; ++u)
      if (!(s >> u & 1)) {
        auto v = votes(a, cur, u, sentinel);
        if (v.empty() ? to[u] == from[u] : v.count(to[u]) > 0) ok[s | size_t(1) << u] = 1;
      }
  }
  return ok.back();
}
// stays within the reach of the initial labels and leaves vertices without labelled neighbors alone
template <class G, class Range>
Labels propagate(G& g, const Labels& start, bool sentinel, unsigned seed, int rounds, int engine) {
  using T = std::ranges::range_value_t<Range>;
  Range l;
  for (int x : start) l.push_back(as_label<T>(x));
  auto go = [&](auto&&... rng) {
    if (sentinel) graph::label_propagation(g, l, as_label<T>(none), std::forward<decltype(rng)>(rng)...);
    else graph::label_propagation(g, l, std::forward<decltype(rng)>(rng)...);
  };
  auto with = [&](auto rng) {
    if (rounds < 0) go(rng);
    else if (rounds % 2) go(rng, static_cast<size_t>(rounds));
    else go(std::move(rng), rounds);
  };
  switch (engine) {
  case 0: with(std::mt19937(seed)); break;
  case 1: with(std::minstd_rand(seed)); break;
  case 2: with(std::ranlux24_base(seed)); break;
  default: go(); break;
  }
  Labels r;
  size_t k = 0;
  for (auto& x : l) {
    int found = -2;
    for (int y : start)
      if (as_label<T>(y) == x) found = y;
    if (found == -2) throw pbt::Fail{"label_propagation: vertex " + std::to_string(k) + " has a label nobody had"};
    r.push_back(found), ++k;
  }
  if (r.size() != start.size()) throw pbt::Fail{"label_propagation: resized the labels"};
  return r;
}
template <class G>
void check(Case& c, G& g, bool symmetric) {
  Lists<G>   L(g);
  const int  n        = static_cast<int>(L.n());
  const bool sentinel = c.s.chance(1, 2);
  const auto seed     = static_cast<unsigned>(c.s.range(0, 100000));
  const int  engine   = c.s.range(0, 2), type = c.s.range(0, 3);
  Labels     start(L.n());
  const int  distinct = c.s.chance(1, 4) ? n + 1 : c.s.range(1, 4);
  for (int u = 0; u < n; ++u) start[static_cast<size_t>(u)] = sentinel && c.s.chance(1, 3) ? none : distinct > n ? u : c.s.range(0, distinct - 1);
  if (type == 2)
    for (int& x : start)
      if (x >= 24) x %= 24;
  c.desc << " labels " << pbt::show(start) << (sentinel ? " unlabelled -1" : "") << " seed " << seed << " engine " << engine << " type " << type;
  auto run = [&](int rounds, int e) {
    switch (type) {
    case 0: return propagate<G, std::vector<int>>(g, start, sentinel, seed, rounds, e);
    case 1: return propagate<G, std::deque<long>>(g, start, sentinel, seed, rounds, e);
    case 2: return propagate<G, std::vector<std::string>>(g, start, sentinel, seed, rounds, e);
    default: return propagate<G, std::vector<Label>>(g, start, sentinel, seed, rounds, e);
    }
  };
  // what a vertex can ever hold: labels of the vertices it reaches, its own among them
  auto within = [&](const Labels& l) {
    for (int u = 0; u < n; ++u) {
      auto              x = l[static_cast<size_t>(u)];
      std::vector<char> in(L.n(), 0);
      std::vector<int>  q{u};
      bool              found = false, any = false;
      in[static_cast<size_t>(u)] = 1;
      while (!q.empty()) {
        int y = q.back();
        q.pop_back();
        found |= start[static_cast<size_t>(y)] == x;
        any |= y != u && start[static_cast<size_t>(y)] != none;
        for (int z : L.adj[static_cast<size_t>(y)])
          if (!in[static_cast<size_t>(z)]) in[static_cast<size_t>(z)] = 1, q.push_back(z);
      }
      PCHECK(found, "label_propagation: " << u << " holds " << x << ", which none of the vertices it reaches had");
      if (!any) PCHECK(x == start[static_cast<size_t>(u)], "label_propagation: " << u << " reaches no labelled vertex but changed to " << x);
      if (sentinel && start[static_cast<size_t>(u)] != none) PCHECK(x != none, "label_propagation: " << u << " lost its label");
    }
  };
  Labels prev = run(0, engine);
  PCHECK(prev == start, "label_propagation: no rounds gave " << pbt::show(prev));
  const int rounds = c.s.range(1, 3);
  if (n <= 9) {
    for (int k = 1; k <= rounds; ++k) {
      Labels next = run(k, engine);
      PCHECK(one_round(L.adj, prev, next, sentinel), "label_propagation: round " << k << " cannot turn " << pbt::show(prev) << " into " << pbt::show(next));
      if (next != prev) c.label("a round changed labels");
      prev = next;
    }
  } else {
    prev = run(rounds, engine);
  }
  within(prev);
  PCHECK(run(rounds, engine) == prev, "label_propagation: the same engine state gave another result");
  if (symmetric && n <= 9) { // without a limit it stops at a stable labelling
    Labels end = run(-1, c.s.chance(1, 4) ? 3 : engine);
    within(end);
    for (int u = 0; u < n; ++u) {
      auto v = votes(L.adj, end, static_cast<size_t>(u), sentinel);
      auto x = end[static_cast<size_t>(u)];
      if (v.empty()) continue;
      PCHECK(v.count(x), "label_propagation: stopped with " << pbt::show(end) << ", where " << u << " wants " << pbt::show(v));
    }
    c.label("run until stable");
  }
  Lists<G> after(g);
  PCHECK(after.adj == L.adj, "label_propagation changed the graph");
  c.nontrivial = n >= 3 && L.m >= 3;
}
// Ties and the order of the vertices are decided at random: over many engine states every outcome occurs.
// u -> its neighbors, which have no edges of their own and so keep their labels; w -> u.
template <class G>
void chances(Case& c) {
  MGraph m;
  int    k = c.s.range(2, 4), copies = c.s.range(1, 2);
  bool   sentinel = c.s.chance(1, 2);
  m.n = 2 + k * copies;
  m.e.push_back({0, 1, 0});
  for (int i = 0; i < k * copies; ++i) m.e.push_back({1, 2 + i, 0});
  if (is_compressed<G>::value) gen::sort_by_source(m);
  G      g = make<G>(m);
  Labels start{100, 200};
  for (int i = 0; i < k * copies; ++i) start.push_back(i % k);
  std::set<int> tie;
  bool          first = false, second = false;
  unsigned      seed = static_cast<unsigned>(c.s.range(0, 1 << 20));
  c.desc << "random outcomes: " << gen::str(m) << " labels " << pbt::show(start) << " engines from " << seed;
  for (unsigned i = 0; i < 300; ++i) {
    auto l = propagate<G, std::vector<int>>(g, start, sentinel, (seed + i) * 2654435761u, 1, 0);
    tie.insert(l[1]);
    (l[0] == 200 ? first : second) = true;
  }
  PCHECK(tie.size() == static_cast<size_t>(k), "label_propagation: 300 engines broke a tie of " << k << " labels in " << tie.size() << " ways");
  PCHECK(first && second, "label_propagation: 300 engines always processed the same of two vertices first");
  c.label("random outcomes");
  c.nontrivial = true;
}
#endif
template <class G>
void run(Case& c) {
#if MODE == 3
  if (!is_undirected<G>::value && c.s.chance(1, 60)) return chances<G>(c);
#endif
  gen::Opt o;
  o.max_n     = 9;
  o.big_n     = 30;
  o.symmetric = true;
#if MODE == 0
  o.parallel = false;
#elif MODE == 1 || MODE == 3
  o.symmetric = is_undirected<G>::value || c.s.chance(1, 2);
#endif
  MGraph m;
#if MODE == 0
  if (c.s.chance(1, 2)) { // dense
    m.n   = c.s.range(3, 9);
    int p = c.s.range(2, 6);
    for (int u = 0; u < m.n; ++u)
      for (int v = 0; v <= u; ++v)
        if (c.s.chance(p, 7)) {
          m.e.push_back({u, v, 1});
          if (u != v && !is_undirected<G>::value) m.e.push_back({v, u, 1});
        }
    c.label("dense");
  } else
#endif
    m = algo_graph<G>(c, o);
#if MODE == 0
  if (is_undirected<G>::value) {
    std::set<std::pair<int, int>> s;
    for (auto& e : m.e) s.insert({std::max(e.u, e.v), std::min(e.u, e.v)});
    m.e.clear();
    for (auto& [x, y] : s) c.s.chance(1, 2) ? m.e.push_back({x, y, 1}) : m.e.push_back({y, x, 1});
  } else {
    std::set<std::pair<int, int>> s;
    for (auto& e : m.e) s.insert({e.u, e.v});
    m.e.clear();
    for (auto& [x, y] : s) m.e.push_back({x, y, 1});
    G t = make<G>(MGraph{3, {{0, 1, 1}, {0, 2, 1}}}); // containers that add at the front
    if (Lists<G> l(t); l.adj[0] == std::vector<int>{2, 1}) {
      std::reverse(m.e.begin(), m.e.end());
      if (is_compressed<G>::value) gen::sort_by_source(m);
    }
  }
#endif
  c.desc << gen::str(m);
  G g = make<G>(m);
  if constexpr (graph::adj_list::index_adjacency_list<const G>)
    if (c.s.chance(1, 4)) {
#if MODE == 3
      return check<const G>(c, g, o.symmetric);
#else
      return check<const G>(c, g);
#endif
    }
#if MODE == 1
  if (c.s.chance(1, 4)) return check<G, float>(c, g);
#endif
#if MODE == 3
  check<G>(c, g, o.symmetric);
#else
  check<G>(c, g);
#endif
}
struct Metrics {
  template <class G> static constexpr bool accepts = algo_kind<G>;
  template <class G> static void run(Case& c) { ::run<G>(c); }
};
RegisterKinds<Metrics> reg_;
