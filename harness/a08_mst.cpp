// A08 (MODE=0) Kruskal over edge lists and A09 (MODE=1) Prim over graphs, against a plain greedy forest.
#include "kinds_list.hpp"
#include <graph/algorithm/mst.hpp>
#ifndef MODE
#  define MODE 0
#endif
struct WE { int u, v; long w; };
struct Forest {
  long             total = 0;
  size_t           edges = 0;
  std::vector<int> part;
};
// Least (greatest) total of a forest joining all the edges join, by repeated relabelling
inline Forest forest(size_t n, std::vector<WE> e, bool greatest) {
  Forest f;
  f.part.resize(n);
  std::iota(f.part.begin(), f.part.end(), 0);
  std::stable_sort(e.begin(), e.end(), [&](auto& a, auto& b) { return greatest ? a.w > b.w : a.w < b.w; });
  for (auto& x : e) {
    int a = f.part[static_cast<size_t>(x.u)], b = f.part[static_cast<size_t>(x.v)];
    if (a == b) continue;
    f.total += x.w;
    ++f.edges;
    for (int& p : f.part)
      if (p == b) p = a;
  }
  return f;
}
#if MODE == 0
template <class Id, class W>
struct Plain {
  using source_id_type = Id;
  using target_id_type = Id;
  using value_type     = W;
  Id source_id{};
  Id target_id{};
  W  value{};
};
template <class Rec, template <class...> class Cont>
void run(Case& c) {
  using Id = std::remove_const_t<typename Rec::source_id_type>;
  using W  = typename Rec::value_type;
  int    top = c.s.chance(1, 5) ? c.s.range(10, 60) : c.s.range(0, 9);
  if (sizeof(Id) == 1 && c.s.chance(1, 6)) top = std::is_signed_v<Id> ? 127 : 255;
  size_t count = static_cast<size_t>(c.s.chance(1, 4) ? c.s.range(0, 3) : c.s.range(0, std::min(60, 2 * top + 4)));
  int    span  = c.s.pick(std::vector<int>{1, 3, 20, 1000});
  bool   low   = c.s.chance(1, 4);
  Cont<Rec> in;
  std::vector<WE> e;
  for (size_t i = 0; i < count; ++i) {
    WE x{c.s.range(0, top), c.s.range(0, top), c.s.range(low ? -span : 0, span)};
    if (c.s.chance(1, 10)) x.v = x.u;
    if (!e.empty() && c.s.chance(1, 10)) x.u = e.back().v, x.v = e.back().u;
    e.push_back(x);
    Rec r{};
    r.source_id = static_cast<Id>(x.u), r.target_id = static_cast<Id>(x.v), r.value = static_cast<W>(x.w);
    in.push_back(r);
  }
  for (auto& x : e) c.desc << x.u << '-' << x.v << ':' << x.w << ' ';
  size_t n = 0;
  for (auto& x : e) n = std::max({n, static_cast<size_t>(x.u) + 1, static_cast<size_t>(x.v) + 1});
  auto same = [](const Rec& a, const WE& b) { return static_cast<int>(a.source_id) == b.u && static_cast<int>(a.target_id) == b.v && static_cast<long>(a.value) == b.w; };
  using Out     = std::vector<Plain<Id, W>>;
  auto judge    = [&](const char* what, const Out& t, size_t already, auto result, bool greatest) {
    auto             want = forest(n, e, greatest);
    std::vector<int> part(n);
    std::iota(part.begin(), part.end(), 0);
    std::multiset<std::tuple<int, int, long>> left;
    for (auto& x : e) left.insert({x.u, x.v, x.w});
    long   total = 0;
    size_t k     = 0;
    for (size_t i = already; i < t.size(); ++i, ++k) {
      auto x = std::tuple(static_cast<int>(t[i].source_id), static_cast<int>(t[i].target_id), static_cast<long>(t[i].value));
      auto it = left.find(x);
      PCHECK(it != left.end(), what << ": output edge " << std::get<0>(x) << '-' << std::get<1>(x) << ':' << std::get<2>(x) << " is not (or no longer) in the input");
      left.erase(it);
      int a = part[static_cast<size_t>(std::get<0>(x))], b = part[static_cast<size_t>(std::get<1>(x))];
      PCHECK(a != b, what << ": output edge " << std::get<0>(x) << '-' << std::get<1>(x) << " closes a cycle");
      for (int& p : part)
        if (p == b) p = a;
      total += std::get<2>(x);
    }
    PCHECK(k == want.edges, what << ": " << k << " edges instead of " << want.edges);
    PCHECK(total == want.total, what << ": the output weighs " << total << " instead of " << want.total);
    PCHECK(static_cast<long>(result.first) == want.total, what << ": reports weight " << +result.first << " instead of " << want.total);
    PCHECK(result.second == n - want.edges, what << ": reports " << result.second << " components instead of " << n - want.edges);
  };
  auto unchanged = [&](const char* what) {
    size_t i = 0;
    for (auto& r : in) {
      PCHECK(i < e.size() && same(r, e[i]), what << " changed its input");
      ++i;
    }
    PCHECK(i == e.size(), what << " changed its input");
  };
  auto sorted = [&](const char* what, bool greatest) { // the same records in order
    std::multiset<std::tuple<int, int, long>> a, b;
    const Rec*                                last = nullptr;
    for (auto& r : in) {
      if (last) PCHECK(greatest ? last->value >= r.value : last->value <= r.value, what << ": the input is not sorted afterwards");
      last = &r;
      a.insert({static_cast<int>(r.source_id), static_cast<int>(r.target_id), static_cast<long>(r.value)});
    }
    for (auto& x : e) b.insert({x.u, x.v, x.w});
    PCHECK(a == b, what << ": the input holds other edges afterwards");
  };
  Out    t;
  size_t already = 0;
  if (count && c.s.chance(1, 4)) t.resize(already = 2);
  auto reset = [&] { t.clear(); t.resize(already); };
  {
    auto r = graph::kruskal(in, t);
    judge("kruskal", t, already, r, false);
    unchanged("kruskal");
  }
  reset();
  {
    const auto& ci = in;
    auto        r  = graph::kruskal(ci, t, std::greater<W>());
    judge("kruskal(greater)", t, already, r, true);
    unchanged("kruskal(greater)");
  }
  reset();
  if constexpr (std::ranges::random_access_range<Cont<Rec>>) {
    auto r = graph::inplace_kruskal(in, t);
    judge("inplace_kruskal", t, already, r, false);
    sorted("inplace_kruskal", false);
    reset();
    auto r2 = graph::inplace_kruskal(in, t, [](const W& a, const W& b) { return b < a; });
    judge("inplace_kruskal(greater)", t, already, r2, true);
    sorted("inplace_kruskal(greater)", true);
  }
  if (forest(n, e, false).edges + 1 < n) c.label("several components");
  c.nontrivial = count >= 3;
}
template <class A> using Vec  = std::vector<A>;
template <class A> using Deq  = std::deque<A>;
template <class A> using List = std::list<A>;
struct Reg {
  template <class Rec, template <class> class C> static void add(const char* name) {
    pbt::targets().push_back({name, [](Case& c) { run2<Rec, C>(c); }, 1});
  }
  template <class Rec, template <class> class C> struct Wrap { template <class... X> using type = C<Rec>; };
  template <class Rec, template <class> class C> static void run2(Case& c) { ::run<Rec, Wrap<Rec, C>::template type>(c); }
  Reg() {
    add<Plain<uint32_t, int>, Vec>("records in a vector");
    add<Plain<int, long>, List>("records in a list");
    add<Plain<uint8_t, short>, Deq>("one-byte ids in a deque");
    add<Plain<signed char, int>, Vec>("signed one-byte ids");
    add<graph::edge_data<uint64_t, true, void, double>, Vec>("edge_data");
    add<graph::edge_data<int, true, void, int>, Deq>("edge_data in a deque");
  }
} reg_;
#else
template <class W, class G>
void check(Case& c, G& g) {
  Lists<G> L(g);
  using Id = graph::vertex_id_t<G>;
  int  n   = static_cast<int>(L.n());
  bool greatest = c.s.chance(1, 3);
  // weights: of the edges, if both directions agree, or a function of the two ends
  std::vector<std::vector<long>> w(L.n());
  bool                           own = has_ev<std::remove_const_t<G>>() && c.s.chance(1, 2);
  if constexpr (has_ev<std::remove_const_t<G>>()) {
    std::map<std::pair<int, int>, std::multiset<long>> seen;
    if (own) {
      for (size_t u = 0; u < L.n(); ++u)
        for (auto& e : L.es[u]) {
          long x = as_int(graph::edge_value(g, e));
          w[u].push_back(x);
          seen[{static_cast<int>(u), static_cast<int>(graph::target_id(g, e))}].insert(x);
        }
      for (auto& [p, s] : seen) {
        auto& t = seen[{p.second, p.first}];
        if (t.empty() || *t.begin() != *s.begin() || *t.rbegin() != *s.rbegin()) own = false;
      }
      if (!own)
        for (auto& x : w) x.clear();
    }
  }
  if (!own) {
    std::map<std::pair<int, int>, long> table;
    int span = c.s.pick(std::vector<int>{2, 9, 1000}), least = c.s.chance(1, 3) ? -span : 0;
    for (size_t u = 0; u < L.n(); ++u)
      for (int v : L.adj[u]) {
        std::pair<int, int> p{std::min(static_cast<int>(u), v), std::max(static_cast<int>(u), v)};
        if (!table.count(p)) table[p] = c.s.range(least, span);
        w[u].push_back(table[p]);
      }
    c.desc << " weights";
    for (auto& [p, x] : table) c.desc << ' ' << p.first << '-' << p.second << ':' << x;
  }
  std::vector<WE> e;
  for (size_t u = 0; u < L.n(); ++u)
    for (size_t k = 0; k < L.adj[u].size(); ++k) e.push_back({static_cast<int>(u), L.adj[u][k], w[u][k]});
  auto wf = [&](const auto&, const graph::edge_t<G>& uv) -> W {
    auto [u, k] = L.find(g, uv);
    if (u < 0) throw pbt::Fail{"the weight function was given an edge that is not in the graph"};
    return static_cast<W>(w[static_cast<size_t>(u)][static_cast<size_t>(k)]);
  };
  size_t                extra = c.s.chance(1, 4) ? 2 : 0;
  std::vector<unsigned> pred;
  std::vector<W>        wt;
  auto reset = [&](bool self) {
    pred.assign(L.n() + extra, 77777);
    wt.assign(L.n() + extra, W(99));
    if (self)
      for (size_t i = 0; i < L.n(); ++i) pred[i] = static_cast<unsigned>(i);
  };
  auto rejects = [&](const char* what, auto f) {
    bool t = false;
    try { f(); } catch (const std::out_of_range&) { t = true; }
    PCHECK(t, "prim: " << what << " was not rejected");
  };
  auto least = [](const W& a, const W& b) { return a < b; };
  auto most  = [](const W& a, const W& b) { return b < a; };
  constexpr W lo = std::numeric_limits<W>::lowest(), hi = std::numeric_limits<W>::max();
  constexpr bool simple_value = [] { // the default form converts the edge's value to the weight type
    if constexpr (has_ev<std::remove_const_t<G>>())
      return std::is_convertible_v<decltype(graph::edge_value(std::declval<G&>(), std::declval<graph::edge_t<G>>())), W>;
    else
      return false;
  }();
  auto call = [&](Id seed, bool plain) -> W {
    if constexpr (simple_value)
      if (plain) return graph::prim(g, pred, wt, seed);
    return greatest ? graph::prim(g, pred, wt, most, lo, wf, seed) : graph::prim(g, pred, wt, least, hi, wf, seed);
  };
  if (n > 0) {
    int  seed  = c.s.range(0, n - 1);
    bool plain = own && simple_value && c.s.chance(1, 2), self = c.s.chance(1, 2);
    if (plain) greatest = false;
    c.desc << " seed " << seed << (greatest ? " greatest" : "") << (plain ? " plain" : "");
    reset(self);
    auto want  = forest(L.n(), e, greatest);
    W    total = call(static_cast<Id>(seed), plain);
    // the seed's part of the forest
    std::vector<WE> in;
    for (auto& x : e)
      if (want.part[static_cast<size_t>(x.u)] == want.part[static_cast<size_t>(seed)]) in.push_back(x);
    auto mine = forest(L.n(), in, greatest);
    PCHECK(static_cast<long>(total) == mine.total, "prim returns " << +total << " instead of " << mine.total);
    long sum = 0;
    for (int v = 0; v < n; ++v) {
      auto i = static_cast<size_t>(v);
      if (want.part[i] != want.part[static_cast<size_t>(seed)]) {
        PCHECK(pred[i] == (self ? i : 77777u) && wt[i] == W(99), "prim changed the entries of " << v << ", which the seed does not reach");
        continue;
      }
      if (v == seed) {
        PCHECK(pred[i] == i, "prim: predecessor of the seed is " << pred[i]);
        continue;
      }
      auto p = static_cast<size_t>(pred[i]);
      PCHECK(p < L.n(), "prim: predecessor of " << v << " is " << p);
      bool edge = false;
      for (size_t k = 0; k < L.adj[p].size(); ++k) edge = edge || (L.adj[p][k] == v && w[p][k] == static_cast<long>(wt[i]));
      PCHECK(edge, "prim: no edge from " << p << " to " << v << " of weight " << +wt[i]);
      sum += static_cast<long>(wt[i]);
      size_t x = i;
      for (int steps = 0; x != static_cast<size_t>(seed); ++steps) {
        PCHECK(steps < n, "prim: predecessors of " << v << " do not lead to the seed");
        x = static_cast<size_t>(pred[x]);
        PCHECK(x < L.n(), "prim: predecessors of " << v << " leave the graph");
      }
    }
    PCHECK(sum == mine.total, "prim: the tree weighs " << sum << " instead of " << mine.total);
    for (size_t i = L.n(); i < pred.size(); ++i) PCHECK(pred[i] == 77777u && wt[i] == W(99), "prim wrote beyond the vertices");
    extra = 0;
    if (c.s.chance(1, 4)) {
      reset(true);
      pred.resize(static_cast<size_t>(c.s.range(0, n - 1)));
      rejects("a short predecessor range", [&] { call(static_cast<Id>(seed), plain); });
      reset(true);
      wt.resize(static_cast<size_t>(c.s.range(0, n - 1)));
      rejects("a short weight range", [&] { call(static_cast<Id>(seed), plain); });
    }
  }
  if (static_cast<unsigned long long>(n) <= static_cast<unsigned long long>(std::numeric_limits<Id>::max()) && c.s.chance(1, 4)) {
    extra = 0;
    reset(true);
    rejects("a seed outside the graph", [&] { call(static_cast<Id>(n), false); });
  }
  if (greatest) c.label("greatest");
  if (own) c.label("edges' own values");
  c.nontrivial = L.n() >= 3 && L.m >= 4;
}
template <class G>
void run(Case& c) {
  gen::Opt o;
  o.max_n     = 9;
  o.big_n     = 24;
  o.wlo       = c.s.chance(1, 3) ? -9 : 0;
  o.whi       = 9;
  o.symmetric = true;
  o.parallel  = c.s.chance(1, 2);
  MGraph m    = algo_graph<G>(c, o);
  c.desc << gen::str(m);
  G g = make<G>(m);
  if constexpr (graph::adj_list::index_adjacency_list<const G>)
    if (c.s.chance(1, 4)) return check<int, const G>(c, g);
  if (c.s.chance(1, 2)) check<int, G>(c, g);
  else check<double, G>(c, g);
}
struct Prim {
  template <class G> static constexpr bool accepts = algo_kind<G>;
  template <class G> static void run(Case& c) { ::run<G>(c); }
};
RegisterKinds<Prim> reg_;
#endif
