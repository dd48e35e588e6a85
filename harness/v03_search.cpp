// V03 (MODE 0) depth-first and V04 (MODE 1) breadth-first search views, with cancellation, against a reference search
// over the plain enumeration of the graph.
#include "kinds.hpp"
#include <graph/views/dfs.hpp>
#include <graph/views/bfs.hpp>
#include <memory_resource>
namespace vw = graph::views;
using vw::cancel_search;
#if MODE == 0
#  define VERTICES vertices_dfs
#  define EDGES edges_dfs
#else
#  define VERTICES vertices_bfs
#  define EDGES edges_bfs
#endif

template <class D>
struct ValueFn {
  std::shared_ptr<int> salt;
  std::string          pad;
  template <class G>
  long operator()(const G&, const D& d) const {
    if (pad.size() != 40) return -1;
    return static_cast<long>(std::hash<D>{}(d) * 31u + static_cast<size_t>(*salt));
  }
};
// One step of the reference search: vertex reached, index of the edge used (-1 for the seed), tree depth
struct Step {
  int v, from, slot, depth;
};
// action[k]: 0 continue, 1 cancel branch, 2 cancel all, after the k-th yielded vertex (seed included) or tree edge.
struct Ref {
  const std::vector<std::vector<int>>& adj;
  bool                                 edge_form;
  const std::vector<int>&              action;
  std::vector<Step>                    out;
  std::vector<char>                    seen;
  bool                                 stop = false;
  int act() { // the action chosen after the latest element
    size_t k = out.size() - 1;
    return k < action.size() ? action[k] : 0;
  }
  void dfs(int u, int depth) {
    for (size_t s = 0; s < adj[static_cast<size_t>(u)].size(); ++s) {
      int v = adj[static_cast<size_t>(u)][s];
      if (seen[static_cast<size_t>(v)]) continue;
      seen[static_cast<size_t>(v)] = 1;
      out.push_back({v, u, static_cast<int>(s), depth + 1});
      int a = act();
      if (a == 2) stop = true;
      if (stop) return;
      if (a == 0) dfs(v, depth + 1);
      if (stop) return;
    }
  }
  void run_dfs(int seed) {
    seen.assign(adj.size(), 0);
    seen[static_cast<size_t>(seed)] = 1;
    if (!edge_form) {
      out.push_back({seed, -1, -1, 0});
      if (act() != 0) return;
    }
    dfs(seed, 0);
  }
  void run_bfs(int seed) {
    seen.assign(adj.size(), 0);
    seen[static_cast<size_t>(seed)] = 1;
    std::deque<Step> q{{seed, -1, -1, 0}};
    std::set<int>    cut;
    while (!q.empty()) {
      Step x = q.front();
      q.pop_front();
      if (!edge_form) {
        out.push_back(x);
        int a = act();
        if (a == 2) return;
        if (a == 1) continue;
      } else if (cut.count(x.v))
        continue;
      for (size_t s = 0; s < adj[static_cast<size_t>(x.v)].size(); ++s) {
        int v = adj[static_cast<size_t>(x.v)][s];
        if (seen[static_cast<size_t>(v)]) continue;
        seen[static_cast<size_t>(v)] = 1;
        Step y{v, x.v, static_cast<int>(s), x.depth + 1};
        q.push_back(y);
        if (edge_form) {
          out.push_back(y);
          int a = act();
          if (a == 2) return;
          if (a == 1) cut.insert(v);
        }
      }
    }
  }
  void run(int seed) { MODE == 0 ? run_dfs(seed) : run_bfs(seed); }
};

template <class G, bool In>
struct Listing_ {
  using VD = std::remove_cvref_t<decltype(*graph::vertices(std::declval<G&>()).begin())>;
  static auto list(G& g, const VD& u) {
    if constexpr (In) return graph::in_edges(g, u);
    else return graph::edges(g, u);
  }
  using ED = std::remove_cvref_t<decltype(*list(std::declval<G&>(), std::declval<VD>()).begin())>;
  std::vector<VD>               vs;
  std::vector<std::vector<ED>>  es;
  std::vector<std::vector<int>> adj;
  explicit Listing_(G& g) {
    for (auto u : graph::vertices(g)) {
      if (static_cast<size_t>(graph::vertex_id(g, u)) != vs.size()) throw pbt::Fail{"vertex ids are not 0, 1, ..."};
      vs.push_back(u);
      es.emplace_back();
      adj.emplace_back();
      for (auto uv : list(g, u)) {
        es.back().push_back(uv);
        if constexpr (In) { // the other end of an incoming edge; an undirected edge is listed away from u here too
          auto s = static_cast<size_t>(graph::source_id(g, uv));
          adj.back().push_back(static_cast<int>(s == vs.size() - 1 ? static_cast<size_t>(graph::target_id(g, uv)) : s));
        }
        else adj.back().push_back(static_cast<int>(graph::target_id(g, uv)));
      }
    }
  }
};

template <class G, bool In, class View>
void follow(Case& c, G& g, Listing_<G, In>& L, int seed, bool edge_form, const std::vector<int>& action, View view, bool has_value, long salt,
            const std::string& what) {
  Ref ref{L.adj, edge_form, action, {}, {}};
  ref.run(seed);
  auto& want      = ref.out;
  bool  cancelled = false;
  for (size_t k = 0; k < want.size() && k < action.size(); ++k) cancelled |= action[k] != 0;
  PCHECK(view.cancel() == cancel_search::continue_search && view.num_visited() == 0, what << ": state before the search");
  PCHECK(view.depth() == (MODE == 0 ? 1u : 0u), what << ": depth before the search");
  size_t k = 0;
  auto   it = view.begin();
  auto   end = view.end();
  bool   all = false;
  for (; !(it == end);) {
    PCHECK(k < want.size(), what << ": yields more than the " << want.size() << " elements of the reference search");
    auto x = *it;
    const Step& w = want[k];
    using XT = decltype(x);
    if constexpr (requires(XT y) { y.vertex; }) {
      int got = static_cast<int>(graph::vertex_id(g, x.vertex));
      PCHECK(got == w.v, what << ": element " << k << " is vertex " << got << ", should be " << w.v);
      PCHECK(x.vertex == L.vs[static_cast<size_t>(w.v)], what << ": element " << k << " is another handle");
      if constexpr (requires(XT y) { y.value; })
        PCHECK(x.value == static_cast<long>(std::hash<typename Listing_<G, In>::VD>{}(x.vertex) * 31u + static_cast<size_t>(salt)), what << ": value of element " << k);
    } else {
      auto& want_e = L.es[static_cast<size_t>(w.from)][static_cast<size_t>(w.slot)];
      PCHECK(x.edge == want_e, what << ": element " << k << " is not edge " << w.slot << " of vertex " << w.from << " (to " << w.v << ")");
      int s = static_cast<int>(graph::source_id(g, x.edge)), t = static_cast<int>(graph::target_id(g, x.edge));
      if constexpr (!In) PCHECK(s == w.from && t == w.v, what << ": element " << k << " is " << s << ">" << t);
      if constexpr (requires(XT y) { y.value; })
        PCHECK(x.value == static_cast<long>(std::hash<typename Listing_<G, In>::ED>{}(x.edge) * 31u + static_cast<size_t>(salt)), what << ": value of element " << k);
    }
    size_t d = static_cast<size_t>(w.depth), seen = edge_form ? k + 1 : k;
    if (MODE == 0) {
      PCHECK(view.depth() == d + 1, what << ": depth() is " << view.depth() << " at element " << k << " of tree depth " << d);
      PCHECK(view.num_visited() == seen, what << ": num_visited() is " << view.num_visited() << " at element " << k);
    } else if (edge_form) {
      PCHECK(view.depth() == d, what << ": depth() is " << view.depth() << " at edge " << k << " to depth " << d);
      PCHECK(view.num_visited() == seen, what << ": num_visited() is " << view.num_visited() << " at edge " << k);
    } else {
      PCHECK(view.depth() == d || view.depth() == d + 1, what << ": depth() is " << view.depth() << " at element " << k << " of level " << d);
      PCHECK(view.num_visited() >= seen && view.num_visited() < L.vs.size(), what << ": num_visited() is " << view.num_visited() << " at element " << k);
    }
    int a = k < action.size() ? action[k] : 0;
    if (a) {
      auto what_a = a == 1 ? cancel_search::cancel_branch : cancel_search::cancel_all;
      view.cancel(what_a);
      PCHECK(view.cancel() == what_a, what << ": cancel() does not report what was set");
      all |= a == 2;
    }
    ++k;
    if (c.s.chance(1, 6)) (void)it++;
    else {
      auto& r = ++it;
      PCHECK(&r == &it, what << ": ++ returns another iterator");
    }
  }
  PCHECK(k == want.size(), what << ": ends after " << k << " elements, the reference search has " << want.size());
  if (!all) {
    size_t deepest = 0;
    for (auto& s : want) deepest = std::max(deepest, static_cast<size_t>(s.depth));
    PCHECK(view.num_visited() == want.size() - (edge_form ? 0 : 1), what << ": num_visited() is " << view.num_visited() << " after the search");
    if (MODE == 1) PCHECK(view.depth() == deepest, what << ": depth() is " << view.depth() << " after the search, deepest " << deepest);
  }
  if (MODE == 0) PCHECK(view.depth() == 0, what << ": depth() after the search");
  if (cancelled) c.label(all ? "cancelled all" : "cancelled branches");
}

template <class G, bool In>
void searches(Case& c, G& g) {
  Listing_<G, In> L(g);
  if (L.vs.empty()) return;
  using VD   = typename Listing_<G, In>::VD;
  using ED   = typename Listing_<G, In>::ED;
  using VId  = graph::adj_list::vertex_id_t<G>;
  using Acc  = std::conditional_t<In, vw::in_edge_accessor, vw::out_edge_accessor>;
  int  rounds = 3;
  auto saltp  = std::make_shared<int>(c.s.range(0, 100));
  std::string pad(40, 'x');
  ValueFn<VD> vvf{saltp, pad};
  ValueFn<ED> evf{saltp, pad};
  long        salt = *saltp;
  std::pmr::polymorphic_allocator<bool> pa;
  for (int r = 0; r < rounds; ++r) {
    int  seed = c.s.range(0, static_cast<int>(L.vs.size()) - 1);
    bool cancel = c.s.chance(2, 3);
    std::vector<int> action;
    if (cancel) {
      int  len  = c.s.range(0, static_cast<int>(L.vs.size()));
      bool many = c.s.chance(1, 2);
      for (int k = 0; k < len; ++k) action.push_back(c.s.chance(many ? 2 : 1, 5) ? (c.s.chance(1, 8) ? 2 : 1) : 0);
    }
    c.desc << " seed " << seed << (In ? " in" : "") << " act";
    for (int a : action) c.desc << a;
    VId  sid = static_cast<VId>(seed);
    VD   sv  = L.vs[static_cast<size_t>(seed)];
    auto fv  = [&](auto view, bool val, const char* w) { follow<G, In>(c, g, L, seed, false, action, std::move(view), val, salt, w); };
    auto fe  = [&](auto view, bool val, const char* w) { follow<G, In>(c, g, L, seed, true, action, std::move(view), val, salt, w); };
    if constexpr (!In) {
      switch (c.s.range(0, 3)) {
      case 0:
        fv(vw::VERTICES(g, sid), false, "vertices(g,id)");
        fv(vw::VERTICES(g, sv, vvf), true, "vertices(g,u,vvf)");
        fe(vw::EDGES(g, sid), false, "edges(g,id)");
        fe(vw::EDGES(g, sv, evf), true, "edges(g,u,evf)");
        break;
      case 1:
        fv(vw::VERTICES(g, sv), false, "vertices(g,u)");
        fv(vw::VERTICES(g, sid, vvf), true, "vertices(g,id,vvf)");
        fe(vw::EDGES(g, sv), false, "edges(g,u)");
        fe(vw::EDGES(g, sid, evf), true, "edges(g,id,evf)");
        break;
      case 2:
        fv(vw::VERTICES(g, sid, pa), false, "vertices(g,id,alloc)");
        fv(vw::VERTICES(g, sv, pa), false, "vertices(g,u,alloc)");
        fv(vw::VERTICES(g, sid, vvf, pa), true, "vertices(g,id,vvf,alloc)");
        fv(vw::VERTICES(g, sv, vvf, pa), true, "vertices(g,u,vvf,alloc)");
        break;
      default:
        fe(vw::EDGES(g, sid, pa), false, "edges(g,id,alloc)");
        fe(vw::EDGES(g, sv, pa), false, "edges(g,u,alloc)");
        fe(vw::EDGES(g, sid, evf, pa), true, "edges(g,id,evf,alloc)");
        fe(vw::EDGES(g, sv, evf, pa), true, "edges(g,u,evf,alloc)");
      }
    }
    if (In || c.s.chance(1, 3)) {
      fv(vw::VERTICES<Acc>(g, sid), false, "vertices<accessor>(g,id)");
      fv(vw::VERTICES<Acc>(g, sv), false, "vertices<accessor>(g,u)");
      fv(vw::VERTICES<Acc>(g, sid, vvf), true, "vertices<accessor>(g,id,vvf)");
      fv(vw::VERTICES<Acc>(g, sv, vvf), true, "vertices<accessor>(g,u,vvf)");
      fe(vw::EDGES<Acc>(g, sid), false, "edges<accessor>(g,id)");
      fe(vw::EDGES<Acc>(g, sv), false, "edges<accessor>(g,u)");
      fe(vw::EDGES<Acc>(g, sid, evf), true, "edges<accessor>(g,id,evf)");
      fe(vw::EDGES<Acc>(g, sv, evf), true, "edges<accessor>(g,u,evf)");
    }
  }
  size_t m = 0;
  for (auto& a : L.adj) m += a.size();
  c.nontrivial = L.vs.size() >= 3 && m >= 2;
}
template <class G0, class G>
void both(Case& c, G& g) {
  searches<G, false>(c, g);
  if constexpr (graph::adj_list::bidirectional_adjacency_list<G>)
    if (c.s.chance(1, 3)) {
      searches<G, true>(c, g);
      c.label("incoming");
    }
}
template <class G>
void run(Case& c) {
  gen::Opt o;
  o.max_n  = 8;
  o.big_n  = 40;
  o.min_n  = c.s.chance(1, 30) ? 0 : 1;
  MGraph m = gen::graph(c.s, o);
  for (size_t i = 0; i < m.e.size(); ++i) m.e[i].w = static_cast<int>(i) + 1;
  c.desc << gen::str(m);
  G g = make<G>(m);
  if constexpr (graph::adj_list::index_adjacency_list<const G>)
    if (c.s.chance(1, 5)) return both<G, const G>(c, g);
  both<G, G>(c, g);
}
struct Search {
  template <class G>
  static constexpr bool accepts = graph::adj_list::index_adjacency_list<G>;
  template <class G>
  static void run(Case& c) { ::run<G>(c); }
};
RegisterKinds<Search> reg_;
