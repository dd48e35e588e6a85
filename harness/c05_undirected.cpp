// C05 (edits of one undirected graph) and C06 (COPIES: copies, moves and swaps between several) against a model that
// keeps, per vertex, the list of live edges in the order they were created.
#include "graphs.hpp"
#include "tracked.hpp"
#include <deque>
using namespace gr;
using pbt::Case;
#ifndef COPIES
#  define COPIES 0
#endif

struct ME {
  int u, v, val;
};
struct Model {
  std::vector<int>              val;  // vertex values
  std::map<int, ME>             e;    // live edges by identity
  std::vector<std::vector<int>> inc;  // per vertex: identities in list order, a self-loop once
  int                           gv = 0;
  void                          add_vertex(int v) {
    val.push_back(v);
    inc.emplace_back();
  }
  void add_edge(int id, int u, int v, int w) {
    e[id] = {u, v, w};
    inc[static_cast<size_t>(u)].push_back(id);
    if (u != v)
      inc[static_cast<size_t>(v)].push_back(id);
  }
  void erase(int id) {
    auto x = e.at(id);
    e.erase(id);
    std::erase(inc[static_cast<size_t>(x.u)], id);
    std::erase(inc[static_cast<size_t>(x.v)], id);
  }
  void clear_vertex(int u) {
    auto l = inc[static_cast<size_t>(u)];
    for (int id : l)
      erase(id);
  }
  void clear() {
    val.clear();
    e.clear();
    inc.clear();
  }
};

template <class G>
struct Run {
  using D                     = is_undirected<G>;
  using VId                   = typename D::vid;
  static constexpr bool hasGV = !std::is_void_v<typename G::graph_value_type>;
  struct Slot {
    G     g;
    Model m;
  };

  static auto eit(G& g, int u, int k) {
    auto it = g.vertices()[static_cast<size_t>(u)].edges_begin(g, static_cast<VId>(u));
    for (int i = 0; i < k; ++i)
      ++it;
    return it;
  }

  // lists at every vertex; with adopt, only the set of edges is required and the model takes over the order
  static void verify(Case& c, G& g, Model& m, const char* when, bool adopt = false) {
    const G& cg = g;
    size_t   n  = m.val.size();
    PCHECK(g.num_vertices() == n && graph::num_vertices(g) == n, when << ": num_vertices " << g.num_vertices() << " want " << n);
    PCHECK(g.num_edges() == m.e.size(), when << ": num_edges " << g.num_edges() << " want " << m.e.size());
    PCHECK(graph::num_edges(g) == m.e.size(), when << ": graph::num_edges " << graph::num_edges(g) << " want " << m.e.size());
    PCHECK(graph::has_edges(g) == !m.e.empty(), when << ": has_edges");
    std::map<int, int> byval; // value -> identity
    for (auto& [id, x] : m.e)
      byval[x.val] = id;
    size_t i = 0;
    for (auto u : graph::vertices(g)) {
      PCHECK(i < n, when << ": more vertices listed than " << n);
      int uid = static_cast<int>(graph::vertex_id(g, u));
      PCHECK(uid == static_cast<int>(i), when << ": vertex ids");
      PCHECK(graph::vertex_value(g, u).get() == m.val[i], when << ": vertex " << i << " has value " << graph::vertex_value(g, u) << " want " << m.val[i]);
      PCHECK(graph::vertex_value(cg, u).get() == m.val[i], when << ": const vertex value");
      std::vector<int> got;
      size_t           budget = m.e.size() + 3;
      for (auto uv : graph::edges(g, u)) {
        PCHECK(budget-- > 0, when << ": the edges of vertex " << i << " do not end");
        int  v  = graph::edge_value(g, uv).get();
        auto it = byval.find(v);
        PCHECK(it != byval.end(), when << ": vertex " << i << " lists an edge with value " << v << ", which is not live");
        auto& x = m.e[it->second];
        int   t = static_cast<int>(graph::target_id(g, uv));
        PCHECK(static_cast<int>(graph::source_id(g, uv)) == uid, when << ": source_id at vertex " << i);
        PCHECK((x.u == uid && x.v == t) || (x.v == uid && x.u == t),
               when << ": vertex " << i << " lists edge " << x.u << "-" << x.v << " with neighbor " << t);
        PCHECK(static_cast<int>(graph::vertex_id(g, graph::target(g, uv))) == t, when << ": target at vertex " << i);
        got.push_back(it->second);
      }
      auto& want = m.inc[i];
      if (adopt) {
        auto a = got, b = want;
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        PCHECK(a == b, when << ": vertex " << i << " lists edges " << pbt::show(a) << " want " << pbt::show(b));
        want = got;
      }
      PCHECK(got == want, when << ": vertex " << i << " lists edges " << pbt::show(got) << " want " << pbt::show(want));
      PCHECK(static_cast<size_t>(graph::degree(g, u)) == want.size(), when << ": degree of " << i << " is " << graph::degree(g, u) << " but " << want.size() << " edges are listed");
      auto& vx = g.vertices()[i];
      PCHECK(vx.num_edges() == want.size(), when << ": num_edges of vertex " << i << " is " << vx.num_edges() << " want " << want.size());
      PCHECK(static_cast<size_t>(std::ranges::size(vx.edges(g, static_cast<VId>(i)))) == want.size(), when << ": size of the edge range of " << i);
      // the container's own iterators, const and backwards
      {
        std::vector<int> fwd, bwd, nb;
        const auto&      cvx = cg.vertices()[i];
        for (auto it = cvx.edges_begin(cg, static_cast<VId>(i)); it != cvx.edges_end(cg, static_cast<VId>(i)); ++it) {
          fwd.push_back(byval.at(it->value().get()));
          nb.push_back(static_cast<int>(it->other_vertex_id(cg, static_cast<VId>(i))));
        }
        auto it = vx.edges_end(g, static_cast<VId>(i));
        for (size_t k = 0; k < want.size(); ++k) {
          --it;
          bwd.push_back(byval.at(it->value().get()));
        }
        if (!want.empty())
          PCHECK(it == vx.edges_begin(g, static_cast<VId>(i)), when << ": walking back from the end of vertex " << i << " does not reach its first edge");
        std::reverse(bwd.begin(), bwd.end());
        PCHECK(fwd == want, when << ": const iteration at vertex " << i << " gives " << pbt::show(fwd) << " want " << pbt::show(want));
        PCHECK(bwd == want, when << ": backward iteration at vertex " << i << " gives " << pbt::show(bwd) << " want " << pbt::show(want));
        size_t k = 0;
        for (auto& nv : vx.neighbors(g, static_cast<VId>(i))) {
          PCHECK(k < nb.size() && nv.value().get() == m.val[static_cast<size_t>(nb[k])], when << ": neighbors of vertex " << i);
          ++k;
        }
        PCHECK(k == want.size(), when << ": number of neighbors of vertex " << i);
      }
      ++i;
    }
    PCHECK(i == n, when << ": fewer vertices listed than " << n);
    if constexpr (hasGV)
      PCHECK(g.graph_value().get() == m.gv, when << ": graph value " << g.graph_value() << " want " << m.gv);
    // look-up by endpoints
    if (n > 0) {
      for (int k = 0; k < 3; ++k) {
        int a = c.s.range(0, static_cast<int>(n) - 1), b = c.s.range(0, static_cast<int>(n) - 1);
        bool want = false;
        for (auto& [id, x] : m.e)
          want = want || (x.u == a && x.v == b) || (x.u == b && x.v == a);
        PCHECK(graph::contains_edge(g, static_cast<VId>(a), static_cast<VId>(b)) == want, when << ": contains_edge(" << a << "," << b << ") want " << want);
      }
    }
  }

  // position the library returned: same as walking to index k of vertex u
  static void at_pos(Case& c, G& g, auto it, int u, int k, const Model& m, const char* what) {
    auto end = g.vertices()[static_cast<size_t>(u)].edges_end(g, static_cast<VId>(u));
    auto& l  = m.inc[static_cast<size_t>(u)];
    if (k >= static_cast<int>(l.size()))
      PCHECK(it == end, what << ": the returned position is not the end");
    else {
      PCHECK(it != end, what << ": the returned position is the end but edge " << l[static_cast<size_t>(k)] << " follows");
      PCHECK(it->value().get() == m.e.at(l[static_cast<size_t>(k)]).val, what << ": the returned position is edge " << it->value());
      // and iteration continues from there
      size_t left = 0;
      while (it != end && left <= l.size()) {
        ++it;
        ++left;
      }
      PCHECK(left == l.size() - static_cast<size_t>(k), what << ": " << left << " edges follow the returned position");
    }
  }

  static void edit(Case& c, Slot& s, int& tag) {
    G&     g = s.g;
    Model& m = s.m;
    int    n = static_cast<int>(m.val.size());
    int    op = c.s.range(0, 15);
    if (n == 0 && op > 1)
      op = 0;
    if (op <= 1) {
      int k = c.s.range(1, 3);
      c.desc << " +v" << k;
      for (int i = 0; i < k; ++i) {
        if (static_cast<unsigned long long>(m.val.size()) + 2 > static_cast<unsigned long long>(std::numeric_limits<VId>::max()))
          break;
        int how = c.s.range(0, 2);
        if (how == 0) {
          g.create_vertex();
          m.add_vertex(0);
        } else {
          Tracked t(++tag);
          auto    it = how == 1 ? g.create_vertex(t) : g.create_vertex(std::move(t));
          PCHECK(static_cast<size_t>(it - g.vertices().begin()) == m.val.size(), "create_vertex returns the new vertex");
          m.add_vertex(tag);
        }
      }
    } else if (op <= 7) { // create an edge, biased to parallel edges and self-loops
      int u = c.s.range(0, n - 1), v = c.s.range(0, n - 1);
      int kind = c.s.range(0, 5);
      if (kind == 0)
        v = u;
      else if (kind == 1 && !m.e.empty()) {
        auto it = m.e.begin();
        std::advance(it, c.s.below(static_cast<uint32_t>(m.e.size())));
        u = it->second.u, v = it->second.v;
        if (c.s.chance(1, 2)) std::swap(u, v);
      }
      int how = c.s.range(0, 5);
      c.desc << " +" << u << "-" << v << "/" << how;
      ++tag;
      Tracked t(tag);
      auto    ui = g.vertices().begin() + u, vi = g.vertices().begin() + v;
      VId     a = static_cast<VId>(u), b = static_cast<VId>(v);
      auto    it = how == 0   ? g.create_edge(a, b)
                   : how == 1 ? g.create_edge(a, b, t)
                   : how == 2 ? g.create_edge(a, b, std::move(t))
                   : how == 3 ? g.create_edge(ui, vi)
                   : how == 4 ? g.create_edge(ui, vi, t)
                              : g.create_edge(ui, vi, std::move(t));
      if (how == 0 || how == 3) {
        PCHECK(it->value().get() == 0, "a new edge without a value has the value " << it->value());
        it->value() = Tracked(tag);
      }
      PCHECK(it->value().get() == tag, "create_edge returns the new edge");
      m.add_edge(tag, u, v, tag);
      at_pos(c, g, it, u, static_cast<int>(m.inc[static_cast<size_t>(u)].size()) - 1, m, "create_edge");
      if (u == v) c.label("self-loop");
    } else if (op <= 10) { // erase one
      int   u = c.s.range(0, n - 1);
      auto& l = m.inc[static_cast<size_t>(u)];
      if (l.empty()) {
        c.desc << " -";
        return;
      }
      int k   = c.s.range(0, static_cast<int>(l.size()) - 1);
      int id  = l[static_cast<size_t>(k)];
      c.desc << " -" << u << "[" << k << "]";
      if (op == 10) { // through the position in the whole graph
        c.desc << "g";
        std::vector<std::pair<int, int>> seq; // incidences after this one, in whole-graph order
        for (int x = u; x < n; ++x)
          for (size_t j = x == u ? static_cast<size_t>(k) + 1 : 0; j < m.inc[static_cast<size_t>(x)].size(); ++j)
            seq.push_back({x, m.inc[static_cast<size_t>(x)][j]});
        typename G::edge_iterator pos(g, g.vertices().begin() + u, eit(g, u, k));
        auto                      nx = g.erase_edge(pos);
        m.erase(id);
        typename G::edge_iterator end(g, g.vertices().end());
        std::erase_if(seq, [&](auto& p) { return p.second == id; });
        for (auto& [x, e] : seq) {
          PCHECK(nx != end, "erase_edge returned the end but edge " << e << " of vertex " << x << " follows");
          PCHECK(nx->value().get() == m.e.at(e).val, "erase_edge returned position of edge " << nx->value() << " want " << e);
          ++nx;
        }
        PCHECK(nx == end, "more edges follow the position erase_edge returned");
      } else {
        auto it = g.vertices()[static_cast<size_t>(u)].erase_edge(g, eit(g, u, k));
        m.erase(id);
        at_pos(c, g, it, u, k, m, "erase_edge");
      }
      c.label("erase");
    } else if (op == 11) { // erase a range
      int   u = c.s.range(0, n - 1);
      auto  l = m.inc[static_cast<size_t>(u)];
      int   a = c.s.range(0, static_cast<int>(l.size())), b = c.s.range(a, static_cast<int>(l.size()));
      c.desc << " -" << u << "[" << a << ".." << b << ")";
      auto first = eit(g, u, a), last = eit(g, u, b);
      auto it = g.vertices()[static_cast<size_t>(u)].erase_edge(g, first, last);
      for (int k = a; k < b; ++k)
        m.erase(l[static_cast<size_t>(k)]);
      at_pos(c, g, it, u, a, m, "erase_edge(range)");
      if (b > a) c.label("erase range");
    } else if (op == 12) {
      int u = c.s.range(0, n - 1);
      c.desc << " clear_edges " << u;
      g.vertices()[static_cast<size_t>(u)].clear_edges(g);
      m.clear_vertex(u);
      c.label("clear_edges");
    } else if (op == 13) {
      if (c.s.chance(1, 3)) {
        c.desc << " clear";
        g.clear();
        m.clear();
      } else {
        int k = c.s.range(0, n + 3);
        if (static_cast<unsigned long long>(k) + 2 > static_cast<unsigned long long>(std::numeric_limits<VId>::max()))
          return;
        c.desc << " resize " << k;
        for (int i = k; i < n; ++i)
          m.clear_vertex(i);
        g.resize_vertices(static_cast<size_t>(k));
        m.val.resize(static_cast<size_t>(k));
        m.inc.resize(static_cast<size_t>(k));
      }
    } else if (op == 14) { // write a value through an edge handle
      int   u = c.s.range(0, n - 1);
      auto& l = m.inc[static_cast<size_t>(u)];
      if (l.empty())
        return;
      int k = c.s.range(0, static_cast<int>(l.size()) - 1);
      ++tag;
      c.desc << " set " << u << "[" << k << "]";
      int j = 0;
      for (auto uv : graph::edges(g, *graph::find_vertex(g, static_cast<VId>(u)))) {
        if (j++ == k)
          graph::edge_value(g, uv) = Tracked(tag);
      }
      m.e[l[static_cast<size_t>(k)]].val = tag;
    } else {
      int u = c.s.range(0, n - 1);
      ++tag;
      c.desc << " setv " << u;
      graph::vertex_value(g, *graph::find_vertex(g, static_cast<VId>(u))) = Tracked(tag);
      m.val[static_cast<size_t>(u)]                                         = tag;
    }
  }

  static void single(Case& c) {
    LiveGuard lg;
    {
      Slot s;
      int  tag = 0;
      int  n   = c.s.range(0, 4);
      c.desc << "n" << n;
      for (int i = 0; i < n; ++i) {
        g_add(s, tag);
      }
      int steps = c.s.chance(1, 10) ? c.s.range(1, 60) : c.s.range(1, 14);
      for (int i = 0; i < steps; ++i) {
        edit(c, s, tag);
        verify(c, s.g, s.m, "after an edit");
      }
      c.nontrivial = tag > n && steps > 1 && (!s.m.e.empty() || std::find(c.labels.begin(), c.labels.end(), "erase") != c.labels.end());
    }
    PCHECK(lg.delta() == 0, lg.delta() << " values were not destroyed");
  }
  static void g_add(Slot& s, int& tag) {
    s.g.create_vertex(Tracked(++tag));
    s.m.add_vertex(tag);
  }

  static void build(Case& c, Slot& s, int& tag) { // a fresh graph through one of the constructors
    int how = c.s.range(0, 3);
    int n = c.s.range(0, 5), k = n ? c.s.range(0, 6) : 0;
    std::vector<std::pair<int, int>> es;
    for (int i = 0; i < k; ++i)
      es.push_back({c.s.range(0, n - 1), c.s.range(0, n - 1)});
    c.desc << " {n" << n << " how" << how;
    for (auto& [u, v] : es)
      c.desc << " " << u << "-" << v;
    c.desc << "}";
    if (how <= 1) {
      G x;
      s.g = std::move(x);
      s.m = Model{};
      for (int i = 0; i < n; ++i)
        g_add(s, tag);
      for (auto& [u, v] : es) {
        ++tag;
        s.g.create_edge(static_cast<VId>(u), static_cast<VId>(v), Tracked(tag));
        s.m.add_edge(tag, u, v, tag);
      }
      if constexpr (hasGV) {
        s.m.gv            = ++tag;
        s.g.graph_value() = Tracked(tag);
      }
    } else {
      std::stable_sort(es.begin(), es.end(), [](auto& a, auto& b) { return a.first < b.first; });
      using EC = graph::copyable_edge_t<VId, Tracked>;
      using VC = graph::copyable_vertex_t<VId, Tracked>;
      std::vector<EC> ev;
      std::vector<VC> vv;
      Model           m;
      int             nn = n;
      if (how == 3) { // edges only: the largest id decides the vertex count
        nn = 0;
        for (auto& [u, v] : es)
          nn = std::max({nn, u + 1, v + 1});
      }
      for (int i = 0; i < nn; ++i) {
        m.add_vertex(how == 3 ? 0 : ++tag);
        if (how == 2)
          vv.push_back(VC{static_cast<VId>(i), Tracked(tag)});
      }
      for (auto& [u, v] : es) {
        ++tag;
        ev.push_back(EC{static_cast<VId>(u), static_cast<VId>(v), Tracked(tag)});
        m.add_edge(tag, u, v, tag);
      }
      if constexpr (hasGV) {
        m.gv = ++tag;
        if (how == 2) {
          G x(ev, vv, std::identity{}, std::identity{}, Tracked(tag));
          s.g = std::move(x);
        } else {
          G x(ev, std::identity{}, Tracked(tag));
          s.g = std::move(x);
        }
      } else {
        if (how == 2) {
          G x(ev, vv, std::identity{}, std::identity{});
          s.g = std::move(x);
        } else {
          G x(ev, std::identity{});
          s.g = std::move(x);
        }
      }
      s.m = m;
    }
  }

  static void copies(Case& c) {
    LiveGuard lg;
    {
      std::vector<std::unique_ptr<Slot>> v;
      int                                tag = 0;
      for (int i = 0; i < 3; ++i) {
        v.push_back(std::make_unique<Slot>());
        if (i < 2) build(c, *v.back(), tag);
        verify(c, v.back()->g, v.back()->m, "a constructed graph");
      }
      int  steps = c.s.range(1, 8);
      bool big   = false;
      for (int st = 0; st < steps; ++st) {
        int   op = c.s.range(0, 11);
        int   a = c.s.range(0, 2), b = c.s.range(0, 2);
        Slot &x = *v[static_cast<size_t>(a)], &y = *v[static_cast<size_t>(b)];
        bool  adopt = false;
        big = big || !y.m.e.empty();
        switch (op) {
        case 0: {
          c.desc << " " << a << "=G(" << b << ")";
          auto s = std::unique_ptr<Slot>(new Slot{G(y.g), y.m});
          verify(c, s->g, s->m, "a copy", true);
          if (a != b) verify(c, y.g, y.m, "the copied graph");
          v[static_cast<size_t>(a)] = std::move(s);
          c.label("copy");
          break;
        }
        case 1:
        case 2:
          c.desc << " " << a << "=" << b;
          x.g = static_cast<const G&>(y.g);
          if (a != b) x.m = y.m;
          adopt = true;
          c.label("copy assign");
          break;
        case 3: {
          c.desc << " " << a << "=G(move " << b << ")";
          auto s = std::unique_ptr<Slot>(new Slot{G(std::move(y.g)), y.m});
          verify(c, s->g, s->m, "a moved-to graph");
          int gv = y.m.gv;
          y.m    = Model{};
          y.m.gv = gv;
          after_move(c, y, tag);
          if (a != b) v[static_cast<size_t>(a)] = std::move(s);
          else {
            std::swap(v[static_cast<size_t>(a)], s); // the moved-from graph is destroyed
          }
          c.label("move");
          break;
        }
        case 4:
        case 5: {
          if (a == b) break;
          c.desc << " " << a << "=move " << b;
          x.g    = std::move(y.g);
          x.m    = y.m;
          verify(c, x.g, x.m, "a graph that was move-assigned");
          int gv = y.m.gv;
          y.m    = Model{};
          y.m.gv = gv;
          after_move(c, y, tag);
          c.label("move assign");
          break;
        }
        case 6:
          c.desc << " swap " << a << b;
          if (a != b) {
            x.g.swap(y.g);
            std::swap(x.m, y.m);
          }
          c.label("swap");
          break;
        case 7:
          c.desc << " std::swap " << a << b;
          if (a != b) {
            std::swap(x.g, y.g);
            std::swap(x.m, y.m);
          }
          c.label("swap");
          break;
        case 8:
          c.desc << " rebuild" << a;
          build(c, x, tag);
          break;
        default:
          c.desc << " " << a << ":";
          edit(c, x, tag);
        }
        for (int i = 0; i < 3; ++i)
          verify(c, v[static_cast<size_t>(i)]->g, v[static_cast<size_t>(i)]->m, "after a step", adopt && i == a);
      }
      c.nontrivial = big;
    }
    PCHECK(lg.delta() == 0, lg.delta() << " values were not destroyed");
  }
  // a moved-from graph: cleared or not, it can be refilled
  static void after_move(Case& c, Slot& s, int& tag) {
    if constexpr (hasGV) {
      s.g.graph_value() = Tracked(s.m.gv);
    }
    if (c.s.chance(1, 2)) {
      c.desc << "(clear)";
      s.g.clear();
    } else {
      PCHECK(s.g.num_edges() == 0 && s.g.num_vertices() == 0, "a moved-from graph reports " << s.g.num_vertices() << " vertices and " << s.g.num_edges() << " edges");
    }
    if (c.s.chance(1, 2)) {
      g_add(s, tag);
      g_add(s, tag);
      ++tag;
      s.g.create_edge(static_cast<VId>(1), static_cast<VId>(0), Tracked(tag));
      s.m.add_edge(tag, 1, 0, tag);
      c.desc << "(refill)";
    }
    verify(c, s.g, s.m, "a moved-from graph");
  }
};

template <class VId, class GV = void>
using UG = gc::undirected_adjacency_list<Tracked, Tracked, GV, VId>;
template <class VId>
using UD = gc::undirected_adjacency_list<Tracked, Tracked, void, VId, std::deque>;
struct Register {
  template <class G>
  static void add(const char* n, double w = 1) {
#if COPIES
    pbt::targets().push_back({n, [](Case& c) { Run<G>::copies(c); }, w});
#else
    pbt::targets().push_back({n, [](Case& c) { Run<G>::single(c); }, w});
#endif
  }
  Register() {
#if UNIT == 0
    add<UG<uint32_t>>("u32");
    add<UG<size_t, Tracked>>("size_t with graph value");
#else
    add<UG<uint8_t>>("u8");
    add<UG<int, Tracked>>("int with graph value");
#endif
  }
} reg_;
