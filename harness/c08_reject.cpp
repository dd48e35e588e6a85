// C08: invalid construction input is rejected with the documented exception; afterwards the graph is still usable and
// lists nothing that was not supplied. Valid input raises nothing.
#include "graphs.hpp"
#include "tracked.hpp"
#include "traits.hpp"
#include <istream>
#include <ranges>
using namespace gr;
using pbt::Case;

// an input-only (single pass, unsized) view of a vector
template <class T>
struct InputOnly {
  const std::vector<T>* v;
  struct It {
    using iterator_concept = std::input_iterator_tag;
    using value_type       = T;
    using difference_type  = std::ptrdiff_t;
    const std::vector<T>* v = nullptr;
    size_t                i = 0;
    const T&              operator*() const { return (*v)[i]; }
    It&                   operator++() {
      ++i;
      return *this;
    }
    void operator++(int) { ++i; }
    bool operator==(std::default_sentinel_t) const { return i >= v->size(); }
  };
  It                      begin() const { return {v, 0}; }
  std::default_sentinel_t end() const { return {}; }
};

enum Exc { E_NONE, E_RUNTIME, E_RANGE, E_INVALID, E_GRAPH, E_OTHER };
inline const char* exc_name(int e) {
  static const char* n[] = {"no exception", "runtime_error", "out_of_range", "invalid_argument", "graph_error", "another exception"};
  return n[e];
}
template <class F>
Exc catching(F&& f) {
  try {
    f();
    return E_NONE;
  } catch (const pbt::Fail&) { throw;
  } catch (const graph::graph_error&) { return E_GRAPH;
  } catch (const std::out_of_range&) { return E_RANGE;
  } catch (const std::invalid_argument&) { return E_INVALID;
  } catch (const std::runtime_error&) { return E_RUNTIME;
  } catch (...) { return E_OTHER; }
}
// graph_error derives from runtime_error
inline bool is_exc(Exc got, Exc want) { return got == want || (want == E_RUNTIME && got == E_GRAPH); }

using ESet = std::multiset<std::tuple<long, long, int>>;

template <class G>
struct Content {
  long                         n = 0;
  ESet                         e;
  std::map<long, int>          val;
};

// ---------------------------------------------------------------------------------------------- dynamic graphs
template <class G>
struct Dyn {
  using D   = is_dynamic<G>;
  using VId = typename D::vid;
  using EC  = graph::copyable_edge_t<VId, Tracked>;
  using VC  = graph::copyable_vertex_t<VId, Tracked>;
  static constexpr bool vassoc = assoc<typename D::vertices_type>;
  static constexpr bool eassoc = assoc<typename D::edges_type>;
  static constexpr bool vra    = std::ranges::random_access_range<typename D::vertices_type>;

  static Content<G> read(Case& c, G& g) {
    Content<G> r;
    std::set<long> ids;
    for (auto u : graph::vertices(g)) {
      ++r.n;
      long uid = static_cast<long>(graph::vertex_id(g, u));
      PCHECK(ids.insert(uid).second, "vertex listed twice: " << uid);
      r.val[uid] = graph::vertex_value(g, u);
      for (auto uv : graph::edges(g, u)) {
        long t = static_cast<long>(graph::target_id(g, uv));
        r.e.insert({uid, t, static_cast<int>(graph::edge_value(g, uv))});
      }
    }
    for (auto& [a, b, w] : r.e)
      PCHECK(ids.count(a) && ids.count(b), "an edge of " << a << " names " << b << ", which is not a vertex");
    PCHECK(static_cast<long>(graph::num_vertices(g)) == r.n, "num_vertices");
    if constexpr (D::bidir) {
      ESet in;
      for (auto u : graph::vertices(g))
        for (auto uv : graph::in_edges(g, u))
          in.insert({static_cast<long>(graph::source_id(g, uv)), static_cast<long>(graph::vertex_id(g, u)),
                     static_cast<int>(graph::edge_value(g, uv))});
      if (!eassoc)
        PCHECK(in == r.e, "incoming edges differ from outgoing edges");
      else
        PCHECK(in.size() == r.e.size(), "incoming edges differ from outgoing edges");
    }
    return r;
  }
  static std::vector<EC> edges(Case& c, long n, int m, long bad_at, long bad_id, int& tag, ESet& sup) {
    std::vector<EC> r;
    c.desc << " E{";
    for (int i = 0; i < m; ++i) {
      long u = n ? c.s.range(0, static_cast<int>(n) - 1) : 0, v = n ? c.s.range(0, static_cast<int>(n) - 1) : 0;
      if (i == bad_at) {
        int which = c.s.range(0, 2);
        if (which != 1)
          u = bad_id;
        if (which != 0)
          v = bad_id;
      }
      ++tag;
      c.desc << u << ">" << v << " ";
      r.push_back(EC{static_cast<VId>(u), static_cast<VId>(v), Tracked(tag)});
      sup.insert({u, v, tag});
    }
    c.desc << "}";
    return r;
  }
  static bool subset(const ESet& a, const ESet& b) { return std::includes(b.begin(), b.end(), a.begin(), a.end()); }

  static void run(Case& c) {
    LiveGuard lg;
    int       tag = 0;
    {
      G    g;
      ESet supplied;
      std::map<long, std::set<int>> vsup;
      c.desc << "H";
      int steps = c.s.range(1, 5);
      int rejected = 0;
      for (int st = 0; st < steps; ++st) {
        Content<G> before = read(c, g);
        int        op     = c.s.range(0, 7);
        bool       bad    = c.s.chance(2, 3);
        long       nmax   = before.n;
        Exc        want   = E_NONE, got = E_NONE;
        switch (op) {
        case 0:
        case 1: { // an explicitly fixed vertex count
          if (vassoc) bad = false;
          long vc = c.s.range(1, 8);
          long lim = std::max(vc, before.n);
          int  m   = c.s.range(bad ? 1 : 0, 6);
          long off = c.s.range(0, 3);
          long bid = off == 3 ? (std::is_signed_v<VId> ? -1 : 1000) : lim + off;
          c.desc << " load_edges(count " << vc;
          auto es = edges(c, lim, m, bad ? c.s.range(0, m - 1) : -1, bid, tag, supplied);
          bool in = op == 1 && c.s.chance(1, 2);
          c.desc << (in ? ",input-only)" : ")");
          if (bad) want = E_RUNTIME;
          nmax = lim;
          if (in)
            got = catching([&] { g.load_edges(InputOnly<EC>{&es}, std::identity{}, static_cast<size_t>(vc)); });
          else if (c.s.chance(1, 2))
            got = catching([&] { g.load_edges(std::as_const(es), std::identity{}, static_cast<size_t>(vc)); });
          else
            got = catching([&] { g.load_edges(std::move(es), std::identity{}, static_cast<size_t>(vc)); });
          if (vassoc) nmax = before.n + 20;
          break;
        }
        case 2: { // a single-pass range cannot grow the graph
          if (vassoc) bad = false;
          long lim = vassoc ? 6 : before.n;
          int  m   = lim || bad ? c.s.range(bad ? 1 : 0, 5) : 0;
          c.desc << " load_edges(input-only";
          auto es = edges(c, lim, m, bad ? (lim ? c.s.range(0, m - 1) : 0) : -1, lim + c.s.range(0, 2), tag, supplied);
          c.desc << ")";
          if (bad) want = E_RUNTIME;
          nmax = vassoc ? before.n + 20 : before.n;
          got = catching([&] { g.load_edges(InputOnly<EC>{&es}); });
          break;
        }
        case 3: { // vertex values
          if (vassoc || !vra) bad = false;
          int  m   = c.s.range(bad ? 1 : 0, 5);
          long vc  = c.s.range(0, 7);
          long lim = std::max({vc, before.n, static_cast<long>(m)});
          std::vector<VC> vs;
          int badat = bad ? c.s.range(0, m - 1) : -1;
          c.desc << " load_vertices(count " << vc << " V{";
          for (int i = 0; i < m; ++i) {
            long id = c.s.range(0, static_cast<int>(lim) - 1);
            if (i == badat) id = lim + c.s.range(0, 2);
            ++tag;
            c.desc << id << " ";
            vs.push_back(VC{static_cast<VId>(id), Tracked(tag)});
            vsup[id].insert(tag);
          }
          c.desc << "})";
          if (bad) want = E_RANGE;
          nmax = vassoc ? before.n + 20 : lim;
          if (c.s.chance(1, 2))
            got = catching([&] { g.load_vertices(std::as_const(vs), std::identity{}, static_cast<size_t>(vc)); });
          else
            got = catching([&] { g.load_vertices(std::move(vs), std::identity{}, static_cast<size_t>(vc)); });
          break;
        }
        case 4: { // checked access
          long id = c.s.range(-1, 12);
          if (id < 0 && !std::is_signed_v<VId>) id = 200;
          c.desc << " vertex_at " << id;
          bool present = before.val.count(id);
          bad          = !present;
          want         = present ? E_NONE : E_RANGE;
          VId vid      = static_cast<VId>(id);
          const G& cg  = g;
          got = catching([&] { (void)cg.vertex_at(vid); });
          PCHECK(is_exc(got, want), "const vertex_at(" << id << ") with " << before.n << " vertices: " << exc_name(got));
          got = catching([&] { (void)g.vertex_at(vid); });
          PCHECK(g.contains_vertex(vid) == present, "contains_vertex(" << id << ")");
          PCHECK((g.try_find_vertex(vid) != g.end()) == present, "try_find_vertex(" << id << ")");
          PCHECK((cg.try_find_vertex(vid) != cg.end()) == present, "const try_find_vertex(" << id << ")");
          PCHECK((graph::find_vertex(g, vid) != graph::vertices(g).end()) == present, "find_vertex(" << id << ")");
          break;
        }
        case 5: { // construct with a fixed maximum id
          if (vassoc) bad = false;
          long mx = c.s.range(0, 6);
          int  m  = c.s.range(bad ? 1 : 0, 5);
          c.desc << " ctor(max " << mx;
          ESet sup2;
          auto es = edges(c, mx + 1, m, bad ? c.s.range(0, m - 1) : -1, mx + 1 + c.s.range(0, 2), tag, sup2);
          c.desc << ")";
          if (bad) want = E_RUNTIME;
          if constexpr (requires(std::vector<EC>& e) { G(static_cast<VId>(mx), e, std::identity{}, std::vector<VId>{}); }) {
            got = catching([&] {
              G h(static_cast<VId>(mx), es, std::identity{}, std::vector<VId>{});
              auto r = read(c, h);
              PCHECK(eassoc || r.e == sup2, "a graph built with a maximum vertex id lists other edges");
              PCHECK(vassoc || r.n == mx + 1, "a graph built with maximum id " << mx << " has " << r.n << " vertices");
            });
            if (!vassoc) {
              Exc o = catching([&] { G h(std::numeric_limits<VId>::max(), es, std::identity{}, std::vector<VId>{}); });
              PCHECK(is_exc(o, E_INVALID), "maximum id " << +std::numeric_limits<VId>::max() << ": " << exc_name(o));
            }
          } else
            want = E_NONE;
          break;
        }
        case 6: { // valid growing load, always accepted
          bad = false;
          int m = c.s.range(0, 6);
          c.desc << " load_edges(";
          auto es = edges(c, c.s.range(1, 8), m, -1, 0, tag, supplied);
          c.desc << ")";
          nmax = std::max<long>(before.n, 8) + (vassoc ? 20 : 0);
          got  = catching([&] { g.load_edges(std::as_const(es)); });
          break;
        }
        default:
          bad = false;
          c.desc << " clear";
          g.clear();
          supplied.clear();
          vsup.clear();
          nmax = 0;
        }
        PCHECK(is_exc(got, want), "expected " << exc_name(want) << ", got " << exc_name(got) << " with " << before.n << " vertices before");
        if (want != E_NONE) ++rejected;
        Content<G> after = read(c, g);
        PCHECK(after.n <= nmax, "there are " << after.n << " vertices, at most " << nmax << " were asked for");
        PCHECK(subset(after.e, supplied), "lists an edge that was never supplied");
        if (op < 7) {
          PCHECK(subset(before.e, after.e), "an earlier edge is gone or changed");
          PCHECK(after.n >= before.n, "vertices disappeared");
        }
        for (auto& [id, v] : after.val)
          PCHECK(v == 0 || vsup[id].count(v), "vertex " << id << " has the value " << v << ", which was never supplied for it");
      }
      // cleared and refilled it behaves like a new graph
      c.desc << " refill";
      g.clear();
      PCHECK(graph::num_vertices(g) == 0, "vertices after clear");
      supplied.clear();
      int  m  = c.s.range(0, 6);
      long n  = c.s.range(1, 6);
      auto es = edges(c, n, m, -1, 0, tag, supplied);
      G    fresh;
      g.load_edges(std::as_const(es));
      fresh.load_edges(std::as_const(es));
      auto a = read(c, g), b = read(c, fresh);
      PCHECK(a.n == b.n && a.e == b.e && a.val == b.val, "a cleared and refilled graph differs from a new one");
      PCHECK(eassoc || a.e == supplied, "the refilled graph does not list what was loaded");
      PCHECK(graph::num_edges(g) == graph::num_edges(fresh), "num_edges after refill: " << graph::num_edges(g) << " new graph: " << graph::num_edges(fresh));
      c.nontrivial = rejected > 0;
      if (rejected) c.label("rejected");
    }
    PCHECK(lg.delta() == 0, lg.delta() << " values were not destroyed");
  }
};

// ------------------------------------------------------------------------------------------- compressed graphs
template <class G>
void compressed(Case& c) {
  using D   = is_compressed<G>;
  using VId = typename D::vid;
  using EC  = graph::copyable_edge_t<VId, Tracked>;
  using VC  = graph::copyable_vertex_t<VId, Tracked>;
  LiveGuard lg;
  {
    G    g;
    int  tag = 0;
    auto gen_edges = [&](bool unsorted, ESet& sup, int nmax) {
      int             m = c.s.range(unsorted ? 2 : 0, 8);
      std::vector<EC> r;
      std::vector<int> us;
      for (int i = 0; i < m; ++i) us.push_back(c.s.range(0, nmax));
      std::sort(us.begin(), us.end());
      if (unsorted) { // at least one descent
        int k = c.s.range(0, m - 2);
        if (us[static_cast<size_t>(k)] == us[static_cast<size_t>(k) + 1])
          for (int i = k + 1; i < m; ++i) ++us[static_cast<size_t>(i)];
        std::swap(us[static_cast<size_t>(k)], us[static_cast<size_t>(k) + 1]);
      }
      c.desc << "{";
      for (int u : us) {
        int v = c.s.range(0, nmax);
        ++tag;
        c.desc << u << ">" << v << " ";
        r.push_back(EC{static_cast<VId>(u), static_cast<VId>(v), Tracked(tag)});
        sup.insert({u, v, tag});
      }
      c.desc << "}";
      return r;
    };
    auto read = [&](G& x, ESet& e) {
      long n = 0;
      for (auto u : graph::vertices(x)) {
        ++n;
        for (auto uv : graph::edges(x, u)) {
          long t = static_cast<long>(graph::target_id(x, uv));
          e.insert({static_cast<long>(graph::vertex_id(x, u)), t, static_cast<int>(graph::edge_value(x, uv))});
        }
      }
      PCHECK(n == static_cast<long>(graph::num_vertices(x)), "num_vertices " << graph::num_vertices(x) << " but " << n << " are listed");
      return n;
    };
    int rejected = 0;
    int rounds   = c.s.range(1, 3);
    for (int k = 0; k < rounds; ++k) {
      int  op  = c.s.range(0, 3);
      bool bad = c.s.chance(2, 3);
      ESet sup;
      if (op <= 1) {
        c.desc << (op ? " ctor" : " load_edges");
        auto es  = gen_edges(bad, sup, 6);
        Exc  got;
        if (op == 0) {
          got = catching([&] { g.load_edges(std::as_const(es)); });
          ESet now;
          // what is stored of a rejected load may be incomplete, but nothing else may be listed
          long n = read(g, now);
          (void)n;
          PCHECK(std::includes(sup.begin(), sup.end(), now.begin(), now.end()), "lists an edge that was never supplied");
          PCHECK(bad || now == sup, "does not list the edges it was given");
        } else
          got = catching([&] {
            G h(es);
            ESet now;
            read(h, now);
            PCHECK(now == sup, "does not list the edges it was given");
          });
        Exc want = bad ? E_GRAPH : E_NONE;
        PCHECK(is_exc(got, want), "expected " << exc_name(want) << ", got " << exc_name(got));
      } else {
        c.desc << (op == 2 ? " load_vertices" : " load");
        bad                = false; // any vertex id is accepted: the graph grows to hold it
        bool            far = c.s.chance(1, 2);
        auto            es = gen_edges(false, sup, 5);
        int             m  = c.s.range(far ? 1 : 0, 6);
        long            nv = 0;
        for (auto& e : es) nv = std::max<long>({nv, static_cast<long>(e.source_id) + 1, static_cast<long>(e.target_id) + 1});
        std::vector<VC> vs;
        long            lim = op == 2 ? std::max<long>(nv, m) : m;
        int             at  = far ? c.s.range(0, m - 1) : -1;
        long            top = nv;
        c.desc << " V{";
        for (int i = 0; i < m; ++i) {
          long id = i == at ? lim + c.s.range(0, 2) + (op == 3 ? 100 : 0) : c.s.range(0, m - 1);
          vs.push_back(VC{static_cast<VId>(id), Tracked(++tag)});
          top = std::max(top, id + 1);
          c.desc << id << " ";
        }
        c.desc << "}";
        Exc got;
        if (op == 2) {
          g.load_edges(std::as_const(es));
          got = catching([&] { g.load_vertices(std::as_const(vs)); });
          ESet now;
          read(g, now);
          PCHECK(now == sup, "loading vertex values changed the edges");
        } else
          got = catching([&] {
            G    h(es, vs);
            ESet now;
            long n = read(h, now);
            PCHECK(now == sup && n == top, "a graph built from edges and vertex values has " << n << " vertices, not " << top);
          });
        PCHECK(got == E_NONE, "valid input was rejected with " << exc_name(got));
      }
      if (bad) ++rejected;
      c.desc << " clear";
      g.clear();
      PCHECK(graph::num_vertices(g) == 0 && graph::num_edges(g) == 0, "vertices or edges after clear");
    }
    ESet sup, now;
    c.desc << " refill";
    auto es = gen_edges(false, sup, 6);
    g.load_edges(std::as_const(es));
    read(g, now);
    PCHECK(now == sup, "the refilled graph does not list what was loaded");
    c.nontrivial = rejected > 0;
    if (rejected) c.label("rejected");
  }
  PCHECK(lg.delta() == 0, lg.delta() << " values were not destroyed");
}

// ------------------------------------------------------------------------------------------- undirected graphs
template <class G, bool HasGV>
void undirected(Case& c) {
  using D   = is_undirected<G>;
  using VId = typename D::vid;
  using EC  = graph::copyable_edge_t<VId, Tracked>;
  using VC  = graph::copyable_vertex_t<VId, Tracked>;
  LiveGuard lg;
  {
    bool bad = c.s.chance(2, 3);
    int  m   = c.s.range(bad ? 2 : 0, 9);
    std::vector<int> us;
    for (int i = 0; i < m; ++i) us.push_back(c.s.range(0, 6));
    std::sort(us.begin(), us.end());
    if (bad) {
      int k = c.s.range(0, m - 2);
      if (us[static_cast<size_t>(k)] == us[static_cast<size_t>(k) + 1])
        for (int i = k + 1; i < m; ++i) ++us[static_cast<size_t>(i)];
      std::swap(us[static_cast<size_t>(k)], us[static_cast<size_t>(k) + 1]);
    }
    std::vector<EC> es;
    ESet            want;
    for (int u : us) {
      int v = c.s.range(0, 7);
      es.push_back(EC{static_cast<VId>(u), static_cast<VId>(v), Tracked(static_cast<int>(es.size()) + 1)});
      c.desc << u << ">" << v << " ";
      want.insert({std::min(u, v), std::max(u, v), static_cast<int>(es.size())});
    }
    std::vector<VC> vs;
    int             nv = c.s.range(0, 5);
    c.desc << "V" << nv;
    for (int i = 0; i < nv; ++i) vs.push_back(VC{static_cast<VId>(i), Tracked(100 + i)});
    auto check = [&](G& g) {
      ESet now;
      for (auto u : graph::vertices(g))
        for (auto uv : graph::edges(g, u)) {
          int a = static_cast<int>(graph::vertex_id(g, u)), b = static_cast<int>(graph::target_id(g, uv));
          if (a <= b) now.insert({a, b, static_cast<int>(graph::edge_value(g, uv))});
        }
      PCHECK(now == want, "does not list the edges it was given");
    };
    Exc got = catching([&] {
      if constexpr (HasGV) {
        G g(es, vs, std::identity{}, std::identity{}, Tracked(7));
        check(g);
      } else {
        G g(es, vs, std::identity{}, std::identity{});
        check(g);
      }
    });
    Exc w = bad ? E_INVALID : E_NONE;
    PCHECK(is_exc(got, w), "expected " << exc_name(w) << ", got " << exc_name(got));
    c.nontrivial = bad;
    if (bad) c.label("rejected");
  }
  PCHECK(lg.delta() == 0, lg.delta() << " values were not destroyed");
}

struct Register {
  template <class G>
  static void dyn(const char* n) { pbt::targets().push_back({n, [](Case& c) { Dyn<G>::run(c); }, 1.0}); }
  Register() {
#if UNIT == 0
    dyn<DG_U(vov, Tracked, Tracked, uint32_t)>("vov");
    dyn<DG_U(vol, Tracked, Tracked, int)>("vol int");
    dyn<DG_U(vofl, Tracked, Tracked, uint8_t)>("vofl u8");
    dyn<DG_U(vod, Tracked, Tracked, uint64_t)>("vod u64");
#elif UNIT == 1
    dyn<DG_U(vos, Tracked, Tracked, uint32_t)>("vos");
    dyn<DG_U(voum, Tracked, Tracked, uint32_t)>("voum");
    dyn<DG_U(mov, Tracked, Tracked, int)>("mov int");
    dyn<DG_U(uol, Tracked, Tracked, uint32_t)>("uol");
    dyn<DG_U(mos, Tracked, Tracked, int)>("mos");
#elif UNIT == 2
    dyn<DG_U(dov, Tracked, Tracked, uint32_t)>("dov");
    dyn<DG_U(dol, Tracked, Tracked, int)>("dol int");
    dyn<DG_U(dos, Tracked, Tracked, uint16_t)>("dos");
    dyn<DG_B(vov, Tracked, Tracked, uint32_t)>("bi vov");
#elif UNIT == 3
    dyn<DG_B(vol, Tracked, Tracked, uint32_t)>("bi vol");
    dyn<DG_B(dov, Tracked, Tracked, int)>("bi dov int");
    dyn<DG_B(vous, Tracked, Tracked, uint32_t)>("bi vous");
    dyn<DG_B(mov, Tracked, Tracked, int)>("bi mov");
#elif UNIT == 4
    using C1 = gc::compressed_graph<Tracked, Tracked, void, uint32_t, uint32_t>;
    using C2 = gc::compressed_graph<Tracked, Tracked, void, int, size_t>;
    using C3 = gc::compressed_graph<Tracked, Tracked, void, uint8_t, uint16_t>;
    pbt::targets().push_back({"compressed u32", compressed<C1>, 1.0});
    pbt::targets().push_back({"compressed int", compressed<C2>, 1.0});
    pbt::targets().push_back({"compressed u8", compressed<C3>, 1.0});
#elif UNIT == 5
    using U1 = gc::undirected_adjacency_list<Tracked, Tracked, void, uint32_t>;
    using U2 = gc::undirected_adjacency_list<Tracked, Tracked, Tracked, uint32_t>;
    pbt::targets().push_back({"undirected", undirected<U1, false>, 1.0});
    pbt::targets().push_back({"undirected gv", undirected<U2, true>, 1.0});
#endif
  }
} reg_;
