// C12: a container whose construction, load, copy or edit fails part-way (out of memory, a throwing projection or range).
// KIND 0 dynamic_graph (TRAITSET, BIDIR), 1 compressed_graph, 2 undirected_adjacency_list.
#include "graphs.hpp"
#include "traits.hpp"
#include "tracked.hpp"
#include "fault.hpp"
#include <functional>
using namespace gr;
using pbt::Case;
using fault::Armed;
using fault::tick;
#ifndef KIND
#  define KIND 0
#endif
#ifndef BIDIR
#  define BIDIR 0
#endif

template <class G, class EV, class VV, class VId>
struct Fail {
  static constexpr bool hasE = !std::is_void_v<EV>, hasV = !std::is_void_v<VV>;
  using Edge_t   = graph::copyable_edge_t<VId, EV>;
  using Vertex_t = graph::copyable_vertex_t<VId, VV>;
  static Edge_t mkE(int a, int b, int w) {
    if constexpr (hasE) return Edge_t{static_cast<VId>(a), static_cast<VId>(b), EV(w)};
    else return Edge_t{static_cast<VId>(a), static_cast<VId>(b)};
  }
  static Vertex_t mkV(int id, int w) {
    if constexpr (hasV) return Vertex_t{static_cast<VId>(id), VV(w)};
    else return Vertex_t{static_cast<VId>(id)};
  }
  using Es = std::vector<Edge_t>;
  using Vs = std::vector<Vertex_t>;
  static Es edges_of(const MGraph& m) {
    Es r;
    for (auto& e : m.e) r.push_back(mkE(e.u, e.v, e.w + 1));
    return r;
  }
  static Vs verts_of(const MGraph& m) {
    Vs r;
    for (int i = 0; i < m.n; ++i) r.push_back(mkV(i, 50 + i));
    return r;
  }
  // Everything the graph says, and that it says it consistently
  static std::string listing(Case& c, G& g, const char* when) {
    std::ostringstream                   o;
    std::multiset<std::pair<long, long>> out, in;
    std::set<long>                       ids;
    size_t                               n = 0, m = 0;
    for (auto u : graph::vertices(g)) ids.insert(static_cast<long>(graph::vertex_id(g, u)));
    for (auto u : graph::vertices(g)) {
      auto id = static_cast<long>(graph::vertex_id(g, u));
      ++n;
      o << id;
      if constexpr (hasV && KIND != 1) o << '=' << graph::vertex_value(g, u).get(); // (there may be none in a compressed graph)
      o << "(";
      size_t d = 0;
      for (auto uv : graph::edges(g, u)) {
        auto t = static_cast<long>(graph::target_id(g, uv));
        PCHECK(ids.count(t), when << ": an edge " << id << ">" << t << " leads to no vertex");
        PCHECK(static_cast<long>(graph::source_id(g, uv)) == id, when << ": source of an edge of " << id);
        o << ' ' << t;
        if constexpr (hasE) o << ':' << graph::edge_value(g, uv).get();
        out.insert({id, t});
        ++d;
        if (d > 1000) throw pbt::Fail{"endless list"};
      }
      m += d;
      PCHECK(static_cast<size_t>(graph::degree(g, u)) == d, when << ": degree of " << id);
#if BIDIR
      for (auto e : graph::in_edges(g, u)) in.insert({static_cast<long>(graph::source_id(g, e)), id});
#endif
      o << " ) ";
    }
    PCHECK(static_cast<size_t>(graph::num_vertices(g)) == n, when << ": num_vertices is " << graph::num_vertices(g) << ", lists " << n);
#if BIDIR
    o << (in == out ? "mirrored" : "one-sided");
#endif
#if KIND == 2
    { // every edge is listed at both its ends, a loop once
      auto loops = static_cast<size_t>(std::count_if(out.begin(), out.end(), [](auto& p) { return p.first == p.second; }));
      PCHECK((m - loops) % 2 == 0 && static_cast<size_t>(g.num_edges()) == loops + (m - loops) / 2,
             when << ": num_edges is " << g.num_edges() << ", " << m << " listed, " << loops << " of them loops");
      for (auto& p : out) PCHECK(out.count(p) == out.count({p.second, p.first}), when << ": an edge is listed at one end only");
    }
#endif
    o << static_cast<size_t>(graph::num_edges(g));
    return o.str();
  }
  struct Op {
    std::string             name;
    std::function<void(G&)> f;     // on an existing graph
    bool                    reads = false; // leaves g as it is
  };
  static void judge(Case& c, const std::function<void(G&)>& start, const Op& op) {
    fault::reset();
    std::string before, want, fresh;
    {
      LiveGuard lg;
      {
        G g;
        start(g);
        before = listing(c, g, "before");
        {
          Armed a;
          op.f(g);
        }
        want = listing(c, g, "after");
        if (op.reads) PCHECK(want == before, op.name << " changed the graph it reads");
      }
      PCHECK(lg.delta() == 0, op.name << ": " << lg.delta() << " values are never destroyed");
    }
    long allocs = fault::state().allocs, ticks = fault::state().ticks;
    PCHECK(fault::state().live.empty(), op.name << ": " << fault::state().live.size() << " blocks are never freed");
    fault::reset();
    {
      G g;
      op.f(g);
      fresh = listing(c, g, "on an empty graph");
    }
    if (allocs + ticks == 0) return;
    for (int i = 0; i < 3; ++i) {
      bool at = ticks && (!allocs || c.s.chance(1, 3));
      long k  = c.s.range(0, static_cast<int>((at ? ticks : allocs) - 1));
      std::ostringstream hs;
      hs << op.name << (at ? ", a supplied function throwing at call " : ", out of memory at allocation ") << k << " of " << (at ? ticks : allocs);
      std::string how = hs.str();
      c.desc << "\n  " << how;
      LiveGuard lg;
      {
        G g;
        fault::reset();
        start(g);
        fault::reset(at ? -1 : k, at ? k : -1);
        bool thrown = false;
        try {
          Armed a;
          op.f(g);
        } catch (const fault::Boom&) {
          thrown = at;
        } catch (const std::bad_alloc&) {
          thrown = !at;
        }
        auto&  s     = fault::state();
        bool   fired = s.fired;
        s.fail_alloc = s.fail_tick = -1;
        PCHECK(fired, how << ": never got there, the operation is not repeatable");
        PCHECK(thrown, how << ": the exception did not come out");
        std::string left = listing(c, g, how.c_str());
        if (op.reads) PCHECK(left == before, how << ": the graph now lists " << left << " instead of " << before);
        switch (c.s.range(0, 2)) {
        case 0: break; // destroyed as it is
        case 1: {      // cleared and used again
          g.clear();
          {
            Armed a;
            op.f(g);
          }
          std::string now = listing(c, g, how.c_str());
          PCHECK(now == fresh, how << ": cleared and repeated it lists " << now << " instead of " << fresh);
          break;
        }
        default: { // assigned to
          G h;
          start(h);
          {
            Armed a;
            g = h;
          }
          std::string now = listing(c, g, how.c_str());
          PCHECK(now == before, how << ": assigned to afterwards it lists " << now << " instead of " << before);
        }
        }
      }
      PCHECK(fault::state().live.empty(), how << ": " << fault::state().live.size() << " blocks are never freed");
      PCHECK(lg.delta() == 0, how << ": " << lg.delta() << " values are never destroyed");
      fault::reset();
      c.nontrivial = true;
      if (at) c.label("function threw");
      else c.label("out of memory");
    }
  }
  static void run(Case& c) {
    gen::Opt o;
    o.max_n = 5, o.big_n = 12;
    o.min_n = 1;
    o.sorted  = KIND != 0;
    MGraph m0 = gen::graph(c.s, o), m = gen::graph(c.s, o);
    if (c.s.chance(1, 4)) m0.e.clear();
    if (KIND == 1) gen::sort_by_source(m0), gen::sort_by_source(m);
    c.desc << "start " << gen::str(m0) << ", then " << gen::str(m);
    Es   e0 = edges_of(m0), e1 = edges_of(m);
    Vs   v0 = verts_of(m0), v1 = verts_of(m);
    auto ep = [](const Edge_t& e) -> Edge_t {
      tick();
      return e;
    };
    auto vp = [](const Vertex_t& v) -> Vertex_t {
      tick();
      return v;
    };
    bool                    bare = c.s.chance(1, 4); // onto an empty graph
    std::function<void(G&)> start;
    std::vector<Op>         ops;
    // fresh copies of the inputs for each call, made outside
    ops.push_back({"copy construction", [](G& g) { G h(g); }, true});
    ops.push_back({"copy construction", [](G& g) { G h(g); }, true});
    ops.push_back({"copy assignment from g", [](G& g) {
                     G h;
                     h = g;
                   },
                   true});
    {
      auto src = std::make_shared<G>();
      build(*src, e1, v1);
      ops.push_back({"copy assignment to g", [src](G& g) { g = *src; }});
      ops.push_back({"copy assignment to g", [src](G& g) { g = *src; }});
    }
    ops.push_back({"clear", [](G& g) { g.clear(); }});
    start = [&](G& g) {
      if (!bare) build(g, e0, v0);
    };
#if KIND == 0
    std::vector<VId> nopart;
    for (int i = 0; i < 2; ++i) {
      ops.push_back({"load_edges", [&](G& g) { g.load_edges(e1, ep); }});
      ops.push_back({"load_edges with a count", [&](G& g) { g.load_edges(e1, ep, static_cast<size_t>(std::max(m.n, m0.n))); }});
      ops.push_back({"load_vertices", [&](G& g) { g.load_vertices(v1, vp); }});
      ops.push_back({"construction from edges and vertices", [&](G&) { G h(e1, v1, ep, vp, nopart); }, true});
      ops.push_back({"construction from edges", [&](G&) { G h(static_cast<VId>(m.n), e1, ep, nopart); }, true});
    }
    if constexpr (requires(G& g) { g.resize_vertices(3); })
      ops.push_back({"resize_vertices", [&](G& g) {
                       g.resize_vertices(static_cast<size_t>(m0.n + m.n));
                     }});
#elif KIND == 1
    for (int i = 0; i < 2; ++i) {
      ops.push_back({"load_edges", [&](G& g) {
                       g.clear();
                       g.load_edges(e1, ep);
                     }});
      if constexpr (hasV)
        ops.push_back({"load_vertices", [&](G& g) {
                         g.load_vertices(v1, vp);
                       }});
      ops.push_back({"load_edges and load_vertices", [&](G& g) {
                       g.clear();
                       g.load_edges(e1, ep);
                       if constexpr (hasV) g.load_vertices(v1, vp);
                     }});
      if constexpr (std::is_constructible_v<G, Es&, decltype(ep)&>)
        ops.push_back({"construction from edges", [&](G&) { G h(e1, ep); }, true});
      if constexpr (hasV && std::is_constructible_v<G, Es&, Vs&, decltype(ep)&, decltype(vp)&>) ops.push_back({"construction from edges and vertices", [&](G&) { G h(e1, v1, ep, vp); }, true});
    }
#else
    for (int i = 0; i < 2; ++i) {
      ops.push_back({"create_edge", [&](G& g) {
                       while (g.num_vertices() < 2) g.create_vertex();
                       auto uid = static_cast<VId>(0);
                       auto vid = static_cast<VId>(g.num_vertices() - 1);
                       EV   x(7);
                       g.create_edge(uid, vid, x);
                       g.create_edge(vid, uid);
                       g.create_edge(uid, uid, EV(8));
                     }});
      ops.push_back({"create_vertex", [&](G& g) {
                       VV x(5);
                       g.create_vertex(x);
                       g.create_vertex();
                       g.create_vertex(VV(6));
                     }});
      if constexpr (std::is_constructible_v<G, Es&, decltype(ep)&>) {
        ops.push_back({"construction from edges", [&](G&) { G h(e1, ep); }, true});
        ops.push_back({"construction from edges and vertices", [&](G&) { G h(e1, v1, ep, vp); }, true});
      } else {
        ops.push_back({"construction from edges", [&](G&) { G h(e1, ep, Tracked(1)); }, true});
        ops.push_back({"construction from edges and vertices", [&](G&) { G h(e1, v1, ep, vp, Tracked(1)); }, true});
      }
      ops.push_back({"construction from a list", [&](G&) {
                       G h({{VId(0), VId(1), EV(1)}, {VId(2), VId(1), EV(2)}, {VId(2), VId(2), EV(3)}});
                     },
                     true});
    }
#endif
    judge(c, start, ops[c.s.below(static_cast<uint32_t>(ops.size()))]);
  }
  static void build(G& g, const Es& es, const Vs& vs) {
#if KIND == 0
    auto v = vs;
    auto e = es;
    g.load_vertices(v, std::identity{});
    g.load_edges(e, std::identity{}, vs.size());
#elif KIND == 1
    g.load_edges(es, std::identity{});
    if constexpr (hasV) g.load_vertices(vs, std::identity{});
#else
    for (auto& x : vs) g.create_vertex(x.value);
    for (auto& x : es) g.create_edge(x.source_id, x.target_id, x.value);
#endif
  }
};
#if KIND == 0
#  define R1(t)                                                                                                          \
    PBT_REG(#t, (Fail<DG(t, Tracked, Tracked, uint32_t, BIDIR), Tracked, Tracked, uint32_t>::run), 1);                   \
    PBT_REG(#t " plain", (Fail<DG(t, void, void, int, BIDIR), void, void, int>::run), 0.5);
TRAITS_SEL(R1)
#elif KIND == 1
PBT_REG("csr", (Fail<gc::compressed_graph<Tracked, Tracked, void, uint32_t, uint32_t>, Tracked, Tracked, uint32_t>::run), 1);
PBT_REG("csr values on edges", (Fail<gc::compressed_graph<Tracked, void, Tracked, int, size_t>, Tracked, void, int>::run), 1);
PBT_REG("csr values on vertices", (Fail<gc::compressed_graph<void, Tracked, int, uint64_t, uint32_t>, void, Tracked, uint64_t>::run), 1);
#else
PBT_REG("undirected", (Fail<gc::undirected_adjacency_list<Tracked, Tracked, void, uint32_t>, Tracked, Tracked, uint32_t>::run), 1);
PBT_REG("undirected graph value", (Fail<gc::undirected_adjacency_list<Tracked, Tracked, Tracked, int>, Tracked, Tracked, int>::run), 1);
#endif
