// C03 (what a compressed graph lists), C04 (partitions) against a list-of-edges model.
#include "graphs.hpp"
#include <ranges>
using namespace gr;
using pbt::Case;

struct none {
  bool operator==(const none&) const = default;
};
inline std::ostream& operator<<(std::ostream& o, const none&) { return o << "-"; }
template <class T>
T mkval(int k) {
  if constexpr (std::is_same_v<T, none>)
    return {};
  else if constexpr (std::is_same_v<T, std::string>)
    return k == 0 ? std::string() : "value-" + std::to_string(k) + std::string(static_cast<size_t>(k % 23), '*');
  else
    return static_cast<T>(k);
}
struct RawE { // projected input records
  long a, b;
  int  w;
};
struct RawV {
  int  w;
  long id;
};

inline bool parts_first = false; // favour the constructors that take partition lists

template <class EV, class VV, class GV, class VId, class EI>
struct Run {
  using G                      = gc::compressed_graph<EV, VV, GV, VId, EI>;
  static constexpr bool hasE = !std::is_void_v<EV>, hasV = !std::is_void_v<VV>, hasG = !std::is_void_v<GV>;
  using EVs      = std::conditional_t<hasE, EV, none>;
  using VVs      = std::conditional_t<hasV, VV, none>;
  using Edge_t   = graph::copyable_edge_t<VId, EV>;
  using Vertex_t = graph::copyable_vertex_t<VId, VV>;
  static Edge_t mkE(long a, long b, int w) {
    if constexpr (hasE)
      return Edge_t{static_cast<VId>(a), static_cast<VId>(b), mkval<EV>(w)};
    else
      return Edge_t{static_cast<VId>(a), static_cast<VId>(b)};
  }
  static Vertex_t mkV(long id, int w) {
    if constexpr (hasV)
      return Vertex_t{static_cast<VId>(id), mkval<VV>(w)};
    else
      return Vertex_t{static_cast<VId>(id)};
  }

  struct Model {
    size_t                                     n = 0;
    std::vector<std::vector<std::pair<long, EVs>>> out;
    std::vector<VVs>                           val;
    bool                                       vals = false; // vertex values were supplied
    size_t                                     m = 0;
    void grow(size_t k) {
      if (k > n) {
        n = k;
        out.resize(n);
        val.resize(n);
      }
    }
    void clear() { *this = Model(); }
    bool operator==(const Model&) const = default;
  };

  template <class GG>
  static void verify(Case& c, GG& g, const Model& m, const char* when) {
    PCHECK(graph::num_vertices(g) == m.n, when << ": num_vertices " << graph::num_vertices(g) << " want " << m.n);
    PCHECK(g.size() == m.n && g.num_vertices() == m.n && g.empty() == (m.n == 0), when << ": size/empty");
    PCHECK(graph::num_edges(g) == m.m, when << ": num_edges " << graph::num_edges(g) << " want " << m.m);
    PCHECK(graph::has_edges(g) == (m.m > 0), when << ": has_edges");
    size_t i = 0, eid = 0;
    for (auto u : graph::vertices(g)) {
      PCHECK(i < m.n && graph::vertex_id(g, u) == static_cast<VId>(i), when << ": vertex " << i << " has id " << +graph::vertex_id(g, u));
      if constexpr (hasV)
        if (m.vals) {
          PCHECK(graph::vertex_value(g, u) == m.val[i], when << ": value of vertex " << i << ": " << graph::vertex_value(g, u));
          PCHECK(g.vertex_value(static_cast<VId>(i)) == m.val[i], when << ": member vertex_value of vertex " << i);
        }
      std::vector<std::pair<long, EVs>> got;
      auto ids  = g.edge_ids(static_cast<VId>(i));
      auto idit = ids.begin();
      for (auto uv : graph::edges(g, u)) {
        EVs w{};
        if constexpr (hasE)
          w = graph::edge_value(g, uv);
        got.push_back({static_cast<long>(graph::target_id(g, uv)), w});
        PCHECK(graph::source_id(g, uv) == static_cast<VId>(i), when << ": source of an edge of " << i);
        PCHECK(graph::vertex_id(g, graph::source(g, uv)) == static_cast<VId>(i), when << ": source handle");
        PCHECK(graph::vertex_id(g, graph::target(g, uv)) == graph::target_id(g, uv), when << ": target handle");
        PCHECK(idit != ids.end() && *idit == static_cast<EI>(eid), when << ": edge_ids of vertex " << i);
        PCHECK(g.target_id(*idit) == graph::target_id(g, uv), when << ": target_id of an edge id");
        if constexpr (hasE)
          PCHECK(g.edge_value(*idit) == w, when << ": edge_value of an edge id");
        ++idit;
        ++eid;
        if (got.size() > m.m)
          break;
      }
      PCHECK(got == m.out[i], when << ": edges of " << i << " are " << pbt::show(got) << " want " << pbt::show(m.out[i]));
      PCHECK(idit == ids.end(), when << ": edge_ids of vertex " << i << " lists too many");
      PCHECK(static_cast<size_t>(graph::degree(g, u)) == got.size(), when << ": degree of " << i);
      PCHECK(static_cast<size_t>(graph::num_edges(g, u)) == got.size(), when << ": num_edges of vertex " << i);
      ++i;
    }
    PCHECK(i == m.n, when << ": " << i << " vertices listed, want " << m.n);
    size_t k = 0;
    for (auto id : g.vertex_ids())
      PCHECK(static_cast<size_t>(id) == k++, when << ": vertex_ids");
    PCHECK(k == m.n, when << ": vertex_ids lists " << k);
    k = 0;
    for (auto id : g.edge_ids())
      PCHECK(static_cast<size_t>(id) == k++, when << ": edge_ids");
    PCHECK(k == m.m, when << ": edge_ids lists " << k);
    // partitions: disjoint, in order, together everything
    size_t next = 0, np = static_cast<size_t>(graph::num_partitions(g));
    PCHECK(np >= 1, when << ": num_partitions " << np);
    for (size_t p = 0; p < np; ++p) {
      size_t cnt = 0;
      for (auto u : graph::vertices(g, static_cast<int>(p))) {
        PCHECK(static_cast<size_t>(graph::vertex_id(g, u)) == next, when << ": partition " << p << " lists vertex "
                                                                      << +graph::vertex_id(g, u) << ", expected " << next);
        PCHECK(next < m.n, when << ": partition " << p << " lists absent vertex " << next);
        PCHECK(static_cast<size_t>(graph::partition_id(g, u)) == p,
               when << ": partition_id of " << next << " is " << +graph::partition_id(g, u) << ", listed in " << p);
        ++next;
        ++cnt;
      }
      PCHECK(static_cast<size_t>(graph::num_vertices(g, static_cast<int>(p))) == cnt,
             when << ": num_vertices of partition " << p << " is " << graph::num_vertices(g, static_cast<int>(p)) << ", lists " << cnt);
    }
    PCHECK(next == m.n, when << ": partitions list " << next << " of " << m.n << " vertices");
  }

  static void history(Case& c, int maxn, int maxe) {
    auto& s = c.s;
    Model m;
    std::vector<size_t> starts; // partition starts in force
    struct In {
      std::vector<RawE> e;
      std::vector<RawV> v;
    };
    auto gen_edges = [&](int nmax) {
      std::vector<RawE> e;
      int               k = s.range(0, s.chance(1, 8) ? maxe : 14);
      for (int i = 0; i < k; ++i)
        e.push_back({s.range(0, nmax), s.range(0, nmax), s.range(0, 60)});
      std::stable_sort(e.begin(), e.end(), [](auto& a, auto& b) { return a.a < b.a; });
      return e;
    };
    auto gen_verts = [&](int nmax, bool allow_gap) {
      // every id supplied is < the number of vertices that results
      std::vector<RawV> v;
      int               k = s.range(0, 6);
      if (s.chance(1, 2)) { // complete list
        int cnt = s.range(0, nmax + 1);
        for (int i = 0; i < cnt; ++i)
          v.push_back({s.range(0, 60), i});
        if (s.chance(1, 2))
          for (int i = cnt - 1; i > 0; --i)
            std::swap(v[static_cast<size_t>(i)], v[static_cast<size_t>(s.range(0, i))]);
      } else if (allow_gap)
        for (int i = 0; i < k; ++i)
          v.push_back({s.range(0, 60), s.range(0, nmax)});
      return v;
    };
    auto show_e = [&](const std::vector<RawE>& e) {
      c.desc << "E{";
      for (auto& x : e)
        c.desc << x.a << ">" << x.b << ":" << x.w << " ";
      c.desc << "}";
    };
    auto show_v = [&](const std::vector<RawV>& v) {
      c.desc << "V{";
      for (auto& x : v)
        c.desc << x.id << ":" << x.w << " ";
      c.desc << "}";
    };
    auto apply_e = [&](const std::vector<RawE>& e, size_t count) {
      size_t n = count;
      for (auto& x : e)
        n = std::max<size_t>(n, static_cast<size_t>(std::max(x.a, x.b)) + 1);
      m.grow(n);
      for (auto& x : e)
        m.out[static_cast<size_t>(x.a)].push_back({x.b, mkval<EVs>(x.w)});
      m.m += e.size();
    };
    auto apply_v = [&](const std::vector<RawV>& v, size_t count) {
      size_t n = count;
      for (auto& x : v)
        n = std::max<size_t>(n, static_cast<size_t>(x.id) + 1);
      m.grow(n);
      for (auto& x : v)
        m.val[static_cast<size_t>(x.id)] = mkval<VVs>(x.w);
      m.vals = true;
    };
    auto edges_of = [&](const std::vector<RawE>& e) {
      std::vector<Edge_t> r;
      for (auto& x : e)
        r.push_back(mkE(x.a, x.b, x.w));
      return r;
    };
    auto verts_of = [&](const std::vector<RawV>& v) {
      std::vector<Vertex_t> r;
      for (auto& x : v)
        r.push_back(mkV(x.id, x.w));
      return r;
    };
    auto eproj = [](const RawE& x) { return mkE(x.a, x.b, x.w); };
    auto vproj = [](const RawV& x) { return mkV(x.id, x.w); };
    int  nmax  = s.chance(1, 3) ? maxn : s.range(0, std::min(maxn, 9));
    G    g;
    int  gvk = -1;
    // ---- construction
    int  how = parts_first && s.chance(3, 4) ? s.range(2, 3) : s.range(0, 7);
    auto E   = gen_edges(nmax);
    auto V   = gen_verts(nmax, true);
    c.desc << "ctor" << how << " ";
    auto partitions = [&](size_t n) {
      std::vector<VId> p;
      if (n > 0 && s.chance(2, 3)) {
        p.push_back(0);
        for (size_t i = 1; i < n && p.size() < 6; ++i)
          if (s.chance(1, 3))
            p.push_back(static_cast<VId>(i));
        if (s.chance(1, 2) && p.size() > 1)
          c.label("several partitions");
      }
      c.desc << "P" << pbt::show(std::vector<long>(p.begin(), p.end()));
      return p;
    };
    switch (how) {
    case 0: break;
    case 1: { // edges
      show_e(E);
      apply_e(E, 0);
      auto es = edges_of(E);
      if constexpr (!hasG)
        g = G(es);
      else {
        gvk = 3;
        g   = G(mkval<GV>(3), es, std::identity{}, std::vector<VId>());
      }
      PCHECK(es.size() == E.size(), "");
      if constexpr (hasE)
        for (size_t i = 0; i < es.size(); ++i)
          PCHECK(es[i].value == mkval<EVs>(E[i].w), "the constructor changed its caller's edge values");
      break;
    }
    case 2: { // projected edges + partitions
      show_e(E);
      apply_e(E, 0);
      auto p = partitions(m.n);
      starts.assign(p.begin(), p.end());
      if constexpr (!hasG)
        g = G(E, eproj, p);
      else {
        gvk = 4;
        g   = G(mkval<GV>(4), E, eproj, p);
      }
      break;
    }
    case 3: { // edges + vertices (+ partitions)
      show_e(E);
      show_v(V);
      apply_e(E, 0);
      apply_v(V, 0);
      auto p = partitions(m.n);
      starts.assign(p.begin(), p.end());
      if constexpr (!hasG)
        g = G(E, V, eproj, vproj, p);
      else {
        gvk = 5;
        g   = G(mkval<GV>(5), E, V, eproj, vproj, p);
      }
      break;
    }
    case 4: { // initializer list
      if (E.size() > 4)
        E.resize(4);
      show_e(E);
      apply_e(E, 0);
      auto es = edges_of(E);
      if (es.size() == 0)
        g = G(std::initializer_list<Edge_t>{});
      else if (es.size() == 1)
        g = G({es[0]});
      else if (es.size() == 2)
        g = G({es[0], es[1]});
      else if (es.size() == 3)
        g = G({es[0], es[1], es[2]});
      else
        g = G({es[0], es[1], es[2], es[3]});
      break;
    }
    case 5: { // forward-only ranges
      show_e(E);
      show_v(V);
      apply_e(E, 0);
      apply_v(V, 0);
      std::forward_list<RawE> fe(E.begin(), E.end());
      std::forward_list<RawV> fv(V.begin(), V.end());
      if constexpr (!hasG)
        g = G(fe, fv, eproj, vproj, std::vector<VId>());
      else
        g.load(fe, fv, eproj, vproj);
      break;
    }
    case 6: { // filtered (not sized) lazily transformed range
      show_e(E);
      apply_e(E, 0);
      auto        r  = E | std::views::transform(eproj);
      const auto& cr = r;
      g.load_edges(cr, std::identity{});
      break;
    }
    case 7: {
      show_e(E);
      show_v(V);
      apply_e(E, 0);
      apply_v(V, 0);
      const auto es = edges_of(E);
      const auto vs = verts_of(V);
      g.load(es, vs);
      break;
    }
    }
    verify(c, g, m, "after construction");
    auto check_parts = [&](G& gg, const char* when) {
      if (starts.empty())
        PCHECK(graph::num_partitions(gg) == static_cast<VId>(1), when << ": num_partitions without a list is " << +graph::num_partitions(gg));
      else {
        PCHECK(static_cast<size_t>(graph::num_partitions(gg)) == starts.size(), when << ": num_partitions " << +graph::num_partitions(gg));
        for (size_t p = 0; p < starts.size(); ++p) {
          auto   r   = graph::vertices(gg, p);
          size_t end = p + 1 < starts.size() ? starts[p + 1] : m.n;
          PCHECK(static_cast<size_t>(std::ranges::distance(r.begin(), r.end())) == end - starts[p], when << ": partition " << p << " size");
          if (starts[p] < end)
            PCHECK(static_cast<size_t>(graph::vertex_id(gg, *r.begin())) == starts[p], when << ": partition " << p << " start");
        }
      }
    };
    check_parts(g, "after construction");
    if constexpr (hasG)
      if (gvk >= 0)
        PCHECK(g.graph_value() == mkval<GV>(gvk), "graph value");
    // ---- history
    int nops = s.range(0, 6);
    for (int op = 0; op < nops; ++op) {
      int k = s.range(0, 11);
      c.desc << " |" << k << " ";
      switch (k) {
      case 0:
      case 1: { // load vertices (values for existing vertices or more vertices)
        auto   v  = gen_verts(nmax, true);
        size_t vc = s.chance(1, 4) ? static_cast<size_t>(s.range(0, nmax + 1)) : 0;
        show_v(v);
        c.desc << "vc" << vc;
        apply_v(v, vc);
        if (s.chance(1, 2)) {
          auto vs = verts_of(v);
          g.load_vertices(vs, std::identity{}, vc);
        } else
          g.load_vertices(v, vproj, vc);
        break;
      }
      case 2:
      case 3: { // clear and load edges
        g.clear();
        m.clear();
        starts.clear();
        if (s.chance(1, 2))
          verify(c, g, m, "after clear");
        auto   e  = gen_edges(nmax);
        size_t vc = s.chance(1, 3) ? static_cast<size_t>(s.range(0, nmax + 1)) : 0;
        show_e(e);
        c.desc << "vc" << vc;
        apply_e(e, vc);
        if (s.chance(1, 4))
          g.reserve(static_cast<size_t>(s.range(0, 20)), static_cast<size_t>(s.range(0, 20)));
        switch (s.range(0, 3)) {
        case 0: {
          const auto es = edges_of(e);
          g.load_edges(es, std::identity{}, vc);
          break;
        }
        case 1: { // the other overload, from a temporary
          g.load_edges(edges_of(e), std::identity{}, vc, e.size());
          break;
        }
        case 2: {
          g.load_edges(std::list<RawE>(e.begin(), e.end()), eproj, vc);
          break;
        }
        case 3: {
          const std::forward_list<RawE> fe(e.begin(), e.end());
          g.load_edges(fe, eproj, vc, s.chance(1, 2) ? e.size() : 0);
          break;
        }
        }
        break;
      }
      case 4: { // copy; the copy and the original are independent
        G h(g);
        verify(c, h, m, "copy");
        check_parts(h, "copy");
        g.clear();
        verify(c, h, m, "copy after clearing the original");
        g = h;
        h.clear();
        Model e0;
        verify(c, h, e0, "cleared copy");
        verify(c, g, m, "copy-assigned");
        check_parts(g, "copy-assigned");
        break;
      }
      case 5: { // move
        G h(std::move(g));
        verify(c, h, m, "moved-to");
        check_parts(h, "moved-to");
        g.clear();
        Model e0;
        verify(c, g, e0, "moved-from, cleared");
        g = std::move(h);
        verify(c, g, m, "move-assigned");
        check_parts(g, "move-assigned");
        break;
      }
      case 6: { // self-assignment and swap
        G& r = g;
        g    = r;
        verify(c, g, m, "self-assigned");
        G h;
        std::swap(g, h);
        verify(c, h, m, "swapped");
        std::swap(g, h);
        break;
      }
      case 7: // write values through the accessors
        if constexpr (hasE) {
          size_t i = 0;
          for (auto u : graph::vertices(g)) {
            size_t j = 0;
            for (auto uv : graph::edges(g, u)) {
              if (s.chance(1, 3)) {
                int w                   = s.range(100, 160);
                graph::edge_value(g, uv) = mkval<EVs>(w);
                m.out[i][j].second      = mkval<EVs>(w);
              }
              ++j;
            }
            ++i;
          }
        }
        break;
      case 8:
        if constexpr (hasV)
          if (m.vals) {
            size_t i = 0;
            for (auto u : graph::vertices(g)) {
              if (s.chance(1, 2)) {
                int w = s.range(100, 160);
                if (s.chance(1, 2))
                  graph::vertex_value(g, u) = mkval<VVs>(w);
                else
                  g.vertex_value(static_cast<VId>(i)) = mkval<VVs>(w);
                m.val[i] = mkval<VVs>(w);
              }
              ++i;
            }
          }
        break;
      case 9: {
        const G& cg = g;
        verify(c, cg, m, "through a const reference");
        break;
      }
      case 10:
        if constexpr (hasG) {
          g.graph_value() = mkval<GV>(op + 30);
          G h             = g;
          PCHECK(h.graph_value() == mkval<GV>(op + 30), "graph value of a copy");
          PCHECK(graph::graph_value(g) == mkval<GV>(op + 30), "graph_value CPO");
        }
        break;
      case 11:
        g.clear();
        m.clear();
        starts.clear();
        break;
      }
      verify(c, g, m, "after an operation");
      check_parts(g, "after an operation");
    }
    if (m.m >= 2 && m.n >= 3)
      c.nontrivial = true;
    if (m.m > 255)
      c.label("more than 255 edges");
    if (m.vals)
      c.label("vertex values");
    bool gap = false;
    for (size_t i = 0; i + 1 < m.n; ++i)
      gap = gap || m.out[i].empty();
    if (gap)
      c.label("vertex without out-edges before the last");
    if (starts.size() > 1)
      c.label("two or more partitions"), c.nontrivial = true;
    if (m.n == 0)
      c.label("empty");
  }
  // an invalid partition list is rejected
  static void badparts(Case& c) {
    auto&             s = c.s;
    gen::Opt          o;
    o.max_n  = 7;
    o.big    = false;
    o.sorted = true;
    auto              mg = gen::graph(s, o);
    std::vector<RawE> E;
    long              n = 0;
    for (auto& e : mg.e) {
      E.push_back({e.u, e.v, e.w});
      n = std::max<long>(n, std::max(e.u, e.v) + 1);
    }
    std::vector<VId> p;
    if (s.chance(1, 2)) { // a valid list, sometimes then disturbed
      p.push_back(0);
      for (long i = 1; i < n; ++i)
        if (s.chance(1, 3))
          p.push_back(static_cast<VId>(i));
      if (s.chance(1, 3))
        p[s.below(static_cast<uint32_t>(p.size()))] = static_cast<VId>(s.range(0, 9));
    } else {
      int k = s.range(1, 4);
      for (int i = 0; i < k; ++i)
        p.push_back(static_cast<VId>(s.range(0, 9)));
    }
    bool bad = p[0] != 0;
    for (size_t i = 1; i < p.size(); ++i)
      bad = bad || p[i] <= p[i - 1];
    bad = bad || static_cast<long>(p.back()) > n;
    bool unspecified = !bad && static_cast<long>(p.back()) == n; // an empty last partition
    c.desc << gen::str(mg) << " P" << pbt::show(std::vector<long>(p.begin(), p.end()));
    c.nontrivial = true;
    c.label(bad ? "invalid partition list" : "valid partition list");
    bool threw = false;
    auto eproj = [](const RawE& x) { return mkE(x.a, x.b, x.w); };
    try {
      std::vector<RawE> EE = E;
      G g = [&] {
        if constexpr (!hasG)
          return G(EE, eproj, p);
        else
          return G(mkval<GV>(1), EE, eproj, p);
      }();
      size_t cnt = 0;
      for (int q = 0; q < static_cast<int>(graph::num_partitions(g)); ++q)
        for (auto u : graph::vertices(g, q))
          PCHECK(static_cast<size_t>(graph::vertex_id(g, u)) == cnt++, "partition order");
      PCHECK(cnt == static_cast<size_t>(n), "partitions list " << cnt << " of " << n);
    } catch (const graph::graph_error&) { threw = true; }
    if (!unspecified)
      PCHECK(threw == bad, "partition list " << (bad ? "invalid but accepted" : "valid but rejected"));
  }
};

template <class EV, class VV, class GV, class VId, class EI>
struct Register {
  Register(std::string name, int maxn, int maxe) {
    using X = Run<EV, VV, GV, VId, EI>;
#ifndef PARTS_ONLY
    pbt::targets().push_back({name, [=](Case& c) { X::history(c, maxn, maxe); }, 1.0});
#else
    pbt::targets().push_back({name + " (histories)", [=](Case& c) { parts_first = true; X::history(c, maxn, maxe); }, 1.0});
    pbt::targets().push_back({name + " partition lists", [](Case& c) { X::badparts(c); }, 0.7});
#endif
  }
};
#define R(name, EV, VV, GV, VId, EI, maxn, maxe) static Register<EV, VV, GV, VId, EI> PBT_CAT(reg_, __COUNTER__)(name, maxn, maxe)
using S = std::string;
#ifndef UNIT
#elif UNIT == 0
R("void/void/void u32", void, void, void, uint32_t, uint32_t, 30, 60);
R("int/int/void u8 edges u32", int, int, void, uint8_t, uint32_t, 200, 400);
#elif UNIT == 1
R("string/string/void i32 edges u64", S, S, void, int32_t, uint64_t, 40, 60);
#elif UNIT == 2
R("int/void/int u64 edges u16", int, void, int, uint64_t, uint16_t, 60, 400);
R("void/int/void i16 edges i32", void, int, void, int16_t, int32_t, 300, 300);
#elif UNIT == 3
R("string/int/string u16 edges u32", S, int, S, uint16_t, uint32_t, 100, 80);
#elif UNIT == 4
R("int/int/void u32 edges u8", int, int, void, uint32_t, uint8_t, 20, 200);
R("double/string/void i8 edges u32", double, S, void, int8_t, uint32_t, 100, 300);
#endif
