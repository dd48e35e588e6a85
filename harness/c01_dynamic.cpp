// C01 / C02: dynamic_graph loads, histories and (BIDIR=1) incoming edges, against a list-of-edges model.
#include "graphs.hpp"
#include "traits.hpp"
#ifndef BIDIR
#  define BIDIR 0
#endif
using namespace gr;
using pbt::Case;

template <class T>
T mkval(int k) {
  if constexpr (std::is_same_v<T, std::string>)
    return k == 0 ? std::string() : "value-" + std::to_string(k) + std::string(static_cast<size_t>(k % 23), '*');
  else
    return static_cast<T>(k);
}
template <class VId>
VId mkid(int k) {
  if constexpr (std::is_same_v<VId, std::string>)
    return "id" + std::to_string(k);
  else
    return static_cast<VId>(k);
}
struct none {
  bool operator==(const none&) const = default;
};
inline std::ostream& operator<<(std::ostream& o, const none&) { return o << "-"; }

template <class G>
struct Run {
  using D                      = is_dynamic<G>;
  using EV                     = typename D::ev;
  using VV                     = typename D::vv;
  using VId                    = typename D::vid;
  using Verts                  = typename D::vertices_type;
  using Edges                  = typename D::edges_type;
  static constexpr bool vassoc = assoc<Verts>;
  static constexpr bool eassoc = assoc<Edges>;
  static constexpr bool flist  = is_flist<Edges>;
  static constexpr bool eordered =
        eassoc && requires { typename Edges::key_compare; }; // set/map rather than the unordered forms
  static constexpr bool vordered = !vassoc || requires { typename Verts::key_compare; };
  static constexpr bool hasE = !std::is_void_v<EV>, hasV = !std::is_void_v<VV>;
  using EVs = std::conditional_t<hasE, EV, none>;
  using VVs = std::conditional_t<hasV, VV, none>;
  using Edge_t   = graph::copyable_edge_t<VId, EV>;
  using Vertex_t = graph::copyable_vertex_t<VId, VV>;

  struct Model {
    struct V {
      VVs                               val{};
      std::vector<std::pair<VId, EVs>>  out, in; // insertion order
    };
    std::map<VId, V> v;
    size_t           edges = 0;
    size_t supplied = 0; // num_edges(g) counts the edges supplied, parallel ones included, in every storage
    void add_edge(const VId& a, const VId& b, const EVs& w) {
      ++supplied;
      auto& src = v[a];
      auto& dst = v[b];
      if (eassoc) {
        bool dup = false;
        for (auto& x : src.out)
          dup = dup || x.first == b;
        if (dup)
          return;
      }
      src.out.push_back({b, w});
      dst.in.push_back({a, w});
      ++edges;
    }
    void grow(size_t n) {
      if constexpr (!vassoc)
        for (size_t i = 0; i < n; ++i)
          (void)v[static_cast<VId>(i)];
    }
  };

  static std::vector<std::pair<VId, EVs>> expected(std::vector<std::pair<VId, EVs>> l) {
    if (flist)
      std::reverse(l.begin(), l.end());
    if (eassoc)
      std::sort(l.begin(), l.end(), [](auto& a, auto& b) { return a.first < b.first; });
    return l;
  }

  static EVs eval(G& g, auto&& uv) {
    if constexpr (hasE)
      return graph::edge_value(g, uv);
    else
      return none{};
  }

  static void verify(Case& c, G& g, const Model& m, const char* when) {
    PCHECK(graph::num_vertices(g) == m.v.size(), when << ": num_vertices " << graph::num_vertices(g) << " want " << m.v.size());
    size_t                  total = 0, nv = 0;
    auto                    it = m.v.begin();
    std::set<VId>           seen;
    for (auto u : graph::vertices(g)) {
      VId uid = graph::vertex_id(g, u);
      ++nv;
      PCHECK(seen.insert(uid).second, when << ": vertex listed twice: " << uid);
      auto mv = m.v.find(uid);
      PCHECK(mv != m.v.end(), when << ": unexpected vertex " << uid);
      if constexpr (vordered) {
        PCHECK(it != m.v.end() && it->first == uid, when << ": vertices out of order at " << uid);
        ++it;
      }
      if constexpr (hasV)
        PCHECK(graph::vertex_value(g, u) == mv->second.val,
               when << ": vertex " << uid << " value " << graph::vertex_value(g, u) << " want " << mv->second.val);
      std::vector<std::pair<VId, EVs>> got;
      for (auto uv : graph::edges(g, u)) {
        got.push_back({graph::target_id(g, uv), eval(g, uv)});
        PCHECK(graph::source_id(g, uv) == uid, when << ": source_id of an edge of " << uid);
        PCHECK(graph::vertex_id(g, graph::target(g, uv)) == graph::target_id(g, uv), when << ": target handle of an edge of " << uid);
        ++total;
      }
      auto want = expected(mv->second.out);
      if constexpr (eassoc && !eordered)
        std::sort(got.begin(), got.end(), [](auto& a, auto& b) { return a.first < b.first; });
      PCHECK(got == want, when << ": edges of " << uid << " are " << pbt::show(got) << " want " << pbt::show(want));
      PCHECK(static_cast<size_t>(graph::degree(g, u)) == want.size(), when << ": degree of " << uid);
      PCHECK(static_cast<size_t>(graph::num_edges(g, u)) == want.size(), when << ": num_edges(g,u) of " << uid);
      PCHECK(g.contains_vertex(uid) && g.try_find_vertex(uid) != g.end(), when << ": contains_vertex " << uid);
#if BIDIR
      std::vector<std::pair<VId, EVs>> gin;
      for (auto e : graph::in_edges(g, u)) {
        VId s = graph::source_id(g, e);
        PCHECK(graph::target_id(g, e) == uid, when << ": target of an incoming edge of " << uid << " is " << graph::target_id(g, e));
        PCHECK(graph::vertex_id(g, graph::source(g, e)) == s, when << ": source handle of an incoming edge of " << uid);
        PCHECK(graph::vertex_id(g, graph::target(g, e)) == uid, when << ": target handle of an incoming edge of " << uid);
        gin.push_back({s, eval(g, e)});
      }
      auto win = expected(mv->second.in);
      if constexpr (eassoc && !eordered)
        std::sort(gin.begin(), gin.end(), [](auto& a, auto& b) { return a.first < b.first; });
      PCHECK(gin == win, when << ": incoming edges of " << uid << " are " << pbt::show(gin) << " want " << pbt::show(win));
      PCHECK(static_cast<size_t>(graph::in_degree(g, u)) == win.size(), when << ": in_degree of " << uid);
      PCHECK(static_cast<size_t>(graph::in_degree(g, uid)) == win.size(), when << ": in_degree by id of " << uid);
#endif
    }
    PCHECK(nv == m.v.size(), when << ": enumerated " << nv << " vertices, want " << m.v.size());
    PCHECK(total == m.edges, when << ": enumerated " << total << " edges, want " << m.edges);
    PCHECK(static_cast<size_t>(graph::num_edges(g)) == m.supplied, when << ": num_edges(g) is " << graph::num_edges(g) << ", edges supplied " << m.supplied);
    PCHECK(graph::has_edges(g) == (m.edges > 0), when << ": has_edges");
#if BIDIR
    // lookups by endpoints over all pairs (small graphs)
    if (m.v.size() <= 9)
      for (auto& [a, va] : m.v)
        for (auto& [b, vb] : m.v) {
          bool want = std::any_of(vb.out.begin(), vb.out.end(), [&](auto& x) { return x.first == a; }); // edge b -> a
          PCHECK(graph::contains_in_edge(g, a, b) == want, when << ": contains_in_edge(" << a << "," << b << ")");
          auto ua = *graph::find_vertex(g, a);
          auto ub = *graph::find_vertex(g, b);
          PCHECK(graph::contains_in_edge(g, ua, ub) == want, when << ": contains_in_edge(handles " << a << "," << b << ")");
          if (want) {
            auto e = graph::find_in_edge(g, a, b);
            PCHECK(graph::source_id(g, e) == b && graph::target_id(g, e) == a,
                   when << ": find_in_edge(" << a << "," << b << ") names " << graph::source_id(g, e) << "->" << graph::target_id(g, e));
            auto e2 = graph::find_in_edge(g, ua, ub);
            PCHECK(graph::source_id(g, e2) == b && graph::target_id(g, e2) == a, when << ": find_in_edge by handles " << a << "," << b);
            if constexpr (hasE) {
              auto wv = expected(va.in);
              auto f  = std::find_if(wv.begin(), wv.end(), [&](auto& x) { return x.first == b; });
              PCHECK(graph::edge_value(g, e) == f->second, when << ": value of find_in_edge(" << a << "," << b << ")");
            }
          }
        }
#endif
  }

  static int idrange(Case& c) { return c.s.chance(1, 10) ? 40 : 7; }
  static VId gid(Case& c, int mx) {
    int k = c.s.range(0, mx - 1);
    if (vassoc && !std::is_same_v<VId, std::string> && sizeof(VId) >= 4)
      k = k < 3 ? k : k * 1000 - 5;
    return mkid<VId>(k);
  }
  static std::vector<Edge_t> gedges(Case& c, int mx, bool exact_bound, size_t bound) {
    std::vector<Edge_t> es;
    int                 m = c.s.range(0, c.s.chance(1, 8) ? 60 : 10);
    for (int i = 0; i < m; ++i) {
      VId u, v;
      if (!es.empty() && c.s.chance(1, 5)) {
        auto& x = es[c.s.below(static_cast<uint32_t>(es.size()))];
        u       = x.source_id;
        v       = x.target_id;
      } else if (exact_bound) {
        u = mkid<VId>(c.s.range(0, static_cast<int>(bound) - 1));
        v = mkid<VId>(c.s.range(0, static_cast<int>(bound) - 1));
      } else {
        u = gid(c, mx);
        v = c.s.chance(1, 10) ? u : gid(c, mx);
      }
      if constexpr (hasE)
        es.push_back({u, v, mkval<EV>(c.s.range(0, 99))});
      else
        es.push_back({u, v});
    }
    return es;
  }
  static void log(Case& c, const std::vector<Edge_t>& es) {
    for (auto& e : es) {
      c.desc << ' ' << e.source_id << '>' << e.target_id;
      if constexpr (hasE)
        c.desc << ':' << e.value;
    }
  }
  static void apply(Model& m, const std::vector<Edge_t>& es) {
    if (!vassoc && !es.empty()) {
      size_t mx = 0;
      if constexpr (!vassoc)
        for (auto& e : es)
          mx = std::max({mx, static_cast<size_t>(e.source_id), static_cast<size_t>(e.target_id)});
      m.grow(mx + 1);
    }
    for (auto& e : es) {
      if constexpr (hasE)
        m.add_edge(e.source_id, e.target_id, e.value);
      else
        m.add_edge(e.source_id, e.target_id, none{});
    }
  }
  static std::vector<Vertex_t> gverts(Case& c, int mx) {
    std::vector<Vertex_t> vs;
    if constexpr (vassoc) {
      int k = c.s.range(0, 6);
      for (int i = 0; i < k; ++i) {
        if constexpr (hasV)
          vs.push_back({gid(c, mx), mkval<VV>(c.s.range(0, 99))});
        else
          vs.push_back({gid(c, mx)});
      }
    } else {
      int              k = c.s.range(0, 8);
      std::vector<int> ids(static_cast<size_t>(k));
      std::iota(ids.begin(), ids.end(), 0);
      if (c.s.chance(1, 2)) // any order of ids
        for (int i = k - 1; i > 0; --i)
          std::swap(ids[static_cast<size_t>(i)], ids[static_cast<size_t>(c.s.range(0, i))]);
      for (int i : ids) {
        if constexpr (hasV)
          vs.push_back({static_cast<VId>(i), mkval<VV>(c.s.range(0, 99))});
        else
          vs.push_back({static_cast<VId>(i)});
      }
    }
    return vs;
  }
  static void apply(Model& m, const std::vector<Vertex_t>& vs) {
    for (auto& x : vs) {
      auto& mv = m.v[x.id];
      if constexpr (hasV)
        mv.val = x.value;
    }
  }
  static bool same(const std::vector<Vertex_t>& a, const std::vector<Vertex_t>& b) {
    if (a.size() != b.size())
      return false;
    for (size_t i = 0; i < a.size(); ++i) {
      if (a[i].id != b[i].id)
        return false;
      if constexpr (hasV)
        if (!(a[i].value == b[i].value))
          return false;
    }
    return true;
  }
  static bool same(const std::vector<Edge_t>& a, const std::vector<Edge_t>& b) {
    if (a.size() != b.size())
      return false;
    for (size_t i = 0; i < a.size(); ++i) {
      if (a[i].source_id != b[i].source_id || a[i].target_id != b[i].target_id)
        return false;
      if constexpr (hasE)
        if (!(a[i].value == b[i].value))
          return false;
    }
    return true;
  }

  static void run(Case& c) {
    int   mx = idrange(c);
    Model m;
    G     g;
    int   ops     = c.s.range(1, 6);
    bool  dupseen = false;
    // optional construction route
    int route = c.s.range(0, 4);
    auto check_dups = [&](const std::vector<Edge_t>& es) {
      std::set<std::pair<VId, VId>> s;
      for (auto& e : es)
        dupseen = dupseen || !s.insert({e.source_id, e.target_id}).second;
    };
    std::vector<VId> nopart;
    if (route == 1) {
      auto vs = gverts(c, mx);
      if constexpr (!vassoc) {
        if (vs.empty())
          vs = {};
      }
      auto es = vassoc ? gedges(c, mx, false, 0) : gedges(c, mx, true, std::max<size_t>(1, vs.size()));
      if (!vassoc && vs.empty())
        es.clear();
      c.desc << "ctor(vertices";
      for (auto& v : vs)
        c.desc << ' ' << v.id;
      c.desc << "; edges";
      log(c, es);
      c.desc << ")";
      check_dups(es);
      auto vc = vs;
      auto ec = es;
      g       = G(es, vs, std::identity{}, std::identity{}, nopart);
      apply(m, vs);
      apply(m, es);
      PCHECK(same(vs, vc) && same(es, ec), "construction changed the caller's ranges");
      verify(c, g, m, "after construction");
    } else if (route == 2 && !std::is_same_v<VId, std::string>) {
      if constexpr (!std::is_same_v<VId, std::string>) {
        int  top = c.s.range(0, mx - 1);
        auto es  = gedges(c, mx, true, static_cast<size_t>(top) + 1);
        c.desc << "ctor(max " << top << "; edges";
        log(c, es);
        c.desc << ")";
        check_dups(es);
        auto ec = es;
        g       = G(static_cast<VId>(top), es, std::identity{}, nopart);
        m.grow(static_cast<size_t>(top) + 1);
        apply(m, es);
        PCHECK(same(es, ec), "construction changed the caller's edges");
        verify(c, g, m, "after construction");
      }
    } else if (route == 3) {
      auto es = gedges(c, mx, false, 0);
      if (es.size() > 4)
        es.resize(4);
      if (es.empty())
        es = gedges(c, mx, false, 0);
      if (es.size() > 4)
        es.resize(4);
      c.desc << "ctor{";
      log(c, es);
      c.desc << "}";
      check_dups(es);
      switch (es.size()) {
      case 0: break;
      case 1: g = G({es[0]}); break;
      case 2: g = G({es[0], es[1]}); break;
      case 3: g = G({es[0], es[1], es[2]}); break;
      default: g = G({es[0], es[1], es[2], es[3]}); break;
      }
      apply(m, es);
      verify(c, g, m, "after list construction");
    }
    int loads = route != 0;
    std::vector<std::pair<G, Model>> kept; // copies that must stay what they were
    for (int k = 0; k < ops; ++k) {
      int op = c.s.range(0, 11);
      if (op <= 2) { // edges, ids inferred
        auto es = gedges(c, mx, false, 0);
        c.desc << " load_edges(infer";
        log(c, es);
        c.desc << ")";
        check_dups(es);
        auto ec = es;
        if (c.s.chance(1, 2)) {
          size_t hint = c.s.chance(1, 2) ? es.size() : 0;
          g.load_edges(es, std::identity{}, 0, hint);
          PCHECK(same(es, ec), "load_edges changed the caller's edges");
        } else
          g.load_edges(std::move(es), std::identity{});
        apply(m, ec);
        ++loads;
      } else if (op == 3) { // edges with an explicit vertex count
        size_t n = m.v.size() + static_cast<size_t>(c.s.range(m.v.empty() ? 1 : 0, 3));
        if constexpr (vassoc)
          n = static_cast<size_t>(mx);
        auto es = vassoc ? gedges(c, mx, false, 0) : gedges(c, mx, true, n);
        c.desc << " load_edges(count " << n << ";";
        log(c, es);
        c.desc << ")";
        check_dups(es);
        g.load_edges(es, std::identity{}, n);
        m.grow(n);
        apply(m, es);
        ++loads;
      } else if (op == 4) { // vertices
        auto vs = gverts(c, mx);
        c.desc << " load_vertices(";
        for (auto& v : vs) {
          c.desc << ' ' << v.id;
          if constexpr (hasV)
            c.desc << ':' << v.value;
        }
        size_t extra = c.s.chance(1, 3) ? vs.size() + static_cast<size_t>(c.s.range(0, 3)) : 0;
        c.desc << "; count " << extra << ")";
        auto vc = vs;
        if (c.s.chance(1, 2)) {
          g.load_vertices(vs, std::identity{}, extra); // documented to move the values out of the range
        } else
          g.load_vertices(std::move(vs), std::identity{}, extra);
        if constexpr (!vassoc)
          m.grow(std::max(extra, vc.size()));
        apply(m, vc);
      } else if (op == 5) { // edges through a projection of another record type
        auto es = gedges(c, mx, false, 0);
        c.desc << " load_edges(projected";
        log(c, es);
        c.desc << ")";
        check_dups(es);
        std::list<std::pair<int, Edge_t>> other;
        for (auto& e : es)
          other.push_back({1, e});
        g.load_edges(other, [](const std::pair<int, Edge_t>& p) { return p.second; });
        apply(m, es);
        ++loads;
      } else if (op == 6) {
        c.desc << " copy";
        G h(g);
        kept.push_back({std::move(h), m});
        verify(c, kept.back().first, m, "copy");
      } else if (op == 7) {
        c.desc << " copy-assign-over";
        G h;
        h.load_edges(gedges(c, mx, false, 0), std::identity{});
        h = g;
        verify(c, h, m, "copy-assigned");
        if (c.s.chance(1, 2)) { // go on with the copy; the original must not follow
          kept.push_back({std::move(g), m});
          g = std::move(h);
        }
      } else if (op == 8) {
        c.desc << " move";
        G h(std::move(g));
        verify(c, h, m, "moved-to");
        if (c.s.chance(1, 2)) { // the moved-from graph can be cleared and refilled
          c.desc << "+refill";
          g.clear();
          Model e;
          verify(c, g, e, "moved-from and cleared");
          auto es = gedges(c, mx, false, 0);
          log(c, es);
          g.load_edges(es, std::identity{});
          apply(e, es);
          verify(c, g, e, "moved-from, cleared and refilled");
        }
        g = std::move(h);
      } else if (op == 9) {
        c.desc << " clear";
        g.clear();
        m = Model{};
      } else if (op == 10) { // write through the accessors
        if (m.v.empty())
          continue;
        auto it = m.v.begin();
        std::advance(it, c.s.below(static_cast<uint32_t>(m.v.size())));
        auto u = *graph::find_vertex(g, it->first);
        if constexpr (hasV) {
          int k2 = c.s.range(100, 120);
          c.desc << " set_value(" << it->first << ":" << k2 << ")";
          graph::vertex_value(g, u) = mkval<VV>(k2);
          it->second.val            = mkval<VV>(k2);
        }
        if constexpr (hasE && !BIDIR && !(eassoc)) {
          if (!it->second.out.empty()) {
            int    k2  = c.s.range(100, 120);
            size_t pos = c.s.below(static_cast<uint32_t>(it->second.out.size()));
            c.desc << " set_edge(" << it->first << "#" << pos << ":" << k2 << ")";
            size_t j = 0;
            for (auto uv : graph::edges(g, u)) {
              if (j++ == pos)
                graph::edge_value(g, uv) = mkval<EV>(k2);
            }
            size_t at                  = flist ? it->second.out.size() - 1 - pos : pos;
            it->second.out[at].second = mkval<EV>(k2);
          }
        }
      } else if (op == 11) {
        if constexpr (!vassoc) {
          size_t n = m.v.size() + static_cast<size_t>(c.s.range(0, 3));
          c.desc << " resize(" << n << ")";
          g.reserve_vertices(n + 2);
          g.resize_vertices(n);
          m.grow(n);
        } else
          continue;
      }
      verify(c, g, m, "after operation");
    }
    for (auto& [h, hm] : kept)
      verify(c, h, hm, "kept copy at the end");
    if (dupseen)
      c.label("parallel edges supplied");
    if (loads > 1)
      c.label("several loads");
    if (!kept.empty())
      c.label("copies kept");
    if (m.edges >= 10)
      c.label("10 or more edges");
    c.nontrivial = loads > 0 && (m.edges >= 2 || !kept.empty());
  }
};
template <class G>
void target(Case& c) {
  Run<G>::run(c);
}
#define NAME_(t, x) #t x
#define R1(t)                                                                                                          \
  PBT_REG(#t " int,int", (target<DG(t, int, int, uint32_t, BIDIR)>), 1);                                               \
  PBT_REG(#t " string,void", (target<DG(t, std::string, void, uint32_t, BIDIR)>), 0.5);                                \
  PBT_REG(#t " void,string", (target<DG(t, void, std::string, int, BIDIR)>), 0.5);
TRAITS_SEL(R1)
#ifdef EXTRA
#  if EXTRA == 1
PBT_REG("mos string-ids", (target<DG(mos, int, int, std::string, BIDIR)>), 0.5);
PBT_REG("uov string-ids", (target<DG(uov, int, std::string, std::string, BIDIR)>), 0.5);
#  elif EXTRA == 2
PBT_REG("vov uint8", (target<DG(vov, int, int, uint8_t, BIDIR)>), 0.5);
PBT_REG("dol uint64", (target<DG(dol, int, void, uint64_t, BIDIR)>), 0.5);
PBT_REG("mol int64", (target<DG(mol, void, int, int64_t, BIDIR)>), 0.5);
#  endif
#endif
