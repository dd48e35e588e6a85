// All 27 storage combinations of dynamic_graph, selectable by the TRAITSET macro (0..6: four per program).
#pragma once
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <graph/container/dynamic_graph.hpp>
#define INC_T(x) <graph/container/traits/x##_graph_traits.hpp>
#include <graph/container/traits/vov_graph_traits.hpp>
#include <graph/container/traits/vol_graph_traits.hpp>
#include <graph/container/traits/vofl_graph_traits.hpp>
#include <graph/container/traits/vod_graph_traits.hpp>
#include <graph/container/traits/vos_graph_traits.hpp>
#include <graph/container/traits/vous_graph_traits.hpp>
#include <graph/container/traits/vom_graph_traits.hpp>
#include <graph/container/traits/voum_graph_traits.hpp>
#include <graph/container/traits/dov_graph_traits.hpp>
#include <graph/container/traits/dol_graph_traits.hpp>
#include <graph/container/traits/dofl_graph_traits.hpp>
#include <graph/container/traits/dod_graph_traits.hpp>
#include <graph/container/traits/dos_graph_traits.hpp>
#include <graph/container/traits/dous_graph_traits.hpp>
#include <graph/container/traits/mov_graph_traits.hpp>
#include <graph/container/traits/mol_graph_traits.hpp>
#include <graph/container/traits/mofl_graph_traits.hpp>
#include <graph/container/traits/mod_graph_traits.hpp>
#include <graph/container/traits/mos_graph_traits.hpp>
#include <graph/container/traits/mous_graph_traits.hpp>
#include <graph/container/traits/mom_graph_traits.hpp>
#include <graph/container/traits/uov_graph_traits.hpp>
#include <graph/container/traits/uol_graph_traits.hpp>
#include <graph/container/traits/uofl_graph_traits.hpp>
#include <graph/container/traits/uod_graph_traits.hpp>
#include <graph/container/traits/uos_graph_traits.hpp>
#include <graph/container/traits/uous_graph_traits.hpp>

#define DG_U(tr, EV, VV, VID)                                                                                          \
  graph::container::dynamic_graph<EV, VV, void, VID, false, graph::container::tr##_graph_traits<EV, VV, void, VID, false>>

// Bidirectional graphs need traits that name an incoming edge type (see test_dynamic_graph_bidirectional.cpp); the
// library ships none, so every storage combination is spelled out here. Incoming edges use the same kind of container
// as outgoing ones, except in the two "mixed" forms.
namespace bi {
namespace gc = graph::container;
#define BI_TRAITS(name, VERTS, EDGES, INEDGES)                                                                         \
  template <class EV, class VV, class GV, class VId>                                                                   \
  struct name {                                                                                                        \
    using edge_value_type               = EV;                                                                          \
    using vertex_value_type             = VV;                                                                          \
    using graph_value_type              = GV;                                                                          \
    using vertex_id_type                = VId;                                                                         \
    static constexpr bool bidirectional = true;                                                                        \
    using edge_type                     = gc::dynamic_out_edge<EV, VV, GV, VId, true, name>;                           \
    using in_edge_type                  = gc::dynamic_in_edge<EV, VV, GV, VId, true, name>;                            \
    using vertex_type                   = gc::dynamic_vertex<EV, VV, GV, VId, true, name>;                             \
    using graph_type                    = gc::dynamic_graph<EV, VV, GV, VId, true, name>;                              \
    template <class E> using ec         = EDGES;                                                                       \
    template <class E> using ic         = INEDGES;                                                                     \
    using edges_type                    = ec<edge_type>;                                                               \
    using in_edges_type                 = ic<in_edge_type>;                                                            \
    using vertices_type                 = VERTS;                                                                       \
  };
#define BV_v std::vector<vertex_type>
#define BV_d std::deque<vertex_type>
#define BV_m std::map<VId, vertex_type>
#define BV_u std::unordered_map<VId, vertex_type>
#define BE_v std::vector<E>
#define BE_l std::list<E>
#define BE_fl std::forward_list<E>
#define BE_d std::deque<E>
#define BE_s std::set<E>
#define BE_us std::unordered_set<E>
#define BE_m std::map<VId, E>
#define BE_um std::unordered_map<VId, E>
#define BI_ALL(V)                                                                                                      \
  BI_TRAITS(V##ov, BV_##V, BE_v, BE_v)                                                                                 \
  BI_TRAITS(V##ol, BV_##V, BE_l, BE_l)                                                                                 \
  BI_TRAITS(V##ofl, BV_##V, BE_fl, BE_fl)                                                                              \
  BI_TRAITS(V##od, BV_##V, BE_d, BE_d)                                                                                 \
  BI_TRAITS(V##os, BV_##V, BE_s, BE_s)                                                                                 \
  BI_TRAITS(V##ous, BV_##V, BE_us, BE_us)                                                                              \
  BI_TRAITS(V##om, BV_##V, BE_m, BE_m)                                                                                 \
  BI_TRAITS(V##oum, BV_##V, BE_um, BE_um)
BI_ALL(v) BI_ALL(d) BI_ALL(m) BI_ALL(u)
BI_TRAITS(v_mixed, BV_v, BE_v, BE_l)
BI_TRAITS(m_mixed, BV_m, BE_l, BE_v)
} // namespace bi
#define DG_B(tr, EV, VV, VID) graph::container::dynamic_graph<EV, VV, void, VID, true, bi::tr<EV, VV, void, VID>>
#define DG_IF(b) DG_IF_##b
#define DG_IF_0 DG_U
#define DG_IF_1 DG_B
#define DG(tr, EV, VV, VID, BIDIR) DG_X(BIDIR, tr, EV, VV, VID)
#define DG_X(b, tr, EV, VV, VID)   DG_IF(b)(tr, EV, VV, VID)

#define TRAITS_0(X) X(vov) X(vol) X(vofl) X(vod)
#define TRAITS_1(X) X(vos) X(vous) X(vom) X(voum)
#define TRAITS_2(X) X(dov) X(dol) X(dofl) X(dod)
#define TRAITS_3(X) X(dos) X(dous) X(mov) X(mol)
#define TRAITS_4(X) X(mofl) X(mod) X(mos) X(mous)
#define TRAITS_5(X) X(mom) X(uov) X(uol) X(uofl)
#define TRAITS_6(X) X(uod) X(uos) X(uous)
#define TCAT2(a, b) a##b
#define TCAT(a, b)  TCAT2(a, b)
#ifdef TRAITSET
#  define TRAITS_SEL(X) TCAT(TRAITS_, TRAITSET)(X)
#endif
