// C04: partitions of compressed graphs, validation by dynamic graphs, the single partition of every other graph.
#define PARTS_ONLY
#include "c03_compressed.cpp"
#include "traits.hpp"

// Any graph without partition support: one partition holding everything.
template <class G>
void single(Case& c) {
  gen::Opt o;
  o.max_n = 9;
  o.min_n = is_dynamic<G>::value ? 1 : 0; // (a graph value of no vertices is covered by the compressed histories)
  o.big_n = 40;
  auto m  = gen::graph(c.s, o);
  c.desc << gen::str(m);
  c.nontrivial = m.n >= 2;
  G                g = make<G>(m);
  std::vector<int> all, part;
  for (auto u : graph::vertices(g))
    all.push_back(static_cast<int>(graph::vertex_id(g, u)));
  PCHECK(graph::num_partitions(g) == 1, "num_partitions");
  for (auto u : graph::vertices(g, 0)) {
    part.push_back(static_cast<int>(graph::vertex_id(g, u)));
    PCHECK(graph::partition_id(g, u) == 0, "partition_id of " << part.back());
  }
  PCHECK(part == all, "partition 0 lists " << pbt::show(part) << " of " << pbt::show(all));
  PCHECK(static_cast<size_t>(graph::num_vertices(g, 0)) == all.size(), "num_vertices of partition 0");
}

// Dynamic graphs with a partition list: invalid lists rejected, valid ones accepted and the graph unaffected.
template <class G>
void dyn(Case& c) {
  using D   = is_dynamic<G>;
  using VId = typename D::vid;
  auto&    s = c.s;
  gen::Opt o;
  o.max_n = 8;
  o.min_n = 1;
  o.big   = false;
  auto             m = gen::graph(s, o);
  int              n = m.n;
  std::vector<VId> p;
  if (s.chance(1, 2)) {
    p.push_back(0);
    for (int i = 1; i < n; ++i)
      if (s.chance(1, 3))
        p.push_back(static_cast<VId>(i));
    if (s.chance(1, 3))
      p[s.below(static_cast<uint32_t>(p.size()))] = static_cast<VId>(s.range(0, 10));
  } else {
    int k = s.range(0, 4);
    for (int i = 0; i < k; ++i)
      p.push_back(static_cast<VId>(s.range(0, 10)));
  }
  bool bad = !p.empty() && p[0] != 0;
  for (size_t i = 1; i < p.size(); ++i)
    bad = bad || p[i] <= p[i - 1];
  bad              = bad || (!p.empty() && static_cast<int>(p.back()) > n);
  bool unspecified = !bad && !p.empty() && static_cast<int>(p.back()) == n;
  c.desc << gen::str(m) << " P" << pbt::show(std::vector<int>(p.begin(), p.end()));
  c.nontrivial = true;
  c.label(bad ? "invalid list" : "valid list");
  std::vector<graph::copyable_edge_t<VId, int>> es;
  for (auto& e : m.e)
    es.push_back({static_cast<VId>(e.u), static_cast<VId>(e.v), e.w});
  std::vector<graph::copyable_vertex_t<VId, int>> vs;
  for (int i = 0; i < n; ++i)
    vs.push_back({static_cast<VId>(i), vval(i)});
  bool threw = false;
  int  how   = s.range(0, 1);
  try {
    auto chk = [&](G& g) {
      extract_checked(c, g, m);
      PCHECK(graph::num_partitions(g) == 1, "num_partitions");
      size_t cnt = 0;
      for (auto u : graph::vertices(g, 0)) {
        (void)u;
        ++cnt;
      }
      PCHECK(cnt == static_cast<size_t>(n), "vertices of partition 0");
    };
    if (how == 0) {
      G g(es, vs, std::identity{}, std::identity{}, p);
      chk(g);
    } else {
      G g(static_cast<VId>(n - 1), es, std::identity{}, p);
      chk(g);
    }
  } catch (const std::invalid_argument&) { threw = true; }
  if (!unspecified)
    PCHECK(threw == bad, "partition list " << (bad ? "invalid but accepted" : "valid but rejected"));
}

#if PUNIT == 0
R("compressed void/void/void u32", void, void, void, uint32_t, uint32_t, 30, 60);
R("compressed int/int/void u8", int, int, void, uint8_t, uint32_t, 60, 60);
#elif PUNIT == 1
R("compressed string/int/int i32 edges u64", S, int, int, int32_t, uint64_t, 40, 40);
R("compressed int/string/void u64 edges u16", int, S, void, uint64_t, uint16_t, 40, 40);
#elif PUNIT == 2
using DV = DG_U(vov, int, int, uint32_t);
using DD = DG_U(dol, int, int, uint32_t);
using DS = DG_U(vos, int, int, uint64_t);
using DM = DG_U(mov, int, int, uint32_t);
using CG = gc::compressed_graph<int, int, void>;
using UG = gc::undirected_adjacency_list<int, int, int>;
PBT_REG("dynamic vov", dyn<DV>, 1.0);
PBT_REG("dynamic dol", dyn<DD>, 1.0);
PBT_REG("dynamic vos", dyn<DS>, 1.0);
PBT_REG("single dynamic vov", single<DV>, 0.5);
PBT_REG("single dynamic mov", single<DM>, 0.5);
PBT_REG("single VVI", single<VVI>, 0.5);
PBT_REG("single VLP", single<VLP>, 0.5);
PBT_REG("single DVP", single<DVP>, 0.5);
PBT_REG("single MVP", single<MVP>, 0.5);
PBT_REG("single compressed", single<CG>, 0.5);
PBT_REG("single undirected", single<UG>, 0.5);
#endif
