// Every kind of graph representation the library accepts, with sparse and string ids for maps, registered per UNIT.
#pragma once
#include "graphs.hpp"
#include "traits.hpp"
using namespace gr;
using pbt::Case;

using UMP = std::unordered_map<int, std::vector<std::pair<int, int>>>;
using MSP = std::map<std::string, std::vector<std::pair<std::string, int>>>;
using MVI = std::map<int, std::vector<int>>;
using DLT = std::deque<std::list<std::tuple<int, int, int>>>;
using VUM = std::vector<std::unordered_map<int, int>>;
struct Sparse {
  static int enc(int i) { return 3 * i + 1; }
  static int dec(int i) { return (i - 1) / 3; }
};
namespace gr {
template <> struct idc<UMP> : Sparse {};
template <> struct idc<MVP> : Sparse {};
template <> struct idc<MVI> : Sparse {};
template <> struct idc<MLP> : Sparse {};
struct StrIds {
  static std::string enc(int i) { return std::string(1, static_cast<char>('a' + i / 26)) + static_cast<char>('a' + i % 26); }
  static int         dec(const std::string& s) { return (s[0] - 'a') * 26 + (s[1] - 'a'); }
};
template <> struct idc<MSP> : StrIds {};
template <class EV, class VV, class GV, class VId, bool B, class T>
  requires(assoc<typename T::vertices_type> && std::is_integral_v<VId> && sizeof(VId) >= 2)
struct idc<gc::dynamic_graph<EV, VV, GV, VId, B, T>> {
  static int enc(int i) { return 3 * i + 1; }
  static int dec(VId i) { return static_cast<int>((i - 1) / 3); }
};
template <class EV, class VV, class GV, bool B, class T>
struct idc<gc::dynamic_graph<EV, VV, GV, std::string, B, T>> : StrIds {};
} // namespace gr

template <class G>
inline constexpr bool seq_vertices = user_kind<G>;
template <class G>
  requires(!user_kind<G> && (plain_seq<G> || is_compressed<G>::value || is_undirected<G>::value))
inline constexpr bool seq_vertices<G> = true;
template <class G>
  requires(is_dynamic<G>::value && !assoc<typename is_dynamic<G>::vertices_type>)
inline constexpr bool seq_vertices<G> = true;

// The value an edge with model value w has, or nullopt when the element holds none
template <class G>
constexpr bool tuple_edges = std::is_same_v<G, VVT> || std::is_same_v<G, DLT>;
template <class G>
constexpr bool id_only = std::is_same_v<G, VVI> || std::is_same_v<G, VDI> || std::is_same_v<G, MVI>;
template <class G>
constexpr bool has_ev() {
  if constexpr (is_dynamic<G>::value)
    return !std::is_void_v<typename is_dynamic<G>::ev>;
  else if constexpr (is_compressed<G>::value)
    return !std::is_void_v<typename is_compressed<G>::ev>;
  else
    return !id_only<G>;
}
template <class G>
constexpr bool has_vv() {
  if constexpr (is_dynamic<G>::value)
    return !std::is_void_v<typename is_dynamic<G>::vv>;
  else if constexpr (is_compressed<G>::value)
    return !std::is_void_v<typename is_compressed<G>::vv>;
  else
    return is_undirected<G>::value || user_vv<G>;
}
template <class V>
int as_int(const V& v) {
  if constexpr (requires { std::get<0>(v); })
    return static_cast<int>(std::get<0>(v));
  else
    return static_cast<int>(v);
}


// F::template run<G>(Case&) is registered as a target for every representation of this UNIT that F accepts
// (F::template accepts<G>, when F has it).
template <class F>
struct RegisterKinds {
  template <class G>
  static constexpr bool accepted() {
    if constexpr (requires { F::template accepts<G>; })
      return F::template accepts<G>;
    else
      return true;
  }
  template <class G>
  static void reg(const char* n) {
    if constexpr (accepted<G>()) pbt::targets().push_back({n, [](Case& c) { F::template run<G>(c); }, 1.0});
  }
  RegisterKinds() {
#define R(T) reg<T>(#T)
#if UNIT == 0
    R(VVI); R(VVP); R(VVT); R(VLP); R(VUM);
#elif UNIT == 1
    R(DVP); R(VDI); R(VFP); R(VMI); R(DLT);
#elif UNIT == 2
    R(MVP); R(MLP); R(UMP); R(MSP); R(MVI);
#elif UNIT == 3
    reg<DG_U(vov, int, int, uint32_t)>("vov");
    reg<DG_U(vofl, long, void, int)>("vofl");
    reg<DG_U(dol, int, int, uint8_t)>("dol");
    reg<DG_U(vos, int, int, uint64_t)>("vos");
    reg<graph::container::dynamic_graph<int, int, int, uint32_t, false, graph::container::vov_graph_traits<int, int, int, uint32_t, false>>>("vov gv");
#elif UNIT == 4
    reg<DG_U(mov, int, int, uint32_t)>("mov");
    reg<DG_U(uol, int, void, int)>("uol");
    reg<DG_U(mom, int, int, int)>("mom");
    reg<DG_U(voum, int, int, uint32_t)>("voum");
    reg<DG_U(mous, void, int, std::string)>("mous string");
#elif UNIT == 5
    reg<DG_B(vov, int, int, uint32_t)>("bi vov");
    reg<DG_B(mol, int, int, int)>("bi mol");
    reg<DG_B(dous, int, void, uint16_t)>("bi dous");
    reg<DG_B(v_mixed, int, int, uint32_t)>("bi v_mixed");
#elif UNIT == 6
    reg<gc::compressed_graph<int, int, void, uint32_t, uint32_t>>("csr");
    reg<gc::compressed_graph<void, int, int, int, size_t>>("csr int void");
    reg<gc::compressed_graph<int, void, int, uint8_t, uint16_t>>("csr u8");
    reg<gc::compressed_graph<double, double, int, uint64_t, uint64_t>>("csr u64");
#elif UNIT == 7
    reg<gc::undirected_adjacency_list<int, int, int, uint32_t>>("undirected");
    reg<gc::undirected_adjacency_list<int, int, void, int>>("undirected int");
    reg<gc::undirected_adjacency_list<long, int, void, uint32_t, std::deque>>("undirected deque");
#elif UNIT == 8
    R(UVM); R(ULF); R(user::plain); R(user::members); R(user::metro); R(user::both);
#endif
#undef R
  }
};
