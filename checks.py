"""Registry: property -> harness programs, budgets and the rule that makes a case count."""
def U(src, *defs, **kw):
    d = dict(src=src, defs=list(defs)); d.update(kw); return d
CHECKS = {}
def check(prop, units, rule, quick=25, thorough=600, cases=2000, factor=40, assumptions=()):
    CHECKS[prop] = dict(units=units, rule=rule, time=dict(quick=quick, thorough=thorough), cases=cases,
                        thorough_factor=factor, assumptions=list(assumptions))

dyn = lambda b: [U("c01_dynamic.cpp", "TRAITSET=%d" % i, "BIDIR=%d" % b, *( ["EXTRA=1"] if i == 6 else ["EXTRA=2"] if i==0 else [])) for i in range(7)]
check("C01", dyn(0), "operation history on one graph; non-trivial: at least one load and a final graph of >=2 edges or a kept copy; distinct by the full history text", cases=8000)
check("C02", dyn(1), "as C01 with incoming edges enabled", cases=6000)
check("C03", [U("c03_compressed.cpp", "UNIT=%d" % i) for i in range(5)],
      "history of loads, copies, moves and clears on one compressed graph; non-trivial: at least one edge stored and compared against the list model", cases=2500)
check("C04", [U("c04_partitions.cpp", "PUNIT=%d" % i) for i in range(3)],
      "graph plus a list of partition start ids; non-trivial: two or more partitions, or a rejected list", cases=3000)

check("C05", [U("c05_undirected.cpp", "UNIT=%d" % i) for i in range(2)],
      "history of vertex/edge creation, erasures, clears and resizes on one undirected graph; non-trivial: at least one edge created, two or more steps, and either edges left at the end or an erasure; distinct by history text", cases=40000)
check("C06", [U("c05_undirected.cpp", "UNIT=%d" % i, "COPIES=1") for i in range(2)],
      "as C05, with copies, moves, assignments and swaps between several graphs in the history; same rule", cases=40000)
check("C08", [U("c08_reject.cpp", "UNIT=%d" % i) for i in range(6)],
      "history of valid and invalid loads on one graph; non-trivial: at least one operation that must be rejected", cases=8000)
check("C07", [U("c07_lookup.cpp", "UNIT=%d" % i) for i in range(8)],
      "one graph built in each kind of representation, looked up with every vertex pair; non-trivial: two or more vertices and one or more edges", cases=8000)
check("C09", [U("c09_handles.cpp", "UNIT=%d" % i) for i in range(8)],
      "one graph in each kind of representation, all pairs (and triples) of its handles; non-trivial: two or more vertices and one or more edges", cases=10000, quick=20)

check("V01", [U("v01_basic_views.cpp", "UNIT=%d" % i) for i in range(8)],
      "one graph in each kind of representation and every basic view of it; non-trivial: two or more vertices and one or more edges", cases=4000)
check("C10", [U("c10_edgelist.cpp", "UNIT=%d" % i) for i in range(9)],
      "a sequence of edge records in every form and container, or a graph taken through its edge list into other containers; non-trivial: two or more records (edges)", cases=2500)
check("V02", [U("v02_reverse.cpp", "VUNIT=%d" % i) for i in range(5)],
      "one bidirectional (or undirected) graph, its incoming views and searches, or every query of its transpose view; non-trivial: two or more vertices and one or more edges", cases=3000)
check("V03", [U("v03_search.cpp", "UNIT=%d" % i, "MODE=0") for i in (0, 1, 3, 4, 5, 6, 7)],
      "one graph, seeds and a plan of cancellations, in every call form; non-trivial: three or more vertices and two or more edges", cases=4000)
check("V04", [U("v03_search.cpp", "UNIT=%d" % i, "MODE=1") for i in (0, 1, 3, 4, 5, 6, 7)],
      "one graph, seeds and a plan of cancellations, in every call form; non-trivial: three or more vertices and two or more edges", cases=4000)
check("V05", [U("v05_topo.cpp", "UNIT=%d" % i) for i in (0, 1, 3, 4, 5, 6, 7)],
      "one graph, acyclic two times in three, every topological view of it and a cancellation point; non-trivial: three or more vertices and two or more edges", cases=3000)
check("V06", [U("v06_pipe.cpp", "UNIT=%d" % i) for i in (0, 1, 3, 4, 5, 6, 7)],
      "one graph, every view adaptor on it with generated arguments; non-trivial: two or more vertices and one or more edges", cases=1500)
check("A01", [U("a01_traverse.cpp", "UNIT=%d" % i, "MODE=0") for i in (0, 1, 3, 4, 5, 6, 7)],
      "one graph, a list of sources and visitors of every form; non-trivial: three or more vertices, two or more edges and a source", cases=8000)
check("A02", [U("a01_traverse.cpp", "UNIT=%d" % i, "MODE=1") for i in (0, 1, 3, 4, 5, 6, 7)],
      "one graph, a source and visitors of every form; non-trivial: three or more vertices and two or more edges", cases=8000)
check("A03", [U("a03_paths.cpp", "UNIT=%d" % i, "MODE=0") for i in (0, 1, 3, 4, 5, 6, 7)],
      "one graph with weights of either sign, a list of sources, one call form and the rejections; non-trivial: three or more vertices and edges and a source", cases=10000)
check("A04", [U("a03_paths.cpp", "UNIT=%d" % i, "MODE=1") for i in (0, 1, 3, 4, 5, 6, 7)],
      "one graph with weights of either sign, a list of sources and one call form; non-trivial: three or more vertices and edges and a source", cases=10000)
check("A05", [U("a05_topo.cpp", "UNIT=%d" % i) for i in (0, 1, 3, 4, 5, 6, 7)],
      "one graph, acyclic two times in three, sorted whole and from sources; non-trivial: three or more vertices and two or more edges", cases=10000, quick=20)
check("A06", [U("a06_components.cpp", "UNIT=%d" % i, "MODE=0") for i in (0, 1, 3, 4, 5, 6, 7)],
      "one graph (symmetric, or with its transpose) or parent forest; non-trivial: three or more vertices and two or more edges", cases=10000, quick=20)
check("A07", [U("a06_components.cpp", "UNIT=%d" % i, "MODE=1") for i in (0, 1, 3, 4, 5, 6)],
      "one directed graph and its transpose; non-trivial: three or more vertices and edges", cases=10000, quick=20)
check("A08", [U("a08_mst.cpp", "UNIT=0", "MODE=0")],
      "one list of weighted edges through every Kruskal form; non-trivial: three or more edges", cases=60000, quick=20)
check("A09", [U("a08_mst.cpp", "UNIT=%d" % i, "MODE=1") for i in (0, 1, 3, 4, 5, 6, 7)],
      "one symmetric weighted graph, a seed and an order; non-trivial: three or more vertices and four or more listed edges", cases=10000, quick=20)
check("A10", [U("a10_cuts.cpp", "UNIT=%d" % i, "MODE=0") for i in (0, 1, 3, 4, 5, 6, 7)],
      "one symmetric graph, random or glued from blocks; non-trivial: three or more vertices and four or more listed edges", cases=10000, quick=20)
check("A11", [U("a10_cuts.cpp", "UNIT=%d" % i, "MODE=1") for i in (0, 1, 3, 4, 5, 6, 7)],
      "one symmetric graph, random or glued from blocks; non-trivial: three or more vertices and four or more listed edges", cases=10000, quick=20)
check("A12", [U("a12_metrics.cpp", "UNIT=%d" % i, "MODE=0") for i in (0, 1, 3, 4, 5, 6, 7)],
      "one simple symmetric graph with sorted neighbor lists; non-trivial: three or more vertices and six or more listed edges", cases=10000, quick=15)
check("A13", [U("a12_metrics.cpp", "UNIT=%d" % i, "MODE=1") for i in (0, 1, 3, 4, 5, 6, 7)],
      "one graph, symmetric or not; non-trivial: three or more vertices and edges", cases=10000, quick=15)
check("A14", [U("a12_metrics.cpp", "UNIT=%d" % i, "MODE=2") for i in (0, 1, 3, 4, 5, 6, 7)],
      "one symmetric graph and a seed vertex; non-trivial: three or more vertices and two or more listed edges", cases=10000, quick=15)
check("A15", [U("a12_metrics.cpp", "UNIT=%d" % i, "MODE=3") for i in (0, 1, 3, 4, 5, 6, 7)],
      "one graph, initial labels of one of four types, an engine and round limits; non-trivial: three or more vertices and edges", cases=4000, quick=20)

check("A16", [U("a16_faults.cpp", "UNIT=%d" % i, "MODE=0") for i in (0, 3, 6, 7)] + [U("a16_faults.cpp", "UNIT=%d" % i, "MODE=1") for i in (0, 3, 6, 7)],
      "one graph, one algorithm or view on it, and a failure at each allocation and each call of a supplied function in turn (a sample of them when there are many); non-trivial: at least one failure was injected and came through", cases=2500)
check("C11", [U("c11_custom.cpp")] + [U(s, "UNIT=8") for s in ("c07_lookup.cpp", "c09_handles.cpp", "v01_basic_views.cpp", "v05_topo.cpp", "v06_pipe.cpp", "a05_topo.cpp")] +
      [U(s, "UNIT=8", "MODE=%d" % m) for s, m in (("v03_search.cpp", 0), ("v03_search.cpp", 1), ("a01_traverse.cpp", 0), ("a01_traverse.cpp", 1), ("a03_paths.cpp", 0), ("a03_paths.cpp", 1), ("a06_components.cpp", 0), ("a08_mst.cpp", 1), ("a10_cuts.cpp", 0))],
      "one graph in user types with every mix of own functions, or in user-defined representations through the harness of another property; non-trivial: two or more vertices and one or more edges", cases=2000)
check("C12", [U("c12_failures.cpp", "KIND=0", "TRAITSET=%d" % i, "BIDIR=0") for i in range(7)] + [U("c12_failures.cpp", "KIND=0", "TRAITSET=%d" % i, "BIDIR=1") for i in (0, 2, 5)] + [U("c12_failures.cpp", "KIND=%d" % k) for k in (1, 2)],
      "start contents, one operation on it, and a failure at each allocation and each call of a supplied function in turn (a sample of them when there are many); non-trivial: at least one failure was injected and came through", cases=1500)
TSAN = ["-fno-sanitize=all", "-fsanitize=thread", "-Wl,-z,muldefs"]
check("X01", [U("x01_readers.cpp", "UNIT=%d" % i, flags=TSAN) for i in range(9)],
      "one graph in read-only memory and one to four questions put to it by two to four threads at once; non-trivial: two or more vertices and one or more edges", cases=700)
CHECKS["X01"]["technique"] = "property-based testing: generated graphs and sets of concurrent readers, in read-only memory and under the thread sanitizer, against the answers of a single reader"
for p in ("A16", "C12"):
    CHECKS[p]["technique"] = "property-based testing with fault injection: every allocation and every supplied function made to fail in turn on generated inputs, invariants and the undisturbed result as oracle, under ASan/UBSan"

# the same property on graphs of up to 150 000 vertices
for p in ("C01 C02 C03 C05 C06 C07 V01 V02 V03 V04 V05 " + " ".join("A%02d" % i for i in range(1, 16))).split():
    CHECKS[p]["units"].append(U("scale.cpp", "PROP=%s" % p, cases=4))
    CHECKS[p]["rule"] += "; a large recipe counts from 200 vertices on"
