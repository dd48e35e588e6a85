#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is reviewable in one place)."""
import json
H="include/graph/"
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=[H+f for f in files],mechanism=[dict(name=n,where=H+w) for n,w in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    assert len(title)<=80,(id,len(title))
    assert stmt.count('. ')<=2,(id,stmt.count('. '))
    P.append(d)

T="container/traits/"
p("C01","Loading edges and vertices reproduces the input in every storage combination",
  "A dynamic graph built from any list of edges and vertex values, with any of its vertex and edge storage kinds, enumerates exactly the vertices, edges, edge values and vertex values it was given: sequence storage keeps every parallel edge in insertion order (forward-list storage in reverse insertion order), and set or map storage keeps one edge per source and target, carrying the first value given. The reported vertex count equals what enumeration yields, and the reported edge count is the number of edges supplied, which is what enumeration yields in sequence storage. A copy, a move, a later load and a clear leave exactly the contents the same steps would leave in an ordinary list of edges, and copies stay independent.",
  ["inputs","configurations","histories"],
  "all edge lists (parallel edges, self-loops, gaps in ids, isolated vertices) x all 27 storage traits x value/void payloads x all histories of load, copy, move, assign, clear",
  "The unit tests load a handful of hand-written edge lists per trait and check a few counts; they do not cover the product of storage kinds, duplicate patterns, id gaps and multi-step loads.",
  ["container/dynamic_graph.hpp","container/container_utility.hpp",T+"vov_graph_traits.hpp"],
  [("edge loading with id inference and explicit vertex counts","container/dynamic_graph.hpp"),("edge emplacement per edge-container kind","container/container_utility.hpp")],
  ["vertices, edges, target_id, edge_value, vertex_value, num_vertices, num_edges"])
p("C02","Incoming edges mirror outgoing edges in bidirectional graphs",
  "In a graph that offers incoming edges, an edge from u to v with value w is listed among u's outgoing edges exactly as often as an edge from u with value w is listed among v's incoming edges. In-degree, lookup of an incoming edge by its two endpoints, existence tests and the source and target reported for an incoming edge agree with that listing. This holds after every load, copy, move and clear.",
  ["inputs","configurations","histories"],
  "all edge lists x all storage traits with incoming edges enabled, and the undirected graph, after any load/copy/clear history",
  "Existing tests check in-edges on fixed small graphs for a few traits; the mirror relation quantifies over all graphs, storage kinds and load sequences.",
  ["container/dynamic_graph.hpp","adj_list/detail/graph_cpo.hpp","adj_list/edge_descriptor.hpp"],
  [("paired insertion of forward and reverse edge records","container/dynamic_graph.hpp"),("incoming-edge customization points","adj_list/detail/graph_cpo.hpp")])
p("C03","Compressed graph faithfully stores sorted edges and values",
  "A compressed sparse row graph built from edges sorted by source enumerates, for every vertex, exactly that vertex's edges with their targets and values in input order, whatever the vertex-id and edge-index widths, id gaps, isolated vertices and vertex values supplied. Its vertex count is the number needed to hold every vertex mentioned by an edge or a vertex value, and its edge count equals the number of edges supplied. Copies, moves and clear behave as for an ordinary value.",
  ["inputs","configurations","histories"],
  "all sorted edge lists and vertex-value lists x value/void payloads x 8/16/32/64-bit vertex ids and edge indexes x construction routes",
  "Tests use small hand-written lists with 32-bit ids and one construction route each; narrow ids, many edges, trailing isolated vertices and combined loads are not sampled.",
  ["container/compressed_graph.hpp"],
  [("row index construction and terminator row","container/compressed_graph.hpp"),("parallel column value array","container/compressed_graph.hpp")])
p("C04","Partitions split the vertices of a graph exactly",
  "When a compressed graph is constructed with a list of partition start ids, the partitions' vertex ranges are disjoint, in order, and together list every vertex exactly once, each vertex's reported partition is the one whose range lists it, and the number of partitions and per-partition vertex counts agree with those ranges. Every other graph reports a single partition that holds every vertex. A dynamic graph rejects an invalid partition list (not starting at the first vertex, not increasing, or beyond the vertices) with an exception and accepts a valid one.",
  ["inputs","configurations"],
  "all valid and invalid partition start lists x all graph sizes, for compressed and dynamic graphs",
  "Tests check two or three fixed partition lists; off-by-one errors at the last partition or at empty graphs need arbitrary lists.",
  ["container/compressed_graph.hpp","container/dynamic_graph.hpp","adj_list/detail/graph_cpo.hpp"],
  [("partition start array and terminator","container/compressed_graph.hpp"),("partition customization points","adj_list/detail/graph_cpo.hpp")])
p("C05","Undirected graph stays consistent under any sequence of edits",
  "After any sequence of creating vertices, creating edges (including parallel edges and self-loops), erasing single edges or ranges of a vertex's edges, clearing one vertex's edges and clearing the graph, an undirected graph lists exactly the live edges: every edge is reachable from both endpoints with the same value and the opposite endpoint as neighbor, the edge count equals the number of live edges, and per-vertex degree equals the number of edges listed at it. Erasing an edge returns the position of the next edge at that vertex and leaves every other edge untouched. No operation reads or frees memory it should not, and every stored value is destroyed exactly once.",
  ["histories"],
  "all operation histories over vertices, edges, erasures and clears, with every value type's lifetime tracked",
  "The tests run short fixed scripts; list-unlink errors depend on the position of the edge in both endpoint lists, on parallel edges and self-loops and on earlier erasures.",
  ["container/undirected_adjacency_list.hpp","container/detail/undirected_adjacency_list_impl.hpp"],
  [("double intrusive linking of each edge into both endpoint lists","container/undirected_adjacency_list.hpp"),("unlink and erase","container/detail/undirected_adjacency_list_impl.hpp")])
p("C06","Copying, moving and swapping an undirected graph preserves it exactly",
  "A copy of an undirected graph has the same vertices, vertex values, and edges with the same endpoints and values as the original, whatever order the endpoints of each edge were given in, and later changes to either graph do not show in the other. A move or swap transfers the contents, leaves a moved-from graph that can be destroyed, cleared and refilled, and assignment over a non-empty graph releases what it held. Every stored value is destroyed exactly once.",
  ["histories"],
  "all graphs reachable by edit histories x all sequences of copy/move construction and assignment, swap and self-assignment",
  "Tests copy two or three graphs whose edges all have source < target; lost edges, leaks and aliasing need arbitrary graphs and histories.",
  ["container/undirected_adjacency_list.hpp","container/detail/undirected_adjacency_list_impl.hpp"],
  [("deep copy of edges into both lists","container/detail/undirected_adjacency_list_impl.hpp"),("move and swap","container/undirected_adjacency_list.hpp")])
p("C07","Lookups and counts agree with enumeration on every kind of graph",
  "On every graph the library accepts (plain nested standard containers, maps of vertices, and the three graph containers), finding a vertex by id, finding or testing an edge by its endpoints, degree, vertex and edge counts, and source and target of an edge give the answer that a plain enumeration of the vertices and their edges gives. Calls taking vertex ids and calls taking vertex handles give the same answers. Values written through the value accessors are what later reads through any path return.",
  ["inputs","configurations"],
  "all graphs x all accepted adjacency representations x all vertex pairs",
  "Tests check chosen vertices of chosen graphs for each representation; the default and the member/argument-dependent implementations are separate code paths per representation and argument kind.",
  ["adj_list/detail/graph_cpo.hpp","adj_list/edge_descriptor.hpp","adj_list/vertex_descriptor.hpp","detail/edge_cpo.hpp"],
  [("resolution of member, argument-dependent and default implementations","adj_list/detail/graph_cpo.hpp"),("target extraction per edge representation","adj_list/edge_descriptor.hpp")])
p("C08","Invalid construction input is rejected with the documented exception",
  "Loading an edge that names a vertex outside an explicitly fixed vertex count, a vertex value for an id outside a fixed vertex range, or edges not sorted by source into a sorted-input graph raises an exception, as does checked access to an absent vertex. Valid input raises none. After a rejected operation the graph can still be enumerated, cleared, refilled and destroyed safely, and whatever it lists is a subset of what was supplied.",
  ["inputs","fault_sequences"],
  "all edge and vertex lists with a fault at any position, for every container that documents the check",
  "Tests put one bad record in one place; the fault's position and what was stored before it vary freely.",
  ["container/dynamic_graph.hpp","container/compressed_graph.hpp"],
  [("range checks while loading","container/dynamic_graph.hpp"),("source ordering check","container/compressed_graph.hpp")])
p("C09","Vertex and edge handles order, compare and hash consistently",
  "Within one graph, two vertex or edge handles compare equal exactly when they refer to the same vertex or to the same edge slot of the same vertex, equal handles have equal hashes, and where an ordering is offered it is a strict total order compatible with equality and with the order in which vertices, and the edges of one vertex, are enumerated. Handles obtained by advancing, by copying, by subscripting a range or by lookup are interchangeable. Enumerating a vertex's edges twice gives equal handles in the same order.",
  ["inputs","configurations"],
  "all pairs and triples of handles of a graph x all graph representations",
  "Tests compare a few chosen handles; order and hash laws quantify over all pairs and triples.",
  ["adj_list/vertex_descriptor.hpp","adj_list/edge_descriptor.hpp","adj_list/vertex_descriptor_view.hpp","adj_list/edge_descriptor_view.hpp"],
  [("comparison and hash of descriptors","adj_list/edge_descriptor.hpp"),("descriptor views","adj_list/edge_descriptor_view.hpp")])
p("C10","Flat edge lists report each record's endpoints and value unchanged",
  "For every supported record form (pair, tuple, edge record, edge handle) in any range, a flat edge list reports each record's source, target and value exactly as stored, in range order. Viewing a graph as a flat edge list and loading that list into any container yields a graph with the same edges and values. Edge handles of flat lists compare by source, then target, then value.",
  ["inputs","configurations"],
  "all record sequences x record forms x id types, and all graphs for the round trip",
  "Tests examine a few literal lists; the round trip composes view, projection and loader over arbitrary graphs.",
  ["edge_list/edge_list.hpp","edge_list/edge_list_descriptor.hpp","detail/edge_cpo.hpp","views/edgelist.hpp"],
  [("edge record customization points","detail/edge_cpo.hpp"),("edge list view","views/edgelist.hpp")])

p("C11","A user-defined graph's own functions are used, and the rest is derived from them",
  "A user's graph type takes part in the whole library by providing its own functions: for every query the user's member or free function is preferred over the default in the documented order, is called with the arguments given, and its answer or exception comes through unchanged. Queries the user does not provide are answered from the ones provided, consistently with enumerating the graph. Views and algorithms give the same answers on such graphs as on the library's containers.",
  ["inputs","configurations"],
  "all graphs x user types providing every subset of member and free functions, on the graph or on its vertices and edges, const or not x every query, view and algorithm",
  "Tests have a few toy types per customization point; which function wins, and what is derived when one is absent, depends on the combination provided.",
  ["adj_list/detail/graph_cpo.hpp","adj_list/adjacency_list_concepts.hpp"],
  [("choice of implementation for each customization point","adj_list/detail/graph_cpo.hpp")])
p("C12","A failed load, copy or edit of a container leaks nothing and leaves it usable",
  "When building, loading, copying or editing a container fails part-way (a failed allocation, or an exception from a projection, an edge or vertex value or the source range), the exception reaches the caller, nothing leaks and no value is destroyed twice. The container left behind is consistent: every listed edge leads to an existing vertex, its counts agree with its listing, and it can be enumerated, cleared, assigned to, filled again with the full result and destroyed. A container that was only read is unchanged, and clear never fails.",
  ["inputs","histories","faults"],
  "all graphs x every operation of every container x a failure at every allocation and at every call of a supplied function",
  "Tests never inject failures; the states they expose lie between the steps of an operation.",
  ["container/dynamic_graph.hpp","container/compressed_graph.hpp","container/undirected_adjacency_list.hpp","container/detail/undirected_adjacency_list_impl.hpp"],
  [("multi-step loading and memberwise copying","container/dynamic_graph.hpp"),("row and column arrays filled in steps","container/compressed_graph.hpp"),("edges allocated one by one and linked twice","container/undirected_adjacency_list.hpp")])
p("V01","Vertex, edge, incidence and neighbor views list exactly the graph",
  "The vertex-list, incidence, neighbors and edge-list views of a graph yield, in storage order and once each, exactly its vertices, a vertex's edges, a vertex's neighbors, and all edges grouped by source, with the ids, handles and (when a value function is supplied) the function's value for that very element. Basic variants, range-limited variants, and variants taking an id or a handle agree with the full ones. Size, emptiness, repeated iteration and copies of a view agree with the sequence.",
  ["inputs","configurations"],
  "all graphs x representations x view variants x value functions x vertices and vertex sub-ranges",
  "Tests check fixed graphs per view variant; skipping runs of empty vertices and end-of-range handling depend on where the edgeless vertices are.",
  ["views/vertexlist.hpp","views/incidence.hpp","views/neighbors.hpp","views/edgelist.hpp"],
  [("edge list iterator skipping vertices without edges","views/edgelist.hpp"),("edge accessors","views/edge_accessor.hpp")])
p("V02","Incoming views and the transpose view equal the reversed graph",
  "On a graph with incoming edges, the incoming incidence and neighbor views of a vertex yield exactly the sources of the edges that end there. The transpose view behaves in every query (vertices, edges, endpoints, values, degrees, lookups, counts) as the graph with every edge reversed, and transposing again gives back the original's edges. Searches that follow incoming edges yield what the same search yields on the reversed graph.",
  ["inputs","configurations"],
  "all bidirectional graphs x vertices x view variants",
  "Tests compare a few fixed bidirectional graphs; the metamorphic relation to the reversed graph quantifies over all of them.",
  ["views/transpose.hpp","views/incidence.hpp","views/neighbors.hpp","views/edge_accessor.hpp"],
  [("direction swap in the transpose view","views/transpose.hpp"),("incoming edge accessor","views/edge_accessor.hpp")])
p("V03","Depth-first views visit what is reachable, once, in depth-first order",
  "A depth-first view from a seed yields exactly the vertices reachable from it (the edge form: exactly one tree edge into each of them but the seed), each once, in the preorder that exploring edges in storage order gives, with the value function applied to that element. Cancelling a branch omits exactly what is reachable only through the skipped subtree's exploration, and cancelling all ends the iteration there. Depth and visited count track the traversal, and seeds given as ids or handles agree.",
  ["inputs","histories"],
  "all graphs, seeds and cancellation scripts x view variants x representations",
  "Tests sample a few small graphs and one or two cancellation points; preorder and cancellation depend on graph shape and on where in the traversal the cancellation occurs.",
  ["views/dfs.hpp","views/search_base.hpp"],
  [("explicit stack and visited tracking","views/dfs.hpp"),("cancellation","views/search_base.hpp")])
p("V04","Breadth-first views visit what is reachable, once, in level order",
  "A breadth-first view from a seed yields exactly the vertices reachable from it (the edge form: exactly one tree edge into each of them but the seed), each once, in nondecreasing hop distance and in queue order for edges explored in storage order, with the value function applied to that element. Cancelling a branch stops exploration through that vertex only, and cancelling all ends the iteration there. Depth and visited count track the traversal, and seeds given as ids or handles agree.",
  ["inputs","histories"],
  "all graphs, seeds and cancellation scripts x view variants x representations",
  "Tests sample a few small graphs and one or two cancellation points.",
  ["views/bfs.hpp","views/search_base.hpp"],
  [("queue and visited tracking","views/bfs.hpp"),("cancellation","views/search_base.hpp")])
p("V05","Topological views order every vertex before its successors",
  "On an acyclic graph the topological views yield every vertex once (edge form: every edge once) with the source of each edge before its target, and in reverse for incoming edges. The checked variants succeed exactly on acyclic graphs and otherwise report a vertex that lies on a cycle. Sizes, counters, value functions and early cancellation agree with that sequence.",
  ["inputs"],
  "all directed graphs (acyclic and cyclic, with self-loops and parallel edges) x view variants x representations",
  "Tests use a handful of DAGs and two or three cyclic graphs.",
  ["views/topological_sort.hpp"],
  [("post-order with optional cycle detection","views/topological_sort.hpp")])
p("V06","Pipe syntax gives the same view as calling the view directly",
  "Every view written with the pipe syntax on a graph, with any arguments (vertex, value function), yields exactly the same sequence as the direct call with the same arguments. The result composes with standard range adaptors (filter, transform, take) as the underlying sequence does. The value function is kept alive by the view it was given to.",
  ["inputs","configurations"],
  "all graphs x all view adaptors and argument combinations",
  "Tests exercise each adaptor on one graph; argument forwarding errors can hide behind coincident values.",
  ["views/adaptors.hpp"],
  [("adaptor closures forwarding graph and arguments","views/adaptors.hpp")])

p("A01","Breadth-first search reports events in level order, each vertex once",
  "Breadth-first search from one or several distinct sources initializes exactly the sources, discovers each vertex reachable from them exactly once in nondecreasing hop distance from the nearest source, examines each of them once in discovery order, and examines each of their edges exactly once in storage order before finishing the vertex. Vertices not reachable from any source trigger no event; a source listed several times is discovered and examined once per listing, and nothing else changes. Visitor callbacks taking ids and callbacks taking handles see the same events.",
  ["inputs"],
  "all graphs x all source lists (repeated sources too) x visitor forms x representations",
  "Tests check event counts on a few graphs.",
  ["algorithm/breadth_first_search.hpp"],
  [("queue driven search with visitor dispatch","algorithm/breadth_first_search.hpp")])
p("A02","Depth-first search classifies every edge correctly",
  "Depth-first search from a source discovers and finishes each reachable vertex exactly once with properly nested intervals, visiting edges in storage order, and reports each examined edge exactly once as a tree, back, or forward-or-cross edge according to whether its target was undiscovered, open, or finished at that moment. Unreachable vertices trigger no discovery. Visitor callbacks taking ids and callbacks taking handles see the same events.",
  ["inputs"],
  "all graphs x sources x visitor forms x representations",
  "Tests check a few graphs' event counts; classification depends on the open/finished state at each edge.",
  ["algorithm/depth_first_search.hpp"],
  [("three-color explicit stack","algorithm/depth_first_search.hpp")])
p("A03","Dijkstra returns true shortest distances and a matching predecessor tree",
  "For nonnegative edge weights, Dijkstra's algorithm from one or several sources gives every reachable vertex the least total weight of any path from a source under the supplied combine and compare operations, leaves unreachable vertices at the initial infinity, and gives predecessors that trace a path of exactly that weight back to a source. Visitor events are consistent with those results (each reachable vertex discovered once, and every edge out of a reachable vertex examined). A source outside the graph, an undersized output, or a negative weight is rejected with an exception.",
  ["inputs","configurations"],
  "all graphs with nonnegative weights x source lists x weight types x weight functions x representations",
  "Tests compare fixed graphs with known answers; parallel edges, zero weights, ties, many sources and wide weight ranges are not sampled.",
  ["algorithm/dijkstra_shortest_paths.hpp","algorithm/traversal_common.hpp"],
  [("relaxation and priority queue","algorithm/dijkstra_shortest_paths.hpp"),("relaxation targets and initialisation","algorithm/traversal_common.hpp")])
p("A04","Bellman-Ford gives shortest paths or a real reachable negative cycle",
  "For any edge weights, Bellman-Ford from one or several sources either gives exact shortest distances and matching predecessors for every vertex reachable from them, leaving the others at infinity, and reports no negative cycle, or reports a negative cycle, which happens exactly when some cycle reachable from the sources has negative total weight. When one is reported together with predecessors, the cycle extraction helper terminates and yields the vertices of an actual negative cycle. A source outside the graph or an undersized output is rejected with an exception.",
  ["inputs"],
  "all graphs with weights of either sign x source lists x integer and floating weights x representations",
  "Tests use few graphs with one cycle each; unreachable parts, cycle position and integer infinities matter.",
  ["algorithm/bellman_ford_shortest_paths.hpp"],
  [("relaxation rounds and cycle detection","algorithm/bellman_ford_shortest_paths.hpp"),("cycle extraction","algorithm/bellman_ford_shortest_paths.hpp")])
p("A05","Topological sort succeeds exactly on acyclic graphs with a valid order",
  "Topological sort of a whole graph, or of the part reachable from one or several sources, succeeds exactly when that part has no cycle. On success it outputs every vertex of that part exactly once with the source of each edge before its target. Self-loops count as cycles.",
  ["inputs"],
  "all directed graphs x whole-graph, single-source and multi-source forms x source lists x representations",
  "Tests use a handful of DAGs and cycles.",
  ["algorithm/topological_sort.hpp"],
  [("depth-first post-order with color marks","algorithm/topological_sort.hpp")])
p("A06","Connected components label two vertices alike exactly when connected",
  "On a graph whose edges are stored in both directions, the connected-components algorithms give two vertices the same label exactly when a path joins them, and the returned count is the number of components with labels numbered from zero where the algorithm promises it. The sampling-based algorithm gives the same grouping for every sampling depth, and with a graph and its transpose it groups by weak connectivity. Compressing a forest of labels, in which no parent is larger than its child, makes every label the root of its tree.",
  ["inputs","configurations"],
  "all symmetric graphs (empty, edgeless, self-loops, parallel edges, large) x algorithms x sampling rounds x representations",
  "Tests compare small graphs; the sampling algorithm takes other paths depending on degree, component sizes and rounds.",
  ["algorithm/connected_components.hpp"],
  [("depth-first labelling","algorithm/connected_components.hpp"),("sampling with link and compress","algorithm/connected_components.hpp")])
p("A07","Strongly connected components are the mutual reachability classes",
  "On a directed graph, the strongly-connected-components algorithm, both from a graph with a separately supplied transpose and from a bidirectional graph alone, gives two vertices the same label exactly when each can reach the other. Every vertex gets a label from zero up to one less than the number of classes, and the labels follow a topological order of the classes (an edge never leads to a smaller label). The grouping does not depend on edge order or storage kind.",
  ["inputs"],
  "all directed graphs x both overloads x edge orders x representations",
  "Tests use a few graphs in which a wrong finishing order happens to give the right classes.",
  ["algorithm/connected_components.hpp"],
  [("two-pass search over finishing order","algorithm/connected_components.hpp")])
p("A08","Kruskal produces a minimum spanning forest",
  "From any list of weighted edges, both the copying and the in-place Kruskal algorithm output a subset of the edges that has no cycle, connects every pair of vertices the input connects, and is of least total weight (greatest when the order is reversed). The output is appended to the caller's container, the reported total weight matches it, the reported number of components is that of the forest on the vertices from 0 to the largest id in the list, and the copying form leaves its input unchanged.",
  ["inputs","configurations"],
  "all weighted edge lists (empty, single edge, self-loops, parallel edges, ties, disconnected) x comparison order x edge record and id types",
  "Tests use a few lists with known answers; ties, tiny inputs and disconnected inputs are hardly sampled.",
  ["algorithm/mst.hpp"],
  [("sorted edge scan with disjoint sets","algorithm/mst.hpp")])
p("A09","Prim produces a minimum spanning tree of the seed's component",
  "On an undirected (symmetric) weighted graph, Prim's algorithm from a seed gives predecessors that form a spanning tree, rooted at the seed, of exactly the seed's component, using edges of the graph. Each other tree vertex's reported weight is the weight of its tree edge, vertices outside the tree keep the caller's predecessor and weight, and the returned total is that of a minimum spanning tree (maximum when the order is reversed). A seed outside the graph or an undersized output is rejected with an exception.",
  ["inputs","configurations"],
  "all symmetric weighted graphs x seeds x comparison order x weight types x representations",
  "Tests use few small graphs, most with a unique light path structure; re-relaxing an in-tree vertex needs particular weights.",
  ["algorithm/mst.hpp"],
  [("priority-queue growth of the tree","algorithm/mst.hpp")])
p("A10","Articulation points are exactly the cut vertices",
  "On a graph whose edges are stored in both directions, the articulation-point algorithm outputs, each once, exactly the vertices whose removal leaves more connected components among the remaining vertices of their component. Parallel edges and self-loops do not change the answer. Disconnected and edgeless graphs are handled.",
  ["inputs"],
  "all symmetric graphs with parallel edges and self-loops x representations",
  "Tests use a few classic graphs.",
  ["algorithm/articulation_points.hpp"],
  [("iterative low-link search","algorithm/articulation_points.hpp")])
p("A11","Biconnected components partition the edges correctly",
  "On a graph whose edges are stored in both directions, each output component lists without repetition the vertices of one maximal biconnected subgraph: the components are exactly those given by grouping edges that lie on a common simple cycle, a bridge being a component of its two endpoints and a vertex without other neighbors a component of its own. Every vertex is in at least one component, and those in several are exactly the cut vertices. Parallel edges and self-loops do not change the grouping.",
  ["inputs"],
  "all symmetric graphs with parallel edges and self-loops x representations",
  "Tests use a few classic graphs and check counts.",
  ["algorithm/biconnected_components.hpp"],
  [("iterative low-link search with an edge stack","algorithm/biconnected_components.hpp")])
p("A12","Triangle count equals the number of vertex triples joined pairwise",
  "On a simple undirected graph with sorted neighbor lists, the triangle count equals the number of vertex triples that are pairwise adjacent. Self-loops contribute no triangle, relabelling the vertices does not change the count, and the graph is not changed.",
  ["inputs"],
  "all simple graphs with sorted adjacency x representations",
  "Tests count a few known graphs.",
  ["algorithm/tc.hpp"],
  [("merge intersection of sorted neighbor lists","algorithm/tc.hpp")])
p("A13","Jaccard coefficients equal the neighbor-set formula for every edge",
  "For every edge joining two distinct vertices, the algorithm reports exactly once, with those endpoints and that edge, the size of the intersection of the two endpoints' neighbor sets divided by the size of their union, where neighbor sets ignore self-loops and repeated edges. The value lies between 0 and 1 and does not depend on the edge's direction or on storage order. Self-loops are not reported.",
  ["inputs"],
  "all graphs, parallel edges and self-loops included x representations",
  "Tests check a few small graphs.",
  ["algorithm/jaccard.hpp"],
  [("neighbor set intersection","algorithm/jaccard.hpp")])
p("A14","The maximal independent set is independent, maximal and contains the seed",
  "On a graph whose edges are stored in both directions, the output set contains no two adjacent vertices, every vertex not in it is adjacent to a member or has a self-loop, and each vertex is output at most once. A valid seed vertex without a self-loop is always in the set, and the returned count is the number of vertices output. An empty graph gives an empty set.",
  ["inputs"],
  "all symmetric graphs with self-loops and parallel edges x seeds x representations",
  "Tests check a few families with fixed seeds.",
  ["algorithm/mis.hpp"],
  [("greedy selection with removal marks","algorithm/mis.hpp")])
p("A15","Label propagation only adopts majority labels and stops when stable",
  "Each round of label propagation visits every vertex once, in a random order, and gives it one of the labels most frequent among its labelled neighbors at that moment (chosen at random among equals), leaving a vertex without labelled neighbors as it is; so a vertex only ever holds an initial label of a vertex it can reach, and without a limit on the rounds the algorithm stops only when every vertex holds a label most frequent among its labelled neighbors. Limiting the rounds to zero changes nothing, and the same random engine state gives the same result.",
  ["inputs"],
  "all graphs, initial labellings (with an unlabelled marker), round limits and random seeds x representations",
  "Tests use small fixed graphs and a fixed engine.",
  ["algorithm/label_propagation.hpp"],
  [("majority vote with random tie-breaking","algorithm/label_propagation.hpp")])
p("A16","Exceptions and failed allocations pass through algorithms and views cleanly",
  "An exception thrown by a function the caller supplied (visitor, weight, value, comparison, combining function, output iterator, source range or random generator), or by a failed allocation, comes out of the algorithm or view as thrown; nothing leaks and the graph is unchanged. The visitor events before it are a prefix of those of an undisturbed run, and the same call repeated afterwards gives the full answer. A value function that throws at one element of a view does not disturb the iteration: the element can be read again and the elements after it follow.",
  ["inputs","faults"],
  "all graphs x algorithms, views and call forms x a failure at every allocation and every call of a supplied function",
  "Tests never let a supplied function throw in the middle of an algorithm, nor an allocation fail.",
  ["algorithm/dijkstra_shortest_paths.hpp","algorithm/breadth_first_search.hpp","algorithm/topological_sort.hpp","algorithm/mst.hpp","views/bfs.hpp","views/dfs.hpp"],
  [("working state of the searches","algorithm/dijkstra_shortest_paths.hpp"),("shared search state of the views","views/dfs.hpp")])
p("X01","Any number of threads can read one graph at once",
  "Queries, views and algorithms that take a graph as const write nothing in it and share no hidden state that changes. So any number of threads can run them on one graph at once, without a data race, and each gets the answers it would get alone.",
  ["inputs","schedules"],
  "all graphs x representations x any combination of queries, views and algorithms run at once by several threads",
  "Tests are single-threaded.",
  ["container/undirected_adjacency_list.hpp","adj_list/detail/graph_cpo.hpp","algorithm/breadth_first_search.hpp","views/edgelist.hpp"],
  [("const access to the stored graph","container/undirected_adjacency_list.hpp"),("working state local to each call","algorithm/breadth_first_search.hpp")])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
