From f55cb4c17848dfaf6a7dee08954934cb7aabf801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:41 +0000
Subject: [PATCH 01/56] fix: dynamic_graph::clear() terminated for vertex ids
 not constructible from 0

clear() pushed the literal 0 into the partition list. With std::string vertex
ids that is a null pointer construction, which throws inside a noexcept
function. Push a value-initialized id instead.
---
 include/graph/container/dynamic_graph.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/graph/container/dynamic_graph.hpp b/include/graph/container/dynamic_graph.hpp
index cccfd1e..5bdba94 100644
--- a/include/graph/container/dynamic_graph.hpp
+++ b/include/graph/container/dynamic_graph.hpp
@@ -1511,7 +1511,7 @@ public: // Operations
   void clear() noexcept {
     vertices_.clear();
     partition_.clear();
-    partition_.push_back(0);
+    partition_.push_back(VId{});
     edge_count_ = 0;
   }
 
-- 
2.43.0


From 1e4c131b10056cc233f8f1840b3e312e384d3d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:38 +0000
Subject: [PATCH 02/56] fix: source_id of an incoming edge named the target
 when vertices are kept in a map

For random-access and map in-edge containers the CPO looked for in_edges() on
the vertex storage itself. In map-based graphs that storage is a key/vertex
pair, so the lookup fell back to the queried vertex's own id.
---
 include/graph/detail/edge_cpo.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/graph/detail/edge_cpo.hpp b/include/graph/detail/edge_cpo.hpp
index 80ab59f..1d166b8 100644
--- a/include/graph/detail/edge_cpo.hpp
+++ b/include/graph/detail/edge_cpo.hpp
@@ -335,11 +335,12 @@ namespace _cpo_impls {
           return source_id(g, uv);
         } else if constexpr (_Choice<_G, _E>._Strategy == _St::_adj_list_descriptor) {
           if constexpr (_E::is_in_edge) {
-            // For in-edge descriptors: navigate the in_edges container if available.
+            // For in-edge descriptors: navigate the in_edges container if available (vd is a
+            // key/vertex pair when the vertices are kept in a map).
             // If the vertex data doesn't expose .in_edges(), fall back to the
             // no-arg source_id() (returns the owning / queried vertex ID).
             auto&& vd = uv.source().underlying_value(std::forward<G>(g));
-            if constexpr (requires { vd.in_edges(); }) {
+            if constexpr (requires { vd.in_edges(); } || requires { vd.second.in_edges(); }) {
               return uv.source_id(vd);
             } else {
               return uv.source_id();
-- 
2.43.0


From 002aa367db4e430b6ce9725013d5ff8b32714965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:28 +0000
Subject: [PATCH 03/56] fix: compressed_graph lost or invented vertices when
 loaded from empty ranges or from more vertices than its edges name

---
 include/graph/container/compressed_graph.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index a7fe21b..89b8799 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -636,21 +636,21 @@ public: // Operations
   //requires views::copyable_vertex<invoke_result_t<VProj, range_value_t<VRng>>, VId, VV>
   constexpr void load_vertices(const VRng& vrng, VProj vprojection = {}, size_type vertex_count = 0) {
     // Scan the vertex data to find the maximum vertex ID
-    vertex_id_type max_id = 0;
+    size_type id_count = 0; // max_id + 1, or 0 if there are no vertices
     for (auto&& vtx_data : vrng) {
       auto&& vtx = vprojection(vtx_data);
-      max_id     = max(max_id, static_cast<vertex_id_type>(vtx.id));
+      id_count   = max(id_count, static_cast<size_type>(static_cast<vertex_id_type>(vtx.id)) + 1);
     }
 
     // Determine required vertex count: max(provided hint, max_id + 1, existing size)
-    vertex_count = max({vertex_count, static_cast<size_type>(max_id + 1), size()});
+    vertex_count = max({vertex_count, id_count, size()});
 
     // If graph structure doesn't exist yet, create it based on vertex count
     if (row_index_.empty() && vertex_count > 0) {
       row_index_.resize(vertex_count + 1, vertex_type{0}); // All vertices have 0 edges initially
     } else if (vertex_count > size()) {
-      // Expand existing structure if needed
-      row_index_.resize(vertex_count + 1, vertex_type{0});
+      // Expand existing structure if needed; the added vertices have no edges
+      row_index_.resize(vertex_count + 1, vertex_type{static_cast<edge_index_type>(col_index_.size())});
     }
 
     row_values_base::load_row_values(vrng, vprojection, vertex_count);
@@ -704,7 +704,8 @@ public: // Operations
 
     // Nothing to do?
     if (begin(erng) == end(erng)) {
-      terminate_partitions();
+      if (vertex_count > 0)
+        row_index_.resize(vertex_count + 1, vertex_type{0});
       return;
     }
 
@@ -768,7 +769,8 @@ public: // Operations
 
     // Nothing to do?
     if (begin(erng) == end(erng)) {
-      terminate_partitions();
+      if (vertex_count > 0)
+        row_index_.resize(vertex_count + 1, vertex_type{0});
       return;
     }
 
-- 
2.43.0


From 04385db3996f23f6b6c2479962d9e4c541041843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:28 +0000
Subject: [PATCH 04/56] fix: last partition of a compressed_graph listed a
 vertex that does not exist

---
 include/graph/container/compressed_graph.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 89b8799..363ff0e 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -913,13 +913,13 @@ protected:
       }
 
       // Additional check: all partition start ids must be valid vertex ids
-      if (!partition_.empty() && partition_.back() > static_cast<partition_id_type>(row_index_.size())) {
-        throw graph_error(std::format("Invalid partition start id: {} exceeds number of vertices {}", partition_.back(),
-                                      row_index_.size()));
+      if (static_cast<size_type>(partition_.back()) > size()) {
+        throw graph_error(
+              std::format("Invalid partition start id: {} exceeds number of vertices {}", partition_.back(), size()));
       }
     }
 
-    partition_.push_back(static_cast<partition_id_type>(row_index_.size()));
+    partition_.push_back(static_cast<partition_id_type>(size()));
   }
 
 public: // Vertex range accessors
@@ -1149,7 +1149,9 @@ public: // Friend functions
 
     // Return range [partition_[pid], partition_[pid+1])
     const auto begin_vid = static_cast<std::size_t>(g.partition_[static_cast<std::size_t>(pid)]);
-    const auto end_vid   = static_cast<std::size_t>(g.partition_[static_cast<std::size_t>(pid + 1)]);
+    const auto end_vid   = static_cast<std::size_t>(pid) + 1 == num_parts
+                                 ? static_cast<std::size_t>(g.size()) // includes vertices loaded after construction
+                                 : static_cast<std::size_t>(g.partition_[static_cast<std::size_t>(pid + 1)]);
 
     return vertex_descriptor_view<vertex_iter_type>(begin_vid, end_vid);
   }
-- 
2.43.0


From 38ef085077fec3ee0be0aa792a7f54fdad853213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:28 +0000
Subject: [PATCH 05/56] fix: edge_value of a compressed_graph truncated the
 edge index to the vertex id type

---
 include/graph/container/compressed_graph.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 363ff0e..2d9af5a 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -1380,9 +1380,9 @@ public: // Friend functions
   requires std::derived_from<std::remove_cvref_t<G>, compressed_graph_base> && (!std::is_void_v<EV>)
   [[nodiscard]] friend constexpr decltype(auto) edge_value(G&& g, const E& uv) noexcept {
     if constexpr (std::is_const_v<std::remove_reference_t<G>>) {
-      return g.edge_value(static_cast<vertex_id_type>(uv.value()));
+      return g.edge_value(static_cast<edge_id_type>(uv.value()));
     } else {
-      return g.edge_value(static_cast<vertex_id_type>(uv.value()));
+      return g.edge_value(static_cast<edge_id_type>(uv.value()));
     }
   }
 
-- 
2.43.0


From 46ae46d6180aca81958b81a881e166c9a381dbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:27 +0000
Subject: [PATCH 06/56] fix: num_vertices(g,pid) of a partitioned
 compressed_graph counted the whole graph

---
 include/graph/container/compressed_graph.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 2d9af5a..688d93c 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -1441,6 +1441,19 @@ public: // Friend functions
     }
     return static_cast<partition_id_type>(g.partition_.size() - 1);
   }
+
+  /**
+   * @brief Get the number of vertices in a partition (ADL customization)
+   *
+   * @param g The graph
+   * @param pid The partition id
+   * @return Number of vertices listed by vertices(g, pid)
+  */
+  template <typename G, std::integral PId>
+  requires std::derived_from<std::remove_cvref_t<G>, compressed_graph_base>
+  [[nodiscard]] friend constexpr size_type num_vertices(const G& g, const PId& pid) noexcept {
+    return static_cast<size_type>(vertices(g, pid).size());
+  }
 };
 
 
-- 
2.43.0


From eb32368fee660d02f779b89f045a8f3ce8346c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:53 +0000
Subject: [PATCH 07/56] fix: compressed_graph could not load vertex values from
 a forward range without a size

---
 include/graph/container/compressed_graph.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 688d93c..1308001 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -187,7 +187,7 @@ public: // Operations
     if constexpr (sized_range<VRng>)
       vertex_count = max(vertex_count, std::ranges::size(vrng));
     else if (vertex_count == 0) // assume 0 means not provided and need to evaluate
-      vertex_count = max(vertex_count, std::ranges::distance(vrng));
+      vertex_count = max(vertex_count, static_cast<size_type>(std::ranges::distance(vrng)));
 
     // Don't shrink if already allocated - only grow if needed
     if (size() > 0)
@@ -216,7 +216,7 @@ public: // Operations
     if constexpr (sized_range<VRng>)
       vertex_count = max(vertex_count, std::ranges::size(vrng));
     else if (vertex_count == 0) // assume 0 means not provided and need to evaluate
-      vertex_count = max(vertex_count, std::ranges::distance(vrng));
+      vertex_count = max(vertex_count, static_cast<size_type>(std::ranges::distance(vrng)));
 
     // Don't shrink if already allocated - only grow if needed
     if (size() > 0)
-- 
2.43.0


From fa125cc5da2657c63ffe69f7c07a23076219d28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:36 +0000
Subject: [PATCH 08/56] fix: compressed_graph read a destroyed edge when
 loading from a range of temporaries

---
 include/graph/container/compressed_graph.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 1308001..fec17ee 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -887,7 +887,8 @@ protected:
       if (begin(erng) != end(erng)) {
         auto lastIt = end(erng);
         --lastIt;
-        auto&& e = eprojection(*lastIt); // copyable_edge
+        auto&& edge_data = *lastIt; // keeps a value returned by the iterator alive
+        auto&& e = eprojection(edge_data); // copyable_edge
         last_id  = static_cast<vertex_id_type>(max(e.source_id, e.target_id));
       }
     }
-- 
2.43.0


From bbb6c00d7bcdff18ecabff2480c8443665241c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:36 +0000
Subject: [PATCH 09/56] fix: find_vertex on a compressed_graph with a signed
 vertex id type was ill-formed (narrowing)

---
 include/graph/container/compressed_graph.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index fec17ee..8c904a3 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -1193,7 +1193,7 @@ public: // Friend functions
 
     // Construct iterator directly from the vertex ID (which is the storage_type)
     // Cast to vertex_id_type to avoid warnings when uid is a larger integral type (e.g., size_t)
-    return vertex_desc_iterator{static_cast<vertex_id_type>(uid)};
+    return vertex_desc_iterator{static_cast<std::size_t>(uid)};
   }
 
   /**
-- 
2.43.0


From 7cf572cec743fc32f53ab84e3808f00639cd62a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:13 +0000
Subject: [PATCH 10/56] fix: compressed_graph::load_vertices left vertex values
 unallocated when given no values

---
 include/graph/container/compressed_graph.hpp | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 8c904a3..3b3c198 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -180,10 +180,6 @@ public: // Operations
   template <forward_range VRng, class VProj = identity>
   //requires views::copyable_vertex<invoke_result_t<VProj, range_value_t<VRng>>, VId, VV>
   constexpr void load_row_values(const VRng& vrng, VProj projection, size_type vertex_count) {
-    // Handle empty range gracefully
-    if (std::ranges::empty(vrng))
-      return;
-
     if constexpr (sized_range<VRng>)
       vertex_count = max(vertex_count, std::ranges::size(vrng));
     else if (vertex_count == 0) // assume 0 means not provided and need to evaluate
@@ -209,10 +205,6 @@ public: // Operations
   template <forward_range VRng, class VProj = identity>
   //requires views::copyable_vertex<invoke_result_t<VProj, range_value_t<VRng>>, VId, VV>
   constexpr void load_row_values(VRng&& vrng, VProj projection, size_type vertex_count) {
-    // Handle empty range gracefully
-    if (std::ranges::empty(vrng))
-      return;
-
     if constexpr (sized_range<VRng>)
       vertex_count = max(vertex_count, std::ranges::size(vrng));
     else if (vertex_count == 0) // assume 0 means not provided and need to evaluate
-- 
2.43.0


From 694e377b8e817515cf4a5a33ab2bcd7ad3a43941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:17 +0000
Subject: [PATCH 11/56] fix: erasing a self-loop of an
 undirected_adjacency_list left a dangling link, and degree counted it twice

---
 .../detail/undirected_adjacency_list_impl.hpp        | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index bf4bc3f..fb95c27 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -387,9 +387,6 @@ void ual_vertex_edge_list<EV, VV, GV, VId, VContainer, Alloc>::unlink(
   if (size_ == 0) {
     assert(head_ == nullptr && tail_ == nullptr);
   }
-  // Note: For self-loops, size_ may be > 0 but the edge appears in the list twice
-  // (once as inward, once as outward), so assertions about head/tail equality
-  // don't hold during partial unlink. The invariant is restored after both unlinks.
 }
 
 template <typename EV,
@@ -588,7 +585,8 @@ template <typename EV,
           typename Alloc>
 void ual_edge<EV, VV, GV, VId, VContainer, Alloc>::link_front(vertex_type& u, vertex_type& v) noexcept {
   u.edges_.link_front(*this, *static_cast<vertex_edge_list_inward_link_type*>(this));
-  v.edges_.link_front(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
+  if (&u != &v) // a self-loop is in its vertex's list once, by its inward link
+    v.edges_.link_front(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
 }
 template <typename EV,
           typename VV,
@@ -598,7 +596,8 @@ template <typename EV,
           typename Alloc>
 void ual_edge<EV, VV, GV, VId, VContainer, Alloc>::link_back(vertex_type& u, vertex_type& v) noexcept {
   u.edges_.link_back(*this, *static_cast<vertex_edge_list_inward_link_type*>(this));
-  v.edges_.link_back(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
+  if (&u != &v) // a self-loop is in its vertex's list once, by its inward link
+    v.edges_.link_back(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
 }
 
 template <typename EV,
@@ -609,7 +608,8 @@ template <typename EV,
           typename Alloc>
 void ual_edge<EV, VV, GV, VId, VContainer, Alloc>::unlink(vertex_type& u, vertex_type& v) noexcept {
   u.edges_.unlink(*this, *static_cast<vertex_edge_list_inward_link_type*>(this));
-  v.edges_.unlink(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
+  if (&u != &v)
+    v.edges_.unlink(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
 }
 
 template <typename EV,
-- 
2.43.0


From c0ba95db2c479c843b14cb48b654a1c6ea4d87f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:17 +0000
Subject: [PATCH 12/56] fix: copying an undirected_adjacency_list lost edges
 created with source id > target id

---
 .../container/detail/undirected_adjacency_list_impl.hpp     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index fb95c27..380ef63 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -1103,15 +1103,15 @@ base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirec
   // Downcast to graph_type to access methods
   auto& g = static_cast<graph_type&>(*this);
 
-  // Copy edges - iterate through each vertex and copy edges where source_id <= target_id to avoid duplicates
+  // Copy edges - iterate through each vertex and copy the edges it is the source of to avoid duplicates
   for (vertex_id_type uid = 0; uid < static_cast<vertex_id_type>(other.vertices_.size()); ++uid) {
     const auto& src_vtx = other.vertices_[uid];
     for (auto uv = src_vtx.edges_begin(static_cast<const graph_type&>(other), uid);
          uv != src_vtx.edges_end(static_cast<const graph_type&>(other), uid); ++uv) {
       vertex_id_type src_id = uv->list_owner_id();
       vertex_id_type tgt_id = uv->list_target_id();
-      // Only copy each edge once: when uid matches source and source <= target
-      if (uid == src_id && src_id <= tgt_id) {
+      // Only copy each edge once: when uid matches source
+      if (uid == src_id) {
         if constexpr (std::is_void_v<EV>) {
           g.create_edge(src_id, tgt_id);
         } else {
-- 
2.43.0


From c65db26e4941924a578ce7c72128be8cbeff6bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:17 +0000
Subject: [PATCH 13/56] fix: moving an undirected_adjacency_list left the edge
 count behind, and move assignment leaked the edges it replaced

---
 .../container/undirected_adjacency_list.hpp   | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index 8ae18cc..ce46691 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -933,7 +933,13 @@ protected: // Constructors (protected - for derived class use only)
   base_undirected_adjacency_list(const base_undirected_adjacency_list& other);
 
   // Move constructor - moves vertices and edges (derived class handles graph_value_)
-  base_undirected_adjacency_list(base_undirected_adjacency_list&& other) noexcept = default;
+  base_undirected_adjacency_list(base_undirected_adjacency_list&& other) noexcept
+        : vertices_(std::move(other.vertices_))
+        , edges_size_(std::exchange(other.edges_size_, 0))
+        , vertex_alloc_(std::move(other.vertex_alloc_))
+        , edge_alloc_(std::move(other.edge_alloc_)) {
+    other.vertices_.clear();
+  }
 
   // Destructor
   ~base_undirected_adjacency_list();
@@ -942,7 +948,17 @@ protected: // Constructors (protected - for derived class use only)
   base_undirected_adjacency_list& operator=(const base_undirected_adjacency_list& other);
 
   // Move assignment operator
-  base_undirected_adjacency_list& operator=(base_undirected_adjacency_list&& other) noexcept = default;
+  base_undirected_adjacency_list& operator=(base_undirected_adjacency_list&& other) noexcept {
+    if (this != &other) {
+      clear(); // the edges held until now are owned by this graph
+      vertices_     = std::move(other.vertices_);
+      edges_size_   = std::exchange(other.edges_size_, 0);
+      vertex_alloc_ = std::move(other.vertex_alloc_);
+      edge_alloc_   = std::move(other.edge_alloc_);
+      other.vertices_.clear();
+    }
+    return *this;
+  }
 
   // Range constructors
   template <typename ERng, typename VRng, typename EProj, typename VProj>
-- 
2.43.0


From c496532dfd9c1e59d8bc5430c88c8c8846e39a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:17 +0000
Subject: [PATCH 14/56] fix: erase_edge(edge_iterator) of an
 undirected_adjacency_list freed an edge without unlinking it

---
 .../detail/undirected_adjacency_list_impl.hpp         | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index 380ef63..bde5fd3 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -1435,9 +1435,14 @@ template <typename EV,
           typename Alloc>
 typename base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::edge_iterator
 base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::erase_edge(edge_iterator pos) {
-  edge_type* uv = &*pos;
-  ++pos;
-  uv->~edge_type(); // unlinks from vertices
+  graph_type&         g    = static_cast<graph_type&>(*this);
+  edge_type*          uv   = &*pos;
+  const edge_iterator last = edge_iterator(g, this->vertices_.end());
+  do { // an edge is visited from both endpoints; the returned position must not refer to it
+    ++pos;
+  } while (pos != last && &*pos == uv);
+  uv->unlink(this->vertices_[uv->list_owner_id()], this->vertices_[uv->list_target_id()]);
+  uv->~edge_type();
   this->edge_alloc_.deallocate(uv, 1);
   --this->edges_size_;
   return pos;
-- 
2.43.0


From 501535c919688bd6b846b4df033163f74a8ece20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:17 +0000
Subject: [PATCH 15/56] fix: resize_vertices of an undirected_adjacency_list
 left edges of removed vertices dangling

---
 .../graph/container/detail/undirected_adjacency_list_impl.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index bde5fd3..f20ff34 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -1503,6 +1503,10 @@ template <typename EV,
           template <typename V, typename A> class VContainer,
           typename Alloc>
 void base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::resize_vertices(vertex_size_type n) {
+  // edges of the vertices being removed go with them
+  auto& derived = static_cast<graph_type&>(*this);
+  for (vertex_size_type i = n; i < this->vertices_.size(); ++i)
+    this->vertices_[i].clear_edges(derived);
   this->vertices_.resize(n);
 }
 
-- 
2.43.0


From 585a2cf19ce42cf3895e4658f0b1636ae932dfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:17 +0000
Subject: [PATCH 16/56] fix: undirected_adjacency_list asserted or leaked edges
 instead of just throwing on unordered edges

---
 .../detail/undirected_adjacency_list_impl.hpp       | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index f20ff34..0bf9e40 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -1143,9 +1143,15 @@ base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirec
 
   // Evaluate max vertex id needed
   vertex_id_type max_vtx_id = vrng.empty() ? vertex_id_type(0) : static_cast<vertex_id_type>(vrng.size() - 1);
+  vertex_id_type last_uid = vertex_id_type(); // edges must be ordered by source_id
+  bool           first    = true;
   for (auto& e : erng) {
     auto&& edge_data = eproj(e); // copyable_edge_t<VId, EV>
     max_vtx_id       = max(max_vtx_id, max(edge_data.source_id, edge_data.target_id));
+    if (!first && edge_data.source_id < last_uid)
+      throw_unordered_edges(); // before any edge has been created; the destructor doesn't run
+    last_uid = edge_data.source_id;
+    first    = false;
   }
 
   // add vertices
@@ -1163,19 +1169,13 @@ base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirec
 
   // add edges
   if (!ranges::empty(erng)) {
-    auto&&         first_edge_data = eproj(*ranges::begin(erng)); // first edge
-    vertex_id_type tid             = first_edge_data.source_id;   // last in-vertex id
     for (auto& edge_data : erng) {
       auto&& ed = eproj(edge_data); // copyable_edge_t<VId, EV>
-      if (ed.source_id < tid)
-        g.throw_unordered_edges();
-
       if constexpr (std::is_void_v<EV>) {
         g.create_edge(ed.source_id, ed.target_id);
       } else {
         g.create_edge(ed.source_id, ed.target_id, ed.value);
       }
-      tid = ed.source_id;
     }
   }
 }
@@ -1283,7 +1283,6 @@ template <typename EV,
           template <typename V, typename A> class VContainer,
           typename Alloc>
 void base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::throw_unordered_edges() const {
-  assert(false); // container must be sorted by edge_id.first
   throw std::invalid_argument("edges not ordered");
 }
 
-- 
2.43.0


From 1034b86076b3286213cd208642f7d1a27ce9bfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:17 +0000
Subject: [PATCH 17/56] fix: range constructors of undirected_adjacency_list
 without a graph value were declared but not defined

---
 .../detail/undirected_adjacency_list_impl.hpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index 0bf9e40..becb407 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -2013,6 +2013,25 @@ undirected_adjacency_list<EV, VV, void, VId, VContainer, Alloc>::undirected_adja
       const undirected_adjacency_list& other)
       : base_type(other) {}
 
+// Range constructors
+template <typename EV, typename VV, integral VId, template <typename V, typename A> class VContainer, typename Alloc>
+template <typename ERng, typename VRng, typename EProj, typename VProj>
+requires ranges::forward_range<ERng> && ranges::input_range<VRng> &&
+               std::regular_invocable<EProj, ranges::range_reference_t<ERng>> &&
+               std::regular_invocable<VProj, ranges::range_reference_t<VRng>>
+undirected_adjacency_list<EV, VV, void, VId, VContainer, Alloc>::undirected_adjacency_list(
+      const ERng& erng, const VRng& vrng, const EProj& eproj, const VProj& vproj, const Alloc& alloc)
+      : base_type(erng, vrng, eproj, vproj, alloc) {}
+
+template <typename EV, typename VV, integral VId, template <typename V, typename A> class VContainer, typename Alloc>
+template <typename ERng, typename EProj>
+requires ranges::forward_range<ERng> && std::regular_invocable<EProj, ranges::range_reference_t<ERng>>
+undirected_adjacency_list<EV, VV, void, VId, VContainer, Alloc>::undirected_adjacency_list(const ERng&  erng,
+                                                                                           const EProj& eproj,
+                                                                                           const Alloc& alloc)
+      : base_type(
+              erng, vector<int>(), eproj, [](auto) { return copyable_vertex_t<VId, VV>{VId()}; }, alloc) {}
+
 // Initializer list constructors
 template <typename EV, typename VV, integral VId, template <typename V, typename A> class VContainer, typename Alloc>
 undirected_adjacency_list<EV, VV, void, VId, VContainer, Alloc>::undirected_adjacency_list(
-- 
2.43.0


From 84204299966582142eb029ced31bca78bf468fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:17 +0000
Subject: [PATCH 18/56] fix: find_vertex on an undirected_adjacency_list
 returned a vertex for a negative id

---
 include/graph/container/undirected_adjacency_list.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index ce46691..5c32b58 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -1250,7 +1250,7 @@ constexpr auto find_vertex(undirected_adjacency_list<EV, VV, GV, VId, VContainer
   using view_iterator  = typename view_type::iterator;
   using storage_type   = typename view_iterator::value_type::storage_type;
 
-  if (id >= static_cast<VId>(g.vertices().size())) {
+  if (static_cast<size_t>(id) >= g.vertices().size()) {
     return view_iterator{static_cast<storage_type>(g.vertices().size())};
   }
   return view_iterator{static_cast<storage_type>(id)};
@@ -1270,7 +1270,7 @@ constexpr auto find_vertex(const undirected_adjacency_list<EV, VV, GV, VId, VCon
   using view_iterator  = typename view_type::iterator;
   using storage_type   = typename view_iterator::value_type::storage_type;
 
-  if (id >= static_cast<VId>(g.vertices().size())) {
+  if (static_cast<size_t>(id) >= g.vertices().size()) {
     return view_iterator{static_cast<storage_type>(g.vertices().size())};
   }
   return view_iterator{static_cast<storage_type>(id)};
-- 
2.43.0


From da758615ad28878ff54a44194e983e5178de3a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:11 +0000
Subject: [PATCH 19/56] fix: find_vertex on a plain sequence graph did not give
 end(vertices(g)) for an id beyond the last vertex

---
 include/graph/adj_list/detail/graph_cpo.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/graph/adj_list/detail/graph_cpo.hpp b/include/graph/adj_list/detail/graph_cpo.hpp
index d3ce56f..6c25cf4 100644
--- a/include/graph/adj_list/detail/graph_cpo.hpp
+++ b/include/graph/adj_list/detail/graph_cpo.hpp
@@ -557,7 +557,10 @@ namespace _cpo_impls {
           return view_iterator{map_iter};
         } else if constexpr (_Choice<_G, _VId>._Strategy == _St::_random_access) {
           using diff_type = std::iter_difference_t<decltype(std::ranges::begin(vertices(std::forward<G>(g))))>;
-          return std::ranges::next(std::ranges::begin(vertices(std::forward<G>(g))), static_cast<diff_type>(uid));
+          // an id that names no vertex gives the end of the range
+          const auto last = static_cast<diff_type>(std::ranges::size(vertices(std::forward<G>(g))));
+          const auto pos  = static_cast<diff_type>(uid);
+          return std::ranges::next(std::ranges::begin(vertices(std::forward<G>(g))), pos < 0 || pos > last ? last : pos);
         }
       }
     };
-- 
2.43.0


From 4ee153f7aa58fe101f424ec21a5cbf126dcc15c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:24 +0000
Subject: [PATCH 20/56] Revert "fix: find_vertex on a plain sequence graph did
 not give end(vertices(g)) for an id beyond the last vertex"

This reverts commit da758615ad28878ff54a44194e983e5178de3a6a.
---
 include/graph/adj_list/detail/graph_cpo.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/graph/adj_list/detail/graph_cpo.hpp b/include/graph/adj_list/detail/graph_cpo.hpp
index 6c25cf4..d3ce56f 100644
--- a/include/graph/adj_list/detail/graph_cpo.hpp
+++ b/include/graph/adj_list/detail/graph_cpo.hpp
@@ -557,10 +557,7 @@ namespace _cpo_impls {
           return view_iterator{map_iter};
         } else if constexpr (_Choice<_G, _VId>._Strategy == _St::_random_access) {
           using diff_type = std::iter_difference_t<decltype(std::ranges::begin(vertices(std::forward<G>(g))))>;
-          // an id that names no vertex gives the end of the range
-          const auto last = static_cast<diff_type>(std::ranges::size(vertices(std::forward<G>(g))));
-          const auto pos  = static_cast<diff_type>(uid);
-          return std::ranges::next(std::ranges::begin(vertices(std::forward<G>(g))), pos < 0 || pos > last ? last : pos);
+          return std::ranges::next(std::ranges::begin(vertices(std::forward<G>(g))), static_cast<diff_type>(uid));
         }
       }
     };
-- 
2.43.0


From 2e047937f1259d594dc7ca02335a9cd94e75c5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:29 +0000
Subject: [PATCH 21/56] fix: source(g,uv) of an incoming edge returned the
 owning (target) vertex

---
 include/graph/adj_list/detail/graph_cpo.hpp | 7 +++++--
 include/graph/views/edge_accessor.hpp       | 2 --
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/graph/adj_list/detail/graph_cpo.hpp b/include/graph/adj_list/detail/graph_cpo.hpp
index d3ce56f..1f9161b 100644
--- a/include/graph/adj_list/detail/graph_cpo.hpp
+++ b/include/graph/adj_list/detail/graph_cpo.hpp
@@ -3185,9 +3185,11 @@ namespace _cpo_impls {
       { source(g, uv) };
     };
 
-    // Check if edge descriptor has source() member
+    // Check if edge descriptor has source() member that is the source of the edge. An in-edge descriptor
+    // stores the vertex that owns it, which is the target of the edge, so its source has to be looked up.
     template <typename E>
-    concept _has_descriptor = is_edge_descriptor_v<std::remove_cvref_t<E>> && requires(const E& uv) {
+    concept _has_descriptor = is_edge_descriptor_v<std::remove_cvref_t<E>> &&
+                              !is_in_edge_descriptor_v<std::remove_cvref_t<E>> && requires(const E& uv) {
       { uv.source() };
     };
 
@@ -3245,6 +3247,7 @@ namespace _cpo_impls {
              *    - May return vertex_descriptor or vertex_iterator (auto-converted)
              * 3. uv.source() - Edge descriptor's source() member (medium priority)
              *    - Returns the stored source vertex descriptor directly
+             *    - Not for in-edge descriptors, which store the target (tier 4 is used)
              * 4. *find_vertex(g, source_id(g, uv)) - Default (lowest priority)
              *    - Uses source_id to get ID, then find_vertex to locate vertex
              * 
diff --git a/include/graph/views/edge_accessor.hpp b/include/graph/views/edge_accessor.hpp
index 25e1524..ef41807 100644
--- a/include/graph/views/edge_accessor.hpp
+++ b/include/graph/views/edge_accessor.hpp
@@ -122,8 +122,6 @@ struct in_edge_accessor {
   }
 
   /// Return the neighbor (source) vertex descriptor from incoming edge @c e.
-  /// Uses source_id + find_vertex because the source() CPO on in-edge
-  /// descriptors returns the owning vertex (target), not the actual source.
   template <adj_list::bidirectional_adjacency_list G>
   [[nodiscard]] constexpr auto neighbor(G& g, adj_list::in_edge_t<G> e) const {
     return *adj_list::find_vertex(g, adj_list::source_id(g, e));
-- 
2.43.0


From 5de9644d3fee5ed88fdb458b3ea1e58d429876fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:29 +0000
Subject: [PATCH 22/56] fix: vertices(g) rejected graphs kept in a plain
 std::unordered_map

---
 include/graph/adj_list/descriptor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/graph/adj_list/descriptor.hpp b/include/graph/adj_list/descriptor.hpp
index 2d1bac6..91bfabc 100644
--- a/include/graph/adj_list/descriptor.hpp
+++ b/include/graph/adj_list/descriptor.hpp
@@ -117,7 +117,7 @@ concept random_access_vertex_pattern = std::random_access_iterator<Iter>;
  * Example: std::map<int, VertexData> where inner_value returns VertexData& (.second)
  */
 template <typename Iter>
-concept pair_value_vertex_pattern = std::bidirectional_iterator<Iter> && !std::random_access_iterator<Iter> &&
+concept pair_value_vertex_pattern = std::forward_iterator<Iter> && !std::random_access_iterator<Iter> &&
                                     pair_like_value<typename std::iterator_traits<Iter>::value_type>;
 
 /**
-- 
2.43.0


From 08cccd69c53d453a3adcc836ac90d09d599aac1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:29 +0000
Subject: [PATCH 23/56] fix: compressed_graph calls taking vertex ids were
 ill-formed

---
 include/graph/container/compressed_graph.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 3b3c198..d352e75 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -1219,7 +1219,7 @@ public: // Friend functions
    * @note This is a lightweight view with minimal overhead
    * @note Returns empty view if vertex descriptor is out of bounds
   */
-  template <typename G, typename VertexDesc>
+  template <typename G, vertex_descriptor_type VertexDesc>
   requires std::derived_from<std::remove_cvref_t<G>, compressed_graph_base>
   [[nodiscard]] friend constexpr auto edges(G&& g, VertexDesc u) noexcept {
     using edge_iter_type =
@@ -1303,7 +1303,7 @@ public: // Friend functions
    * @note Complexity: O(1) - direct indexed access
    * @note This is the ADL customization point for the num_edges(g, u) CPO
   */
-  template <typename G, typename U>
+  template <typename G, vertex_descriptor_type U>
   requires std::derived_from<std::remove_cvref_t<G>, compressed_graph_base>
   [[nodiscard]] friend constexpr auto num_edges(const G& g, const U& u) noexcept {
     auto vid = static_cast<vertex_id_type>(u.vertex_id());
@@ -1345,7 +1345,7 @@ public: // Friend functions
    * @note This is the ADL customization point for the vertex_value(g, u) CPO
    * @note Only available when VV is not void
   */
-  template <typename G, typename U>
+  template <typename G, vertex_descriptor_type U>
   requires std::derived_from<std::remove_cvref_t<G>, compressed_graph_base> && (!std::is_void_v<VV>)
   [[nodiscard]] friend constexpr decltype(auto) vertex_value(G&& g, const U& u) noexcept {
     if constexpr (std::is_const_v<std::remove_reference_t<G>>) {
@@ -1393,7 +1393,7 @@ public: // Friend functions
    * @note For single-partition graphs, returns 0
    * @note This is the ADL customization point for the partition_id(g, u) CPO
   */
-  template <typename G, typename VertexDesc>
+  template <typename G, vertex_descriptor_type VertexDesc>
   requires std::derived_from<std::remove_cvref_t<G>, compressed_graph_base>
   [[nodiscard]] friend constexpr auto partition_id(G&& g, const VertexDesc& u) noexcept -> partition_id_type {
     const auto vid = u.vertex_id();
-- 
2.43.0


From a9920d5551f8077a8dcb47f34d40f1070be8ee75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:41 +0000
Subject: [PATCH 24/56] fix: edgelist(g).size() disagreed with the edges listed

num_edges(g) counts an undirected edge once, and counts repeated edges that set or map
edge containers drop; the view lists other numbers of edges, so it is not sized there.
---
 include/graph/container/dynamic_graph.hpp             |  3 +++
 include/graph/container/undirected_adjacency_list.hpp |  3 +++
 include/graph/views/edgelist.hpp                      | 10 ++++++++--
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/dynamic_graph.hpp b/include/graph/container/dynamic_graph.hpp
index 5bdba94..960ef74 100644
--- a/include/graph/container/dynamic_graph.hpp
+++ b/include/graph/container/dynamic_graph.hpp
@@ -909,6 +909,9 @@ public: // types
   using edge_allocator_type = typename edges_type::allocator_type;
   using edge_type           = dynamic_out_edge<EV, VV, GV, VId, Bidirectional, Traits>;
 
+  // num_edges(g) counts the edges supplied; set and map edge containers may list fewer.
+  static constexpr bool num_edges_counts_listed_edges = !has_key_type<edges_type>;
+
   // Detection-idiom derived aliases (Phase 1 — dead code until Phase 2).
   // For standard traits that don't define in_edge_type/in_edges_type, these fall back
   // to edge_type and edges_type respectively, keeping runtime behavior unchanged.
diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index 5c32b58..c68ee3c 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -789,6 +789,9 @@ public: // Type Aliases
   using edge_size_type       = typename edge_type::edge_size_type;
   using edge_difference_type = typename edge_type::edge_difference_type;
 
+  // num_edges(g) counts each edge once; it is listed by both of its vertices.
+  static constexpr bool num_edges_counts_listed_edges = false;
+
   using vertex_edge_iterator        = typename vertex_type::vertex_edge_iterator;
   using const_vertex_edge_iterator  = typename vertex_type::const_vertex_edge_iterator;
   using vertex_edge_range           = typename vertex_type::vertex_edge_range;
diff --git a/include/graph/views/edgelist.hpp b/include/graph/views/edgelist.hpp
index e66f370..f55b8fb 100644
--- a/include/graph/views/edgelist.hpp
+++ b/include/graph/views/edgelist.hpp
@@ -136,12 +136,18 @@ namespace edgelist_detail {
     { num_edges(g) } -> std::integral;
   };
 
+  /// @brief Detect a graph whose num_edges(g) is not the number of edges listed by its vertices: an undirected
+  /// graph lists each edge at both endpoints, and set or map edge containers drop repeated edges.
+  template <class G>
+  concept _num_edges_differs_from_listing = requires { requires !G::num_edges_counts_listed_edges; };
+
   /// @brief Detect if a graph type supports O(1) total edge count.
-  /// True when the graph provides g.num_edges() member or ADL num_edges(g).
+  /// True when the graph provides g.num_edges() member or ADL num_edges(g), and that is the number of edges listed.
   /// False for the default CPO fallback (which iterates all vertices, O(V)).
   /// When true, edgelist_view conditionally provides size().
   template <class G>
-  concept has_const_time_num_edges = _has_num_edges_member<G> || _has_num_edges_adl<G>;
+  concept has_const_time_num_edges =
+        (_has_num_edges_member<G> || _has_num_edges_adl<G>) && !_num_edges_differs_from_listing<G>;
 } // namespace edgelist_detail
 
 // Forward declarations
-- 
2.43.0


From e67a49b99e37b6ac5805ca76f80b871667d59af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:00 +0000
Subject: [PATCH 25/56] fix: edge_list::edge_descriptor could not be ordered
 when its value's ordering differs from its ids'

operator<=> deduced conflicting return types, e.g. for int ids and double values.
---
 .../graph/edge_list/edge_list_descriptor.hpp  | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/graph/edge_list/edge_list_descriptor.hpp b/include/graph/edge_list/edge_list_descriptor.hpp
index 0fe6729..11b6495 100644
--- a/include/graph/edge_list/edge_list_descriptor.hpp
+++ b/include/graph/edge_list/edge_list_descriptor.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <compare>
 #include <type_traits>
 #include <concepts>
 #include <functional>
@@ -71,14 +72,18 @@ public:
   }
 
   constexpr auto operator<=>(const edge_descriptor& other) const noexcept {
-    if (auto cmp = source_id_ <=> other.source_id_; cmp != 0)
-      return cmp;
-    if (auto cmp = target_id_ <=> other.target_id_; cmp != 0)
-      return cmp;
-    if constexpr (!std::is_void_v<EV>) {
-      return value_.get() <=> other.value_.get();
+    using id_ordering = std::compare_three_way_result_t<VId>;
+    if constexpr (std::is_void_v<EV>) {
+      if (auto cmp = source_id_ <=> other.source_id_; cmp != 0)
+        return cmp;
+      return id_ordering{target_id_ <=> other.target_id_};
     } else {
-      return std::strong_ordering::equal;
+      using ordering = std::common_comparison_category_t<id_ordering, std::compare_three_way_result_t<EV>>;
+      if (auto cmp = source_id_ <=> other.source_id_; cmp != 0)
+        return ordering{cmp};
+      if (auto cmp = target_id_ <=> other.target_id_; cmp != 0)
+        return ordering{cmp};
+      return ordering{value_.get() <=> other.value_.get()};
     }
   }
 
-- 
2.43.0


From e15eb9fdd72b8e59da4c6a65050ccb940360bdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:38 +0000
Subject: [PATCH 26/56] fix: views::edgelist over a flat edge list in a
 std::list, std::forward_list or transform view did not compile

vertices(g) claimed such ranges as graphs and then failed hard while the overloads of
edgelist were tested; a record produced as a temporary could not be bound.
---
 include/graph/adj_list/detail/graph_cpo.hpp  |  4 +++-
 include/graph/adj_list/vertex_descriptor.hpp | 13 +++++++++++--
 include/graph/views/edgelist.hpp             |  4 ++--
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/graph/adj_list/detail/graph_cpo.hpp b/include/graph/adj_list/detail/graph_cpo.hpp
index 1f9161b..646a249 100644
--- a/include/graph/adj_list/detail/graph_cpo.hpp
+++ b/include/graph/adj_list/detail/graph_cpo.hpp
@@ -54,7 +54,9 @@ namespace _cpo_impls {
     template <typename G>
     concept _has_inner_value_pattern = std::ranges::forward_range<G> && requires {
       typename std::ranges::iterator_t<G>;
-    } && has_inner_value_pattern<std::ranges::iterator_t<G>>;
+    } && has_inner_value_pattern<std::ranges::iterator_t<G>> && requires(G& g) {
+      vertex_descriptor_view(g); // excludes e.g. flat edge lists kept in a std::list
+    };
 
     template <typename G>
     [[nodiscard]] consteval _Choice_t<_St> _Choose() noexcept {
diff --git a/include/graph/adj_list/vertex_descriptor.hpp b/include/graph/adj_list/vertex_descriptor.hpp
index b97568d..b908fbb 100644
--- a/include/graph/adj_list/vertex_descriptor.hpp
+++ b/include/graph/adj_list/vertex_descriptor.hpp
@@ -9,6 +9,7 @@
 #include <compare>
 #include <functional>
 #include <ranges>
+#include <tuple>
 
 namespace graph::adj_list {
 
@@ -112,7 +113,11 @@ public:
       if constexpr (pair_like_value<vt>) {
         // For map, bind the pair first, then return .second
         auto& element = *storage_;
-        return (element.second);
+        if constexpr (has_first_second<vt>) {
+          return (element.second);
+        } else {
+          return (std::get<1>(element)); // e.g. std::tuple
+        }
       } else {
         // For non-pair-like, return the whole value
         return (*storage_);
@@ -135,7 +140,11 @@ public:
     } else {
       if constexpr (pair_like_value<vt>) {
         const auto& element = *storage_;
-        return (element.second);
+        if constexpr (has_first_second<vt>) {
+          return (element.second);
+        } else {
+          return (std::get<1>(element)); // e.g. std::tuple
+        }
       } else {
         return (*storage_);
       }
diff --git a/include/graph/views/edgelist.hpp b/include/graph/views/edgelist.hpp
index f55b8fb..31e89a7 100644
--- a/include/graph/views/edgelist.hpp
+++ b/include/graph/views/edgelist.hpp
@@ -854,7 +854,7 @@ public:
     constexpr iterator(EL* el, base_iterator it) noexcept : el_(el), current_(it) {}
 
     [[nodiscard]] constexpr value_type operator*() const {
-      auto& edge = *current_;
+      auto&& edge = *current_;
       return value_type{graph::source_id(*el_, edge), graph::target_id(*el_, edge), edge};
     }
 
@@ -939,7 +939,7 @@ public:
     constexpr iterator(EL* el, base_iterator it, EVF* evf) noexcept : el_(el), current_(it), evf_(evf) {}
 
     [[nodiscard]] constexpr value_type operator*() const {
-      auto& edge = *current_;
+      auto&& edge = *current_;
       return value_type{graph::source_id(*el_, edge), graph::target_id(*el_, edge), edge,
                         std::invoke(*evf_, *el_, edge)};
     }
-- 
2.43.0


From b4d28c60e8ad1bb7a8280e0dca657acf88bb47d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:21 +0000
Subject: [PATCH 27/56] fix: transpose view's num_edges(tv,v) counted the
 untransposed edges; vertex_value and graph_value were not forwarded

---
 include/graph/views/transpose.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/graph/views/transpose.hpp b/include/graph/views/transpose.hpp
index 67f7031..428d90b 100644
--- a/include/graph/views/transpose.hpp
+++ b/include/graph/views/transpose.hpp
@@ -107,7 +107,7 @@ public:
 
   template <typename V>
   friend constexpr auto has_edges(const transpose_view& tv, const V& v) {
-    return adj_list::has_edges(*tv.g_, v);
+    return adj_list::in_degree(*tv.g_, v) != 0;
   }
 
   // ===========================================================================
@@ -188,6 +188,20 @@ public:
     return adj_list::edge_value(*tv.g_, e);
   }
 
+  /// vertex_value — forwarded unchanged
+  template <typename V>
+  requires requires(G& g, const V& v) { adj_list::vertex_value(g, v); }
+  friend constexpr decltype(auto) vertex_value(const transpose_view& tv, const V& v) {
+    return adj_list::vertex_value(*tv.g_, v);
+  }
+
+  /// graph_value — forwarded unchanged
+  template <typename TV>
+  requires std::same_as<TV, transpose_view> && requires(G& g) { adj_list::graph_value(g); }
+  friend constexpr decltype(auto) graph_value(const TV& tv) {
+    return adj_list::graph_value(*tv.g_);
+  }
+
   // ===========================================================================
   // Degree CPO friends — swapped
   // ===========================================================================
@@ -210,7 +224,7 @@ public:
 
   template <typename V>
   friend constexpr auto num_edges(const transpose_view& tv, const V& v) {
-    return adj_list::num_edges(*tv.g_, v);
+    return adj_list::in_degree(*tv.g_, v);
   }
 
   friend constexpr auto num_edges(const transpose_view& tv) { return adj_list::num_edges(*tv.g_); }
-- 
2.43.0


From 5ad907a9be729e549706c95e39811c748e333ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:46 +0000
Subject: [PATCH 28/56] fix: edges_bfs forgot a cancelled branch when another
 was cancelled before it was reached

---
 include/graph/views/bfs.hpp | 43 +++++++++++--------------------------
 1 file changed, 12 insertions(+), 31 deletions(-)

diff --git a/include/graph/views/bfs.hpp b/include/graph/views/bfs.hpp
index e17e109..c076ff3 100644
--- a/include/graph/views/bfs.hpp
+++ b/include/graph/views/bfs.hpp
@@ -217,7 +217,6 @@ namespace bfs_detail {
     cancel_search                                               cancel_    = cancel_search::continue_search;
     std::size_t                                                 max_depth_ = 0;
     std::size_t                                                 count_     = 0;
-    std::optional<vertex_id_type> skip_vertex_id_; // Vertex to skip when processing (for cancel_branch)
 
     bfs_edge_state(G& g, vertex_type seed_vertex, std::size_t num_vertices, Alloc alloc = {})
           : queue_(std::deque<entry_type, queue_alloc>(alloc)), visited_(num_vertices, alloc) {
@@ -768,24 +767,17 @@ public:
         return;
       }
 
-      // Handle cancel_branch: mark the target of last edge to be skipped
+      // Handle cancel_branch: the target of the last edge is the last one queued; leave it no edges to explore
       if (state_->cancel_ == cancel_search::cancel_branch) {
-        state_->skip_vertex_id_ = current_target_id_;
-        state_->cancel_         = cancel_search::continue_search;
+        auto& last        = state_->queue_.back();
+        last.edge_current = last.edge_end;
+        state_->cancel_   = cancel_search::continue_search;
       }
 
       // Find next tree edge using BFS
       while (!state_->queue_.empty()) {
         auto& current = state_->queue_.front();
 
-        // Check if we should skip this vertex (due to cancel_branch)
-        auto current_vid = adj_list::vertex_id(*g_, current.vertex);
-        if (state_->skip_vertex_id_ && *state_->skip_vertex_id_ == current_vid) {
-          state_->skip_vertex_id_.reset();
-          state_->queue_.pop();
-          continue;
-        }
-
         // Process edges from current vertex
         while (current.edge_current != current.edge_end) {
           auto edge = *current.edge_current;
@@ -809,9 +801,8 @@ public:
             ++state_->count_;
 
             // Store and return this edge
-            current_edge_      = edge;
-            current_target_id_ = target_vid;
-            has_edge_          = true;
+            current_edge_ = edge;
+            has_edge_     = true;
             return;
           }
         }
@@ -824,7 +815,6 @@ public:
     G*                          g_ = nullptr;
     std::shared_ptr<state_type> state_;
     edge_type                   current_edge_{};
-    vertex_id_type              current_target_id_{}; // Target vertex ID of current edge
     bool                        has_edge_ = false;
   };
 
@@ -955,24 +945,17 @@ public:
         return;
       }
 
-      // Handle cancel_branch: mark the target of last edge to be skipped
+      // Handle cancel_branch: the target of the last edge is the last one queued; leave it no edges to explore
       if (state_->cancel_ == cancel_search::cancel_branch) {
-        state_->skip_vertex_id_ = current_target_id_;
-        state_->cancel_         = cancel_search::continue_search;
+        auto& last        = state_->queue_.back();
+        last.edge_current = last.edge_end;
+        state_->cancel_   = cancel_search::continue_search;
       }
 
       // Find next tree edge using BFS
       while (!state_->queue_.empty()) {
         auto& current = state_->queue_.front();
 
-        // Check if we should skip this vertex (due to cancel_branch)
-        auto current_vid = adj_list::vertex_id(*g_, current.vertex);
-        if (state_->skip_vertex_id_ && *state_->skip_vertex_id_ == current_vid) {
-          state_->skip_vertex_id_.reset();
-          state_->queue_.pop();
-          continue;
-        }
-
         // Process edges from current vertex
         while (current.edge_current != current.edge_end) {
           auto edge = *current.edge_current;
@@ -996,9 +979,8 @@ public:
             ++state_->count_;
 
             // Store and return this edge
-            current_edge_      = edge;
-            current_target_id_ = target_vid;
-            has_edge_          = true;
+            current_edge_ = edge;
+            has_edge_     = true;
             return;
           }
         }
@@ -1012,7 +994,6 @@ public:
     std::shared_ptr<state_type> state_;
     EVF*                        evf_ = nullptr;
     edge_type                   current_edge_{};
-    vertex_id_type              current_target_id_{}; // Target vertex ID of current edge
     bool                        has_edge_ = false;
   };
 
-- 
2.43.0


From fb814b48638c7ed7dec56b34486c2fa5a214a118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:49 +0000
Subject: [PATCH 29/56] fix: incoming views and searches of an undirected graph
 gave each vertex itself as its neighbor

---
 include/graph/views/edge_accessor.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/graph/views/edge_accessor.hpp b/include/graph/views/edge_accessor.hpp
index ef41807..b593542 100644
--- a/include/graph/views/edge_accessor.hpp
+++ b/include/graph/views/edge_accessor.hpp
@@ -116,15 +116,22 @@ struct in_edge_accessor {
   }
 
   /// Return the neighbor (source) vertex id from incoming edge @c e.
+  /// An undirected graph reports the vertex whose edges are listed as the source of its
+  /// incoming edges too; the neighbor is then the other end.
   template <adj_list::bidirectional_adjacency_list G>
   [[nodiscard]] constexpr auto neighbor_id(G& g, adj_list::in_edge_t<G> e) const {
-    return adj_list::source_id(g, e);
+    using id_type = adj_list::vertex_id_t<G>;
+    id_type sid   = static_cast<id_type>(adj_list::source_id(g, e));
+    if (sid == static_cast<id_type>(adj_list::vertex_id(g, e.source()))) {
+      return static_cast<id_type>(adj_list::target_id(g, e));
+    }
+    return sid;
   }
 
   /// Return the neighbor (source) vertex descriptor from incoming edge @c e.
   template <adj_list::bidirectional_adjacency_list G>
   [[nodiscard]] constexpr auto neighbor(G& g, adj_list::in_edge_t<G> e) const {
-    return *adj_list::find_vertex(g, adj_list::source_id(g, e));
+    return *adj_list::find_vertex(g, neighbor_id(g, e));
   }
 };
 
-- 
2.43.0


From 07b2da911d0afff59d29e4f96ffd079a0171780a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:33 +0000
Subject: [PATCH 30/56] fix: shortest paths on graphs with as many vertices as
 their id type has values

N was num_vertices(g) converted to the vertex id type, so it was 0 for 256
vertices with one-byte ids: every source was rejected and Bellman-Ford made
no pass.
---
 .../graph/algorithm/bellman_ford_shortest_paths.hpp |  7 ++++---
 include/graph/algorithm/dijkstra_shortest_paths.hpp | 13 +++++++------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/graph/algorithm/bellman_ford_shortest_paths.hpp b/include/graph/algorithm/bellman_ford_shortest_paths.hpp
index d6a6ecc..ed4f71a 100644
--- a/include/graph/algorithm/bellman_ford_shortest_paths.hpp
+++ b/include/graph/algorithm/bellman_ford_shortest_paths.hpp
@@ -220,11 +220,12 @@ requires convertible_to<range_value_t<Sources>, vertex_id_t<G>> &&      //
   constexpr auto zero     = shortest_path_zero<DistanceValue>();
   constexpr auto infinite = shortest_path_infinite_distance<DistanceValue>();
 
-  const id_type N = static_cast<id_type>(num_vertices(g));
+  // Not id_type: the number of vertices may be one more than the largest id it can hold.
+  const size_t N = static_cast<size_t>(num_vertices(g));
 
   // Seed the queue with the initial vertice(s)
   for (auto&& source : sources) {
-    if (source >= N || source < 0) {
+    if (source < 0 || static_cast<size_t>(source) >= N) {
       throw std::out_of_range(
             std::format("bellman_ford_shortest_paths: source vertex id '{}' is out of range", source));
     }
@@ -238,7 +239,7 @@ requires convertible_to<range_value_t<Sources>, vertex_id_t<G>> &&      //
 
   // Evaluate the shortest paths
   bool at_least_one_edge_relaxed = false;
-  for (id_type k = 0; k < N; ++k) {
+  for (size_t k = 0; k < N; ++k) {
     at_least_one_edge_relaxed = false;
     for (auto&& [uid, vid, uv, w] : views::edgelist(g, weight)) {
       if constexpr (has_on_examine_edge<G, Visitor>) {
diff --git a/include/graph/algorithm/dijkstra_shortest_paths.hpp b/include/graph/algorithm/dijkstra_shortest_paths.hpp
index ede2b58..ca7fa38 100644
--- a/include/graph/algorithm/dijkstra_shortest_paths.hpp
+++ b/include/graph/algorithm/dijkstra_shortest_paths.hpp
@@ -186,7 +186,8 @@ constexpr void dijkstra_shortest_paths(
   constexpr auto zero     = shortest_path_zero<distance_type>();
   constexpr auto infinite = shortest_path_infinite_distance<distance_type>();
 
-  const id_type N = static_cast<id_type>(num_vertices(g));
+  // Not id_type: the number of vertices may be one more than the largest id it can hold.
+  const size_t N = static_cast<size_t>(num_vertices(g));
 
   auto qcompare = [&distances](id_type a, id_type b) {
     return distances[static_cast<size_t>(a)] > distances[static_cast<size_t>(b)];
@@ -196,18 +197,18 @@ constexpr void dijkstra_shortest_paths(
 
   // (The optimizer removes this loop if on_initialize_vertex() is empty.)
   if constexpr (has_on_initialize_vertex<G, Visitor>) {
-    for (id_type uid = 0; uid < N; ++uid) {
-      visitor.on_initialize_vertex(g, *find_vertex(g, uid));
+    for (size_t i = 0; i < N; ++i) {
+      visitor.on_initialize_vertex(g, *find_vertex(g, static_cast<id_type>(i)));
     }
   } else if constexpr (has_on_initialize_vertex_id<G, Visitor>) {
-    for (id_type uid = 0; uid < N; ++uid) {
-      visitor.on_initialize_vertex(g, uid);
+    for (size_t i = 0; i < N; ++i) {
+      visitor.on_initialize_vertex(g, static_cast<id_type>(i));
     }
   }
 
   // Seed the queue with the initial vertice(s)
   for (auto&& source : sources) {
-    if (source >= N || source < 0) {
+    if (source < 0 || static_cast<size_t>(source) >= N) {
       throw std::out_of_range(std::format("dijkstra_shortest_paths: source vertex id '{}' is out of range", source));
     }
     queue.push(source);
-- 
2.43.0


From 663bcc4bb91c1bc047551aa6f75c7cd4763c9972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:33 +0000
Subject: [PATCH 31/56] fix: dijkstra_shortest_paths rejects negative weights
 from every weight function

The check was skipped when the weight function returns a reference
(is_signed_v is false for references), leading to wrong results or an endless
loop, and compared mixed signs when the distances are unsigned.
---
 include/graph/algorithm/dijkstra_shortest_paths.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/graph/algorithm/dijkstra_shortest_paths.hpp b/include/graph/algorithm/dijkstra_shortest_paths.hpp
index ca7fa38..3cf021a 100644
--- a/include/graph/algorithm/dijkstra_shortest_paths.hpp
+++ b/include/graph/algorithm/dijkstra_shortest_paths.hpp
@@ -237,8 +237,10 @@ constexpr void dijkstra_shortest_paths(
       }
 
       // Negative weights are not allowed for Dijkstra's algorithm
-      if constexpr (is_signed_v<weight_type>) {
-        if (w < zero) {
+      // The weight function may return a reference, and the distances may be of an unsigned type.
+      using weight_value_type = std::remove_cvref_t<weight_type>;
+      if constexpr (is_signed_v<weight_value_type>) {
+        if (w < weight_value_type()) {
           throw std::out_of_range(
                 std::format("dijkstra_shortest_paths: invalid negative edge weight of '{}' encountered", w));
         }
-- 
2.43.0


From 26557b7d09945e4f59dee13c3f04c6cdee1c630d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:01 +0000
Subject: [PATCH 32/56] fix: bellman_ford_shortest_paths does not relax edges
 of unreached vertices

Combining the infinite distance of an unreached vertex with a negative weight
gave a smaller distance, so unreachable vertices got one and a cycle out of
reach was reported; with a positive weight it overflowed an integral distance.
---
 include/graph/algorithm/bellman_ford_shortest_paths.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/graph/algorithm/bellman_ford_shortest_paths.hpp b/include/graph/algorithm/bellman_ford_shortest_paths.hpp
index ed4f71a..12f0e9d 100644
--- a/include/graph/algorithm/bellman_ford_shortest_paths.hpp
+++ b/include/graph/algorithm/bellman_ford_shortest_paths.hpp
@@ -193,6 +193,10 @@ requires convertible_to<range_value_t<Sources>, vertex_id_t<G>> &&      //
     const DistanceValue d_u = distances[static_cast<size_t>(uid)];
     const DistanceValue d_v = distances[static_cast<size_t>(vid)];
 
+    // No path leads to uid yet, so none leads on to vid (and combining infinity with a weight may overflow).
+    if (d_u == shortest_path_infinite_distance<DistanceValue>()) {
+      return false;
+    }
     if (compare(combine(d_u, w_e), d_v)) {
       distances[static_cast<size_t>(vid)] = combine(d_u, w_e);
       if constexpr (!is_same_v<Predecessors, _null_range_type>) {
@@ -261,7 +265,7 @@ requires convertible_to<range_value_t<Sources>, vertex_id_t<G>> &&      //
   // Check for negative weight cycles
   if (at_least_one_edge_relaxed) {
     for (auto&& [uid, vid, uv, w] : views::edgelist(g, weight)) {
-      if (compare(combine(distances[uid], w), distances[vid])) {
+      if (distances[uid] != infinite && compare(combine(distances[uid], w), distances[vid])) {
         if constexpr (!is_same_v<Predecessors, _null_range_type>) {
           predecessor[vid] = uid; // close the cycle
         }
-- 
2.43.0


From 71ce3dc1390f7e5901e8e861a91ba06f4dacee97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:30 +0000
Subject: [PATCH 33/56] fix: bellman_ford_shortest_paths returns a vertex on
 the negative cycle

The source of the first edge that can still be relaxed need not be on the
cycle, only reachable from it; find_negative_cycle then never got back to it
and did not stop.
---
 .../graph/algorithm/bellman_ford_shortest_paths.hpp  | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/graph/algorithm/bellman_ford_shortest_paths.hpp b/include/graph/algorithm/bellman_ford_shortest_paths.hpp
index 12f0e9d..69c6370 100644
--- a/include/graph/algorithm/bellman_ford_shortest_paths.hpp
+++ b/include/graph/algorithm/bellman_ford_shortest_paths.hpp
@@ -272,7 +272,17 @@ requires convertible_to<range_value_t<Sources>, vertex_id_t<G>> &&      //
         if constexpr (has_on_edge_not_minimized<G, Visitor>) {
           visitor.on_edge_not_minimized(g, uv);
         }
-        return return_type(uid);
+        if constexpr (!is_same_v<Predecessors, _null_range_type>) {
+          // This edge may only be reached from the cycle. Its end was relaxed in every round, so N steps
+          // back along the predecessors lead onto the cycle itself.
+          id_type cycle_vertex = vid;
+          for (size_t k = 0; k < N; ++k) {
+            cycle_vertex = static_cast<id_type>(predecessor[static_cast<size_t>(cycle_vertex)]);
+          }
+          return return_type(cycle_vertex);
+        } else {
+          return return_type(uid);
+        }
       } else {
         if constexpr (has_on_edge_minimized<G, Visitor>) {
           visitor.on_edge_minimized(g, uv);
-- 
2.43.0


From f147b671d5ba02b3202399ce980ca471a820a67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:17 +0000
Subject: [PATCH 34/56] fix: kosaraju finishes a vertex after all vertices
 first reached through it

The first pass marked every neighbor as visited before descending into one of
them, so its order was no depth-first finishing order and different strongly
connected components could get one label (0>1 0>2 2>1 merged 1 and 2).
---
 .../graph/algorithm/connected_components.hpp  | 65 ++++++++++---------
 1 file changed, 34 insertions(+), 31 deletions(-)

diff --git a/include/graph/algorithm/connected_components.hpp b/include/graph/algorithm/connected_components.hpp
index 9ab3a47..0625b42 100644
--- a/include/graph/algorithm/connected_components.hpp
+++ b/include/graph/algorithm/connected_components.hpp
@@ -23,6 +23,7 @@
 #include "graph/views/dfs.hpp"
 #include "graph/views/bfs.hpp"
 #include <stack>
+#include <tuple>
 #include <random>
 #include <numeric>
 
@@ -152,31 +153,29 @@ void kosaraju(G&&        g,        // graph
   // Helper: iterative DFS to compute finish times (post-order)
   // This creates reverse topological ordering for SCC discovery
   auto dfs_finish_order = [&](const vertex_id_t<G>& start) {
-    std::stack<std::pair<vertex_id_t<G>, bool>> stack; // (vertex, children_visited)
-    stack.push({start, false});
+    auto first = views::basic_incidence(g_ref, start);
+    using frame = std::tuple<vertex_id_t<G>, std::ranges::iterator_t<decltype(first)>,
+                             std::ranges::sentinel_t<decltype(first)>>; // (vertex, next edge, end of edges)
+    std::stack<frame> stack;
+    stack.push(frame{start, std::ranges::begin(first), std::ranges::end(first)});
     visited[start] = true;
 
     while (!stack.empty()) {
-      auto [uid, children_visited] = stack.top();
-      stack.pop();
+      auto& [uid, it, last] = stack.top();
 
-      if (children_visited) {
+      if (it == last) {
         // All children have been visited, add to finish order (post-order)
-        // This ensures children finish before parents in topological sort
         order.push_back(uid);
+        stack.pop();
       } else {
-        // Mark that we'll process this vertex after its children
-        // Re-push with children_visited=true to record finish time later
-        stack.push({uid, true});
-
-        // Push all unvisited neighbors onto stack
-        // They will be processed (and finish) before this vertex
-        auto uid_vertex = *find_vertex(g_ref, uid);
-        for (auto&& [vid, e] : views::incidence(g_ref, uid_vertex)) {
-          if (!visited[vid]) {
-            visited[vid] = true;
-            stack.push({vid, false});
-          }
+        // Descend into the next neighbor if it is unvisited. Only then is it marked, so that a
+        // vertex always finishes after every vertex first reached through it.
+        vertex_id_t<G> vid = (*it).target_id;
+        ++it;
+        if (!visited[vid]) {
+          visited[vid] = true;
+          auto next    = views::basic_incidence(g_ref, vid);
+          stack.push(frame{vid, std::ranges::begin(next), std::ranges::end(next)});
         }
       }
     }
@@ -281,25 +280,29 @@ void kosaraju(G&&        g,        // bidirectional graph
 
   // First pass: iterative DFS to compute finish times (same as two-graph version)
   auto dfs_finish_order = [&](const vertex_id_t<G>& start) {
-    std::stack<std::pair<vertex_id_t<G>, bool>> stack;
-    stack.push({start, false});
+    auto first = views::basic_incidence(g_ref, start);
+    using frame = std::tuple<vertex_id_t<G>, std::ranges::iterator_t<decltype(first)>,
+                             std::ranges::sentinel_t<decltype(first)>>; // (vertex, next edge, end of edges)
+    std::stack<frame> stack;
+    stack.push(frame{start, std::ranges::begin(first), std::ranges::end(first)});
     visited[start] = true;
 
     while (!stack.empty()) {
-      auto [uid, children_visited] = stack.top();
-      stack.pop();
+      auto& [uid, it, last] = stack.top();
 
-      if (children_visited) {
+      if (it == last) {
+        // All children have been visited, add to finish order (post-order)
         order.push_back(uid);
+        stack.pop();
       } else {
-        stack.push({uid, true});
-
-        auto uid_vertex = *find_vertex(g_ref, uid);
-        for (auto&& [vid, e] : views::incidence(g_ref, uid_vertex)) {
-          if (!visited[vid]) {
-            visited[vid] = true;
-            stack.push({vid, false});
-          }
+        // Descend into the next neighbor if it is unvisited. Only then is it marked, so that a
+        // vertex always finishes after every vertex first reached through it.
+        vertex_id_t<G> vid = (*it).target_id;
+        ++it;
+        if (!visited[vid]) {
+          visited[vid] = true;
+          auto next    = views::basic_incidence(g_ref, vid);
+          stack.push(frame{vid, std::ranges::begin(next), std::ranges::end(next)});
         }
       }
     }
-- 
2.43.0


From c0188aaea55e2a857f7ddecc5ea8f9ef26c71fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:17 +0000
Subject: [PATCH 35/56] fix: afforest accepts a graph without vertices

Sampling the most frequent label drew from the range 0 to size - 1 of an empty
component array and read out of bounds.
---
 include/graph/algorithm/connected_components.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/graph/algorithm/connected_components.hpp b/include/graph/algorithm/connected_components.hpp
index 0625b42..76511e3 100644
--- a/include/graph/algorithm/connected_components.hpp
+++ b/include/graph/algorithm/connected_components.hpp
@@ -723,6 +723,9 @@ void afforest(G&&          g,         // graph
               Component&   component, // out: connected component assignment
               const size_t neighbor_rounds = 2) {
   size_t N(num_vertices(g));
+  if (N == 0) {
+    return; // nothing to label (and nothing to sample from)
+  }
   // Initialize: each vertex is its own component
   std::iota(component.begin(), component.end(), 0);
 
@@ -830,6 +833,9 @@ void afforest(G&&          g,         // graph
               Component&   component, // out: connected component assignment
               const size_t neighbor_rounds = 2) {
   size_t N(num_vertices(g));
+  if (N == 0) {
+    return; // nothing to label (and nothing to sample from)
+  }
   // Initialize: each vertex is its own component
   std::iota(component.begin(), component.end(), 0);
 
-- 
2.43.0


From 297c4dc4b6d897ce3de12e020a503bfd1bf13c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:17 +0000
Subject: [PATCH 36/56] fix: connected_components on graphs with as many
 vertices as their id type has values

The loop over the vertex ids never ended for 256 vertices with one-byte ids.
---
 include/graph/algorithm/connected_components.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/graph/algorithm/connected_components.hpp b/include/graph/algorithm/connected_components.hpp
index 76511e3..d3e450b 100644
--- a/include/graph/algorithm/connected_components.hpp
+++ b/include/graph/algorithm/connected_components.hpp
@@ -456,7 +456,8 @@ size_t connected_components(G&&        g,        // graph
 
   std::stack<vertex_id_t<G>> S;
   CT                         cid = 0; // Current component ID
-  for (vertex_id_t<G> uid = 0; uid < N; ++uid) {
+  for (size_t i = 0; i < N; ++i) { // not an id: it may be unable to hold N
+    const vertex_id_t<G> uid = static_cast<vertex_id_t<G>>(i);
     if (component[uid] < std::numeric_limits<CT>::max()) {
       continue; // Already assigned to a component
     }
-- 
2.43.0


From b7e36dcb2c65678dc3d51cdeb8ca7a8ae4797f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 37/56] fix: kruskal and inplace_kruskal size their disjoint
 sets for every edge

The largest vertex id was collected in the sort comparator, from its first
argument only, so the ids of an edge the sort never passed there were missed:
a single edge wrote out of bounds, or was dropped by inplace_kruskal.
---
 include/graph/algorithm/mst.hpp | 67 +++++++++++++--------------------
 1 file changed, 27 insertions(+), 40 deletions(-)

diff --git a/include/graph/algorithm/mst.hpp b/include/graph/algorithm/mst.hpp
index 747559a..003dbbe 100644
--- a/include/graph/algorithm/mst.hpp
+++ b/include/graph/algorithm/mst.hpp
@@ -255,6 +255,7 @@
 #include "graph/edge_list/edge_list.hpp"
 #include "graph/views/edgelist.hpp"
 #include "graph/algorithm/traversal_common.hpp"
+#include <algorithm>
 #include <queue>
 #include <format>
 
@@ -565,25 +566,21 @@ auto kruskal(IELR&&    e,      // graph
   std::ranges::transform(e, back_inserter(e_copy),
                          [](auto&& ed) { return std::make_tuple(ed.source_id, ed.target_id, ed.value); });
 
-  // Find maximum vertex ID while sorting edges by weight
-  VId  N             = 0; // Will hold the maximum vertex ID in the graph
-  auto outer_compare = [&](auto&& i, auto&& j) {
-    // Track maximum vertex ID (needed to size disjoint-set structure)
-    if (get<0>(i) > N) {
-      N = get<0>(i); // Check source vertex
-    }
-    if (get<1>(i) > N) {
-      N = get<1>(i); // Check target vertex
-    }
-    return compare(get<2>(i), get<2>(j)); // Compare edge weights
-  };
+  // Find maximum vertex ID (needed to size disjoint-set structure)
+  VId N = 0;
+  for (auto&& [uid, vid, val] : e_copy) {
+    N = std::max({N, uid, vid});
+  }
+
+  // Sort edges by weight
+  auto outer_compare = [&](auto&& i, auto&& j) { return compare(get<2>(i), get<2>(j)); };
   std::ranges::sort(e_copy, outer_compare);
 
   // Initialize disjoint-set: each vertex starts in its own set
-  disjoint_vector<VId> subsets(N + 1); // Size N+1 to accommodate vertices 0 through N
-  for (VId uid = 0; uid <= N; ++uid) {
-    subsets[uid].id    = uid; // Each vertex is its own parent (root)
-    subsets[uid].count = 0;   // Initial rank is 0
+  disjoint_vector<VId> subsets(static_cast<size_t>(N) + 1); // Size N+1 to accommodate vertices 0 through N
+  for (size_t uid = 0; uid < subsets.size(); ++uid) {
+    subsets[uid].id    = static_cast<VId>(uid); // Each vertex is its own parent (root)
+    subsets[uid].count = 0;                     // Initial rank is 0
   }
 
   // MST has exactly N-1 edges for a connected graph (or fewer for disconnected)
@@ -591,7 +588,7 @@ auto kruskal(IELR&&    e,      // graph
 
   // Track MST statistics
   EV     total_weight   = EV{};  // Sum of edge weights in MST
-  size_t num_components = N + 1; // Initially each vertex is its own component
+  size_t num_components = static_cast<size_t>(N) + 1; // Initially each vertex is its own component
 
   // Process edges in sorted order (by weight)
   for (auto&& [uid, vid, val] : e_copy) {
@@ -708,31 +705,21 @@ auto inplace_kruskal(IELR&&    e,      // graph
     return std::pair<EV, size_t>{EV{}, 0};
   }
 
-  // Find maximum vertex ID while sorting edges by weight (modifies input!)
-  VId  N             = 0; // Will hold the maximum vertex ID in the graph
-  auto outer_compare = [&](auto&& i, auto&& j) {
-    // Track maximum vertex ID (needed to size disjoint-set structure)
-    if (i.source_id > N) {
-      N = i.source_id; // Check source vertex
-    }
-    if (i.target_id > N) {
-      N = i.target_id; // Check target vertex
-    }
-    return compare(i.value, j.value); // Compare edge weights
-  };
-  std::ranges::sort(e, outer_compare); // ⚠️ Modifies input edge list!
-
-  // Empty graph edge case
-  if (N == 0) {
-    t.clear();
-    return std::pair<EV, size_t>{EV{}, 0};
+  // Find maximum vertex ID (needed to size disjoint-set structure)
+  VId N = 0;
+  for (auto&& ed : e) {
+    N = std::max<VId>({N, ed.source_id, ed.target_id});
   }
 
+  // Sort edges by weight (modifies input!)
+  auto outer_compare = [&](auto&& i, auto&& j) { return compare(i.value, j.value); };
+  std::ranges::sort(e, outer_compare); // ⚠️ Modifies input edge list!
+
   // Initialize disjoint-set: each vertex starts in its own set
-  disjoint_vector<VId> subsets(N + 1); // Size N+1 to accommodate vertices 0 through N
-  for (VId uid = 0; uid <= N; ++uid) {
-    subsets[uid].id    = uid; // Each vertex is its own parent (root)
-    subsets[uid].count = 0;   // Initial rank is 0
+  disjoint_vector<VId> subsets(static_cast<size_t>(N) + 1); // Size N+1 to accommodate vertices 0 through N
+  for (size_t uid = 0; uid < subsets.size(); ++uid) {
+    subsets[uid].id    = static_cast<VId>(uid); // Each vertex is its own parent (root)
+    subsets[uid].count = 0;                     // Initial rank is 0
   }
 
   // MST has exactly N-1 edges for a connected graph (or fewer for disconnected)
@@ -740,7 +727,7 @@ auto inplace_kruskal(IELR&&    e,      // graph
 
   // Track MST statistics
   EV     total_weight   = EV{};  // Sum of edge weights in MST
-  size_t num_components = N + 1; // Initially each vertex is its own component
+  size_t num_components = static_cast<size_t>(N) + 1; // Initially each vertex is its own component
 
   // Process edges in sorted order (by weight)
   for (auto&& [uid, vid, val] : e) {
-- 
2.43.0


From 88ed4085d2036e28a10181d498fbbcd331021836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:14 +0000
Subject: [PATCH 38/56] fix: prim builds a minimum spanning tree

The priority queue gave the worst edge first and vertices already in the tree
were attached again through other edges, so the result was neither minimal nor
always a tree (even the seed could get another predecessor).
---
 include/graph/algorithm/mst.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/graph/algorithm/mst.hpp b/include/graph/algorithm/mst.hpp
index 003dbbe..73e54ba 100644
--- a/include/graph/algorithm/mst.hpp
+++ b/include/graph/algorithm/mst.hpp
@@ -928,21 +928,28 @@ auto prim(G&&                   g,           // graph
   using weighted_vertex = tuple<vertex_id_t<G>, EV>; // (vertex_id, edge_weight)
 
   // Priority queue comparator: compare by edge weight (second element of tuple)
-  auto outer_compare = [&](auto&& i, auto&& j) { return compare(get<1>(i), get<1>(j)); };
+  // The queue's top is the last in this order, which must be the best edge
+  auto outer_compare = [&](auto&& i, auto&& j) { return compare(get<1>(j), get<1>(i)); };
 
   // Min-heap (or max-heap depending on compare) of (vertex, weight) pairs
   std::priority_queue<weighted_vertex, std::vector<weighted_vertex>, decltype(outer_compare)> Q(outer_compare);
   Q.push({seed, distance[seed]}); // Start from seed vertex
 
+  std::vector<bool> in_tree(N, false);
+
   // Main loop: grow MST by adding minimum-weight edges
   while (!Q.empty()) {
     auto uid = get<0>(Q.top()); // Extract vertex with minimum edge weight
     Q.pop();
+    if (in_tree[uid]) {
+      continue; // Entry left over from before a better edge to this vertex was found
+    }
+    in_tree[uid] = true;
 
     // Examine all edges incident to current vertex
     for (auto&& [vid, w] : views::basic_incidence(g, uid, weight_fn)) {
-      // Relaxation: if edge weight is better than current distance to neighbor
-      if (compare(w, distance[vid])) {
+      // Relaxation: if edge weight is better than current distance to neighbor outside the tree
+      if (!in_tree[vid] && compare(w, distance[vid])) {
         distance[vid] = w;            // Update minimum edge weight to reach vid
         Q.push({vid, distance[vid]}); // Add/update neighbor in priority queue
         predecessor[vid] = uid;       // Record edge uid→vid in MST
-- 
2.43.0


From edeeee48b7787096160605fe8526b6312452e170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:14 +0000
Subject: [PATCH 39/56] fix: prim's total leaves out the vertices that are not
 in the tree

Unreached vertices keep whatever the caller had in predecessor and weight, and
their weights were added unless the caller had made each its own predecessor.
---
 include/graph/algorithm/mst.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/graph/algorithm/mst.hpp b/include/graph/algorithm/mst.hpp
index 73e54ba..59134e5 100644
--- a/include/graph/algorithm/mst.hpp
+++ b/include/graph/algorithm/mst.hpp
@@ -963,8 +963,8 @@ auto prim(G&&                   g,           // graph
   // Exclude seed vertex (which has no incoming edge in MST)
   EV total_weight = EV{};
   for (size_t v = 0; v < N; ++v) {
-    if (v != static_cast<size_t>(seed) && predecessor[v] != static_cast<vertex_id_t<G>>(v)) {
-      // Only count vertices in MST (predecessor points to another vertex)
+    if (v != static_cast<size_t>(seed) && in_tree[v]) {
+      // Only count vertices in MST (others keep the caller's predecessor and weight)
       total_weight += weight[v];
     }
   }
-- 
2.43.0


From 29fffc7f53d13ac22408b8ac1c8cd6506b828033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:09 +0000
Subject: [PATCH 40/56] fix: articulation_points compiles for compressed_graph

---
 include/graph/algorithm/articulation_points.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/graph/algorithm/articulation_points.hpp b/include/graph/algorithm/articulation_points.hpp
index 9d3b5d8..c42d1c7 100644
--- a/include/graph/algorithm/articulation_points.hpp
+++ b/include/graph/algorithm/articulation_points.hpp
@@ -170,7 +170,7 @@ void articulation_points(G&& g, Iter cut_vertices) {
 
       // Collect edges into a temporary to allow indexed access
       // We advance through edges one at a time using edge_idx
-      auto edge_range = views::incidence(g, uid);
+      auto edge_range = edges(g, uid);
       auto it         = std::ranges::begin(edge_range);
       auto it_end     = std::ranges::end(edge_range);
 
-- 
2.43.0


From eef8f02aa3fbcbfa1f2ef67a55513c6f5986235d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:31 +0000
Subject: [PATCH 41/56] fix: articulation_points on graphs with as many
 vertices as their id type has values

---
 include/graph/algorithm/articulation_points.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/graph/algorithm/articulation_points.hpp b/include/graph/algorithm/articulation_points.hpp
index c42d1c7..342de3a 100644
--- a/include/graph/algorithm/articulation_points.hpp
+++ b/include/graph/algorithm/articulation_points.hpp
@@ -189,7 +189,7 @@ void articulation_points(G&& g, Iter cut_vertices) {
           }
 
           // Check articulation point condition for non-root
-          if (parent[par_uid] != NO_PARENT) {
+          if (par_uid != start) {
             // Non-root rule: child v has low[v] >= disc[u]
             if (low[uid] >= disc[par_uid] && !emitted[par_uid]) {
               *cut_vertices++ = par_uid;
-- 
2.43.0


From 9b398723c18bdfb0d24902158a5e73e7063d6a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:31 +0000
Subject: [PATCH 42/56] fix: biconnected_components emits vertices that have
 only self-loops

---
 include/graph/algorithm/biconnected_components.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/graph/algorithm/biconnected_components.hpp b/include/graph/algorithm/biconnected_components.hpp
index 46110be..c1e907f 100644
--- a/include/graph/algorithm/biconnected_components.hpp
+++ b/include/graph/algorithm/biconnected_components.hpp
@@ -262,6 +262,11 @@ void biconnected_components(G&& g, OuterContainer& components) {
         }
       }
     }
+
+    // A vertex with nothing but self-loops is isolated, too
+    if (timer == disc[start] + 1) {
+      components.push_back(inner_type{static_cast<typename inner_type::value_type>(start)});
+    }
   }
 }
 
-- 
2.43.0


From 88c40cc47c98a47130901cf39269d8d5b1aa5997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:21 +0000
Subject: [PATCH 43/56] fix: triangle_count on graphs with as many vertices as
 their id type has values

---
 include/graph/algorithm/tc.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/graph/algorithm/tc.hpp b/include/graph/algorithm/tc.hpp
index 2519c6e..9f2a1b4 100644
--- a/include/graph/algorithm/tc.hpp
+++ b/include/graph/algorithm/tc.hpp
@@ -234,7 +234,9 @@ size_t triangle_count(G&& g) {
   // ============================================================================
   // Main loop: Process each vertex as the "first" vertex in potential triangles
   // ============================================================================
-  for (vertex_id_t<G> uid = 0; uid < vertex_count; ++uid) {
+  for (size_t ui = 0; ui < vertex_count; ++ui) {
+    const auto uid = static_cast<vertex_id_t<G>>(ui);
+
     auto u_edges = edges(g, uid);
     auto u_it    = std::ranges::begin(u_edges);
     auto u_end   = std::ranges::end(u_edges);
-- 
2.43.0


From 850cc280e63b4fbfc91fe831ca637f6004decdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:21 +0000
Subject: [PATCH 44/56] fix: maximal_independent_set leaves out every vertex
 with a self-loop

---
 include/graph/algorithm/mis.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/graph/algorithm/mis.hpp b/include/graph/algorithm/mis.hpp
index 960d0b2..0aea4b8 100755
--- a/include/graph/algorithm/mis.hpp
+++ b/include/graph/algorithm/mis.hpp
@@ -184,6 +184,18 @@ size_t maximal_independent_set(G&&                      g,       // graph
   for (auto u : vertices(g)) {
     vertex_id_t<G> uid = vertex_id(g, u);
     if (!removed_vertices[uid]) {
+      // A vertex with a self-loop is adjacent to itself and can't be in the set
+      bool has_self_loop = false;
+      for (auto uv : edges(g, u)) {
+        if (target_id(g, uv) == uid) {
+          has_self_loop = true;
+          break;
+        }
+      }
+      if (has_self_loop) {
+        continue;
+      }
+
       *mis++ = uid;
       ++count;
       removed_vertices[uid] = 1;
-- 
2.43.0


From 85e46834b9ec6fa48af873e4f0ded8c5642fb11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:12 +0000
Subject: [PATCH 45/56] fix: topological views no longer overflow the stack on
 long paths

---
 include/graph/views/topological_sort.hpp | 63 ++++++++++++++++--------
 1 file changed, 43 insertions(+), 20 deletions(-)

diff --git a/include/graph/views/topological_sort.hpp b/include/graph/views/topological_sort.hpp
index ff743de..1d5594b 100644
--- a/include/graph/views/topological_sort.hpp
+++ b/include/graph/views/topological_sort.hpp
@@ -232,17 +232,50 @@ namespace topo_detail {
     [[nodiscard]] const std::optional<vertex_type>& cycle_vertex() const noexcept { return cycle_vertex_; }
 
   private:
-    // Recursive DFS visit for topological sort
-    void dfs_visit(G& g, vertex_type v, bool detect_cycles) {
-      auto vid = adj_list::vertex_id(g, v);
-      visited_.mark_visited(vid);
+    using edge_range_type    = typename Accessor::template edge_range_t<G>;
+    using edge_iterator_type = std::ranges::iterator_t<edge_range_type>;
+    using edge_sentinel_type = std::ranges::sentinel_t<edge_range_type>;
+
+    struct stack_frame {
+      vertex_type        vertex;
+      edge_iterator_type edge_iter;
+      edge_sentinel_type edge_end;
+    };
+    using frame_alloc = typename std::allocator_traits<Alloc>::template rebind_alloc<stack_frame>;
+    using stack_type  = std::stack<stack_frame, std::vector<stack_frame, frame_alloc>>;
+
+    // DFS visit for topological sort. Uses an explicit stack, so that the length of the longest
+    // path isn't limited by the size of the call stack.
+    void dfs_visit(G& g, vertex_type seed, bool detect_cycles) {
+      stack_type stack(std::vector<stack_frame, frame_alloc>(frame_alloc(rec_stack_.get_allocator())));
+
+      auto discover = [&](const vertex_type& v) {
+        auto vid = adj_list::vertex_id(g, v);
+        visited_.mark_visited(vid);
+        if (detect_cycles) {
+          rec_stack_[vid] = true;
+        }
+        auto edge_range = Accessor{}.edges(g, v);
+        stack.push({v, std::ranges::begin(edge_range), std::ranges::end(edge_range)});
+      };
+
+      discover(seed);
+      while (!stack.empty()) {
+        auto& top = stack.top();
+
+        if (top.edge_iter == top.edge_end) {
+          // All children visited: add to post-order
+          if (detect_cycles) {
+            rec_stack_[adj_list::vertex_id(g, top.vertex)] = false;
+          }
+          post_order_.push_back(top.vertex);
+          stack.pop();
+          continue;
+        }
 
-      if (detect_cycles) {
-        rec_stack_[vid] = true;
-      }
+        auto edge = *top.edge_iter;
+        ++top.edge_iter;
 
-      // Visit all children
-      for (auto edge : Accessor{}.edges(g, v)) {
         auto target_v   = Accessor{}.neighbor(g, edge);
         auto target_vid = adj_list::vertex_id(g, target_v);
 
@@ -253,19 +286,9 @@ namespace topo_detail {
         }
 
         if (!visited_.is_visited(target_vid)) {
-          dfs_visit(g, target_v, detect_cycles);
-          if (cycle_vertex_) {
-            return; // Propagate early exit
-          }
+          discover(target_v); // invalidates top
         }
       }
-
-      if (detect_cycles) {
-        rec_stack_[vid] = false;
-      }
-
-      // Add to post-order after all children visited
-      post_order_.push_back(v);
     }
   };
 
-- 
2.43.0


From fbf91a9935f39256a31d0b4a17331d29ab94382d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:45 +0000
Subject: [PATCH 46/56] fix: find_vertex on random-access graphs takes constant
 time as documented

---
 include/graph/adj_list/detail/graph_cpo.hpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/graph/adj_list/detail/graph_cpo.hpp b/include/graph/adj_list/detail/graph_cpo.hpp
index 646a249..da531bc 100644
--- a/include/graph/adj_list/detail/graph_cpo.hpp
+++ b/include/graph/adj_list/detail/graph_cpo.hpp
@@ -558,8 +558,23 @@ namespace _cpo_impls {
           using view_iterator      = typename view_type::iterator;
           return view_iterator{map_iter};
         } else if constexpr (_Choice<_G, _VId>._Strategy == _St::_random_access) {
-          using diff_type = std::iter_difference_t<decltype(std::ranges::begin(vertices(std::forward<G>(g))))>;
-          return std::ranges::next(std::ranges::begin(vertices(std::forward<G>(g))), static_cast<diff_type>(uid));
+          using iter_type = decltype(std::ranges::begin(vertices(std::forward<G>(g))));
+          using diff_type = std::iter_difference_t<iter_type>;
+          using desc_type = std::iter_value_t<iter_type>;
+          if constexpr (requires(const desc_type& desc) {
+                          requires std::integral<typename desc_type::storage_type>;
+                          { desc.value() } -> std::same_as<typename desc_type::storage_type>;
+                          requires std::same_as<
+                                iter_type,
+                                typename vertex_descriptor_view<typename desc_type::iterator_type>::iterator>;
+                        }) {
+            // The iterator is an index, but only a forward iterator: std::ranges::next would count up to uid
+            using pos_type = typename desc_type::storage_type;
+            iter_type first = std::ranges::begin(vertices(std::forward<G>(g)));
+            return iter_type{static_cast<pos_type>((*first).value() + static_cast<pos_type>(uid))};
+          } else {
+            return std::ranges::next(std::ranges::begin(vertices(std::forward<G>(g))), static_cast<diff_type>(uid));
+          }
         }
       }
     };
-- 
2.43.0


From 1390dda42b02428d7970e2d5c1344ede71eb924d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:00 +0000
Subject: [PATCH 47/56] fix: articulation points and biconnected components
 take linear time as documented

---
 .../graph/algorithm/articulation_points.hpp   | 45 +++++++++----------
 .../algorithm/biconnected_components.hpp      | 34 +++++++-------
 2 files changed, 39 insertions(+), 40 deletions(-)

diff --git a/include/graph/algorithm/articulation_points.hpp b/include/graph/algorithm/articulation_points.hpp
index 342de3a..5029a79 100644
--- a/include/graph/algorithm/articulation_points.hpp
+++ b/include/graph/algorithm/articulation_points.hpp
@@ -144,17 +144,25 @@ void articulation_points(G&& g, Iter cut_vertices) {
 
   size_t timer = 0;
 
-  // Frame for iterative DFS: (vertex_id, edge_index, parent_edge_skipped)
-  // edge_index tracks how far we've iterated through edges(g, uid)
+  // Frame for iterative DFS: (vertex_id, edge iterator and end, parent_edge_skipped)
+  // The iterator tracks how far we've iterated through edges(g, uid)
   // parent_edge_skipped ensures only the first reverse edge to the DFS parent
   // is treated as the tree edge; subsequent parallel edges update low-link.
+  using edge_range_t    = decltype(edges(g, std::declval<const vid_t&>()));
+  using edge_iterator_t = std::ranges::iterator_t<edge_range_t>;
+  using edge_sentinel_t = std::ranges::sentinel_t<edge_range_t>;
   struct dfs_frame {
-    vid_t  uid;
-    size_t edge_idx;
-    bool   parent_edge_skipped;
+    vid_t           uid;
+    edge_iterator_t it;
+    edge_sentinel_t it_end;
+    bool            parent_edge_skipped;
   };
 
   std::stack<dfs_frame> stk;
+  auto                  push_frame = [&](const vid_t& uid) {
+    auto edge_range = edges(g, uid);
+    stk.push({uid, std::ranges::begin(edge_range), std::ranges::end(edge_range), false});
+  };
 
   // Outer loop: handle disconnected graphs
   for (auto [start] : views::basic_vertexlist(g)) {
@@ -163,35 +171,26 @@ void articulation_points(G&& g, Iter cut_vertices) {
     }
 
     disc[start] = low[start] = timer++;
-    stk.push({start, 0, false});
+    push_frame(start);
 
     while (!stk.empty()) {
-      auto& [uid, edge_idx, parent_skipped] = stk.top();
-
-      // Collect edges into a temporary to allow indexed access
-      // We advance through edges one at a time using edge_idx
-      auto edge_range = edges(g, uid);
-      auto it         = std::ranges::begin(edge_range);
-      auto it_end     = std::ranges::end(edge_range);
-
-      // Advance iterator to edge_idx position
-      for (size_t i = 0; i < edge_idx && it != it_end; ++i, ++it) {
-      }
+      auto& [uid, it, it_end, parent_skipped] = stk.top();
 
       if (it == it_end) {
         // All edges processed — backtrack
+        const vid_t backtrack_uid = uid;
         stk.pop();
         if (!stk.empty()) {
-          auto& [par_uid, par_edge_idx, par_skipped] = stk.top();
+          const vid_t par_uid = stk.top().uid;
           // Update low-link of parent
-          if (low[uid] < low[par_uid]) {
-            low[par_uid] = low[uid];
+          if (low[backtrack_uid] < low[par_uid]) {
+            low[par_uid] = low[backtrack_uid];
           }
 
           // Check articulation point condition for non-root
           if (par_uid != start) {
             // Non-root rule: child v has low[v] >= disc[u]
-            if (low[uid] >= disc[par_uid] && !emitted[par_uid]) {
+            if (low[backtrack_uid] >= disc[par_uid] && !emitted[par_uid]) {
               *cut_vertices++ = par_uid;
               emitted[par_uid] = true;
             }
@@ -201,7 +200,7 @@ void articulation_points(G&& g, Iter cut_vertices) {
       }
 
       vid_t vid = target_id(g, *it);
-      ++edge_idx; // advance for next iteration
+      ++it; // advance for next iteration
 
       // Skip self-loops
       if (vid == uid) {
@@ -213,7 +212,7 @@ void articulation_points(G&& g, Iter cut_vertices) {
         parent[vid] = uid;
         child_count[uid]++;
         disc[vid] = low[vid] = timer++;
-        stk.push({vid, 0, false});
+        push_frame(vid);
       } else if (vid == parent[uid] && !parent_skipped) {
         // First reverse edge to DFS parent — this is the tree edge; skip it
         parent_skipped = true;
diff --git a/include/graph/algorithm/biconnected_components.hpp b/include/graph/algorithm/biconnected_components.hpp
index c1e907f..6d4e250 100644
--- a/include/graph/algorithm/biconnected_components.hpp
+++ b/include/graph/algorithm/biconnected_components.hpp
@@ -156,14 +156,22 @@ void biconnected_components(G&& g, OuterContainer& components) {
   using edge_pair = std::pair<vid_t, vid_t>;
   std::stack<edge_pair> edge_stk;
 
-  // Frame for iterative DFS: (vertex_id, edge_index, parent_edge_skipped)
+  // Frame for iterative DFS: (vertex_id, edge iterator and end, parent_edge_skipped)
+  using edge_range_t    = decltype(edges(g, std::declval<const vid_t&>()));
+  using edge_iterator_t = std::ranges::iterator_t<edge_range_t>;
+  using edge_sentinel_t = std::ranges::sentinel_t<edge_range_t>;
   struct dfs_frame {
-    vid_t  uid;
-    size_t edge_idx;
-    bool   parent_edge_skipped;
+    vid_t           uid;
+    edge_iterator_t it;
+    edge_sentinel_t it_end;
+    bool            parent_edge_skipped;
   };
 
   std::stack<dfs_frame> stk;
+  auto                  push_frame = [&](const vid_t& uid) {
+    auto edge_range = edges(g, uid);
+    stk.push({uid, std::ranges::begin(edge_range), std::ranges::end(edge_range), false});
+  };
 
   // Helper: pop edges from edge_stk until (u, v) is popped (inclusive).
   // Collect unique vertex IDs and push_back as a new component.
@@ -199,25 +207,17 @@ void biconnected_components(G&& g, OuterContainer& components) {
     }
 
     disc[start] = low[start] = timer++;
-    stk.push({start, 0, false});
+    push_frame(start);
 
     while (!stk.empty()) {
-      auto& [uid, edge_idx, parent_skipped] = stk.top();
-
-      auto edge_range = edges(g, uid);
-      auto it         = std::ranges::begin(edge_range);
-      auto it_end     = std::ranges::end(edge_range);
-
-      // Advance iterator to edge_idx position
-      for (size_t i = 0; i < edge_idx && it != it_end; ++i, ++it) {
-      }
+      auto& [uid, it, it_end, parent_skipped] = stk.top();
 
       if (it == it_end) {
         // All edges processed — backtrack
         vid_t backtrack_uid = uid;
         stk.pop();
         if (!stk.empty()) {
-          auto& [par_uid, par_edge_idx, par_skipped] = stk.top();
+          const vid_t par_uid = stk.top().uid;
           // Update low-link of parent
           if (low[backtrack_uid] < low[par_uid]) {
             low[par_uid] = low[backtrack_uid];
@@ -234,7 +234,7 @@ void biconnected_components(G&& g, OuterContainer& components) {
       }
 
       vid_t vid = target_id(g, *it);
-      ++edge_idx; // advance for next iteration
+      ++it; // advance for next iteration
 
       // Skip self-loops
       if (vid == uid) {
@@ -246,7 +246,7 @@ void biconnected_components(G&& g, OuterContainer& components) {
         parent[vid] = uid;
         disc[vid] = low[vid] = timer++;
         edge_stk.push({uid, vid});
-        stk.push({vid, 0, false});
+        push_frame(vid);
       } else if (vid == parent[uid] && !parent_skipped) {
         // First reverse edge to DFS parent — this is the tree edge; skip it
         parent_skipped = true;
-- 
2.43.0


From 29696f8983dcc4e068566bc20b3c9bb591530a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:38 +0000
Subject: [PATCH 48/56] fix: edges(g, uid) finds the edges() member of the
 vertex object

---
 include/graph/adj_list/detail/graph_cpo.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/graph/adj_list/detail/graph_cpo.hpp b/include/graph/adj_list/detail/graph_cpo.hpp
index da531bc..f52d164 100644
--- a/include/graph/adj_list/detail/graph_cpo.hpp
+++ b/include/graph/adj_list/detail/graph_cpo.hpp
@@ -675,7 +675,8 @@ namespace _cpo_impls {
           requires(G& g, const VId& uid) {
             { find_vertex(g, uid) } -> std::input_iterator;
             requires vertex_descriptor_type<decltype(*find_vertex(g, uid))>;
-          } && (_has_adl_u<G, decltype(*find_vertex(std::declval<G&>(), std::declval<const VId&>()))> ||
+          } && (_has_vertex_member_u<G, decltype(*find_vertex(std::declval<G&>(), std::declval<const VId&>()))> ||
+                _has_adl_u<G, decltype(*find_vertex(std::declval<G&>(), std::declval<const VId&>()))> ||
                 _has_edge_value_pattern<G, decltype(*find_vertex(std::declval<G&>(), std::declval<const VId&>()))>);
 
     template <typename G, typename VId>
-- 
2.43.0


From 27088a2bbf7c7b997c281174d0d7f69d4ab1e500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:38 +0000
Subject: [PATCH 49/56] fix: num_vertices(g) defaults to size(vertices(g)) for
 graphs that are not ranges themselves

---
 include/graph/adj_list/detail/graph_cpo.hpp | 26 +++++++++++++++++----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/include/graph/adj_list/detail/graph_cpo.hpp b/include/graph/adj_list/detail/graph_cpo.hpp
index f52d164..64f5015 100644
--- a/include/graph/adj_list/detail/graph_cpo.hpp
+++ b/include/graph/adj_list/detail/graph_cpo.hpp
@@ -1370,7 +1370,9 @@ namespace _cpo_impls {
   // =========================================================================
 
   namespace _num_vertices {
-    enum class _St { _none, _member, _adl, _ranges };
+    using _cpo_instances::vertices;
+
+    enum class _St { _none, _member, _adl, _ranges, _vertices };
 
     // Check for g.num_vertices() member function
     template <typename G>
@@ -1388,6 +1390,12 @@ namespace _cpo_impls {
     template <typename G>
     concept _has_ranges = std::ranges::sized_range<G>;
 
+    // Check if the graph is not a range itself, but has a sized vertices(g)
+    template <typename G>
+    concept _has_vertices = requires(const G& g) {
+      { vertices(g) } -> std::ranges::sized_range;
+    };
+
     template <typename G>
     [[nodiscard]] consteval _Choice_t<_St> _Choose() noexcept {
       if constexpr (_has_member<G>) {
@@ -1396,6 +1404,8 @@ namespace _cpo_impls {
         return {_St::_adl, noexcept(num_vertices(std::declval<const G&>()))};
       } else if constexpr (_has_ranges<G>) {
         return {_St::_ranges, noexcept(std::ranges::size(std::declval<const G&>()))};
+      } else if constexpr (_has_vertices<G>) {
+        return {_St::_vertices, noexcept(std::ranges::size(vertices(std::declval<const G&>())))};
       } else {
         return {_St::_none, false};
       }
@@ -1410,10 +1420,11 @@ namespace _cpo_impls {
       /**
              * @brief Get the number of vertices in the graph
              * 
-             * Resolution order (three-tier approach):
+             * Resolution order (four-tier approach):
              * 1. g.num_vertices() - Member function (highest priority)
              * 2. num_vertices(g) - ADL (medium priority)
-             * 3. std::ranges::size(g) - Ranges default (lowest priority)
+             * 3. std::ranges::size(g) - Ranges default
+             * 4. std::ranges::size(vertices(g)) - Default for a graph that isn't a range (lowest priority)
              * 
              * The default implementation works for any sized_range (vector, deque, map, etc.)
              * Custom graph types can override by providing a member function or ADL function.
@@ -1434,6 +1445,8 @@ namespace _cpo_impls {
           return num_vertices(g);
         } else if constexpr (_Choice<_G>._Strategy == _St::_ranges) {
           return std::ranges::size(g);
+        } else if constexpr (_Choice<_G>._Strategy == _St::_vertices) {
+          return std::ranges::size(vertices(g));
         }
       }
     };
@@ -1486,10 +1499,11 @@ namespace _cpo_impls {
       /**
              * @brief Get the number of vertices in the graph
              * 
-             * Resolution order (three-tier approach):
+             * Resolution order (four-tier approach):
              * 1. g.num_vertices() - Member function (highest priority)
              * 2. num_vertices(g) - ADL (medium priority)
-             * 3. std::ranges::size(g) - Ranges default (lowest priority)
+             * 3. std::ranges::size(g) - Ranges default
+             * 4. std::ranges::size(vertices(g)) - Default for a graph that isn't a range (lowest priority)
              * 
              * The default implementation works for any sized_range (vector, deque, map, etc.)
              * Custom graph types can override by providing a member function or ADL function.
@@ -1510,6 +1524,8 @@ namespace _cpo_impls {
           return num_vertices(g);
         } else if constexpr (_Choice<_G>._Strategy == _St::_ranges) {
           return std::ranges::size(g);
+        } else if constexpr (_Choice<_G>._Strategy == _St::_vertices) {
+          return std::ranges::size(vertices(g));
         }
       }
 
-- 
2.43.0


From 523de74a0056d6e7ddb183c4525ae6070cb51a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:38 +0000
Subject: [PATCH 50/56] fix: has_edges(g) honours the graph's own has_edges()

---
 include/graph/adj_list/detail/graph_cpo.hpp | 36 ++++++++++++++++-----
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/include/graph/adj_list/detail/graph_cpo.hpp b/include/graph/adj_list/detail/graph_cpo.hpp
index 64f5015..bd7336e 100644
--- a/include/graph/adj_list/detail/graph_cpo.hpp
+++ b/include/graph/adj_list/detail/graph_cpo.hpp
@@ -2873,21 +2873,33 @@ inline namespace _cpo_instances {
 namespace _cpo_impls {
 
   // =========================================================================
-  // has_edge(g) CPO
+  // has_edges(g) CPO
   // =========================================================================
 
   namespace _has_edge {
-    enum class _St { _none, _member, _adl, _default };
+    enum class _St { _none, _member, _member_alt, _adl, _adl_alt, _default };
 
-    // Check for g.has_edge() member function
+    // Check for g.has_edges() member function
     template <typename G>
     concept _has_member = requires(const G& g) {
+      { g.has_edges() } -> std::convertible_to<bool>;
+    };
+
+    // Check for g.has_edge() member function (alternative name)
+    template <typename G>
+    concept _has_member_alt = requires(const G& g) {
       { g.has_edge() } -> std::convertible_to<bool>;
     };
 
-    // Check for ADL has_edge(g)
+    // Check for ADL has_edges(g)
     template <typename G>
     concept _has_adl = requires(const G& g) {
+      { has_edges(g) } -> std::convertible_to<bool>;
+    };
+
+    // Check for ADL has_edge(g) (alternative name)
+    template <typename G>
+    concept _has_adl_alt = requires(const G& g) {
       { has_edge(g) } -> std::convertible_to<bool>;
     };
 
@@ -2901,9 +2913,13 @@ namespace _cpo_impls {
     template <typename G>
     [[nodiscard]] consteval _Choice_t<_St> _Choose() noexcept {
       if constexpr (_has_member<G>) {
-        return {_St::_member, noexcept(std::declval<const G&>().has_edge())};
+        return {_St::_member, noexcept(std::declval<const G&>().has_edges())};
+      } else if constexpr (_has_member_alt<G>) {
+        return {_St::_member_alt, noexcept(std::declval<const G&>().has_edge())};
       } else if constexpr (_has_adl<G>) {
-        return {_St::_adl, noexcept(has_edge(std::declval<const G&>()))};
+        return {_St::_adl, noexcept(has_edges(std::declval<const G&>()))};
+      } else if constexpr (_has_adl_alt<G>) {
+        return {_St::_adl_alt, noexcept(has_edge(std::declval<const G&>()))};
       } else if constexpr (_has_default<G>) {
         // Default implementation is not noexcept as it may allocate
         return {_St::_default, false};
@@ -2922,8 +2938,8 @@ namespace _cpo_impls {
              * @brief Check if the graph has any edges
              * 
              * Resolution order:
-             * 1. g.has_edge() - Member function (highest priority)
-             * 2. has_edge(g) - ADL (medium priority)
+             * 1. g.has_edges(), or g.has_edge() - Member function (highest priority)
+             * 2. has_edges(g), or has_edge(g) - ADL (medium priority)
              * 3. Default implementation (lowest priority) - Iterates through vertices
              *    and checks if any vertex has a non-empty edges range
              * 
@@ -2944,8 +2960,12 @@ namespace _cpo_impls {
         using _G = std::remove_cvref_t<G>;
 
         if constexpr (_Choice<_G>._Strategy == _St::_member) {
+          return g.has_edges();
+        } else if constexpr (_Choice<_G>._Strategy == _St::_member_alt) {
           return g.has_edge();
         } else if constexpr (_Choice<_G>._Strategy == _St::_adl) {
+          return has_edges(g);
+        } else if constexpr (_Choice<_G>._Strategy == _St::_adl_alt) {
           return has_edge(g);
         } else if constexpr (_Choice<_G>._Strategy == _St::_default) {
           // Default implementation: check if any vertex has edges
-- 
2.43.0


From 59ae4bac0588fa1740f26ebc05553a649ec8a563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 51/56] fix: a throwing edge value no longer terminates or
 leaks in undirected_adjacency_list::create_edge

---
 .../detail/undirected_adjacency_list_impl.hpp | 14 +++---
 .../container/undirected_adjacency_list.hpp   | 50 +++++++++++--------
 2 files changed, 37 insertions(+), 27 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index becb407..d4bd510 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -485,7 +485,7 @@ template <typename EV,
           integral VId,
           template <typename V, typename A> class VContainer,
           typename Alloc>
-ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type& g, vertex_id_type uid, vertex_id_type vid) noexcept
+ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type& g, vertex_id_type uid, vertex_id_type vid)
       : base_value_type(), vertex_edge_list_inward_link_type(uid), vertex_edge_list_outward_link_type(vid) {
   link_back(g.vertices()[uid], g.vertices()[vid]);
 }
@@ -499,7 +499,7 @@ template <typename EV,
 ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type&            g,
                                                        vertex_id_type         uid,
                                                        vertex_id_type         vid,
-                                                       const edge_value_type& val) noexcept
+                                                       const edge_value_type& val)
       : base_value_type(val), vertex_edge_list_inward_link_type(uid), vertex_edge_list_outward_link_type(vid) {
   link_back(g.vertices()[uid], g.vertices()[vid]);
 }
@@ -513,7 +513,7 @@ template <typename EV,
 ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type&       g,
                                                        vertex_id_type    uid,
                                                        vertex_id_type    vid,
-                                                       edge_value_type&& val) noexcept
+                                                       edge_value_type&& val)
       : base_value_type(move(val)), vertex_edge_list_inward_link_type(uid), vertex_edge_list_outward_link_type(vid) {
   link_back(g.vertices()[uid], g.vertices()[vid]);
 }
@@ -524,7 +524,7 @@ template <typename EV,
           integral VId,
           template <typename V, typename A> class VContainer,
           typename Alloc>
-ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type& g, vertex_iterator ui, vertex_iterator vi) noexcept
+ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type& g, vertex_iterator ui, vertex_iterator vi)
       : base_value_type()
       , vertex_edge_list_inward_link_type(static_cast<vertex_id_type>(ui - g.vertices().begin()))
       , vertex_edge_list_outward_link_type(static_cast<vertex_id_type>(vi - g.vertices().begin())) {
@@ -540,7 +540,7 @@ template <typename EV,
 ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type&            g,
                                                        vertex_iterator        ui,
                                                        vertex_iterator        vi,
-                                                       const edge_value_type& val) noexcept
+                                                       const edge_value_type& val)
       : base_value_type(val)
       , vertex_edge_list_inward_link_type(static_cast<vertex_id_type>(ui - g.vertices().begin()))
       , vertex_edge_list_outward_link_type(static_cast<vertex_id_type>(vi - g.vertices().begin())) {
@@ -556,7 +556,7 @@ template <typename EV,
 ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type&       g,
                                                        vertex_iterator   ui,
                                                        vertex_iterator   vi,
-                                                       edge_value_type&& val) noexcept
+                                                       edge_value_type&& val)
       : base_value_type(move(val))
       , vertex_edge_list_inward_link_type(static_cast<vertex_id_type>(ui - g.vertices().begin()))
       , vertex_edge_list_outward_link_type(static_cast<vertex_id_type>(vi - g.vertices().begin())) {
@@ -791,7 +791,7 @@ template <typename EV,
           typename Alloc>
 ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::ual_vertex([[maybe_unused]] vertex_set&  vertices,
                                                            [[maybe_unused]] vertex_index index,
-                                                           vertex_value_type&&           val) noexcept
+                                                           vertex_value_type&&           val)
       : base_value_type(move(val)) {}
 
 
diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index c68ee3c..f3cb1f4 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -656,20 +656,20 @@ public:
 protected:
   // noexcept is only defined for move ctor & assignment b/c the user-defined value type could
   // throw an exception in other cases
-  ual_edge() noexcept                = default;
-  ual_edge(const ual_edge&) noexcept = default;
-  ual_edge(ual_edge&&) noexcept      = default;
+  ual_edge()                    = default;
+  ual_edge(const ual_edge&)     = default;
+  ual_edge(ual_edge&&) noexcept = default;
   ~ual_edge() noexcept;
-  ual_edge& operator=(ual_edge&) noexcept  = default;
+  ual_edge& operator=(ual_edge&)           = default;
   ual_edge& operator=(ual_edge&&) noexcept = default;
 
-  ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid) noexcept;
-  ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid, const edge_value_type&) noexcept;
-  ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid, edge_value_type&&) noexcept;
+  ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid);
+  ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid, const edge_value_type&);
+  ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid, edge_value_type&&);
 
-  ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi) noexcept;
-  ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi, const edge_value_type&) noexcept;
-  ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi, edge_value_type&&) noexcept;
+  ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi);
+  ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi, const edge_value_type&);
+  ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi, edge_value_type&&);
 
   void link_front(vertex_type&, vertex_type&) noexcept;
   void link_back(vertex_type&, vertex_type&) noexcept;
@@ -1158,9 +1158,7 @@ public: // Edge Creation
   /// @complexity O(1).
   vertex_edge_iterator create_edge(vertex_iterator u, vertex_iterator v) {
     vertex_id_type uid = static_cast<vertex_id_type>(u - this->vertices_.begin());
-    edge_type*     uv  = this->edge_alloc_.allocate(1);
-    new (uv) edge_type(static_cast<graph_type&>(*this), u, v);
-    ++this->edges_size_;
+    edge_type*     uv  = new_edge(u, v);
     return vertex_edge_iterator(static_cast<graph_type&>(*this), uid, uv);
   }
 
@@ -1172,9 +1170,7 @@ public: // Edge Creation
   /// @complexity O(1).
   vertex_edge_iterator create_edge(vertex_iterator u, vertex_iterator v, edge_value_type&& val) {
     vertex_id_type uid = static_cast<vertex_id_type>(u - this->vertices_.begin());
-    edge_type*     uv  = this->edge_alloc_.allocate(1);
-    new (uv) edge_type(static_cast<graph_type&>(*this), u, v, std::move(val));
-    ++this->edges_size_;
+    edge_type*     uv  = new_edge(u, v, std::move(val));
     return vertex_edge_iterator(static_cast<graph_type&>(*this), uid, uv);
   }
 
@@ -1189,12 +1185,26 @@ public: // Edge Creation
   requires std::constructible_from<EV, const EV2&>
   vertex_edge_iterator create_edge(vertex_iterator u, vertex_iterator v, const EV2& val) {
     vertex_id_type uid = static_cast<vertex_id_type>(u - this->vertices_.begin());
-    edge_type*     uv  = this->edge_alloc_.allocate(1);
-    new (uv) edge_type(static_cast<graph_type&>(*this), u, v, val);
-    ++this->edges_size_;
+    edge_type*     uv  = new_edge(u, v, val);
     return vertex_edge_iterator(static_cast<graph_type&>(*this), uid, uv);
   }
 
+private:
+  // Allocates and links an edge. When the edge's value can't be constructed its memory is given back and
+  // the graph is unchanged.
+  template <class... Value>
+  edge_type* new_edge(vertex_iterator u, vertex_iterator v, Value&&... val) {
+    edge_type* uv = this->edge_alloc_.allocate(1);
+    try {
+      new (uv) edge_type(static_cast<graph_type&>(*this), u, v, std::forward<Value>(val)...);
+    } catch (...) {
+      this->edge_alloc_.deallocate(uv, 1);
+      throw;
+    }
+    ++this->edges_size_;
+    return uv;
+  }
+
 public: // Edge Removal
   /// @brief Erase an edge from the graph.
   /// @param pos Iterator to the edge to erase.
@@ -1410,7 +1420,7 @@ public:
 
   ual_vertex(vertex_set& vertices, vertex_index index);
   ual_vertex(vertex_set& vertices, vertex_index index, const vertex_value_type&);
-  ual_vertex(vertex_set& vertices, vertex_index index, vertex_value_type&&) noexcept;
+  ual_vertex(vertex_set& vertices, vertex_index index, vertex_value_type&&);
 
 public:
 #  if 0
-- 
2.43.0


From 8ff55e2d461200ae573a4cadcee315c359ccb289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 52/56] fix: undirected_adjacency_list constructors release
 their edges when they fail part way

---
 .../detail/undirected_adjacency_list_impl.hpp         | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index d4bd510..d5b8298 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -1084,7 +1084,8 @@ template <typename EV,
           template <typename V, typename A> class VContainer,
           typename Alloc>
 base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirected_adjacency_list(
-      const base_undirected_adjacency_list& other) {
+      const base_undirected_adjacency_list& other)
+      : base_undirected_adjacency_list() { // delegates, so the destructor releases the edges if copying fails
   // Copy base class members
   edge_alloc_ = other.edge_alloc_;
 
@@ -1135,7 +1136,7 @@ requires ranges::forward_range<ERng> && ranges::input_range<VRng> &&
                std::regular_invocable<VProj, ranges::range_reference_t<VRng>>
 base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirected_adjacency_list(
       const ERng& erng, const VRng& vrng, const EProj& eproj, const VProj& vproj, const allocator_type& alloc)
-      : vertices_(alloc), edge_alloc_(alloc) {
+      : base_undirected_adjacency_list(alloc) { // delegates, so the destructor releases the edges on failure
   // Handle empty case - no vertices or edges to create
   if (vrng.empty() && ranges::empty(erng)) {
     return;
@@ -1149,7 +1150,7 @@ base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirec
     auto&& edge_data = eproj(e); // copyable_edge_t<VId, EV>
     max_vtx_id       = max(max_vtx_id, max(edge_data.source_id, edge_data.target_id));
     if (!first && edge_data.source_id < last_uid)
-      throw_unordered_edges(); // before any edge has been created; the destructor doesn't run
+      throw_unordered_edges();
     last_uid = edge_data.source_id;
     first    = false;
   }
@@ -1190,7 +1191,7 @@ template <typename EV,
 base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirected_adjacency_list(
       const initializer_list<tuple<vertex_id_type, vertex_id_type, edge_value_type>>& ilist,
       const allocator_type&                                                           alloc)
-      : vertices_(alloc), edge_alloc_(alloc) {
+      : base_undirected_adjacency_list(alloc) { // delegates, so the destructor releases the edges on failure
   // Evaluate max vertex id needed
   vertex_id_type max_vtx_id = vertex_id_type();
   for (auto& edge_data : ilist) {
@@ -1218,7 +1219,7 @@ template <typename EV,
           typename Alloc>
 base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirected_adjacency_list(
       const initializer_list<tuple<vertex_id_type, vertex_id_type>>& ilist, const allocator_type& alloc)
-      : vertices_(alloc), edge_alloc_(alloc) {
+      : base_undirected_adjacency_list(alloc) { // delegates, so the destructor releases the edges on failure
   // Evaluate max vertex id needed
   vertex_id_type max_vtx_id = vertex_id_type();
   for (auto& edge_data : ilist) {
-- 
2.43.0


From d5fa1ca3f008a86ebe116be03752c6308ad1925f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 53/56] fix: clear() of compressed_graph and dynamic_graph no
 longer allocates

---
 include/graph/container/compressed_graph.hpp | 3 +--
 include/graph/container/dynamic_graph.hpp    | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index d352e75..f1e8cb4 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -501,8 +501,7 @@ public: // Properties - resolve ambiguity from multiple inheritance
     col_index_.clear();
     row_values_base::clear();
     col_values_base::clear();
-    partition_.clear();
-    terminate_partitions();
+    partition_.clear(); // no partitions listed: all vertices are in partition 0
   }
 
   /**
diff --git a/include/graph/container/dynamic_graph.hpp b/include/graph/container/dynamic_graph.hpp
index 960ef74..40414b4 100644
--- a/include/graph/container/dynamic_graph.hpp
+++ b/include/graph/container/dynamic_graph.hpp
@@ -1513,8 +1513,7 @@ public: // Operations
 
   void clear() noexcept {
     vertices_.clear();
-    partition_.clear();
-    partition_.push_back(VId{});
+    partition_.clear(); // no partitions listed: all vertices are in partition 0
     edge_count_ = 0;
   }
 
-- 
2.43.0


From 17c2ca895c6c7339f1ce2395bc4fb0dde0284159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 54/56] fix: a failed copy assignment leaves a compressed_graph
 empty rather than inconsistent

---
 include/graph/container/compressed_graph.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index f1e8cb4..cac5445 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -447,8 +447,22 @@ public: // Construction/Destruction
   constexpr compressed_graph_base(compressed_graph_base&&)      = default;
   constexpr ~compressed_graph_base()                            = default;
 
-  constexpr compressed_graph_base& operator=(const compressed_graph_base&) = default;
-  constexpr compressed_graph_base& operator=(compressed_graph_base&&)      = default;
+  constexpr compressed_graph_base& operator=(const compressed_graph_base& other) {
+    if (this != &other) {
+      try {
+        row_values_base::operator=(other);
+        col_values_base::operator=(other);
+        row_index_ = other.row_index_;
+        col_index_ = other.col_index_;
+        partition_ = other.partition_;
+      } catch (...) {
+        clear(); // rows, columns and values that were copied don't fit the ones that weren't
+        throw;
+      }
+    }
+    return *this;
+  }
+  constexpr compressed_graph_base& operator=(compressed_graph_base&&) = default;
 
   constexpr compressed_graph_base(const Alloc& alloc)
         : row_values_base(alloc), col_values_base(alloc), row_index_(alloc), col_index_(alloc), partition_(alloc) {
-- 
2.43.0


From fecd0cb8965140eda6122a898ed076544b9cef34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 55/56] fix: a failed load_edges leaves a compressed_graph
 without edges rather than inconsistent

---
 include/graph/container/compressed_graph.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index cac5445..d21ac6c 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -714,6 +714,8 @@ public: // Operations
       return;
     }
 
+    unload_on_failure unload{this};
+
     // We can get the last vertex id from the list because erng is required to be ordered by
     // the source id. It's possible a target_id could have a larger id also, which is taken
     // care of at the end of this function.
@@ -762,6 +764,7 @@ public: // Operations
     // getting a value for a row.
     if (row_values_base::size() > 1 && row_values_base::size() < vertex_count)
       row_values_base::resize(vertex_count);
+    unload.graph = nullptr;
   }
 
   // The only diff with this and ERng&& is v_.push_back vs. v_.emplace_back
@@ -779,6 +782,8 @@ public: // Operations
       return;
     }
 
+    unload_on_failure unload{this};
+
     // We can get the last vertex id from the list because erng is required to be ordered by
     // the source id. It's possible a target_id could have a larger id also, which is taken
     // care of at the end of this function.
@@ -845,6 +850,7 @@ public: // Operations
     // getting a value for a row.
     if (row_values_base::size() > 0 && row_values_base::size() < vertex_count)
       row_values_base::resize(vertex_count);
+    unload.graph = nullptr;
   }
 
   /**
@@ -885,6 +891,20 @@ public: // Operations
   }
 
 protected:
+  // When loading the edges fails part way the rows and columns don't fit together; the graph is left without
+  // them, as it was before load_edges() was called.
+  struct unload_on_failure {
+    compressed_graph_base* graph;
+
+    constexpr ~unload_on_failure() {
+      if (graph) {
+        graph->row_index_.clear();
+        graph->col_index_.clear();
+        static_cast<col_values_base*>(graph)->clear();
+      }
+    }
+  };
+
   template <class ERng, class EProj>
   constexpr vertex_id_type last_erng_id(ERng&& erng, EProj eprojection) const {
     vertex_id_type last_id = vertex_id_type();
-- 
2.43.0


From ce5e52367eb5f19422e41ca9fcf3deda898549bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 56/56] fix: a failed copy assignment leaves a dynamic_graph
 empty rather than inconsistent

---
 include/graph/container/dynamic_graph.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/dynamic_graph.hpp b/include/graph/container/dynamic_graph.hpp
index 40414b4..2282420 100644
--- a/include/graph/container/dynamic_graph.hpp
+++ b/include/graph/container/dynamic_graph.hpp
@@ -933,8 +933,20 @@ public: // Construction/Destruction/Assignment
   constexpr dynamic_graph_base(dynamic_graph_base&&)      = default;
   constexpr ~dynamic_graph_base()                         = default;
 
-  constexpr dynamic_graph_base& operator=(const dynamic_graph_base&) = default;
-  constexpr dynamic_graph_base& operator=(dynamic_graph_base&&)      = default;
+  constexpr dynamic_graph_base& operator=(const dynamic_graph_base& other) {
+    if (this != &other) {
+      try {
+        vertices_   = other.vertices_;
+        partition_  = other.partition_;
+        edge_count_ = other.edge_count_;
+      } catch (...) {
+        clear(); // edges that were copied may lead to vertices that weren't
+        throw;
+      }
+    }
+    return *this;
+  }
+  constexpr dynamic_graph_base& operator=(dynamic_graph_base&&) = default;
 
   /**
    * @brief Construct an empty graph using the allocator passed.
-- 
2.43.0

