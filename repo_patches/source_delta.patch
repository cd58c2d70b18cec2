From 36ac53a7e948f65c1f0ab9eeb468cd451270b7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:37 +0000
Subject: [PATCH 01/13] fix: carry pointwise fields through 1D coarsening

transfer_pointwise handled 2D and 3D meshes only, so coarsening a 1D mesh
silently dropped every field with the OMEGA_H_POINTWISE rule.
---
 src/Omega_h_transfer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Omega_h_transfer.cpp b/src/Omega_h_transfer.cpp
index 9aa7595..5d89ed0 100644
--- a/src/Omega_h_transfer.cpp
+++ b/src/Omega_h_transfer.cpp
@@ -577,6 +577,10 @@ void transfer_pointwise(Mesh* old_mesh, TransferOpts const& opts,
         transfer_pointwise_tmpl<2>(old_mesh, new_mesh, key_dim, keys2kds,
             keys2prods, prods2new_ents, same_ents2old_ents, same_ents2new_ents,
             tagbase);
+      } else if (dim == 1) {
+        transfer_pointwise_tmpl<1>(old_mesh, new_mesh, key_dim, keys2kds,
+            keys2prods, prods2new_ents, same_ents2old_ents, same_ents2new_ents,
+            tagbase);
       }
     }
   }
-- 
2.43.0


From 4f510e932462156d07347974ad14f96d4a7cef62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:37 +0000
Subject: [PATCH 02/13] fix: inherit all components of a field in AMR
 refinement

transfer_inherit allocated one value per entity and copied one value per
product, writing out of bounds for fields with more than one component.
---
 src/Omega_h_amr_transfer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Omega_h_amr_transfer.cpp b/src/Omega_h_amr_transfer.cpp
index c339943..732b582 100644
--- a/src/Omega_h_amr_transfer.cpp
+++ b/src/Omega_h_amr_transfer.cpp
@@ -139,7 +139,7 @@ void transfer_inherit(Mesh* old_mesh, Mesh* new_mesh,
   Few<Write<T>, 4> new_data;
   auto ncomps = old_mesh->get_tag<T>(0, name)->ncomps();
   for (Int prod_dim = 0; prod_dim <= old_mesh->dim(); ++prod_dim) {
-    new_data[prod_dim] = Write<T>(new_mesh->nents(prod_dim), -1);
+    new_data[prod_dim] = Write<T>(new_mesh->nents(prod_dim) * ncomps, -1);
     auto old_data = old_mesh->get_array<T>(prod_dim, name);
     auto same_data =
         read(unmap(same_ents2old_ents[prod_dim], old_data, ncomps));
@@ -153,7 +153,10 @@ void transfer_inherit(Mesh* old_mesh, Mesh* new_mesh,
       auto parent_ent = parents.parent_idx[prod_ent];
       auto code = parents.codes[prod_ent];
       auto parent_dim = code_parent_dim(code);
-      new_data[prod_dim][prod_ent] = new_data[parent_dim][parent_ent];
+      for (Int comp = 0; comp < ncomps; ++comp) {
+        new_data[prod_dim][prod_ent * ncomps + comp] =
+            new_data[parent_dim][parent_ent * ncomps + comp];
+      }
     };
     parallel_for(prods2new_ents[prod_dim].size(), f);
     new_mesh->add_tag(
-- 
2.43.0


From d706159bfe788ec08dd48348219ad4cfaf40421c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 03/13] fix: an empty 1D polytope has no length

---
 src/r3d.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/r3d.hpp b/src/r3d.hpp
index 38b88c1..8d0aa97 100644
--- a/src/r3d.hpp
+++ b/src/r3d.hpp
@@ -866,6 +866,7 @@ R3D_INLINE Real integrate(
    integrate() for 1D edges, just hardcode the
    length measurement */
 R3D_INLINE Real measure(Polytope<1> const& polytope) {
+  if (polytope.nverts <= 0) return 0.0;
   return std::abs(polytope.verts[1].pos[0] - polytope.verts[0].pos[0]);
 }
 
-- 
2.43.0


From f5b3523c65317ddcb552c2085dd4da68a6dec87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:04 +0000
Subject: [PATCH 04/13] fix: number only owned entities when de-refining in
 parallel

---
 src/Omega_h_amr.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_amr.cpp b/src/Omega_h_amr.cpp
index bd31771..85d7495 100644
--- a/src/Omega_h_amr.cpp
+++ b/src/Omega_h_amr.cpp
@@ -1,6 +1,7 @@
 #include <Omega_h_amr.hpp>
 #include <Omega_h_amr_topology.hpp>
 #include <Omega_h_amr_transfer.hpp>
+#include <Omega_h_array_ops.hpp>
 #include <Omega_h_for.hpp>
 #include <Omega_h_globals.hpp>
 #include <Omega_h_hypercube.hpp>
@@ -197,7 +198,12 @@ void derefine(Mesh* mesh, Bytes elems_are_marked, TransferOpts xfer_opts) {
     auto does_ent_persist = mesh->get_array<Byte>(ent_dim, "persists");
     new_ents2old_ents[ent_dim] = collect_marked(does_ent_persist);
     mesh->remove_tag(ent_dim, "persists");
-    auto old_ents2new_globals = rescan_globals(mesh, does_ent_persist);
+    auto does_any_copy_persist =
+        mesh->reduce_array(ent_dim, does_ent_persist, 1, OMEGA_H_MAX);
+    auto is_ent_counted =
+        land_each(does_any_copy_persist, mesh->owned(ent_dim));
+    auto old_ents2new_globals =
+        mesh->sync_array(ent_dim, rescan_globals(mesh, is_ent_counted), 1);
     new_globals[ent_dim] =
         unmap(new_ents2old_ents[ent_dim], old_ents2new_globals, 1);
   }
-- 
2.43.0


From b2167a2d024aaafdf58612eb8251ca4d44370502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:10 +0000
Subject: [PATCH 05/13] fix: coalesce: offsets are the sizes of the arrays
 before

---
 src/Omega_h_array_ops.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_array_ops.cpp b/src/Omega_h_array_ops.cpp
index b11356b..f13af03 100644
--- a/src/Omega_h_array_ops.cpp
+++ b/src/Omega_h_array_ops.cpp
@@ -450,7 +450,7 @@ Read<T> coalesce(std::vector<Read<T>> arrays) {
   OMEGA_H_CHECK(offsets.data() != nullptr);
   offsets[0] = 0;
   for (std::size_t i = 1; i <= arrays.size(); ++i) {
-    offsets[i] = offsets[i - 1] + arrays[i].size();
+    offsets[i] = offsets[i - 1] + arrays[i - 1].size();
   }
   auto out_size = offsets[arrays.size()];
   auto out = Write<T>(out_size);
-- 
2.43.0


From 01b586010ff2ccc3d15e7650c6c92a973c0534a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:29 +0000
Subject: [PATCH 06/13] fix: take the number of sides of an element from its
 family in elements_across_sides

---
 src/Omega_h_adj.cpp      | 7 ++++---
 src/Omega_h_adj.hpp      | 5 +++--
 src/Omega_h_conserve.cpp | 3 ++-
 src/Omega_h_mesh.cpp     | 2 +-
 4 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/Omega_h_adj.cpp b/src/Omega_h_adj.cpp
index 8b03448..ad15e6a 100644
--- a/src/Omega_h_adj.cpp
+++ b/src/Omega_h_adj.cpp
@@ -619,13 +619,14 @@ class elements_across_sides_count_functor {
   };
 };
 
-Graph elements_across_sides(Int const dim, Adj const elems2sides,
-    Adj const sides2elems, Read<I8> const side_is_exposed) {
+Graph elements_across_sides(Omega_h_Family const family, Int const dim,
+    Adj const elems2sides, Adj const sides2elems,
+    Read<I8> const side_is_exposed) {
   OMEGA_H_TIME_FUNCTION;
   auto const elem_side2side = elems2sides.ab2b;
   auto const side2side_elems = sides2elems.a2ab;
   auto const side_elem2elem = sides2elems.ab2b;
-  Int const nsides_per_elem = dim + 1;
+  Int const nsides_per_elem = element_degree(family, dim, dim - 1);
   auto const nelems =
       divide_no_remainder(elem_side2side.size(), nsides_per_elem);
   Write<LO> degrees(nelems);
diff --git a/src/Omega_h_adj.hpp b/src/Omega_h_adj.hpp
index 61dbd0b..90dfd1b 100644
--- a/src/Omega_h_adj.hpp
+++ b/src/Omega_h_adj.hpp
@@ -95,8 +95,9 @@ Adj transit(Adj const h2m, Adj const m2l, Omega_h_Family const family,
 Graph verts_across_edges(Adj const e2v, Adj const v2e);
 Graph edges_across_tris(Adj const f2e, Adj const e2f);
 Graph edges_across_tets(Adj const r2e, Adj const e2r);
-Graph elements_across_sides(Int const dim, Adj const elems2sides,
-    Adj const sides2elems, Read<I8> const side_is_exposed);
+Graph elements_across_sides(Omega_h_Family const family, Int const dim,
+    Adj const elems2sides, Adj const sides2elems,
+    Read<I8> const side_is_exposed);
 
 template <Int nhhl>
 OMEGA_H_DEVICE Few<LO, nhhl> gather_down(LOs const& hl2l, Int h) {
diff --git a/src/Omega_h_conserve.cpp b/src/Omega_h_conserve.cpp
index e80d89a..c31a721 100644
--- a/src/Omega_h_conserve.cpp
+++ b/src/Omega_h_conserve.cpp
@@ -630,7 +630,8 @@ static Graph get_elem_diffusion_graph(Mesh* mesh) {
   }
   auto elems2sides = mesh->ask_down(dim, dim - 1);
   auto sides2elems = mesh->ask_up(dim - 1, dim);
-  return elements_across_sides(dim, elems2sides, sides2elems, sides_are_bdry);
+  return elements_across_sides(
+      mesh->family(), dim, elems2sides, sides2elems, sides_are_bdry);
 }
 
 Reals diffuse_densities_once(
diff --git a/src/Omega_h_mesh.cpp b/src/Omega_h_mesh.cpp
index 100971d..8d13321 100644
--- a/src/Omega_h_mesh.cpp
+++ b/src/Omega_h_mesh.cpp
@@ -322,7 +322,7 @@ Adj Mesh::derive_adj(Int from, Int to) {
     return h2l;
   } else {
     if (from == dim() && to == dim()) {
-      return elements_across_sides(dim(), ask_adj(dim(), dim() - 1),
+      return elements_across_sides(family_, dim(), ask_adj(dim(), dim() - 1),
           ask_adj(dim() - 1, dim()), mark_exposed_sides(this));
     }
     if (from == VERT && to == VERT) {
-- 
2.43.0


From f11979fd85ac3e6b8fe94fe15daec126a3ef0398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:20 +0000
Subject: [PATCH 07/13] fix: ghosting hypercube meshes by several layers uses
 the vertices per element of the family

---
 src/Omega_h_ghost.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_ghost.cpp b/src/Omega_h_ghost.cpp
index 5f72da2..e190016 100644
--- a/src/Omega_h_ghost.cpp
+++ b/src/Omega_h_ghost.cpp
@@ -1,5 +1,6 @@
 #include "Omega_h_ghost.hpp"
 
+#include "Omega_h_element.hpp"
 #include "Omega_h_for.hpp"
 #include "Omega_h_map.hpp"
 #include "Omega_h_mesh.hpp"
@@ -89,7 +90,7 @@ static Dist close_up(
 }
 
 static Dist close_down(Mesh* mesh, Remotes old_use_owners, Dist elems2owners) {
-  auto nverts_per_elem = mesh->dim() + 1;
+  auto nverts_per_elem = element_degree(mesh->family(), mesh->dim(), VERT);
   auto owners2elems = elems2owners.invert();
   auto new_use_owners = owners2elems.exch(old_use_owners, nverts_per_elem);
   Dist uses2old_owners(mesh->comm(), new_use_owners, mesh->nents(VERT));
-- 
2.43.0


From ad3097a17568456e82e9a74f38d67a6e636bb0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:15 +0000
Subject: [PATCH 08/13] fix: assigning an array to itself released its storage

---
 src/Omega_h_shared_alloc.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Omega_h_shared_alloc.hpp b/src/Omega_h_shared_alloc.hpp
index 75d75e9..bc5f139 100644
--- a/src/Omega_h_shared_alloc.hpp
+++ b/src/Omega_h_shared_alloc.hpp
@@ -105,11 +105,13 @@ struct SharedAlloc {
   }
   OMEGA_H_INLINE SharedAlloc(SharedAlloc&& other) { move(std::move(other)); }
   OMEGA_H_INLINE SharedAlloc& operator=(SharedAlloc const& other) {
+    if (this == &other) return *this;
     clear();
     copy(other);
     return *this;
   }
   OMEGA_H_INLINE SharedAlloc& operator=(SharedAlloc&& other) {
+    if (this == &other) return *this;
     clear();
     move(std::move(other));
     return *this;
-- 
2.43.0


From 022c1a066de11dafe5a59b646e78e2058b1f237e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:15 +0000
Subject: [PATCH 09/13] fix: the list of tracked allocations lost entries (its
 end was not updated)

---
 src/Omega_h_shared_alloc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_shared_alloc.cpp b/src/Omega_h_shared_alloc.cpp
index 6c3a0a9..e9e026c 100644
--- a/src/Omega_h_shared_alloc.cpp
+++ b/src/Omega_h_shared_alloc.cpp
@@ -98,8 +98,8 @@ void Alloc::init() {
       old_last->next = this;
     } else {
       ga->first = this;
-      ga->last = this;
     }
+    ga->last = this;
     ga->total_bytes += size;
     if (ga->total_bytes > ga->high_water_bytes) {
       Omega_h::ScopedTimer high_water_timer("high water update");
-- 
2.43.0


From ccbf9282619e9eceb4dbbeee4d669e4c6a0ade12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:15 +0000
Subject: [PATCH 10/13] fix: Mesh::set_comm kept exchange plans of the old
 communicator

---
 src/Omega_h_mesh.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Omega_h_mesh.cpp b/src/Omega_h_mesh.cpp
index 8d13321..f0cc546 100644
--- a/src/Omega_h_mesh.cpp
+++ b/src/Omega_h_mesh.cpp
@@ -68,6 +68,7 @@ void Mesh::set_comm(CommPtr const& new_comm) {
       auto dist = ask_dist(d);
       dist.change_comm(new_comm);
       owners_[d].ranks = dist.items2ranks();
+      dists_[d] = DistPtr();
     }
   }
   comm_ = new_comm;
-- 
2.43.0


From 94f43704a26f01de0a2c6d9c29b4827b3886e34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:15 +0000
Subject: [PATCH 11/13] fix: Mesh::set_parents kept children derived from the
 old parents

---
 src/Omega_h_mesh.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Omega_h_mesh.cpp b/src/Omega_h_mesh.cpp
index f0cc546..517ecf4 100644
--- a/src/Omega_h_mesh.cpp
+++ b/src/Omega_h_mesh.cpp
@@ -98,6 +98,7 @@ void Mesh::set_ents(Int ent_dim, Adj down) {
 void Mesh::set_parents(Int ent_dim, Parents parents) {
   check_dim2(ent_dim);
   parents_[ent_dim] = std::make_shared<Parents>(parents);
+  for (Int d = 0; d < DIMS; ++d) children_[d][ent_dim] = ChildrenPtr();
 }
 
 CommPtr Mesh::comm() const { return comm_; }
-- 
2.43.0


From f61ab384a406a760c63144b74e9727ba9b03dd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:15 +0000
Subject: [PATCH 12/13] fix: Mesh::get_tag accepted an index one past the last
 tag

---
 src/Omega_h_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_mesh.cpp b/src/Omega_h_mesh.cpp
index 517ecf4..ecee45b 100644
--- a/src/Omega_h_mesh.cpp
+++ b/src/Omega_h_mesh.cpp
@@ -218,7 +218,7 @@ Int Mesh::ntags(Int ent_dim) const {
 TagBase const* Mesh::get_tag(Int ent_dim, Int i) const {
   check_dim2(ent_dim);
   OMEGA_H_CHECK(0 <= i);
-  OMEGA_H_CHECK(i <= ntags(ent_dim));
+  OMEGA_H_CHECK(i < ntags(ent_dim));
   return tags_[ent_dim][static_cast<std::size_t>(i)].get();
 }
 
-- 
2.43.0


From ef92a44b48fd56286d15ecafcc3f0ac43216984f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:15 +0000
Subject: [PATCH 13/13] fix: Mesh::add_tag looked for the tag before checking
 the dimension

---
 src/Omega_h_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_mesh.cpp b/src/Omega_h_mesh.cpp
index ecee45b..ad3252e 100644
--- a/src/Omega_h_mesh.cpp
+++ b/src/Omega_h_mesh.cpp
@@ -134,10 +134,10 @@ void Mesh::add_tag(Int ent_dim, std::string const& name, Int ncomps) {
 template <typename T>
 void Mesh::add_tag(Int ent_dim, std::string const& name, Int ncomps,
     Read<T> array, bool internal) {
+  check_dim2(ent_dim);
   auto it = this->tag_iter(ent_dim, name);
   bool const had = (it != tags_[ent_dim].end());
   if (!had) {
-    check_dim2(ent_dim);
     check_tag_name(name);
     OMEGA_H_CHECK(ncomps >= 0);
     OMEGA_H_CHECK(ncomps <= Int(INT8_MAX));
-- 
2.43.0

