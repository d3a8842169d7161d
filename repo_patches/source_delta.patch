From 92de1429413988986de41ecf735daca0a015b74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:28 +0000
Subject: [PATCH 01/65] fix: accept a triangle family only if all member types
 match

---
 src/t8_schemes/t8_default/t8_default_tri/t8_dtri_bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_schemes/t8_default/t8_default_tri/t8_dtri_bits.c b/src/t8_schemes/t8_default/t8_default_tri/t8_dtri_bits.c
index 5c2d777..e870145 100644
--- a/src/t8_schemes/t8_default/t8_default_tri/t8_dtri_bits.c
+++ b/src/t8_schemes/t8_default/t8_default_tri/t8_dtri_bits.c
@@ -652,7 +652,7 @@ t8_dtri_is_familypv (const t8_dtri_t *f[])
   }
   /* check whether the types are correct */
   const int type = f[0]->type;
-  if (f[1]->type != 0 && f[2]->type != 1 && f[3]->type != type) {
+  if (f[1]->type != 0 || f[2]->type != 1 || f[3]->type != type) {
     return 0;
   }
   /* check whether the coordinates are correct
-- 
2.43.0


From 421fc5bf77c5eb631256b46e9d3c6d6a2b32157e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:28 +0000
Subject: [PATCH 02/65] fix: check the type of the last member of a tetrahedron
 family

---
 src/t8_schemes/t8_default/t8_default_tet/t8_dtet_bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_schemes/t8_default/t8_default_tet/t8_dtet_bits.c b/src/t8_schemes/t8_default/t8_default_tet/t8_dtet_bits.c
index 3cf1ef0..3ec9253 100644
--- a/src/t8_schemes/t8_default/t8_default_tet/t8_dtet_bits.c
+++ b/src/t8_schemes/t8_default/t8_default_tet/t8_dtet_bits.c
@@ -33,7 +33,7 @@ t8_dtet_is_familypv (const t8_dtri_t *f[])
   }
   /* check whether the types are correct */
   const int type = f[0]->type;
-  for (int local_ind = 1; local_ind < T8_DTET_CHILDREN - 1; local_ind++) {
+  for (int local_ind = 1; local_ind < T8_DTET_CHILDREN; local_ind++) {
     if (f[local_ind]->type != t8_dtet_type_of_child_morton[type][local_ind]) {
       return 0;
     }
-- 
2.43.0


From d7186c2bb61f21904801c025d889fab491682a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:28 +0000
Subject: [PATCH 03/65] fix: standalone family query must answer for level 0
 and mixed-level members

---
 .../t8_standalone/t8_standalone_implementation.hxx        | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx b/src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx
index c11e37c..236c146 100644
--- a/src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx
+++ b/src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx
@@ -587,10 +587,18 @@ struct t8_standalone_scheme: public t8_scheme_helpers<TEclass, t8_standalone_sch
 #endif
 
     t8_standalone_element<TEclass> parent, compare;
+    /* Level 0 elements do not form a family */
+    if (element_get_level (fam[0]) == 0) {
+      return 0;
+    }
     /* Take the parent of the first element as baseline to compare against */
     element_get_parent ((const t8_element_t *) fam[0], (t8_element_t *) &parent);
     const int num_children = element_get_num_children ((const t8_element_t *) &parent);
     for (int childid = 0; childid < num_children; childid++) {
+      /* All members of a family have the same level */
+      if (element_get_level (fam[childid]) != element_get_level (fam[0])) {
+        return 0;
+      }
       /* check whether each element has the same parent */
       element_get_parent ((const t8_element_t *) fam[childid], (t8_element_t *) &compare);
       if (element_compare ((const t8_element_t *) &parent, (const t8_element_t *) &compare)) {
-- 
2.43.0


From a187229e3660e4093820a9079be640be1202f313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:28 +0000
Subject: [PATCH 04/65] fix: line child id is defined on the maximum level

---
 src/t8_schemes/t8_default/t8_default_line/t8_dline_bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_schemes/t8_default/t8_default_line/t8_dline_bits.c b/src/t8_schemes/t8_default/t8_default_line/t8_dline_bits.c
index 7d2423e..0cf6d64 100644
--- a/src/t8_schemes/t8_default/t8_default_line/t8_dline_bits.c
+++ b/src/t8_schemes/t8_default/t8_default_line/t8_dline_bits.c
@@ -177,7 +177,7 @@ t8_dline_face_parent_face (const t8_dline_t *line, int face)
 int
 t8_dline_child_id (const t8_dline_t *line)
 {
-  T8_ASSERT (line->level < T8_DLINE_MAXLEVEL);
+  T8_ASSERT (line->level <= T8_DLINE_MAXLEVEL);
   /* bitshifting the Levelbit to first position & check if it is 1 or 0 */
   return ((line->x >> (T8_DLINE_MAXLEVEL - line->level)) & 1);
 }
-- 
2.43.0


From 6e97f3284929b20418d202133cd7e45e6c90016f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:34 +0000
Subject: [PATCH 05/65] fix: standalone parent face of a root element is the
 face itself

---
 src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx b/src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx
index 236c146..8d51cc1 100644
--- a/src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx
+++ b/src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx
@@ -848,7 +848,7 @@ struct t8_standalone_scheme: public t8_scheme_helpers<TEclass, t8_standalone_sch
     T8_ASSERT (0 <= face && face < T8_ELEMENT_NUM_FACES[TEclass]);
     const t8_standalone_element<TEclass> *el = (const t8_standalone_element<TEclass> *) elem;
     if (el->level == 0)
-      return -1;
+      return face;
     if constexpr (!T8_ELEMENT_NUM_EQUATIONS[TEclass]) {
       /* Check if the least significant bit of the face normal coord is equal to the face_sign bit to get a valid parent face.*/
       const int least_significant_bit = ((el->coords[face / 2]) >> (T8_ELEMENT_MAXLEVEL[TEclass] - el->level)) % 2;
-- 
2.43.0


From be555ddcd2206273253d92b7bfcd94291809f5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:05 +0000
Subject: [PATCH 06/65] fix: pyramid corner descendant on the element's own
 level is the element

---
 src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c b/src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c
index 7116274..340044f 100644
--- a/src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c
+++ b/src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c
@@ -953,6 +953,7 @@ t8_dpyramid_corner_descendant (const t8_dpyramid_t *p, t8_dpyramid_t *d, const i
     const int child_id = t8_dtet_parenttype_beyid_to_Iloc[p->pyramid.type][corner];
     t8_dpyramid_t tmp;
     t8_dpyramid_copy (p, &tmp);
+    t8_dpyramid_copy (p, d);
     for (int i = p->pyramid.level; i < level; i++) {
       t8_dpyramid_child (&tmp, child_id, d);
       t8_dpyramid_copy (d, &tmp);
-- 
2.43.0


From 8f60ccefb8e2ed8214b97996e0175f6a6d283fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:54 +0000
Subject: [PATCH 07/65] fix: wait for the messages of the irregular uniform
 bounds

---
 src/t8_cmesh/t8_cmesh.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index 27c7e7c..e369eb1 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -1781,7 +1781,7 @@ t8_cmesh_uniform_bounds_from_unpartioned (const t8_cmesh_t cmesh, const t8_gloid
 static void
 t8_cmesh_bounds_send_start_or_end (const t8_cmesh_t cmesh, const bool start_message, const bool proc_is_empty,
                                    const t8_locidx_t first_or_last_puretree_of_iproc, const int first_tree_shared_shift,
-                                   const t8_gloidx_t iproc, std::vector<sc_MPI_Request> send_requests,
+                                   const t8_gloidx_t iproc, std::vector<sc_MPI_Request> &send_requests,
                                    std::vector<t8_gloidx_t> &send_buffer, int *current_pos_in_send_buffer,
                                    const t8_gloidx_t first_or_last_element_in_tree_index_of_iproc,
                                    t8_gloidx_t *first_or_last_local_tree, [[maybe_unused]] int8_t *first_tree_shared,
-- 
2.43.0


From 58fbae7099cf4bbab8d26ef4e841a535d6917bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:16 +0000
Subject: [PATCH 08/65] fix: uniform bounds of empty processes on a replicated
 coarse mesh

---
 src/t8_cmesh/t8_cmesh.cxx | 32 ++++++--------------------------
 1 file changed, 6 insertions(+), 26 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index e369eb1..bc5f99f 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -1665,27 +1665,8 @@ t8_cmesh_uniform_bounds_from_unpartioned (const t8_cmesh_t cmesh, const t8_gloid
      */
   *last_local_tree = -1;  // Initialize for the case of num_trees <= 0
   if (last_child <= first_child) {
-    /* This process is empty. */
-    /* Find the next non-empty proc */
-    int next_non_empty = cmesh->mpirank + 1;
-    t8_gloidx_t first_child_next_non_empty = 0;
-    t8_gloidx_t last_child_next_non_empty = 0;
-    do {
-      first_child_next_non_empty = t8_cmesh_get_first_element_of_process (
-        (uint32_t) next_non_empty, (uint32_t) cmesh->mpisize, (uint64_t) local_num_children);
-      last_child_next_non_empty = t8_cmesh_get_first_element_of_process (
-        (uint32_t) next_non_empty + 1, (uint32_t) cmesh->mpisize, (uint64_t) local_num_children);
-      next_non_empty++;
-    } while (last_child_next_non_empty <= first_child_next_non_empty && next_non_empty < cmesh->mpisize - 1);
-
-    if (next_non_empty >= cmesh->mpisize - 1) {
-      next_non_empty = cmesh->mpisize - 1;
-      first_child_next_non_empty = t8_cmesh_get_first_element_of_process (
-        (uint32_t) cmesh->mpisize - 1, (uint32_t) cmesh->mpisize, (uint64_t) local_num_children);
-      last_child_next_non_empty = t8_cmesh_get_first_element_of_process (
-        (uint32_t) cmesh->mpisize, (uint32_t) cmesh->mpisize, (uint64_t) local_num_children);
-    }
-    T8_ASSERT (first_child_next_non_empty < last_child_next_non_empty);
+    /* This process is empty. The next non-empty process starts with the same element. */
+    const t8_gloidx_t first_child_next_non_empty = first_child;
     // Loop over trees to find the one containing first_child_next_non_empty, which gives us the first and last local tree.
     t8_gloidx_t current_tree_element_offset = 0;
     for (t8_gloidx_t igtree = 0; igtree < num_trees; ++igtree) {
@@ -1699,12 +1680,11 @@ t8_cmesh_uniform_bounds_from_unpartioned (const t8_cmesh_t cmesh, const t8_gloid
         }
         /* We have found the first tree; since this process is empty, we can immediately return,
            * ending the for loop. */
-        *first_local_tree = igtree;
-        *last_local_tree = igtree - 1;
-        /* If our first element is not the very first element in the tree, we share
-           * this tree with the previous process. */
+        /* An empty process has no shared tree, it stores the first tree that is not shared with a previous process. */
+        *first_local_tree = igtree + (current_tree_element_offset < first_child_next_non_empty ? 1 : 0);
+        *last_local_tree = *first_local_tree - 1;
         if (first_tree_shared != nullptr) {
-          *first_tree_shared = current_tree_element_offset < first_child_next_non_empty ? 1 : 0;
+          *first_tree_shared = 0;
         }
       }
       current_tree_element_offset += num_leaf_elems_in_tree;
-- 
2.43.0


From db9e167cd7e52d25408b7e1eba251dfdf57d1752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:13 +0000
Subject: [PATCH 09/65] fix: recursive adaptation keeps elements of the maximum
 level

---
 src/t8_forest/t8_forest_adapt.cxx | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/t8_forest/t8_forest_adapt.cxx b/src/t8_forest/t8_forest_adapt.cxx
index 1c8e00d..c7f0eb3 100644
--- a/src/t8_forest/t8_forest_adapt.cxx
+++ b/src/t8_forest/t8_forest_adapt.cxx
@@ -343,20 +343,22 @@ t8_forest_adapt_refine_recursive (t8_forest_t forest, t8_locidx_t ltreeid, t8_ec
     const int num_children = scheme->element_get_num_children (tree_class, el_buffer[0]);
     const int is_family = 0;
     const int num_elements_to_adapt_callback = 1;
-    const int refine = forest->set_adapt_fn (forest, forest->set_from, ltreeid, tree_class, lelement_id, scheme,
-                                             is_family, num_elements_to_adapt_callback, el_buffer);
+    int refine = forest->set_adapt_fn (forest, forest->set_from, ltreeid, tree_class, lelement_id, scheme,
+                                       is_family, num_elements_to_adapt_callback, el_buffer);
     T8_ASSERT (refine != -1);
+    if (refine == 1
+        && (scheme->element_get_level (tree_class, el_buffer[0]) >= forest->maxlevel
+            || !scheme->element_is_refinable (tree_class, el_buffer[0]))) {
+      /* Only refine an element if it does not exceed the maximum level. Otherwise it is kept. */
+      refine = 0;
+    }
     if (refine == 1) {
       /* The element should be refined */
-      if (scheme->element_get_level (tree_class, el_buffer[0]) < forest->maxlevel
-          && scheme->element_is_refinable (tree_class, el_buffer[0])) {
-        /* only refine if element is refinable and if we do not exceed the maximum allowed level */
-        /* Create the children and add them to the list */
-        scheme->element_new (tree_class, num_children - 1, el_buffer + 1);
-        scheme->element_get_children (tree_class, el_buffer[0], num_children, el_buffer);
-        for (int ci = num_children - 1; ci >= 0; ci--) {
-          (void) sc_list_prepend (elem_list, el_buffer[ci]);
-        }
+      /* Create the children and add them to the list */
+      scheme->element_new (tree_class, num_children - 1, el_buffer + 1);
+      scheme->element_get_children (tree_class, el_buffer[0], num_children, el_buffer);
+      for (int ci = num_children - 1; ci >= 0; ci--) {
+        (void) sc_list_prepend (elem_list, el_buffer[ci]);
       }
     }
     else if (refine == -2) {
-- 
2.43.0


From ab30bee72b63abae529e518f8b7df5968c384043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:05 +0000
Subject: [PATCH 10/65] fix: sharing of the first tree of incomplete forests
 with empty processes

---
 src/t8_forest/t8_forest.cxx | 28 +++++-----------------------
 1 file changed, 5 insertions(+), 23 deletions(-)

diff --git a/src/t8_forest/t8_forest.cxx b/src/t8_forest/t8_forest.cxx
index 04ee2da..b385211 100644
--- a/src/t8_forest/t8_forest.cxx
+++ b/src/t8_forest/t8_forest.cxx
@@ -1249,10 +1249,6 @@ t8_forest_tree_shared ([[maybe_unused]] t8_forest_t forest, [[maybe_unused]] int
   t8_gloidx_t global_neighbour_tree_idx;
   int ret;
   int mpiret;
-  int mpirank_from;
-  int mpirank_to;
-  sc_MPI_Request request;
-  sc_MPI_Status status;
 
   if (forest->mpisize == 1) {
     /* Nothing to share */
@@ -1261,25 +1257,11 @@ t8_forest_tree_shared ([[maybe_unused]] t8_forest_t forest, [[maybe_unused]] int
   if (forest->incomplete_trees) {
     if (first_or_last == 0) {
       T8_ASSERT (forest->mpisize > 1);
-      if (forest->mpirank == 0) {
-        mpirank_from = forest->mpisize - 1;
-        mpirank_to = forest->mpirank + 1;
-      }
-      else if (forest->mpirank == forest->mpisize - 1) {
-        T8_ASSERT (forest->mpirank > 0);
-        mpirank_from = forest->mpirank - 1;
-        mpirank_to = 0;
-      }
-      else {
-        T8_ASSERT (forest->mpirank > 0 && forest->mpirank < forest->mpisize - 1);
-        mpirank_from = forest->mpirank - 1;
-        mpirank_to = forest->mpirank + 1;
-      }
-      mpiret = sc_MPI_Irecv (&global_neighbour_tree_idx, 1, T8_MPI_GLOIDX, mpirank_from, 0, forest->mpicomm, &request);
-      SC_CHECK_MPI (mpiret);
-      mpiret = sc_MPI_Send (&forest->last_local_tree, 1, T8_MPI_GLOIDX, mpirank_to, 0, forest->mpicomm);
-      SC_CHECK_MPI (mpiret);
-      mpiret = sc_MPI_Wait (&request, &status);
+      /* The last tree of the closest nonempty lower process is the maximum over all lower processes,
+       * since the trees are ordered by process and empty processes have -1 as last local tree. */
+      global_neighbour_tree_idx = -1;
+      mpiret = sc_MPI_Exscan (&forest->last_local_tree, &global_neighbour_tree_idx, 1, T8_MPI_GLOIDX, sc_MPI_MAX,
+                              forest->mpicomm);
       SC_CHECK_MPI (mpiret);
       if (!forest->mpirank) {
         /* First process has nothing to do any more */
-- 
2.43.0


From 28d45cd39677d78ea9b445de71ee17e4ad5cb7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:29 +0000
Subject: [PATCH 11/65] fix: recursive coarsening recognises the last sibling
 of pyramids

---
 src/t8_forest/t8_forest_adapt.cxx | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/t8_forest/t8_forest_adapt.cxx b/src/t8_forest/t8_forest_adapt.cxx
index c7f0eb3..986e12f 100644
--- a/src/t8_forest/t8_forest_adapt.cxx
+++ b/src/t8_forest/t8_forest_adapt.cxx
@@ -585,9 +585,6 @@ t8_forest_adapt (t8_forest_t forest)
            * This parent is now inserted in telements. */
           T8_ASSERT (scheme->element_get_level (tree->eclass, elements_from[0]) > 0);
           scheme->element_get_parent (tree->eclass, elements_from[0], elements[0]);
-          /* num_siblings is now equivalent to the number of children of elements[0],
-           * as num_siblings is always associated with elements_from*/
-          num_children = num_siblings;
           el_inserted++;
           if (forest->set_adapt_recursive) {
             /* Adaptation is recursive.
@@ -595,7 +592,8 @@ t8_forest_adapt (t8_forest_t forest)
              * family (and not the only one).
              * If so, we check this family for recursive coarsening. */
             const int child_id = scheme->element_get_child_id (tree->eclass, elements[0]);
-            if (child_id > 0 && child_id == num_children - 1) {
+            if (child_id > 0
+                && child_id == scheme->element_get_num_siblings (tree->eclass, elements[0]) - 1) {
               t8_forest_adapt_coarsen_recursive (forest, ltree_id, tree->eclass, el_considered, scheme, telements,
                                                  el_coarsen, &el_inserted, elements);
             }
@@ -614,7 +612,8 @@ t8_forest_adapt (t8_forest_t forest)
              * If adaptation is recursive and this was the last element in its family
              * (and not the only one), we need to check for recursive coarsening. */
             const int child_id = scheme->element_get_child_id (tree->eclass, elements[0]);
-            if (child_id > 0 && child_id == num_children - 1) {
+            if (child_id > 0
+                && child_id == scheme->element_get_num_siblings (tree->eclass, elements[0]) - 1) {
               t8_forest_adapt_coarsen_recursive (forest, ltree_id, tree->eclass, el_considered, scheme, telements,
                                                  el_coarsen, &el_inserted, elements);
             }
-- 
2.43.0


From 70baf7781d7302c05a6d43cb0c19d156df068ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:01 +0000
Subject: [PATCH 12/65] fix: consistent rounding in the weighted partition

---
 src/t8_forest/t8_forest_partition.cxx | 56 +++++++++++++++++----------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/src/t8_forest/t8_forest_partition.cxx b/src/t8_forest/t8_forest_partition.cxx
index ab37e09..9a189db 100644
--- a/src/t8_forest/t8_forest_partition.cxx
+++ b/src/t8_forest/t8_forest_partition.cxx
@@ -31,6 +31,8 @@
 #include <t8_forest/t8_forest_partition_for_coarsening.h>
 #include <t8_cmesh/t8_cmesh_internal/t8_cmesh_offset.h>
 #include <t8_schemes/t8_scheme.hxx>
+#include <numeric>
+#include <vector>
 
 /* We want to export the whole implementation to be callable from "C" */
 T8_EXTERN_C_BEGIN ();
@@ -559,28 +561,36 @@ t8_forest_partition_compute_new_offset (t8_forest_t forest)
       return local_sum;
     }();
 
-    // Function definition: Partial sum of the partition weights of all lower-rank processes (excluding the local rank).
-    double const partition_weight_offset = [&] () {
-      double local_offset = 0.;
-      double local_partition_weight = partition_weight;  // because MPI does not like const variables
-      sc_MPI_Exscan (&local_partition_weight, &local_offset, 1, sc_MPI_DOUBLE, sc_MPI_SUM, comm);
-      return mpirank > 0 ? local_offset : 0;  // because the result of MPI_Exscan is undefined on rank 0
-    }();
-
-    // Function definition: Complete sum of the partition weights.
-    double const forest_weight = [&] () {
-      double total_weight = partition_weight_offset + partition_weight;
-      sc_MPI_Bcast (&total_weight, 1, sc_MPI_DOUBLE, mpisize - 1, comm);
-      return total_weight;
-    }();
+    // Partial sums of the partition weights of all lower-rank processes. All processes compute the same (rounded) sums,
+    // such that they agree on which of the new offsets lands in which local partition.
+    std::vector<double> partition_weight_offsets (mpisize + 1, 0.);
+    sc_MPI_Allgather ((void *) &partition_weight, 1, sc_MPI_DOUBLE, partition_weight_offsets.data () + 1, 1,
+                      sc_MPI_DOUBLE, comm);
+    std::partial_sum (partition_weight_offsets.begin (), partition_weight_offsets.end (),
+                      partition_weight_offsets.begin ());
+
+    // Complete sum of the partition weights.
+    double const forest_weight = partition_weight_offsets[mpisize];
+
+    // Function definition: Ideal sum of the weights on all processes of rank lower than iproc.
+    auto const ideal_weight_bound = [&] (int iproc) { return forest_weight * iproc / mpisize; };
+
+    // Function definition: Number of processes whose ideal bound is below the given accumulated weight.
+    auto const num_ranks_below = [&] (double weight) {
+      int iproc = 0;
+      while (iproc < mpisize && ideal_weight_bound (iproc) < weight) {
+        ++iproc;
+      }
+      return iproc;
+    };
 
     // The [rank_begin, rank_end) slice of the new offsets will land in the local partition.
-    int const rank_begin = std::ceil (mpisize * partition_weight_offset / forest_weight);
-    int const rank_end = std::ceil (mpisize * (partition_weight_offset + partition_weight) / forest_weight);
+    int const rank_begin = num_ranks_below (partition_weight_offsets[mpirank]);
+    int const rank_end = num_ranks_below (partition_weight_offsets[mpirank + 1]);
     std::vector<t8_gloidx_t> local_offsets (rank_end - rank_begin, 0);
 
     // Prepare computation of local element offsets.
-    double accumulated_weight = partition_weight_offset;
+    double accumulated_weight = partition_weight_offsets[mpirank];
     t8_gloidx_t global_elm_idx = t8_forest_get_first_local_leaf_element_id (forest_from);
     int iproc = rank_begin;
 
@@ -591,16 +601,20 @@ t8_forest_partition_compute_new_offset (t8_forest_t forest)
       for (t8_locidx_t ielm = 0; ielm < t8_forest_get_tree_num_leaf_elements (forest_from, ltreeid); ++ielm) {
         T8_ASSERT (0 <= global_elm_idx && global_elm_idx < global_num_leaf_elements);
         accumulated_weight += weight_fcn (forest_from, ltreeid, ielm);
-        while (accumulated_weight
-               > forest_weight * iproc / mpisize) {  // there may be empty partitions, hence while and not if
-          T8_ASSERT (rank_begin <= iproc && iproc < rank_end);
+        while (iproc < rank_end
+               && accumulated_weight
+                    > ideal_weight_bound (iproc)) {  // there may be empty partitions, hence while and not if
+          T8_ASSERT (rank_begin <= iproc);
           local_offsets[iproc - rank_begin] = global_elm_idx;
           ++iproc;
         }
         ++global_elm_idx;
       }
     }
-    T8_ASSERT (iproc == rank_end);  // i.e. local_offsets has been filled properly
+    // The order of summation may have left out offsets that lie at the very end of the local partition.
+    for (; iproc < rank_end; ++iproc) {
+      local_offsets[iproc - rank_begin] = global_elm_idx - 1;
+    }
 
     // Allgather local offsets into the global element offset array.
     t8_shmem_array_allgatherv (local_offsets.data (), local_offsets.size (), T8_MPI_GLOIDX, forest->element_offsets,
-- 
2.43.0


From 69d1c4ef909691d145c2ad68b72b0bd150dbcccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:54 +0000
Subject: [PATCH 13/65] fix: keep the send buffers of partition for coarsening
 until the messages are sent

---
 src/t8_forest/t8_forest_partition_for_coarsening.cxx | 11 ++++++++---
 src/t8_forest/t8_forest_pfc_message.hxx              | 11 ++++++-----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/t8_forest/t8_forest_partition_for_coarsening.cxx b/src/t8_forest/t8_forest_partition_for_coarsening.cxx
index 986d81a..1ff81a1 100644
--- a/src/t8_forest/t8_forest_partition_for_coarsening.cxx
+++ b/src/t8_forest/t8_forest_partition_for_coarsening.cxx
@@ -112,10 +112,12 @@ get_relevant_process_range (const t8_gloidx_t *partition_old, const t8_procidx_t
  * \param[out]  requests  the MPI requests as std::vector
  *                          on input:  empty
  *                          on output: contains the send requests
+ * \param[out]  send_buffers the packed messages, to be kept until all \a requests have completed
 */
 template <typename MessageType>
 static void
-t8_forest_pfc_send_loop_range (const t8_forest_t forest_from, std::vector<sc_MPI_Request> &requests)
+t8_forest_pfc_send_loop_range (const t8_forest_t forest_from, std::vector<sc_MPI_Request> &requests,
+                               std::vector<std::vector<char>> &send_buffers)
 {
   // Assertions: The forest must be committed and the request vector empty.
   T8_ASSERT (t8_forest_is_committed (forest_from));
@@ -142,7 +144,9 @@ t8_forest_pfc_send_loop_range (const t8_forest_t forest_from, std::vector<sc_MPI
 
     // Send the message (and obtain the associated requests).
     sc_MPI_Request request;
-    message.mpi_Isend (forest_from, request);
+    std::vector<char> send_buffer;
+    message.mpi_Isend (forest_from, request, send_buffer);
+    send_buffers.push_back (std::move (send_buffer));
 
     // Add to requests array
     requests.push_back (std::move (request));
@@ -383,7 +387,8 @@ t8_forest_pfc_correction_offsets (t8_forest_t forest)
 
     // Send requests to other processes.
     std::vector<sc_MPI_Request> requests;
-    t8_forest_pfc_send_loop_range<t8_forest_pfc_message> (forest_old, requests);
+    std::vector<std::vector<char>> send_buffers;
+    t8_forest_pfc_send_loop_range<t8_forest_pfc_message> (forest_old, requests, send_buffers);
 
     // Receive messages from other processes.
     std::vector<t8_forest_pfc_message> messages;
diff --git a/src/t8_forest/t8_forest_pfc_message.hxx b/src/t8_forest/t8_forest_pfc_message.hxx
index 9041e5d..fee8eea 100644
--- a/src/t8_forest/t8_forest_pfc_message.hxx
+++ b/src/t8_forest/t8_forest_pfc_message.hxx
@@ -36,6 +36,7 @@
 #include <t8_schemes/t8_scheme.h>
 #include <t8_schemes/t8_scheme.hxx>
 #include <sc_mpi.h>
+#include <vector>
 
 /**
  * This class collects all functionality to handle the data to be sent/received
@@ -146,23 +147,23 @@ struct t8_forest_pfc_message
    *
    * \param[in]   forest  the forest (only used for forest->mpicomm)
    * \param[out]  request the MPI send request
+   * \param[out]  send_buffer the packed message. Must not be touched until \a request has completed.
   */
   void
-  mpi_Isend (const t8_forest_t forest, sc_MPI_Request &request)
+  mpi_Isend (const t8_forest_t forest, sc_MPI_Request &request, std::vector<char> &send_buffer)
   {
     /* Allocate buffer */
     int buffer_size = pack_size ();
-    char *send_buffer = T8_ALLOC (char, buffer_size);
+    send_buffer.resize (buffer_size);
 
     /* Pack message to buffer */
     int position = 0;
-    pack (send_buffer, buffer_size, &position);
+    pack (send_buffer.data (), buffer_size, &position);
 
     /* Send buffer */
     const int mpiret
-      = sc_MPI_Isend (send_buffer, position, sc_MPI_PACKED, iproc, T8_MPI_PFC_TAG, forest->mpicomm, &request);
+      = sc_MPI_Isend (send_buffer.data (), position, sc_MPI_PACKED, iproc, T8_MPI_PFC_TAG, forest->mpicomm, &request);
     SC_CHECK_MPI (mpiret);
-    T8_FREE (send_buffer);
   }
 
   /**
-- 
2.43.0


From 20ed1cfebb2ea0c2db607be5850fa07b312fdf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:45 +0000
Subject: [PATCH 14/65] fix: balance with repartition also partitions a
 partitioned coarse mesh

---
 src/t8_forest/t8_forest.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/t8_forest/t8_forest.cxx b/src/t8_forest/t8_forest.cxx
index b385211..8b5d00e 100644
--- a/src/t8_forest/t8_forest.cxx
+++ b/src/t8_forest/t8_forest.cxx
@@ -3390,6 +3390,8 @@ t8_forest_commit (t8_forest_t forest)
       else {
         /* balance with repartition */
         t8_forest_balance (forest, 1);
+        /* The distribution of the trees may have changed */
+        partitioned = 1;
       }
     }
 
-- 
2.43.0


From bd3f6686412b3f9206ed9e4e5035709d564e444d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:03 +0000
Subject: [PATCH 15/65] fix: iterative ghost algorithms add the remote elements

---
 src/t8_forest/t8_forest_ghost.cxx | 86 ++++++++++++++-----------------
 1 file changed, 39 insertions(+), 47 deletions(-)

diff --git a/src/t8_forest/t8_forest_ghost.cxx b/src/t8_forest/t8_forest_ghost.cxx
index f8c6230..c091aec 100644
--- a/src/t8_forest/t8_forest_ghost.cxx
+++ b/src/t8_forest/t8_forest_ghost.cxx
@@ -821,25 +821,17 @@ t8_forest_ghost_fill_remote_v3 (t8_forest_t forest)
 static void
 t8_forest_ghost_fill_remote (t8_forest_t forest, t8_forest_ghost_t ghost, int ghost_method)
 {
-  t8_element_t **half_neighbors = nullptr;
   t8_locidx_t num_local_trees, num_tree_elems;
   t8_locidx_t itree, ielem;
   t8_tree_t tree;
-  t8_eclass_t last_class;
 
   int iface, num_faces;
-  int num_face_children, max_num_face_children = 0;
   int owner;
-  sc_array_t owners, tree_owners;
-  int is_atom;
+  sc_array_t owners;
   const t8_scheme *scheme = t8_forest_get_scheme (forest);
 
-  last_class = T8_ECLASS_COUNT;
   num_local_trees = t8_forest_get_num_local_trees (forest);
-  if (ghost_method != 0) {
-    sc_array_init (&owners, sizeof (int));
-    sc_array_init (&tree_owners, sizeof (int));
-  }
+  sc_array_init (&owners, sizeof (int));
 
   /* Loop over the trees of the forest */
   for (itree = 0; itree < num_local_trees; itree++) {
@@ -854,50 +846,53 @@ t8_forest_ghost_fill_remote (t8_forest_t forest, t8_forest_ghost_t ghost, int gh
       /* Get the element of the tree */
       const t8_element_t *elem = t8_forest_get_tree_leaf_element (tree, ielem);
       num_faces = scheme->element_get_num_faces (tree_class, elem);
-      if (scheme->element_get_level (tree_class, elem) == scheme->get_maxlevel (tree_class)) {
-        /* flag to decide whether this element is at the maximum level */
-        is_atom = 1;
-      }
-      else {
-        is_atom = 0;
-      }
+      /* flag to decide whether this element is at the maximum level */
+      const int is_atom = scheme->element_get_level (tree_class, elem) == scheme->get_maxlevel (tree_class);
       for (iface = 0; iface < num_faces; iface++) {
         /* Get the element class of the neighbor tree */
         const t8_eclass_t neigh_class = t8_forest_element_neighbor_eclass (forest, itree, elem, iface);
-        if (ghost_method == 0) {
+        if (neigh_class == T8_ECLASS_INVALID) {
+          /* This face is at the domain boundary */
+          continue;
+        }
+        if (ghost_method == 0 && !is_atom) {
           /* Use half neighbors */
           /* Get the number of face children of the element at this face */
-          num_face_children = scheme->element_get_num_face_children (tree_class, elem, iface);
-          /* regrow the half_neighbors array if necessary.
-           * We also need to reallocate it, if the element class of the neighbor
-           * changes */
-          if (max_num_face_children < num_face_children || last_class != neigh_class) {
-            half_neighbors = T8_ALLOC (t8_element_t *, num_face_children);
-            /* Allocate memory for the half size face neighbors */
-            scheme->element_new (neigh_class, num_face_children, half_neighbors);
-            max_num_face_children = num_face_children;
-            last_class = neigh_class;
-          }
-          if (!is_atom) {
-            /* Construct each half size neighbor */
-            (void) t8_forest_element_half_face_neighbors (forest, itree, elem, half_neighbors, neigh_class, iface,
-                                                          num_face_children, nullptr);
-          }
-          else {
-            /* Construct the owners at the face of the neighbor element */
-            t8_forest_element_owners_at_neigh_face (forest, itree, elem, iface, &owners);
-            /* Iterate over all owners and if any is not the current process,
-            * add this element as remote */
-            for (size_t iowner = 0; iowner < owners.elem_count; iowner++) {
-              owner = *(int *) sc_array_index (&owners, iowner);
+          const int num_face_children = scheme->element_get_num_face_children (tree_class, elem, iface);
+          /* Allocate memory for the half size face neighbors */
+          t8_element_t **half_neighbors = T8_ALLOC (t8_element_t *, num_face_children);
+          scheme->element_new (neigh_class, num_face_children, half_neighbors);
+          /* Construct each half size neighbor */
+          const t8_gloidx_t neighbor_tree = t8_forest_element_half_face_neighbors (
+            forest, itree, elem, half_neighbors, neigh_class, iface, num_face_children, nullptr);
+          if (neighbor_tree >= 0) {
+            /* Find the owner process of each half neighbor. If it is not the
+             * current process, add this element as remote. */
+            for (int ichild = 0; ichild < num_face_children; ichild++) {
+              owner = t8_forest_element_find_owner (forest, neighbor_tree, half_neighbors[ichild], neigh_class);
               T8_ASSERT (0 <= owner && owner < forest->mpisize);
               if (owner != forest->mpirank) {
-                /* Add the element as a remote element */
                 t8_ghost_add_remote (forest, ghost, owner, itree, elem, ielem);
               }
             }
-            sc_array_truncate (&owners);
           }
+          scheme->element_destroy (neigh_class, num_face_children, half_neighbors);
+          T8_FREE (half_neighbors);
+        }
+        else {
+          /* Construct the owners at the face of the neighbor element */
+          t8_forest_element_owners_at_neigh_face (forest, itree, elem, iface, &owners);
+          /* Iterate over all owners and if any is not the current process,
+           * add this element as remote */
+          for (size_t iowner = 0; iowner < owners.elem_count; iowner++) {
+            owner = *(int *) sc_array_index (&owners, iowner);
+            T8_ASSERT (0 <= owner && owner < forest->mpisize);
+            if (owner != forest->mpirank) {
+              /* Add the element as a remote element */
+              t8_ghost_add_remote (forest, ghost, owner, itree, elem, ielem);
+            }
+          }
+          sc_array_truncate (&owners);
         }
       } /* end face loop */
     }   /* end element loop */
@@ -908,10 +903,7 @@ t8_forest_ghost_fill_remote (t8_forest_t forest, t8_forest_ghost_t ghost, int gh
     forest->profile->ghosts_remotes = ghost->remote_processes->elem_count;
   }
   /* Clean-up memory */
-  if (ghost_method != 0) {
-    sc_array_reset (&owners);
-    sc_array_reset (&tree_owners);
-  }
+  sc_array_reset (&owners);
 }
 
 /** 
-- 
2.43.0


From 12d789dc0ea360a2d03111a03d066858da7e6f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:19 +0000
Subject: [PATCH 16/65] fix: leaf face neighbors list each neighbor once when
 they lie in local and ghost tree

---
 src/t8_forest/t8_forest.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/t8_forest/t8_forest.cxx b/src/t8_forest/t8_forest.cxx
index 8b5d00e..8952cab 100644
--- a/src/t8_forest/t8_forest.cxx
+++ b/src/t8_forest/t8_forest.cxx
@@ -1794,8 +1794,6 @@ t8_forest_leaf_face_neighbors_ext (const t8_forest_t forest, const t8_locidx_t l
     }
   }
 
-  struct t8_lfn_user_data user_data;
-
   // Now we iterate over the leaf arrays of the neighbor tree
   // or neighbor ghost tree and find all leaf face neighbors of the element.
   *num_neighbors = 0;
@@ -1850,6 +1848,9 @@ t8_forest_leaf_face_neighbors_ext (const t8_forest_t forest, const t8_locidx_t l
       t8_debugf ("\tSearch dual face is %i\n", search_element_dual_face);
 
       // There may be face neighbors in this leaf array.
+      // We start with a clean buffer for each array, since the entries of
+      // previous arrays were already copied to the output.
+      struct t8_lfn_user_data user_data;
 
       // We need to restrict the array such that it contains only elements inside the search element.
       // Thus, we create a new view containing all elements starting at first_leaf_index.
-- 
2.43.0


From 8c14ea019f0badd39cbdc2089e7211c7f1554c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:45 +0000
Subject: [PATCH 17/65] fix: binary owner search skips empty processes

---
 src/t8_forest/t8_forest.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/t8_forest/t8_forest.cxx b/src/t8_forest/t8_forest.cxx
index 8952cab..d15b4d1 100644
--- a/src/t8_forest/t8_forest.cxx
+++ b/src/t8_forest/t8_forest.cxx
@@ -2278,8 +2278,10 @@ t8_forest_element_find_owner_compare (const void *find_owner_data, const void *p
       /* We have to look further left */
       return -1;
     }
-    /* Get the linear id of the first element on the next process. */
-    next_proc_first_desc_id = *(t8_linearidx_t *) t8_shmem_array_index (forest->global_first_desc, (size_t) proc + 1);
+    /* Get the linear id of the first element on the next nonempty process. */
+    const int next_proc
+      = t8_offset_next_nonempty_rank (proc, forest->mpisize, t8_shmem_array_get_gloidx_array (forest->tree_offsets));
+    next_proc_first_desc_id = *(t8_linearidx_t *) t8_shmem_array_index (forest->global_first_desc, (size_t) next_proc);
     if (next_proc_first_desc_id <= linear_id) {
       /* We have to look further right */
       return 1;
-- 
2.43.0


From 9604f4102290f1cd822c2bd3ed6d3bcafaa4261c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:41 +0000
Subject: [PATCH 18/65] fix: search objects without user data pass nullptr to
 the callbacks

---
 src/t8_forest/t8_forest_search/t8_forest_search.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/t8_forest/t8_forest_search/t8_forest_search.hxx b/src/t8_forest/t8_forest_search/t8_forest_search.hxx
index 2a5c985..97ae1e6 100644
--- a/src/t8_forest/t8_forest_search/t8_forest_search.hxx
+++ b/src/t8_forest/t8_forest_search/t8_forest_search.hxx
@@ -372,7 +372,7 @@ struct t8_search: public t8_search_base
   /**
    * The user data associated with the object.
    */
-  Udata *user_data;
+  Udata *user_data = nullptr;
 
  private:
   /**
@@ -836,7 +836,7 @@ struct t8_partition_search: public t8_partition_search_base
   /**
    * A pointer to the user data associated with the object.
    */
-  Udata *user_data;
+  Udata *user_data = nullptr;
 
  private:
   /**
-- 
2.43.0


From 4b3e88d14e2f582082485fe45cb5d47172c29e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:00 +0000
Subject: [PATCH 19/65] fix: attribute data is not overwritten when the last
 trees or ghosts have no attributes

---
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_commit.cxx |  6 ++++++
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx  | 14 +++++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_commit.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_commit.cxx
index 7d0f789..f682b5d 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_commit.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_commit.cxx
@@ -100,7 +100,13 @@ t8_cmesh_add_attributes (const t8_cmesh_t cmesh, sc_hash_t *ghost_ids)
 
   t8_ghost_facejoin_t temp_facejoin = { 0, 0, 0 };
 
+  /* Ghosts without attributes are never inserted below, we count them right away. */
   t8_locidx_t ghosts_inserted = 0;
+  for (t8_locidx_t ighost = 0; ighost < cmesh->num_ghosts; ighost++) {
+    if (t8_cmesh_trees_get_ghost (cmesh->trees, ighost)->num_attributes == 0) {
+      ghosts_inserted++;
+    }
+  }
   ltree = -1;
   for (si = 0, sj = 0; si < stash->attributes.elem_count; si++, sj++) {
     attribute = (t8_stash_attribute_struct_t *) sc_array_index (&stash->attributes, si);
diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
index 87f88d1..ff2204d 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
@@ -706,6 +706,18 @@ t8_cmesh_trees_init_attributes (const t8_cmesh_trees_t trees, const t8_locidx_t
   tree->num_attributes = num_attributes;
 }
 
+/* Return true if any tree of the part behind the given one has attributes. */
+static bool
+t8_part_tree_has_later_attribute (const t8_part_tree_t part, const t8_locidx_t tree_id)
+{
+  for (t8_locidx_t itree = tree_id + 1; itree < part->first_tree_id + part->num_trees; itree++) {
+    if (t8_part_tree_get_tree (part, itree)->num_attributes > 0) {
+      return true;
+    }
+  }
+  return false;
+}
+
 /* TODO: comment.
  * add a new attribute to a tree, the number of already added attributes is
  * temporarily stored in tree->num_attributes. */
@@ -743,7 +755,7 @@ t8_cmesh_trees_add_attribute (const t8_cmesh_trees_t trees, const int proc, cons
   attr_info->attribute_size = attr->attr_size;
   /* If we are not yet at the last attribute of the part,
    * get next attribute and set its offset*/
-  if (!(index == (size_t) tree->num_attributes - 1 && part->num_trees == tree_id + 1 - part->first_tree_id)) {
+  if (!(index == (size_t) tree->num_attributes - 1 && !t8_part_tree_has_later_attribute (part, tree_id))) {
     /* Store offset of current attribute */
     offset = attr_info->attribute_offset;
     attr_info = attr_info + 1;
-- 
2.43.0


From 19abe6c4830493b7596b2fe24d79d7d68953ee33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:00 +0000
Subject: [PATCH 20/65] fix: join by vertices measures the extent over all
 coordinates

---
 src/t8_cmesh/t8_cmesh_helpers.cxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_helpers.cxx b/src/t8_cmesh/t8_cmesh_helpers.cxx
index d3ef1bb..6674832 100644
--- a/src/t8_cmesh/t8_cmesh_helpers.cxx
+++ b/src/t8_cmesh/t8_cmesh_helpers.cxx
@@ -51,10 +51,9 @@ t8_cmesh_set_join_by_vertices (t8_cmesh_t cmesh, const t8_gloidx_t ntrees, const
   for (int itree = 0; itree < ntrees; itree++) {
     const t8_eclass_t eclass = eclasses[itree];
     const int nverts = t8_eclass_num_vertices[eclass];
-    const int edim = t8_eclass_to_dimension[eclass];
 
     for (int ivert = 0; ivert < nverts; ivert++) {
-      for (int icoord = 0; icoord < edim; icoord++) {
+      for (int icoord = 0; icoord < T8_ECLASS_MAX_DIM; icoord++) {
         const double coord
           = vertices[T8_3D_TO_1D (ntrees, T8_ECLASS_MAX_CORNERS, T8_ECLASS_MAX_DIM, itree, ivert, icoord)];
 
-- 
2.43.0


From 88f76929a14d1cd70db604fa0736f455f4a7e1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:00 +0000
Subject: [PATCH 21/65] fix: unset face knowledge keeps the default in
 t8_cmesh_set_partition_range

---
 src/t8_cmesh/t8_cmesh.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index bc5f99f..a8c3ba5 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -294,7 +294,9 @@ t8_cmesh_set_partition_range (t8_cmesh_t cmesh, const int set_face_knowledge, co
 
   SC_CHECK_ABORT (set_face_knowledge == -1 || set_face_knowledge == 3,
                   "Face knowledge other than three is not implemented yet.");
-  cmesh->face_knowledge = set_face_knowledge;
+  if (set_face_knowledge != -1) {
+    cmesh->face_knowledge = set_face_knowledge;
+  }
   if (first_local_tree < 0) {
     /* the first tree is shared */
     cmesh->first_tree = -first_local_tree - 1;
-- 
2.43.0


From e43671c438bdbfa2d1ec5e83b524250472bccf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:00 +0000
Subject: [PATCH 22/65] fix: t8_cmesh_set_partition_range accepts every empty
 range

---
 src/t8_cmesh/t8_cmesh.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index a8c3ba5..5ac9e6b 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -307,7 +307,8 @@ t8_cmesh_set_partition_range (t8_cmesh_t cmesh, const int set_face_knowledge, co
     cmesh->first_tree = first_local_tree;
     cmesh->first_tree_shared = 0;
   }
-  cmesh->num_local_trees = last_local_tree - cmesh->first_tree + 1;
+  /* Any last tree that is smaller than the first tree marks an empty process. */
+  cmesh->num_local_trees = last_local_tree < cmesh->first_tree ? 0 : last_local_tree - cmesh->first_tree + 1;
   cmesh->set_partition = 1;
   /* Overwrite previous partition settings */
   if (cmesh->tree_offsets != nullptr) {
-- 
2.43.0


From 470230a9f044d611f1a1b6ae649b2defbd16d7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:30 +0000
Subject: [PATCH 23/65] fix: t8_cmesh_set_partition_range works for derived
 meshes

---
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
index 2e56c4d..88c43ce 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
@@ -1590,6 +1590,10 @@ t8_cmesh_partition (t8_cmesh_t cmesh, sc_MPI_Comm comm)
     tree_offsets = t8_shmem_array_get_gloidx_array (cmesh->tree_offsets);
   }
   else {
+    if (cmesh->tree_offsets == nullptr) {
+      /* The local tree ranges were specified, we construct the partition table from them. */
+      t8_cmesh_gather_treecount_nocommit (cmesh, comm);
+    }
     /* We compute the partition after a given partition table in cmesh->tree_offsets */
     T8_ASSERT (cmesh->tree_offsets != NULL);
     tree_offsets = t8_shmem_array_get_gloidx_array (cmesh->tree_offsets);
-- 
2.43.0


From 7c4f1c8684f5d0bae4fba9255df0f12cebd7d8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:30 +0000
Subject: [PATCH 24/65] fix: t8_cmesh_bcast broadcasts from every root

---
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c   | 8 ++++----
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
index ca7571d..22990b2 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
@@ -309,18 +309,18 @@ t8_stash_bcast (const t8_stash_t stash, const int root, sc_MPI_Comm comm, const
   }
   if (elem_counts[0] > 0) {
     mpiret = sc_MPI_Bcast (stash->attributes.array, elem_counts[0] * sizeof (t8_stash_attribute_struct_t), sc_MPI_BYTE,
-                           0, comm);
+                           root, comm);
     SC_CHECK_MPI (mpiret);
     t8_stash_bcast_attributes (&stash->attributes, root, comm);
   }
   if (elem_counts[1] > 0) {
     mpiret
-      = sc_MPI_Bcast (stash->classes.array, elem_counts[1] * sizeof (t8_stash_class_struct_t), sc_MPI_BYTE, 0, comm);
+      = sc_MPI_Bcast (stash->classes.array, elem_counts[1] * sizeof (t8_stash_class_struct_t), sc_MPI_BYTE, root, comm);
     SC_CHECK_MPI (mpiret);
   }
   if (elem_counts[2] > 0) {
-    mpiret = sc_MPI_Bcast (stash->joinfaces.array, elem_counts[2] * sizeof (t8_stash_joinface_struct_t), sc_MPI_BYTE, 0,
-                           comm);
+    mpiret = sc_MPI_Bcast (stash->joinfaces.array, elem_counts[2] * sizeof (t8_stash_joinface_struct_t), sc_MPI_BYTE,
+                           root, comm);
     SC_CHECK_MPI (mpiret);
   }
   return stash;
diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
index ff2204d..5314d56 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
@@ -1069,7 +1069,7 @@ t8_cmesh_trees_bcast (const t8_cmesh_t cmesh_in, const int root, const sc_MPI_Co
 
   for (ipart = 0; ipart < num_parts; ipart++) {
     part = t8_cmesh_trees_get_part (trees, ipart);
-    if (mpirank == 0) {
+    if (mpirank == root) {
       /* Gather information about part */
       part_info.num_trees = part->num_trees;
       part_info.first_tree_id = part->first_tree_id;
-- 
2.43.0


From f1f086ad5cc5bcea5bb29d350471bcd30b4e991e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:30 +0000
Subject: [PATCH 25/65] fix: attributes received by t8_cmesh_bcast are freed

---
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
index 22990b2..d98f059 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
@@ -284,6 +284,7 @@ t8_stash_bcast_attributes (sc_array_t *attributes, const int root, sc_MPI_Comm c
     for (iatt = 0; iatt < num_atts; iatt++) {
       att = (t8_stash_attribute_struct_t *) sc_array_index (attributes, iatt);
       att->attr_data = T8_ALLOC (char, att->attr_size);
+      att->is_owned = 1; /* This copy belongs to the stash, no matter who owns the data on root. */
       memcpy (att->attr_data, buffer + copied_bytes, att->attr_size);
       copied_bytes += att->attr_size;
     }
-- 
2.43.0


From 16cdf09515fd44aea9fa47a9f1e534570fe2fde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:30 +0000
Subject: [PATCH 26/65] fix: copied partitioned meshes know the local ids of
 their ghosts

---
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_copy.cxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_copy.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_copy.cxx
index db490a3..34abbf0 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_copy.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_copy.cxx
@@ -87,5 +87,13 @@ t8_cmesh_copy (t8_cmesh_t cmesh, const t8_cmesh_t cmesh_from, sc_MPI_Comm comm)
       t8_cmesh_trees_start_part (cmesh->trees, ipart, first_tree, num_trees, first_ghost, num_ghosts, 0);
       t8_cmesh_trees_copy_part (cmesh->trees, ipart, cmesh_from->trees, ipart);
     }
+    /* Fill the map from global to local ids of the ghosts */
+    for (t8_locidx_t ighost = 0; ighost < cmesh->num_ghosts; ighost++) {
+      t8_trees_glo_lo_hash_t *hash_entry
+        = (t8_trees_glo_lo_hash_t *) sc_mempool_alloc (cmesh->trees->global_local_mempool);
+      hash_entry->global_id = t8_cmesh_trees_get_ghost (cmesh->trees, ighost)->treeid;
+      hash_entry->local_id = ighost + cmesh->num_local_trees;
+      sc_hash_insert_unique (cmesh->trees->ghost_globalid_to_local_id, hash_entry, nullptr);
+    }
   }
 }
-- 
2.43.0


From 90a4c2232c7e2a0ce64b75c1deca8406be35367a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:30 +0000
Subject: [PATCH 27/65] fix: partition keeps attributes behind a tree without
 attributes

---
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
index 88c43ce..d37a385 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
@@ -762,9 +762,10 @@ t8_cmesh_partition_copy_data (char *send_buffer, t8_cmesh_t cmesh, const t8_cmes
         last_size = attr_info->attribute_size;
       }
       temp_offset_att += tree_copy->num_attributes * sizeof (t8_attribute_info_struct_t);
+      /* Trees without attributes do not move the reference of the next offset. */
+      last_num_att = tree_copy->num_attributes;
     }
     temp_offset_tree += sizeof (t8_ctree_struct_t);
-    last_num_att = tree_copy->num_attributes;
   }
 
   /* Copy all ghosts and set their face entries and offsets */
-- 
2.43.0


From c3ee56543eebe6bd3c15f6842dab2d341541271b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:12 +0000
Subject: [PATCH 28/65] fix: do not search behind the end of a shared array

t8_shmem_array_binary_search takes the number of elements, but also handed
the index of the element behind the last one to the compare function. Its
callers worked around this by passing the number of elements minus one.
---
 src/t8_cmesh/t8_cmesh.cxx | 4 ++--
 src/t8_data/t8_shmem.c    | 2 +-
 src/t8_data/t8_shmem.h    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index 5ac9e6b..dc420a6 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -2254,7 +2254,7 @@ t8_cmesh_uniform_bounds_from_partition (const t8_cmesh_t cmesh, const t8_gloidx_
   /* Post the receives. */
   if (expect_start_message) {
     const int recv_from
-      = t8_shmem_array_binary_search (offset_array, first_element, cmesh->mpisize - 1, find_bounds_in_offset);
+      = t8_shmem_array_binary_search (offset_array, first_element, cmesh->mpisize, find_bounds_in_offset);
 
     T8_ASSERT (0 <= recv_from && recv_from < cmesh->mpisize);
 
@@ -2272,7 +2272,7 @@ t8_cmesh_uniform_bounds_from_partition (const t8_cmesh_t cmesh, const t8_gloidx_
   } /* End receiving start message */
   if (expect_end_message) {
     const int recv_from
-      = t8_shmem_array_binary_search (offset_array, last_element - 1, cmesh->mpisize - 1, find_bounds_in_offset);
+      = t8_shmem_array_binary_search (offset_array, last_element - 1, cmesh->mpisize, find_bounds_in_offset);
 
     T8_ASSERT (0 <= recv_from && recv_from < cmesh->mpisize);
     recv_message (false, last_local_tree, child_in_tree_end, nullptr, nullptr, global_num_elements, cmesh, recv_from,
diff --git a/src/t8_data/t8_shmem.c b/src/t8_data/t8_shmem.c
index 728abe9..05e82ec 100644
--- a/src/t8_data/t8_shmem.c
+++ b/src/t8_data/t8_shmem.c
@@ -545,7 +545,7 @@ t8_shmem_array_binary_search (t8_shmem_array_t array, const t8_gloidx_t value, c
                               int (*compare) (t8_shmem_array_t, const int, const t8_gloidx_t))
 {
   int low = 0;
-  int high = size;
+  int high = size - 1;
 
   while (low <= high) {
     int mid = low + (high - low) / 2;
diff --git a/src/t8_data/t8_shmem.h b/src/t8_data/t8_shmem.h
index 07653d3..fb0f536 100644
--- a/src/t8_data/t8_shmem.h
+++ b/src/t8_data/t8_shmem.h
@@ -294,7 +294,7 @@ t8_shmem_array_destroy (t8_shmem_array_t *parray);
  * \param [in]      size    The number of elements in the array.
  * \param [in]      compare A function that compares an element of the array with the value.
  * 
- * \return The index of the element in \a array that matches \a value.
+ * \return The index of the element in \a array that matches \a value, -1 if there is none.
  */
 int
 t8_shmem_array_binary_search (t8_shmem_array_t array, const t8_gloidx_t value, const int size,
-- 
2.43.0


From 24eaef28a74c9c159101e364a30cbd142dacbf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:15 +0000
Subject: [PATCH 29/65] fix: find no element in an empty element array

t8_forest_bin_search_lower accessed the first element without looking
whether there is one; t8_element_array_find of an element in an empty
array crashed instead of returning -1.
---
 src/t8_forest/t8_forest_private.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/t8_forest/t8_forest_private.cxx b/src/t8_forest/t8_forest_private.cxx
index 49d3367..65f4ecf 100644
--- a/src/t8_forest/t8_forest_private.cxx
+++ b/src/t8_forest/t8_forest_private.cxx
@@ -76,6 +76,10 @@ t8_forest_bin_search_lower (const t8_element_array_t *elements, const t8_lineari
 {
   const t8_scheme *scheme = t8_element_array_get_scheme (elements);
   const t8_eclass_t tree_class = t8_element_array_get_tree_class (elements);
+  if (t8_element_array_get_count (elements) == 0) {
+    /* This array is empty. */
+    return -1;
+  }
   /* At first, we check whether any element has smaller id than the
    * given one. */
   const t8_element_t *query = t8_element_array_index_int (elements, 0);
-- 
2.43.0


From 22f540b8c18cc964a5a5a3112b05a1f0e3436a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:15 +0000
Subject: [PATCH 30/65] fix: the element array iterator may be moved back

The assertion in operator-= was inverted: every valid step back aborted
in debug mode.
---
 src/t8_data/t8_element_array_iterator.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_data/t8_element_array_iterator.hxx b/src/t8_data/t8_element_array_iterator.hxx
index e792d24..b88cab4 100644
--- a/src/t8_data/t8_element_array_iterator.hxx
+++ b/src/t8_data/t8_element_array_iterator.hxx
@@ -201,7 +201,7 @@ struct t8_element_array_iterator
   operator-= (const difference_type n)
   {
     current_index -= n;
-    T8_ASSERT (current_index < 0);
+    T8_ASSERT (current_index >= 0);
     return *this;
   }
   /* Comparison operators */
-- 
2.43.0


From 540584eda583835f8b6117d35a6d2aeec88ae1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:48 +0000
Subject: [PATCH 31/65] fix: initialise no pyramid if there is none

In debug mode element_init set the type of the first pyramid also when
it was given none, and wrote behind the end of the array. The loop before
sets the type already.
---
 .../t8_default/t8_default_pyramid/t8_default_pyramid.cxx         | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/t8_schemes/t8_default/t8_default_pyramid/t8_default_pyramid.cxx b/src/t8_schemes/t8_default/t8_default_pyramid/t8_default_pyramid.cxx
index 323090b..460d51f 100644
--- a/src/t8_schemes/t8_default/t8_default_pyramid/t8_default_pyramid.cxx
+++ b/src/t8_schemes/t8_default/t8_default_pyramid/t8_default_pyramid.cxx
@@ -64,7 +64,6 @@ t8_default_scheme_pyramid::element_init ([[maybe_unused]] int length, [[maybe_un
     t8_dpyramid_init_linear_id (pyramid + i, 0, 0);
     T8_ASSERT (t8_dpyramid_is_valid (pyramid + i));
   }
-  pyramid->pyramid.type = 6;
 #endif
 }
 
-- 
2.43.0


From 57434423f48c2560d89bb6d74df6de3de7d33014 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:42:35 +0000
Subject: [PATCH 32/65] fix: stretch all points of a one or two dimensional
 element

The schemes read reference points T8_ECLASS_MAX_DIM entries apart.
---
 src/t8_forest/t8_forest.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/t8_forest/t8_forest.cxx b/src/t8_forest/t8_forest.cxx
index d15b4d1..bbfda05 100644
--- a/src/t8_forest/t8_forest.cxx
+++ b/src/t8_forest/t8_forest.cxx
@@ -439,11 +439,12 @@ t8_forest_element_from_ref_coords_ext (t8_forest_t forest, t8_locidx_t ltreeid,
     T8_ASSERT (geom_type == T8_GEOMETRY_TYPE_LINEAR || geom_type == T8_GEOMETRY_TYPE_LINEAR_AXIS_ALIGNED);
 #endif /* T8_ENABLE_DEBUG */
     const int tree_dim = t8_eclass_to_dimension[tree_class];
+    /* The schemes expect the reference points to be T8_ECLASS_MAX_DIM entries apart, independent of the dimension. */
     double stretched_ref_coords[T8_ECLASS_MAX_CORNERS * T8_ECLASS_MAX_DIM];
     for (size_t i_coord = 0; i_coord < num_coords; ++i_coord) {
       for (int dim = 0; dim < tree_dim; ++dim) {
-        stretched_ref_coords[i_coord * tree_dim + dim]
-          = 0.5 + ((ref_coords[i_coord * tree_dim + dim] - 0.5) * stretch_factors[dim]);
+        stretched_ref_coords[i_coord * T8_ECLASS_MAX_DIM + dim]
+          = 0.5 + ((ref_coords[i_coord * T8_ECLASS_MAX_DIM + dim] - 0.5) * stretch_factors[dim]);
       }
     }
     scheme->element_get_reference_coords (tree_class, element, stretched_ref_coords, num_coords, tree_ref_coords);
-- 
2.43.0


From 9ea327248ac77a4c6f5dfea0066cd8b923ad59ce Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:42:36 +0000
Subject: [PATCH 33/65] fix: all points of a vertex tree are its vertex

Evaluating several points at once read behind the vertex coordinates.
---
 src/t8_geometry/t8_geometry_helpers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_geometry/t8_geometry_helpers.c b/src/t8_geometry/t8_geometry_helpers.c
index 23235bb..43063a6 100644
--- a/src/t8_geometry/t8_geometry_helpers.c
+++ b/src/t8_geometry/t8_geometry_helpers.c
@@ -114,7 +114,7 @@ t8_geom_compute_linear_geometry (t8_eclass_t tree_class, const double *tree_vert
     for (i_coord = 0; i_coord < num_coords; i_coord++) {
       const size_t offset_domain_dim = i_coord * T8_ECLASS_MAX_DIM;
       for (i_dim = 0; i_dim < T8_ECLASS_MAX_DIM; i_dim++) {
-        out_coords[offset_domain_dim + i_dim] = tree_vertices[offset_domain_dim + i_dim];
+        out_coords[offset_domain_dim + i_dim] = tree_vertices[i_dim];
       }
     }
     break;
-- 
2.43.0


From 7bd949f2afd410d8daba75cdf84e4dd9f5d87ede Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:42:36 +0000
Subject: [PATCH 34/65] fix: axis-aligned lines and quads may lie in any axis
 direction

The reference coordinate was chosen by the axis, which is behind the end of
the reference coordinates for lines along y or z and quads that extend in z.
---
 src/t8_geometry/t8_geometry_helpers.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/t8_geometry/t8_geometry_helpers.c b/src/t8_geometry/t8_geometry_helpers.c
index 43063a6..18887bc 100644
--- a/src/t8_geometry/t8_geometry_helpers.c
+++ b/src/t8_geometry/t8_geometry_helpers.c
@@ -227,9 +227,16 @@ t8_geom_compute_linear_axis_aligned_geometry (const t8_eclass_t tree_class, cons
   for (size_t i_coord = 0; i_coord < num_coords; ++i_coord) {
     const size_t offset_tree_dim = i_coord * dimension;
     const size_t offset_domain_dim = i_coord * T8_ECLASS_MAX_DIM;
+    /* Lines and quads may be aligned with any of the axes. Only the axes in which
+     * the tree extends have a reference coordinate. */
+    int i_ref = 0;
     for (int i_dim = 0; i_dim < T8_ECLASS_MAX_DIM; ++i_dim) {
       out_coords[offset_domain_dim + i_dim] = tree_vertices[i_dim];
-      out_coords[offset_domain_dim + i_dim] += ref_coords[offset_tree_dim + i_dim] * vector[i_dim];
+      const int has_ref_coord = dimension == T8_ECLASS_MAX_DIM || fabs (vector[i_dim]) > SC_EPS;
+      if (has_ref_coord && i_ref < dimension) {
+        out_coords[offset_domain_dim + i_dim] += ref_coords[offset_tree_dim + i_ref] * vector[i_dim];
+        ++i_ref;
+      }
     }
   }
 }
-- 
2.43.0


From d0090a66974378698e4428bc651a3876051a3455 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:42:36 +0000
Subject: [PATCH 35/65] fix: the inside test of triangles works for every plane

It divided by the area of the projection to the xy plane: in a triangle or
quad parallel to the z axis all points of its plane counted as inside.
---
 src/t8_geometry/t8_geometry_helpers.c | 39 ++++++++++++++-------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/src/t8_geometry/t8_geometry_helpers.c b/src/t8_geometry/t8_geometry_helpers.c
index 18887bc..2aa0af5 100644
--- a/src/t8_geometry/t8_geometry_helpers.c
+++ b/src/t8_geometry/t8_geometry_helpers.c
@@ -619,10 +619,8 @@ t8_triangle_point_inside (const double p_0[3], const double v[3], const double w
    * vx + wy = point - p_0
    * has a solution with 0 <= x,y and x + y <= 1.
    *
-   * We check whether such a solution exists by computing
-   * certain determinants of 2x2 submatrizes of the 3x3 matrix
-   *
-   *  | v w e_3 | with v = p_1 - p_0, w = p_2 - p_0, and e_3 = (0 0 1)^t (third unit vector)
+   * We compute the least squares solution and check whether it solves the system.
+   * This works for any orientation of the triangle in space.
    */
 
   T8_ASSERT (tolerance > 0); /* negative values and zero are not allowed */
@@ -630,16 +628,20 @@ t8_triangle_point_inside (const double p_0[3], const double v[3], const double w
   /* b = point - p_0 */
   t8_axpyz (p_0, point, b, -1);
 
-  /* Let d = det (v w e_3) */
-  const double det_vwe3 = v[0] * w[1] - v[1] * w[0];
-
-  /* The system has a solution, we need to compute it and
-   * check whether 0 <= x,y and x + y <= 1 */
-  /* x = det (b w e_3) / d
-   * y = det (v b e_3) / d
+  /* The normal equations are
+   * <v,v> x + <v,w> y = <v,b>
+   * <v,w> x + <w,w> y = <w,b>
    */
-  const double x = (b[0] * w[1] - b[1] * w[0]) / det_vwe3;
-  const double y = (v[0] * b[1] - v[1] * b[0]) / det_vwe3;
+  const double v_v = t8_dot (v, v);
+  const double v_w = t8_dot (v, w);
+  const double w_w = t8_dot (w, w);
+  const double v_b = t8_dot (v, b);
+  const double w_b = t8_dot (w, b);
+  const double det = v_v * w_w - v_w * v_w;
+
+  /* We compute the solution and check whether 0 <= x,y and x + y <= 1 */
+  const double x = (w_w * v_b - v_w * w_b) / det;
+  const double y = (v_v * w_b - v_w * v_b) / det;
 
   if (x < -tolerance || y < -tolerance || x + y > 1 + tolerance) {
     /* The solution is not admissible.
@@ -652,13 +654,12 @@ t8_triangle_point_inside (const double p_0[3], const double v[3], const double w
    * is actually p - p_0.
    * Since the system of equations is overrepresented (3 equations, 2 variables)
    * this may actually break.
-   * If it breaks, it will break in the z coordinate of the result.
    */
-  const double z = v[2] * x + w[2] * y;
-  /* Must match the last coordinate of b = p - p_0 */
-  if (fabs (z - b[2]) > tolerance) {
-    /* Does not match. Point lies outside. */
-    return 0;
+  for (int i_dim = 0; i_dim < 3; ++i_dim) {
+    if (fabs (v[i_dim] * x + w[i_dim] * y - b[i_dim]) > tolerance) {
+      /* Does not match. Point lies outside. */
+      return 0;
+    }
   }
   /* All checks passed. Point lies inside. */
   return 1;
-- 
2.43.0


From 0e0052e9e5be90b185bd22956740371a8a9cb046 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:43:06 +0000
Subject: [PATCH 36/65] fix: the inside test of volume elements respects the
 tolerance

Points on the faces of tets, hexes, prisms and pyramids could be reported
outside of all elements due to rounding, whatever the tolerance.
---
 src/t8_geometry/t8_geometry_helpers.c                        | 5 +++--
 src/t8_geometry/t8_geometry_helpers.h                        | 4 +++-
 .../t8_geometry_implementations/t8_geometry_cad.cxx          | 3 ++-
 .../t8_geometry_implementations/t8_geometry_linear.cxx       | 3 ++-
 4 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/t8_geometry/t8_geometry_helpers.c b/src/t8_geometry/t8_geometry_helpers.c
index 2aa0af5..11b51ca 100644
--- a/src/t8_geometry/t8_geometry_helpers.c
+++ b/src/t8_geometry/t8_geometry_helpers.c
@@ -666,14 +666,15 @@ t8_triangle_point_inside (const double p_0[3], const double v[3], const double w
 }
 
 int
-t8_plane_point_inside (const double point_on_face[3], const double face_normal[3], const double point[3])
+t8_plane_point_inside (const double point_on_face[3], const double face_normal[3], const double point[3],
+                       const double tolerance)
 {
   /* Set x = x - p */
   double pof[3] = { point_on_face[0], point_on_face[1], point_on_face[2] };
   t8_axpy (point, pof, -1);
   /* Compute <x-p,n> */
   const double dot_product = t8_dot (pof, face_normal);
-  if (dot_product < 0) {
+  if (dot_product < -tolerance) {
     /* The point is on the wrong side of the plane */
     return 0;
   }
diff --git a/src/t8_geometry/t8_geometry_helpers.h b/src/t8_geometry/t8_geometry_helpers.h
index caf57a0..e6f7c5c 100644
--- a/src/t8_geometry/t8_geometry_helpers.h
+++ b/src/t8_geometry/t8_geometry_helpers.h
@@ -218,10 +218,12 @@ t8_triangle_point_inside (const double p_0[3], const double v[3], const double w
  * \param[in] point_on_face   A point on the plane
  * \param[in] face_normal     The normal of the face
  * \param[in] point           The point to check
+ * \param[in] tolerance       Points that are at most this far (in units of \a face_normal) on the outer side count as inside.
  * \return                    0 if the point is outside, 1 otherwise.
  */
 int
-t8_plane_point_inside (const double point_on_face[3], const double face_normal[3], const double point[3]);
+t8_plane_point_inside (const double point_on_face[3], const double face_normal[3], const double point[3],
+                       const double tolerance);
 
 T8_EXTERN_C_END ();
 
diff --git a/src/t8_geometry/t8_geometry_implementations/t8_geometry_cad.cxx b/src/t8_geometry/t8_geometry_implementations/t8_geometry_cad.cxx
index 2c6aac0..141a87b 100644
--- a/src/t8_geometry/t8_geometry_implementations/t8_geometry_cad.cxx
+++ b/src/t8_geometry/t8_geometry_implementations/t8_geometry_cad.cxx
@@ -272,7 +272,8 @@ t8_geometry_cad::t8_geom_point_batch_inside_element (const t8_forest_t forest, c
       double point_on_face[3];
       t8_forest_element_coordinate (forest, ltreeid, element, afacecorner, point_on_face);
       for (int ipoint = 0; ipoint < num_points; ipoint++) {
-        const int is_inside_iface = t8_plane_point_inside (point_on_face, face_normal, &points[ipoint * 3]);
+        const int is_inside_iface
+          = t8_plane_point_inside (point_on_face, face_normal, &points[ipoint * 3], tolerance);
         if (is_inside_iface == 0) {
           /* Point is on the outside of face iface. Update is_inside */
           is_inside[ipoint] = 0;
diff --git a/src/t8_geometry/t8_geometry_implementations/t8_geometry_linear.cxx b/src/t8_geometry/t8_geometry_implementations/t8_geometry_linear.cxx
index 771b6f5..643980d 100644
--- a/src/t8_geometry/t8_geometry_implementations/t8_geometry_linear.cxx
+++ b/src/t8_geometry/t8_geometry_implementations/t8_geometry_linear.cxx
@@ -187,7 +187,8 @@ t8_geometry_linear::t8_geom_point_batch_inside_element (t8_forest_t forest, t8_l
       double point_on_face[3];
       t8_forest_element_coordinate (forest, ltreeid, element, afacecorner, point_on_face);
       for (int ipoint = 0; ipoint < num_points; ipoint++) {
-        const int is_inside_iface = t8_plane_point_inside (point_on_face, face_normal, &points[ipoint * 3]);
+        const int is_inside_iface
+          = t8_plane_point_inside (point_on_face, face_normal, &points[ipoint * 3], tolerance);
         if (is_inside_iface == 0) {
           /* Point is on the outside of face iface. Update is_inside */
           is_inside[ipoint] = 0;
-- 
2.43.0


From 807b54fc2fd6a01ae4932ae82fdc6ab3ec8c1afb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:43:54 +0000
Subject: [PATCH 37/65] fix: the geometry handler does not use data of a
 destroyed cmesh

A derived cmesh shares the geometry handler of its source. The handler kept the
vertices of the last used tree by its global id only, so it read the vertices of
the source, even after the source was destroyed.
---
 src/t8_cmesh/t8_cmesh.cxx               | 2 ++
 src/t8_geometry/t8_geometry_handler.cxx | 3 ++-
 src/t8_geometry/t8_geometry_handler.hxx | 3 +++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index dc420a6..2c4125b 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -1234,6 +1234,8 @@ t8_cmesh_reset (t8_cmesh_t *pcmesh)
   }
 
   if (cmesh->geometry_handler != nullptr) {
+    /* Other cmeshes may share the handler. It must not use data of this cmesh any longer. */
+    cmesh->geometry_handler->deactivate_tree ();
     cmesh->geometry_handler->unref ();
     cmesh->geometry_handler = nullptr;
   }
diff --git a/src/t8_geometry/t8_geometry_handler.cxx b/src/t8_geometry/t8_geometry_handler.cxx
index 8c0c81c..e9d0afa 100644
--- a/src/t8_geometry/t8_geometry_handler.cxx
+++ b/src/t8_geometry/t8_geometry_handler.cxx
@@ -52,11 +52,12 @@ t8_geometry_handler::update_tree (t8_cmesh_t cmesh, t8_gloidx_t gtreeid)
   SC_CHECK_ABORTF (num_geoms > 0,
                    "The geometry of the tree could not be loaded, because no geometries were registered.");
   T8_ASSERT (active_geometry != nullptr);
-  if (active_tree != gtreeid) {
+  if (active_tree != gtreeid || active_cmesh != cmesh) {
     /* This tree is not the active tree. We need to update the
      * active tree, its geometry and its data. */
     /* Set the new tree as active. */
     active_tree = gtreeid;
+    active_cmesh = cmesh;
     if (num_geoms > 1) {
       /* Find and load the geometry of that tree.
        * Only necessary if we have more than one geometry. */
diff --git a/src/t8_geometry/t8_geometry_handler.hxx b/src/t8_geometry/t8_geometry_handler.hxx
index 23b8363..a372d4e 100644
--- a/src/t8_geometry/t8_geometry_handler.hxx
+++ b/src/t8_geometry/t8_geometry_handler.hxx
@@ -150,6 +150,7 @@ struct t8_geometry_handler
   deactivate_tree ()
   {
     active_tree = -1;
+    active_cmesh = nullptr;
   }
 
   /**
@@ -335,6 +336,8 @@ struct t8_geometry_handler
   t8_geometry *active_geometry = nullptr;
   /** The global tree id of the last tree for which geometry was used. */
   t8_gloidx_t active_tree = -1;
+  /** The cmesh of the last tree for which geometry was used. Several cmeshes may share this handler. */
+  t8_cmesh_t active_cmesh = nullptr;
   /** The reference count of the geometry handler. TODO: Replace by shared_ptr when cmesh becomes a class. */
   t8_refcount_t rc;
 };
-- 
2.43.0


From e6be2676cfc0048acda7a520efeb376029ff68a5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:02:39 +0000
Subject: [PATCH 38/65] fix: write the data fields of a pvtu file inside
 PCellData and PPointData when there are only vector fields

With vector fields and no scalar field t8_write_pvtu omitted the PPointData
element, and without tree/rank/level/id output also the PCellData element, so that the
PDataArray elements of the cell data were direct children of PUnstructuredGrid.
---
 src/t8_vtk/t8_vtk.c | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/t8_vtk/t8_vtk.c b/src/t8_vtk/t8_vtk.c
index 3a9480b..bb6a357 100644
--- a/src/t8_vtk/t8_vtk.c
+++ b/src/t8_vtk/t8_vtk.c
@@ -107,15 +107,17 @@ t8_write_pvtu (const char *filename, int num_procs, int write_tree, int write_ra
       }
     }
 
-    if (strcmp (vtkPointDataString, "")) {
-      fprintf (pvtufile, "    <PPointData Scalars=\"%s\"", vtkPointDataString);
+    if (strcmp (vtkPointDataString, "") || strcmp (vtkPointVectorString, "")) {
+      fprintf (pvtufile, "    <PPointData");
+      if (num_scalars > 0) {
+        /* Add Scalar strings */
+        fprintf (pvtufile, " Scalars=\"%s\"", vtkPointDataString);
+      }
       if (num_scalars < num_data) {
         /* Add Vector strings */
-        fprintf (pvtufile, " Vectors=\"%s\">\n", vtkPointVectorString);
-      }
-      else {
-        fprintf (pvtufile, ">\n");
+        fprintf (pvtufile, " Vectors=\"%s\"", vtkPointVectorString);
       }
+      fprintf (pvtufile, ">\n");
       /* Write data fields */
       for (idata = 0; idata < num_scalars; idata++) {
         sreturn = snprintf (description, BUFSIZ, "%s_%s", data[idata].description, "points");
@@ -187,15 +189,17 @@ t8_write_pvtu (const char *filename, int num_procs, int write_tree, int write_ra
                              data[idata].description);
       }
     }
-    if (strcmp (vtkCellDataString, "")) {
-      fprintf (pvtufile, "    <PCellData Scalars=\"%s\"", vtkCellDataString);
+    if (strcmp (vtkCellDataString, "") || strcmp (vtkCellVectorString, "")) {
+      fprintf (pvtufile, "    <PCellData");
+      if (strcmp (vtkCellDataString, "")) {
+        /* Add Scalar strings */
+        fprintf (pvtufile, " Scalars=\"%s\"", vtkCellDataString);
+      }
       if (num_scalars < num_data) {
         /* Add Vector strings */
-        fprintf (pvtufile, " Vectors=\"%s\">\n", vtkCellVectorString);
-      }
-      else {
-        fprintf (pvtufile, ">\n");
+        fprintf (pvtufile, " Vectors=\"%s\"", vtkCellVectorString);
       }
+      fprintf (pvtufile, ">\n");
       wrote_cell_data = 1;
     }
   }
-- 
2.43.0


From 4f5cbc60d2ee2d339a10f302036b223b2f83d055 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:02:39 +0000
Subject: [PATCH 39/65] fix: do not give different nodes of a msh file the same
 global vertex id

The global vertex id was the node tag modulo the number of nodes. The tags of a
msh file need not be consecutive, so that different nodes could be mapped to the same id.
Use the node tag itself.
---
 src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
index af46d40..99fdb70 100644
--- a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
+++ b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
@@ -1382,7 +1382,7 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
           tree_vertices[3 * i_node] = tree_nodes[i_node].coordinates[0];
           tree_vertices[3 * i_node + 1] = tree_nodes[i_node].coordinates[1];
           tree_vertices[3 * i_node + 2] = tree_nodes[i_node].coordinates[2];
-          global_id_of_node[i_node] = tree_nodes[i_node].index % vertices.size ();
+          global_id_of_node[i_node] = tree_nodes[i_node].index;
         }
         t8_cmesh_set_tree_vertices (cmesh, tree_count, tree_vertices.data (), num_nodes);
         t8_cmesh_set_global_vertices_of_tree (cmesh, tree_count, global_id_of_node, num_nodes);
-- 
2.43.0


From ec7d553d1e24dce16958794a7e07e2d4776deab2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:02:48 +0000
Subject: [PATCH 40/65] fix: store the parameters of all nodes of a tree read
 from a msh file

The size of the attribute was computed with sizeof (int) for an array of doubles, so
that only the first half of the parameters was stored.
---
 src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
index 99fdb70..e5dc599 100644
--- a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
+++ b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
@@ -580,7 +580,7 @@ t8_store_element_node_data (t8_cmesh_t cmesh, t8_gloidx_t tree_count,
                           entity_dim_array, T8_ECLASS_MAX_CORNERS * 2 * sizeof (int), 0);
 
   t8_cmesh_set_attribute (cmesh, tree_count, t8_get_package_id (), T8_CMESH_NODE_PARAMETERS_ATTRIBUTE_KEY,
-                          parameter_array, T8_ECLASS_MAX_CORNERS * 2 * sizeof (int), 0);
+                          parameter_array, T8_ECLASS_MAX_CORNERS * 2 * sizeof (double), 0);
 }
 
 #if T8_ENABLE_OCC
-- 
2.43.0


From 46051dc4f9486610db77bb48d4aeba446c7a9b46 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:03:46 +0000
Subject: [PATCH 41/65] fix: do not destroy the cmesh twice if the elements of
 a msh file cannot be read

t8_cmesh_msh_file_4_read_eles destroyed the cmesh on every error through its own copy of the
handle and t8_cmesh_from_msh_file destroyed it again.
---
 src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
index e5dc599..c2ba905 100644
--- a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
+++ b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
@@ -1255,7 +1255,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
       t8_global_errorf ("Premature end of line while reading num trees.\n");
       t8_debugf ("The line is %s", line);
       free (line);
-      t8_cmesh_destroy (&cmesh);
       return std::nullopt;
     }
   }
@@ -1270,7 +1269,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
     t8_global_errorf ("Premature end of line while reading num trees and num blocks.\n");
     t8_debugf ("The line is %s", line);
     free (line);
-    t8_cmesh_destroy (&cmesh);
     return std::nullopt;
   }
   num_trees = lnum_trees;
@@ -1288,7 +1286,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
     if (retval < 0) {
       t8_global_errorf ("Premature end of line while reading trees.\n");
       free (line);
-      t8_cmesh_destroy (&cmesh);
       return std::nullopt;
     }
     retval = sscanf (line, "%i %li %i %li", &entity_dim, &entity_tag, &ele_type, &num_ele_in_block);
@@ -1297,7 +1294,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
       t8_global_errorf ("Error while reading element block information.\n");
       t8_debugf ("The line is %s", line);
       free (line);
-      t8_cmesh_destroy (&cmesh);
       return std::nullopt;
     }
     /* Check if the tree type is supported */
@@ -1305,7 +1301,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
         || t8_msh_tree_type_to_eclass[ele_type] == T8_ECLASS_COUNT) {
       t8_global_errorf ("tree type %i is not supported by t8code.\n", ele_type);
       free (line);
-      t8_cmesh_destroy (&cmesh);
       return std::nullopt;
     }
     eclass = t8_msh_tree_type_to_eclass[ele_type];
@@ -1325,7 +1320,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
         if (retval < 0) {
           t8_global_errorf ("Premature end of line while reading trees.\n");
           free (line);
-          t8_cmesh_destroy (&cmesh);
           return std::nullopt;
         }
       }
@@ -1337,7 +1331,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
         if (retval < 0) {
           t8_global_errorf ("Premature end of line while reading trees.\n");
           free (line);
-          t8_cmesh_destroy (&cmesh);
           return std::nullopt;
         }
         t8_cmesh_set_tree_class (cmesh, tree_count, eclass);
@@ -1363,7 +1356,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
             t8_global_errorf ("Premature end of line while reading tree.\n");
             t8_debugf ("The line is %s", line);
             free (line);
-            t8_cmesh_destroy (&cmesh);
             return std::nullopt;
           }
           /* Get node from the hashtable */
@@ -1403,7 +1395,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
           if (!t8_cmesh_process_tree_geometry (cmesh, eclass, dim, tree_count, cad_geometry_base, linear_geometry_base,
                                                tree_nodes)) {
             free (line);
-            t8_cmesh_destroy (&cmesh);
             return std::nullopt;
           }
 
@@ -1417,7 +1408,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
   free (line);
   if (tree_count == 0) {
     t8_global_errorf ("Warning: No %iD elements found in msh file.\n", dim);
-    t8_cmesh_destroy (&cmesh);
     return std::nullopt;
   }
   return std::make_optional<t8_msh_tree_vertex_indices> (vertex_indices);
-- 
2.43.0


From b7de787db05c1422699feaaa28ce15209b89d6b2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:03:46 +0000
Subject: [PATCH 42/65] fix: free the node indices if the nodes of a msh file
 cannot be read

---
 src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
index c2ba905..6d8fbf3 100644
--- a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
+++ b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
@@ -469,12 +469,14 @@ t8_msh_file_4_read_nodes (FILE *fp)
       retval = t8_cmesh_msh_read_next_line (&line, &linen, fp);
       if (retval < 0) {
         t8_global_errorf ("Error reading node file.\n");
+        T8_FREE (index_buffer);
         free (line);
         return std::nullopt;
       }
       retval = sscanf (line, "%li", &index_buffer[ln]);
       if (retval != 1) {
         t8_global_errorf ("Error reading node file after node %li.\n", (long) last_index);
+        T8_FREE (index_buffer);
         free (line);
         return std::nullopt;
       }
@@ -489,6 +491,7 @@ t8_msh_file_4_read_nodes (FILE *fp)
       retval = t8_cmesh_msh_read_next_line (&line, &linen, fp);
       if (retval < 0) {
         t8_global_errorf ("Error reading node file\n");
+        T8_FREE (index_buffer);
         free (line);
         return std::nullopt;
       }
@@ -497,6 +500,7 @@ t8_msh_file_4_read_nodes (FILE *fp)
         retval = sscanf (line, "%lf %lf %lf", &coords[0], &coords[1], &coords[2]);
         if (retval != 3) {
           t8_global_errorf ("Error reading node file after node %li.\n", (long) last_index);
+          T8_FREE (index_buffer);
           free (line);
           return std::nullopt;
         }
@@ -508,6 +512,7 @@ t8_msh_file_4_read_nodes (FILE *fp)
           retval = sscanf (line, "%lf %lf %lf %lf", &coords[0], &coords[1], &coords[2], &params[0]);
           if (retval != 4) {
             t8_global_errorf ("Error reading node file after node %li.\n", (long) last_index);
+            T8_FREE (index_buffer);
             free (line);
             return std::nullopt;
           }
@@ -516,12 +521,14 @@ t8_msh_file_4_read_nodes (FILE *fp)
           retval = sscanf (line, "%lf %lf %lf %lf %lf", &coords[0], &coords[1], &coords[2], &params[0], &params[1]);
           if (retval != 5) {
             t8_global_errorf ("Error reading node file after node %li.\n", (long) last_index);
+            T8_FREE (index_buffer);
             free (line);
             return std::nullopt;
           }
           break;
         default:
           t8_global_errorf ("Error reading node file after node %li.\n", (long) last_index);
+          T8_FREE (index_buffer);
           free (line);
           return std::nullopt;
         }
@@ -533,6 +540,7 @@ t8_msh_file_4_read_nodes (FILE *fp)
      * This case should not occur. */
       if (emplaced.second == false) {
         t8_global_errorf ("Node %li defined more than once.\n", index_buffer[ln]);
+        T8_FREE (index_buffer);
         free (line);
         return std::nullopt;
       }
-- 
2.43.0


From 6cbf43a608cfc908119ae9e42cdde6c97e3ee37c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:10:29 +0000
Subject: [PATCH 43/65] fix: do not parse an uninitialized line buffer at the
 end of a msh file

If the end of the file is reached, getline does not change the buffer. Callers that
ignore the return value of t8_cmesh_msh_read_next_line then parsed uninitialized memory.
---
 src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
index 6d8fbf3..f9f6ec7 100644
--- a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
+++ b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
@@ -122,6 +122,8 @@ t8_cmesh_msh_read_next_line (char **line, size_t *n, FILE *fp)
      *       p4est therefore has its own getline function in p4est_connectivity.h. */
     retval = getline (line, n, fp);
     if (retval < 0) {
+      /* Do not leave undefined content or the previous line in the buffer. */
+      (*line)[0] = '\0';
       return retval;
     }
   }
-- 
2.43.0


From f3240156905be2d2a4073f664b2d8b422e063e74 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:28:27 +0000
Subject: [PATCH 44/65] fix: list the hanging faces of one-dimensional meshes
 in the face vector

---
 mesh_handle/competences/dg_competences.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mesh_handle/competences/dg_competences.hxx b/mesh_handle/competences/dg_competences.hxx
index 55ad31b..ab73794 100644
--- a/mesh_handle/competences/dg_competences.hxx
+++ b/mesh_handle/competences/dg_competences.hxx
@@ -224,7 +224,7 @@ struct face_vector_mesh_competence: public t8_crtp_operator<TUnderlying, face_ve
           m_faces.push_back (std::move (f));
           m_element_face_vector[handle_id][iface] = face_idx;
         }
-        else if (num_neighs == 1) {
+        else if (num_neighs == 1 && elem.get_level () >= neighs[0]->get_level ()) {
           const int neigh_id = neighs[0]->get_element_handle_id ();
           const int neigh_rank = mesh.get_rank (neigh_id);
 
@@ -285,7 +285,7 @@ struct face_vector_mesh_competence: public t8_crtp_operator<TUnderlying, face_ve
           // No other case possible without incomplete trees.
         }
         else {
-          /* --- Large side of a MORTAR or MPI_MORTAR (num_neighs > 1) ---  */
+          /* --- Large side of a MORTAR or MPI_MORTAR (num_neighs > 1, or a single finer neighbor in 1D) ---  */
           // We are the coarse element; neighs are all small mortars.
           bool any_remote = std::any_of (neighs.begin (), neighs.end (), [&] (const auto* neigh) {
             return mesh.get_rank (neigh->get_element_handle_id ()) != LOCAL_RANK;
-- 
2.43.0


From 82bea38719587a92a3ef000655976933e90cd536 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:28:45 +0000
Subject: [PATCH 45/65] fix: list the faces at which an element is its own
 neighbor in the face vector

---
 mesh_handle/competences/dg_competences.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mesh_handle/competences/dg_competences.hxx b/mesh_handle/competences/dg_competences.hxx
index ab73794..2e1fad5 100644
--- a/mesh_handle/competences/dg_competences.hxx
+++ b/mesh_handle/competences/dg_competences.hxx
@@ -231,7 +231,8 @@ struct face_vector_mesh_competence: public t8_crtp_operator<TUnderlying, face_ve
           if (elem.get_level () == neighs[0]->get_level ()) {
             /* --- CONFORMAL or MPI_CONFORMAL --- */
             // Insert only from the side with the smaller handle_id so that each conformal face appears exactly once.
-            if (handle_id < neigh_id) {
+            // An element can be its own neighbor (periodic mesh); the second visit was skipped above.
+            if (handle_id <= neigh_id) {
               face f;
               f.type = (neigh_rank != LOCAL_RANK) ? face_type::MPI_CONFORMAL : face_type::CONFORMAL;
               f.sides.push_back ({ handle_id, iface, LOCAL_RANK });
-- 
2.43.0


From 25eddfbf238f2c9822b1a3cc83ab6be589cdabf9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:31:18 +0000
Subject: [PATCH 46/65] fix: release uncommitted changes when a mesh handle is
 destroyed

---
 mesh_handle/mesh.hxx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/mesh_handle/mesh.hxx b/mesh_handle/mesh.hxx
index b08fba5..d88f5f1 100644
--- a/mesh_handle/mesh.hxx
+++ b/mesh_handle/mesh.hxx
@@ -124,9 +124,20 @@ class mesh: public TMeshCompetencePack::template apply<mesh<TElementCompetencePa
    * Destructor for a mesh of the handle. 
    * The forest in use will be unreferenced. 
    * Call \ref t8_forest_ref before if you want to keep it alive.
+   * Changes that were set but not committed are discarded.
    */
   ~mesh ()
   {
+    if (m_uncommitted_forest.has_value ()) {
+      if (detail::adapt_registry::get (m_forest) != nullptr) {
+        detail::adapt_registry::unregister_context (m_forest);
+      }
+      if (m_uncommitted_forest.value ()->set_from != NULL) {
+        // The uncommitted forest took ownership of m_forest and releases it.
+        t8_forest_ref (m_forest);
+      }
+      t8_forest_unref (&*m_uncommitted_forest);
+    }
     t8_forest_unref (&m_forest);
   }
 
-- 
2.43.0


From f2a69139f79d33b1bd5482486747421fd1f80690 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:14:43 +0000
Subject: [PATCH 47/65] fix: give processes without trees their part of the
 disjoint bricks

---
 src/t8_cmesh/t8_cmesh_examples.cxx | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_examples.cxx b/src/t8_cmesh/t8_cmesh_examples.cxx
index afe23d4..a1a4af9 100644
--- a/src/t8_cmesh/t8_cmesh_examples.cxx
+++ b/src/t8_cmesh/t8_cmesh_examples.cxx
@@ -1523,17 +1523,6 @@ t8_cmesh_new_hypercube_pad_ext (t8_cmesh_t cmesh, const t8_eclass_t eclass, sc_M
 
       /* Set the partition (with offsets) */
       t8_cmesh_set_partition_range (cmesh, 3, first_tree, last_tree);
-
-#if T8_ENABLE_DEBUG
-      t8_gloidx_t num_global_trees;
-      /* The global number of trees is the sum over all numbers of trees in conn on each process */
-      int mpiret = sc_MPI_Allreduce (&num_local_trees, &num_global_trees, 1, T8_MPI_GLOIDX, sc_MPI_SUM, comm);
-      SC_CHECK_MPI (mpiret);
-
-      t8_debugf ("Generating partitioned cmesh from connectivity\n"
-                 "Has %li global and %li local trees.\n",
-                 num_global_trees, num_local_trees);
-#endif
     }
   }
 
@@ -1688,12 +1677,10 @@ t8_cmesh_new_disjoint_bricks (t8_cmesh_t cmesh, t8_gloidx_t num_x, t8_gloidx_t n
     }
   }
   else {
-    num_x = num_y = num_z = 0;
-    num_trees = 0;
-    offset = 0;
-
-    /* Create empty cmesh. */
+    /* Create a cmesh that is partitioned like those of the other processes and has no local trees. */
     t8_cmesh_register_geometry<t8_geometry_linear> (cmesh);
+    t8_cmesh_set_dimension (cmesh, dim);
+    t8_cmesh_set_partition_range (cmesh, 3, offset, offset - 1);
     t8_cmesh_commit (cmesh, comm);
   }
 }
-- 
2.43.0


From 387686b13a0b2db64f30aa373a31ae37e4aa0644 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:14:54 +0000
Subject: [PATCH 48/65] fix: use the right orientation in y direction for
 periodic triangle and prism hypercubes

---
 src/t8_cmesh/t8_cmesh_examples.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_examples.cxx b/src/t8_cmesh/t8_cmesh_examples.cxx
index a1a4af9..8175570 100644
--- a/src/t8_cmesh/t8_cmesh_examples.cxx
+++ b/src/t8_cmesh/t8_cmesh_examples.cxx
@@ -773,7 +773,7 @@ t8_cmesh_new_hypercube (t8_cmesh_t *pcmesh, t8_eclass_t eclass, sc_MPI_Comm comm
       t8_cmesh_set_tree_vertices (cmesh, 1, attr_vertices, 6);
       if (periodic) {
         t8_cmesh_set_join (cmesh, 0, 1, 0, 1, 0);
-        t8_cmesh_set_join (cmesh, 0, 1, 2, 0, 0);
+        t8_cmesh_set_join (cmesh, 0, 1, 2, 0, 1);
         t8_cmesh_set_join (cmesh, 0, 0, 3, 4, 0);
         t8_cmesh_set_join (cmesh, 1, 1, 3, 4, 0);
       }
@@ -791,7 +791,7 @@ t8_cmesh_new_hypercube (t8_cmesh_t *pcmesh, t8_eclass_t eclass, sc_MPI_Comm comm
       t8_cmesh_set_tree_vertices (cmesh, 1, attr_vertices, 3);
       if (periodic) {
         t8_cmesh_set_join (cmesh, 0, 1, 0, 1, 0);
-        t8_cmesh_set_join (cmesh, 0, 1, 2, 0, 0);
+        t8_cmesh_set_join (cmesh, 0, 1, 2, 0, 1);
       }
       break;
     case T8_ECLASS_TET:
-- 
2.43.0


From b3c4f9faf361e871cdf6341b963b282eb089d9d4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:15:04 +0000
Subject: [PATCH 49/65] fix: divide the line of a padded hypercube into trees
 of equal length

---
 src/t8_cmesh/t8_cmesh_examples.cxx | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_examples.cxx b/src/t8_cmesh/t8_cmesh_examples.cxx
index 8175570..f59b363 100644
--- a/src/t8_cmesh/t8_cmesh_examples.cxx
+++ b/src/t8_cmesh/t8_cmesh_examples.cxx
@@ -1362,11 +1362,8 @@ t8_cmesh_new_hypercube_pad_ext (t8_cmesh_t cmesh, const t8_eclass_t eclass, sc_M
     /* Get the direction of the line */
     double line_dir[3];
     t8_axpyz (boundary, boundary + 3, line_dir, -1.0);
-    /* Get length of one tree */
-    double length;
-    length = t8_norm (line_dir) / (double) polygons_x;
-    //length = t8_dist (boundary, boundary + 3) / length;
-    t8_ax (line_dir, length);
+    /* Scale it to the length of one tree */
+    t8_ax (line_dir, 1. / (double) polygons_x);
 
     double vertices[6];
     /* Set first vertex to lower end of line */
-- 
2.43.0


From c57fef0774cc95293f73215a7ab2430927637e01 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:15:37 +0000
Subject: [PATCH 50/65] fix: join the faces that coincide in the long brick of
 pyramids

---
 src/t8_cmesh/t8_cmesh_examples.cxx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_examples.cxx b/src/t8_cmesh/t8_cmesh_examples.cxx
index f59b363..ac1e8c9 100644
--- a/src/t8_cmesh/t8_cmesh_examples.cxx
+++ b/src/t8_cmesh/t8_cmesh_examples.cxx
@@ -2791,19 +2791,19 @@ t8_cmesh_new_long_brick_pyramid (t8_cmesh_t cmesh, sc_MPI_Comm comm, int num_cub
       t8_cmesh_set_join (cmesh, current_cube * 3 + 2, current_cube * 3, 2, 0, 0);
     }
     else {
-      t8_cmesh_set_join (cmesh, current_cube * 3, current_cube * 3 + 1, 2, 2, 0);
-      t8_cmesh_set_join (cmesh, current_cube * 3 + 1, current_cube * 3 + 2, 1, 0, 0);
+      t8_cmesh_set_join (cmesh, current_cube * 3, current_cube * 3 + 1, 1, 2, 1);
+      t8_cmesh_set_join (cmesh, current_cube * 3 + 1, current_cube * 3 + 2, 0, 1, 0);
       t8_cmesh_set_join (cmesh, current_cube * 3 + 2, current_cube * 3, 2, 3, 0);
     }
   }
   /* over cube face connection */
   for (current_cube = 0; current_cube < num_cubes - 1; current_cube++) {
     if (current_cube % 2 == 0) {
-      t8_cmesh_set_join (cmesh, current_cube * 3, (current_cube + 1) * 3, 2, 0, 0);
-      t8_cmesh_set_join (cmesh, current_cube * 3 + 1, (current_cube + 1) * 3 + 2, 3, 3, 0);
+      t8_cmesh_set_join (cmesh, current_cube * 3, (current_cube + 1) * 3, 1, 0, 0);
+      t8_cmesh_set_join (cmesh, current_cube * 3 + 1, (current_cube + 1) * 3 + 2, 1, 0, 0);
     }
     else {
-      t8_cmesh_set_join (cmesh, current_cube * 3 + 1, (current_cube + 1) * 3 + 2, 4, 4, 0);
+      t8_cmesh_set_join (cmesh, current_cube * 3 + 1, (current_cube + 1) * 3 + 2, 4, 4, 1);
     }
   }
   /* vertices */
-- 
2.43.0


From fe84b59f3a6d64612b3de66a517d7648333365e0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:15:47 +0000
Subject: [PATCH 51/65] fix: join the faces that coincide in the row of cubes

---
 src/t8_cmesh/t8_cmesh_examples.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh_examples.cxx b/src/t8_cmesh/t8_cmesh_examples.cxx
index ac1e8c9..f65a3c7 100644
--- a/src/t8_cmesh/t8_cmesh_examples.cxx
+++ b/src/t8_cmesh/t8_cmesh_examples.cxx
@@ -2881,7 +2881,7 @@ t8_cmesh_new_row_of_cubes (t8_cmesh_t cmesh, t8_locidx_t num_trees, const int se
 
   /* Join the hexes. */
   for (t8_locidx_t tree_id = 0; tree_id < num_trees - 1; tree_id++) {
-    t8_cmesh_set_join (cmesh, tree_id, tree_id + 1, 0, 1, 0);
+    t8_cmesh_set_join (cmesh, tree_id, tree_id + 1, 1, 0, 0);
   }
 
   /* Check whether the cmesh will be partitioed */
-- 
2.43.0


From 0ddf8b5a8a0cbe6da2c7c374bd99891e4b933e23 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:15:56 +0000
Subject: [PATCH 52/65] fix: tell the layers of a spherical shell apart when
 joining their trees

---
 src/t8_cmesh/t8_cmesh_examples.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_examples.cxx b/src/t8_cmesh/t8_cmesh_examples.cxx
index f65a3c7..f452077 100644
--- a/src/t8_cmesh/t8_cmesh_examples.cxx
+++ b/src/t8_cmesh/t8_cmesh_examples.cxx
@@ -3464,8 +3464,8 @@ t8_cmesh_new_spherical_shell (t8_cmesh_t cmesh, t8_eclass_t eclass, t8_geometry_
       /* Transfer the coordinates from the 2D forest mesh to the cmesh via stacking 3D elements along radial direction. */
       for (int istack = 0; istack < num_layers; istack++) {
         {
-          const double iscale = 1.0 + istack / num_layers;
-          const double oscale = 1.0 + (istack + 1) / num_layers;
+          const double iscale = 1.0 + istack / (double) num_layers;
+          const double oscale = 1.0 + (istack + 1) / (double) num_layers;
 
           double elem_vertices_3d[T8_ECLASS_MAX_CORNERS * 3];
           for (int ivert = 0; ivert < t8_eclass_num_vertices[eclass_2d]; ivert++) {
-- 
2.43.0


From 3e3251c125e9708428c58863d2d02ed826edecf7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:16:45 +0000
Subject: [PATCH 53/65] fix: join the faces that coincide in the cake of
 rotated prisms

---
 src/t8_cmesh/t8_cmesh_examples.cxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_examples.cxx b/src/t8_cmesh/t8_cmesh_examples.cxx
index f452077..3a0b677 100644
--- a/src/t8_cmesh/t8_cmesh_examples.cxx
+++ b/src/t8_cmesh/t8_cmesh_examples.cxx
@@ -2091,12 +2091,12 @@ t8_cmesh_new_prism_cake_funny_oriented (t8_cmesh_t cmesh, sc_MPI_Comm comm)
     t8_cmesh_set_tree_class (cmesh, i, T8_ECLASS_PRISM);
   }
 
-  t8_cmesh_set_join (cmesh, 0, 1, 2, 0, 3);
-  t8_cmesh_set_join (cmesh, 1, 2, 1, 2, 0);
-  t8_cmesh_set_join (cmesh, 2, 3, 0, 0, 0);
-  t8_cmesh_set_join (cmesh, 3, 4, 1, 0, 0);
-  t8_cmesh_set_join (cmesh, 4, 5, 2, 2, 0);
-  t8_cmesh_set_join (cmesh, 5, 0, 1, 1, 0);
+  t8_cmesh_set_join (cmesh, 0, 1, 1, 1, 1);
+  t8_cmesh_set_join (cmesh, 1, 2, 0, 0, 1);
+  t8_cmesh_set_join (cmesh, 2, 3, 2, 0, 1);
+  t8_cmesh_set_join (cmesh, 3, 4, 2, 0, 1);
+  t8_cmesh_set_join (cmesh, 4, 5, 2, 1, 0);
+  t8_cmesh_set_join (cmesh, 5, 0, 0, 2, 1);
 
   for (i = 0; i < 6; i++) {
     t8_cmesh_set_tree_vertices (cmesh, i, vertices + i * 18, 6);
-- 
2.43.0


From 7e99ac3e4011f5c48fca3bac3ea5076955a6a192 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:17:10 +0000
Subject: [PATCH 54/65] fix: add the offset of a padded hypercube once to every
 tree and join

---
 src/t8_cmesh/t8_cmesh_examples.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_examples.cxx b/src/t8_cmesh/t8_cmesh_examples.cxx
index 3a0b677..7032895 100644
--- a/src/t8_cmesh/t8_cmesh_examples.cxx
+++ b/src/t8_cmesh/t8_cmesh_examples.cxx
@@ -1195,10 +1195,10 @@ t8_cmesh_set_vertices_3D (t8_cmesh_t cmesh, const t8_eclass_t eclass, const doub
         }
 
         /* Map vertices of current hex on to respective trees inside. */
-        const t8_gloidx_t hex_id = hex_z_id * hexs_y * hexs_x + hex_y_id * hexs_x + hex_x_id + offset;
+        const t8_gloidx_t hex_id = hex_z_id * hexs_y * hexs_x + hex_y_id * hexs_x + hex_x_id;
         if (eclass == T8_ECLASS_HEX) {
           /* No mapping is required. */
-          t8_cmesh_set_tree_vertices (cmesh, hex_id, vertices, use_axis_aligned_geom ? 2 : 8);
+          t8_cmesh_set_tree_vertices (cmesh, hex_id + offset, vertices, use_axis_aligned_geom ? 2 : 8);
         }
         else if (eclass == T8_ECLASS_TET) {
           const t8_gloidx_t tree_id_0 = hex_id * 6 + offset;
@@ -1484,7 +1484,7 @@ t8_cmesh_new_hypercube_pad_ext (t8_cmesh_t cmesh, const t8_eclass_t eclass, sc_M
           t8_locidx_t tree_id_0 = poly_id * 6 + 5;
           t8_locidx_t tree_id_1
             = poly_z_id == polygons_z - 1 ? base_id * 6 + 1 : (poly_id + polygons_y * polygons_x) * 6 + 1;
-          t8_cmesh_set_join (cmesh, tree_id_0, tree_id_1, 0, 3, 2);
+          t8_cmesh_set_join (cmesh, tree_id_0 + offset, tree_id_1 + offset, 0, 3, 2);
           tree_id_0 = poly_id * 6 + 4;
           tree_id_1 = poly_z_id == polygons_z - 1 ? base_id * 6 + 2 : (poly_id + polygons_y * polygons_x) * 6 + 2;
           t8_cmesh_set_join (cmesh, tree_id_0 + offset, tree_id_1 + offset, 0, 3, 0);
-- 
2.43.0


From b37a95cef6442c82762ccb4075fc776fbb181470 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:32:02 +0000
Subject: [PATCH 55/65] fix: switching profiling off again left a dangling
 profile that was freed twice

---
 src/t8_cmesh/t8_cmesh.cxx   | 1 +
 src/t8_forest/t8_forest.cxx | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index 2c4125b..01de8b5 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -614,6 +614,7 @@ t8_cmesh_set_profiling (t8_cmesh_t cmesh, const int set_profiling)
     /* Free any profile that is already set */
     if (cmesh->profile != nullptr) {
       T8_FREE (cmesh->profile);
+      cmesh->profile = nullptr;
     }
   }
 }
diff --git a/src/t8_forest/t8_forest.cxx b/src/t8_forest/t8_forest.cxx
index bbfda05..f607e29 100644
--- a/src/t8_forest/t8_forest.cxx
+++ b/src/t8_forest/t8_forest.cxx
@@ -3962,6 +3962,7 @@ t8_forest_set_profiling (t8_forest_t forest, int set_profiling)
     /* Free any profile that is already set */
     if (forest->profile != nullptr) {
       T8_FREE (forest->profile);
+      forest->profile = nullptr;
     }
   }
 }
-- 
2.43.0


From ea2d5b5adffe5baadc97712959cccbadaade70e0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:32:02 +0000
Subject: [PATCH 56/65] fix: broadcasting a coarse mesh with profiling enabled
 dereferenced the null input of the other processes

---
 src/t8_cmesh/t8_cmesh.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index 01de8b5..11e0bff 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -770,7 +770,7 @@ t8_cmesh_bcast (const t8_cmesh_t cmesh_in, const int root, sc_MPI_Comm comm)
     cmesh_out->num_ghosts = 0;
     T8_ASSERT (cmesh_out->set_partition == 0);
     if (meta_info.cmesh.profile != nullptr) {
-      t8_cmesh_set_profiling (cmesh_in, 1);
+      t8_cmesh_set_profiling (cmesh_out, 1);
     }
     for (iclass = 0; iclass < T8_ECLASS_COUNT; iclass++) {
       cmesh_out->num_trees_per_eclass[iclass] = meta_info.num_trees_per_eclass[iclass];
-- 
2.43.0


From cb5ad9e4abecb76daf5f4ad44da6640f75a8e244 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:52:05 +0000
Subject: [PATCH 57/65] fix: the C search objects kept pointers to variables of
 the functions that set them up

The queries, the user data and the context of the batched callback were referred
to by address of a local variable, and the callbacks were given the address of the
user data pointer instead of the pointer.
---
 .../t8_forest_search/t8_forest_search.cxx     | 34 +++++++++++--------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/t8_forest/t8_forest_search/t8_forest_search.cxx b/src/t8_forest/t8_forest_search/t8_forest_search.cxx
index 2a10108..bc7df57 100644
--- a/src/t8_forest/t8_forest_search/t8_forest_search.cxx
+++ b/src/t8_forest/t8_forest_search/t8_forest_search.cxx
@@ -156,7 +156,7 @@ T8_EXTERN_C_BEGIN ();
  */
 struct t8_forest_c_search
 {
-  t8_search<void *> *cpp_search; /**< The C++ search object. */
+  t8_search<void> *cpp_search; /**< The C++ search object. */
 };
 
 void
@@ -165,7 +165,7 @@ t8_forest_init_search (t8_forest_search_c_wrapper search, t8_search_element_call
 {
   T8_ASSERT (search != NULL);
   T8_ASSERT (element_callback != NULL);
-  search->cpp_search = new t8_search<void *> (element_callback, forest);
+  search->cpp_search = new t8_search<void> (element_callback, forest);
 }
 
 void
@@ -181,7 +181,7 @@ t8_forest_search_update_user_data (t8_forest_search_c_wrapper search, void *udat
 {
   T8_ASSERT (search != NULL);
   T8_ASSERT (udata != NULL);
-  search->cpp_search->update_user_data (&udata);
+  search->cpp_search->update_user_data (udata);
 }
 
 void
@@ -204,7 +204,8 @@ t8_forest_search_destroy (t8_forest_search_c_wrapper search)
  */
 struct t8_forest_search_with_queries
 {
-  t8_search_with_queries<void *, void *> *cpp_search; /**< The C++ search object with queries. */
+  t8_search_with_queries<void *, void> *cpp_search; /**< The C++ search object with queries. */
+  std::vector<void *> *queries;                     /**< The queries, to which the C++ search object refers. */
 };
 
 void
@@ -219,10 +220,10 @@ t8_forest_init_search_with_queries (t8_forest_search_with_queries_c_wrapper sear
   T8_ASSERT (queries != NULL);
   T8_ASSERT (forest != NULL);
 
-  std::vector<void *> queries_vector = std::vector<void *> (queries, queries + num_queries);
+  search_with_queries->queries = new std::vector<void *> (queries, queries + num_queries);
 
-  search_with_queries->cpp_search
-    = new t8_search_with_queries<void *, void *> (element_callback, queries_callback, queries_vector, forest);
+  search_with_queries->cpp_search = new t8_search_with_queries<void *, void> (
+    element_callback, queries_callback, *search_with_queries->queries, forest);
 }
 
 void
@@ -240,7 +241,7 @@ t8_forest_search_with_queries_update_user_data (t8_forest_search_with_queries_c_
 {
   T8_ASSERT (search_with_queries != NULL);
   T8_ASSERT (udata != NULL);
-  search_with_queries->cpp_search->update_user_data (&udata);
+  search_with_queries->cpp_search->update_user_data (udata);
 }
 
 void
@@ -268,6 +269,8 @@ t8_forest_search_with_queries_destroy (t8_forest_search_with_queries_c_wrapper s
   T8_ASSERT (search != NULL);
   delete search->cpp_search;
   search->cpp_search = nullptr;
+  delete search->queries;
+  search->queries = nullptr;
 }
 
 /**
@@ -275,7 +278,8 @@ t8_forest_search_with_queries_destroy (t8_forest_search_with_queries_c_wrapper s
  */
 struct t8_forest_search_with_batched_queries
 {
-  t8_search_with_batched_queries<void *, void *> *cpp_search;    /**< The C++ search object. */
+  t8_search_with_batched_queries<void *, void> *cpp_search;      /**< The C++ search object. */
+  std::vector<void *> *queries;                                  /**< The queries, to which cpp_search refers. */
   t8_search_batched_queries_callback_c_wrapper queries_callback; /**< The C++ query object. */
 
   /**
@@ -318,20 +322,20 @@ t8_forest_init_search_with_batched_queries (t8_forest_search_with_batched_querie
   T8_ASSERT (queries != NULL);
   T8_ASSERT (forest != NULL);
 
-  std::vector<void *> queries_vector = std::vector<void *> (queries, queries + num_queries);
+  search_with_queries->queries = new std::vector<void *> (queries, queries + num_queries);
 
   search_with_queries->queries_callback = queries_callback;
 
-  search_with_queries->cpp_search = new t8_search_with_batched_queries<void *, void *> (
+  search_with_queries->cpp_search = new t8_search_with_batched_queries<void *, void> (
     element_callback,
-    [&search_with_queries] (
+    [search_with_queries] (
       const t8_forest_t forest, const t8_locidx_t ltreeid, const t8_element_t *element, const bool is_leaf,
       const t8_element_array_t *leaf_elements, const t8_locidx_t tree_leaf_index, const std::vector<void *> &queries,
       const std::vector<size_t> &active_query_indices, std::vector<bool> &query_matches, void *user_data) {
       search_with_queries->wrapped_queries_callback (forest, ltreeid, element, is_leaf, leaf_elements, tree_leaf_index,
                                                      queries, active_query_indices, query_matches, user_data);
     },
-    queries_vector, forest);
+    *search_with_queries->queries, forest);
 }
 
 void
@@ -349,7 +353,7 @@ t8_forest_search_with_batched_queries_update_user_data (
 {
   T8_ASSERT (search_with_queries != NULL);
   T8_ASSERT (udata != NULL);
-  search_with_queries->cpp_search->update_user_data (&udata);
+  search_with_queries->cpp_search->update_user_data (udata);
 }
 void
 t8_forest_search_with_batched_queries_update_queries (
@@ -368,6 +372,8 @@ t8_forest_search_with_batched_queries_destroy (t8_forest_search_with_batched_que
   T8_ASSERT (search != NULL);
   delete search->cpp_search;
   search->cpp_search = nullptr;
+  delete search->queries;
+  search->queries = nullptr;
 }
 
 void
-- 
2.43.0


From 100a2dba00414cc4591ac0331abc6993f3f98435 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 08:06:31 +0000
Subject: [PATCH 58/65] fix: partition weights and offsets were ignored when
 the forest is balanced in the same commit

---
 src/t8_forest/t8_forest.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/t8_forest/t8_forest.cxx b/src/t8_forest/t8_forest.cxx
index f607e29..88219b2 100644
--- a/src/t8_forest/t8_forest.cxx
+++ b/src/t8_forest/t8_forest.cxx
@@ -3356,6 +3356,11 @@ t8_forest_commit (t8_forest_t forest)
           t8_forest_ref (forest->set_from);
         }
         t8_forest_set_partition (forest_partition, forest->set_from, forest->set_for_coarsening);
+        /* The requested shares of the processes apply to this partition */
+        t8_forest_set_partition_weight_function (forest_partition, forest->weight_function);
+        if (forest->set_partition_offset) {
+          t8_forest_set_partition_offset (forest_partition, forest->set_first_global_element);
+        }
         /* activate profiling, if this forest has profiling */
         t8_forest_set_profiling (forest_partition, forest->profile != nullptr);
         /* Commit the partitioned forest */
-- 
2.43.0


From 2780597dc525eede68561a5a4abb62ac1298217f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 08:29:41 +0000
Subject: [PATCH 59/65] fix: t8_cmesh_set_partition_uniform leaked the scheme
 of a previous call

---
 src/t8_cmesh/t8_cmesh.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index 11e0bff..8248b8e 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -348,6 +348,10 @@ t8_cmesh_set_partition_uniform (t8_cmesh_t cmesh, const int element_level, const
 
   cmesh->set_partition = 1;
   cmesh->set_partition_level = element_level;
+  if (cmesh->set_partition_scheme != nullptr) {
+    /* We own the scheme of a previous call, so we release it. */
+    cmesh->set_partition_scheme->unref ();
+  }
   cmesh->set_partition_scheme = scheme;
   if (element_level >= 0) {
     /* We overwrite any previous partition settings */
-- 
2.43.0


From 5845803e82258bcf628e326b5776571da3a2722a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 08:59:46 +0000
Subject: [PATCH 60/65] fix: empty processes got a wrong first tree from the
 uniform bounds of a mesh partitioned with shared trees

---
 src/t8_cmesh/t8_cmesh.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index 8248b8e..f4fc00f 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -1769,7 +1769,8 @@ t8_cmesh_uniform_bounds_from_unpartioned (const t8_cmesh_t cmesh, const t8_gloid
  *
  */
 static void
-t8_cmesh_bounds_send_start_or_end (const t8_cmesh_t cmesh, const bool start_message, const bool proc_is_empty,
+t8_cmesh_bounds_send_start_or_end (const t8_cmesh_t cmesh, const bool start_message,
+                                   [[maybe_unused]] const bool proc_is_empty,
                                    const t8_locidx_t first_or_last_puretree_of_iproc, const int first_tree_shared_shift,
                                    const t8_gloidx_t iproc, std::vector<sc_MPI_Request> &send_requests,
                                    std::vector<t8_gloidx_t> &send_buffer, int *current_pos_in_send_buffer,
@@ -1780,8 +1781,7 @@ t8_cmesh_bounds_send_start_or_end (const t8_cmesh_t cmesh, const bool start_mess
                                    [[maybe_unused]] const t8_gloidx_t global_num_elements, sc_MPI_Comm comm)
 {
   const t8_gloidx_t global_id_of_first_or_last_tree = first_or_last_puretree_of_iproc
-                                                      + t8_cmesh_get_first_treeid (cmesh)
-                                                      + (proc_is_empty ? 0 : first_tree_shared_shift);
+                                                      + t8_cmesh_get_first_treeid (cmesh) + first_tree_shared_shift;
   if (iproc != cmesh->mpirank) {
     const int num_entries = 2;
     /* Allocate a new request */
-- 
2.43.0


From 9b5634e3433b471dc724e29eeacf91fafdad21f6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 09:00:06 +0000
Subject: [PATCH 61/65] fix: rounding in the uniform bounds assigned the last
 element of a process to the next one

---
 src/t8_cmesh/t8_cmesh.cxx | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index f4fc00f..dea1eb9 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -1630,8 +1630,22 @@ t8_cmesh_determine_partition (const t8_gloidx_t element_index, const t8_gloidx_t
   else {
     /*Use the mirror_element_index to map the whole range of [first_elem_of_iproc, last_elem_of_iproc) to first_proc*/
     const t8_gloidx_t mirror_element_index = global_num_elements - element_index - 1;
-    const int first_proc_rank
+    int first_proc_rank
       = num_procs - 1 - t8_A_times_B_over_C_intA (num_procs, mirror_element_index, global_num_elements);
+    /* The quotient is computed in floating point arithmetic and may be rounded across a process boundary,
+     * we correct it with the exact offsets. */
+    while (first_proc_rank > 0
+           && t8_cmesh_get_first_element_of_process ((uint32_t) first_proc_rank, (uint32_t) num_procs,
+                                                     (uint64_t) global_num_elements)
+                > (uint64_t) element_index) {
+      first_proc_rank--;
+    }
+    while (first_proc_rank < num_procs - 1
+           && t8_cmesh_get_first_element_of_process ((uint32_t) first_proc_rank + 1, (uint32_t) num_procs,
+                                                     (uint64_t) global_num_elements)
+                <= (uint64_t) element_index) {
+      first_proc_rank++;
+    }
     const int first_proc_adjusted = first_proc_rank - process_offset;
 #if T8_ENABLE_DEBUG
     T8_ASSERT (0 <= first_proc_rank && first_proc_rank < num_procs);
-- 
2.43.0


From 21491c5cd773e6efa8503d5a68392d62749d5834 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:21:25 +0000
Subject: [PATCH 62/65] fix: the adapt callback of a combined adapt and
 partition or balance did not see the user function

---
 src/t8_forest/t8_forest.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/t8_forest/t8_forest.cxx b/src/t8_forest/t8_forest.cxx
index 88219b2..4d94314 100644
--- a/src/t8_forest/t8_forest.cxx
+++ b/src/t8_forest/t8_forest.cxx
@@ -3319,8 +3319,9 @@ t8_forest_commit (t8_forest_t forest)
         t8_forest_init (&forest_adapt);
         /* forest_adapt should not change ownership of forest->set_from */
         t8_forest_ref (forest->set_from);
-        /* set user data of forest to forest_adapt */
+        /* set user data and user function of forest to forest_adapt */
         t8_forest_set_user_data (forest_adapt, t8_forest_get_user_data (forest));
+        t8_forest_set_user_function (forest_adapt, t8_forest_get_user_function (forest));
         /* Construct an intermediate, adapted forest */
         t8_forest_set_adapt (forest_adapt, forest->set_from, forest->set_adapt_fn, forest->set_adapt_recursive);
         /* Set profiling if enabled */
@@ -3328,8 +3329,9 @@ t8_forest_commit (t8_forest_t forest)
         t8_forest_commit (forest_adapt);
         /* The new forest will be partitioned/balanced from forest_adapt */
         forest->set_from = forest_adapt;
-        /* Set the user data of forest_from to forest_adapt */
+        /* Set the user data and user function of forest_from to forest_adapt */
         t8_forest_set_user_data (forest_adapt, t8_forest_get_user_data (forest_from));
+        t8_forest_set_user_function (forest_adapt, t8_forest_get_user_function (forest_from));
         /* If profiling is enabled copy the runtime of adapt. */
         if (forest->profile != nullptr) {
           forest->profile->adapt_runtime = forest_adapt->profile->adapt_runtime;
-- 
2.43.0


From 7897ba1480b2bc7d8973b0f2775f2ed452ff8358 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:29:45 +0000
Subject: [PATCH 63/65] fix: t8_cmesh_offset_percent asserted that the
 percentages of all processes add up to 100

---
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
index d37a385..43ee618 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
@@ -1790,13 +1790,8 @@ t8_cmesh_offset_percent (const t8_cmesh_t cmesh, sc_MPI_Comm comm, const int per
   const t8_gloidx_t *old_partition;
   int mpirank, mpisize, mpiret;
   int created = 0;
-#if T8_ENABLE_DEBUG
-  int total = 0;
-  int proc_perc = percent;
-  sc_MPI_Allreduce (&proc_perc, &total, 1, sc_MPI_INT, sc_MPI_SUM, comm);
-  T8_ASSERT (total == 100);
-#endif
 
+  T8_ASSERT (0 <= percent && percent <= 100);
   T8_ASSERT (t8_cmesh_is_committed (cmesh));
   T8_ASSERT (t8_cmesh_comm_is_valid (cmesh, comm));
 
-- 
2.43.0


From 46836b821c1f7332f04107d2a1d070e416afe518 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:45:25 +0000
Subject: [PATCH 64/65] fix: t8_geometry_zero sets the coordinates of every
 point

It wrote zeros behind the output array instead, once for every point.
---
 .../t8_geometry_implementations/t8_geometry_zero.cxx        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.cxx b/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.cxx
index 0c40d27..8823357 100644
--- a/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.cxx
+++ b/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.cxx
@@ -41,9 +41,9 @@ t8_geometry_zero::t8_geom_evaluate ([[maybe_unused]] t8_cmesh_t cmesh, [[maybe_u
 {
   /* Set the out_coords to 0 */
   for (size_t coord = 0; coord < num_coords; coord++) {
-    out_coords[0 + num_coords * T8_ECLASS_MAX_DIM] = 0;
-    out_coords[1 + num_coords * T8_ECLASS_MAX_DIM] = 0;
-    out_coords[2 + num_coords * T8_ECLASS_MAX_DIM] = 0;
+    out_coords[0 + coord * T8_ECLASS_MAX_DIM] = 0;
+    out_coords[1 + coord * T8_ECLASS_MAX_DIM] = 0;
+    out_coords[2 + coord * T8_ECLASS_MAX_DIM] = 0;
   }
 }
 
-- 
2.43.0


From ad73aaadf39413284499f72027d06c95e4460df1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:48:08 +0000
Subject: [PATCH 65/65] fix: t8_geometry_zero loads the class of the active
 tree

Its jacobian takes the dimension from the class, which was never set.
---
 .../t8_geometry_implementations/t8_geometry_zero.cxx         | 5 +++--
 .../t8_geometry_implementations/t8_geometry_zero.hxx         | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.cxx b/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.cxx
index 8823357..416871d 100644
--- a/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.cxx
+++ b/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.cxx
@@ -58,9 +58,10 @@ t8_geometry_zero::t8_geom_evaluate_jacobian ([[maybe_unused]] t8_cmesh_t cmesh,
 }
 
 inline void
-t8_geometry_zero::t8_geom_load_tree_data ([[maybe_unused]] t8_cmesh_t cmesh, [[maybe_unused]] t8_gloidx_t gtreeid)
+t8_geometry_zero::t8_geom_load_tree_data (t8_cmesh_t cmesh, t8_gloidx_t gtreeid)
 {
-  /* Do nothing. */
+  /* The class of the tree determines the size of the jacobian. */
+  t8_geometry::t8_geom_load_tree_data (cmesh, gtreeid);
 }
 
 T8_EXTERN_C_BEGIN ();
diff --git a/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.hxx b/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.hxx
index 18d062c..0a1ec0e 100644
--- a/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.hxx
+++ b/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.hxx
@@ -123,7 +123,7 @@ struct t8_geometry_zero: public t8_geometry
   /** Update a possible internal data buffer for per tree data.
    * This function is called before the first coordinates in a new tree are
    * evaluated.
-   * In this implementation, we do nothing, since we do not need any tree data.
+   * In this implementation, we only load the id and class of the tree, since we do not need any other tree data.
    * \param [in]  cmesh      The cmesh.
    * \param [in]  gtreeid    The global tree.
    */
-- 
2.43.0

