From e30578df816111eb2a4d1b24527dcfa7edfcd8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:07 +0000
Subject: [PATCH 01/18] fix: count the first cluster when sizing hierarchical
 work area

iscc_hi_init_cl_stack skipped cluster 0 when searching for the largest cluster, so
refining a clustering whose first cluster is the largest overran the edge stores
and the distance array.
---
 src/hierarchical_clustering.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hierarchical_clustering.c b/src/hierarchical_clustering.c
index 910ba91..34f5dd6 100644
--- a/src/hierarchical_clustering.c
+++ b/src/hierarchical_clustering.c
@@ -335,7 +335,7 @@ static scc_ErrorCode iscc_hi_init_cl_stack(const scc_Clustering* const in_cl,
 		}
 	}
 
-	size_t size_largest_cluster = 0;
+	size_t size_largest_cluster = clusters[0].size;
 	clusters[0].members = out_cl_stack->pointindex_store + clusters[0].size;
 	for (size_t c = 1; c < in_cl->num_clusters; ++c) {
 		clusters[c].members = clusters[c - 1].members + clusters[c].size;
-- 
2.43.0


From 12a8662d71cecc5fa5e3f273623ea465d55bf2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:06 +0000
Subject: [PATCH 02/18] fix: report allocation failure in iscc_assign_by_nng

The error code was returned as the number of assigned points, so the failure was
swallowed, points were left unassigned and a too small buffer was allocated.
---
 src/nng_core.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/nng_core.c b/src/nng_core.c
index 358ce44..eed842d 100644
--- a/src/nng_core.c
+++ b/src/nng_core.c
@@ -482,7 +482,12 @@ scc_ErrorCode iscc_make_nng_clusters_from_seeds(scc_Clustering* const clustering
 	// (NNG already contains radius constraint.)
 	if ((unassigned_method == SCC_UM_ANY_NEIGHBOR) ||
 	        (nng_is_ordered && (unassigned_method == SCC_UM_CLOSEST_ASSIGNED))) {
-		total_assigned += iscc_assign_by_nng(clustering, nng);
+		const size_t num_assigned_by_nng = iscc_assign_by_nng(clustering, nng);
+		if (num_assigned_by_nng == SIZE_MAX) {
+			free(seed_or_neighbor);
+			return iscc_make_error(SCC_ER_NO_MEMORY);
+		}
+		total_assigned += num_assigned_by_nng;
 
 		// Ignore remaining points if SCC_UM_ANY_NEIGHBOR
 		if (unassigned_method == SCC_UM_ANY_NEIGHBOR) {
@@ -963,7 +968,7 @@ static size_t iscc_assign_by_nng(scc_Clustering* const clustering,
 	assert(!iscc_digraph_is_empty(nng));
 
 	bool* const scratch = malloc(sizeof(bool[clustering->num_data_points]));
-	if (scratch == NULL) return iscc_make_error(SCC_ER_NO_MEMORY);
+	if (scratch == NULL) return SIZE_MAX; // Never a valid count, signals failed allocation
 	for (size_t i = 0; i < clustering->num_data_points; ++i) {
 		scratch[i] = (clustering->cluster_label[i] == SCC_CLABEL_NA);
 	}
-- 
2.43.0


From 63a6cebb78cc1e7f2e69a9f0ecf1f1e37cb64c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:06 +0000
Subject: [PATCH 03/18] fix: check allocation in iscc_assign_by_nn_search

---
 src/nng_core.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nng_core.c b/src/nng_core.c
index eed842d..4ae88e8 100644
--- a/src/nng_core.c
+++ b/src/nng_core.c
@@ -1015,6 +1015,7 @@ static scc_ErrorCode iscc_assign_by_nn_search(scc_Clustering* const clustering,
 		out_ok_query = to_assign;
 	}
 	scc_PointIndex* const out_nn_indices = malloc(sizeof(scc_PointIndex[num_to_assign]));
+	if (out_nn_indices == NULL) return iscc_make_error(SCC_ER_NO_MEMORY);
 
 	if (!iscc_nearest_neighbor_search(nn_search_object,
 	                                  num_to_assign,
-- 
2.43.0


From 593e6d4d50bb1ae2ac55077a3bc9df5c082df47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:06 +0000
Subject: [PATCH 04/18] fix: propagate errors from assignment of secondary
 points

---
 src/nng_core.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nng_core.c b/src/nng_core.c
index 4ae88e8..1472eea 100644
--- a/src/nng_core.c
+++ b/src/nng_core.c
@@ -635,7 +635,7 @@ scc_ErrorCode iscc_make_nng_clusters_from_seeds(scc_Clustering* const clustering
 		iscc_close_nn_search_object(&nn_seed_search_object);
 	}
 
-	return iscc_no_error();
+	return ec;
 }
 
 
-- 
2.43.0


From ed9a9becb0ba5799c3e35c74ea6cf228083a7394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:06 +0000
Subject: [PATCH 05/18] fix: allocation failures in iscc_findseeds_exclusion

A failed allocation was recorded but not returned (NULL and freed memory were then
written to), and the index array leaked when the exclusion graph could not be made.
---
 src/nng_findseeds.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nng_findseeds.c b/src/nng_findseeds.c
index 45acca3..10ff499 100644
--- a/src/nng_findseeds.c
+++ b/src/nng_findseeds.c
@@ -320,7 +320,7 @@ static scc_ErrorCode iscc_findseeds_exclusion(const iscc_Digraph* const nng,
 	scc_PointIndex* tmp_index_not_excluded = malloc(sizeof(scc_PointIndex[nng->vertices]));
 	if (tmp_index_not_excluded == NULL) {
 		free(not_excluded);
-		iscc_make_error(SCC_ER_NO_MEMORY);
+		return iscc_make_error(SCC_ER_NO_MEMORY);
 	}
 	assert(nng->vertices <= ISCC_POINTINDEX_MAX);
 	const scc_PointIndex vertices_pi = (scc_PointIndex) nng->vertices; // If `scc_PointIndex` is signed
@@ -344,6 +344,7 @@ static scc_ErrorCode iscc_findseeds_exclusion(const iscc_Digraph* const nng,
 	iscc_Digraph exclusion_graph;
 	if ((ec = iscc_fs_exclusion_graph(nng, tmp_num_not_excluded, tmp_index_not_excluded, &exclusion_graph)) != SCC_ER_OK) {
 		free(not_excluded);
+		free(tmp_index_not_excluded);
 		return ec;
 	}
 
-- 
2.43.0


From 6788d52fb2c124b888c8b4287ee17719d7aacff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:06 +0000
Subject: [PATCH 06/18] fix: check allocation of primary data point indicators
 in batch clustering

---
 src/nng_batch_clustering.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nng_batch_clustering.c b/src/nng_batch_clustering.c
index d4644f6..31fd76a 100644
--- a/src/nng_batch_clustering.c
+++ b/src/nng_batch_clustering.c
@@ -141,6 +141,13 @@ scc_ErrorCode scc_nng_clustering_batches(scc_Clustering* const clustering,
 	bool* tmp_primary_data_points = NULL;
 	if (primary_data_points != NULL) {
 		tmp_primary_data_points = calloc(clustering->num_data_points, sizeof(bool));
+		if (tmp_primary_data_points == NULL) {
+			free(batch_indices);
+			free(out_indices);
+			free(assigned);
+			iscc_close_nn_search_object(&nn_search_object);
+			return iscc_make_error(SCC_ER_NO_MEMORY);
+		}
 		for (size_t i = 0; i < len_primary_data_points; ++i) {
 			tmp_primary_data_points[primary_data_points[i]] = true;
 		}
-- 
2.43.0


From d1db1eb6108cb77240b997e2d113d072dfb8c0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:19 +0000
Subject: [PATCH 07/18] fix: distinct centers when all points in a cluster are
 identical

The farthest point from a point could be the point itself, which was then moved to
both halves of the split cluster: another point was lost and its label never written.
---
 src/hierarchical_clustering.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hierarchical_clustering.c b/src/hierarchical_clustering.c
index 34f5dd6..ac1f0c3 100644
--- a/src/hierarchical_clustering.c
+++ b/src/hierarchical_clustering.c
@@ -796,6 +796,11 @@ static scc_ErrorCode iscc_hi_find_centers(iscc_hi_ClusterItem* const cl,
 		return iscc_make_error(SCC_ER_DIST_SEARCH_ERROR);
 	}
 
+	if (*out_center1 == *out_center2) {
+		// All points are identical, any other member can be the second center
+		*out_center2 = (cl->members[0] != *out_center1) ? cl->members[0] : cl->members[1];
+	}
+
 	return iscc_no_error();
 }
 
-- 
2.43.0


From 2fc0b18115d5a422824c7966bde7fc8b9658ccb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:19 +0000
Subject: [PATCH 08/18] fix: type labels without any non-zero type constraint

The union of zero nearest neighbor graphs was taken, which read an uninitialized
digraph. With all type constraints zero only the size constraint applies.
---
 src/nng_core.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/nng_core.c b/src/nng_core.c
index 1472eea..449eddd 100644
--- a/src/nng_core.c
+++ b/src/nng_core.c
@@ -250,6 +250,23 @@ scc_ErrorCode iscc_get_nng_with_type_constraint(void* const data_set,
 		return ec;
 	}
 
+	if (tc.sum_type_constraints == 0) {
+		// No type is constrained, so only the overall size constraint applies
+		free(tc.type_group_size);
+		free(tc.point_store);
+		free(tc.type_groups);
+		free(seedable);
+		free(nng_by_type);
+		return iscc_get_nng_with_size_constraint(data_set,
+		                                         num_data_points,
+		                                         size_constraint,
+		                                         len_primary_data_points,
+		                                         primary_data_points,
+		                                         radius_constraint,
+		                                         radius,
+		                                         out_nng);
+	}
+
 	uint_fast16_t num_non_zero_type_constraints = 0;
 	for (uint_fast16_t i = 0; i < num_types; ++i) {
 		if (type_constraints[i] > 0) {
-- 
2.43.0


From 736e01643e429ba31e425a8b8d6208c4319f87ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:19 +0000
Subject: [PATCH 09/18] fix: respect primary radius with
 SCC_UM_CLOSEST_ASSIGNED

Unassigned points were assigned with the NNG, which is built with the seed radius,
so a primary radius that differs from the seed radius was ignored.
---
 src/nng_clustering.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nng_clustering.c b/src/nng_clustering.c
index 0dcabbf..4570609 100644
--- a/src/nng_clustering.c
+++ b/src/nng_clustering.c
@@ -212,6 +212,10 @@ static scc_ErrorCode iscc_make_clustering_from_nng(scc_Clustering* const cluster
 	assert((primary_radius == SCC_RM_NO_RADIUS) || (primary_radius == SCC_RM_USE_SUPPLIED));
 	assert((secondary_radius == SCC_RM_NO_RADIUS) || (secondary_radius == SCC_RM_USE_SUPPLIED));
 
+	// The NNG can replace a nearest neighbor search only if it was made with the radius of the primary points
+	const bool same_radius = (options->primary_radius == SCC_RM_USE_SEED_RADIUS) ||
+	                         ((options->primary_radius == SCC_RM_NO_RADIUS) && (options->seed_radius == SCC_RM_NO_RADIUS));
+
 	// Initialize cluster labels
 	if (clustering->cluster_label == NULL) {
 		clustering->external_labels = false;
@@ -226,7 +230,7 @@ static scc_ErrorCode iscc_make_clustering_from_nng(scc_Clustering* const cluster
 	                                       data_set,
 	                                       &seed_result,
 	                                       nng,
-	                                       (options->num_types < 2),
+	                                       (options->num_types < 2) && same_radius,
 	                                       options->primary_unassigned_method,
 	                                       (primary_radius == SCC_RM_USE_SUPPLIED),
 	                                       primary_supplied_radius,
-- 
2.43.0


From 237fe9068aa37fda200098789e808de862da9481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:00 +0000
Subject: [PATCH 10/18] fix: leave clustering empty when assignment of points
 fails

---
 src/nng_clustering.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nng_clustering.c b/src/nng_clustering.c
index 4570609..fbce64d 100644
--- a/src/nng_clustering.c
+++ b/src/nng_clustering.c
@@ -240,6 +240,9 @@ static scc_ErrorCode iscc_make_clustering_from_nng(scc_Clustering* const cluster
 	                                       (secondary_radius == SCC_RM_USE_SUPPLIED),
 	                                       secondary_supplied_radius);
 
+	// Don't leave a partial clustering behind if the assignment failed
+	if (ec != SCC_ER_OK) clustering->num_clusters = 0;
+
 	free(seed_result.seeds);
 	return ec;
 }
-- 
2.43.0


From 2fc4574b07c6b1b88b40793b9c5ba6ec5cf9c7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:00 +0000
Subject: [PATCH 11/18] fix: leave clustering empty when hierarchical
 clustering fails halfway

---
 src/hierarchical_clustering.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hierarchical_clustering.c b/src/hierarchical_clustering.c
index ac1f0c3..4a64095 100644
--- a/src/hierarchical_clustering.c
+++ b/src/hierarchical_clustering.c
@@ -247,6 +247,8 @@ scc_ErrorCode scc_hierarchical_clustering(void* const data_set,
 		                                         &work_area,
 		                                         size_constraint,
 		                                         batch_assign);
+		// Labels might be partially overwritten (and refer to more clusters than `num_clusters`)
+		if (ec != SCC_ER_OK) out_clustering->num_clusters = 0;
 	}
 
 	free(work_area.pointindex_array1);
-- 
2.43.0


From 7f21cc38954b132da6a3cb17b7a9a15870250db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:46 +0000
Subject: [PATCH 12/18] fix: overflow in size of neighbor buffer in batch
 clustering

---
 src/nng_batch_clustering.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nng_batch_clustering.c b/src/nng_batch_clustering.c
index 31fd76a..901f658 100644
--- a/src/nng_batch_clustering.c
+++ b/src/nng_batch_clustering.c
@@ -115,7 +115,7 @@ scc_ErrorCode scc_nng_clustering_batches(scc_Clustering* const clustering,
 	}
 
 	scc_PointIndex* const batch_indices = malloc(sizeof(scc_PointIndex[batch_size]));
-	scc_PointIndex* const out_indices = malloc(sizeof(scc_PointIndex[size_constraint * batch_size]));
+	scc_PointIndex* const out_indices = malloc(sizeof(scc_PointIndex[((size_t) size_constraint) * batch_size]));
 	bool* const assigned = calloc(clustering->num_data_points, sizeof(bool));
 	if ((batch_indices == NULL) || (out_indices == NULL) || (assigned == NULL)) {
 		free(batch_indices);
-- 
2.43.0


From 6320fbec8abd15ffa95233ab57085d49a3f0f2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:46 +0000
Subject: [PATCH 13/18] fix: overflow when checking length of data matrix

---
 src/data_set.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_set.c b/src/data_set.c
index 95d6191..6f87d0e 100644
--- a/src/data_set.c
+++ b/src/data_set.c
@@ -63,7 +63,7 @@ scc_ErrorCode scc_init_data_set(const uint64_t num_data_points,
 	if (num_dimensions > UINT16_MAX) {
 		return iscc_make_error_msg(SCC_ER_TOO_LARGE_PROBLEM, "Too many data dimensions.");
 	}
-	if (len_data_matrix < num_data_points * num_dimensions) {
+	if (len_data_matrix / num_dimensions < num_data_points) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid data matrix.");
 	}
 	if (data_matrix == NULL) {
-- 
2.43.0


From d796bb2bdff6672ca846f99169d6b8d8bf1f1d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:46 +0000
Subject: [PATCH 14/18] fix: reject missing options

---
 src/utilities.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utilities.c b/src/utilities.c
index b9d2028..daa81e1 100644
--- a/src/utilities.c
+++ b/src/utilities.c
@@ -330,6 +330,9 @@ scc_ErrorCode scc_get_clustering_stats(void* const data_set,
 scc_ErrorCode iscc_check_cluster_options(const scc_ClusterOptions* const options,
                                          const size_t num_data_points)
 {
+	if (options == NULL) {
+		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid options.");
+	}
 	if (options->options_version != ISCC_OPTIONS_STRUCT_VERSION) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Incompatible scc_ClusterOptions version.");
 	}
-- 
2.43.0


From c6138604db59b677a991524a3c17730621a86525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:46 +0000
Subject: [PATCH 15/18] fix: reject type labels without corresponding type
 constraint

---
 src/utilities.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utilities.c b/src/utilities.c
index daa81e1..a7eb4b7 100644
--- a/src/utilities.c
+++ b/src/utilities.c
@@ -369,6 +369,12 @@ scc_ErrorCode iscc_check_cluster_options(const scc_ClusterOptions* const options
 		if (options->type_labels == NULL) {
 			return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid type labels.");
 		}
+		for (size_t i = 0; i < num_data_points; ++i) {
+			// Negative labels (if `scc_TypeLabel` is signed) are cast to large values
+			if (((uintmax_t) options->type_labels[i]) >= options->num_types) {
+				return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid type labels.");
+			}
+		}
 	}
 
 	if ((options->seed_method != SCC_SM_LEXICAL) &&
-- 
2.43.0


From 420dc697e0feab290f243ff701cb4828bf455d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:46 +0000
Subject: [PATCH 16/18] fix: reject primary data points that do not exist

---
 src/utilities.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utilities.c b/src/utilities.c
index a7eb4b7..00761a6 100644
--- a/src/utilities.c
+++ b/src/utilities.c
@@ -394,6 +394,11 @@ scc_ErrorCode iscc_check_cluster_options(const scc_ClusterOptions* const options
 				return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "`primary_data_points` is not sorted.");
 			}
 		}
+		// Negative indices (if `scc_PointIndex` is signed) are cast to large values
+		if ((((uintmax_t) options->primary_data_points[0]) >= num_data_points) ||
+				(((uintmax_t) options->primary_data_points[options->len_primary_data_points - 1]) >= num_data_points)) {
+			return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid primary data points.");
+		}
 	}
 	if ((options->primary_data_points == NULL) && (options->len_primary_data_points > 0)) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid primary data points.");
-- 
2.43.0


From 2c74b86b99bbb12b06b87f1ef49466832ff38e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:46 +0000
Subject: [PATCH 17/18] fix: reject radius that is not a number

---
 src/utilities.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utilities.c b/src/utilities.c
index 00761a6..1826dc3 100644
--- a/src/utilities.c
+++ b/src/utilities.c
@@ -422,7 +422,7 @@ scc_ErrorCode iscc_check_cluster_options(const scc_ClusterOptions* const options
 			(options->seed_radius != SCC_RM_USE_SUPPLIED)) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid radius method.");
 	}
-	if ((options->seed_radius == SCC_RM_USE_SUPPLIED) && (options->seed_supplied_radius <= 0.0)) {
+	if ((options->seed_radius == SCC_RM_USE_SUPPLIED) && !(options->seed_supplied_radius > 0.0)) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid radius.");
 	}
 	if ((options->primary_radius != SCC_RM_NO_RADIUS) &&
@@ -431,7 +431,7 @@ scc_ErrorCode iscc_check_cluster_options(const scc_ClusterOptions* const options
 			(options->primary_radius != SCC_RM_USE_ESTIMATED)) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid radius method.");
 	}
-	if ((options->primary_radius == SCC_RM_USE_SUPPLIED) && (options->primary_supplied_radius <= 0.0)) {
+	if ((options->primary_radius == SCC_RM_USE_SUPPLIED) && !(options->primary_supplied_radius > 0.0)) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid radius.");
 	}
 	if ((options->secondary_radius != SCC_RM_NO_RADIUS) &&
@@ -440,7 +440,7 @@ scc_ErrorCode iscc_check_cluster_options(const scc_ClusterOptions* const options
 			(options->secondary_radius != SCC_RM_USE_ESTIMATED)) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid radius method.");
 	}
-	if ((options->secondary_radius == SCC_RM_USE_SUPPLIED) && (options->secondary_supplied_radius <= 0.0)) {
+	if ((options->secondary_radius == SCC_RM_USE_SUPPLIED) && !(options->secondary_supplied_radius > 0.0)) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid radius.");
 	}
 
-- 
2.43.0


From f24bd82300ca9c46d5f763f6757bea716e9bd442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:46 +0000
Subject: [PATCH 18/18] fix: leave distance functions unchanged when
 registration is rejected

---
 src/scclust_spi.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/scclust_spi.c b/src/scclust_spi.c
index 5c84411..3ae4280 100644
--- a/src/scclust_spi.c
+++ b/src/scclust_spi.c
@@ -78,6 +78,16 @@ bool scc_set_dist_functions(scc_check_data_set check_data_set,
                             scc_nearest_neighbor_search nearest_neighbor_search,
                             scc_close_nn_search_object close_nn_search_object)
 {
+	// Functions on the same object must be set together. Check before anything is changed.
+	if (((init_max_dist_object != NULL) != (get_max_dist != NULL)) ||
+			((init_max_dist_object != NULL) != (close_max_dist_object != NULL))) {
+		return false;
+	}
+	if (((init_nn_search_object != NULL) != (nearest_neighbor_search != NULL)) ||
+			((init_nn_search_object != NULL) != (close_nn_search_object != NULL))) {
+		return false;
+	}
+
 	if (check_data_set != NULL) {
 		iscc_dist_functions.check_data_set = check_data_set;
 	}
@@ -100,10 +110,6 @@ bool scc_set_dist_functions(scc_check_data_set check_data_set,
 		iscc_dist_functions.init_max_dist_object = init_max_dist_object;
 		iscc_dist_functions.get_max_dist = get_max_dist;
 		iscc_dist_functions.close_max_dist_object = close_max_dist_object;
-	} else if (init_max_dist_object != NULL ||
-			get_max_dist != NULL ||
-			close_max_dist_object != NULL) {
-		return false;
 	}
 
 	if (init_nn_search_object != NULL &&
@@ -112,10 +118,6 @@ bool scc_set_dist_functions(scc_check_data_set check_data_set,
 		iscc_dist_functions.init_nn_search_object = init_nn_search_object;
 		iscc_dist_functions.nearest_neighbor_search = nearest_neighbor_search;
 		iscc_dist_functions.close_nn_search_object = close_nn_search_object;
-	} else if (init_nn_search_object != NULL ||
-			nearest_neighbor_search != NULL ||
-			close_nn_search_object != NULL) {
-		return false;
 	}
 
 	return true;
-- 
2.43.0

