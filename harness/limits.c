/* Problems at the limits of the configured types (built with a configuration in which the limits are small).
 * N K   points, size constraint       FN  0 scc_sc_clustering (SM seed method, undefined: any)   1 scc_hierarchical_clustering
 *                                         2 constructors and clusterings at the limits
 * Points lie on distinct marks of a Golomb ruler, so that all distances differ. */
#define DSTUB_OFF
#include "include/scclust.h"
#include "src/scclust_types.h"
#include "vp.h"
static unsigned st_ord[N][N], st_cut[4][N];
#define GEO 1
#include "geo.h"
int main(void)
{
	scc_Clustering* cl = NULL;
#if FN == 2
	uint64_t n = vp_choice(20), c = vp_choice(6);
	static double x[20];
	static scc_Clabel l[20];
	for (unsigned i = 0; i < 20; i++) l[i] = 0;
	scc_DataSet* ds = NULL;
	scc_ErrorCode e1 = scc_init_data_set(n, 1, 20, x, &ds), e2 = scc_init_empty_clustering(n, NULL, &cl);
	vp_assert(e1 == (n == 0 ? SCC_ER_INVALID_INPUT : n > ISCC_POINTINDEX_MAX ? SCC_ER_TOO_LARGE_PROBLEM : SCC_ER_OK), "a data set has at most the number of points its types allow");
	vp_assert((ds != NULL) == (e1 == SCC_ER_OK), "data set made only if it is allowed");
	vp_assert(n < 2 ? e2 != SCC_ER_OK || n == 1 : e2 == e1, "a clustering has at most the number of points its types allow");
	vp_assert((cl != NULL) == (e2 == SCC_ER_OK), "clustering made only if it is allowed");
	scc_free_clustering(&cl);
	scc_free_data_set(&ds);
	if (n >= 2) {
		scc_ErrorCode e3 = scc_init_existing_clustering(n, c, l, vp_choice(2), &cl);
		bool large = n > ISCC_POINTINDEX_MAX || c > (uint64_t) SCC_CLABEL_MAX;
		vp_assert(c == 0 ? e3 == SCC_ER_INVALID_INPUT || (large && e3 == SCC_ER_TOO_LARGE_PROBLEM) : e3 == (large ? SCC_ER_TOO_LARGE_PROBLEM : SCC_ER_OK), "a clustering has at most the number of clusters its types allow");
		vp_assert((cl != NULL) == (e3 == SCC_ER_OK), "clustering made only if it is allowed");
		vp_cover(e3 == SCC_ER_OK && n == ISCC_POINTINDEX_MAX && c == (uint64_t) SCC_CLABEL_MAX, "clustering at the limit");
		vp_cover(large, "clustering beyond the limit");
		scc_free_clustering(&cl);
	}
#else
	geo_data();
	geo_order();
	scc_DataSet* ds = NULL;
	vp_assert(scc_init_data_set(N, 1, N, gx, &ds) == SCC_ER_OK, "data set made");
	vp_assert(scc_init_empty_clustering(N, NULL, &cl) == SCC_ER_OK, "clustering made");
	/* greedy choice in the order of the points */
	bool mark[N];
	unsigned seeds = 0;
	for (unsigned i = 0; i < N; i++) mark[i] = false;
	for (unsigned i = 0; i < N; i++) {
		bool ok = !mark[i];
		for (unsigned k = 0; k < K; k++) if (mark[st_ord[i][k]]) ok = false;
		if (!ok) continue;
		seeds++;
		for (unsigned k = 0; k < K; k++) mark[st_ord[i][k]] = true;
	}
	scc_ErrorCode ec;
	unsigned most = N / K, least = 1;
#if FN == 0
	scc_ClusterOptions o = scc_get_default_options();
	o.size_constraint = K;
	o.seed_method =
#ifdef SM
		SM;
#else
		vp_choice(6);
#endif
	bool arcs = false;
	if (o.seed_method == SCC_SM_BATCHES) { o.batch_size = 1; o.primary_unassigned_method = vp_choice(2) ? SCC_UM_IGNORE : SCC_UM_ANY_NEIGHBOR; }
	else {
		o.primary_unassigned_method = vp_choice(4);
		arcs = N * K > ISCC_ARCINDEX_MAX || (o.seed_method >= SCC_SM_EXCLUSION_ORDER && N * (N - 1) > ISCC_ARCINDEX_MAX);
		if (N * K > ISCC_ARCINDEX_MAX) least = most = N;         /* the neighbor graph itself is too large */
	}
	if (o.seed_method == SCC_SM_LEXICAL || o.seed_method == SCC_SM_BATCHES) if (!arcs) least = most = seeds;
	ec = scc_sc_clustering(ds, &o, cl);
	if (N * K > ISCC_ARCINDEX_MAX && o.seed_method != SCC_SM_BATCHES) vp_assert(ec == SCC_ER_TOO_LARGE_PROBLEM, "a problem whose neighbor graph has too many arcs is refused");
	else if (arcs) vp_assert(ec == SCC_ER_OK || ec == SCC_ER_TOO_LARGE_PROBLEM, "a large problem is solved or refused");
	else
#else
	least = (N + 2 * K - 2) / (2 * K - 1);
	ec = scc_hierarchical_clustering(ds, K, vp_choice(2), cl);
#endif
	{
		vp_assert(ec == SCC_ER_OK || (ec == SCC_ER_TOO_LARGE_PROBLEM && most > (uint64_t) SCC_CLABEL_MAX), "a problem is refused only if its solution has too many clusters");
		vp_assert(ec != SCC_ER_OK || least <= (uint64_t) SCC_CLABEL_MAX, "a solution with too many clusters is not returned");
	}
	uint64_t nc = 0;
	scc_Clabel l[N];
	vp_assert(scc_is_initialized_clustering(cl), "clustering object stays valid");
	vp_assert(scc_get_clustering_info(cl, NULL, &nc) == SCC_ER_OK && (nc == 0) == (ec != SCC_ER_OK), "a refused problem leaves the clustering empty");
	if (ec == SCC_ER_OK) {
		unsigned cnt[N];
		vp_assert(nc <= (uint64_t) SCC_CLABEL_MAX, "no more clusters than there are labels");
		vp_assert(scc_get_cluster_labels(cl, N, l) == SCC_ER_OK, "labels can be read");
		for (unsigned i = 0; i < N; i++) cnt[i] = 0;
		for (unsigned i = 0; i < N; i++) {
			vp_assert(l[i] == SCC_CLABEL_NA || l[i] < nc, "each label is NA or a cluster");
			if (l[i] != SCC_CLABEL_NA) cnt[l[i]]++;
		}
		for (unsigned c = 0; c < N; c++) if (c < nc) vp_assert(cnt[c] >= K, "no cluster smaller than the size constraint");
	}
	vp_cover(ec == SCC_ER_OK, "solved");
	vp_cover(ec == SCC_ER_TOO_LARGE_PROBLEM, "refused");
	scc_free_clustering(&cl);
	scc_free_data_set(&ds);
#endif
	vp_assert(vp_live == 0, "all memory has been released");
	vp_cover(true, "reached the end");
	return 0;
}
