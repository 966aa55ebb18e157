/* Size arithmetic: problems whose buffers have more elements than 32 bits can count. The distance back end checks that every
 * buffer it is asked to fill really has the promised size, and then reports failure, so that only the arithmetic, the
 * allocations and the loops over the points are executed.
 * FN  0 scc_sc_clustering, batches   1 scc_sc_clustering, lexical   2 scc_get_clustering_stats   3 scc_check_clustering
 *     4 scc_hierarchical_clustering
 * NP  number of points (symbolic: NP .. NP + SPAN - 1)     KK  size constraint (symbolic likewise)
 */
#include "include/scclust.h"
#include "include/scclust_spi.h"
#include "vp.h"
#ifndef SPAN
#define SPAN 2
#endif
static int la_ds;
static size_t np;
static bool searched;
static int obj;
static bool l_check(void* d) { return d == (void*) &la_ds; }
static size_t l_num(void* d) { return np; }
static bool l_ninit(void* d, size_t len, const scc_PointIndex* i, iscc_NNSearchObject** o) { *o = (iscc_NNSearchObject*) (void*) &obj; return true; }
static bool l_nn(iscc_NNSearchObject* o, size_t n, const scc_PointIndex* i, uint32_t k, bool r, double rr, size_t* z, scc_PointIndex* p, scc_PointIndex* q)
{
	searched = true;
	vp_assert(n >= 1 && n <= np, "number of queries is between one and the number of points");
	vp_valid_write(q, (uint64_t) n * k * sizeof(scc_PointIndex));
	if (p != NULL) vp_valid_write(p, (uint64_t) n * sizeof(scc_PointIndex));
	return false;
}
static bool l_nclose(iscc_NNSearchObject** o) { *o = NULL; return true; }
static bool l_minit(void* d, size_t len, const scc_PointIndex* i, iscc_MaxDistObject** o) { *o = (iscc_MaxDistObject*) (void*) &obj; return true; }
static bool l_mget(iscc_MaxDistObject* o, size_t n, const scc_PointIndex* i, scc_PointIndex* p, double* q)
{
	vp_valid_write(p, (uint64_t) n * sizeof(scc_PointIndex));
	vp_valid_write(q, (uint64_t) n * sizeof(double));
	for (size_t j = 0; j < n; j++) { p[j] = i == NULL || i[j] != 0 ? 0 : 1; q[j] = 1.0; }
	return true;
}
static bool l_mclose(iscc_MaxDistObject** o) { *o = NULL; return true; }
static bool l_matrix(void* d, size_t n, const scc_PointIndex* i, double* o)
{
	searched = true;
	vp_valid_write(o, (uint64_t) n * (n - 1) / 2 * sizeof(double));
	return false;
}
static bool l_rows(void* d, size_t n, const scc_PointIndex* i, size_t m, const scc_PointIndex* j, double* o)
{
	searched = true;
	vp_valid_write(o, (uint64_t) n * m * sizeof(double));
	return false;
}
#if FN == 2
static scc_Clabel lab[NP + SPAN];
#elif FN == 3
static scc_Clabel lab[4];
static scc_TypeLabel tl[4];
static uint32_t tcs[65535];
#endif

int main(void)
{
	vp_assert(scc_set_dist_functions(l_check, l_num, l_matrix, l_rows, l_minit, l_mget, l_mclose, l_ninit, l_nn, l_nclose), "SPI registration accepted");
	np = NP + vp_choice(SPAN);
	scc_Clustering* cl = NULL;
	scc_ErrorCode ec;
#if FN == 0 || FN == 1 || FN == 4
	vp_assert(scc_init_empty_clustering(np, NULL, &cl) == SCC_ER_OK, "clustering made");
	uint32_t k = KK + vp_choice(SPAN);
	if (FN == 4) {
		ec = scc_hierarchical_clustering(&la_ds, k, false, cl);
		vp_assert(k > np ? ec == SCC_ER_NO_SOLUTION : 2 * (uint64_t) k > np ? ec == SCC_ER_OK && !searched : ec == SCC_ER_DIST_SEARCH_ERROR || ec == SCC_ER_NO_MEMORY, "large problem is solved, or refused with a reason");
	} else {
		scc_ClusterOptions o = scc_get_default_options();
		o.size_constraint = k;
		if (FN == 0) o.seed_method = SCC_SM_BATCHES;
		ec = scc_sc_clustering(&la_ds, &o, cl);
		vp_assert(ec == (k > np ? SCC_ER_NO_SOLUTION : SCC_ER_DIST_SEARCH_ERROR) || ec == SCC_ER_TOO_LARGE_PROBLEM || ec == SCC_ER_NO_MEMORY, "large problem is solved, or refused with a reason");
		vp_assert(!searched || ec == SCC_ER_DIST_SEARCH_ERROR, "failed search is reported");
	}
	uint64_t nc = 9;
	vp_assert(scc_get_clustering_info(cl, NULL, &nc) == SCC_ER_OK && (nc == 0) == (ec != SCC_ER_OK), "refused problem leaves the clustering empty");
#elif FN == 2
	vp_assert(scc_init_existing_clustering(np, 1, lab, false, &cl) == SCC_ER_OK, "clustering made");
	scc_ClusteringStats st;
	ec = scc_get_clustering_stats(&la_ds, cl, &st);
	vp_assert(ec == SCC_ER_DIST_SEARCH_ERROR || ec == SCC_ER_NO_MEMORY, "failed search is reported");
	vp_assert(st.num_data_points == 0, "a failed call returns the null statistics");
#else
	/* the counts by cluster and type take nearly 4 GB, more than 31 bits can address */
	uint64_t nc = 8190 + vp_choice(2);
	np = 4;
	bool ok = true;
	for (unsigned i = 0; i < 4; i++) { lab[i] = (scc_Clabel) (vp_choice(2) ? nc - 1 : vp_choice(2)); tl[i] = (scc_TypeLabel) (vp_choice(2) ? 65534 : 0); }
	scc_ClusterOptions o = scc_get_default_options();
	o.size_constraint = 2;
	o.num_types = 65535;
	tcs[0] = vp_choice(2) + 1;      /* no later cluster needs to be looked at: it fails in the first or second one */
	o.type_constraints = tcs; o.len_type_labels = 4; o.type_labels = tl;
	vp_assert(scc_init_existing_clustering(4, nc, lab, false, &cl) == SCC_ER_OK, "clustering made");
	ec = scc_check_clustering(cl, &o, &ok);
	vp_assert(ec == SCC_ER_NO_MEMORY || ec == SCC_ER_OK, "clustering checked");
	vp_assert(!ok, "clusters without the required types are not fine");
#endif
	scc_free_clustering(&cl);
	vp_assert(vp_live == 0, "all memory has been released");
	return 0;
}
