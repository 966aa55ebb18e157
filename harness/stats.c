/* scc_get_clustering_stats equals the definition of the statistics.
 * N C    points, clusters; labels arbitrary (empty clusters, unassigned points)
 * V      dissimilarities 0..V-1 through the SPI (arbitrary symmetric), or GEO: 1-D grid data through the library's own distances
 * CHK 16 allocation fault, 32 back-end fault
 */
#include "include/scclust.h"
#include "vp.h"
#ifdef GEO
#include "include/scclust_spi.h"
static unsigned st_ord[N][N], st_cut[4][N];
#include "geo.h"
static bool ds_failed;
#else
#include "dstub.h"
#endif
#include <float.h>
#ifndef CHK
#define CHK 0
#endif
#ifndef V
#define V 3
#endif
static double dist(unsigned a, unsigned b)
{
#ifdef GEO
	double d = gx[a] - gx[b];
	return d < 0 ? -d : d;
#else
	return sd[a][b];
#endif
}
static bool near(double a, double b)
{
	double d = a - b, m = a < 0 ? -a : a;
	if (d < 0) d = -d;
	return d <= 1e-12 * (m + 1.0);
}
int main(void)
{
#ifdef GEO
	geo_data();
	scc_DataSet* data = NULL;
	vp_assert(scc_init_data_set(N, DIM, N * DIM, gx, &data) == SCC_ER_OK, "data set made");
#else
	ds_any(V, 1);
	ds_register();
	int* data = &ds_ds;
#endif
	scc_Clabel lab[N], lab0[N];
	unsigned cnt[C] = { 0 };
	for (unsigned i = 0; i < N; i++) {
		unsigned c = vp_choice(C + 1);
		lab[i] = c == C ? SCC_CLABEL_NA : (scc_Clabel) c;
		lab0[i] = lab[i];
		if (c < C) cnt[c]++;
	}
	scc_Clustering* cl = NULL;
	vp_assert(scc_init_existing_clustering(N, C, lab, false, &cl) == SCC_ER_OK, "clustering made");
#if CHK & 16
	vp_allocs = 0;
	vp_fail_at = 1 + vp_choice(5);
#endif
#if CHK & 32
	ds_fail_at = 1 + vp_choice(C + 1);
#endif
	scc_ClusteringStats s = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14 };
	scc_ErrorCode ec = scc_get_clustering_stats(data, cl, &s);
	uint64_t pop = 0, as = 0, min = UINT64_MAX, max = 0;
	double sum = 0, mind = DBL_MAX, maxd = 0, amin = 0, amax = 0, aw = 0, au = 0;
	for (unsigned c = 0; c < C; c++) {
		if (cnt[c] == 0) continue;
		pop++; as += cnt[c];
		if (cnt[c] < min) min = cnt[c];
		if (cnt[c] > max) max = cnt[c];
		double cs = 0, cmin = DBL_MAX, cmax = 0;
		unsigned pairs = 0;
		for (unsigned a = 0; a < N; a++) for (unsigned b = 0; b < a; b++) if (lab0[a] == c && lab0[b] == c) {
			double d = dist(a, b);
			cs += d; pairs++;
			if (d < cmin) cmin = d;
			if (d > cmax) cmax = d;
		}
		if (pairs == 0) cmin = 0;
		sum += cs;
		if (cmin < mind) mind = cmin;
		if (cmax > maxd) maxd = cmax;
		amin += cmin; amax += cmax;
		if (pairs) { aw += cnt[c] * (cs / pairs); au += cs / pairs; }
	}
	if (vp_failed || ds_failed) {
		vp_assert(ec == (ds_failed ? SCC_ER_DIST_SEARCH_ERROR : SCC_ER_NO_MEMORY), "a failure is reported with the right code");
		vp_assert(s.num_data_points == 0 && s.num_assigned == 0 && s.num_clusters == 0 && s.num_populated_clusters == 0 && s.sum_dists == 0.0, "no partial statistics after a failure");
		vp_cover(true, "failure reached");
	} else {
		vp_assert(ec == SCC_ER_OK, "statistics are calculated");
		vp_assert(s.num_data_points == N && s.num_clusters == C, "number of points and clusters");
		vp_assert(s.num_assigned == as && s.num_populated_clusters == pop, "number of assigned points and populated clusters");
		vp_assert(s.max_cluster_size == max, "largest cluster");
		if (pop > 0) {
			vp_assert(s.min_cluster_size == min, "smallest populated cluster");
			vp_assert(near(s.avg_cluster_size, (double) as / (double) pop), "average cluster size");
			vp_assert(near(s.sum_dists, sum), "sum of within-cluster distances");
			vp_assert(s.min_dist == mind && s.max_dist == maxd, "smallest and largest within-cluster distance");
			vp_assert(near(s.avg_min_dist, amin / (double) pop) && near(s.avg_max_dist, amax / (double) pop), "average of the clusters' smallest and largest distances");
			vp_assert(near(s.avg_dist_weighted, aw / (double) as), "average distance weighted by cluster size");
			vp_assert(near(s.avg_dist_unweighted, au / (double) pop), "average of the clusters' average distances");
			vp_cover(pop == C && as < N, "unassigned points");
			vp_cover(pop < C, "an empty cluster");
			vp_cover(min == 1 && max > 1, "a singleton");
		} else {
			vp_assert(s.sum_dists == 0.0 && s.max_dist == 0.0 && s.avg_cluster_size == 0.0, "no distances without clusters");
		}
	}
#if CHK & 64
	{	/* again, after the statistics of other clusterings */
		scc_Clabel l2[N];
		scc_Clustering* c2 = NULL;
		scc_ClusteringStats s2 = { 0 };
		for (unsigned k = 1; k <= N; k++) {
			for (unsigned i = 0; i < N; i++) l2[i] = (scc_Clabel) (i % k);
			vp_assert(scc_init_existing_clustering(N, k, l2, false, &c2) == SCC_ER_OK && scc_get_clustering_stats(data, c2, &s2) == SCC_ER_OK, "statistics of another clustering");
			scc_free_clustering(&c2);
		}
		vp_assert(scc_copy_clustering(cl, &c2) == SCC_ER_OK && scc_get_clustering_stats(data, c2, &s2) == SCC_ER_OK, "statistics again");
		vp_assert(s.num_data_points == s2.num_data_points && s.num_assigned == s2.num_assigned && s.num_clusters == s2.num_clusters && s.num_populated_clusters == s2.num_populated_clusters
		          && s.min_cluster_size == s2.min_cluster_size && s.max_cluster_size == s2.max_cluster_size && s.avg_cluster_size == s2.avg_cluster_size && s.sum_dists == s2.sum_dists && s.min_dist == s2.min_dist
		          && s.max_dist == s2.max_dist && s.avg_min_dist == s2.avg_min_dist && s.avg_max_dist == s2.avg_max_dist && s.avg_dist_weighted == s2.avg_dist_weighted && s.avg_dist_unweighted == s2.avg_dist_unweighted, "same clustering, same statistics");
		scc_free_clustering(&c2);
	}
#endif
	for (unsigned i = 0; i < N; i++) vp_assert(lab[i] == lab0[i], "the labels are not changed");
	scc_free_clustering(&cl);
#ifdef GEO
	scc_free_data_set(&data);
#endif
	vp_assert(vp_live == 0, "all memory has been released");
	return 0;
}
