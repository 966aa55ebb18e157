/* scc_hierarchical_clustering on an arbitrary matrix of dissimilarities (or, with GEO, the library's own distances).
 * N K      points, size constraint
 * OLD      0: from an empty clustering; C>0: from an arbitrary existing clustering with C clusters (unassigned points allowed)
 * V ZERO   dissimilarities are 1..V, or 0..V-1 with ZERO
 * CHK      1 sizes and refinement, 2 the split is the greedy growth of two mutually farthest centers (all distances distinct)
 *          16 allocation fault, 32 back-end fault, 64 same result again
 */
#ifdef GEO
#define DSTUB_OFF
#endif
#include "include/scclust.h"
#include "include/scclust_spi.h"
#include "vp.h"
#ifdef GEO
static unsigned st_ord[N][N], st_cut[4][N];
#include "geo.h"
static bool ds_failed, ds_close_failed;
static unsigned ds_open;
#else
#include "dstub.h"
#endif
#ifndef OLD
#define OLD 0
#endif
#ifndef V
#define V 3
#endif
#ifndef ZERO
#define ZERO 0
#endif
#ifndef EXT
#define EXT 1
#endif
#ifndef MAXA
#define MAXA 12
#endif

#if CHK & 2
static bool in[N];        /* the cluster that was split */
static double dist(unsigned a, unsigned b) { return
#ifdef GEO
	gd[a][b];
#else
	sd[a][b];
#endif
}
/* nearest n free points of the cluster to c go to g[]; returns the distance of the last */
static unsigned closest_free(unsigned c, const unsigned char g[N])
{
	unsigned best = N;
	for (unsigned p = 0; p < N; p++) if (in[p] && g[p] == 0 && (best == N || dist(c, p) < dist(c, best))) best = p;
	return best;
}
static bool grows_from(unsigned c1, unsigned c2, const scc_Clabel lab[N], bool batch)
{
	unsigned char g[N] = { 0 }, t[N];
	unsigned left = 0;
	double d1 = 0.0, d2 = 0.0;
	for (unsigned p = 0; p < N; p++) if (in[p]) left++;
	g[c1] = 1; g[c2] = 2;
	for (unsigned p = 0; p < N; p++) t[p] = g[p];
	for (unsigned i = 1; i < K; i++) { unsigned p = closest_free(c1, t); if (p == N) return false; d1 = dist(c1, p); t[p] = 1; }
	for (unsigned p = 0; p < N; p++) t[p] = g[p];
	for (unsigned i = 1; i < K; i++) { unsigned p = closest_free(c2, t); if (p == N) return false; d2 = dist(c2, p); t[p] = 2; }
	unsigned first = d1 >= d2 ? 1 : 2;
	for (unsigned o = 0; o < 2; o++) {
		unsigned w = o == 0 ? first : 3 - first, c = w == 1 ? c1 : c2;
		for (unsigned i = 1; i < K; i++) { unsigned p = closest_free(c, g); if (p == N) return false; g[p] = w; }
	}
	left -= 2 * K;
	for (unsigned r = 0; r < N; r++) {
		if (left == 0) break;
		unsigned m = batch && left >= K ? K : batch ? left : 1;
		for (unsigned w = 1; w <= 2; w++) {
			for (unsigned p = 0; p < N; p++) t[p] = g[p];
			unsigned c = w == 1 ? c1 : c2;
			double d = 0.0;
			for (unsigned i = 0; i < K; i++) { if (i >= m) break; unsigned p = closest_free(c, t); if (p == N) return false; d = dist(c, p); t[p] = w; }
			if (w == 1) d1 = d; else d2 = d;
		}
		unsigned w = d1 <= d2 ? 1 : 2, c = w == 1 ? c1 : c2;
		for (unsigned i = 0; i < K; i++) { if (i >= m) break; unsigned p = closest_free(c, g); if (p == N) return false; g[p] = w; }
		left -= m;
	}
	bool same = true;
	for (unsigned p = 0; p < N; p++) if (in[p] && lab[p] != (g[p] == 1 ? lab[c1] : lab[c2])) same = false;
	return same && lab[c1] != lab[c2];
}
static bool greedy_split(const scc_Clabel lab[N], bool batch)
{
	bool some = false;
	for (unsigned a = 0; a < N; a++) for (unsigned b = 0; b < N; b++) {
		if (a == b || !in[a] || !in[b]) continue;
		bool far = true;
		for (unsigned p = 0; p < N; p++) if (in[p] && (dist(a, p) > dist(a, b) || dist(b, p) > dist(a, b))) far = false;
		if (far && grows_from(a, b, lab, batch)) some = true;
	}
	return some;
}
#endif

int main(void)
{
#ifdef GEO
	geo_data();
	scc_DataSet* data = NULL;
	vp_assert(scc_init_data_set(N, DIM, N * DIM, gx, &data) == SCC_ER_OK, "data set made");
#else
	ds_any(V, ZERO);
	ds_register();
	int* data = &ds_ds;
#endif
	bool batch = vp_choice(2);
	scc_Clabel old[N], ext[N];
	unsigned osize[OLD + 1] = { 0 };
	scc_Clustering* cl = NULL;
	for (unsigned i = 0; i < N; i++) {
#if OLD
		unsigned c = vp_choice(OLD + 1);
		old[i] = c == OLD ? SCC_CLABEL_NA : (scc_Clabel) c;
		osize[c]++;
#else
		old[i] = 0;
		osize[0]++;
#endif
		ext[i] = old[i];
	}
#if OLD
#define MAKE(CL) scc_init_existing_clustering(N, OLD, ext, !EXT, &(CL))
#else
#define MAKE(CL) scc_init_empty_clustering(N, EXT ? ext : NULL, &(CL))
#endif
	scc_Clabel lab[N];
#if CHK & 16
	/* the same without a fault */
	scc_Clabel ref[N];
	scc_Clustering* rc = NULL;
	for (unsigned i = 0; i < N; i++) ref[i] = old[i];
	vp_assert((OLD ? scc_init_existing_clustering(N, OLD, ref, false, &rc) : scc_init_empty_clustering(N, ref, &rc)) == SCC_ER_OK, "reference object made");
	vp_assert(scc_hierarchical_clustering(data, K, batch, rc) == SCC_ER_OK, "reference clustering made");
	uint64_t refnc = 0;
	vp_assert(scc_get_clustering_info(rc, NULL, &refnc) == SCC_ER_OK, "reference read");
	scc_free_clustering(&rc);
	vp_allocs = 0;
	vp_fail_at = 1 + vp_choice(MAXA);
#endif
#if CHK & 32
	if (vp_choice(3)) ds_fail_at = 1 + vp_choice(OLD ? 10 : 8); else ds_badclose = true;
#endif
	scc_ErrorCode ec = MAKE(cl);
#if CHK & 16
	if (ec != SCC_ER_OK) {
		vp_assert(vp_failed && ec == SCC_ER_NO_MEMORY && cl == NULL, "failed construction reports it and leaves nothing behind");
		return 0;
	}
#endif
	vp_assert(ec == SCC_ER_OK && cl != NULL, "clustering object made");
	ec = scc_hierarchical_clustering(data, K, batch, cl);
	bool faulty = vp_failed || ds_failed || ds_close_failed;
	vp_assert(ds_open == 0, "every search object that was opened has been closed");
	vp_assert(faulty || ec == SCC_ER_OK, "every clustering can be refined");
	vp_assert(!ds_failed || ec == SCC_ER_DIST_SEARCH_ERROR, "a back-end failure is reported as SCC_ER_DIST_SEARCH_ERROR");
	vp_assert(!ds_close_failed || ec == SCC_ER_DIST_SEARCH_ERROR || ec == SCC_ER_OK, "status after failed close");
#if CHK & 16
	vp_assert(ec == SCC_ER_OK || (vp_failed && (ec == SCC_ER_NO_MEMORY || ec == SCC_ER_DIST_SEARCH_ERROR)), "a failed allocation is reported or recovered from");
#ifndef GEO
	vp_assert(ec == SCC_ER_OK || ec == SCC_ER_NO_MEMORY, "a failed allocation of the library is reported as SCC_ER_NO_MEMORY");
#endif
	vp_cover(vp_failed, "allocation failure reached");
	vp_cover(!vp_failed, "no allocation failure");
#endif
#if CHK & 32
	vp_cover(ds_failed, "back-end failure reached");
#endif
	vp_assert(scc_is_initialized_clustering(cl), "clustering object stays valid");
	uint64_t nd = 0, nc = 0;
	vp_assert(scc_get_clustering_info(cl, &nd, &nc) == SCC_ER_OK && nd == N, "clustering keeps its number of points");
	if (ec == SCC_ER_OK) {
		vp_assert(nc >= 1 || OLD, "result is not empty");
		if (nc >= 1) {
			vp_assert(scc_get_cluster_labels(cl, N, lab) == SCC_ER_OK, "labels can be read");
			if (EXT) for (unsigned i = 0; i < N; i++) vp_assert(ext[i] == lab[i], "external labels are the clustering's labels");
		} else {
			for (unsigned i = 0; i < N; i++) { vp_assert(old[i] == SCC_CLABEL_NA, "only a clustering without assigned points stays without clusters"); lab[i] = SCC_CLABEL_NA; }
		}
		unsigned cnt[N] = { 0 };
		scc_Clabel from[N];
		for (unsigned i = 0; i < N; i++) {
			vp_assert((lab[i] == SCC_CLABEL_NA) == (old[i] == SCC_CLABEL_NA), "exactly the unassigned points stay unassigned");
			if (lab[i] == SCC_CLABEL_NA) continue;
			vp_assert(lab[i] < nc, "each label is NA or a cluster");
			cnt[lab[i]]++;
			if (cnt[lab[i]] == 1) from[lab[i]] = old[i];
			vp_assert(from[lab[i]] == old[i], "each new cluster lies within one old cluster");
		}
		for (unsigned c = 0; c < N; c++) if (c < nc) {
			vp_assert(cnt[c] > 0, "no empty clusters");
			unsigned o = osize[from[c]];
			vp_assert(cnt[c] >= K || cnt[c] == o, "no cluster is made smaller than the size constraint");
			vp_assert(cnt[c] < 2 * K, "every cluster that could be split is split");
			vp_assert(o >= 2 * K || cnt[c] == o, "clusters too small to be split are kept whole");
		}
		vp_cover(nc == 2, "two clusters");
		vp_cover(batch, "batch assignment");
#if OLD
		bool na = false;
		for (unsigned i = 0; i < N; i++) if (old[i] == SCC_CLABEL_NA) na = true;
		vp_cover(na && osize[0] >= 2 * K, "refined with unassigned points");
#endif
#if CHK & 16
		vp_assert(nc == refnc, "a call that succeeds despite a failed allocation gives the full result");
		for (unsigned i = 0; i < N; i++) vp_assert(lab[i] == ref[i], "a call that succeeds despite a failed allocation gives the full result");
#endif
#if CHK & 2
		bool distinct = true;
		for (unsigned p = 0; p < N; p++) for (unsigned q = 0; q < p; q++) for (unsigned u = 0; u <= p; u++) for (unsigned v = 0; v < u; v++)
			if ((u < p || v < q) && dist(p, q) == dist(u, v)) distinct = false;
		for (unsigned o = 0; o < (OLD ? OLD : 1); o++) {
			unsigned parts = 0;
			for (unsigned c = 0; c < N; c++) if (c < nc && from[c] == o) parts++;
			if (parts != 2 || !distinct) continue;
			for (unsigned p = 0; p < N; p++) in[p] = old[p] == o;
			vp_assert(greedy_split(lab, batch), "a split grows greedily from two mutually farthest points");
			vp_cover(true, "split checked");
		}
#endif
#if CHK & 64
		scc_Clabel lab2[N];
		scc_Clustering* c2 = NULL;
#ifdef HIST
		/* other problems in between */
		for (unsigned k = N / 2; k >= 2; k -= k > 2 ? k - 2 : 1) {
			vp_assert(scc_init_empty_clustering(N, NULL, &c2) == SCC_ER_OK && scc_hierarchical_clustering(data, k, !batch, c2) == SCC_ER_OK, "other problem solved");
			vp_assert(scc_hierarchical_clustering(data, 1, batch, c2) == SCC_ER_INVALID_INPUT && scc_hierarchical_clustering(data, N + 1, batch, c2) == SCC_ER_NO_SOLUTION, "other problems refused");
			scc_free_clustering(&c2);
		}
#endif
		for (unsigned i = 0; i < N; i++) lab2[i] = old[i];
		vp_assert((OLD ? scc_init_existing_clustering(N, OLD, lab2, false, &c2) : scc_init_empty_clustering(N, lab2, &c2)) == SCC_ER_OK, "second object made");
		vp_assert(scc_hierarchical_clustering(data, K, batch, c2) == SCC_ER_OK, "same problem solved again");
		for (unsigned i = 0; i < N; i++) vp_assert(lab2[i] == lab[i], "same input gives the same clustering");
		if (nc >= 1) {
			vp_assert(scc_hierarchical_clustering(data, K, batch, c2) == SCC_ER_OK, "refining again works");
			uint64_t nc2 = 0;
			vp_assert(scc_get_clustering_info(c2, NULL, &nc2) == SCC_ER_OK && nc2 == nc, "nothing is left to refine");
			for (unsigned i = 0; i < N; i++) for (unsigned j = 0; j < i; j++) vp_assert((lab2[i] == lab2[j]) == (lab[i] == lab[j]), "refining again keeps the partition");
		}
		scc_free_clustering(&c2);
#endif
	} else {
		bool kept = OLD > 0 && nc == OLD;
		vp_assert(nc == 0 || kept, "after a failure the clustering is either as before or empty");
		if (kept) {
			vp_assert(scc_get_cluster_labels(cl, N, lab) == SCC_ER_OK, "labels can be read");
			for (unsigned i = 0; i < N; i++) vp_assert(lab[i] == old[i], "after a failure the clustering is either as before or empty");
		}
	}
	scc_free_clustering(&cl);
#ifdef GEO
	for (unsigned i = 0; i < N * DIM; i++) vp_assert(gx[i] == gx0[i], "data are not modified");
	scc_free_data_set(&data);
#endif
	vp_assert(vp_live == 0, "all memory has been released");
	return 0;
}
