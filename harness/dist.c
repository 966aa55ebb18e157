/* The library's own distance functions (through the table the algorithms use) against their definition.
 * N DIM G     points, dimensions, grid values per coordinate (all data sets on that grid)
 * FN          0 matrix, 1 rows, 2 max distance, 3 nearest neighbours
 * IDX         1: index lists given (arbitrary, may repeat), 0: NULL (all points)   (for 1..3: bit 0 queries, bit 1 columns/search set)
 * K RS        neighbours, 1: radius search (radius any of 1..GR half steps)
 * OFFSET FAR  added to every coordinate; to the first coordinate of every other point     SPARSE  1: only the last coordinate of a point is symbolic, the others are fixed
 * REAL        1: coordinates are arbitrary finite doubles instead of grid values
 */
#include "include/scclust.h"
#include "include/scclust_spi.h"
#include "src/dist_search.h"
#include "vp.h"
#include <math.h>
#ifndef K
#define K 1
#endif
#ifndef RS
#define RS 0
#endif
#ifndef GR
#define GR 4
#endif
#ifndef IDX
#define IDX 0
#endif
#ifndef OFFSET
#define OFFSET 0.0
#endif
#ifndef FAR
#define FAR 0.0
#endif
#ifndef SPARSE
#define SPARSE 0
#endif
#ifndef QMAX
#define QMAX N
#endif
static double x[N * DIM];
static double sq[N][N];
static bool same(double d, double s)
{
#if REAL
	return d == sqrt(s);
#else
	double e = d * d - s;
	return d >= 0.0 && e < 1e-9 * (1.0 + s) && e > -1e-9 * (1.0 + s);
#endif
}
static unsigned any_list(scc_PointIndex* l, unsigned min, bool distinct)
{
	unsigned n = min + vp_choice(QMAX - min + 1);
	for (unsigned i = 0; i < QMAX; i++) if (i < n) {
		if (!distinct) { l[i] = vp_choice(N); continue; }
		unsigned v = vp_choice(N);                       /* distinct, any order */
		for (unsigned j = 0; j < i; j++) vp_assume(l[j] != v);
		l[i] = v;
	}
	return n;
}
int main(void)
{
	for (unsigned i = 0; i < N * DIM; i++) {
#if REAL
		x[i] = vp_any_double();
		vp_assume(x[i] >= -1e6 && x[i] <= 1e6);
#else
		x[i] = OFFSET + (i % DIM == 0 && i / DIM % 2 ? FAR : 0.0) + (double) (SPARSE && i % DIM != DIM - 1 ? (i * 7919u >> 3) % 2 : vp_choice(G));
#endif
	}
	for (unsigned p = 0; p < N; p++) for (unsigned q = 0; q < N; q++) {
		double s = 0.0;
		for (unsigned d = 0; d < DIM; d++) { double e = x[p * DIM + d] - x[q * DIM + d]; s += e * e; }
		sq[p][q] = s;
	}
	scc_DataSet* ds = NULL;
	vp_assert(scc_init_data_set(N, DIM, N * DIM, x, &ds) == SCC_ER_OK, "data set made");
	vp_assert(iscc_check_data_set(ds), "data set accepted");
	vp_assert(iscc_num_data_points(ds) == N, "number of points");
	vp_assert(!iscc_check_data_set(NULL), "missing data set refused");
	scc_PointIndex a[QMAX], b[QMAX];
#if FN == 0
	unsigned n = N;
	if (IDX) n = any_list(a, 2, false);
	double out[QMAX * QMAX];
	for (unsigned i = 0; i < QMAX * QMAX; i++) out[i] = -7.0;
	vp_assert(iscc_get_dist_matrix(ds, n, IDX ? a : NULL, out), "distances calculated");
	unsigned w = 0;
	for (unsigned i = 0; i < QMAX; i++) for (unsigned j = i + 1; j < QMAX; j++) if (i < n && j < n)
		vp_assert(same(out[w++], sq[IDX ? a[i] : i][IDX ? a[j] : j]), "the distance matrix holds the Euclidean distances, row by row above the diagonal");
	for (unsigned i = w; i < QMAX * QMAX; i++) vp_assert(out[i] == -7.0, "nothing is written beyond the result");
#endif
#if FN == 1
	unsigned nq = IDX & 1 ? any_list(a, 1, false) : 1 + vp_choice(N), nc = IDX & 2 ? any_list(b, 1, false) : 1 + vp_choice(N);
	double out[N * N + 1];
	for (unsigned i = 0; i < N * N + 1; i++) out[i] = -7.0;
	vp_assert(iscc_get_dist_rows(ds, nq, IDX & 1 ? a : NULL, nc, IDX & 2 ? b : NULL, out), "distances calculated");
	unsigned w = 0;
	for (unsigned i = 0; i < N; i++) for (unsigned j = 0; j < N; j++) if (i < nq && j < nc)
		vp_assert(same(out[w++], sq[IDX & 1 ? a[i] : i][IDX & 2 ? b[j] : j]), "the distance rows hold the Euclidean distances, row by row");
	for (unsigned i = 0; i < N * N + 1; i++) if (i >= w) vp_assert(out[i] == -7.0, "nothing is written beyond the result");
#endif
#if FN == 2
	unsigned nq = IDX & 1 ? any_list(a, 1, false) : 1 + vp_choice(N), ns = IDX & 2 ? any_list(b, 1, true) : 1 + vp_choice(N);
	iscc_MaxDistObject* o = NULL;
	vp_assert(iscc_init_max_dist_object(ds, ns, IDX & 2 ? b : NULL, &o) && o != NULL, "max-distance object made");
	scc_PointIndex oi[N + 1];
	double od[N + 1];
	for (unsigned i = 0; i < N + 1; i++) { oi[i] = 77; od[i] = -7.0; }
	vp_assert(iscc_get_max_dist(o, nq, IDX & 1 ? a : NULL, oi, od), "max distances calculated");
	for (unsigned i = 0; i < N; i++) {
		if (i >= nq) continue;
		unsigned q = IDX & 1 ? a[i] : i;
		bool in = false;
		vp_assert(oi[i] < N, "farthest point is a point");
		vp_assert(same(od[i], sq[q][oi[i]]), "distance reported is the distance to the point reported");
		for (unsigned s = 0; s < N; s++) if (s < ns) {
			unsigned c = IDX & 2 ? b[s] : s;
			if (c == oi[i]) in = true;
			vp_assert(sq[q][c] <= sq[q][oi[i]], "no searched point is farther");
		}
		vp_assert(in, "farthest point is one of the searched points");
	}
	vp_assert(oi[N] == 77 && od[N] == -7.0, "nothing is written beyond the result");
	vp_assert(iscc_close_max_dist_object(&o) && o == NULL, "max-distance object closed");
#endif
#if FN == 3
	unsigned nq = IDX & 1 ? any_list(a, 1, false) : 1 + vp_choice(N), ns = IDX & 2 ? any_list(b, K, true) : K + vp_choice(N - K + 1);
	scc_PointIndex a0[QMAX];
	for (unsigned i = 0; i < QMAX; i++) if (i < nq && (IDX & 1)) a0[i] = a[i];
	double r = 0.5 * (1 + vp_choice(GR));
	iscc_NNSearchObject* o = NULL;
	vp_assert(iscc_init_nn_search_object(ds, ns, IDX & 2 ? b : NULL, &o) && o != NULL, "search object made");
	scc_PointIndex oq[N + 1], nn[N * K + 1];
	bool keepq = RS || vp_choice(2), inplace = (IDX & 1) && keepq && vp_choice(2);   /* the batch algorithm reuses the query list for the output */
	for (unsigned i = 0; i < N + 1; i++) oq[i] = 77;
	for (unsigned i = 0; i < N * K + 1; i++) nn[i] = 77;
	size_t nok = 99;
	vp_assert(iscc_nearest_neighbor_search(o, nq, IDX & 1 ? a : NULL, K, RS, r, &nok, inplace ? a : keepq ? oq : NULL, nn), "search succeeds");
	unsigned w = 0;
	for (unsigned i = 0; i < N; i++) {
		if (i >= nq) continue;
		unsigned q = IDX & 1 ? a0[i] : i, within = 0;
		for (unsigned s = 0; s < N; s++) if (s < ns && (!RS || sq[q][IDX & 2 ? b[s] : s] <= r * r)) within++;
		if (within < K) continue;                       /* not enough neighbours within the radius */
		vp_assert(w < nok, "every query with enough neighbours is answered");
		if (keepq) vp_assert((inplace ? a[w] : oq[w]) == q, "answered queries are listed in order");
		for (unsigned k = 0; k < K; k++) {
			unsigned c = nn[w * K + k];
			bool in = false;
			for (unsigned s = 0; s < N; s++) if (s < ns && c == (IDX & 2 ? b[s] : s)) in = true;
			vp_assert(in, "neighbours are among the searched points");
			for (unsigned l = 0; l < k; l++) vp_assert(nn[w * K + l] != c, "neighbours are distinct");
			if (RS) vp_assert(sq[q][c] <= r * r, "neighbours are within the radius");
			if (k > 0) vp_assert(sq[q][nn[w * K + k - 1]] <= sq[q][c], "neighbours are sorted by distance");
		}
		for (unsigned s = 0; s < N; s++) if (s < ns) {
			unsigned c = IDX & 2 ? b[s] : s;
			bool listed = false;
			for (unsigned k = 0; k < K; k++) if (nn[w * K + k] == c) listed = true;
			if (!listed) vp_assert(sq[q][c] >= sq[q][nn[w * K + K - 1]], "no searched point that is left out is closer");
		}
		w++;
	}
	vp_assert(nok == w, "number of answered queries");
	vp_assert(nn[N * K] == 77 && oq[N] == 77, "nothing is written beyond the result");
	if (RS) vp_cover(w > 0 && w < nq, "some queries satisfied and some not");
	vp_assert(iscc_close_nn_search_object(&o) && o == NULL, "search object closed");
#endif
	scc_free_data_set(&ds);
	vp_assert(vp_live == 0, "all memory has been released");
	vp_cover(true, "reached the end");
	return 0;
}
