/* A registered distance back end (SPI) given by an arbitrary symmetric matrix of dissimilarities sd. */
#ifndef DSTUB_H
#define DSTUB_H
#include "include/scclust.h"
#include "include/scclust_spi.h"
#include "vp.h"
static int ds_ds;
static double sd[N][N];
static struct { bool open; size_t len; const scc_PointIndex* idx; } ds_obj;
static unsigned ds_open, ds_calls, ds_fail_at;
static bool ds_failed, ds_badclose, ds_close_failed;
static bool ds_fails(void)
{
	ds_calls++;
	if (ds_fail_at != 0 && ds_calls == ds_fail_at) { ds_failed = true; return true; }
	return false;
}
static bool ds_check(void* d) { return d == (void*) &ds_ds; }
static size_t ds_num(void* d) { return N; }
static bool ds_matrix(void* d, size_t len, const scc_PointIndex* idx, double* out)
{
	vp_assert(d == (void*) &ds_ds && len >= 2 && len <= N && out != NULL, "distance matrix requested for points of the data set");
	if (ds_fails()) return false;
	for (unsigned a = 0; a < N; a++) for (unsigned b = a + 1; b < N; b++) {
		if (a >= len || b >= len) continue;
		unsigned p = idx ? idx[a] : a, q = idx ? idx[b] : b;
		vp_assert(p < N && q < N, "distances requested between points of the data set");
		*out++ = sd[p][q];
	}
	return true;
}
static bool ds_rows(void* d, size_t nq, const scc_PointIndex* qi, size_t nc, const scc_PointIndex* ci, double* out)
{
	vp_assert(d == (void*) &ds_ds && nq >= 1 && nq <= N && nc >= 1 && nc <= N && out != NULL, "distance rows requested for points of the data set");
	if (ds_fails()) return false;
	for (unsigned a = 0; a < N; a++) for (unsigned b = 0; b < N; b++) {
		if (a >= nq || b >= nc) continue;
		unsigned p = qi ? qi[a] : a, q = ci ? ci[b] : b;
		vp_assert(p < N && q < N, "distances requested between points of the data set");
		*out++ = sd[p][q];
	}
	return true;
}
static bool ds_maxinit(void* d, size_t len, const scc_PointIndex* idx, iscc_MaxDistObject** o)
{
	vp_assert(d == (void*) &ds_ds && len >= 1 && len <= N && o != NULL, "max-distance object built for points of the data set");
	vp_assert(!ds_obj.open, "(harness) one max-distance object at a time");
	if (ds_fails()) { *o = NULL; return false; }
	ds_obj.open = true; ds_obj.len = len; ds_obj.idx = idx;
	ds_open++;
	*o = (iscc_MaxDistObject*) (void*) &ds_obj;
	return true;
}
static bool ds_max(iscc_MaxDistObject* o, size_t nq, const scc_PointIndex* q, scc_PointIndex* oi, double* od)
{
	vp_assert((void*) o == (void*) &ds_obj && ds_obj.open, "max-distance search uses an open object");
	vp_assert(nq >= 1 && nq <= N && oi != NULL && od != NULL, "max-distance search has queries and output buffers");
	if (ds_fails()) return false;
	for (unsigned a = 0; a < N; a++) {
		if (a >= nq) break;
		unsigned p = q ? q[a] : a;
		vp_assert(p < N, "queries are points of the data set");
		double best = -1.0;
		unsigned bi = 0;
		for (unsigned b = 0; b < N; b++) {
			if (b >= ds_obj.len) break;
			unsigned c = ds_obj.idx ? ds_obj.idx[b] : b;
			vp_assert(c < N, "search set contains points of the data set");
			if (sd[p][c] > best) { best = sd[p][c]; bi = c; }
		}
		oi[a] = bi;
		od[a] = best;
	}
	return true;
}
static bool ds_maxclose(iscc_MaxDistObject** o)
{
	vp_assert(o != NULL && (void*) *o == (void*) &ds_obj && ds_obj.open, "max-distance object closed once");
	ds_obj.open = false;
	ds_open--;
	*o = NULL;
	if (ds_badclose) { ds_close_failed = true; return false; }
	return true;
}
static void ds_register(void)
{
	vp_assert(scc_set_dist_functions(ds_check, ds_num, ds_matrix, ds_rows, ds_maxinit, ds_max, ds_maxclose, NULL, NULL, NULL), "SPI registration accepted");
}
/* any symmetric dissimilarities among 1..V (0 on the diagonal; with ZERO also 0 off it) */
static void ds_any(unsigned v, unsigned zero)
{
	for (unsigned p = 0; p < N; p++) for (unsigned q = 0; q < p; q++) {
		double d = (double) (vp_choice(v) + !zero);
		sd[p][q] = d;
		sd[q][p] = d;
	}
}
#endif
