/* A registered distance back end (SPI) whose answers are symbolic but consistent: for every point q the
 * other points have an arbitrary order of closeness (ord[q]) and, per search radius, an arbitrary number of
 * them lies within the radius. Every nearest-neighbour search the code issues is answered from that table,
 * as an exact search over some dissimilarity would answer it.
 *
 * N        number of points
 * SELF     1: q itself comes first in ord[q]; 0: it may be displaced (duplicates of q elsewhere in the data)
 * DEPTH    how many leading positions of the order are symbolic (the rest is filled in index order)
 */
#ifndef STUB_H
#define STUB_H
#include "include/scclust.h"
#include "include/scclust_spi.h"
#include "vp.h"
#ifndef SELF
#define SELF 1
#endif
#ifndef DEPTH
#define DEPTH N
#endif
#ifndef NOBJ
#define NOBJ 12
#endif
typedef struct { bool open; size_t len; const scc_PointIndex* idx; } st_obj;
static int st_ds;
static st_obj st_objs[NOBJ];
static unsigned st_nobj, st_open;
static unsigned st_calls, st_fail_at, st_badclose;  /* SPI calls that may fail; index of the failing one */
static bool st_failed, st_close_failed;
static unsigned st_ord[N][N];                        /* st_ord[q][r]: the r-th closest point to q */
static unsigned st_cut[4][N];                        /* st_cut[m][q]: number of points within radius m of q (m = 1..3) */

static bool st_fails(void)
{
	st_calls++;
	if (st_fail_at != 0 && st_calls == st_fail_at) { st_failed = true; return true; }
	return false;
}
static bool st_check(void* d) { return d == (void*) &st_ds; }
static size_t st_num(void* d) { return N; }

static bool st_init(void* d, size_t len, const scc_PointIndex* idx, iscc_NNSearchObject** out)
{
	vp_assert(d == (void*) &st_ds, "search object built for the caller's data set");
	vp_assert(len >= 1 && len <= N, "search set is a non-empty set of points");
	if (st_fails()) { *out = NULL; return false; }
	vp_assert(st_nobj < NOBJ, "(harness) enough search objects");
	st_objs[st_nobj].open = true;
	st_objs[st_nobj].len = len;
	st_objs[st_nobj].idx = idx;
	*out = (iscc_NNSearchObject*) (void*) &st_objs[st_nobj];
	st_nobj++;
	st_open++;
	return true;
}

static bool st_close(iscc_NNSearchObject** o)
{
	vp_assert(o != NULL && *o != NULL, "only open search objects are closed");
	st_obj* s = (st_obj*) (void*) *o;
	vp_assert(s->open, "search object closed once");
	s->open = false;
	st_open--;
	*o = NULL;
	if (st_badclose != 0 && st_badclose == st_nobj) { st_close_failed = true; return false; }
	return true;
}

static bool st_nn(iscc_NNSearchObject* o, size_t nq, const scc_PointIndex* q, uint32_t k, bool rs, double r,
                  size_t* nok, scc_PointIndex* oq, scc_PointIndex* out)
{
	st_obj* s = (st_obj*) (void*) o;
	vp_assert(o != NULL && s->open, "searches use an open search object");
	vp_assert(nq >= 1 && nq <= N, "number of queries is between one and the number of points");
	vp_assert(k >= 1 && k <= s->len, "no more neighbours requested than points searched");
	vp_assert(!rs || (oq != NULL && r > 0.0), "radius search has a positive radius and a place for the satisfied queries");
	vp_assert(nok != NULL && out != NULL, "search has output buffers");
	if (st_fails()) return false;
	unsigned m = 0;
	if (rs) {
		m = r == 1.0 ? 1 : r == 2.0 ? 2 : 3;
	}
	bool in[N];
	for (unsigned i = 0; i < N; i++) in[i] = (s->idx == NULL) && i < s->len;
	if (s->idx != NULL)
		for (unsigned i = 0; i < N; i++) if (i < s->len) { vp_assert(s->idx[i] < N, "search set contains points of the data set"); in[s->idx[i]] = true; }
	size_t w = 0, done = 0;
	for (unsigned i = 0; i < N; i++) {
		if (i >= nq) break;
		unsigned p = q ? q[i] : i;
		vp_assert(p < N, "queries are points of the data set");
		unsigned found = 0;
		for (unsigned t = 0; t < N; t++) {
			if (rs && t >= st_cut[m][p]) break;
			unsigned c = st_ord[p][t];
			if (in[c] && found < k) { out[w + found] = c; found++; }
		}
		if (found == k) {
			if (oq) oq[done] = p;
			done++;
			w += k;
		} else {
			vp_assert(rs, "search set holds at least k distinct points");
		}
	}
	*nok = done;
	return true;
}

/* fills st_ord with arbitrary orders of closeness */
static void st_any_order(void)
{
	for (unsigned q = 0; q < N; q++) {
		bool used[N] = { 0 };
		unsigned r = 0;
		if (SELF) { st_ord[q][0] = q; used[q] = true; r = 1; }
		for (; r < DEPTH && r < N; r++) {
			unsigned v = r + 1 < N ? vp_choice(N - r) : 0;
			unsigned t = 0;
			for (unsigned c = 0; c < N; c++) if (!used[c]) { if (v == 0) { t = c; break; } v--; }
			used[t] = true;
			st_ord[q][r] = t;
		}
		for (unsigned c = 0; c < N; c++) if (!used[c] && r < N) { st_ord[q][r] = c; r++; }
	}
}

/* any number of points within each radius (at least the query itself); larger radius, no fewer points.
 * Without `small` (`large`) the first (third) radius holds the same points as the second. */
static void st_any_cut(bool small, bool large)
{
	for (unsigned q = 0; q < N; q++) {
		unsigned c = 1;
		if (small) c += vp_choice(N);
		st_cut[1][q] = c;
		c += vp_choice(N - c + 1);
		st_cut[2][q] = c;
		if (!small) st_cut[1][q] = c;
		if (large) c += vp_choice(N - c + 1);
		st_cut[3][q] = c;
	}
}

static void st_register(void)
{
	vp_assert(scc_set_dist_functions(st_check, st_num, NULL, NULL, NULL, NULL, NULL, st_init, st_nn, st_close), "SPI registration accepted");
}
#endif
