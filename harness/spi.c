/* Registration of distance functions: arbitrary histories of set and reset, checked against the active table by calling
 * the functions the algorithms would call.    STEPS length of the history */
#include "include/scclust.h"
#include "include/scclust_spi.h"
#include "src/dist_search.h"
#include "vp.h"
#ifndef STEPS
#define STEPS 3
#endif
static int tag;
#define FN(v) \
static bool check##v(void* d) { tag = v; return true; } \
static size_t num##v(void* d) { tag = v; return 1; } \
static bool mat##v(void* d, size_t n, const scc_PointIndex* i, double* o) { tag = v; return true; } \
static bool rows##v(void* d, size_t n, const scc_PointIndex* i, size_t m, const scc_PointIndex* j, double* o) { tag = v; return true; } \
static bool mi##v(void* d, size_t n, const scc_PointIndex* i, iscc_MaxDistObject** o) { tag = v; return true; } \
static bool mg##v(iscc_MaxDistObject* o, size_t n, const scc_PointIndex* i, scc_PointIndex* p, double* q) { tag = v; return true; } \
static bool mc##v(iscc_MaxDistObject** o) { tag = v; return true; } \
static bool ni##v(void* d, size_t n, const scc_PointIndex* i, iscc_NNSearchObject** o) { tag = v; return true; } \
static bool ng##v(iscc_NNSearchObject* o, size_t n, const scc_PointIndex* i, uint32_t k, bool r, double rr, size_t* z, scc_PointIndex* p, scc_PointIndex* q) { tag = v; return true; } \
static bool nc##v(iscc_NNSearchObject** o) { tag = v; return true; }
FN(1)
FN(2)
#define PICK(c, n) ((c) == 0 ? NULL : (c) == 1 ? n##1 : n##2)
static int want[10];   /* 0: default implementation */

static void verify(scc_DataSet* ds)
{
	int got[10];
	scc_PointIndex pi[4] = { 0, 1, 0, 0 };
	double out[4];
	size_t nok;
	iscc_MaxDistObject* mo = NULL;
	iscc_NNSearchObject* no = NULL;
	tag = 0; iscc_check_data_set(ds); got[0] = tag;
	tag = 0; iscc_num_data_points(ds); got[1] = tag;
	tag = 0; iscc_get_dist_matrix(ds, 2, pi, out); got[2] = tag;
	tag = 0; iscc_get_dist_rows(ds, 1, pi, 2, pi, out); got[3] = tag;
	tag = 0; iscc_init_max_dist_object(ds, 2, pi, &mo); got[4] = tag;
	tag = 0; if (want[5] != 0 || mo != NULL) { iscc_get_max_dist(mo, 1, pi, pi + 2, out); got[5] = tag; } else got[5] = -1;
	tag = 0; iscc_close_max_dist_object(&mo); got[6] = tag;
	tag = 0; iscc_init_nn_search_object(ds, 2, pi, &no); got[7] = tag;
	tag = 0; if (want[8] != 0 || no != NULL) { iscc_nearest_neighbor_search(no, 1, pi, 1, false, 0.0, &nok, NULL, pi + 2); got[8] = tag; } else got[8] = -1;
	tag = 0; iscc_close_nn_search_object(&no); got[9] = tag;
	for (unsigned i = 0; i < 10; i++) vp_assert(got[i] == want[i], "the functions in use are the registered ones");
}

int main(void)
{
	static const double x[2] = { 1.0, 3.0 };
	scc_DataSet* ds = NULL;
	vp_assert(scc_init_data_set(2, 1, 2, x, &ds) == SCC_ER_OK, "data set made");
	verify(ds);
	bool rejected = false, mixed = false;
	for (unsigned t = 0; t < STEPS; t++) {
		if (vp_choice(4) == 0) {
			vp_assert(scc_reset_dist_functions(), "reset succeeds");
			for (unsigned i = 0; i < 10; i++) want[i] = 0;
		} else {
			unsigned c[10];
			unsigned v = 1 + vp_choice(2);
			for (unsigned i = 0; i < 10; i++) c[i] = vp_choice(2) ? v : 0;
			bool ok = scc_set_dist_functions(PICK(c[0], check), PICK(c[1], num), PICK(c[2], mat), PICK(c[3], rows), PICK(c[4], mi),
			                                 PICK(c[5], mg), PICK(c[6], mc), PICK(c[7], ni), PICK(c[8], ng), PICK(c[9], nc));
			bool full = ((c[4] != 0) == (c[5] != 0)) && ((c[4] != 0) == (c[6] != 0)) && ((c[7] != 0) == (c[8] != 0)) && ((c[7] != 0) == (c[9] != 0));
			vp_assert(ok == full, "exactly incomplete groups of object functions are refused");
			if (ok) { for (unsigned i = 0; i < 10; i++) if (c[i]) want[i] = (int) c[i]; if (want[0] != want[9]) mixed = true; }
			else rejected = true;
		}
		verify(ds);
	}
	vp_cover(rejected && mixed, "a refused and a partial registration");
	vp_assert(scc_reset_dist_functions(), "reset succeeds");
	for (unsigned i = 0; i < 10; i++) want[i] = 0;
	verify(ds);
	scc_free_data_set(&ds);
	vp_assert(vp_live == 0, "all memory has been released");
	return 0;
}
