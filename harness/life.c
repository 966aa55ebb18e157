/* Arbitrary histories of construction, copying, reading and freeing of clustering and data set objects.
 * N C    points and clusters of existing clusterings; labels arbitrary      STEPS  length of the history
 * FAULT  1: one allocation of the history fails
 */
#include "include/scclust.h"
#include "vp.h"
#ifndef STEPS
#define STEPS 4
#endif
#ifndef FAULT
#define FAULT 0
#endif
#define SLOTS 2
static scc_Clustering* cl[SLOTS];
static bool live[SLOTS], empty[SLOTS], shared[SLOTS];    /* shared: refers to ext */
static scc_Clabel want[SLOTS][N], ext[N];

static scc_Clabel any_label(void)
{
	unsigned c = vp_choice(C + 1);
	return c == C ? SCC_CLABEL_NA : (scc_Clabel) c;
}

static void check(void)
{
	for (unsigned s = 0; s < SLOTS; s++) {
		vp_assert((cl[s] != NULL) == live[s], "a pointer is set exactly while its object exists");
		vp_assert(scc_is_initialized_clustering(cl[s]) == live[s], "exactly existing objects are initialized");
		uint64_t nd = 99, nc = 99;
		scc_ErrorCode ec = scc_get_clustering_info(cl[s], &nd, &nc);
		if (!live[s]) { vp_assert(ec == SCC_ER_INVALID_INPUT && nd == 99 && nc == 99, "reading a missing object is refused"); continue; }
		vp_assert(ec == SCC_ER_OK && nd == N && nc == (empty[s] ? 0 : C), "object has the size it was made with");
		scc_Clabel buf[N + 2];
		for (unsigned i = 0; i < N + 2; i++) buf[i] = 77;
		unsigned len = vp_choice(3) + N - 1;      /* shorter, exact, longer */
		ec = scc_get_cluster_labels(cl[s], len, buf);
		if (len == 0) { vp_assert(ec == SCC_ER_INVALID_INPUT && buf[0] == 77, "reading into an empty buffer is refused"); continue; }
		if (empty[s]) { vp_assert(ec == SCC_ER_INVALID_INPUT && buf[0] == 77, "an empty clustering has no labels"); continue; }
		vp_assert(ec == SCC_ER_OK, "labels can be read");
		for (unsigned i = 0; i < N + 2; i++) {
			scc_Clabel w = i >= len ? 77 : i >= N ? SCC_CLABEL_NA : shared[s] ? ext[i] : want[s][i];
			vp_assert(buf[i] == w, "the labels read are those of the clustering, NA beyond the last point, and nothing else is written");
		}
	}
}

int main(void)
{
	for (unsigned i = 0; i < N; i++) ext[i] = any_label();
	if (FAULT) vp_fail_at = 1 + vp_choice(2 * STEPS);
	bool did_copy = false, did_free = false;
	for (unsigned t = 0; t < STEPS; t++) {
		unsigned op = vp_choice(6), s = vp_choice(SLOTS);
		bool failed0 = vp_failed;
		scc_ErrorCode ec = SCC_ER_OK;
		bool made = false;
		scc_Clustering* n = (scc_Clustering*) (void*) &ext;  /* must be overwritten */
		if (op <= 3 && live[s]) { scc_free_clustering(&cl[s]); live[s] = false; did_free = true; vp_assert(cl[s] == NULL, "freed object is cleared"); }
		unsigned o = 1 - s;
		if (op == 0) {
			ec = scc_init_empty_clustering(N, NULL, &n);
			made = true; empty[s] = true; shared[s] = false;
		} else if (op == 1) {
			ec = scc_init_existing_clustering(N, C, ext, true, &n);
			made = true; empty[s] = false; shared[s] = false;
			for (unsigned i = 0; i < N; i++) want[s][i] = ext[i];
		} else if (op == 2) {
			ec = scc_init_existing_clustering(N, C, ext, false, &n);
			made = true; empty[s] = false; shared[s] = true;
		} else if (op == 3) {
			ec = scc_copy_clustering(cl[o], &n);
			if (live[o]) {
				made = true; empty[s] = empty[o]; shared[s] = false;
				for (unsigned i = 0; i < N; i++) want[s][i] = shared[o] ? ext[i] : want[o][i];
				did_copy = true;
			} else {
				vp_assert(ec == SCC_ER_INVALID_INPUT && n == NULL, "copying a missing object is refused");
			}
		} else if (op == 4) {
			ext[vp_choice(N)] = any_label();           /* the caller changes its own labels */
		} else {
			scc_free_clustering(&cl[s]);
			live[s] = false;
		}
		if (made) {
			if (vp_failed != failed0) {
				vp_assert(ec == SCC_ER_NO_MEMORY && n == NULL, "failed construction reports it and leaves nothing behind");
				n = NULL;
			} else {
				vp_assert(ec == SCC_ER_OK && n != NULL, "construction succeeds");
				live[s] = true;
			}
			cl[s] = n;
		} else if (op == 3) cl[s] = NULL;
		check();
	}
	vp_cover(did_copy && did_free, "copied and freed");
	if (FAULT) vp_cover(vp_failed, "allocation failure reached");
	bool some = false;
	for (unsigned s = 0; s < SLOTS; s++) if (live[s]) some = true;
	if (!some) vp_assert(vp_live == 0, "nothing is allocated when no object exists");
	for (unsigned s = 0; s < SLOTS; s++) scc_free_clustering(&cl[s]);
	scc_free_clustering(NULL);
	/* data sets */
	static const double x[2] = { 1.0, 2.0 };
	scc_DataSet* d = (scc_DataSet*) (void*) &ext;
	bool f0 = vp_failed;
	scc_ErrorCode ec = scc_init_data_set(2, 1, 2, x, &d);
	vp_assert(vp_failed != f0 ? (ec == SCC_ER_NO_MEMORY && d == NULL) : (ec == SCC_ER_OK && d != NULL), "data set made, or failure reported");
	vp_assert(scc_is_initialized_data_set(d) == (ec == SCC_ER_OK), "exactly an existing data set is initialized");
	scc_free_data_set(&d);
	vp_assert(d == NULL && !scc_is_initialized_data_set(d), "freed data set is cleared");
	scc_free_data_set(&d);
	scc_free_data_set(NULL);
	vp_assert(vp_live == 0, "all memory has been released");
	return 0;
}
