/* Argument checking: every entry point with arbitrarily malformed arguments. A rejected call returns a code that names a
 * defect the arguments really have, reads nothing through the malformed arguments, keeps no memory and changes no object;
 * a call without a defect is not rejected. The distance back end fails at its first search, so that a call that gets past
 * validation is recognised by SCC_ER_DIST_SEARCH_ERROR.
 * FN   0 scc_sc_clustering  1 scc_hierarchical_clustering  2 scc_check_clustering  3 scc_get_clustering_stats
 *      4 constructors and readers
 * PART (FN 0, 2)  0 sizes, types, primary points   1 methods and radii
 */
#include "dstub.h"
#include "vp.h"
#ifndef PART
#define PART 0
#endif
static bool inv, nosol, notimpl, toolarge;
static unsigned ds_kind;
static bool va_searched;
static bool va_check(void* d) { return d == (void*) &ds_ds; }
static size_t va_num(void* d) { vp_assert(d == (void*) &ds_ds, "size is asked of a valid data set only"); return ds_kind == 2 ? N - 1 : ds_kind == 3 ? N + 1 : N; }
static bool va_ninit(void* d, size_t len, const scc_PointIndex* i, iscc_NNSearchObject** o) { va_searched = true; *o = NULL; return false; }
static bool va_nn(iscc_NNSearchObject* o, size_t n, const scc_PointIndex* i, uint32_t k, bool r, double rr, size_t* z, scc_PointIndex* p, scc_PointIndex* q) { vp_assert(false, "no search without a search object"); return false; }
static bool va_nclose(iscc_NNSearchObject** o) { vp_assert(false, "no search object to close"); return true; }
static bool va_minit(void* d, size_t len, const scc_PointIndex* i, iscc_MaxDistObject** o) { va_searched = true; *o = NULL; return false; }
static bool va_mget(iscc_MaxDistObject* o, size_t n, const scc_PointIndex* i, scc_PointIndex* p, double* q) { vp_assert(false, "no search without a search object"); return false; }
static bool va_mclose(iscc_MaxDistObject** o) { vp_assert(false, "no search object to close"); return true; }
static bool va_matrix(void* d, size_t n, const scc_PointIndex* i, double* o) { va_searched = true; return false; }
static bool va_rows(void* d, size_t n, const scc_PointIndex* i, size_t m, const scc_PointIndex* j, double* o) { va_searched = true; return false; }

static bool named(scc_ErrorCode ec)
{
	return (ec == SCC_ER_INVALID_INPUT && inv) || (ec == SCC_ER_NO_SOLUTION && nosol) || (ec == SCC_ER_NOT_IMPLEMENTED && notimpl) ||
	       (ec == SCC_ER_TOO_LARGE_PROBLEM && toolarge);
}
static bool defect(void) { return inv || nosol || notimpl || toolarge; }

static double any_radius(bool* ok)
{
	unsigned c = vp_choice(6);
	*ok = c == 1 || c == 5;
	return c == 0 ? 0.0 : c == 1 ? 1.5 : c == 2 ? -1.0 : c == 3 ? __builtin_nan("") : c == 4 ? -__builtin_inf() : __builtin_inf();
}
static scc_TypeLabel tl[N];
static uint32_t tcs[3];
static scc_PointIndex prim[N + 1];
static uint32_t any_enum(uint32_t n) { uint32_t c = vp_choice(n + 2); return c == n + 1 ? UINT32_MAX : c; }

/* arbitrary options for n points; sets the defects they have */
static scc_ClusterOptions any_options(unsigned n, bool for_clustering)
{
	scc_ClusterOptions o = scc_get_default_options();
	if (PART == 0) {
		if (vp_choice(4) == 0) { o.options_version = vp_choice(2) ? 0 : o.options_version + 1; inv = true; }
		o.size_constraint = vp_choice(N + 3);
		if (vp_choice(4) == 0) o.size_constraint = UINT32_MAX - vp_choice(2);
		unsigned nt = vp_choice(6);
		o.num_types = nt == 4 ? (uintmax_t) UINT16_MAX + 1 : nt == 5 ? UINT64_MAX : nt;
		bool gl = vp_choice(2), gc = vp_choice(2);
		unsigned lt = vp_choice(N + 2);
		o.len_type_labels = lt;
		for (unsigned i = 0; i < N; i++) tl[i] = (scc_TypeLabel) vp_choice(4);
		for (unsigned i = 0; i < 3; i++) tcs[i] = vp_choice(3);
		o.type_labels = gl ? tl : NULL;
		o.type_constraints = gc ? tcs : NULL;
		unsigned lp = vp_choice(N + 2);
		bool gp = vp_choice(2);
		for (unsigned i = 0; i < N + 1; i++) prim[i] = (scc_PointIndex) vp_choice(N + 1);
		o.primary_data_points = gp ? prim : NULL;
		o.len_primary_data_points = lp;
		if (vp_choice(2)) o.seed_method = SCC_SM_BATCHES;

		if (o.size_constraint < 2) inv = true;
		if (o.size_constraint > n) nosol = true;
		if (o.num_types < 2) {
			if (gl || gc || lt != 0) inv = true;
		} else {
			if (o.num_types > 65535) toolarge = true;
			if (!gl || !gc || lt < n) inv = true;
			else {
				uint64_t sum = 0;
				for (unsigned i = 0; i < n; i++) if (tl[i] >= o.num_types) inv = true;
				if (for_clustering) for (unsigned t = 0; t < 3; t++) {
					if (t >= o.num_types) break;
					unsigned have = 0;
					for (unsigned i = 0; i < n; i++) if (tl[i] == t) have++;
					if (have < tcs[t]) nosol = true;
					sum += tcs[t];
				}
				if (sum > o.size_constraint) inv = true;
			}
			if (o.seed_method == SCC_SM_BATCHES) notimpl = true;
		}
		if (gp != (lp > 0)) inv = true;
		else if (gp) {
			for (unsigned i = 0; i < N + 1; i++) if (i < lp) {
				if (prim[i] >= n) inv = true;
				if (i > 0 && prim[i] <= prim[i - 1]) inv = true;
			}
		}
	} else {
		o.size_constraint = 2;
		uint32_t sm = any_enum(6), um = any_enum(4), um2 = any_enum(4), sr = any_enum(4), pr = any_enum(4), qr = any_enum(4);
		bool rok, pok, qok;
		o.seed_method = (scc_SeedMethod) sm;
		o.primary_unassigned_method = (scc_UnassignedMethod) um;
		o.secondary_unassigned_method = (scc_UnassignedMethod) um2;
		o.seed_radius = (scc_RadiusMethod) sr;
		o.primary_radius = (scc_RadiusMethod) pr;
		o.secondary_radius = (scc_RadiusMethod) qr;
		o.seed_supplied_radius = any_radius(&rok);
		o.primary_supplied_radius = any_radius(&pok);
		o.secondary_supplied_radius = any_radius(&qok);
		o.batch_size = vp_choice(4) * 1431655765u;
		if (sm > 5 || um > 3 || um2 > 3 || um2 == SCC_UM_ANY_NEIGHBOR || sr > 1 || pr > 3 || qr > 3) inv = true;
		if ((sr == SCC_RM_USE_SUPPLIED && !rok) || (pr == SCC_RM_USE_SUPPLIED && !pok) || (qr == SCC_RM_USE_SUPPLIED && !qok)) inv = true;
		if (sm == SCC_SM_BATCHES) {
			if (um2 != SCC_UM_IGNORE || pr != SCC_RM_USE_SEED_RADIUS) notimpl = true;
			if (for_clustering && um >= SCC_UM_CLOSEST_ASSIGNED) inv = true;
		}
	}
	return o;
}

/* n * d > len, without overflow (d < 2^16) */
static bool product_exceeds(uint64_t n, uint32_t d, uint64_t len)
{
	uint64_t lo = (n & 0xffffffffu) * d, hi = (n >> 32) * d + (lo >> 32);
	return hi != len >> 32 ? hi > len >> 32 : (lo & 0xffffffffu) > (len & 0xffffffffu);
}

static scc_Clabel ext[N], ext0[N];
static scc_Clustering* cl;
static unsigned cl_kind;   /* 0 missing, 1 empty, 2 empty with caller's labels, 3 existing with two clusters */

static void any_clustering(void)
{
	cl_kind = vp_choice(4);
	for (unsigned i = 0; i < N; i++) ext[i] = ext0[i] = (scc_Clabel) (i % 2);
	if (cl_kind == 1) scc_init_empty_clustering(N, NULL, &cl);
	if (cl_kind == 2) scc_init_empty_clustering(N, ext, &cl);
	if (cl_kind == 3) scc_init_existing_clustering(N, 2, ext, false, &cl);
	vp_assert((cl != NULL) == (cl_kind != 0), "clustering made");
}
static void unchanged(void)
{
	uint64_t nd = 0, nc = 9;
	for (unsigned i = 0; i < N; i++) vp_assert(ext[i] == ext0[i], "rejected call leaves the labels alone");
	if (cl_kind != 0) {
		vp_assert(scc_get_clustering_info(cl, &nd, &nc) == SCC_ER_OK && nd == N && nc == (cl_kind == 3 ? 2 : 0), "rejected call leaves the clustering as it was");
		vp_assert(scc_is_initialized_clustering(cl), "rejected call leaves a usable clustering");
	}
}

int main(void)
{
	vp_assert(scc_set_dist_functions(va_check, va_num, va_matrix, va_rows, va_minit, va_mget, va_mclose, va_ninit, va_nn, va_nclose), "SPI registration accepted");
#if FN == 0 || FN == 1
	any_clustering();
	ds_kind = vp_choice(4);
	void* ds = ds_kind == 0 ? NULL : (void*) &ds_ds;
	uint32_t live0 = vp_live;
	scc_ErrorCode ec;
	if (cl_kind == 0 || ds_kind != 1) inv = true;
	if (FN == 0) {
		bool have = vp_choice(4) != 0;
		scc_ClusterOptions o = any_options(N, true), o0 = o;
		if (!have) inv = true;
		if (cl_kind == 3) notimpl = true;
		ec = scc_sc_clustering(ds, have ? &o : NULL, cl);
		vp_assert(o.options_version == o0.options_version && o.size_constraint == o0.size_constraint && o.num_types == o0.num_types &&
		          o.primary_data_points == o0.primary_data_points && o.primary_radius == o0.primary_radius && o.secondary_radius == o0.secondary_radius &&
		          o.seed_radius == o0.seed_radius && o.batch_size == o0.batch_size && o.seed_method == o0.seed_method, "options are not changed");
	} else {
		uint32_t k = vp_choice(N + 3);
		if (vp_choice(4) == 0) k = UINT32_MAX - vp_choice(2);
		if (k < 2) inv = true;
		if (k > N) nosol = true;
		ec = scc_hierarchical_clustering(ds, k, vp_choice(2), cl);
	}
	vp_cover(inv, "invalid input");
	if (PART == 0) vp_cover(nosol && !inv && !notimpl && !toolarge, "no solution");
	if (FN == 0) vp_cover(notimpl && !inv && !nosol, "not implemented");
	if (FN == 0 && PART == 0) vp_cover(toolarge && !inv && !nosol && !notimpl, "too large");
	vp_cover(!defect(), "valid arguments");
	if (defect()) {
		vp_assert(ec != SCC_ER_OK && ec != SCC_ER_DIST_SEARCH_ERROR && !va_searched, "invalid arguments are rejected before any work is done");
		vp_assert(named(ec), "the error code names a defect of the arguments");
		vp_assert(vp_live == live0, "rejected call keeps no memory");
		unchanged();
	} else if (FN == 0 || va_searched) {
		vp_assert(ec == SCC_ER_DIST_SEARCH_ERROR && va_searched, "valid arguments are accepted");
	} else {
		vp_assert(ec == SCC_ER_OK, "valid arguments are accepted");
	}
#elif FN == 2
	any_clustering();
	bool have = vp_choice(4) != 0, haveout = vp_choice(4) != 0;
	if (cl_kind == 2) ext[0] = ext0[0] = 0;
	scc_ClusterOptions o = any_options(N, false);
	if (!have || !haveout || cl_kind != 3) inv = true;
	bool res = true;
	uint32_t live0 = vp_live;
	scc_ErrorCode ec = scc_check_clustering(cl, have ? &o : NULL, haveout ? &res : NULL);
	vp_cover(inv, "invalid input");
	if (PART == 0) vp_cover(nosol && !inv && !notimpl && !toolarge, "no solution");
	vp_cover(!defect(), "valid arguments");
	if (defect()) {
		vp_assert(named(ec), "the error code names a defect of the arguments");
		vp_assert(!haveout || !res, "a rejected call does not claim the clustering to be fine");
	} else {
		vp_assert(ec == SCC_ER_OK, "valid arguments are accepted");
	}
	vp_assert(!va_searched, "checking needs no distances");
	vp_assert(vp_live == live0, "no memory is kept");
	unchanged();
#elif FN == 3
	any_clustering();
	ds_kind = vp_choice(4);
	void* ds = ds_kind == 0 ? NULL : (void*) &ds_ds;
	bool haveout = vp_choice(4) != 0;
	if (cl_kind != 3 || ds_kind != 1 || !haveout) inv = true;
	scc_ClusteringStats st;
	st.num_data_points = 77; st.num_clusters = 77; st.sum_dists = 77.0; st.max_cluster_size = 77;
	uint32_t live0 = vp_live;
	scc_ErrorCode ec = scc_get_clustering_stats(ds, cl, haveout ? &st : NULL);
	vp_cover(inv, "invalid input");
	vp_cover(!inv, "valid arguments");
	if (inv) vp_assert(ec == SCC_ER_INVALID_INPUT && !va_searched, "invalid arguments are rejected before any work is done");
	else vp_assert(ec == SCC_ER_DIST_SEARCH_ERROR, "valid arguments are accepted");
	vp_assert(!haveout ? st.num_data_points == 77 : st.num_data_points == 0 && st.num_clusters == 0 && st.sum_dists == 0.0 && st.max_cluster_size == 0, "a failed call returns the null statistics");
	vp_assert(vp_live == live0, "no memory is kept");
	unchanged();
#else
	/* constructors: sizes from the whole range of their types; label and data arrays are never read beyond what is valid */
	unsigned op = vp_choice(3);
	uint64_t pmax = ((scc_PointIndex) -1) > 0 ? (uint64_t) (scc_PointIndex) -1 : ((uint64_t) 1 << (8 * sizeof(scc_PointIndex) - 1)) - 1;
	uint64_t cmax = ((scc_Clabel) -1) > 0 ? (uint64_t) (scc_Clabel) -1 : ((uint64_t) 1 << (8 * sizeof(scc_Clabel) - 1)) - 1;
	uint64_t n = vp_any_u64();
	bool haveout = vp_choice(4) != 0, havedata = vp_choice(4) != 0;
	uint32_t live0 = vp_live;
	scc_ErrorCode ec;
	static double x[1];
	if (!haveout || n == 0) inv = true;
	if (n > pmax || n > SIZE_MAX - 1) toolarge = true;
	scc_DataSet* d = (scc_DataSet*) (void*) &x;
	scc_Clustering* c = (scc_Clustering*) (void*) &x;
	if (op == 0) {
		static const uint32_t dims[8] = { 0, 1, 2, 3, 4096, 65535, 65536, UINT32_MAX };
		uint32_t dim = dims[vp_choice(8)];
		static const uint64_t ns[14] = { 0, 1, 2, 3, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0x100000000, 0x55555555, 0x5555555555555556, 0x8000000000000000, UINT64_MAX - 1, UINT64_MAX };
		n = ns[vp_choice(14)];
		inv = !haveout || n == 0;
		toolarge = n > pmax || n > SIZE_MAX - 1;
		static const uint64_t ls[6] = { 0, 1, 7, 0xffffffff, 0x8000000000000000, UINT64_MAX };
		unsigned lk = vp_choice(9);
		uint64_t len = lk < 3 ? n * dim - 1 + lk : ls[lk - 3];   /* around the (wrapped) product, and fixed lengths */
		if (dim == 0) inv = true;
		if (dim > 65535) toolarge = true;
		else if (dim > 0 && product_exceeds(n, dim, len)) inv = true;
		if (!havedata) inv = true;
		ec = scc_init_data_set(n, dim, len, havedata ? x : NULL, haveout ? &d : NULL);
		if (haveout) vp_assert(scc_is_initialized_data_set(d) == (ec == SCC_ER_OK), "object exists exactly after success");
		if (haveout && ec != SCC_ER_OK) vp_assert(d == NULL, "no object after failure");
		if (haveout && ec == SCC_ER_OK) scc_free_data_set(&d);
	} else if (op == 1) {
		ec = scc_init_empty_clustering(n, vp_choice(2) ? ext : NULL, haveout ? &c : NULL);
	} else {
		uint64_t nc = vp_any_u64();
		if (nc == 0 || !havedata) inv = true;
		if (nc > cmax) toolarge = true;
		ec = scc_init_existing_clustering(n, nc, havedata ? ext : NULL, false, haveout ? &c : NULL);
		if (haveout && ec == SCC_ER_OK) {
			uint64_t gn = 0, gc = 0;
			vp_assert(scc_get_clustering_info(c, &gn, &gc) == SCC_ER_OK && gn == n && gc == nc, "object has the size it was made with");
		}
	}
	if (op > 0) {
		if (haveout) vp_assert(scc_is_initialized_clustering(c) == (ec == SCC_ER_OK), "object exists exactly after success");
		if (haveout && ec != SCC_ER_OK) vp_assert(c == NULL, "no object after failure");
		if (haveout && ec == SCC_ER_OK) scc_free_clustering(&c);
	}
	vp_cover(toolarge && !inv, "too large");
	vp_cover(!defect(), "valid arguments");
	if (defect()) vp_assert(named(ec), "the error code names a defect of the arguments");
	else vp_assert(ec == SCC_ER_OK, "valid arguments are accepted");
	vp_assert(vp_live == live0, "no memory is kept");
#endif
	scc_free_clustering(&cl);
	vp_assert(vp_live == 0, "all memory has been released");
	return 0;
}
