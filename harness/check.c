/* scc_check_clustering decides exactly whether a clustering satisfies the constraints.
 * N C     points, clusters; labels arbitrary incl. out of range (BADLAB) and NA
 * T       types (0: none)     PRIM 1: arbitrary primary points     K maximum size constraint
 * FAULT   1: allocation failure
 */
#include "include/scclust.h"
#include "vp.h"
#ifndef T
#define T 0
#endif
#ifndef FAULT
#define FAULT 0
#endif
int main(void)
{
	scc_Clabel lab[N], lab0[N];
	bool good = true, any_na = false;
	unsigned cnt[C] = { 0 };
	for (unsigned i = 0; i < N; i++) {
		unsigned c = vp_choice(C + 2);
		lab[i] = c == C ? SCC_CLABEL_NA : (scc_Clabel) c;      /* C + 1: not a cluster */
		if (c == C + 1) { unsigned b = vp_choice(3); lab[i] = b == 2 ? (scc_Clabel) -2 : (scc_Clabel) (C + b); good = false; }      /* -2: negative, or (unsigned) huge */
		lab0[i] = lab[i];
		if (c < C) cnt[c]++;
		if (c == C) any_na = true;
	}
	scc_ClusterOptions o = scc_get_default_options();
	o.size_constraint = 2 + vp_choice(K - 1);
	for (unsigned c = 0; c < C; c++) if (cnt[c] < o.size_constraint) good = false;
	scc_PointIndex prim[N];
	unsigned np = 0;
	bool isprim[N];
	for (unsigned i = 0; i < N; i++) isprim[i] = vp_choice(2);
	for (unsigned i = 0; i < N; i++) if (isprim[i]) prim[np++] = i;
	if (np > 0) {
		o.primary_data_points = prim;
		o.len_primary_data_points = np;
		for (unsigned i = 0; i < N; i++) if (isprim[i] && lab[i] == SCC_CLABEL_NA) good = false;
	}
#if T
	uint32_t tc[T];
	scc_TypeLabel tl[N];
	unsigned ct[C][T];
	o.num_types = T;
	o.type_constraints = tc;
	o.type_labels = tl;
	o.len_type_labels = N;
	for (unsigned c = 0; c < C; c++) for (unsigned t = 0; t < T; t++) ct[c][t] = 0;
	for (unsigned t = 0; t < T; t++) tc[t] = vp_choice(3);
	for (unsigned i = 0; i < N; i++) { tl[i] = (scc_TypeLabel) vp_choice(T); if (lab[i] != SCC_CLABEL_NA && (uint64_t) lab[i] < C) ct[lab[i]][tl[i]]++; }
	for (unsigned c = 0; c < C; c++) for (unsigned t = 0; t < T; t++) if (ct[c][t] < tc[t]) good = false;
#endif
	scc_Clustering* cl = NULL;
	vp_assert(scc_init_existing_clustering(N, C, lab, false, &cl) == SCC_ER_OK, "clustering made");
	if (FAULT) { vp_allocs = 0; vp_fail_at = 1; }
	bool res = vp_choice(2);
	scc_ErrorCode ec = scc_check_clustering(cl, &o, &res);
	if (vp_failed) {
		vp_assert(ec == SCC_ER_NO_MEMORY || (ec == SCC_ER_OK && res == good), "a failed allocation is reported");
		vp_assert(ec == SCC_ER_OK || !res, "after a failure the clustering is not declared valid");
		vp_cover(ec == SCC_ER_NO_MEMORY, "allocation failure reached");
	} else {
		vp_assert(ec == SCC_ER_OK, "a check with valid arguments succeeds");
		vp_assert(!res || good, "a clustering declared valid satisfies all constraints");
		vp_assert(res || !good, "a clustering declared invalid violates a constraint");
		vp_cover(res, "valid");
		vp_cover(res && any_na, "valid with unassigned points");
		vp_cover(!res, "invalid");
	}
#ifdef AGAIN
	{	/* again, after checking against other options; nothing the caller passed is changed */
		scc_ClusterOptions q = scc_get_default_options(), o0 = o;
		bool r2 = !res;
		q.size_constraint = 2;
		vp_assert(scc_check_clustering(cl, &q, &r2) == SCC_ER_OK, "check against other options");
		q.size_constraint = N;
		vp_assert(scc_check_clustering(cl, &q, &r2) == SCC_ER_OK, "check against other options");
		q.size_constraint = 1;
		vp_assert(scc_check_clustering(cl, &q, &r2) == SCC_ER_INVALID_INPUT && !r2, "check refused");
		r2 = !res;
		vp_assert(scc_check_clustering(cl, &o, &r2) == SCC_ER_OK && r2 == res, "same check, same verdict");
		vp_assert(o.size_constraint == o0.size_constraint && o.num_types == o0.num_types && o.len_primary_data_points == o0.len_primary_data_points && o.primary_data_points == o0.primary_data_points, "options are not modified");
		for (unsigned i = 0, j = 0; i < N; i++) if (isprim[i]) { vp_assert(prim[j] == i, "primary points are not modified"); j++; }
	}
#endif
	for (unsigned i = 0; i < N; i++) vp_assert(lab[i] == lab0[i], "checking does not change the labels");
	scc_free_clustering(&cl);
	vp_assert(vp_live == 0, "all memory has been released");
	return 0;
}
