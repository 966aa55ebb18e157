/* scc_sc_clustering over an arbitrary consistent nearest-neighbour back end.
 *
 * N K        points, size constraint            SM     seed method (undefined: any but BATCHES)
 * UM UM2     unassigned methods (undefined: any)  PRIM  1: arbitrary primary points
 * SR         1: seed radius supplied (the middle one of three radii)
 * PR QR      radius of primary / secondary assignment: 0 none, 1..3 supplied (2 equals the seed radius), 4 as for seeds,
 *            5 estimated (GEO only)
 * T          number of types (0: none); type labels and constraints arbitrary
 * CHK        1 partition and sizes, 2 types, 4 assignment given the seeds (incl. maximality), 8 status,
 *            16 allocation fault, 32 back-end fault, 64 inputs untouched and same result again (HIST=1: after other calls)
 *            128 radius bounds, 256 diameter bounds (GEO only)
 *            512 (with 4) the seed set is one the seed method's documented order leads to (any breaking of ties)
 *            1024 cluster members are at most HOPS steps apart in the nearest neighbour graph
 * ORDER      1 any order of closeness; 2 one of ALT pseudo-random orders (table TABLE) per point; 0 one fixed order
 * GEO        the library's own distance code on real data instead of the back end of stub.h:
 *            1: points on distinct marks of a Golomb ruler (1-D, all distances differ, so the order of closeness is unique)
 *            2: points on a DIM-dimensional grid with G values per axis (ties and duplicates)
 *            radii (where used) are any of 1..GR in half steps, ascending
 */
#include "stub.h"
#ifdef GEO
#include "geo.h"
#endif
#ifndef T
#define T 0
#endif
#ifndef SR
#define SR 0
#endif
#ifndef PR
#define PR 4
#endif
#ifndef QR
#define QR 4
#endif
#ifndef PRIM
#define PRIM 0
#endif
#ifdef GEO
#define GEOM 1
#else
#define GEOM 0
#endif
#ifndef EXT
#define EXT 1
#endif
#ifndef ORDER
#define ORDER 1
#endif
#ifndef ALT
#define ALT 2
#endif
#ifndef TABLE
#define TABLE 0
#endif
#ifndef BATCH
#define BATCH 0
#endif

static scc_ClusterOptions o;
static scc_PointIndex prim[N + 1];
static bool isprim[N];
static unsigned nprim;
#if T
static uint32_t tc[T];
static scc_TypeLabel tl[N];
static unsigned tcount[T];
#endif
static bool row[N][N], ok[N];
static bool met[N][N];     /* the neighbours a point that is no seed can be put with (row, but for batches the points the search returned) */

static void build_options(void)
{
	o = scc_get_default_options();
	o.size_constraint = K;
#ifdef SM
	o.seed_method = SM;
#else
	{ static const scc_SeedMethod m[5] = { SCC_SM_LEXICAL, SCC_SM_INWARDS_ORDER, SCC_SM_INWARDS_UPDATING, SCC_SM_EXCLUSION_ORDER, SCC_SM_EXCLUSION_UPDATING };
	  o.seed_method = m[vp_choice(5)]; }
#endif
#if BATCH
	o.seed_method = SCC_SM_BATCHES;
	o.batch_size = vp_choice(N + 2);
	o.primary_unassigned_method = vp_choice(2) ? SCC_UM_ANY_NEIGHBOR : SCC_UM_IGNORE;
#else
#ifdef UM
	o.primary_unassigned_method = UM;
#else
	o.primary_unassigned_method = vp_choice(4);
#endif
#ifdef UM2
	o.secondary_unassigned_method = UM2;
#else
	{ static const scc_UnassignedMethod m[3] = { SCC_UM_IGNORE, SCC_UM_CLOSEST_ASSIGNED, SCC_UM_CLOSEST_SEED };
	  o.secondary_unassigned_method = m[vp_choice(3)]; }
#endif
#endif
	nprim = 0;
	for (unsigned i = 0; i < N; i++) isprim[i] = true;
#if PRIM
	for (unsigned i = 0; i < N; i++) {
		isprim[i] = i == N - 1 && nprim == 0 ? true : vp_choice(2);
		if (isprim[i]) prim[nprim++] = i;
	}
	o.primary_data_points = prim;
	o.len_primary_data_points = nprim;
#endif
	if (SR) { o.seed_radius = SCC_RM_USE_SUPPLIED; o.seed_supplied_radius = 2.0; }
	if (PR == 0) o.primary_radius = SCC_RM_NO_RADIUS;
	if (PR >= 1 && PR <= 3) { o.primary_radius = SCC_RM_USE_SUPPLIED; o.primary_supplied_radius = PR; }
	if (PR == 5) o.primary_radius = SCC_RM_USE_ESTIMATED;
	if (QR == 5) o.secondary_radius = SCC_RM_USE_ESTIMATED;
	if (QR == 0) o.secondary_radius = SCC_RM_NO_RADIUS;
	if (QR >= 1 && QR <= 3) { o.secondary_radius = SCC_RM_USE_SUPPLIED; o.secondary_supplied_radius = QR; }
#if T
	o.num_types = T;
	o.type_constraints = tc;
	o.len_type_labels = N;
	o.type_labels = tl;
	for (unsigned t = 0; t < T; t++) { tc[t] = vp_choice(K + 1); tcount[t] = 0; }
#ifndef ALLZERO
	bool anytc = false;
	for (unsigned t = 0; t < T; t++) if (tc[t] > 0) anytc = true;
	vp_assume(anytc);
#endif
	for (unsigned i = 0; i < N; i++) { tl[i] = vp_choice(T); tcount[tl[i]]++; }
#endif
}

/* the neighbourhood of each point that the documentation defines: itself, the nearest points of each constrained
 * type, and the nearest further points up to the size constraint, all within the seed radius */
static void spec_rows(void)
{
	for (unsigned p = 0; p < N; p++) {
		unsigned lim = SR ? st_cut[2][p] : N;
		ok[p] = true;
		for (unsigned c = 0; c < N; c++) row[p][c] = false;
#if T
		unsigned sum = 0;
		for (unsigned t = 0; t < T; t++) {
			unsigned got = 0, last = p;
			for (unsigned r = 0; r < N; r++)
				if (r < lim && tl[st_ord[p][r]] == t && got < tc[t]) { last = st_ord[p][r]; row[p][last] = true; got++; }
			if (got < tc[t]) ok[p] = false;
			if (!SELF && tl[p] == t && got > 0 && !row[p][p]) { row[p][last] = false; row[p][p] = true; }      /* displaced by duplicates: p takes the last place */
			sum += tc[t];
		}
		if (sum < K) {
			if (lim < K) ok[p] = false;
			unsigned extra = K - sum;
			for (unsigned r = 0; r < N; r++)
				if (r < lim && extra > 0 && !row[p][st_ord[p][r]]) { row[p][st_ord[p][r]] = true; extra--; }
		}
#else
		for (unsigned r = 0; r < K; r++) {
			if (r < lim) row[p][st_ord[p][r]] = true; else ok[p] = false;
		}
		for (unsigned c = 0; c < N; c++) met[p][c] = row[p][c];
		if (!SELF && !row[p][p]) row[p][st_ord[p][K - 1]] = false;      /* duplicates displaced p from its own neighbourhood: it takes the last place */
#endif
		row[p][p] = true;
		for (unsigned c = 0; c < N; c++) if (T || !BATCH) met[p][c] = row[p][c];
	}
}

#if CHK & 4
static double est;      /* average distance between the seeds and their neighbours */
static unsigned limit(unsigned m, unsigned p)
{
	if (m == 4) m = SR ? 2 : 0;
#ifdef GEO
	if (m == 5) { unsigned c = 0; for (unsigned v = 0; v < N; v++) if (gd[p][v] <= est * est) c++; return c; }
#endif
	return m == 0 ? N : st_cut[m][p];
}

/* is there a point among `set` with the label lab that is the closest member of `set` to p within limit? */
static scc_Clabel nearest_label(unsigned p, const bool set[N], unsigned lim, const scc_Clabel lab[N])
{
	for (unsigned r = 0; r < N; r++) {
		if (r >= lim) break;
		if (set[st_ord[p][r]]) return lab[st_ord[p][r]];
	}
	return SCC_CLABEL_NA;
}

/* would this clustering be produced with the seeds in mask? */
static bool consistent(unsigned mask, const scc_Clabel lab[N], uint64_t nc)
{
	bool core[N] = { 0 }, seed[N];
	unsigned cnt = 0;
	bool good = true;
	for (unsigned s = 0; s < N; s++) {
		seed[s] = (mask >> s) & 1;
		if (!seed[s]) continue;
		cnt++;
		if (!isprim[s] || !ok[s] || lab[s] == SCC_CLABEL_NA) good = false;
		for (unsigned t = 0; t < s; t++) if (seed[t] && lab[t] == lab[s]) good = false;
		for (unsigned c = 0; c < N; c++) if (row[s][c]) { core[c] = true; if (lab[c] != lab[s]) good = false; }
	}
	if (cnt != nc || !good) return false;
#if PR == 5 || QR == 5
	double sum = 0.0;
	for (unsigned s = 0; s < N; s++) if (seed[s]) {
		double own = 0.0;
		unsigned k = 0;
		for (unsigned c = 0; c < N; c++) if (row[s][c] && c != s) { own += gx[c] > gx[s] ? gx[c] - gx[s] : gx[s] - gx[c]; k++; }
		sum += own / k;
	}
	est = sum / cnt;
#endif
	for (unsigned p = 0; p < N; p++) {
		if (core[p]) continue;
		scc_Clabel e = SCC_CLABEL_NA;
		bool any = false, hit = false;
		if (isprim[p]) {
			if (ok[p]) {
				bool touch = false;
				for (unsigned c = 0; c < N; c++) if (met[p][c] && core[c]) { touch = true; if (lab[c] == lab[p]) hit = true; }
				if (!touch) return false;            /* p could have been another seed */
				if (o.primary_unassigned_method == SCC_UM_ANY_NEIGHBOR) any = true;
			}
			unsigned lim = limit(PR, p);
			if (o.primary_unassigned_method == SCC_UM_CLOSEST_ASSIGNED) e = nearest_label(p, core, lim, lab);
			if (o.primary_unassigned_method == SCC_UM_CLOSEST_SEED) e = nearest_label(p, seed, lim, lab);
		}
		if (any) { if (!hit) good = false; continue; }
		if (e == SCC_CLABEL_NA) {
			unsigned lim = limit(QR, p);
			if (o.secondary_unassigned_method == SCC_UM_CLOSEST_ASSIGNED) e = nearest_label(p, core, lim, lab);
			if (o.secondary_unassigned_method == SCC_UM_CLOSEST_SEED) e = nearest_label(p, seed, lim, lab);
		}
		if (e != lab[p]) good = false;
	}
	return good;
}
#endif

#if CHK & 512
/* reach[S]: S is the set of seeds found so far at some point when going through the points in the method's order */
static bool reach[1u << N];
static bool conf(unsigned a, unsigned b)
{
	for (unsigned c = 0; c < N; c++) if (row[a][c] && row[b][c]) return true;
	return false;
}
#if SM == 3
static bool reach3[1u << N][1u << N];     /* [seeds found][points considered and skipped] */
static void spec_seeds(void)
{
	bool cf[N][N];
	for (unsigned a = 0; a < N; a++) for (unsigned b = 0; b < N; b++) cf[a][b] = conf(a, b);
	reach3[0][0] = true;
	for (unsigned S = 0; S < (1u << N); S++) for (unsigned W = 0; W < (1u << N); W++) {
		if ((S & W) != 0 || !reach3[S][W]) continue;
		bool R[N], left = false;
		unsigned key[N];
		for (unsigned v = 0; v < N; v++) {
			R[v] = isprim[v] && ok[v] && !((W >> v) & 1) && !((S >> v) & 1);
			for (unsigned x = 0; x < N; x++) if (((S >> x) & 1) && row[x][v]) R[v] = false;
			if (R[v]) left = true;
		}
		for (unsigned v = 0; v < N; v++) { key[v] = 0; for (unsigned w = 0; w < N; w++) if (w != v && R[w] && row[w][v]) key[v]++; }
		for (unsigned v = 0; v < N; v++) {
			if (((S | W) >> v) & 1) continue;
			bool min = R[v], cand = true;
			for (unsigned w = 0; w < N; w++) if (R[w] && key[w] < key[v]) min = false;
			for (unsigned x = 0; x < N; x++) if (((S >> x) & 1) && cf[x][v]) cand = false;
			if (min && cand) reach3[S | (1u << v)][W] = true;
			if (min && !cand) reach3[S][W | (1u << v)] = true;
		}
		if (!left) reach[S] = true;
	}
}
#else
static void spec_seeds(void)
{
	bool cf[N][N];
	for (unsigned a = 0; a < N; a++) for (unsigned b = 0; b < N; b++) cf[a][b] = isprim[a] && ok[a] && isprim[b] && ok[b] && conf(a, b);
	reach[0] = true;
	for (unsigned S = 0; S < (1u << N); S++) {
		if (!reach[S]) continue;
		bool R[N];
		unsigned key[N];
		for (unsigned v = 0; v < N; v++) {
			R[v] = isprim[v] && ok[v];
			for (unsigned x = 0; x < N; x++) if (((S >> x) & 1) && cf[x][v]) R[v] = false;
		}
		for (unsigned v = 0; v < N; v++) {
			key[v] = 0;
			if (SM == 0) key[v] = v;
			for (unsigned w = 0; w < N; w++) if (w != v) {
				if (SM == 2 && isprim[w] && ok[w] && row[w][v]) key[v]++;
				if ((SM == 4 || (SM == 5 && R[w])) && cf[w][v]) key[v]++;
			}
		}
		for (unsigned v = 0; v < N; v++) {
			if ((S >> v) & 1) continue;
			bool min = R[v];
			for (unsigned w = 0; w < N; w++) if (R[w] && key[w] < key[v]) min = false;
			if (min) reach[S | (1u << v)] = true;
		}
	}
}
#endif
#endif

#if defined(GEO) && (CHK & 128)
/* every cluster has a seed: a primary point with K members within the seed radius; every other member is within the
 * radius that applies to it of the seed or (unless assigned to the closest seed) of a member within the seed radius */
static bool radius_ok(uint64_t nc, const scc_Clabel lab[N])
{
	double r0 = o.seed_supplied_radius;
	double rp = PR == 4 ? r0 : o.primary_supplied_radius, rq = QR == 4 ? r0 : o.secondary_supplied_radius;
	bool all = true;
	for (unsigned c = 0; c < N; c++) {
		if (c >= nc) continue;
		bool some = false;
		for (unsigned s = 0; s < N; s++) {
			if (lab[s] != c || !isprim[s]) continue;
			unsigned near = 0;
			bool good = true;
			for (unsigned p = 0; p < N; p++) if (lab[p] == c && gd[s][p] <= r0 * r0) near++;
			if (near < K) good = false;
			for (unsigned p = 0; p < N; p++) {
				if (lab[p] != c || gd[s][p] <= r0 * r0) continue;
				bool reach = false;
				for (unsigned v = 0; v < N; v++) {
					if (lab[v] != c || gd[s][v] > r0 * r0) continue;
					if (isprim[p] && o.primary_unassigned_method == SCC_UM_ANY_NEIGHBOR && gd[p][v] <= r0 * r0) reach = true;
					if (isprim[p] && o.primary_unassigned_method == SCC_UM_CLOSEST_ASSIGNED && gd[p][v] <= rp * rp) reach = true;
					if (o.secondary_unassigned_method == SCC_UM_CLOSEST_ASSIGNED && gd[p][v] <= rq * rq) reach = true;
				}
				if (isprim[p] && o.primary_unassigned_method == SCC_UM_CLOSEST_SEED && gd[p][s] <= rp * rp) reach = true;
				if (o.secondary_unassigned_method == SCC_UM_CLOSEST_SEED && gd[p][s] <= rq * rq) reach = true;
				if (!reach) good = false;
			}
			if (good) some = true;
		}
		if (!some) all = false;
	}
	return all;
}
#endif

#if defined(GEO) && (CHK & 32)
/* distances between seeds and neighbours from a back end that may fail */
static bool rows_may_fail(void* d, size_t nq, const scc_PointIndex* q, size_t nc, const scc_PointIndex* c, double* out)
{
	vp_assert(q != NULL && c != NULL && out != NULL && nq >= 1 && nc >= 1, "distance rows between listed points");
	if (st_fails()) return false;
	for (size_t i = 0; i < nq; i++) for (size_t j = 0; j < nc; j++) out[i * nc + j] = gx[c[j]] > gx[q[i]] ? gx[c[j]] - gx[q[i]] : gx[q[i]] - gx[c[j]];
	return true;
}
#endif

#ifndef HIST
#define HIST 0
#endif
#if HIST
/* other problems on the same data: a larger size constraint, other methods, refused calls, and (GEO) other data, hierarchy and statistics */
static void other_problems(void* data)
{
	scc_ClusterOptions q = scc_get_default_options();
	scc_Clustering* c = NULL;
	q.size_constraint = 1;
	vp_assert(scc_init_empty_clustering(N, NULL, &c) == SCC_ER_OK, "other object made");
	vp_assert(scc_sc_clustering(data, &q, c) == SCC_ER_INVALID_INPUT, "other problem refused");
	q.size_constraint = K + 1;
	q.seed_method = HIST == 2 ? SCC_SM_EXCLUSION_UPDATING : HIST == 3 ? SCC_SM_BATCHES : SCC_SM_INWARDS_UPDATING;
	q.primary_unassigned_method = HIST == 3 ? SCC_UM_ANY_NEIGHBOR : SCC_UM_CLOSEST_SEED;
	if (HIST != 3) q.secondary_unassigned_method = SCC_UM_CLOSEST_ASSIGNED;
#ifdef GEO
	if (HIST != 3) q.primary_radius = SCC_RM_USE_ESTIMATED;
#endif
	scc_ErrorCode ec = scc_sc_clustering(data, &q, c);
	vp_assert(ec == SCC_ER_OK || (GEOM && ec == SCC_ER_NO_SOLUTION), "other problem solved");
#ifdef GEO
	scc_ClusteringStats st;
	if (ec == SCC_ER_OK) vp_assert(scc_get_clustering_stats(data, c, &st) == SCC_ER_OK, "statistics of other problem");
	static double y[2 * (N + 2)];
	for (unsigned i = 0; i < 2 * (N + 2); i++) y[i] = (double) (i * i % 11);
	scc_DataSet* d2 = NULL;
	scc_Clustering* c2 = NULL;
	vp_assert(scc_init_data_set(N + 2, 2, 2 * (N + 2), y, &d2) == SCC_ER_OK && scc_init_empty_clustering(N + 2, NULL, &c2) == SCC_ER_OK, "other data set made");
	vp_assert(scc_hierarchical_clustering(d2, 2, true, c2) == SCC_ER_OK && scc_get_clustering_stats(d2, c2, &st) == SCC_ER_OK, "other data clustered");
	scc_free_clustering(&c2);
	scc_free_data_set(&d2);
#endif
	scc_free_clustering(&c);
}
#endif

int main(void)
{
#ifdef GEO
	geo_data();
	geo_order();
#elif ORDER == 2
	/* every point has one of ALT fixed pseudo-random orders of closeness */
	uint32_t rnd = 12345u + 7919u * TABLE;
	for (unsigned q = 0; q < N; q++) {
		unsigned pick = vp_choice(ALT);
		for (unsigned a = 0; a < ALT; a++) {
			unsigned perm[N];
			for (unsigned r = 0; r < N; r++) perm[r] = r;
			perm[0] = q; perm[q] = 0;
			for (unsigned r = N - 1; r > 1; r--) {
				rnd = rnd * 1664525u + 1013904223u;
				unsigned j = 1 + (rnd >> 8) % r, x = perm[j];
				perm[j] = perm[r]; perm[r] = x;
			}
			if (pick == a) for (unsigned r = 0; r < N; r++) st_ord[q][r] = perm[r];
		}
	}
#elif ORDER
	st_any_order();
#else
	for (unsigned q = 0; q < N; q++) { unsigned sh = q & 1; for (unsigned r = 0; r < N; r++) st_ord[q][r] = sh ? (q + r) % N : (q + N - r) % N; }
#endif
	build_options();
#ifdef GEO
	if (SR || (PR % 4 && PR < 5) || (QR % 4 && QR < 5)) { geo_radii(PR == 1 || QR == 1, PR == 3 || QR == 3); geo_set_radii(&o); }
#else
	if (SR || PR % 4 || QR % 4) st_any_cut(PR == 1 || QR == 1, PR == 3 || QR == 3);
#endif
	spec_rows();
#ifdef GEO
	scc_DataSet* data = NULL;
	vp_assert(scc_init_data_set(N, DIM, N * DIM, gx, &data) == SCC_ER_OK, "data set made");
#if CHK & 32
	vp_assert(scc_set_dist_functions(NULL, NULL, NULL, rows_may_fail, NULL, NULL, NULL, NULL, NULL, NULL), "distance function registered");
#endif
#else
	int* const data = &st_ds;
	st_register();
#endif
#if CHK & 16
	/* reference: the same problem without a fault */
	scc_Clabel reflab[N];
	scc_Clustering* refcl = NULL;
	vp_assert(scc_init_empty_clustering(N, reflab, &refcl) == SCC_ER_OK, "reference object made");
	scc_ErrorCode refec = scc_sc_clustering(data, &o, refcl);
	uint64_t refnc = 0;
	vp_assert(scc_get_clustering_info(refcl, NULL, &refnc) == SCC_ER_OK, "reference read");
	scc_free_clustering(&refcl);
	vp_allocs = 0;
	vp_fail_at = 1 + vp_choice(MAXA);
#endif
#if CHK & 32
	if (GEOM) st_fail_at = 1 + vp_choice(3);
	else if (vp_choice(2)) st_fail_at = 1 + vp_choice(T ? 10 : 8); else st_badclose = 1 + vp_choice(4);
#endif
	scc_Clabel ext[N];
	scc_Clustering* cl = NULL;
	scc_ErrorCode ec = scc_init_empty_clustering(N, EXT ? ext : NULL, &cl);
#if CHK & 16
	if (ec != SCC_ER_OK) {
		vp_assert(vp_failed && ec == SCC_ER_NO_MEMORY && cl == NULL, "failed construction reports it and leaves nothing behind");
		return 0;
	}
#endif
	vp_assert(ec == SCC_ER_OK && cl != NULL, "clustering object made");
	scc_ClusterOptions o0 = o;
	ec = scc_sc_clustering(data, &o, cl);

	vp_assert(st_open == 0, "every search object that was opened has been closed");
	vp_assert(scc_is_initialized_clustering(cl), "clustering object stays valid");
#if CHK & 16
	vp_assert(ec == refec || (vp_failed && (ec == SCC_ER_NO_MEMORY || (GEOM && ec == SCC_ER_DIST_SEARCH_ERROR))), "a failed allocation is reported or recovered from");
	vp_cover(vp_failed && ec == SCC_ER_NO_MEMORY, "reported failure");
	vp_cover(vp_failed, "allocation failure reached");
	vp_cover(!vp_failed, "no allocation failure");
#endif
#if CHK & 32
	vp_assert(!st_failed || ec == SCC_ER_DIST_SEARCH_ERROR, "a back-end failure is reported as SCC_ER_DIST_SEARCH_ERROR");
	vp_assert(!st_close_failed || ec == SCC_ER_DIST_SEARCH_ERROR || ec == SCC_ER_OK || ec == SCC_ER_NO_SOLUTION, "status after failed close");
	vp_cover(st_failed, "back-end failure reached");
	if (!GEOM) vp_cover(st_close_failed, "failing close reached");
#endif
	bool feasible = false;
	for (unsigned p = 0; p < N; p++) if (isprim[p] && ok[p]) feasible = true;
	bool faulty = vp_failed || st_failed || st_close_failed;
	bool toofew = false, toomany = false;
#if T
	unsigned sum = 0;
	for (unsigned t = 0; t < T; t++) { if (tcount[t] < tc[t]) toofew = true; sum += tc[t]; }
	toomany = sum > K;
#endif
#if CHK & 8
	if (!faulty) {
		if (toofew || toomany)
			vp_assert((toofew && ec == SCC_ER_NO_SOLUTION) || (toomany && ec == SCC_ER_INVALID_INPUT), "infeasible type constraints are rejected with the right code");
#if PR == 5 || QR == 5
		else if (feasible) {
			bool distinct = true, same = true;
			for (unsigned p = 0; p < N; p++) for (unsigned v = 0; v < p; v++) { if (gd[p][v] == 0.0) distinct = false; else same = false; }
			bool used = (PR == 5 && o.primary_unassigned_method != SCC_UM_IGNORE) || (QR == 5 && o.secondary_unassigned_method != SCC_UM_IGNORE);
			vp_assert(ec == SCC_ER_OK || (ec == SCC_ER_NO_SOLUTION && used && !distinct), "a feasible problem is solved");
			vp_assert(ec == SCC_ER_NO_SOLUTION || !used || !same, "an estimated radius of zero is reported as SCC_ER_NO_SOLUTION");
		}
#endif
		else if (feasible)
			vp_assert(ec == SCC_ER_OK, "a feasible problem is solved");
		else
			vp_assert(ec == SCC_ER_NO_SOLUTION, "an infeasible radius is reported as SCC_ER_NO_SOLUTION");
	}
	if (SR) vp_cover(ec == SCC_ER_NO_SOLUTION, "infeasible");
#endif
	uint64_t nd = 0, nc = 0;
	vp_assert(scc_get_clustering_info(cl, &nd, &nc) == SCC_ER_OK && nd == N, "clustering keeps its number of points");
	if (ec == SCC_ER_OK) {
		scc_Clabel lab[N];
		vp_assert(nc >= 1, "successful clustering is not empty");
		vp_assert(scc_get_cluster_labels(cl, N, lab) == SCC_ER_OK, "labels can be read");
#if CHK & 16
		vp_assert(nc == refnc, "a call that succeeds despite a failed allocation gives the full result");
		for (unsigned i = 0; i < N; i++) vp_assert(lab[i] == reflab[i], "a call that succeeds despite a failed allocation gives the full result");
#endif
#if CHK & 1
		vp_assert(nc * K <= N, "no more clusters than the size constraint admits");
		if (EXT) for (unsigned i = 0; i < N; i++) vp_assert(ext[i] == lab[i], "external labels are the clustering's labels");
		unsigned cnt[N] = { 0 };
		for (unsigned i = 0; i < N; i++) {
			vp_assert(lab[i] == SCC_CLABEL_NA || lab[i] < nc, "each label is NA or a cluster");
			if (lab[i] != SCC_CLABEL_NA) cnt[lab[i]]++;
		}
		for (unsigned c = 0; c < N; c++) if (c < nc) vp_assert(cnt[c] >= K, "every cluster has at least size_constraint points");
#ifndef SKIPCOVER
		if (N >= 2 * K) vp_cover(nc == 2, "two clusters");
		vp_cover(nc == 1, "one cluster");
#endif
#endif
#if T && (CHK & 2)
		unsigned ct[N][T];
		for (unsigned c = 0; c < N; c++) for (unsigned t = 0; t < T; t++) ct[c][t] = 0;
		for (unsigned i = 0; i < N; i++) if (lab[i] != SCC_CLABEL_NA) { vp_assert(lab[i] < nc, "label in range"); ct[lab[i]][tl[i]]++; }
		for (unsigned c = 0; c < N; c++) if (c < nc) {
			unsigned s = 0;
			for (unsigned t = 0; t < T; t++) { vp_assert(ct[c][t] >= tc[t], "every cluster satisfies the type constraints"); s += ct[c][t]; }
			vp_assert(s >= K, "every cluster satisfies the overall size constraint");
		}
		vp_cover(nc == 2, "two typed clusters");
		bool eo = false; for (unsigned t = 0; t < T; t++) if (tc[t] == 0) eo = true;
		vp_cover(eo, "an unconstrained type");
		vp_cover(sum < K, "size constraint above the type constraints");
#endif
#if CHK & 4
		bool some = false;
#if CHK & 512
		spec_seeds();
#endif
		for (unsigned m = 1; m < (1u << N); m++) {
			unsigned pc = 0;
			for (unsigned i = 0; i < N; i++) pc += (m >> i) & 1;
			if (pc * K > N) continue;
#if CHK & 512
			if (!reach[m]) continue;
#endif
			if (consistent(m, lab, nc)) { some = true; break; }
		}
#if CHK & 512
		vp_assert(some, "clusters are those of seeds taken in the order of the seed method");
#else
		vp_assert(some, "labels are those of a maximal seed set with the requested assignment of the other points");
#endif
		bool na = false;
		for (unsigned i = 0; i < N; i++) if (lab[i] == SCC_CLABEL_NA) na = true;
		vp_cover(!na, "all assigned");
#endif
#if CHK & 1024
		bool h[N][N], h2[N][N];
		for (unsigned a = 0; a < N; a++) for (unsigned b = 0; b < N; b++) h[a][b] = a == b || row[a][b] || row[b][a];
		for (unsigned a = 0; a < N; a++) for (unsigned b = 0; b < N; b++) {
			h2[a][b] = false;
			for (unsigned c = 0; c < N; c++) if (h[a][c] && h[c][b]) h2[a][b] = true;
		}
		for (unsigned a = 0; a < N; a++) for (unsigned b = 0; b < N; b++) {
			if (lab[a] != lab[b] || lab[a] == SCC_CLABEL_NA) continue;
			bool near = HOPS == 2 && h2[a][b];
			if (HOPS == 4) for (unsigned c = 0; c < N; c++) if (h2[a][c] && h2[c][b]) near = true;
			vp_assert(near, "members of a cluster are close in the nearest neighbour graph");
		}
#endif
#if CHK & 128
		vp_assert(radius_ok(nc, lab), "every member of a cluster is within the radius that applies to it");
#endif
#if CHK & 256
		/* lambda: largest distance in the nearest neighbour graph */
		double l2 = 0.0, d2 = 0.0;
		for (unsigned p = 0; p < N; p++) { double d = gd[p][st_ord[p][K - 1]]; if (d > l2) l2 = d; }
		for (unsigned p = 0; p < N; p++) for (unsigned v = 0; v < p; v++) if (lab[p] == lab[v] && lab[p] != SCC_CLABEL_NA && gd[p][v] > d2) d2 = gd[p][v];
#ifdef TWO
		vp_assert(d2 <= 4.0 * l2, "distances within clusters are at most twice the largest distance in the nearest neighbour graph");
		vp_cover(d2 == 4.0 * l2, "bound attained");
#else
		vp_assert(d2 <= 16.0 * l2, "distances within clusters are at most four times the largest distance in the nearest neighbour graph");
#endif
#endif
#if CHK & 64
		scc_Clabel lab2[N];
		scc_Clustering* cl2 = NULL;
		if (BATCH) o.batch_size = vp_choice(N + 2);   /* the batch size only affects how the work is split up */
		o0.batch_size = o.batch_size;
#if HIST
		other_problems(data);
#endif
		vp_assert(scc_init_empty_clustering(N, NULL, &cl2) == SCC_ER_OK, "second clustering object made");
		vp_assert(scc_sc_clustering(data, &o, cl2) == SCC_ER_OK, "same problem solved again");
		vp_assert(scc_get_cluster_labels(cl2, N, lab2) == SCC_ER_OK, "labels can be read again");
		for (unsigned i = 0; i < N; i++) vp_assert(lab2[i] == lab[i], "same input gives the same clustering");
		scc_free_clustering(&cl2);
		vp_assert(scc_sc_clustering(data, &o, cl) == SCC_ER_NOT_IMPLEMENTED, "refining an existing clustering is refused");
		vp_assert(scc_get_cluster_labels(cl, N, lab2) == SCC_ER_OK, "refused call keeps the clustering");
		for (unsigned i = 0; i < N; i++) vp_assert(lab2[i] == lab[i], "refused call keeps the labels");
#endif
	} else {
		vp_assert(nc == 0, "a failed or rejected call leaves the clustering empty");
	}
#if CHK & 64
	vp_assert(o.size_constraint == o0.size_constraint && o.seed_method == o0.seed_method && o.primary_data_points == o0.primary_data_points
	          && o.len_primary_data_points == o0.len_primary_data_points && o.primary_unassigned_method == o0.primary_unassigned_method
	          && o.secondary_unassigned_method == o0.secondary_unassigned_method && o.seed_radius == o0.seed_radius
	          && o.primary_radius == o0.primary_radius && o.secondary_radius == o0.secondary_radius && o.batch_size == o0.batch_size
	          && o.num_types == o0.num_types && o.options_version == o0.options_version, "options are not modified");
	for (unsigned i = 0, j = 0; i < N; i++) if (PRIM && isprim[i]) { vp_assert(prim[j] == i, "primary points are not modified"); j++; }
#endif
	scc_free_clustering(&cl);
	vp_assert(cl == NULL, "freed object is cleared");
#ifdef GEO
	for (unsigned i = 0; i < N * DIM; i++) vp_assert(gx[i] == gx0[i], "data are not modified");
	scc_free_data_set(&data);
	vp_assert(data == NULL, "freed data set is cleared");
#endif
	vp_assert(vp_live == 0, "all memory has been released");
	return 0;
}
