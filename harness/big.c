/* Problems large enough for the code's own limits on work per step (samples, chunks, growing buffers) to matter. The data are
 * fixed but for a few symbolic choices; the back end answers in time linear in the number of points.
 * FN  0 scc_hierarchical_clustering of NP points on a line    1 scc_sc_clustering with an estimated radius and PAIRS seeds (VARY > 0: distances differ between pairs)
 *     2 scc_sc_clustering of NP points with the built-in distances, seed method SM (all ways of assigning remaining points)
 *     3 scc_sc_clustering when all points have the same nearest neighbour, seed method SM
 *     4 scc_check_clustering and reading labels with clusters of NP points     5 scc_sc_clustering with NP types
 *     6 built-in distance functions on NP points, KK neighbours      7 digraph operations with NP vertices, one of out-degree and in-degree near NP
 *     8 scc_get_clustering_stats with a cluster of NP points
 * NP KK SPAN   number of points; size constraint is any of KK .. KK + SPAN - 1
 * OLD          0: from an empty clustering, C>0: from a clustering with C clusters
 * AGAIN        1: the same call once more in the same process
 * LINE         0 points in pseudo-random order on a line, 1 distances between consecutive points double, closest last, 2 the same, closest first
 */
#include "include/scclust.h"
#include "include/scclust_spi.h"
#include "vp.h"
#ifndef SPAN
#define SPAN 1
#endif
#ifndef OLD
#define OLD 0
#endif
#ifndef VARY
#define VARY 0
#endif
#ifndef AGAIN
#define AGAIN 0
#endif
#ifndef LINE
#define LINE 0
#endif
static int bg_ds;
static bool bg_check(void* d) { return d == (void*) &bg_ds; }
#if FN == 0
static double pos[NP];
static size_t bg_num(void* d) { return NP; }
static double gap(unsigned a, unsigned b) { return pos[a] > pos[b] ? pos[a] - pos[b] : pos[b] - pos[a]; }
static struct { size_t len; const scc_PointIndex* idx; } mo;
static bool bg_minit(void* d, size_t len, const scc_PointIndex* i, iscc_MaxDistObject** o) { mo.len = len; mo.idx = i; *o = (iscc_MaxDistObject*) (void*) &mo; return true; }
static bool bg_mclose(iscc_MaxDistObject** o) { *o = NULL; return true; }
static bool bg_mget(iscc_MaxDistObject* o, size_t n, const scc_PointIndex* q, scc_PointIndex* p, double* d)
{
	vp_assert(n >= 1 && n <= NP, "number of queries is between one and the number of points");
	vp_valid_write(p, (uint64_t) n * sizeof(scc_PointIndex));
	vp_valid_write(d, (uint64_t) n * sizeof(double));
	scc_PointIndex lo = mo.idx ? mo.idx[0] : 0, hi = lo;
	for (size_t j = 1; j < mo.len; j++) { scc_PointIndex c = mo.idx ? mo.idx[j] : (scc_PointIndex) j; if (pos[c] < pos[lo]) lo = c; if (pos[c] > pos[hi]) hi = c; }
	for (size_t j = 0; j < n; j++) { unsigned c = q ? q[j] : j; p[j] = gap(c, lo) > gap(c, hi) ? lo : hi; d[j] = gap(c, p[j]); }
	return true;
}
static bool bg_rows(void* d, size_t n, const scc_PointIndex* q, size_t m, const scc_PointIndex* c, double* out)
{
	vp_valid_write(out, (uint64_t) n * m * sizeof(double));
	for (size_t a = 0; a < n; a++) for (size_t b = 0; b < m; b++) *out++ = gap(q ? q[a] : a, c ? c[b] : b);
	return true;
}
static bool bg_matrix(void* d, size_t n, const scc_PointIndex* q, double* out) { return false; }
static scc_Clabel lab[NP], was[NP];
static unsigned size[NP];
static scc_Clabel from[NP];
static void run(uint32_t k, bool batch, unsigned shift)
{
	scc_Clustering* cl = NULL;
	for (unsigned i = 0; i < NP; i++) pos[i] = LINE ? 0.0 : (double) ((i * 7919u + shift) % 10007u);
	if (LINE) { double x = 1.0; for (unsigned i = NP; i > 0; i--, x *= 2.0) pos[i - 1] = x + (i == 1 + shift ? 0.0 : 1.0); }
	pos[NP - 1] = LINE ? (double) vp_choice(3) / 4.0 : 11000.0 + (double) vp_choice(3);      /* stays the outermost point */
	if (LINE == 2) for (unsigned i = 0; i < NP / 2; i++) { double t = pos[i]; pos[i] = pos[NP - 1 - i]; pos[NP - 1 - i] = t; }
	for (unsigned i = 0; i < NP; i++) was[i] = OLD ? i % (OLD ? OLD : 1) : 0;
	vp_assert((OLD ? scc_init_existing_clustering(NP, OLD, was, true, &cl) : scc_init_empty_clustering(NP, NULL, &cl)) == SCC_ER_OK, "clustering made");
	vp_assert(scc_hierarchical_clustering(&bg_ds, k, batch, cl) == SCC_ER_OK, "clustered");
	uint64_t nc = 0;
	vp_assert(scc_get_clustering_info(cl, NULL, &nc) == SCC_ER_OK && nc >= 1 && nc <= NP, "number of clusters");
	vp_assert(scc_get_cluster_labels(cl, NP, lab) == SCC_ER_OK, "labels can be read");
	for (unsigned c = 0; c < NP; c++) size[c] = 0;
	for (unsigned i = 0; i < NP; i++) {
		vp_assert(lab[i] < nc, "every point is in a cluster");
		if (size[lab[i]]++ == 0) from[lab[i]] = was[i];
		vp_assert(from[lab[i]] == was[i], "clusters are parts of the clusters started from");
	}
	for (unsigned c = 0; c < nc; c++) vp_assert(size[c] >= k && size[c] < 2 * k, "cluster sizes are from the size constraint to twice it minus one");
	vp_cover(nc > 1, "clusters are split");
	scc_free_clustering(&cl);
	vp_assert(vp_live == 0, "all memory has been released");
}
int main(void)
{
	vp_assert(scc_set_dist_functions(bg_check, bg_num, bg_matrix, bg_rows, bg_minit, bg_mget, bg_mclose, NULL, NULL, NULL), "SPI registration accepted");
	unsigned k = vp_choice(SPAN), s = vp_choice(2);
	bool batch = vp_choice(2);
	/* one execution per combination: the loops over the points then have concrete bounds */
	for (unsigned a = 0; a < SPAN; a++) for (unsigned b = 0; b < 4; b++) if (k == a && s == (b & 1) && batch == (b > 1)) run(KK + a, b > 1, b & 1);
	return 0;
}
#elif FN == 1
/* PAIRS pairs of points, d apart within a pair, and the points of one more pair at distance x from their closest point */
#define NP (2 * PAIRS + 2)
static double d, x;
static unsigned objs;
static struct { size_t len; const scc_PointIndex* idx; } so[64];
static size_t bg_num(void* z) { return NP; }
static bool searched;
static double radius;
static unsigned round;
static bool bg_rows(void* z, size_t n, const scc_PointIndex* q, size_t m, const scc_PointIndex* c, double* out)
{
	vp_valid_write(out, (uint64_t) n * m * sizeof(double));
	for (size_t a = 0; a < n; a++) for (size_t b = 0; b < m; b++) {
		size_t p = q ? q[a] : a, r = c ? c[b] : b;
		*out++ = p == r ? 0.0 : p / 2 == r / 2 && p < 2 * PAIRS ? d + (double) (VARY ? p / 2 % VARY : 0) : p >= 2 * PAIRS || r >= 2 * PAIRS ? x : 100.0;
	}
	return true;
}
static bool bg_matrix(void* z, size_t n, const scc_PointIndex* q, double* out) { return false; }
static bool bg_ninit(void* z, size_t len, const scc_PointIndex* i, iscc_NNSearchObject** o) { objs %= 64; so[objs].len = len; so[objs].idx = i; *o = (iscc_NNSearchObject*) (void*) &so[objs++]; return true; }
static bool bg_nclose(iscc_NNSearchObject** o) { *o = NULL; return true; }
static bool bg_nn(iscc_NNSearchObject* o, size_t n, const scc_PointIndex* q, uint32_t k, bool rs, double r, size_t* nok, scc_PointIndex* oq, scc_PointIndex* out)
{
	vp_valid_write(out, (uint64_t) n * k * sizeof(scc_PointIndex));
	if (!rs) {
		vp_assert(k == 2, "nearest neighbours of points");
		/* the pair left over: closest are the points of the last pair, so neither can be a seed */
		for (size_t i = 0; i < n; i++) { size_t p = q ? q[i] : i; *out++ = p; *out++ = p < 2 * PAIRS ? p ^ 1 : p - 2; if (oq) oq[i] = p; }
		*nok = n;
	} else {
		searched = true;
		vp_assert(k == 1, "closest cluster is searched");
		vp_assert(VARY ? r >= d && r <= d + VARY : r == d, "the estimated radius is the average distance between seeds and their neighbours");
		if (round > 0) vp_assert(r == radius, "the same estimate every time");
		radius = r;
		size_t w = 0;
		for (size_t i = 0; i < n; i++) {
			size_t p = q ? q[i] : i;
			if (p < 2 * PAIRS) { out[w] = p; oq[w++] = p; }
			else if (x <= r) { out[w] = p - 2; oq[w++] = p; }
		}
		*nok = w;
	}
	return true;
}
static scc_Clabel lab[NP];
static void run(unsigned c)
{
	d = (double) (1u << c);
	searched = false;
	for (unsigned i = 0; i < NP; i++) lab[i] = 77;
	scc_ClusterOptions o = scc_get_default_options();
	o.size_constraint = 2;
	o.seed_method = SCC_SM_LEXICAL;
	o.primary_unassigned_method = SCC_UM_CLOSEST_ASSIGNED;
	o.primary_radius = SCC_RM_USE_ESTIMATED;
	o.secondary_unassigned_method = SCC_UM_IGNORE;
	scc_Clustering* cl = NULL;
	vp_assert(scc_init_empty_clustering(NP, NULL, &cl) == SCC_ER_OK, "clustering made");
	vp_assert(scc_sc_clustering(&bg_ds, &o, cl) == SCC_ER_OK, "clustered");
	vp_assert(searched, "points left over are searched for a cluster");
	vp_assert(scc_get_cluster_labels(cl, NP, lab) == SCC_ER_OK, "labels can be read");
	uint64_t nc = 0;
	vp_assert(scc_get_clustering_info(cl, NULL, &nc) == SCC_ER_OK && nc == PAIRS, "every pair is a cluster");
	for (unsigned i = 0; i < PAIRS; i++) vp_assert(lab[2 * i] == lab[2 * i + 1] && lab[2 * i] < PAIRS, "pairs stay together");
	for (unsigned i = 2 * PAIRS; i < NP; i++) vp_assert(lab[i] == (x <= radius ? lab[i - 2] : SCC_CLABEL_NA), "points left over join the closest cluster within the radius");
	scc_free_clustering(&cl);
	vp_assert(vp_live == 0, "all memory has been released");
}
int main(void)
{
	vp_assert(scc_set_dist_functions(bg_check, bg_num, bg_matrix, bg_rows, NULL, NULL, NULL, bg_ninit, bg_nn, bg_nclose), "SPI registration accepted");
	unsigned c = vp_choice(3);
	x = (double) (1 + vp_choice(6));
	for (unsigned t = 0; t < 1 + AGAIN; t++) { if (c == 0) run(0); else if (c == 1) run(1); else run(2); round++; }
	return 0;
}
#elif FN == 2
static double x[2 * NP];
static scc_Clabel lab[NP];
static unsigned size[NP];
static double sq(unsigned a, unsigned b) { return (x[2 * a] - x[2 * b]) * (x[2 * a] - x[2 * b]) + (x[2 * a + 1] - x[2 * b + 1]) * (x[2 * a + 1] - x[2 * b + 1]); }
static void run(scc_UnassignedMethod um, bool est)
{
	for (unsigned i = 0; i < NP; i++) { x[2 * i] = (double) (i * 7919u % 10007u); x[2 * i + 1] = (double) (i * 104729u % 4001u); }
	x[2 * NP - 1] = 20000.0 + (double) vp_choice(3);       /* far from the others */
	scc_DataSet* ds = NULL;
	scc_Clustering* cl = NULL;
	scc_ClusterOptions o = scc_get_default_options();
	o.size_constraint = KK;
	o.seed_method = SM;
	o.primary_unassigned_method = um;
	if (est) o.primary_radius = SCC_RM_USE_ESTIMATED;
	vp_assert(scc_init_data_set(NP, 2, 2 * NP, x, &ds) == SCC_ER_OK && scc_init_empty_clustering(NP, NULL, &cl) == SCC_ER_OK, "objects made");
	vp_assert(scc_sc_clustering(ds, &o, cl) == SCC_ER_OK, "clustered");
	uint64_t nc = 0;
	vp_assert(scc_get_clustering_info(cl, NULL, &nc) == SCC_ER_OK && nc >= 1 && nc <= NP / KK, "number of clusters");
	vp_assert(scc_get_cluster_labels(cl, NP, lab) == SCC_ER_OK, "labels can be read");
	for (unsigned i = 0; i < NP; i++) {
		if (lab[i] == SCC_CLABEL_NA) { vp_assert(um == SCC_UM_IGNORE || est, "every point is assigned"); continue; }
		vp_assert(lab[i] < nc, "labels are clusters");
		size[lab[i]]++;
	}
	for (unsigned c = 0; c < nc; c++) vp_assert(size[c] >= KK && (um != SCC_UM_IGNORE || size[c] == KK), "every cluster has the required size");
	if (um == SCC_UM_IGNORE) {
		/* each cluster is a point and its closest ones */
		for (unsigned c = 0; c < nc; c++) {
			bool some = false;
			for (unsigned a = 0; a < NP && !some; a++) if (lab[a] == c) {
				double far = 0.0;
				unsigned closer = 0;
				for (unsigned b = 0; b < NP; b++) if (lab[b] == c && sq(a, b) > far) far = sq(a, b);
				for (unsigned b = 0; b < NP; b++) if (sq(a, b) < far) closer++;
				if (closer < KK) some = true;
			}
			vp_assert(some, "clusters are seeds with their nearest neighbours");
		}
	}
	bool fine = false;
	o.primary_data_points = NULL;
	vp_assert(scc_check_clustering(cl, &o, &fine) == SCC_ER_OK && fine, "the clustering is fine");
	scc_ClusteringStats st;
	vp_assert(scc_get_clustering_stats(ds, cl, &st) == SCC_ER_OK && st.min_cluster_size >= KK && st.num_populated_clusters == nc, "statistics");
	scc_free_clustering(&cl);
	scc_free_data_set(&ds);
	vp_assert(vp_live == 0, "all memory has been released");
}
int main(void)
{
	unsigned m = vp_choice(6);
	if (m == 0) run(SCC_UM_IGNORE, false);
	else if (m == 1) run(SCC_UM_ANY_NEIGHBOR, false);
	else if (SM == 1) return 0;
	else if (m == 2) run(SCC_UM_CLOSEST_ASSIGNED, false);
	else if (m == 3) run(SCC_UM_CLOSEST_SEED, false);
	else if (m == 4) run(SCC_UM_CLOSEST_ASSIGNED, true);
	else run(SCC_UM_CLOSEST_SEED, true);
	return 0;
}
#elif FN == 3
/* every point's nearest neighbour is point hub, whose nearest neighbour is point NP - 1 */
static unsigned hub;
static size_t bg_num(void* z) { return NP; }
static struct { int a; } so;
static bool bg_ninit(void* z, size_t len, const scc_PointIndex* i, iscc_NNSearchObject** o) { *o = (iscc_NNSearchObject*) (void*) &so; return true; }
static bool bg_nclose(iscc_NNSearchObject** o) { *o = NULL; return true; }
static bool bg_nn(iscc_NNSearchObject* o, size_t n, const scc_PointIndex* q, uint32_t k, bool rs, double r, size_t* nok, scc_PointIndex* oq, scc_PointIndex* out)
{
	vp_assert(!rs && k == 2, "nearest neighbours of points");
	vp_valid_write(out, (uint64_t) n * k * sizeof(scc_PointIndex));
	for (size_t i = 0; i < n; i++) { size_t p = q ? q[i] : i; *out++ = p; *out++ = p == hub ? NP - 1 : hub; if (oq) oq[i] = p; }
	*nok = n;
	return true;
}
static scc_Clabel lab[NP];
static void run(void)
{
	scc_ClusterOptions o = scc_get_default_options();
	o.size_constraint = 2;
	o.seed_method = SM;
	o.batch_size = SM == 1 ? 1000 : 0;
	scc_Clustering* cl = NULL;
	vp_assert(scc_init_empty_clustering(NP, NULL, &cl) == SCC_ER_OK && scc_sc_clustering(&bg_ds, &o, cl) == SCC_ER_OK, "clustered");
	uint64_t nc = 0;
	vp_assert(scc_get_clustering_info(cl, NULL, &nc) == SCC_ER_OK && nc == 1, "all neighbourhoods overlap, so there is one cluster");
	vp_assert(scc_get_cluster_labels(cl, NP, lab) == SCC_ER_OK, "labels can be read");
	for (unsigned i = 0; i < NP; i++) vp_assert(lab[i] == 0, "every point joins the cluster of its neighbour");
	scc_free_clustering(&cl);
	vp_assert(vp_live == 0, "all memory has been released");
}
int main(void)
{
	vp_assert(scc_set_dist_functions(bg_check, bg_num, NULL, NULL, NULL, NULL, NULL, bg_ninit, bg_nn, bg_nclose), "SPI registration accepted");
	if (vp_choice(2)) { hub = 0; run(); } else { hub = NP / 2; run(); }
	return 0;
}
#elif FN == 4
/* the first NP points in one cluster, the last three in another or unassigned */
static scc_Clabel lab[NP + 3], out[NP + 4];
static scc_TypeLabel tl[NP + 3];
int main(void)
{
	unsigned second = 0, typed = 0;
	for (unsigned i = 0; i < 3; i++) { bool in = vp_choice(2); lab[NP + i] = in ? 1 : SCC_CLABEL_NA; second += in; tl[NP + i] = (scc_TypeLabel) vp_choice(2); typed += in && tl[NP + i] == 0; }
	scc_Clustering* cl = NULL;
	vp_assert(scc_init_existing_clustering(NP + 3, 2, lab, true, &cl) == SCC_ER_OK, "clustering made");
	scc_ClusterOptions o = scc_get_default_options();
	o.size_constraint = 2;
	bool fine = false;
	vp_assert(scc_check_clustering(cl, &o, &fine) == SCC_ER_OK && fine == (second >= 2), "verdict by cluster sizes");
	uint32_t tc[2] = { 1, 0 };
	o.num_types = 2; o.type_constraints = tc; o.type_labels = tl; o.len_type_labels = NP + 3;
	vp_assert(scc_check_clustering(cl, &o, &fine) == SCC_ER_OK && fine == (second >= 2 && typed >= 1), "verdict by types");
	out[NP + 3] = 7;
	vp_assert(scc_get_cluster_labels(cl, NP + 3, out) == SCC_ER_OK && out[NP + 3] == 7, "labels can be read");
	for (unsigned i = 0; i < NP + 3; i++) vp_assert(out[i] == lab[i], "labels are the ones given");
	vp_cover(fine, "fine");
	scc_free_clustering(&cl);
	vp_assert(vp_live == 0, "all memory has been released");
	return 0;
}
#elif FN == 5
/* two points of each of NP types; the first type, the last one and one in the middle are required */
#define P (2 * NP)
static double x[P];
static scc_TypeLabel tl[P];
static uint32_t tc[NP];
static scc_Clabel lab[P];
static unsigned has[P][3];
static void run(unsigned extra)
{
	for (unsigned i = 0; i < P; i++) { x[i] = (double) (i * 7919u % 10007u); tl[i] = (scc_TypeLabel) (i % NP); }
	x[P - 1] = 20000.0 + (double) vp_choice(3);
	const unsigned need[3] = { 0, NP / 2 + 1, NP - 1 };
	for (unsigned j = 0; j < 3; j++) tc[need[j]] = 1;
	scc_DataSet* ds = NULL;
	scc_Clustering* cl = NULL;
	scc_ClusterOptions o = scc_get_default_options();
	o.size_constraint = 3 + extra;
	o.num_types = NP; o.type_constraints = tc; o.type_labels = tl; o.len_type_labels = P;
	vp_assert(scc_init_data_set(P, 1, P, x, &ds) == SCC_ER_OK && scc_init_empty_clustering(P, NULL, &cl) == SCC_ER_OK, "objects made");
	vp_assert(scc_sc_clustering(ds, &o, cl) == SCC_ER_OK, "clustered");
	uint64_t nc = 0;
	vp_assert(scc_get_clustering_info(cl, NULL, &nc) == SCC_ER_OK && nc >= 1 && nc <= 2, "number of clusters");
	vp_assert(scc_get_cluster_labels(cl, P, lab) == SCC_ER_OK, "labels can be read");
	for (unsigned i = 0; i < P; i++) for (unsigned j = 0; j < 3; j++) if (lab[i] != SCC_CLABEL_NA && tl[i] == need[j]) has[lab[i]][j]++;
	for (unsigned c = 0; c < nc; c++) for (unsigned j = 0; j < 3; j++) vp_assert(has[c][j] >= 1, "every cluster satisfies the type constraints");
	bool fine = false;
	vp_assert(scc_check_clustering(cl, &o, &fine) == SCC_ER_OK && fine, "the clustering is fine");
	tc[need[2]] = 3;
	o.size_constraint = 5;
	vp_assert(scc_check_clustering(cl, &o, &fine) == SCC_ER_OK && !fine, "unmet constraint of the last type");
	scc_free_clustering(&cl);
	scc_free_data_set(&ds);
	vp_assert(vp_live == 0, "all memory has been released");
}
int main(void)
{
	if (vp_choice(2)) run(0); else run(4);
	return 0;
}
#elif FN == 7
#include "src/digraph_core.h"
#include "src/digraph_operations.h"
/* every vertex has arcs to the hub and to itself; the hub has arcs to all vertices but two */
static unsigned hub;
static iscc_Digraph a, b, r;
static bool mark[NP];
static void make(iscc_Digraph* g, unsigned skip)
{
	vp_assert(iscc_empty_digraph(NP, 3 * NP, g) == SCC_ER_OK, "digraph made");
	iscc_ArcIndex w = 0;
	for (unsigned v = 0; v < NP; v++) {
		if (v == hub) { for (unsigned u = NP; u > 0; u--) if (u - 1 != skip && u - 1 != hub / 2) g->head[w++] = u - 1; }
		else { g->head[w++] = hub; g->head[w++] = v; }
		g->tail_ptr[v + 1] = w;
	}
}
static bool arc(unsigned skip, unsigned v, unsigned u) { return v == hub ? u != skip && u != hub / 2 : u == hub || u == v; }
static bool want(unsigned op, unsigned v, unsigned u)
{
	const bool A = arc(0, v, u), B = arc(3, v, u);
	if (op == 0) return A && u != v;
	if (op == 1) return A || B;
	/* difference: at most NP - 20 of the hub's arcs, the first ones listed (from the last vertex on) */
	if (op == 2) return v == hub ? A && u < NP - 2 && u != 3 && NP - 3 - u - (hub / 2 > u) - (3 > u) < NP - 20 : v == 0 && u == 0;
	if (op == 3) return arc(0, u, v);
	if (u == v) return false;                                     /* product: arcs of a followed by arcs of b */
	return v == hub ? u != hub / 2 : u == hub || (u != 3 && u != hub / 2);
}
static void run(unsigned op)
{
	make(&a, 0);
	make(&b, 3);
	iscc_Digraph* o = &a;
	if (op == 0) vp_assert(iscc_delete_loops(&a) == SCC_ER_OK, "loops deleted");
	else if (op == 1) { iscc_Digraph in[2] = { a, b }; vp_assert(iscc_digraph_union_and_delete(2, in, 0, NULL, true, &r) == SCC_ER_OK, "union"); o = &r; }
	else if (op == 2) {
		/* what is taken away: the first two arcs of the hub in a; all arcs of other vertices but the loop of vertex 0 */
		iscc_free_digraph(&b);
		vp_assert(iscc_empty_digraph(NP, 3 * NP, &b) == SCC_ER_OK, "digraph made");
		iscc_ArcIndex w = 0;
		for (unsigned v = 0; v < NP; v++) {
			if (v == hub) { b.head[w++] = NP - 1; b.head[w++] = NP - 2; b.head[w++] = 3; } else { b.head[w++] = hub; if (v != 0) b.head[w++] = v; }
			b.tail_ptr[v + 1] = w;
		}
		vp_assert(iscc_digraph_difference(&a, &b, NP - 20) == SCC_ER_OK, "difference");
	} else if (op == 3) { vp_assert(iscc_digraph_transpose(&a, &r) == SCC_ER_OK, "transpose"); o = &r; }
	else { vp_assert(iscc_adjacency_product(&a, &b, false, &r) == SCC_ER_OK, "product"); o = &r; }
	vp_assert(iscc_digraph_is_valid(o) && o->vertices == NP, "result is a valid digraph");
	for (unsigned v = 0; v < NP; v++) {
		unsigned n = 0;
		for (iscc_ArcIndex i = o->tail_ptr[v]; i < o->tail_ptr[v + 1]; i++) {
			unsigned u = o->head[i];
			vp_assert(u < NP && !mark[u] && want(op, v, u), "arcs are those of the definition, once each");
			mark[u] = true; n++;
		}
		for (iscc_ArcIndex i = o->tail_ptr[v]; i < o->tail_ptr[v + 1]; i++) mark[o->head[i]] = false;
		unsigned m = 0;
		if (op < 4 && v != hub) m = want(op, v, v) + want(op, v, hub);
		else for (unsigned u = 0; u < NP; u++) m += want(op, v, u);
		vp_assert(n == m, "no arc of the definition is missing");
	}
	iscc_free_digraph(&a);
	iscc_free_digraph(&b);
	if (o == &r) iscc_free_digraph(&r);
	vp_assert(vp_live == 0, "all memory has been released");
}
int main(void)
{
	const unsigned ops = NP < 2000 ? 5 : 4;
	unsigned op = vp_choice(ops), h = vp_choice(2);
	for (unsigned t = 0; t < 2 * ops; t++) if (op == t / 2 && h == t % 2) { hub = t % 2 ? NP - 1 : 8; run(t / 2); }
	return 0;
}
#elif FN == 8
/* NP points in one cluster, five in another, and three that are in either one or unassigned */
#define P (NP + 8)
static double x[P];
static scc_Clabel lab[P];
static bool near(double a, double b) { double d = a > b ? a - b : b - a, m = a < 0 ? -a : a; return d <= 1e-9 * (m + 1.0); }
int main(void)
{
	for (unsigned i = 0; i < P; i++) { x[i] = (double) (i * 7919u % 10007u); lab[i] = i < NP ? 1 : 0; }
	lab[P - 1] = vp_choice(2) ? 1 : SCC_CLABEL_NA;
	x[P - 1] = 20000.0 + (double) vp_choice(2);
	scc_DataSet* ds = NULL;
	scc_Clustering* cl = NULL;
	scc_ClusteringStats s;
	vp_assert(scc_init_data_set(P, 1, P, x, &ds) == SCC_ER_OK && scc_init_existing_clustering(P, 3, lab, false, &cl) == SCC_ER_OK, "objects made");
	vp_assert(scc_get_clustering_stats(ds, cl, &s) == SCC_ER_OK, "statistics are calculated");
	double sum[2] = { 0, 0 }, min[2] = { 1e9, 1e9 }, max[2] = { 0, 0 };
	for (unsigned i = 0; i < P; i++) for (unsigned j = 0; j < i; j++) if (lab[i] == lab[j] && lab[i] != SCC_CLABEL_NA) {
		unsigned c = i < NP ? 1 : i == P - 1 ? 1 : 0;
		double d = x[i] > x[j] ? x[i] - x[j] : x[j] - x[i];
		sum[c] += d;
		if (d < min[c]) min[c] = d;
		if (d > max[c]) max[c] = d;
	}
	unsigned n1 = NP + (lab[P - 1] == 1), n0 = 7;
	double m0 = sum[0] / (n0 * (n0 - 1) / 2), m1 = sum[1] / ((double) n1 * (n1 - 1) / 2);
	vp_assert(s.num_data_points == P && s.num_clusters == 3 && s.num_assigned == n0 + n1 && s.num_populated_clusters == 2, "counts");
	vp_assert(s.min_cluster_size == n0 && s.max_cluster_size == n1 && near(s.avg_cluster_size, (n0 + n1) / 2.0), "cluster sizes");
	vp_assert(near(s.sum_dists, sum[0] + sum[1]), "sum of within-cluster distances");
	vp_assert(s.min_dist == (min[0] < min[1] ? min[0] : min[1]) && s.max_dist == (max[0] > max[1] ? max[0] : max[1]), "smallest and largest within-cluster distance");
	vp_assert(near(s.avg_min_dist, (min[0] + min[1]) / 2) && near(s.avg_max_dist, (max[0] + max[1]) / 2), "average of the clusters' smallest and largest distances");
	vp_assert(near(s.avg_dist_weighted, (n0 * m0 + n1 * m1) / (n0 + n1)) && near(s.avg_dist_unweighted, (m0 + m1) / 2), "average distances");
	scc_free_clustering(&cl);
	scc_free_data_set(&ds);
	vp_assert(vp_live == 0, "all memory has been released");
	return 0;
}
#else
#include "src/dist_search_imp.h"
static double x[NP];
static scc_PointIndex nn[KK * 3 + 1], idx[NP], ok[4], q[3] = { 1, NP / 2, NP - 1 };
static double d2(unsigned a, unsigned b) { return (x[a] - x[b]) * (x[a] - x[b]); }
static void run(bool rs, bool lists)
{
	for (unsigned i = 0; i < NP; i++) { x[i] = (double) (i * 7919u % 10007u); idx[i] = (scc_PointIndex) (NP - 1 - i); }
	x[NP - 1] = 20000.0 + (double) vp_choice(3);
	scc_DataSet* ds = NULL;
	iscc_NNSearchObject* so = NULL;
	vp_assert(scc_init_data_set(NP, 1, NP, x, &ds) == SCC_ER_OK && iscc_imp_init_nn_search_object(ds, NP, lists ? idx : NULL, &so), "objects made");
	size_t nok = 9;
	nn[3 * KK] = 77;
	const double radius = 9000.0;
	vp_assert(iscc_imp_nearest_neighbor_search(so, 3, q, KK, rs, radius, &nok, rs ? ok : NULL, nn), "search succeeds");
	vp_assert(nn[3 * KK] == 77, "nothing written beyond the buffer");
	unsigned w = 0;
	for (unsigned i = 0; i < 3; i++) {
		unsigned within = 0;
		for (unsigned p = 0; p < NP; p++) if (d2(q[i], p) <= radius * radius) within++;
		if (rs && within < KK) continue;
		vp_assert(w < nok && (!rs || ok[w] == q[i]), "queries with enough points within the radius are answered");
		unsigned closer = 0;
		for (unsigned j = 0; j < KK; j++) {
			vp_assert(nn[w * KK + j] < NP, "neighbours are points");
			if (j > 0) vp_assert(d2(q[i], nn[w * KK + j - 1]) <= d2(q[i], nn[w * KK + j]), "closest first");
		}
		for (unsigned p = 0; p < NP; p++) if (d2(q[i], p) < d2(q[i], nn[w * KK + KK - 1])) closer++;
		vp_assert(closer < KK, "no closer point is left out");
		w++;
	}
	vp_assert(w == nok, "number of answered queries");
	vp_assert(iscc_imp_close_nn_search_object(&so), "closed");
	scc_free_data_set(&ds);
	vp_assert(vp_live == 0, "all memory has been released");
}
int main(void)
{
	unsigned m = vp_choice(4);
	if (m == 0) run(false, false); else if (m == 1) run(true, false); else if (m == 2) run(false, true); else run(true, true);
	return 0;
}
#endif
