/* Digraph operations on arbitrary digraphs against the definition on adjacency matrices.
 * N   vertices      MAXD  largest out-degree (arc lists in any order, without repetition)
 * FN  0 delete loops, 1 union and delete, 2 difference, 3 transpose, 4 adjacency product, 5 storage
 *     6 constructors with any number of arcs
 * FAULT 1: one allocation fails
 * With a configuration that limits the number of arcs: an operation fails exactly when its result has too many of them.
 */
#include "include/scclust.h"
#include "src/digraph_core.h"
#include "src/digraph_operations.h"
#include "vp.h"
#ifndef MAXD
#define MAXD N
#endif
#ifndef FAULT
#define FAULT 0
#endif
#ifndef SLACK
#define SLACK 1
#endif
#ifndef LIMITED
#define LIMITED 0
#endif
static void any_digraph(iscc_Digraph* g, bool adj[N][N], scc_PointIndex* list, unsigned* total)
{
	unsigned extra = vp_choice(SLACK + 1);
	vp_assert(iscc_empty_digraph(N, N * MAXD + extra, g) == SCC_ER_OK, "digraph made");
	unsigned w = 0;
	for (unsigned v = 0; v < N; v++) {
		for (unsigned u = 0; u < N; u++) adj[v][u] = false;
		unsigned d = vp_choice(MAXD + 1);
		for (unsigned i = 0; i < MAXD; i++) if (i < d) {
			unsigned u = vp_choice(N);
			vp_assume(!adj[v][u]);
			adj[v][u] = true;
			g->head[w] = u;
			list[w] = u;
			w++;
		}
		g->tail_ptr[v + 1] = w;
	}
	*total = w;
}
static void expect(const iscc_Digraph* g, bool want[N][N])
{
	vp_assert(iscc_digraph_is_initialized(g), "result is initialized");
	vp_assert(iscc_digraph_is_valid(g), "result is a valid digraph");
	vp_assert(g->vertices == N, "result has the same vertices");
	bool got[N][N];
	unsigned total = 0;
	for (unsigned v = 0; v < N; v++) {
		for (unsigned u = 0; u < N; u++) got[v][u] = false;
		for (unsigned i = 0; i < N * N; i++) if (i >= g->tail_ptr[v] && i < g->tail_ptr[v + 1]) {
			vp_assert(g->head[i] < N, "arc heads are vertices");
			vp_assert(!got[v][g->head[i]], "no arc twice");
			got[v][g->head[i]] = true;
		}
		for (unsigned u = 0; u < N; u++) { if (want[v][u]) total++; vp_assert(got[v][u] == want[v][u], "result has exactly the arcs of the definition"); }
	}
	vp_assert(iscc_digraph_is_empty(g) == (total == 0), "emptiness");
	vp_assert(g->tail_ptr[N] == total, "number of arcs");
}
int main(void)
{
#if FN == 6
	iscc_Digraph g = ISCC_NULL_DIGRAPH, e = ISCC_NULL_DIGRAPH;
	uint64_t m = (uint64_t) ISCC_ARCINDEX_MAX - 6 + vp_choice(13);
	if (m > (1u << 20)) return 0;
	scc_ErrorCode e1 = iscc_init_digraph(N, m, &g), e2 = iscc_empty_digraph(N, m, &e);
	vp_assert(e1 == e2 && e1 == (m > ISCC_ARCINDEX_MAX ? SCC_ER_TOO_LARGE_PROBLEM : SCC_ER_OK), "a digraph has at most the number of arcs its types allow");
	if (e1 == SCC_ER_OK) vp_assert(iscc_digraph_is_initialized(&g) && iscc_digraph_is_valid(&e) && iscc_digraph_is_empty(&e), "digraphs made");
	iscc_free_digraph(&g); iscc_free_digraph(&e);
	vp_assert(vp_live == 0, "all memory has been released");
	vp_cover(e1 == SCC_ER_TOO_LARGE_PROBLEM, "too many arcs");
	vp_cover(e1 == SCC_ER_OK, "not too many arcs");
	return 0;
#else
	iscc_Digraph a, b, r = ISCC_NULL_DIGRAPH;
	bool A[N][N], B[N][N], W[N][N];
	scc_PointIndex la[N * MAXD + 1], lb[N * MAXD + 1];
	unsigned na, nb;
	any_digraph(&a, A, la, &na);
#if FN == 1 || FN == 2 || FN == 4
	any_digraph(&b, B, lb, &nb);
#endif
	vp_allocs = 0;
	if (FAULT) vp_fail_at = 1 + vp_choice(5);
	scc_ErrorCode ec = SCC_ER_OK;
	bool made = false;
	for (unsigned v = 0; v < N; v++) for (unsigned u = 0; u < N; u++) W[v][u] = A[v][u];
#if FN == 0
	ec = iscc_delete_loops(&a);
	for (unsigned v = 0; v < N; v++) W[v][v] = false;
#define RES a
#endif
#if FN == 1
	scc_PointIndex keep[N];
	unsigned nk = 0;
	bool usekeep = vp_choice(2), loops = vp_choice(2), k[N];
	for (unsigned v = 0; v < N; v++) { k[v] = vp_choice(2); if (k[v]) keep[nk++] = v; }
	if (nk == 0) usekeep = false;
	iscc_Digraph in[2] = { a, b };
	ec = iscc_digraph_union_and_delete(2, in, usekeep ? nk : 0, usekeep ? keep : NULL, loops, &r);
	for (unsigned v = 0; v < N; v++) for (unsigned u = 0; u < N; u++) W[v][u] = (A[v][u] || B[v][u]) && (loops || u != v) && (!usekeep || k[v]);
#define RES r
	made = true;
#endif
#if FN == 2
	uint32_t max = 1 + vp_choice(N);
	ec = iscc_digraph_difference(&a, &b, max);
	unsigned w = 0;
	for (unsigned v = 0, i = 0; v < N; v++) {
		unsigned d = 0;
		for (unsigned u = 0; u < N; u++) W[v][u] = false;
		unsigned deg = 0;
		for (unsigned u = 0; u < N; u++) if (A[v][u]) deg++;
		for (unsigned j = 0; j < MAXD; j++) if (j < deg) { unsigned u = la[i + j]; if (!B[v][u] && d < max) { W[v][u] = true; d++; } }
		i += deg;
	}
#define RES a
#endif
#if FN == 3
	ec = iscc_digraph_transpose(&a, &r);
	for (unsigned v = 0; v < N; v++) for (unsigned u = 0; u < N; u++) W[v][u] = A[u][v];
#define RES r
	made = true;
#endif
#if FN == 4
	bool loops = vp_choice(2);
	if (na == 0 || nb == 0) return 0;
	ec = iscc_adjacency_product(&a, &b, loops, &r);
	for (unsigned v = 0; v < N; v++) for (unsigned u = 0; u < N; u++) {
		W[v][u] = loops && B[v][u];
		for (unsigned c = 0; c < N; c++) if (A[v][c] && B[c][u]) W[v][u] = true;
		if (u == v) W[v][u] = false;
	}
#define RES r
	made = true;
#endif
#if FN == 5
	unsigned n = na + vp_choice(3);
	ec = iscc_change_arc_storage(&a, n);
	if (ec == SCC_ER_OK) vp_assert(a.max_arcs == n && (n == 0) == (a.head == NULL), "storage has the requested size");
#define RES a
#endif
	if (vp_failed) {
		vp_assert(ec == SCC_ER_NO_MEMORY || ec == SCC_ER_OK, "a failed allocation is reported or recovered from");
		vp_cover(ec == SCC_ER_NO_MEMORY, "allocation failure reached");
	} else {
		unsigned total = 0;
		for (unsigned v = 0; v < N; v++) for (unsigned u = 0; u < N; u++) if (W[v][u]) total++;
#if FN == 5
		total = n;
#endif
		vp_assert(ec == (total > ISCC_ARCINDEX_MAX ? SCC_ER_TOO_LARGE_PROBLEM : SCC_ER_OK), "operation succeeds unless its result has too many arcs");
		if (LIMITED) vp_cover(ec == SCC_ER_TOO_LARGE_PROBLEM, "result has too many arcs");
	}
	if (ec == SCC_ER_OK) {
		expect(&RES, W);
		vp_cover(RES.tail_ptr[N] > 0, "non-empty result");
		if (made) iscc_free_digraph(&r);
	}
#if FN == 1 || FN == 3 || FN == 4
	expect(&a, A);
#endif
	iscc_free_digraph(&a);
	vp_assert(a.head == NULL && a.tail_ptr == NULL && !iscc_digraph_is_initialized(&a), "freed digraph is cleared");
#if FN == 1 || FN == 2 || FN == 4
	expect(&b, B);
	iscc_free_digraph(&b);
#endif
	vp_assert(vp_live == 0, "all memory has been released");
	return 0;
#endif
}
