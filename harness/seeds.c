/* The seed finding functions on arbitrary nearest neighbour graphs: the list of seeds is one that going through the points
 * in the method's order (any breaking of ties) leads to.
 * N      vertices       D   arcs per vertex (no loops, no repetition, any order of heads unless ASC=1)
 * EMPTY  mask of vertices without arcs (points that cannot be seeds)
 * SM     seed method    CAP  initial room in the seed list (0: any of 1..N)
 * ALT    0: any neighbourhoods; otherwise every vertex has one of ALT pseudo-random ones (SALT selects the table)
 */
#include "include/scclust.h"
#include "src/digraph_core.h"
#include "src/nng_findseeds.h"
#include "vp.h"
#ifndef EMPTY
#define EMPTY 0
#endif
#ifndef ASC
#define ASC 1
#endif
#ifndef CAP
#define CAP 1
#endif
#ifndef ALT
#define ALT 0
#endif
#ifndef SALT
#define SALT 0
#endif
static unsigned rnd = 12345 + 977 * SALT;
static unsigned draw(unsigned n) { rnd = rnd * 1103515245u + 12345u; return (rnd >> 16) % n; }
static bool row[N][N];        /* row[v][u]: u is in v's neighbourhood (the point itself included) */
static bool has[N];
static bool cf[N][N];
int main(void)
{
	iscc_Digraph g;
	vp_assert(iscc_empty_digraph(N, N * D, &g) == SCC_ER_OK, "digraph made");
	unsigned w = 0;
	for (unsigned v = 0; v < N; v++) {
		has[v] = !((EMPTY >> v) & 1);
		for (unsigned u = 0; u < N; u++) row[v][u] = u == v;
#if ALT
		unsigned alt[ALT][D], c = vp_choice(ALT);
		for (unsigned a = 0; a < ALT; a++) {
			bool in[N];
			for (unsigned u = 0; u < N; u++) in[u] = u == v;
			for (unsigned i = 0; i < D; i++) {
				unsigned u = draw(N);
				while (in[u]) u = (u + 1) % N;
				in[u] = true;
				alt[a][i] = u;
			}
		}
		if (has[v]) for (unsigned i = 0; i < D; i++) {
			unsigned u = alt[0][i];
			for (unsigned a = 1; a < ALT; a++) if (c == a) u = alt[a][i];
			row[v][u] = true;
			g.head[w++] = u;
		}
#else
		if (has[v]) for (unsigned i = 0; i < D; i++) {
			unsigned u = vp_choice(N);
			vp_assume(!row[v][u]);
			if (ASC && i > 0) vp_assume(u > g.head[w - 1]);
			row[v][u] = true;
			g.head[w++] = u;
		}
#endif
		g.tail_ptr[v + 1] = w;
	}
	for (unsigned a = 0; a < N; a++) for (unsigned b = 0; b < N; b++) {
		bool c = false;
		for (unsigned x = 0; x < N; x++) if (row[a][x] && row[b][x]) c = true;
		cf[a][b] = has[a] && has[b] && c;
	}
	iscc_SeedResult r = { .capacity = CAP ? CAP : 1 + vp_choice(N), .count = 0, .seeds = NULL };
	vp_assert(iscc_find_seeds(&g, SM, &r) == SCC_ER_OK, "seeds found");
	vp_assert(r.count >= 1 && r.count * (D + 1) <= N, "no more seeds than disjoint neighbourhoods fit");
	bool S[N], cand[N], hit[N];       /* seeds so far; can still be a seed; belongs to a seed's neighbourhood */
	for (unsigned v = 0; v < N; v++) { S[v] = hit[v] = false; cand[v] = has[v]; }
#if SM == 3
	static bool reach[1u << N], next[1u << N];
	reach[0] = true;
#endif
	for (unsigned i = 0; i < N / (D + 1); i++) if (i < r.count) {
		unsigned s = r.seeds[i];
		vp_assert(s < N && cand[s], "a seed's neighbourhood overlaps with no earlier seed's");
#if SM == 3
		bool fine = false;
		for (unsigned W = 0; W < (1u << N); W++) next[W] = false;
		for (unsigned W = 0; W < (1u << N); W++) {
			if ((W & EMPTY) || !reach[W]) continue;
			unsigned key[N];
			bool R[N];
			for (unsigned v = 0; v < N; v++) R[v] = has[v] && !((W >> v) & 1) && !S[v] && !hit[v];
			for (unsigned v = 0; v < N; v++) { key[v] = 0; for (unsigned x = 0; x < N; x++) if (x != v && R[x] && row[x][v]) key[v]++; }
			for (unsigned v = 0; v < N; v++) {
				if ((W >> v) & 1) continue;
				bool min = R[v];
				for (unsigned x = 0; x < N; x++) if (R[x] && key[x] < key[v]) min = false;
				if (min && !cand[v]) reach[W | (1u << v)] = true;
				if (min && v == s) next[W] = fine = true;
			}
		}
		vp_assert(fine, "the next seed has the fewest remaining inwards arcs");
		for (unsigned W = 0; W < (1u << N); W++) reach[W] = next[W];
#else
		unsigned key[N];
		for (unsigned v = 0; v < N; v++) {
			key[v] = SM == 0 ? v : 0;
			for (unsigned x = 0; x < N; x++) if (x != v) {
				if (SM == 2 && has[x] && row[x][v]) key[v]++;
				if ((SM == 4 || (SM == 5 && cand[x])) && cf[x][v]) key[v]++;
			}
		}
		unsigned ks = 0;
		for (unsigned v = 0; v < N; v++) if (v == s) ks = key[v];
		for (unsigned v = 0; v < N; v++) vp_assert(!cand[v] || key[v] >= ks, "the next seed comes first in the order of the method");
#endif
		for (unsigned v = 0; v < N; v++) {
			if (v == s) S[v] = true;
			for (unsigned x = 0; x < N; x++) if (x == s) { if (row[x][v]) hit[v] = true; if (cf[x][v]) cand[v] = false; }
		}
	}
	for (unsigned v = 0; v < N; v++) vp_assert(!cand[v], "no point is left that could be a seed");
	vp_cover(r.count == N / (D + 1), "as many seeds as fit");
	vp_cover(r.count == 1, "a single seed");
	vp_free(r.seeds);
	iscc_free_digraph(&g);
	vp_assert(vp_live == 0, "all memory has been released");
	return 0;
}
