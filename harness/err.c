/* Error reporting: scc_get_latest_error describes the most recent failure, after any history of failing and succeeding
 * calls, in a buffer of any length, and never writes beyond the buffer.
 * FN     0 errors raised with arbitrary code, text, file and line     1 errors raised by calls of the public interface
 * STEPS  length of the history     LMAX  largest buffer
 */
#include "include/scclust.h"
#include "src/error.h"
#include "vp.h"
#ifndef STEPS
#define STEPS 2
#endif
#ifndef LMAX
#define LMAX 48
#endif
static char want[160];
static unsigned wlen;
static void put(char c) { if (wlen < sizeof want) want[wlen++] = c; }
static void puts_(const char* s) { for (; *s != 0; ++s) put(*s); }
static void putn(int64_t v)
{
	char t[24];
	unsigned k = 0;
	if (v < 0) { put('-'); v = -v; }
	do { t[k++] = (char) ('0' + v % 10); v /= 10; } while (v > 0);
	while (k > 0) put(t[--k]);
}
static const char* const dflt[8] = { "", "Unkonwn error.", "Function parameters are invalid.", "Cannot allocate required memory.", "Clustering problem has no solution.",
                                     "Clustering problem is too large.", "Failed to calculate distances.", "Functionality not yet implemented." };
static char buf[LMAX + 8];

static void read_back(void)
{
	unsigned len = vp_choice(LMAX + 1);
	bool null = vp_choice(4) == 0;
	for (unsigned i = 0; i < LMAX + 8; i++) buf[i] = 'X';
	bool ok = scc_get_latest_error(len, null ? NULL : buf);
	vp_assert(ok == (len > 0 && !null), "a message is written exactly if there is room for one");
	if (!ok) { for (unsigned i = 0; i < LMAX + 8; i++) vp_assert(buf[i] == 'X', "nothing is written without room"); return; }
	bool end = false;
	for (unsigned i = 0; i < LMAX + 8; i++) {
		if (i >= len) { vp_assert(buf[i] == 'X', "nothing is written beyond the buffer"); continue; }
		if (end) continue;
		if (i + 1 == len || i == wlen) { vp_assert(buf[i] == 0, "message is terminated within the buffer"); end = true; }
		else vp_assert(buf[i] == want[i], "message describes the latest error");
	}
	vp_cover(len <= wlen, "message cut off");
	if (LMAX > 40) vp_cover(len > wlen, "whole message");
}

#if FN == 1
static char first[256], again[256];
static bool same(void) { bool s = true; for (unsigned i = 0; i < 256; i++) { if (first[i] != again[i]) s = false; if (first[i] == 0 || again[i] == 0) break; } return s; }
static bool contains(const char* h, const char* n)
{
	for (; *h != 0; ++h) {
		unsigned i = 0;
		while (n[i] != 0 && h[i] == n[i]) i++;
		if (n[i] == 0) return true;
	}
	return false;
}
static unsigned kind;
static bool fails(unsigned op)
{
	static const double x[4] = { 0, 1, 5, 6 };
	scc_DataSet* d = NULL;
	scc_Clustering* c = NULL;
	scc_ErrorCode ec;
	bool f = false;
	if (op == 0) { ec = scc_init_data_set(0, 1, 4, x, &d); f = true; kind = SCC_ER_INVALID_INPUT; vp_assert(ec == kind, "invalid input reported"); }
	else if (op == 1) { ec = scc_init_data_set(UINT64_MAX, 1, 4, x, &d); f = true; kind = SCC_ER_TOO_LARGE_PROBLEM; vp_assert(ec == kind, "size reported"); }
	else if (op == 2) { vp_fail_at = vp_allocs + 1; ec = scc_init_data_set(4, 1, 4, x, &d); f = true; kind = SCC_ER_NO_MEMORY; vp_assert(ec == kind, "lack of memory reported"); vp_fail_at = 0; }
	else if (op == 3) {
		vp_assert(scc_init_data_set(4, 1, 4, x, &d) == SCC_ER_OK && scc_init_empty_clustering(4, NULL, &c) == SCC_ER_OK, "objects made");
		ec = scc_hierarchical_clustering(d, 5, false, c);
		f = true; kind = SCC_ER_NO_SOLUTION; vp_assert(ec == kind, "no solution reported");
	} else {
		vp_assert(scc_init_data_set(4, 1, 4, x, &d) == SCC_ER_OK && scc_init_empty_clustering(4, NULL, &c) == SCC_ER_OK, "objects made");
		ec = scc_hierarchical_clustering(d, 2, false, c);
		vp_assert(ec == SCC_ER_OK, "clustering succeeds");
	}
	scc_free_data_set(&d);
	scc_free_clustering(&c);
	return f;
}
#endif

int main(void)
{
	puts_("(scclust) No error.");
	read_back();
#if FN == 0
	for (unsigned t = 0; t < STEPS; t++) {
		unsigned op = vp_choice(9);
		if (op == 8) {
			iscc_reset_error();
			wlen = 0; puts_("(scclust) No error.");
		} else if (op > 0) {
			static const int lines[4] = { 1, 57, 1234567, -1 };
			unsigned mk = vp_choice(4);
			const char* msg = mk == 0 ? NULL : mk == 1 ? "" : mk == 2 ? "Bad %s %d." : "A rather long description of what went wrong in this call.";
			const char* file = vp_choice(2) ? "src/f.c" : "g";
			int line = lines[vp_choice(4)];
			scc_ErrorCode ec = iscc_make_error__((scc_ErrorCode) op, msg, file, line);
			vp_assert(ec == (scc_ErrorCode) op, "the code of the error is returned");
			wlen = 0; puts_("(scclust:"); puts_(file); put(':'); putn(line); puts_(") "); puts_(msg == NULL ? dflt[op] : msg);
		}
		read_back();
	}
#else
	bool any = false;
	unsigned prev = 0;
	for (unsigned t = 0; t < STEPS; t++) {
		bool f = fails(vp_choice(5));
		vp_assert(scc_get_latest_error(256, again), "message written");
		if (f) {
			vp_assert(contains(again, "(scclust:") && !contains(again, "No error"), "a failure is described");
			if (kind == SCC_ER_NO_MEMORY) vp_assert(contains(again, "memory"), "lack of memory is described as such");
			if (t > 0 && kind != prev) vp_assert(!same(), "a new failure replaces the description of the previous one");
			prev = kind;
			any = true;
		} else if (t > 0) vp_assert(same(), "a successful call keeps the description of the latest error");
		else vp_assert(contains(again, "No error"), "no error before the first failure");
		for (unsigned i = 0; i < 256; i++) { first[i] = again[i]; if (again[i] == 0) break; }
	}
	vp_cover(any, "failure");
	vp_assert(vp_live == 0, "all memory has been released");
#endif
	return 0;
}
