#include "vp.h"
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <stdio.h>
#include <float.h>
typedef struct { long a; double b; } P2;
typedef struct { int a; int b; float c; } P3;
static P2 mk(long a, double b) { P2 r = { a, b }; return r; }
static P3 mk3(int a, float c) { return (P3) { a, a + 1, c }; }
static _Thread_local int tls;
static int cmpi(const void* x, const void* y) { int a = *(const int*) x, b = *(const int*) y; return (a > b) - (a < b); }
static int irr(int n, int k)
{
	int s = 0;
	if (k == 1) goto mid;
top:
	s += 2;
	if (s > 20) return s;
mid:
	s += n;
	if (s < 15) goto top;
	return s;
}
static int irr2(int n, int k)
{
	int s = 0;
	switch (k) { case 0: goto a; case 1: goto b; default: goto c; }
a: s += 1;
b: s += n;
c: s += 3;
	if (s < 10) goto a;
	if (s < 20) goto b;
	return s;
}
static int duff(int n, int k)
{
	int s = 0, i = (n + 3) / 4;
	switch (n % 4) { case 0: do { s += k; case 3: s += k; case 2: s += k; case 1: s += k; } while (--i > 0); }
	return s;
}
int main(void)
{
	uint32_t k = vp_choice(4), m = vp_choice(3);
	float f = (float) k * 0.1f + (float) 16777216;
	vp_assert(f == 16777216.0f, "f");
	float g = (float) k / 3.0f;
	vp_assert(fabs((double) g - (double) k / 3.0) < 1e-6, "g");
	vp_assert(k == 0 || k == 3 || (double) g != (double) k / 3.0, "g2");
	long double ld = (long double) k * 2.0L;
	vp_assert((double) ld == 2.0 * k, "ld");
	P2 p = mk(k, m); P2 q = k > m ? p : mk(7, 8);
	vp_assert(q.a == (k > m ? (long) k : 7) && q.b == (k > m ? (double) m : 8.0), "agg");
	P3 t = mk3(k, 1.5f); P3 arr[2] = { t, mk3(m, g) };
	vp_assert(arr[1].b == (int) m + 1 && arr[0].c == 1.5f, "agg3");
	tls += k; vp_assert(tls == (int) k, "tls");
	vp_assert(abs((int) m - 2) == 2 - (int) m, "abs");
	int v[4] = { 1, 3, 5, 7 }; int key = 2 * k + 1;
	int* r = bsearch(&key, v, 4, sizeof(int), cmpi);
	vp_assert(r == v + k, "bsearch");
	vp_assert(fmod(k, 2.0) == k % 2, "fmod");
	vp_assert(pow(2.0, k) == (double) (1 << k), "pow");
	vp_assert(fmin(k, m) == (k < m ? k : m), "fmin");
	vp_assert(irr(3, k) >= 15, "irr");
	vp_assert(irr2(3, k) >= 20, "irr2");
	vp_assert(duff(5 + m, k) == (int) ((5 + m) * k), "duff");
	vp_assert(__builtin_popcount(k) == (k == 3 ? 2 : k > 0), "pop");
	int ov; vp_assert(!__builtin_add_overflow((int) k, 5, &ov) && ov == (int) k + 5, "ov");
	unsigned uo; vp_assert(__builtin_sub_overflow(m, k, &uo) == (m < k), "ov2");
	printf("hello %d\n", k); fprintf(stderr, "x\n");
	union { double d; uint64_t u; } u; u.d = k; vp_assert((u.u >> 52) == (k == 0 ? 0 : k == 1 ? 1023 : 1024), "union");
	double x = vp_any_double(); vp_assume(x > 1.0 && x < 2.0);
	u.d = x; vp_assert((u.u >> 52) == 1023, "bits");
	float xf = (float) x; vp_assert(xf >= 1.0f && xf <= 2.0f, "conv");
	vp_cover((double) xf != x, "inexact");
	char buf[20]; strcpy(buf, "ab"); strcat(buf, "cd"); vp_assert(strlen(buf) == 4 && !strcmp(buf, "abcd") && strchr(buf, 'c') == buf + 2, "str");
	static int at; __atomic_fetch_add(&at, k, __ATOMIC_SEQ_CST); vp_assert(at == (int) k, "atomic");
	int vla[k + 1]; for (uint32_t i = 0; i <= k; ++i) vla[i] = i; vp_assert(vla[k] == (int) k, "vla");
	_Bool bb = k & 1; bb ^= 1; vp_assert(bb == (k % 2 == 0), "bool");
	uint8_t u8 = 250; u8 += k * 3; vp_assert(u8 == (uint8_t) (250 + 3 * k), "u8");
	int16_t bf; struct { unsigned a : 3; unsigned b : 5; } bfs = { 1, 2 }; bfs.b = k + m; vp_assert(bfs.b == k + m && bfs.a == 1, "bf");
	vp_cover(1, "end");
	return 0;
}
