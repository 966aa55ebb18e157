/* Runtime shared by symbolic and native mode: allocation layer with fault injection,
 * qsort as specified by C (any sorted permutation; implemented as insertion sort). */
#include "vp.h"
#include <stdlib.h>
#include <string.h>

uint32_t vp_live, vp_allocs, vp_fail_at;
bool vp_failed;

static bool fails(void)
{
	vp_allocs++;
	if (vp_fail_at != 0 && vp_allocs == vp_fail_at) { vp_failed = true; return true; }
	return false;
}
void* vp_malloc(size_t n)
{
	if (fails()) return NULL;
	void* p = malloc(n);
	if (p != NULL) vp_live++;
	return p;
}
void* vp_calloc(size_t n, size_t m)
{
	if (fails()) return NULL;
	void* p = calloc(n, m);
	if (p != NULL) vp_live++;
	return p;
}
#ifdef VP_SYM
void* vp_realloc_(void* p, size_t n);
void* vp_realloc(void* p, size_t n)
{
	if (p == NULL) return vp_malloc(n);
	if (fails()) return NULL;
	return vp_realloc_(p, n);
}
#else
void* vp_realloc(void* p, size_t n)
{
	if (p == NULL) return vp_malloc(n);
	if (fails()) return NULL;
	/* always move, so that stale pointers are visible to ASan */
	void* q = realloc(p, n ? n : 1);
	return q;
}
#endif
void vp_free(void* p)
{
	if (p == NULL) return;
	vp_live--;
	free(p);
}
void vp_qsort(void* base, size_t n, size_t sz, int (*cmp)(const void*, const void*))
{
	char* b = base;
	char tmp[64];
	for (size_t i = 1; i < n; ++i) {
		size_t j = i;
		memcpy(tmp, b + i * sz, sz);
		while (j > 0 && cmp(b + (j - 1) * sz, tmp) > 0) {
			memcpy(b + j * sz, b + (j - 1) * sz, sz);
			--j;
		}
		memcpy(b + j * sz, tmp, sz);
	}
}
