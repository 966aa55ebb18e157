/* force-included in front of every file of the code under check */
#ifndef VP_LIB_H
#define VP_LIB_H
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
void* vp_malloc(size_t n);
void* vp_calloc(size_t n, size_t m);
void* vp_realloc(void* p, size_t n);
void vp_free(void* p);
void vp_qsort(void* base, size_t n, size_t sz, int (*cmp)(const void*, const void*));
#define malloc vp_malloc
#define calloc vp_calloc
#define realloc vp_realloc
#define free vp_free
#define qsort vp_qsort
#ifdef VP_SYM
int vp_snprintf(char* buf, size_t n, const uint64_t* args);
#define VP_A1(a) (uint64_t) (uintptr_t) (a)
#define VP_A2(a, ...) (uint64_t) (uintptr_t) (a), VP_A1(__VA_ARGS__)
#define VP_A3(a, ...) (uint64_t) (uintptr_t) (a), VP_A2(__VA_ARGS__)
#define VP_A4(a, ...) (uint64_t) (uintptr_t) (a), VP_A3(__VA_ARGS__)
#define VP_A5(a, ...) (uint64_t) (uintptr_t) (a), VP_A4(__VA_ARGS__)
#define VP_A6(a, ...) (uint64_t) (uintptr_t) (a), VP_A5(__VA_ARGS__)
#define VP_A7(a, ...) (uint64_t) (uintptr_t) (a), VP_A6(__VA_ARGS__)
#define VP_PICK(a, b, c, d, e, f, g, h, ...) h
#define VP_ARGS(...) VP_PICK(__VA_ARGS__, VP_A7, VP_A6, VP_A5, VP_A4, VP_A3, VP_A2, VP_A1)(__VA_ARGS__)
#undef snprintf
#undef sprintf
/* args[0] is the format string */
#define snprintf(buf, n, ...) vp_snprintf(buf, n, (const uint64_t[]){ VP_ARGS(__VA_ARGS__) })
#define sprintf(buf, ...) vp_snprintf(buf, ((size_t) -1) / 2, (const uint64_t[]){ VP_ARGS(__VA_ARGS__) })
#endif
#endif
