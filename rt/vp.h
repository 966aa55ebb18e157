/* Harness interface. The same harness file is executed symbolically by engine/vse
 * (all inputs symbolic, vp_* inputs and checks are engine built-ins) and compiled
 * natively for replaying a counterexample (inputs read from a file). */
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>

uint32_t vp_choice(uint32_t n);   /* any value in 0..n-1 (value-set encoded)          */
uint8_t vp_any_u8(void);          /* any 8-bit value  (bit-vector term)               */
uint32_t vp_any_u32(void);
uint64_t vp_any_u64(void);
double vp_any_double(void);       /* any IEEE double (floating-point term)            */
void vp_assume(bool c);
void vp_assert_(bool c, const char* msg);
void vp_cover_(bool c, const char* msg);
void vp_print(const char* msg, uint64_t v);
void vp_valid_write(void* p, uint64_t bytes);
#define vp_assert(c, msg) vp_assert_((c), (msg))
#define vp_cover(c, msg) vp_cover_((c), (msg))

/* allocation layer under the code being checked */
void* vp_malloc(size_t n);
void* vp_calloc(size_t n, size_t m);
void* vp_realloc(void* p, size_t n);
void vp_free(void* p);
extern uint32_t vp_live;          /* heap blocks currently allocated by the code      */
extern uint32_t vp_allocs;        /* allocation requests so far                       */
extern uint32_t vp_fail_at;       /* 1-based index of the request that fails; 0: none */
extern bool vp_failed;            /* an injected failure has happened                 */
void vp_qsort(void* base, size_t n, size_t sz, int (*cmp)(const void*, const void*));
#endif
