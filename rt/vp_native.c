/* Native side of the harness interface: replays the inputs of a solver model against the
 * compiled library. Inputs come from the file named by VP_INPUTS ("c 3" / "u 7" / "d bits"). */
#include "vp.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static FILE* in;
static bool opened, ended;
static uint64_t next(char kind)
{
	if (!opened) {
		opened = true;
		const char* f = getenv("VP_INPUTS");
		if (f != NULL) in = fopen(f, "r");
	}
	char k; unsigned long long v;
	if (in == NULL || ended || fscanf(in, " %c %llu", &k, &v) != 2) { ended = true; return 0; }
	if (k != kind) { fprintf(stderr, "VP-INPUT-MISMATCH %c %c\n", k, kind); fflush(stderr); _Exit(44); }
	return v;
}
uint32_t vp_choice(uint32_t n)
{
	uint64_t v = next('c');
	if (v >= n) { fprintf(stderr, "VP-INPUT-RANGE %llu %u\n", (unsigned long long) v, n); fflush(stderr); _Exit(44); }
	return (uint32_t) v;
}
uint8_t vp_any_u8(void) { return (uint8_t) next('u'); }
uint32_t vp_any_u32(void) { return (uint32_t) next('u'); }
uint64_t vp_any_u64(void) { return next('u'); }
double vp_any_double(void) { uint64_t v = next('d'); double d; memcpy(&d, &v, 8); return d; }
void vp_assume(bool c) { if (!c) { fprintf(stderr, "VP-ASSUME-FALSE\n"); fflush(stderr); _Exit(43); } }
void vp_assert_(bool c, const char* msg) { if (!c) { fprintf(stderr, "VP-ASSERT-FAIL: %s\n", msg); fflush(stderr); _Exit(42); } }
void vp_cover_(bool c, const char* msg) { if (c) { fprintf(stderr, "VP-COVER: %s\n", msg); fflush(stderr); } }
void vp_print(const char* msg, uint64_t v) { fprintf(stderr, "VP-PRINT: %s %llu\n", msg, (unsigned long long) v); }
void vp_valid_write(void* p, uint64_t n)
{
	/* touch the range so that the sanitizers see an undersized buffer (densely at first, sparsely in huge ranges) */
	volatile char* c = p;
	for (uint64_t i = 0; i < n; i += i < 65536 ? 1 : i / 16) c[i] = c[i];
	if (n > 0) c[n - 1] = c[n - 1];
}
