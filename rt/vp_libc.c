/* C library functions for symbolic mode, as specified by C99 (only what library code may call). */
#include <stddef.h>
#include <stdint.h>

size_t strlen(const char* s) { size_t n = 0; while (s[n] != 0) ++n; return n; }
int strcmp(const char* a, const char* b)
{
	for (; *a != 0 && *a == *b; ++a, ++b) { }
	return (int) (unsigned char) *a - (int) (unsigned char) *b;
}
int strncmp(const char* a, const char* b, size_t n)
{
	for (; n > 0; --n, ++a, ++b) {
		if (*a != *b) return (int) (unsigned char) *a - (int) (unsigned char) *b;
		if (*a == 0) break;
	}
	return 0;
}
int memcmp(const void* x, const void* y, size_t n)
{
	const unsigned char* a = x; const unsigned char* b = y;
	for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return (int) a[i] - (int) b[i];
	return 0;
}
char* strncpy(char* d, const char* s, size_t n)
{
	size_t i = 0;
	for (; i < n && s[i] != 0; ++i) d[i] = s[i];
	for (; i < n; ++i) d[i] = 0;
	return d;
}
char* strcpy(char* d, const char* s) { size_t i = 0; do { d[i] = s[i]; } while (s[i++] != 0); return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n)
{
	size_t k = strlen(d), i = 0;
	for (; i < n && s[i] != 0; ++i) d[k + i] = s[i];
	d[k + i] = 0;
	return d;
}
char* strchr(const char* s, int c) { for (;; ++s) { if (*s == (char) c) return (char*) s; if (*s == 0) return 0; } }
char* strrchr(const char* s, int c) { const char* r = 0; for (;; ++s) { if (*s == (char) c) r = s; if (*s == 0) return (char*) r; } }
char* strstr(const char* s, const char* t) { size_t n = strlen(t); for (;; ++s) { if (strncmp(s, t, n) == 0) return (char*) s; if (*s == 0) return 0; } }
void* memchr(const void* x, int c, size_t n)
{
	const unsigned char* a = x;
	for (size_t i = 0; i < n; ++i) if (a[i] == (unsigned char) c) return (void*) (a + i);
	return 0;
}
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
long long llabs(long long x) { return x < 0 ? -x : x; }
void* bsearch(const void* key, const void* base, size_t n, size_t sz, int (*cmp)(const void*, const void*))
{
	const char* b = base;
	while (n > 0) {
		const char* m = b + (n / 2) * sz;
		int c = cmp(key, m);
		if (c == 0) return (void*) m;
		if (c > 0) { b = m + sz; n -= n / 2 + 1; } else n /= 2;
	}
	return 0;
}
float fmaxf(float a, float b) { return (a != a) ? b : (b != b) ? a : (a < b) ? b : a; }
float fminf(float a, float b) { return (a != a) ? b : (b != b) ? a : (a < b) ? a : b; }
double fmax(double a, double b) { return (a != a) ? b : (b != b) ? a : (a < b) ? b : a; }
double fmin(double a, double b) { return (a != a) ? b : (b != b) ? a : (a < b) ? a : b; }

static void put(char* buf, size_t n, size_t* len, char c) { if (*len + 1 < n) buf[*len] = c; ++*len; }
int vp_snprintf(char* buf, size_t n, const uint64_t* args)
{
	const char* fmt = (const char*) (uintptr_t) *args++;
	size_t len = 0;
	for (; *fmt != 0; ++fmt) {
		if (*fmt != '%') { put(buf, n, &len, *fmt); continue; }
		++fmt;
		bool_again:
		if (*fmt == 'z' || *fmt == 'l' || *fmt == 'j') { ++fmt; goto bool_again; }
		if (*fmt == '%') { put(buf, n, &len, '%'); continue; }
		uint64_t a = *args++;
		if (*fmt == 's') {
			for (const char* s = (const char*) (uintptr_t) a; *s != 0; ++s) put(buf, n, &len, *s);
		} else if (*fmt == 'c') {
			put(buf, n, &len, (char) a);
		} else {
			if (*fmt != 'u' && (int64_t) a < 0) { put(buf, n, &len, '-'); a = -a; }
			char tmp[24]; int k = 0;
			do { tmp[k++] = (char) ('0' + a % 10); a /= 10; } while (a != 0);
			while (k > 0) put(buf, n, &len, tmp[--k]);
		}
	}
	if (n > 0) buf[len < n ? len : n - 1] = 0;
	return (int) len;
}
