/*@unit
property = "P06"
functions = ["strends"]
lemma = "tells exactly whether the text ends with the given ending"
stubs = ["strlen, strcmp (libc)"]
bunwind = 8
fuzzlen = 32
*/
#include "vc.h"
#include <string.h>
#ifdef VC_PROOF
static const char *g_a, *g_b; static size_t g_na, g_nb; static int g_cmp;
size_t stub_strlen(const char *s) { CHECK(s == g_a || s == g_b, "strlen of an argument"); return s == g_a ? g_na : g_nb; }
int stub_strcmp(const char *x, const char *y) {
	CHECK((y == g_b && x == g_a + (g_na - g_nb)) || (x == g_b && y == g_a + (g_na - g_nb)), "the tail of the text against the ending"); return g_cmp; }
int stub_memcmp(const void *x, const void *y, size_t n) { CHECK(n == g_nb || n == g_nb + 1, "whole ending"); return stub_strcmp(x, y); }
int stub_strncmp(const char *x, const char *y, size_t n) { return stub_memcmp(x, y, n); }
#define strlen stub_strlen
#define strcmp stub_strcmp
#define memcmp stub_memcmp
#define strncmp stub_strncmp
#endif
#include "src/strlib/strends.c"
#undef strlen
#undef strcmp
#undef memcmp
#undef strncmp
void harness(void) {
	size_t n = nd_len(), m = nd_len();
	char *a = vc_mem_hint(n + 1, "ab"), *b = vc_mem_hint(m + 1, "ab"); a[n] = 0; b[m] = 0;
#ifdef VC_PROOF
	g_a = a; g_b = b; g_na = n; g_nb = m; g_cmp = nd_int();
	int e = m <= n && g_cmp == 0;
#else
	n = strlen(a); m = strlen(b);
	int e = m <= n && memcmp(a + n - m, b, m) == 0;
#endif
	CHECK(!!strends(a, b) == e, "exactly whether the tail equals the ending");
	REACH("end");
}
