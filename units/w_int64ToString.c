/*@unit
property = "P03"
functions = ["int64ToString"]
lemma = "the wrapper asks for the decimal numeral of its argument, signed types with sign, width chosen by the converter; no buffer, no result"
stubs = ["numberToString (proved in unit numberToString)"]
fuzzlen = 16
*/
#include "vc.h"
#include "include/strlib.h"
#ifdef VC_CBMC
static uint64_t g_n; static unsigned g_base; static size_t g_max; static int g_fl, g_calls; static char *g_b;
char *numberToString(uint64_t n, unsigned base, char *buffer, size_t maxlen, int flags) {
	g_n = n; g_base = base; g_max = maxlen; g_fl = flags; g_b = buffer; g_calls++; return buffer + 1;
}
#else
#include <stdio.h>
#endif
#include "src/strlib/int64ToString.c"
void harness(void) {
	int64_t n = (int64_t) nd_u64(); char *buf = vc_alloc(22);
	CHECK(int64ToString(n, NULL) == NULL, "no buffer, no result");
	char *r = int64ToString(n, buf);
#ifdef VC_CBMC
	CHECK(g_calls == 1 && r == buf + 1 && g_b == buf, "one conversion into the buffer");
	CHECK(g_base == 10 && g_max == 0 && !(g_fl & NTS_PAD), "decimal, natural width");
	CHECK(g_n == (uint64_t)(int64_t) n, "of the number itself");
	CHECK(1 ? (g_fl & NTS_SIGNED_TYPE) != 0 : (!(g_fl & NTS_SIGNED_TYPE) || n >> (sizeof n * 8 - 1) == 0 || sizeof n < 8), "with the sign of its type");
#else
	char exp[32]; snprintf(exp, 32, 1 ? "%lld" : "%llu", (long long) n);
	CHECK(!strcmp(r, exp), "decimal text");
#endif
	REACH("end");
}
