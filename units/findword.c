/*@unit
property = "P06"
functions = ["findword"]
lemma = "returns the first upper-cased match that is delimited on both sides (start or end of the text, blank or punctuation), and nothing when there is none"
cases = ["-DMATCH=0", "-DMATCH=1"]
unwind = 1
bunwind = 10
bound = 5
timeout = 200
fuzzlen = 48
let.B = "__CPROVER_POINTER_OFFSET(buf)"
let.R = "__CPROVER_POINTER_OFFSET(res)"
stubs = ["strstr_uc (contract proved in unit strstr_uc)"]
[[loop]]
fn = "findword"
nth = 0
inv = ["__CPROVER_same_object(buf, g_h) && $B <= g_n && __CPROVER_same_object(res, g_h) && $R <= g_n", "MATCH ==> ($B <= g_m && *res != 0)", "$B > 0 ==> ($R < g_n && $B == $R + 1)", "$B == 0 ==> $R == 0"]
assigns = []
decreases = "g_n + 1 - $B"
*/
#include "vc.h"
#ifndef MATCH
#define MATCH 0
#endif
static size_t g_n, g_m, g_l; static char *g_h, *g_w;
static int spec_lead(char c) { return c == ' ' || c == '\t' || c == '\n' || c == ':' || c == ',' || c == '.' || c == ';' || c == '-'; }
static int spec_trail(char c) { return spec_lead(c) || c == '\r'; }
static char spec_uc(char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
#ifdef VC_PROOF
#include "include/strlib.h"
/* contract of strstr_uc: a match inside the text at or after the start, and not after any match */
char *stub_strstr_uc(char *h, char *w, size_t l) {
	size_t o = __CPROVER_POINTER_OFFSET(h), p = nondet_u64();
	CHECK(__CPROVER_same_object(h, g_h) && o <= g_n && w == g_w && l == g_l, "search for the word in the rest of the text");
	if(!(MATCH && o <= g_m) && nondet_u8()) return NULL;
	ASSUME(p >= o && p <= g_n && l <= g_n - p && p < g_n && IMPLIES(MATCH && o <= g_m, p <= g_m) && g_h[p] != 0);
	if(vc_k < l) ASSUME(spec_uc(g_h[p + vc_k]) == w[vc_k]);
	return g_h + p;
}
#define strstr_uc stub_strstr_uc
#endif
#include "src/strlib/findword.c"
#undef strstr_uc
static int spec_at(const char *h, size_t n, size_t p, const char *w, size_t l) {
	if(p + l > n) return 0;
	for(size_t i = 0; i < l; i++) if(w[i] != spec_uc(h[p+i])) return 0;
	return (p == 0 || spec_lead(h[p-1])) && (h[p+l] == 0 || spec_trail(h[p+l]));
}
void harness(void) {
	VC_INIT();
	g_n = nd_len();
#ifdef VC_PROOF
	size_t l = nd_len1();
#else
	size_t l = nd_range(1, 3);
#endif
	char *h = vc_mem_hint(g_n + 1, "aAbB ,.-\r\t"), *w = vc_mem_hint(l, "AAB"); h[g_n] = 0; g_h = h; g_w = w; g_l = l;
#ifdef VC_PROOF
	if(MATCH) {   /* an arbitrary delimited match exists at g_m */
		g_m = nondet_u64(); ASSUME(l <= g_n && g_m <= g_n - l); ASSUME(h[g_m] != 0 && h[0] != 0);
		ASSUME(g_m == 0 || spec_lead(h[g_m-1])); ASSUME(h[g_m+l] == 0 || spec_trail(h[g_m+l]));
	}
	char *r = findword(h, w, l);
	if(MATCH) CHECK(r != NULL && __CPROVER_same_object(r, h) && __CPROVER_POINTER_OFFSET(r) <= g_m, "a delimited match is not missed, and no later one is preferred");
	if(r) {
		size_t o = __CPROVER_POINTER_OFFSET(r);
		CHECK(__CPROVER_same_object(r, h) && o <= g_n && l <= g_n - o, "the match lies inside the text");
		CHECK((o == 0 || spec_lead(h[o-1])) && (h[o+l] == 0 || spec_trail(h[o+l])), "the match is delimited");
		if(vc_k < l) CHECK(w[vc_k] == spec_uc(h[o + vc_k]), "the word matches");
	}
#else
	for(size_t i = 0; i < g_n; i++) if(!h[i]) h[i] = 'a';
	for(size_t i = 0; i < l; i++) if(!w[i] || (w[i] >= 'a' && w[i] <= 'z')) w[i] = 'A';
	char *r = findword(h, w, l); size_t p;
	for(p = 0; p <= g_n; p++) if(spec_at(h, g_n, p, w, l)) break;
	CHECK(r == (p <= g_n ? h + p : NULL), "first delimited match, or none");
#endif
	REACH("end");
}
