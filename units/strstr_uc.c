/*@unit
property = "P06"
functions = ["strstr_uc"]
lemma = "returns the first position at which the pattern (letters of the text taken as upper case) matches inside the text, and nothing when there is none; never reads past the terminator"
cases = ["-DMATCH=0", "-DMATCH=1"]
unwind = 1
bunwind = 8
bound = 5
timeout = 200
fuzzlen = 48
let.C = "__CPROVER_POINTER_OFFSET(haystack)"
let.V = "__CPROVER_POINTER_OFFSET(save)"
assume = ["strstr_uc: needle holds needlesize non-NUL characters; completeness half: a match at an arbitrary position, instantiated at the characters compared"]
[[loop]]
fn = "strstr_uc"
nth = 0
inv = ["__CPROVER_same_object(haystack, g_h) && $C <= g_n", "MATCH ==> $C <= g_m", "$C < g_n ==> g_h[$C] != 0"]
decreases = "g_n - $C"
ghost = "$NZ($C) $NZ($C + 1)"
[[loop]]
fn = "strstr_uc"
nth = 1
inv = ["i <= needlesize && __CPROVER_same_object(haystack, g_h) && __CPROVER_same_object(save, g_h) && $V < g_n && $C == $V + i && $C <= g_n",
 "vc_k < i ==> (needle[vc_k] == $UC(g_h[$V + vc_k]))", "MATCH ==> $V <= g_m"]
decreases = "needlesize - i"
ghost = "$NZ($C) if(MATCH && $V == g_m) __CPROVER_assume(needle[i] == $UC(g_h[$C]));"
[macro]
NZ = "if(#1 < g_n) __CPROVER_assume(g_h[#1] != 0);"
UC = "(#1 >= 'a' && #1 <= 'z' ? #1 - 32 : #1)"
*/
#include "vc.h"
#ifndef MATCH
#define MATCH 0
#endif
static size_t g_n, g_m; static char *g_h;
static char spec_uc(char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
#include "src/strlib/isLower.c"
#include "src/strlib/strstr_uc.c"
#ifndef VC_PROOF
static int spec_match(const char *h, size_t n, size_t p, const char *nd, size_t l) {
	if(p + l > n) return 0;
	for(size_t i = 0; i < l; i++) if(nd[i] != spec_uc(h[p+i])) return 0;
	return 1;
}
#endif
void harness(void) {
	VC_INIT();
	g_n = nd_len();
#ifdef VC_PROOF
	size_t l = nd_len1();
#else
	size_t l = nd_range(1, 4);
#endif
	char *h = vc_mem_hint(g_n + 1, "aaABbc"), *nd = vc_mem_hint(l, "AABC"); h[g_n] = 0; g_h = h;
	CHECK(strstr_uc(NULL, nd, l) == NULL && strstr_uc(h, NULL, l) == NULL && strstr_uc(h, nd, 0) == NULL, "nothing to search");
#ifdef VC_PROOF
	if(g_n) ASSUME(h[0] != 0);
	if(MATCH) { g_m = nondet_u64(); ASSUME(l <= g_n && g_m <= g_n - l); ASSUME(h[g_m] != 0); }
	char *r = strstr_uc(h, nd, l);
	if(MATCH) CHECK(r != NULL && __CPROVER_same_object(r, h) && __CPROVER_POINTER_OFFSET(r) <= g_m, "a match is not missed, and no later one is preferred");
	if(r) {
		size_t o = __CPROVER_POINTER_OFFSET(r);
		CHECK(__CPROVER_same_object(r, h) && o <= g_n && l <= g_n - o, "the match lies inside the text");
		if(vc_k < l) CHECK(nd[vc_k] == spec_uc(h[o + vc_k]), "the pattern matches at the returned position");
	}
#else
	for(size_t i = 0; i < g_n; i++) if(!h[i]) h[i] = 'a';
	for(size_t i = 0; i < l; i++) if(!nd[i]) nd[i] = 'a';
	char *r = strstr_uc(h, nd, l); size_t p;
	for(p = 0; p <= g_n; p++) if(spec_match(h, g_n, p, nd, l)) break;
	CHECK(r == (p <= g_n ? h + p : NULL), "first matching position, or none");
#endif
	REACH("end");
}
