/*@unit
property = "P06"
functions = ["containsChar"]
lemma = "tells exactly whether the (non-NUL) character occurs in the text; no text contains nothing"
cases = ["-DHAS=0", "-DHAS=1"]
unwind = 1
bunwind = 10
fuzzlen = 32
[[loop]]
fn = "containsChar"
nth = 0
inv = ["__CPROVER_same_object(c, g_s) && $C <= g_n", "HAS ==> $C <= g_m", "$C < g_n ==> g_s[$C] != 0", "vc_k < $C ==> g_s[vc_k] != what"]
decreases = "g_n - $C"
ghost = "if($C + 1 < g_n) __CPROVER_assume(g_s[$C + 1] != 0);"
[let]
C = "__CPROVER_POINTER_OFFSET(c)"
*/
#include "vc.h"
#ifndef HAS
#define HAS 0
#endif
static size_t g_n, g_m; static char *g_s;
#include "src/strlib/containsChar.c"
void harness(void) {
	VC_INIT();
	g_n = nd_len();
	char *s = vc_mem_hint(g_n + 1, "ab"), what = nd_char(); s[g_n] = 0; g_s = s;
	CHECK(containsChar(NULL, what) == 0, "no text");
#ifdef VC_PROOF
	if(g_n) ASSUME(s[0] != 0);
	if(HAS) { g_m = nondet_u64(); ASSUME(g_m < g_n && s[g_m] == what && what); }
	int r = containsChar(s, what);
	if(HAS) CHECK(r == 1, "an occurring character is found");
	else if(!r && vc_k < g_n) CHECK(s[vc_k] != what || !what, "absence is reported only when absent (2)");
	if(r) CHECK(what != 0 && r == 1, "1 for a character that is there");
#else
	int e = 0; for(size_t i = 0; s[i]; i++) if(s[i] == what) e = 1;
	CHECK(containsChar(s, what) == e, "exactly whether it occurs");
#endif
	REACH("end");
}
