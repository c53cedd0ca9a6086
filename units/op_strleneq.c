/*@unit
property = "P27"
functions = ["strleneq"]
lemma = "gives the position of the first equals sign of a text, 0 when there is none, and reads no further than its terminator"
timeout = 100
unwind = 1
[[loop]]
fn = "strleneq"
nth = 0
inv = ["str == g_s + l && l <= g_n && (vc_k < l ==> g_s[vc_k] != 0 && g_s[vc_k] != '=')"]
assigns = ["str, l"]
decreases = "g_n - l"
*/
#include "vc.h"
static const char *g_s; static size_t g_n;
#include "src/optparser/op_get.c"
void harness(void) {
	VC_INIT(); g_n = nd_len(); char *s = vc_mem(g_n + 1); s[g_n] = 0; g_s = s;
	size_t l = strleneq(s);
	CHECK(l <= g_n, "inside the text");
#ifdef VC_PROOF
	if(l) { CHECK(s[l] == '=', "an equals sign"); if(vc_k < l) CHECK(s[vc_k] != '=' && s[vc_k] != 0, "the first"); }
#else
	size_t e = 0; while(s[e] && s[e] != '=') e++; CHECK(l == (s[e] ? e : 0), "the first equals sign");
#endif
	REACH("end");
}
