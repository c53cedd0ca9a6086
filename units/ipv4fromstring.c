/*@unit
property = "P05"
functions = ["ipv4fromstring"]
lemma = "for a string of any length and content: accepted exactly when it has at least four dot-separated parts; each of the first four parts, whole and in order, is converted and stored as its byte; only four bytes are written, nothing is read past the terminator"
unwind = 1
bunwind = 12
bound = 8
timeout = 120
fuzzlen = 64
let.C = "__CPROVER_POINTER_OFFSET(ipstring)"
let.S = "__CPROVER_POINTER_OFFSET(start)"
stubs = ["strtoint (its own contract: unit strtoint); arbitrary result here"]
[[loop]]
fn = "ipv4fromstring"
nth = 0
inv = ["__CPROVER_same_object(ipstring, g_s) && __CPROVER_same_object(start, g_s) && $C <= g_n + 1 && outbyte <= 4",
 "outbyte < 4 ==> ($C <= g_n && outbyte == g_dots && $S <= $C && $S == g_next)", "outbyte == 4 ==> g_dots >= 3", "g_calls == outbyte",
 "(vc_k2 >= $S && vc_k2 < $C && outbyte < 4) ==> g_s[vc_k2] != '.'",
 "(vc_k < outbyte && vc_k < 4) ==> fourbytesptr[vc_k] == g_val[vc_k]"]
assigns = ["__CPROVER_object_whole(fourbytesptr)", "g_dots", "g_calls", "g_next", "__CPROVER_object_whole(g_val)"]
decreases = "g_n + 2 - $C"
ghost = "if(g_s[$C] == '.') g_dots++; "
*/
#include "vc.h"
static size_t g_n, g_dots, g_calls, g_next; static char *g_s; static unsigned char g_val[4];
#ifdef VC_PROOF
int stub_strtoint(char *str, size_t len) {
	size_t o = __CPROVER_POINTER_OFFSET(str);
	CHECK(__CPROVER_same_object(str, g_s) && o <= g_n && len <= g_n - o, "part inside the string");
	CHECK(g_s[o + len] == '.' || g_s[o + len] == 0, "part ends at a dot or the end");
	CHECK(o == g_next, "parts are consecutive");
	CHECK(!(vc_k2 >= o && vc_k2 < o + len) || g_s[vc_k2] != '.', "no dot inside a part");
	int r = (int) nondet_u64();
	CHECK(g_calls < 4, "four parts");
	if(g_calls < 4) { g_val[g_calls] = (unsigned char) r; }
	g_next = o + len + 1; g_calls++;
	return r;
}
#define strtoint stub_strtoint
#endif
#include "src/strlib/ipv4fromstring.c"
#undef strtoint
void harness(void) {
	VC_INIT();
	g_n = nd_len();
	unsigned char *out = vc_alloc(4); char *s = vc_mem_hint(g_n + 1, "0123456789...."); s[g_n] = 0; g_s = s;
	g_dots = 0; g_calls = 0; g_next = 0;
	int r = ipv4fromstring(s, out);
#ifdef VC_PROOF
	CHECK(r == (g_dots >= 3), "accepted exactly when three dots precede the end");
	if(r && vc_k < 4) { CHECK(g_calls == 4 && out[vc_k] == g_val[vc_k], "each byte is the value of its part"); }
#else
	size_t d = 0; for(size_t i = 0; s[i]; i++) d += s[i] == '.';
	CHECK(r == (d >= 3), "accepted exactly when three dots precede the end");
	if(r) {
		size_t i = 0;
		for(int k = 0; k < 4; k++) {
			unsigned v = 0; int num = 1;
			for(; s[i] && s[i] != '.'; i++) { if(s[i] < '0' || s[i] > '9' || v > 1000000) num = 0; v = v * 10 + (s[i] - '0'); }
			if(num) CHECK(out[k] == (unsigned char) v, "each byte is the value of its part");
			i++;
		}
	}
#endif
	REACH("end");
}
