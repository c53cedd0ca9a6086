/*@unit
property = "P02"
functions = ["hex2raw", "hval"]
lemma = "every string of hex digits of either case decodes to the bytes it denotes (an odd one as if preceded by 0), the size is returned, and exactly the documented buffer is written"
timeout = 200
fuzzlen = 80
let.C = "__CPROVER_POINTER_OFFSET(hex)"
let.O = "__CPROVER_POINTER_OFFSET(out)"
stubs = ["strlen (libc): length of a NUL-terminated string"]
assume = ["hex2raw: the argument is a NUL-terminated string of hex digits, instantiated at the positions read"]
[[loop]]
fn = "hex2raw"
nth = 0
inv = ["__CPROVER_same_object(hex, g_src) && __CPROVER_same_object(out, g_dst) && $C <= g_n && 2*$O == $C + (g_n & 1) && ($C & 1) == (g_n & 1)",
 "vc_k < $O ==> g_dst[vc_k] == g_expect", "$C < g_n ==> g_src[$C] != 0"]
assigns = ["__CPROVER_object_whole(g_dst)"]
decreases = "g_n - $C"
ghost = "$HEX($C) $HEX($C + 1) $HEX($C + 2)"
[macro]
HEX = "if(#1 < g_n) __CPROVER_assume((g_src[#1] >= '0' && g_src[#1] <= '9') || (g_src[#1] >= 'a' && g_src[#1] <= 'f') || (g_src[#1] >= 'A' && g_src[#1] <= 'F'));"
*/
#include "vc.h"
static size_t g_n; static const char *g_src; static unsigned char *g_dst, g_expect;
static int spec_hv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
#ifdef VC_PROOF
size_t stub_strlen(const char *s) { CHECK(s == g_src, "strlen of the argument"); return g_n; }
#define strlen stub_strlen
#endif
#include "src/strlib/hex2raw.c"
#undef strlen
static unsigned char spec_byte(size_t k) {
	if(g_n & 1) return k == 0 ? spec_hv(g_src[0]) : spec_hv(g_src[2*k-1]) << 4 | spec_hv(g_src[2*k]);
	return spec_hv(g_src[2*k]) << 4 | spec_hv(g_src[2*k+1]);
}
void harness(void) {
	VC_INIT();
	g_n = nd_len();
	char *src = vc_mem_hint(g_n + 1, "0123456789abcdefABCDEF");
	unsigned char *dst = vc_alloc((g_n + 1) / 2);
	src[g_n] = 0; g_src = src; g_dst = dst;
#ifdef VC_PROOF
	if(g_n) ASSUME(spec_hv(src[0]) >= 0);
	if(g_n > 1) ASSUME(spec_hv(src[1]) >= 0);
	if(vc_k < (g_n + 1)/2) g_expect = spec_byte(vc_k);
#else
	for(size_t i = 0; i < g_n; i++) if(spec_hv(src[i]) < 0) src[i] = "0123456789abcdefABCDEF"[(unsigned char)src[i] % 22];
#endif
	size_t r = hex2raw(src, dst);
	CHECK(r == (g_n + 1)/2, "returns the number of bytes");
	FORALL(k, (g_n + 1)/2, dst[k] == spec_byte(k), "bytes denoted by the digits");
	REACH("end");
}
