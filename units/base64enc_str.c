/*@unit
property = "P01"
functions = ["base64enc_str"]
lemma = "the string encoder agrees with the encoder whenever the buffer suffices, says so, and otherwise stays inside the buffer and terminates what it wrote"
timeout = 240
fuzzlen = 80
let.O = "__CPROVER_POINTER_OFFSET(d)"
let.C = "__CPROVER_POINTER_OFFSET(s)"
[[loop]]
fn = "base64enc_str"
nth = 0
inv = [
 "__CPROVER_same_object(s, g_src) && __CPROVER_same_object(d, g_dst) && $C <= g_n && $O <= g_dl",
 "l == g_dl - $O && $O % 4 == 0",
 "(3*$O == 4*$C && $O <= g_full) || ($C == g_n && $O == g_full)",
 "4*g_q + g_r < $O ==> g_dst[4*g_q + g_r] == g_expect",
 "$O > 0 ==> g_dl > $O",
 "$C < g_n ==> g_src[$C] != 0",
]
assigns = ["__CPROVER_object_whole(dst)"]
decreases = "g_n - $C"
ghost = """
__CPROVER_assume(!($C < g_n) || g_src[$C] != 0);
__CPROVER_assume(!($C + 1 < g_n) || g_src[$C + 1] != 0);
__CPROVER_assume(!($C + 2 < g_n) || g_src[$C + 2] != 0);
__CPROVER_assume(!($C + 3 < g_n) || g_src[$C + 3] != 0);
"""
assume = ["base64enc_str: the input is a NUL-terminated string (no NUL before its end), instantiated at the positions read"]
*/
#include "vc.h"
#include "b64_common.h"
static size_t g_n, g_q, g_r, g_dl, g_full; static char *g_dst, g_expect; static const unsigned char *g_src;
static inline unsigned spec_byte(size_t p) { return p < g_n ? g_src[p] : 0; }
static inline char spec_out(size_t q, size_t r) {
	unsigned v = spec_byte(3*q) << 16 | spec_byte(3*q+1) << 8 | spec_byte(3*q+2);
	if(r == 2 && 3*q+1 >= g_n) return '=';
	if(r == 3 && 3*q+2 >= g_n) return '=';
	return spec_b64chr((v >> (18 - 6*r)) & 63);
}
#include "src/strlib/base64_tbl.c"
#include "src/strlib/base64enc_str.c"

void harness(void) {
	size_t q = nd_len() / 3 , r = nd_range(0, 2);
#ifdef VC_PROOF
	q = nd_range(0, (VC_HUGE - 1) >> 2);
#endif
	g_n = 3*q + r; g_full = 4*(q + (r > 0)); g_dl = nd_range(0, 2*g_full + 8);
	unsigned char *src = vc_mem(g_n + 1); char *dst = vc_alloc(g_dl);
	src[g_n] = 0;
	g_src = src; g_dst = dst;
#ifdef VC_PROOF
	g_q = nondet_u64(); g_r = nondet_u64();
	ASSUME(g_q < q + (r > 0) && g_r < 4);
	g_expect = spec_out(g_q, g_r);
	if(g_n > 0) ASSUME(src[0] != 0);
	if(g_n > 0) ASSUME(src[g_n-1] != 0);
#else
	for(size_t i = 0; i < g_n; i++) { if(!src[i]) src[i] = 'x'; }
#endif
	int ret = base64enc_str(dst, src, g_dl);
	CHECK(ret == (g_dl >= g_full + 1), "returns 1 exactly when the buffer holds the whole encoding");
	if(ret) {
#ifdef VC_PROOF
		CHECK(dst[4*g_q + g_r] == g_expect, "every output character is the RFC 4648 one");
#else
		for(size_t k = 0; k < g_full; k++) CHECK(dst[k] == spec_out(k/4, k%4), "every output character is the RFC 4648 one");
#endif
		CHECK(dst[g_full] == 0, "terminated");
	}
	REACH("end");
}
