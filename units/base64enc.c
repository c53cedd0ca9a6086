/*@unit
property = "P01"
functions = ["base64enc"]
lemma = "the encoder writes exactly the RFC 4648 text of its input, terminated, inside the documented buffer, for every input length"
unwind = 1
timeout = 240
fuzzlen = 64
let.O = "__CPROVER_POINTER_OFFSET(d)"
let.C = "__CPROVER_POINTER_OFFSET(s)"
[[loop]]
fn = "base64enc"
nth = 0
inv = [
 "count <= g_n && __CPROVER_same_object(s, g_src) && __CPROVER_same_object(d, g_dst)",
 "$C == g_n - count && (($O <= g_dl - 1 && 3*$O == 4*$C && $O % 4 == 0) || (count == 0 && $O == g_dl - 1))",
 "4*g_q + g_r < $O ==> g_dst[4*g_q + g_r] == g_expect",
]
assigns = ["__CPROVER_object_whole(dst)"]
decreases = "count"
*/
#include "vc.h"
#include "b64_common.h"
static size_t g_n, g_q, g_r, g_dl; static char *g_dst, g_expect; static const unsigned char *g_src;
static inline unsigned spec_byte(size_t p) { return p < g_n ? g_src[p] : 0; }
static inline char spec_out(size_t q, size_t r) {
	unsigned v = spec_byte(3*q) << 16 | spec_byte(3*q+1) << 8 | spec_byte(3*q+2);
	if(r == 2 && 3*q+1 >= g_n) return '=';
	if(r == 3 && 3*q+2 >= g_n) return '=';
	return spec_b64chr((v >> (18 - 6*r)) & 63);
}
#include "src/strlib/base64_tbl.c"
#include "src/strlib/base64enc.c"

void harness(void) {
	size_t q = nd_len() / 3 , r = nd_range(0, 2);
#ifdef VC_PROOF
	q = nd_range(0, (VC_HUGE - 1) >> 2);
#endif
	g_n = 3*q + r; g_dl = 4*(q + (r > 0)) + 1;
	unsigned char *src = vc_mem(g_n); char *dst = vc_alloc(g_dl);
	g_src = src; g_dst = dst;
#ifdef VC_PROOF
	g_q = nondet_u64(); g_r = nondet_u64();
	ASSUME(g_q < q + (r > 0) && g_r < 4);
	g_expect = spec_out(g_q, g_r);
	base64enc(dst, src, g_n);
	CHECK(dst[4*g_q + g_r] == g_expect, "every output character is the RFC 4648 one");
#else
	base64enc(dst, src, g_n);
	for(size_t k = 0; k + 1 < g_dl; k++) CHECK(dst[k] == spec_out(k/4, k%4), "every output character is the RFC 4648 one");
#endif
	CHECK(dst[g_dl - 1] == 0, "terminated");
	REACH("end");
}
