/*@unit
property = "P02"
functions = ["raw2hex"]
lemma = "every input byte becomes its two lowercase hex digits, in order, terminated, inside 2*len+1 bytes"
timeout = 200
fuzzlen = 64
[[loop]]
fn = "raw2hex"
nth = 0
inv = ["i <= len && o == 2*i", "vc_k < i ==> (dst[2*vc_k] == g_hi && dst[2*vc_k+1] == g_lo)"]
assigns = ["__CPROVER_object_whole(dst)"]
decreases = "len - i"
*/
#include "vc.h"
static char g_hi, g_lo;
static char spec_hex(unsigned v) { return v < 10 ? '0' + v : 'a' + (v - 10); }
#include "src/strlib/raw2hex.c"
void harness(void) {
	VC_INIT();
	size_t n = nd_len();
	unsigned char *src = vc_mem(n); char *dst = vc_alloc(2*n + 1);
#ifdef VC_PROOF
	if(vc_k < n) { g_hi = spec_hex(src[vc_k] >> 4); g_lo = spec_hex(src[vc_k] & 15); }
#endif
	raw2hex(dst, src, n);
	FORALL(k, n, dst[2*k] == spec_hex(src[k] >> 4) && dst[2*k+1] == spec_hex(src[k] & 15), "two lowercase hex digits per byte");
	CHECK(dst[2*n] == 0, "terminated");
	REACH("end");
}
