/*@unit
property = "P03"
functions = ["itoa"]
lemma = "for every int the text is its canonical decimal numeral, inside the documented 12 bytes"
unwind = 12
timeout = 200
bunwind = 12
fuzzlen = 24
[[loop]]
fn = "itoa"
nth = 0
inv = ["len >= 0 && (size_t)len <= g_nd && lentest == g_A[g_nd - (size_t)len] && vc_first == (len == 0)"]
decreases = "(size_t)12 - (size_t)len"
[[loop]]
fn = "itoa"
nth = 1
inv = ["len >= 0 && (size_t)len <= g_nd && n == g_A[len] && vc_first == ((size_t)len == g_nd)",
 "g_buf[g_nd] == 0", "g_neg ==> g_buf[-1] == 0x2d",
 "((size_t)len <= vc_k && vc_k < g_nd) ==> g_buf[vc_k] == '0' + g_d[vc_k]"]
assigns = ["__CPROVER_object_whole(buffer)"]
decreases = "(size_t)len"
*/
#include "vc.h"
#include "dec_common.h"
static int g_neg;
#include "src/strlib/itoa.c"

void harness(void) {
	VC_INIT();
	unsigned n = h_numeral(1ULL + INT_MAX);
	int neg = g_neg = nd_bool(), arg; ASSUME(neg ? n > 0 : n <= INT_MAX);
	arg = neg ? (int) -(int64_t) n : (int) n;
	char *buf = vc_alloc(12); g_buf = buf + neg;
	char *r = itoa(arg, buf);
	CHECK(r == buf, "returns the buffer");
	FORALL(k, g_nd, g_buf[k] == '0' + g_d[k], "digit of the canonical numeral");
	CHECK(g_buf[g_nd] == 0, "terminated");
	if(neg) CHECK(buf[0] == 0x2d, "minus sign exactly for negative numbers");
	REACH("end");
}
