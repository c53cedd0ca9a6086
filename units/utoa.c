/*@unit
property = "P03"
functions = ["utoa"]
lemma = "for every unsigned number the text is its canonical decimal numeral, inside the documented 11 bytes"
unwind = 12
timeout = 200
bunwind = 12
fuzzlen = 24
[[loop]]
fn = "utoa"
nth = 0
inv = ["len >= 0 && (size_t)len <= g_nd && lentest == g_A[g_nd - (size_t)len] && vc_first == (len == 0)"]
decreases = "(size_t)12 - (size_t)len"
[[loop]]
fn = "utoa"
nth = 1
inv = ["len >= 0 && (size_t)len <= g_nd && number == g_A[len] && vc_first == ((size_t)len == g_nd)",
 "g_buf[g_nd] == 0",
 "((size_t)len <= vc_k && vc_k < g_nd) ==> g_buf[vc_k] == '0' + g_d[vc_k]"]
assigns = ["__CPROVER_object_whole(buffer)"]
decreases = "(size_t)len"
*/
#include "vc.h"
#include "dec_common.h"
#include "src/strlib/utoa.c"

void harness(void) {
	VC_INIT();
	unsigned n = h_numeral(UINT_MAX);
	char *buf = g_buf = vc_alloc(11);
	char *r = utoa(n, buf);
	CHECK(r == buf, "returns the buffer");
	FORALL(k, g_nd, buf[k] == '0' + g_d[k], "digit of the canonical numeral");
	CHECK(buf[g_nd] == 0, "terminated");
	REACH("end");
}
