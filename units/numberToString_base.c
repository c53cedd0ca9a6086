/*@unit
property = "P03"
functions = ["numberToString"]
lemma = "odd, zero and too large bases are refused without touching the buffer"
unwind = 1
fuzzlen = 40
*/
#include "vc.h"
#include "src/strlib/conv_cypher.c"
#include "src/strlib/numberToString.c"
void harness(void) {
	char *buf = vc_alloc(0);
	unsigned base = nd_u32();
	CHECK(conv_cypher_len == 62, "62 digits");
	ASSUME(base == 0 || (base & 1) || base > 62);
	CHECK(numberToString(nd_u64(), base, buf, nd_len(), nd_int()) == NULL, "refused");
	REACH("end");
}
