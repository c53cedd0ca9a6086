/*@unit
property = "P01"
functions = ["BASE64ENC_BUFSIZE", "BASE64DEC_BUFSIZE"]
lemma = "the documented buffer-size macros are the sizes the encoder and decoder contracts are proved for"
nosearch = false
fuzzlen = 16
*/
#include "vc.h"
#include "include/strlib.h"
void harness(void) {
	size_t q = nd_range(0, ((size_t)1 << 32) - 1), r = nd_range(0, 3), n = 4*q + r;
	CHECK(BASE64DEC_BUFSIZE(n) == 3*q + 1, "decode buffer size");
	CHECK(BASE64DEC_BYTES(n) == 3*q, "decode byte count");
	ASSUME(r < 3); n = 3*q + r;
	CHECK(BASE64ENC_BUFSIZE(n) == 4*(q + (r > 0)) + 1, "encode buffer size");
	CHECK(BASE64ENC_BYTES(n) == 4*(q + (r > 0)), "encode byte count");
	REACH("end");
}
