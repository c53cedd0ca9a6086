/*@unit
property = "P10"
functions = ["dl64", "ts64"]
lemma = "words are read and written big-endian, eight bytes each"
unwind = 9
fuzzlen = 300
nobounded = true
*/
#include "vc.h"
#include "sha512_ref.h"
#include "src/sha512/sha512.c"
void harness(void) {
	VC_INIT();
	unsigned char *x = vc_mem(8); uint64_t v = 0, u = nd_u64(); for(int i = 0; i < 8; i++) v = v * 256 + x[i];
	CHECK(dl64(x) == v, "big-endian read");
	ts64(x, u);
	for(int i = 0; i < 8; i++) CHECK(x[i] == (unsigned char)(u >> (56 - 8*i)), "big-endian write");
#ifndef VC_CBMC
	native_sha512();
#endif
	REACH("end");
}
