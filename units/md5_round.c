/*@unit
property = "P09"
functions = ["md5_round", "md5_init", "range_dec32le"]
lemma = "one block step equals the RFC 1321 round function for every state and block (all loops unwound completely); the initial state is the RFC's"
unwind = 65
solver = "z3"
timeout = 120
nobounded = true
fuzzlen = 300
*/
#include "vc.h"
#include "src/md5/md5.c"
#include "md5_ref.h"
void harness(void) {
	VC_INIT();
	md5_ctx i; i.count = nd_u64(); md5_init(&i);
	CHECK(i.count == 0 && i.val[0] == ref_IV[0] && i.val[1] == ref_IV[1] && i.val[2] == ref_IV[2] && i.val[3] == ref_IV[3], "initial state");
#ifdef VC_CBMC
	unsigned char *b = vc_mem(64); uint32_t v[4], r[4];
	for(int k = 0; k < 4; k++) v[k] = r[k] = nd_u32();
	md5_round(b, v); ref_md5_block(b, r);
	CHECK(v[0] == r[0] && v[1] == r[1] && v[2] == r[2] && v[3] == r[3], "block step of RFC 1321");
#else
	native_md5();
#endif
	REACH("end");
}
