/*@unit
property = "P09"
functions = ["md5_update"]
lemma = "from any valid context: the blocks compressed are exactly the completed blocks of (buffered bytes ++ data) in order, each once, chained; the rest is buffered; the count grows by the length. Hence the digest does not depend on the cuts."
timeout = 250
unwind = 5
nobounded = true
fuzzlen = 300
replace = ["md5_round:stub_md5_round"]
let.D = "__CPROVER_POINTER_OFFSET(buf)"
stubs = ["md5_round: contract proved in unit md5_round; here an arbitrary function of state and block", "memcpy (libc)"]
assume = ["md5: fewer than 2^60 bytes hashed per message"]
[[loop]]
fn = "md5_update"
nth = 0
inv = ["__CPROVER_same_object(buf, g_data) && $D <= g_len && len == g_len - $D && ptr == ((g_c0 + $D) & 63) && cc->count == g_c0 + $D && g_nb == (g_c0 + $D) >> 6",
 "cc->val[0] == g_val[0] && cc->val[1] == g_val[1] && cc->val[2] == g_val[2] && cc->val[3] == g_val[3]",
 "vc_k < ptr ==> cc->buf[vc_k] == (64 * g_nb + vc_k < g_c0 ? g_buf0 : g_data[64 * g_nb + vc_k - g_c0])"]
assigns = ["__CPROVER_object_whole(cc)", "g_nb", "__CPROVER_object_whole(g_val)"]
decreases = "len"
*/
#include "vc.h"
static size_t g_c0, g_len, g_nb; static unsigned char g_buf0; static const unsigned char *g_data; static uint32_t g_val[4]; 
#ifdef VC_PROOF
#include <string.h>
#include "include/md5.h"
static md5_ctx *g_ctx;
/* contract of memcpy into the context's buffer, at the witness index */
void *stub_memcpy(void *d, const void *s, size_t n) {
	if(d == g_ctx->val) { g_ctx->val[0] = ((const uint32_t*) s)[0]; g_ctx->val[1] = ((const uint32_t*) s)[1]; g_ctx->val[2] = ((const uint32_t*) s)[2]; g_ctx->val[3] = ((const uint32_t*) s)[3]; return d; }
	CHECK(__CPROVER_r_ok(s, n) && __CPROVER_w_ok(d, n) && __CPROVER_same_object(d, g_ctx), "copy inside both objects");
	size_t o = __CPROVER_POINTER_OFFSET(d) - __CPROVER_POINTER_OFFSET(g_ctx->buf); unsigned char old = 0, nw = 0;
	CHECK(o <= 64 && n <= 64 - o, "copy stays inside the buffer");
	if(vc_k < 64) { old = g_ctx->buf[vc_k]; if(vc_k >= o && vc_k - o < n) old = ((const unsigned char*) s)[vc_k - o]; }
	__CPROVER_havoc_slice(g_ctx->buf, 64);
	if(vc_k < 64) ASSUME(g_ctx->buf[vc_k] == old);
	return d;
}
#define memcpy stub_memcpy
#endif
#include "src/md5/md5.c"
#undef memcpy
#include "md5_ref.h"
#ifdef VC_PROOF
uint32_t nondet_u32(void);
void stub_md5_round(const unsigned char *b, uint32_t *v) {
	CHECK(__CPROVER_r_ok(b, 64) && v == g_ctx->val, "block and state are the context's");
	if(vc_k < 64) {
		size_t p = 64 * g_nb + vc_k;
		CHECK(p < g_c0 + g_len && b[vc_k] == (p < g_c0 ? g_buf0 : g_data[p - g_c0]), "the block is the next 64 bytes of the message");
	}
	CHECK(v[0] == g_val[0] && v[1] == g_val[1] && v[2] == g_val[2] && v[3] == g_val[3], "the state is the result of the previous block");
	v[0] = g_val[0] = nondet_u32(); v[1] = g_val[1] = nondet_u32(); v[2] = g_val[2] = nondet_u32(); v[3] = g_val[3] = nondet_u32();
	g_nb++;
}
#endif
void harness(void) {
	VC_INIT();
#ifdef VC_PROOF
	md5_ctx *c = vc_alloc(sizeof *c); g_ctx = c;
	g_len = nd_len(); g_data = vc_mem(g_len); g_c0 = c->count; ASSUME(g_c0 < (uint64_t) 1 << 60); g_nb = g_c0 >> 6;
	for(int k = 0; k < 4; k++) g_val[k] = c->val[k];
	size_t p = 64 * g_nb + vc_k;
	if(vc_k < 64) g_buf0 = c->buf[vc_k];
	md5_update(c, g_data, g_len);
	CHECK(c->count == g_c0 + g_len, "the count is the message length");
	CHECK(g_nb == (g_c0 + g_len) >> 6, "every completed block was compressed, once");
	CHECK(c->val[0] == g_val[0] && c->val[1] == g_val[1] && c->val[2] == g_val[2] && c->val[3] == g_val[3], "the state is the result of the last block");
	if(vc_k < ((g_c0 + g_len) & 63)) CHECK(c->buf[vc_k] == (64 * g_nb + vc_k < g_c0 ? g_buf0 : g_data[64 * g_nb + vc_k - g_c0]), "the rest of the message is buffered");
#else
	native_md5();
#endif
	REACH("end");
}
