/*@unit
property = "P09"
functions = ["md5_end", "enc64le", "range_enc32le"]
lemma = "from any valid context: exactly the RFC padding (0x80, zeros, 64-bit little-endian bit count) of the message is compressed and the state is output little-endian; the context is unchanged"
timeout = 250
unwind = 65
nobounded = true
fuzzlen = 300
replace = ["md5_round:stub_md5_round"]
stubs = ["md5_round: contract proved in unit md5_round; here an arbitrary function of state and block", "memcpy, memset (libc)"]
*/
#include "vc.h"
#include "src/md5/md5.c"
#include "md5_ref.h"
static size_t g_n, g_nb; static unsigned char g_byte; static uint32_t g_val[4]; static uint64_t g_bits;
#ifdef VC_CBMC
void stub_md5_round(const unsigned char *b, uint32_t *v) {
	CHECK(v[0] == g_val[0] && v[1] == g_val[1] && v[2] == g_val[2] && v[3] == g_val[3], "chained state");
	if(vc_k < 64) {
		size_t nb = g_n < 56 ? 1 : 2, p = 64 * g_nb + vc_k; unsigned char e;
		CHECK(g_nb < nb, "one or two padding blocks");
		if(p < g_n) e = g_byte; else if(p == g_n) e = 0x80;
		else if(p >= 64 * nb - 8) e = (unsigned char)(g_bits >> 8 * (p - (64 * nb - 8)));
		else e = 0;
		CHECK(b[vc_k] == e, "RFC padding");
	}
	for(int k = 0; k < 4; k++) v[k] = g_val[k] = nd_u32();
	g_nb++;
}
#endif
void harness(void) {
	VC_INIT();
#ifdef VC_CBMC
	md5_ctx *c = vc_alloc(sizeof *c), old; unsigned char *out = vc_alloc(16);
	old = *c; g_n = c->count & 63; g_bits = c->count * 8; g_nb = 0;
	for(int k = 0; k < 4; k++) g_val[k] = c->val[k];
	if(vc_k < 64) g_byte = c->buf[vc_k];
	md5_end(c, out);
	CHECK(g_nb == (g_n < 56 ? 1 : 2), "the padding is one or two blocks");
	for(int k = 0; k < 16; k++) CHECK(out[k] == (unsigned char)(g_val[k / 4] >> 8 * (k & 3)), "little-endian state");
	CHECK(c->count == old.count && c->val[0] == old.val[0] && c->val[1] == old.val[1] && c->val[2] == old.val[2] && c->val[3] == old.val[3], "the context is unchanged");
	if(vc_k < 64) CHECK(c->buf[vc_k] == g_byte, "the context is unchanged");
#else
	native_md5();
#endif
	REACH("end");
}
