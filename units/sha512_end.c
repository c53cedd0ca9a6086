/*@unit
property = "P10"
functions = ["sha512_end"]
lemma = "exactly the FIPS padding of the tail (0x80, zeros, 128-bit big-endian bit count) is compressed, and the state is returned"
unwind = 9
timeout = 200
fuzzlen = 800
nobounded = true
replace = ["crypto_hashblocks:stub_blocks"]
stubs = ["crypto_hashblocks: folds the compression function over the whole blocks given (contract proved in unit sha512_blocks)"]
*/
#include "vc.h"
#include "sha512_ref.h"
#include "src/sha512/sha512.c"
#ifdef VC_CBMC
static sha512_ctx *g_c; static size_t g_t, g_nb, g_done; static u8 g_byte; static u64 g_b;
static u8 g_pad(size_t k) { /* byte k of the padded tail */
	if(k < g_t) return g_byte;
	if(k == g_t) return 0x80;
	if(k >= g_nb - 8) return g_b << 3 >> 8 * (g_nb - 1 - k);
	if(k == g_nb - 9) return g_b >> 61;
	return 0;
}
int stub_blocks(u8 *x, const u8 *m, u64 n) {
	CHECK(x == g_c->h, "into the state");
	CHECK((n & 127) == 0 && n <= g_nb - g_done && __CPROVER_r_ok(m, n), "whole blocks, no more than the padding makes");
	if(vc_k >= g_done && vc_k < g_done + n) CHECK(m[vc_k - g_done] == g_pad(vc_k), "FIPS padding");
	g_done += n;
	return 0;
}
#endif
void harness(void) {
	VC_INIT();
#ifdef VC_CBMC
	sha512_ctx *c = vc_alloc(sizeof *c); g_c = c; g_done = 0;
	g_b = c->b; g_t = g_b & 127; g_nb = g_t < 112 ? 128 : 256;
	if(vc_k < 256) { if(vc_k >= g_t) ASSUME(c->x[vc_k] == 0); g_byte = c->x[vc_k]; }
	unsigned char *r = sha512_end(c);
	CHECK(g_done == g_nb, "all of the padding was compressed");
	CHECK(r == c->h, "the state is returned");
#else
	native_sha512();
#endif
	REACH("end");
}
