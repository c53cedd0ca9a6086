/*@unit
property = "P10"
functions = ["sha512_update"]
lemma = "from a context holding whole blocks: exactly the whole blocks of the data are compressed, in order, the rest (under 128 bytes) becomes the tail with zeros after it, and the length is added"
unwind = 128
timeout = 200
fuzzlen = 800
nobounded = true
replace = ["crypto_hashblocks:stub_blocks"]
assume = ["sha512: fewer than 2^60 bytes per message; earlier updates were multiples of 128 bytes (documented)"]
stubs = ["crypto_hashblocks: folds the compression function over the whole blocks given (contract proved in unit sha512_blocks)"]
[[loop]]
fn = "sha512_update"
nth = 0
inv = ["i <= n && n <= 127", "vc_k < i ==> ctx->x[vc_k] == buf[vc_k]", "(vc_k >= i && vc_k < 256) ==> ctx->x[vc_k] == 0"]
assigns = ["__CPROVER_object_upto(ctx->x, 256)"]
decreases = "n - i"
*/
#include "vc.h"
#include "sha512_ref.h"
#include "src/sha512/sha512.c"
#ifdef VC_CBMC
static sha512_ctx *g_c; static const u8 *g_m; static size_t g_n, g_pos; static u8 g_h[64];
int stub_blocks(u8 *x, const u8 *m, u64 n) {
	CHECK(x == g_c->h && __CPROVER_same_object(m, g_m) && __CPROVER_POINTER_OFFSET(m) == g_pos, "the next blocks of the data, into the state");
	CHECK(n <= g_n - g_pos && __CPROVER_r_ok(m, n), "inside the data");
	g_pos += n & ~(u64) 127;
	for(int k = 0; k < 64; k++) { CHECK(x[k] == g_h[k], "chained state"); x[k] = g_h[k] = nondet_u8(); }
	return n & 127;
}
#endif
void harness(void) {
	VC_INIT();
#ifdef VC_CBMC
	sha512_ctx *c = vc_alloc(sizeof *c); g_c = c; g_pos = 0;
	g_n = nd_len(); u8 *m = vc_mem(g_n); g_m = m;
	ASSUME((c->b & 127) == 0 && c->b < (u64) 1 << 60);
	u64 b0 = c->b;
	for(int k = 0; k < 64; k++) g_h[k] = c->h[k];
	if(vc_k < 256) ASSUME(c->x[vc_k] == 0);
	sha512_update(c, m, g_n);
	CHECK(c->b == b0 + g_n, "length");
	CHECK(g_pos == (g_n & ~(size_t) 127), "every whole block was compressed");
	for(int k = 0; k < 64; k++) CHECK(c->h[k] == g_h[k], "state after the last block");
	if(vc_k < 256) CHECK(c->x[vc_k] == (vc_k < (g_n & 127) ? m[g_pos + vc_k] : 0), "the rest is the tail");
#else
	native_sha512();
#endif
	REACH("end");
}
