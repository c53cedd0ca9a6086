/*@unit
property = "P10"
functions = ["crypto_hashblocks", "R", "Ch", "Maj", "Sigma0", "Sigma1", "sigma0", "sigma1", "sha512_init"]
lemma = "for every number of blocks, the state is the FIPS 180-4 compression function folded over them (the FIPS rounds run in lock step as ghost state), read and written big-endian; no byte after the last whole block is read; the initial context is the FIPS one"
timeout = 400
assume = ["sha512: the message schedule W is a ghost array constrained by its FIPS defining recurrence (a recursive definition, always satisfiable)"]
unwind = 81
cases = ["-DRB=0", "-DRB=1"]
nobounded = true
replace = ["dl64:stub_dl64"]
stubs = ["dl64: big-endian read of 8 bytes (contract proved in unit sha512_words); here the abstract words of the block"]
fuzzlen = 800
solver = "cadical"
split = true
split_rest = 3
[[loop]]
fn = "crypto_hashblocks"
nth = 1
inv = ["__CPROVER_same_object(m, g_m) && __CPROVER_POINTER_OFFSET(m) <= g_len && n == g_len - __CPROVER_POINTER_OFFSET(m) && (__CPROVER_POINTER_OFFSET(m) & 127) == 0",
 "a[0] == g_h[0] && a[1] == g_h[1] && a[2] == g_h[2] && a[3] == g_h[3] && a[4] == g_h[4] && a[5] == g_h[5] && a[6] == g_h[6] && a[7] == g_h[7]",
 "z[0] == g_h[0] && z[1] == g_h[1] && z[2] == g_h[2] && z[3] == g_h[3] && z[4] == g_h[4] && z[5] == g_h[5] && z[6] == g_h[6] && z[7] == g_h[7]"]
assigns = ["__CPROVER_object_whole(g_h)", "__CPROVER_object_whole(g_v)", "__CPROVER_object_whole(g_w)", "g_off"]
decreases = "n"
ghost = """__CPROVER_havoc_object(g_w); g_off = __CPROVER_POINTER_OFFSET(m); g_v[0] = g_h[0]; g_v[1] = g_h[1]; g_v[2] = g_h[2]; g_v[3] = g_h[3]; g_v[4] = g_h[4]; g_v[5] = g_h[5]; g_v[6] = g_h[6]; g_v[7] = g_h[7];"""
ghost_end = "g_h[0] += g_v[0]; g_h[1] += g_v[1]; g_h[2] += g_v[2]; g_h[3] += g_v[3]; g_h[4] += g_v[4]; g_h[5] += g_v[5]; g_h[6] += g_v[6]; g_h[7] += g_v[7];"
[[loop]]
fn = "crypto_hashblocks"
nth = 3
inv = ["i >= 0 && i <= 80 && $EQ8", "i < 80 ==> ($W)"]
assigns = ["__CPROVER_object_whole(g_v)", "__CPROVER_object_whole(a)", "__CPROVER_object_whole(b)", "__CPROVER_object_whole(w)"]
decreases = "80 - i"
ghost = """__CPROVER_assume(RB == ((i & 15) == 15)); __CPROVER_assert(K[i] == ref_K[i] && w[i & 15] == g_w[i], "CHECK round constant and schedule word"); __CPROVER_assume(K[i] == ref_K[i] && w[i & 15] == g_w[i]);
 ref_round(g_v, K[i], w[i & 15]); if((i & 15) == 15 && i < 64) { __CPROVER_assume(g_w[i + 1] == (g_w[i + -15] + (g_w[i + -6] + $S0(g_w[i + -14]) + $S1(g_w[i + -1])))); __CPROVER_assume(g_w[i + 2] == (g_w[i + -14] + (g_w[i + -5] + $S0(g_w[i + -13]) + $S1(g_w[i + 0])))); __CPROVER_assume(g_w[i + 3] == (g_w[i + -13] + (g_w[i + -4] + $S0(g_w[i + -12]) + $S1(g_w[i + 1])))); __CPROVER_assume(g_w[i + 4] == (g_w[i + -12] + (g_w[i + -3] + $S0(g_w[i + -11]) + $S1(g_w[i + 2])))); __CPROVER_assume(g_w[i + 5] == (g_w[i + -11] + (g_w[i + -2] + $S0(g_w[i + -10]) + $S1(g_w[i + 3])))); __CPROVER_assume(g_w[i + 6] == (g_w[i + -10] + (g_w[i + -1] + $S0(g_w[i + -9]) + $S1(g_w[i + 4])))); __CPROVER_assume(g_w[i + 7] == (g_w[i + -9] + (g_w[i + 0] + $S0(g_w[i + -8]) + $S1(g_w[i + 5])))); __CPROVER_assume(g_w[i + 8] == (g_w[i + -8] + (g_w[i + 1] + $S0(g_w[i + -7]) + $S1(g_w[i + 6])))); __CPROVER_assume(g_w[i + 9] == (g_w[i + -7] + (g_w[i + 2] + $S0(g_w[i + -6]) + $S1(g_w[i + 7])))); __CPROVER_assume(g_w[i + 10] == (g_w[i + -6] + (g_w[i + 3] + $S0(g_w[i + -5]) + $S1(g_w[i + 8])))); __CPROVER_assume(g_w[i + 11] == (g_w[i + -5] + (g_w[i + 4] + $S0(g_w[i + -4]) + $S1(g_w[i + 9])))); __CPROVER_assume(g_w[i + 12] == (g_w[i + -4] + (g_w[i + 5] + $S0(g_w[i + -3]) + $S1(g_w[i + 10])))); __CPROVER_assume(g_w[i + 13] == (g_w[i + -3] + (g_w[i + 6] + $S0(g_w[i + -2]) + $S1(g_w[i + 11])))); __CPROVER_assume(g_w[i + 14] == (g_w[i + -2] + (g_w[i + 7] + $S0(g_w[i + -1]) + $S1(g_w[i + 12])))); __CPROVER_assume(g_w[i + 15] == (g_w[i + -1] + (g_w[i + 8] + $S0(g_w[i + 0]) + $S1(g_w[i + 13])))); __CPROVER_assume(g_w[i + 16] == (g_w[i + 0] + (g_w[i + 9] + $S0(g_w[i + 1]) + $S1(g_w[i + 14])))); }"""
[macro]
S0 = "((#1 >> 1 | #1 << 63) ^ (#1 >> 8 | #1 << 56) ^ #1 >> 7)"
S1 = "((#1 >> 19 | #1 << 45) ^ (#1 >> 61 | #1 << 3) ^ #1 >> 6)"
[let]
EQ8 = "a[0] == g_v[0] && a[1] == g_v[1] && a[2] == g_v[2] && a[3] == g_v[3] && a[4] == g_v[4] && a[5] == g_v[5] && a[6] == g_v[6] && a[7] == g_v[7]"
W = "w[0] == g_w[(i & 0x70) + 0] && w[1] == g_w[(i & 0x70) + 1] && w[2] == g_w[(i & 0x70) + 2] && w[3] == g_w[(i & 0x70) + 3] && w[4] == g_w[(i & 0x70) + 4] && w[5] == g_w[(i & 0x70) + 5] && w[6] == g_w[(i & 0x70) + 6] && w[7] == g_w[(i & 0x70) + 7] && w[8] == g_w[(i & 0x70) + 8] && w[9] == g_w[(i & 0x70) + 9] && w[10] == g_w[(i & 0x70) + 10] && w[11] == g_w[(i & 0x70) + 11] && w[12] == g_w[(i & 0x70) + 12] && w[13] == g_w[(i & 0x70) + 13] && w[14] == g_w[(i & 0x70) + 14] && w[15] == g_w[(i & 0x70) + 15]"
*/
#include "vc.h"
#ifndef RB
#define RB 0
#endif
static uint64_t g_h[8], g_v[8], g_w[80]; static size_t g_len, g_off; static const unsigned char *g_m;

#include "sha512_ref.h"
#include "src/sha512/sha512.c"
#ifdef VC_CBMC
static unsigned char *g_x;
/* word k of the current block (or of the initial state) */
u64 stub_dl64(const u8 *p) {
	CHECK(__CPROVER_r_ok(p, 8) && (__CPROVER_POINTER_OFFSET(p) & 7) == 0, "aligned readable word");
	if(__CPROVER_same_object(p, g_x)) return g_h[__CPROVER_POINTER_OFFSET(p) >> 3];
	size_t k = (__CPROVER_POINTER_OFFSET(p) - g_off) >> 3;
	CHECK(__CPROVER_same_object(p, g_m) && k < 16, "a word of the current block");
	return g_w[k];
}
#endif
void harness(void) {
	VC_INIT();
	sha512_ctx *i = vc_alloc(sizeof *i);
	sha512_init(i);
	CHECK(i->b == 0, "empty message");
	for(int k = 0; k < 64; k++) CHECK(i->h[k] == (unsigned char)(ref_H0[k / 8] >> (56 - 8 * (k & 7))), "initial state");
	FORALL(k, 256, i->x[k] == 0, "no tail");
#ifdef VC_CBMC
	g_len = nd_len(); unsigned char *m = vc_mem(g_len), *x = vc_alloc(64); g_m = m;
	g_x = x; for(int k = 0; k < 8; k++) g_h[k] = nd_u64();
	crypto_hashblocks(x, m, g_len);
	for(int k = 0; k < 64; k++) CHECK(x[k] == (unsigned char)(g_h[k / 8] >> (56 - 8 * (k & 7))), "folded compression function");
#else
	native_sha512();
#endif
	REACH("end");
}
