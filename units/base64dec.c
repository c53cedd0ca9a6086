/*@unit
property = "P01"
functions = ["base64dec", "chrpos"]
lemma = "well-formed text decodes to exactly the bytes it stands for, with the exact size and a terminator; anything else, or a too small buffer, returns 0; nothing is written outside the buffer"
cases = ["-DVALID=1", "-DVALID=0"]
unwind = 65
timeout = 300
fuzzlen = 100
let.O = "__CPROVER_POINTER_OFFSET(d)"
let.C = "__CPROVER_POINTER_OFFSET(s)"
let.P = "(int)(__CPROVER_POINTER_OFFSET(s) & 3)"
[[loop]]
fn = "base64dec"
nth = 0
inv = [
 "__CPROVER_same_object(s, g_src) && __CPROVER_same_object(d, g_dst) && $C <= g_n && $O < g_dl + 1",
 "cnt == (int)(unsigned)$C && l == g_dl - $O",
 "4*$O == 3*($C - (size_t)$P)",
 "skip >= 0 && skip <= 2 && (size_t)skip <= $C && o == $O - (skip > $P ? (size_t)(skip - $P) : 0)",
 "skip >= 1 ==> g_src[$C - 1] == '='",
 "skip == 2 ==> g_src[$C - 2] == '='",
 "($C >= 1 && g_src[$C - 1] == '=') ==> skip >= 1",
 "($C >= 2 && g_src[$C - 1] == '=' && g_src[$C - 2] == '=') ==> skip == 2",
 "VALID ==> skip == ($C > g_n - g_pad ? (int)($C - (g_n - g_pad)) : 0)",
 "n >= 0 && ($P == 0 ==> n == 0) && ($P == 1 ==> n < 64) && ($P == 2 ==> n < 4096) && ($P == 3 ==> n < 262144)",
 "$C - (size_t)$P == 4*g_q ==> (($P == 1 ==> n == g_v0) && ($P == 2 ==> n == (g_v0 << 6 | g_v1)) && ($P == 3 ==> n == (g_v0 << 12 | g_v1 << 6 | g_v2)))",
 "vc_k < $C ==> (g_kpad ? vc_k >= $C - (size_t)skip : g_kalpha)",
 "3*g_q + g_r < $O ==> g_dst[3*g_q + g_r] == g_expect",
]
assigns = ["__CPROVER_object_whole(dst)"]
decreases = "g_n - $C"
ghost = """
if($C < g_n) __CPROVER_assume(g_src[$C] != 0);
if(VALID && $C < g_n) __CPROVER_assume($C >= g_n - g_pad ? g_src[$C] == '=' :
 ((g_src[$C] >= 'A' && g_src[$C] <= 'Z') || (g_src[$C] >= 'a' && g_src[$C] <= 'z') || (g_src[$C] >= '0' && g_src[$C] <= '9') || g_src[$C] == '+' || g_src[$C] == '/'));
"""
assume = ["base64dec: the input is NUL-terminated; for the completeness half it is well-formed base64; both instantiated at the positions read"]
*/
#include "vc.h"
#include "b64_common.h"
#ifndef VALID
#define VALID 0
#endif
static size_t g_n, g_q, g_r, g_dl, g_pad; static unsigned char *g_dst, g_expect; static const char *g_src;
static int g_v0, g_v1, g_v2, g_v3, g_kpad, g_kalpha;
static inline int spec_v(size_t p) { return p >= g_n ? 0 : g_src[p] == '=' ? 0 : spec_b64val(g_src[p]); }
static inline unsigned char spec_dec(size_t q, size_t r) {
	unsigned v = (unsigned)spec_v(4*q) << 18 | (unsigned)spec_v(4*q+1) << 12 | (unsigned)spec_v(4*q+2) << 6 | (unsigned)spec_v(4*q+3);
	return v >> (16 - 8*r);
}
#include "src/strlib/base64_tbl.c"
#include "src/strlib/base64dec.c"

#ifndef VC_PROOF
static int spec_valid(const char *s, size_t n, size_t *pad) {
	*pad = 0;
	if(n % 4) return 0;
	if(n && s[n-1] == '=') { *pad = 1; if(s[n-2] == '=') *pad = 2; }
	for(size_t i = 0; i < n - *pad; i++) if(spec_b64val(s[i]) < 0) return 0;
	return 1;
}
#endif

void harness(void) {
	VC_INIT();
#ifdef VC_PROOF
	size_t q = nd_range(0, (VC_HUGE - 1) >> 2), r = VALID ? 0 : nd_range(0, 3);
	g_n = 4*q + r;
	g_dl = nd_range(0, 3*q + 16);
#else
	size_t q = nd_len() / 4, r = VALID ? 0 : nd_range(0, 3);
#ifdef VC_BOUNDED
	q = nd_range(0, 1);
#endif
	g_n = 4*q + r; g_dl = nd_range(0, 3*q + 6);
#endif
	char *src = vc_mem_hint(g_n + 1, "AZaz09+/====@[`{-");
	src[g_n] = 0;
	unsigned char *dst = vc_alloc(g_dl);
	g_src = src; g_dst = dst;
	g_pad = g_n < 2 ? 0 : src[g_n-1] == '=' ? (src[g_n-2] == '=' ? 2 : 1) : 0;
#ifdef VC_PROOF
	g_q = nondet_u64(); g_r = nondet_u64();
	ASSUME(g_q < q + 1 && g_r < 3 && 4*g_q + 3 < g_n);
	ASSUME(vc_k < g_n);
	ASSUME(src[0] != 0);
	g_v0 = spec_v(4*g_q); g_v1 = spec_v(4*g_q+1); g_v2 = spec_v(4*g_q+2); g_v3 = spec_v(4*g_q+3);
	g_kpad = src[vc_k] == '='; g_kalpha = spec_b64val(src[vc_k]) >= 0;
	g_expect = spec_dec(g_q, g_r);
	size_t ret = base64dec(dst, src, g_dl);
	if(VALID && g_dl >= 3*q + 1) {
		CHECK(ret == 3*q - g_pad, "well-formed text that fits decodes to its exact length");
		CHECK(dst[3*g_q + g_r] == g_expect, "every decoded byte is right");
		CHECK(dst[3*q] == 0, "terminated");
	}
	if(!VALID && ret) {
		CHECK(r == 0 && g_dl >= 3*q + 1 && ret == 3*q - g_pad, "a non-zero result is the exact length and fitted");
		CHECK(g_kpad ? vc_k >= g_n - g_pad : g_kalpha, "a non-zero result means well-formed text");
		CHECK(dst[3*g_q + g_r] == g_expect, "every decoded byte is right (2)");
	}
#else
	for(size_t i = 0; i < g_n; i++) if(!src[i]) src[i] = 'b';
	if(VALID) {   /* make it well-formed: the generator may not reject everything */
		size_t p = nd_range(0, 2);
		for(size_t i = 0; i < g_n; i++) if(spec_b64val(src[i]) < 0) src[i] = spec_b64chr((unsigned char)src[i] & 63);
		for(size_t i = 0; i < p && g_n; i++) src[g_n-1-i] = '=';
	}
	size_t ret = base64dec(dst, src, g_dl);
	int ok = spec_valid(src, g_n, &g_pad) && g_n > 0 && g_dl >= 3*q + 1;
	CHECK(ret == (ok ? 3*q - g_pad : 0), "exact length for well-formed text that fits, else 0");
	if(ok) {
		for(size_t k = 0; k < 3*q; k++) CHECK(dst[k] == spec_dec(k/3, k%3), "every decoded byte is right");
		CHECK(dst[3*q] == 0, "terminated");
	}
#endif
	REACH("end");
}
