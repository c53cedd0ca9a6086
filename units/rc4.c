/*@unit
property = "P08"
functions = ["rc4"]
lemma = "byte k of the output is byte k of the message xored with byte k of the RC4 keystream (textbook key schedule and generator run in lock step as ghost state), in place or out of place; exactly len bytes are written"
cases = ["-DINPLACE=0", "-DINPLACE=1"]
timeout = 250
unwind = 1
bunwind = 257
nobounded = true
fuzzlen = 128
assume = ["rc4: the lock-step equality of the permutation holds at every index: proved at an arbitrary index, used at the indices the step reads"]
[[loop]]
fn = "rc4"
nth = 0
inv = ["x <= 256 && (vc_k2 < x && vc_k2 < 256 ==> box[vc_k2] == vc_k2)"]
assigns = ["__CPROVER_object_whole(box)"]
decreases = "256 - x"
[[loop]]
fn = "rc4"
nth = 1
inv = ["x <= 256 && y < 256 && g_i == x && g_j == y && z < keylen && z == (x < keylen ? x : (size_t)((unsigned short)x % (unsigned short)keylen))",
 "vc_k2 < 256 ==> box[vc_k2] == g_S[vc_k2]"]
assigns = ["__CPROVER_object_whole(box)", "__CPROVER_object_whole(g_S)", "g_i", "g_j"]
decreases = "256 - x"
ghost = """$EQ(x) $IV(x)
 g_j = (g_j + g_S[g_i] + key[g_i < keylen ? g_i : (size_t)((unsigned short)g_i % (unsigned short)keylen)]) % 256;
 $EQ(g_j) $IV(g_j) { unsigned char g_t = g_S[g_i]; g_S[g_i] = g_S[g_j]; g_S[g_j] = g_t; } g_i = g_i + 1; """
[[loop]]
fn = "rc4"
nth = 2
inv = ["x <= len && y < 256 && z < 256 && (x == 0 ==> y == 0 && z == 0) && (x > 0 ==> g_i == y && g_j == z)",
 "vc_k2 < 256 ==> box[vc_k2] == g_S[vc_k2]",
 "(vc_k < x && vc_k < len) ==> dst[vc_k] == (unsigned char)(g_byte ^ g_ks)",
 "(vc_k >= x && vc_k < len) ==> src[vc_k] == g_byte"]
assigns = ["__CPROVER_object_whole(box)", "__CPROVER_object_whole(g_S)", "__CPROVER_object_whole(g_dst)", "g_i", "g_j", "g_ks"]
decreases = "len - x"
ghost = """ if(x == 0) { g_i = 0; g_j = 0; } g_i = (g_i + 1) % 256; $EQ(g_i)
 g_j = (g_j + g_S[g_i]) % 256; $EQ(g_j) { unsigned char g_t = g_S[g_i]; g_S[g_i] = g_S[g_j]; g_S[g_j] = g_t;
 unsigned char g_x = (unsigned char)(g_S[g_i] + g_S[g_j]); if(g_x != g_i && g_x != g_j) { $EQ(g_x) } if(x == vc_k) g_ks = g_S[g_x]; } """
[macro]
EQ = "__CPROVER_assume(box[#1] == g_S[#1]);"
IV = ""
*/
#define VC_NATIVE_MAX 600
#include "vc.h"
static unsigned char g_S[256], g_ks, g_byte, *g_dst; static size_t g_i, g_j;
#include "src/strlib/rc4.c"
#ifndef INPLACE
#define INPLACE 0
#endif
void harness(void) {
	VC_INIT();
	size_t n = nd_len();
#ifdef VC_PROOF
	size_t kl = nd_len1();
#else
	size_t kl = nd_range(1, 300);
#endif
	unsigned char *key = vc_mem(kl), *src = vc_mem(n), *dst = INPLACE ? src : vc_alloc(n);
	g_dst = dst;
#ifdef VC_PROOF
	/* the textbook initial permutation at every index the ghost reads; index k of S holds k */
	__CPROVER_havoc_object(g_S); g_i = g_j = 0; g_ks = nondet_u8();
	ASSUME(__CPROVER_forall { size_t q; (0 <= q && q < 256) ==> g_S[q] == (unsigned char) q });
	if(vc_k < n) g_byte = src[vc_k];
	rc4(dst, src, n, key, kl);
	if(vc_k < n) CHECK(dst[vc_k] == (unsigned char)(g_byte ^ g_ks), "message xored with the keystream");
#else
	unsigned char *ref = malloc(n + 1), S[256]; memcpy(ref, src, n);
	unsigned i, j; for(i = 0; i < 256; i++) S[i] = i;
	for(i = j = 0; i < 256; i++) { j = (j + S[i] + key[i % kl]) & 255; unsigned char t = S[i]; S[i] = S[j]; S[j] = t; }
	size_t k; for(i = j = k = 0; k < n; k++) {
		i = (i + 1) & 255; j = (j + S[i]) & 255; unsigned char t = S[i]; S[i] = S[j]; S[j] = t;
		ref[k] ^= S[(S[i] + S[j]) & 255];
	}
	rc4(dst, src, n, key, kl);
	for(k = 0; k < n; k++) CHECK(dst[k] == ref[k], "message xored with the keystream");
	free(ref);
#endif
	REACH("end");
}
