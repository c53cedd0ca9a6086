/*@unit
property = "P09"
functions = ["md5str"]
lemma = "the text is the lower-case hex of the digest of exactly the given bytes, terminated, in 33 characters"
unwind = 17
fuzzlen = 120
stubs = ["md5_init, md5_update, md5_end: contracts proved in units md5_*; here an abstract digest"]
links = ["src/strlib/raw2hex.c"]
*/
#include "vc.h"
#ifdef VC_CBMC
#include "include/md5.h"
static int g_st; static md5_ctx *g_c; static const void *g_src; static size_t g_len; static unsigned char g_dig[16];
void stub_init(md5_ctx *c) { CHECK(g_st == 0, "initialised once, first"); g_st = 1; g_c = c; }
void stub_update(md5_ctx *c, const void *d, size_t n) { CHECK(g_st == 1 && c == g_c && d == g_src && n == g_len, "fed exactly the bytes"); g_st = 2; }
void stub_end(const md5_ctx *c, void *o) { CHECK(g_st == 2 && c == g_c, "finished"); for(int i = 0; i < 16; i++) ((unsigned char*) o)[i] = g_dig[i]; g_st = 3; }
#define md5_init stub_init
#define md5_update stub_update
#define md5_end stub_end
#endif
#include "src/md5/md5str.c"
#ifndef VC_CBMC
#include "md5_ref.h"
#endif
void harness(void) {
	VC_INIT();
	size_t n = nd_len(); unsigned char *s = vc_mem(n); char *dst = vc_alloc(33);
#ifdef VC_CBMC
	g_src = s; g_len = n; g_st = 0; for(int i = 0; i < 16; i++) g_dig[i] = nd_u8();
	md5str(dst, s, n);
	CHECK(g_st == 3, "a digest was made");
#else
	unsigned char g_dig[16]; ref_md5(s, n, g_dig);
	md5str(dst, s, n);
#endif
	for(int i = 0; i < 16; i++) {
		int h = g_dig[i] >> 4, l = g_dig[i] & 15;
		CHECK(dst[2*i] == (h < 10 ? '0' + h : 'a' + h - 10) && dst[2*i+1] == (l < 10 ? '0' + l : 'a' + l - 10), "hex of the digest");
	}
	CHECK(dst[32] == 0, "terminated");
	REACH("end");
}
