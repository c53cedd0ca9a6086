/*@unit
property = "P32"
functions = ["mktempdir", "gen_fn"]
lemma = "tries the fast directory, then the ordinary one, with the given prefix and six free characters, inside the buffer; gives the length of the name made, 0 when none was made or it does not fit"
timeout = 100
unwind = 12
fuzzlen = 100
nobounded = true
stubs = ["ulz_mkdtemp (proved in unit ulz_mkdtemp)", "strlen, memcpy (libc)"]
*/
#define MEMCPY_FRESH
#include "sp_common.h"
#include "oom_end.h"
#include "include/strlib.h"
#include "include/filelib.h"
static char *g_b, *g_pre; static size_t g_pl, g_bs; static int g_calls, g_made;
static char spec_ch(size_t k) {
	const char *d = g_calls == 1 ? "/dev/shm/" : "/tmp/"; size_t l = g_calls == 1 ? 9 : 5;
	return k < l ? d[k] : k - l < g_pl ? g_pre[k - l] : k - l - g_pl < 6 ? 'X' : 0;
}
static char *stub_mkdtemp(char *t) {
	g_calls++; size_t n = (g_calls == 1 ? 9 : 5) + g_pl + 6, k;
	CHECK(t == g_b && !g_made && g_calls <= 2, "two tries"); CHECK(n < g_bs, "fits the buffer");
#ifdef VC_PROOF
	if(vc_k <= n) CHECK(t[vc_k] == spec_ch(vc_k), "directory, prefix and six free characters");
#else
	for(k = 0; k <= n; k++) CHECK(t[k] == spec_ch(k), "directory, prefix and six free characters");
#endif
	for(k = 0; k < 6; k++) t[n - 6 + k] = 'r';
	if(nd_bool()) { g_made = 1; return t; }
	return NULL;
}
#define ulz_mkdtemp stub_mkdtemp
#ifdef VC_PROOF
static size_t stub_len2(const char *s) { if(s == g_pre) return g_pl; size_t n = 0; while(s[n]) n++; return n; }
#define strlen stub_len2
#define memcpy stub_memcpy
#endif
#include "src/filelib/mktempdir.c"
#undef strlen
#undef memcpy
void harness(void) {
	VC_INIT(); g_pl = nd_len(); g_pre = vc_mem(g_pl + 1);
#ifdef VC_NATIVE
	for(size_t i = 0; i < g_pl; i++) if(!g_pre[i]) g_pre[i] = 'p';
	g_bs = nd_range(0, 100);
#else
	g_bs = nd_len(); g_dj = 0; g_wo = vc_k;
#endif
	g_pre[g_pl] = 0; g_b = vc_alloc(g_bs); g_calls = g_made = 0;
	size_t r = mktempdir(g_pre, g_b, g_bs);
	if(9 + g_pl + 7 > g_bs) CHECK(r == 0 && !g_calls, "does not fit");
	else if(g_made) CHECK(r == (g_calls == 1 ? 9 : 5) + g_pl + 6, "the length of the name");
	else CHECK(r == 0 && g_calls == 2, "both refused");
	REACH("end");
}
