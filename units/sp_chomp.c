/*@unit
property = "P18"
functions = ["stringptr_chomp"]
lemma = "removes exactly the line breaks at the end, returns their number, terminates the rest and changes nothing else"
timeout = 100
unwind = 1
fuzzlen = 100
nobounded = true
[[loop]]
fn = "stringptr_chomp"
nth = 0
inv = ["s->size <= g_n && res == g_n - s->size && s->ptr == g_p", "vc_k < s->size ==> g_p[vc_k] == g_v", "(vc_k >= s->size && vc_k < g_n) ==> (g_v == 10 || g_v == 13)", "res > 0 ==> g_p[s->size] == 0"]
assigns = ["s->size, __CPROVER_object_whole(g_p)"]
decreases = "s->size"
*/
#include "sp_common.h"
static size_t g_n; static char *g_p, g_v;
#include "src/stringptr/stringptr_shiftleft.c"
#include "src/stringptr/stringptr_chomp.c"
void harness(void) {
	VC_INIT();
	CHECK(stringptr_chomp(NULL) == 0, "nothing to do");
#ifdef VC_CBMC
	g_dj = g_wo = 0; oom_failed = oom_live = oom_calls = 0;
	stringptr *s = h_sp(1); g_n = s->size; g_p = s->ptr; g_v = 0; if(vc_k < g_n) g_v = g_p[vc_k];
	size_t r = stringptr_chomp(s);
	CHECK(r == g_n - s->size && s->size <= g_n && s->ptr == g_p, "the number removed");
	if(s->size) CHECK(g_p[s->size - 1] != '\n' && g_p[s->size - 1] != '\r', "none is left");
	if(vc_k >= s->size && vc_k < g_n) CHECK(g_v == '\n' || g_v == '\r', "only line breaks are removed");
	if(vc_k < s->size) CHECK(g_p[vc_k] == g_v, "the rest stays");
	if(r) CHECK(g_p[s->size] == 0, "terminated");
#else
	stringptr *s = h_sp(1); size_t n = s->size, i, m; unsigned char o[200]; memcpy(o, s->ptr, n);
	size_t t = nd_range(0, 4); for(i = 0; i < t && i < n; i++) o[n - 1 - i] = s->ptr[n - 1 - i] = nd_bool() ? '\n' : '\r';
	for(m = n; m && (o[m - 1] == '\n' || o[m - 1] == '\r'); m--); s->ptr[n] = 7; char *p = s->ptr;
	size_t r = stringptr_chomp(s); CHECK(r == n - m && s->size == m && s->ptr == p, "size"); CHECK(!memcmp(p, o, m), "the rest stays"); if(r) CHECK(p[m] == 0, "terminated");
#endif
	REACH("end");
}
