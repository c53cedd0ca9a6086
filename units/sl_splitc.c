/*@unit
property = "P19"
functions = ["stringptr_splitc"]
lemma = "the pieces tile the text: each starts where the previous delimiter ended, ends at the next delimiter or the end of the text, and contains none; every delimiter and nothing else is overwritten by a terminator; running out of memory is reported and nothing is kept"
timeout = 100
unwind = 1
fuzzlen = 200
nobounded = true
redirect = ["sblist_new:stub_new", "sblist_add:stub_add", "sblist_free:stub_sfree"]
stubs = ["sblist_new, sblist_add, sblist_free (proved in units sblist_life, sblist_ops)"]
assume = ["stringptr_splitc: the text has a writable byte behind it; the delimiter is a char value"]
[[loop]]
fn = "stringptr_splitc"
nth = 0
inv = ["i <= g_n + 1 && g_done == (i == g_n + 1) && !g_failed && !g_freed", "!g_done ==> (linestart == g_next && g_next <= i)", "(!g_done && vc_k < i && vc_k >= g_next) ==> g_v != delim", "(vc_k >= i && vc_k < g_n) ==> buf->ptr[vc_k] == g_v", "(vc_k < i && vc_k < g_n) ==> buf->ptr[vc_k] == (g_cut ? 0 : g_v)", "g_cut ==> (vc_k < i && g_v == delim)", "g_done ==> buf->ptr[g_n] == 0", "(vc_k < i && vc_k < g_n && g_v == delim) ==> g_cut"]
assigns = ["i, linestart, g_next, g_done, g_cut, g_failed, __CPROVER_object_whole(buf->ptr)"]
decreases = "g_n + 1 - i"
*/
#include "sp_common.h"
#include "include/stringptrlist.h"
static size_t g_n, g_next; static int g_done, g_cut, g_failed, g_freed; static char g_v, *g_b; static int g_dl; static sblist g_list;
#ifdef VC_CBMC
sblist *stub_new(size_t s, size_t n); int stub_add(sblist *l, void *item); void stub_sfree(sblist *l);
#else
#include "sl_native.h"
#endif
#include "src/stringptrlist/stringptr_splitc.c"
#ifdef VC_CBMC
sblist *stub_new(size_t s, size_t n) { CHECK(s == sizeof(stringptr), "a list of strings"); if(oom_fails()) { g_failed = 1; return NULL; } return &g_list; }
int stub_add(sblist *l, void *item) {
	char *p = ((stringptr*) item)->ptr; size_t n = ((stringptr*) item)->size, e;
	CHECK(l == &g_list && !g_done && !g_freed && !g_failed, "pieces up to the end of the text");
	CHECK(p == g_b + g_next && n <= g_n - g_next, "a piece starts behind the previous delimiter and stays inside the text");
	e = g_next + n;
	CHECK(!(vc_k >= g_next && vc_k < e) || g_v != g_dl, "no delimiter inside a piece");
	CHECK(e == g_n || vc_k != e || g_v == g_dl, "a piece ends at a delimiter or the end");
	if(oom_fails()) { g_failed = 1; return 0; }
	if(e == g_n) g_done = 1; else { if(vc_k == e) g_cut = 1; g_next = e + 1; }
	return 1;
}
void stub_sfree(sblist *l) { CHECK(l == &g_list && !g_freed, "frees the list once"); g_freed = 1; }
#endif
void harness(void) {
	VC_INIT();
#ifdef VC_CBMC
	g_dj = g_wo = 0; oom_failed = oom_live = oom_calls = 0;
	stringptr *s = h_sp(1); g_n = s->size; g_b = s->ptr; g_next = 0; g_done = g_cut = g_failed = g_freed = 0; g_dl = (char) nd_u8(); g_v = vc_k < g_n ? g_b[vc_k] : 0;
	stringptrlist *r = stringptr_splitc(s, g_dl);
	CHECK((r == NULL) == g_failed, "fails exactly when memory is out");
	CHECK(s->size == g_n && s->ptr == g_b, "the text stays in place");
	if(r) {
		CHECK(r == &g_list && !g_freed && g_done, "all pieces up to the end of the text");
		if(vc_k < g_n) CHECK(g_b[vc_k] == (g_v == g_dl ? 0 : g_v), "delimiters become terminators, the rest stays");
		CHECK(g_b[g_n] == 0, "terminated");
	}
#else
	native_split(1);
#endif
	REACH("end");
}
