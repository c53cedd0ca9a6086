/*@unit
property = "P19"
functions = ["stringptr_splits"]
lemma = "the pieces tile the text: each starts behind the previous delimiter, ends at the first occurrence of the delimiter from there or at the end of the text; only the first character of each such occurrence is overwritten; running out of memory is reported and nothing is kept"
timeout = 100
unwind = 1
fuzzlen = 200
nobounded = true
redirect = ["sblist_new:stub_new", "sblist_add:stub_add", "sblist_free:stub_sfree", "stringptr_here:stub_here"]
stubs = ["sblist_new, sblist_add, sblist_free (proved in units sblist_life, sblist_ops)", "stringptr_here (proved in unit sp_basic)"]
assume = ["stringptr_splits: the text has a writable byte behind it; the delimiter is not empty"]
[[loop]]
fn = "stringptr_splits"
nth = 0
inv = ["g_done ? i > g_n : i <= g_n", "!g_failed && !g_freed && i <= g_n + g_d", "!g_done ==> (linestart == g_next && g_next <= i)", "(!g_done && vc_k < i && vc_k >= g_next) ==> !g_occ", "(vc_k >= i && vc_k < g_n) ==> buf->ptr[vc_k] == g_v", "(vc_k < i && vc_k < g_n) ==> buf->ptr[vc_k] == (g_cut ? 0 : g_v)", "g_cut ==> (vc_k < i && g_occ)", "g_done ==> buf->ptr[g_n] == 0", "g_cut ==> (g_done || vc_k < g_next)"]
assigns = ["i, linestart, g_next, g_done, g_cut, g_failed, __CPROVER_object_whole(buf->ptr)"]
decreases = "g_n + g_d - i"
*/
#include "sp_common.h"
#include "include/stringptrlist.h"
static size_t g_n, g_next, g_d; static int g_done, g_cut, g_failed, g_freed, g_occ; static char g_v, *g_b; static stringptr *g_s, *g_dl; static sblist g_list;
#ifdef VC_CBMC
sblist *stub_new(size_t s, size_t n); int stub_add(sblist *l, void *item); void stub_sfree(sblist *l); int stub_here(stringptr *h, size_t pos, stringptr *n);
#else
#include "sl_native.h"
#endif
#include "src/stringptrlist/stringptr_splits.c"
#ifdef VC_CBMC
sblist *stub_new(size_t s, size_t n) { CHECK(s == sizeof(stringptr), "a list of strings"); if(oom_fails()) { g_failed = 1; return NULL; } return &g_list; }
int stub_add(sblist *l, void *item) {
	char *p = ((stringptr*) item)->ptr; size_t n = ((stringptr*) item)->size, e;
	CHECK(l == &g_list && !g_done && !g_freed && !g_failed, "pieces up to the end of the text");
	CHECK(p == g_b + g_next && n <= g_n - g_next, "a piece starts behind the previous delimiter and stays inside the text");
	e = g_next + n;
	CHECK(!(vc_k >= g_next && vc_k < e) || !g_occ, "no delimiter starts inside a piece");
	CHECK(e == g_n || vc_k != e || g_occ, "a piece ends at a delimiter or the end");
	CHECK(e == g_n || g_d <= g_n - e, "the delimiter lies inside the text");
	if(oom_fails()) { g_failed = 1; return 0; }
	if(e == g_n) g_done = 1; else { if(vc_k == e) g_cut = 1; g_next = e + g_d; }
	return 1;
}
void stub_sfree(sblist *l) { CHECK(l == &g_list && !g_freed, "frees the list once"); g_freed = 1; }
/* whether the delimiter stands at a position: decided for the witness position, arbitrary elsewhere; the text from there on must still be the original */
int stub_here(stringptr *h, size_t pos, stringptr *n) {
	int r;
	CHECK(h == g_s && n == g_dl && h->size == g_n && h->ptr == g_b && n->size == g_d, "searches the delimiter in the text");
	if(vc_k >= pos && vc_k < g_n) CHECK(h->ptr[vc_k] == g_v, "the text from the position on is the original");
	if(pos == vc_k) return g_occ;
	r = nondet_u8() & 1; if(r) ASSUME(pos <= g_n && g_d <= g_n - pos);
	return r;
}
#endif
void harness(void) {
	VC_INIT();
#ifdef VC_CBMC
	g_dj = g_wo = 0; oom_failed = oom_live = oom_calls = 0;
	stringptr *s = h_sp(1), *d = h_sp(0); g_s = s; g_dl = d; g_d = d->size; ASSUME(g_d > 0); g_n = s->size; g_b = s->ptr; g_next = 0; g_done = g_cut = g_failed = g_freed = 0; g_v = vc_k < g_n ? g_b[vc_k] : 0;
	g_occ = nd_bool(); if(g_occ) ASSUME(vc_k <= g_n && g_d <= g_n - vc_k);
	stringptrlist *r = stringptr_splits(s, d);
	CHECK((r == NULL) == g_failed, "fails exactly when memory is out");
	CHECK(s->size == g_n && s->ptr == g_b && d->size == g_d, "the texts stay in place");
	if(r) {
		CHECK(r == &g_list && !g_freed && g_done, "all pieces up to the end of the text");
		if(vc_k < g_n) CHECK(g_b[vc_k] == (g_cut ? 0 : g_v), "separating delimiters are cut, the rest stays");
		CHECK(g_b[g_n] == 0, "terminated");
	}
#else
	native_split(0);
#endif
	REACH("end");
}
