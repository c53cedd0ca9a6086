/*@unit
property = "P19"
functions = ["stringptrlist_find", "stringptrlist_contains", "stringptrlist_dup_entries", "stringptrlist_freestrings", "stringptrlist_freeall", "stringptrlist_add_strdup"]
lemma = "find designates the first equal entry, or none; dup replaces every entry's text by a copy and reports the first that failed; free releases every entry's text once and empties it; add_strdup appends a copy, or reports failure and keeps nothing"
cases = ["-DOP=0", "-DOP=1", "-DOP=2", "-DOP=3", "-DOP=4"]
bcases = [""]
timeout = 100
unwind = 2
fuzzlen = 200
nobounded = true
redirect = ["sblist_get:stub_get", "stringptr_eq:stub_eq", "stringptr_strdup:stub_sdup", "free:stub_fr", "sblist_free:stub_sfree", "sblist_add:stub_add"]
stubs = ["sblist_get, sblist_add, sblist_free (proved in units sblist_ops, sblist_life)", "stringptr_eq, stringptr_strdup (proved in unit sp_basic)", "free (libc)"]
[[loop]]
fn = "stringptrlist_find"
nth = 0
inv = ["i <= g_cnt && list == &g_list && what == g_what", "g_j < i ==> !g_eqj", "g_lasteq == 0"]
assigns = ["i, s, g_o, g_w, g_cur, g_lasteq"]
decreases = "g_cnt - i"
[[loop]]
fn = "stringptrlist_dup_entries"
nth = 0
inv = ["i <= g_cnt && l == &g_list && !oom_failed", "g_ndup == i", "g_j < i ? (g_w.ptr == g_pool + 1 && g_w.size == g_wl) : (g_w.ptr == g_wp && g_w.size == g_wl)"]
assigns = ["i, item, duped, g_o, g_w, g_cur, g_ndup, oom_failed"]
decreases = "g_cnt - i"
[[loop]]
fn = "stringptrlist_freestrings"
nth = 0
inv = ["i <= g_cnt && l == &g_list && !g_lf", "g_j < i ? (g_w.ptr == 0 && g_w.size == 0 && g_fw == (g_wp != 0)) : (g_w.ptr == g_wp && g_w.size == g_wl && g_fw == 0)"]
assigns = ["i, item, g_o, g_w, g_cur, g_fw"]
decreases = "g_cnt - i"
*/
#define NO_SPLIT
#include "sp_common.h"
#include "include/stringptrlist.h"
/* the entry watched is g_j (g_w); all others stand as g_o */
static size_t g_cnt, g_j, g_cur, g_ndup, g_wl; static int g_eqj, g_lasteq, g_fw, g_lf, g_added; static stringptr g_w, g_o, g_ws, *g_what; static char *g_wp, *g_pool; static sblist g_list;
#ifdef VC_CBMC
void *stub_get(sblist *l, size_t i); int stub_eq(stringptr *a, stringptr *b); char *stub_sdup(stringptr *s); void stub_fr(void *p); void stub_sfree(sblist *l); int stub_add(sblist *l, void *it);
#include "oom_end.h"
#else
#include "sl_native.h"
#include "oom.h"
#define malloc stub_malloc
#define free stub_free
#endif
#include "src/stringptrlist/stringptrlist_find.c"
#include "src/stringptrlist/stringptrlist_contains.c"
#include "src/stringptrlist/stringptrlist_dup_entries.c"
#include "src/stringptrlist/stringptrlist_freestrings.c"
#include "src/stringptrlist/stringptrlist_freeall.c"
#include "src/stringptrlist/stringptrlist_add_strdup.c"
#include "oom_end.h"
#ifdef VC_CBMC
void *stub_get(sblist *l, size_t i) { CHECK(l == &g_list && i < g_cnt, "an entry of the list"); g_cur = i; if(i == g_j) return &g_w; g_o.size = nondet_u64(); g_o.ptr = nondet_u8() ? g_pool : NULL; return &g_o; }
int stub_eq(stringptr *a, stringptr *b) {
	CHECK((a == g_what && (b == &g_w || b == &g_o)) || (b == g_what && (a == &g_w || a == &g_o)), "compares the entry with the text sought");
	if(a == &g_w || b == &g_w) { g_lasteq = g_eqj; return g_eqj; }
	g_lasteq = nondet_u8() & 1; return g_lasteq;
}
/* copies: the watched entry's is g_pool + 1, others g_pool + 2 */
char *stub_sdup(stringptr *s) {
	CHECK(s == &g_w || s == &g_o || s == g_what, "an entry");
	if(oom_fails()) { oom_failed = 1; return NULL; }
	g_ndup++; if(s == g_what) return g_pool + 1;
	if(s == &g_w) CHECK(g_w.ptr == g_wp, "copies the original once");
	return s == &g_w ? g_pool + 1 : g_pool + 2;
}
void stub_fr(void *p) {
	CHECK(p != NULL || 1, "free");
	if(g_added >= 0) { CHECK(p == g_pool + 1 && g_ndup == 1 && !g_fw, "the copy is dropped once"); g_fw++; return; }
	if(g_cur == g_j) { CHECK(p == g_wp, "frees the entry's text"); if(p) { CHECK(!g_fw, "once"); g_fw = 1; } } else CHECK(p == g_o.ptr, "frees the entry's text");
}
void stub_sfree(sblist *l) { CHECK(l == &g_list && !g_lf, "frees the list once"); g_lf = 1; }
int stub_add(sblist *l, void *it) {
	CHECK(l == &g_list && !g_fw && !g_added, "appends to the list"); CHECK(((stringptr*) it)->ptr == g_pool + 1 && ((stringptr*) it)->size == g_what->size && g_ndup == 1, "the copy with its size");
	if(oom_fails()) { oom_failed = 1; return 0; }
	g_added = 1; return 1;
}
#endif
#ifndef OP
#define OP nd_range(0, 4)
#endif
void harness(void) {
	VC_INIT();
	OOM_INIT();
#ifdef VC_CBMC
	g_dj = g_wo = 0; int op = OP;
	g_pool = vc_alloc(8); g_cnt = nd_u64(); g_j = nd_u64(); ASSUME(g_cnt < ((size_t) -1 >> 1)); g_list.count = g_list.capa = g_cnt; g_list.items = 0; g_list.itemsize = sizeof(stringptr);
	g_wl = nd_u64(); g_wp = nd_bool() ? g_pool + 3 : NULL; g_w.ptr = g_wp; g_w.size = g_wl; g_o.ptr = g_pool; g_o.size = 1; g_eqj = nd_bool(); g_lasteq = 0; g_fw = g_lf = 0; g_added = -1; g_cur = 0; g_ndup = 0;
	g_what = &g_ws; g_what->size = nd_u64(); g_what->ptr = g_pool;
	if(op == 0) {
		ssize_t r = stringptrlist_find(&g_list, &g_ws);
		if(r == -1) CHECK(!(g_j < g_cnt && g_eqj), "found when there");
		else { CHECK(r >= 0 && (size_t) r < g_cnt && (size_t) r == g_cur && g_lasteq, "designates an equal entry"); CHECK(!(g_j < (size_t) r) || !g_eqj, "the first one"); }
	} else if(op == 1) {
		int r = stringptrlist_contains(&g_list, &g_ws);
		if(!r) CHECK(!(g_j < g_cnt && g_eqj), "contained when there"); else CHECK(g_lasteq, "an equal entry is there");
	} else if(op == 2) {
		ssize_t r = stringptrlist_dup_entries(&g_list);
		CHECK((r == -1) == !oom_failed, "fails exactly when memory is out");
		size_t n = r == -1 ? g_cnt : (size_t) r; CHECK(n <= g_cnt && n == g_ndup, "the entries copied");
		if(g_j < n) CHECK(g_w.ptr == g_pool + 1 && g_w.size == g_wl, "replaced by its copy"); else CHECK(g_w.ptr == g_wp && g_w.size == g_wl, "as before");
	} else if(op == 3) {
		int all = nd_bool();
		if(all) { stringptrlist_freeall(NULL); CHECK(!g_lf, "nothing to free"); stringptrlist_freeall(&g_list); } else stringptrlist_freestrings(&g_list);
		CHECK(g_lf == all, "the list itself"); if(g_j < g_cnt) CHECK(g_fw == (g_wp != NULL) && !g_w.ptr && !g_w.size, "every entry's text once");
	} else {
		g_added = 0; int r = stringptrlist_add_strdup(&g_list, g_what);
		CHECK(r == !oom_failed && g_added == r, "appends exactly one copy, or reports failure");
		CHECK(g_fw == (!r && g_ndup == 1), "keeps nothing when it fails");
	}
#else
	sblist *l = sblist_new(sizeof(stringptr), 2); ASSUME(l); size_t n = nd_range(0, 8), i, m = 0; char ref[16][4]; size_t len[16]; if(oom_failed) ASSUME(0);
	for(i = 0; i < n; i++) {
		len[m] = nd_range(0, 3); for(size_t j = 0; j < len[m]; j++) ref[m][j] = 'a' + (nd_u8() & 1); stringptr s = {ref[m], len[m]};
		oom_failed = 0; int live = oom_live; int r = stringptrlist_add_strdup(l, &s); CHECK(r == !oom_failed, "append reports"); if(!r) CHECK(oom_live == live, "keeps nothing when it fails"); else m++;
		CHECK(stringptrlist_getsize(l) == m, "appends one");
	}
	char qb[4]; stringptr q = {qb, nd_range(0, 3)}; for(i = 0; i < q.size; i++) qb[i] = 'a' + (nd_u8() & 1);
	ssize_t want = -1; for(i = m; i--;) if(len[i] == q.size && !memcmp(ref[i], qb, q.size)) want = i;
	CHECK(stringptrlist_find(l, &q) == want && stringptrlist_contains(l, &q) == (want != -1), "first equal entry");
	for(i = 0; i < m; i++) { stringptr *p = stringptrlist_get(l, i); CHECK(p->size == len[i] && !memcmp(p->ptr, ref[i], len[i]) && p->ptr[len[i]] == 0, "copies"); }
	if(nd_bool()) {
		char *old[16]; for(i = 0; i < m; i++) old[i] = stringptrlist_get(l, i)->ptr; oom_failed = 0;
		ssize_t r = stringptrlist_dup_entries(l); CHECK((r == -1) == !oom_failed, "dup reports"); size_t k = r == -1 ? m : (size_t) r;
		for(i = 0; i < m; i++) { stringptr *p = stringptrlist_get(l, i); CHECK((i < k) == (p->ptr != old[i]), "copied up to the failure"); CHECK(p->size == len[i] && !memcmp(p->ptr, ref[i], len[i]), "same text"); if(i < k) stub_free(old[i]); }
	}
	if(nd_bool()) { stringptrlist_freestrings(l); for(i = 0; i < m; i++) CHECK(!stringptrlist_get(l, i)->ptr && !stringptrlist_get(l, i)->size, "emptied"); }
	stringptrlist_freeall(l); CHECK(oom_live == 0, "all released");
#endif
	REACH("end");
}
