/*@unit
property = "P19"
functions = ["stringptrlist_tostring", "stringptrlist_tostring_dos"]
lemma = "the text is every entry in order, each followed by its line end, exactly sized and terminated; NULL when memory is out"
cases = ["-DDOS=0", "-DDOS=1"]
bcases = [""]
timeout = 100
unwind = 2
fuzzlen = 200
nobounded = true
redirect = ["sblist_get:stub_get", "stringptr_new:stub_spnew", "memcpy:stub_mc"]
stubs = ["sblist_get (proved in unit sblist_ops)", "stringptr_new (proved in unit sp_basic)", "memcpy (libc)"]
assume = ["stringptrlist_tostring: the size of the result does not exceed the address space"]
[[loop]]
fn = "stringptrlist_tostring"
nth = 0
inv = ["i <= g_cnt && i == g_i && i == g_gi && req == g_ps && req <= g_tot && !g_made", "i <= g_j ==> g_ps <= g_start", "i == g_j ==> g_ps == g_start", "i == g_cnt ==> req == g_tot"]
assigns = ["i, req, g_cur, g_i, g_gi, g_ps"]
decreases = "g_cnt - i"
ghost_end = "stub_next();"
[[loop]]
fn = "stringptrlist_tostring"
nth = 1
inv = ["i <= g_cnt && i == g_i && i == g_gi && req == g_ps && req <= g_tot && result == g_res && g_made && result->size == g_tot", "i == g_cnt ==> req == g_tot", "result->ptr[g_tot] == 0", "(i > g_j) ==> (g_off < g_ps && (g_o < g_len ? g_got == g_exp : result->ptr[g_off] == g_eol))", "i <= g_j ==> g_ps <= g_start", "i == g_j ==> g_ps == g_start"]
assigns = ["i, req, temp, g_cur, g_i, g_gi, g_ps, g_got, __CPROVER_object_whole(result->ptr)"]
decreases = "g_cnt - i"
ghost_end = "stub_next();"
[[loop]]
fn = "stringptrlist_tostring_dos"
nth = 0
inv = ["i <= g_cnt && i == g_i && i == g_gi && req == g_ps && req <= g_tot && !g_made", "i <= g_j ==> g_ps <= g_start", "i == g_j ==> g_ps == g_start", "i == g_cnt ==> req == g_tot"]
assigns = ["i, req, g_cur, g_i, g_gi, g_ps"]
decreases = "g_cnt - i"
ghost_end = "stub_next();"
[[loop]]
fn = "stringptrlist_tostring_dos"
nth = 1
inv = ["i <= g_cnt && i == g_i && i == g_gi && req == g_ps && req <= g_tot && result == g_res && g_made && result->size == g_tot", "i == g_cnt ==> req == g_tot", "result->ptr[g_tot] == 0", "(i > g_j) ==> (g_off < g_ps && (g_o < g_len ? g_got == g_exp : result->ptr[g_off] == g_eol))", "i <= g_j ==> g_ps <= g_start", "i == g_j ==> g_ps == g_start"]
assigns = ["i, req, temp, g_cur, g_i, g_gi, g_ps, g_got, __CPROVER_object_whole(result->ptr)"]
decreases = "g_cnt - i"
ghost_end = "stub_next();"
*/
#define NO_SPLIT
#include "sp_common.h"
#include "include/stringptrlist.h"
/* the list: g_cnt entries, their text g_tot bytes; g_ps: size of the text of the first g_i entries (in the current pass).  The entry watched is g_j, at its character or line end byte g_o */
static size_t g_cnt, g_tot, g_i, g_gi, g_ps, g_j, g_o, g_off, g_len, g_start, g_at; static int g_made; static char g_eol, *g_pool; static const char *g_exp, *g_got; static stringptr g_cur, *g_res; static sblist g_list;
#ifndef DOS
#define DOS 0
#endif
#define EOLN (DOS ? 2 : 1)
#ifdef VC_CBMC
void stub_next(void);
void *stub_get(sblist *l, size_t i); stringptr *stub_spnew(size_t n); void *stub_mc(void *d, const void *s, size_t n);
#else
#include "sl_native.h"
#endif
#include "src/stringptrlist/stringptrlist_tostring.c"
#include "src/stringptrlist/stringptrlist_tostring_dos.c"
#ifdef VC_CBMC
#define POOL ((size_t) 1 << 40)
void *stub_get(sblist *l, size_t i) {
	CHECK(l == &g_list && i < g_cnt && i == g_i, "takes the entries in order");
	if(g_gi != i + 1) {
		g_gi = i + 1;
		/* sizes of entries with their line ends: never past the whole, the last reaches it; the watched entry is the same in both passes */
		size_t n = nondet_u64(), at = nondet_u64(); ASSUME(at <= POOL && n <= POOL - at && g_tot - g_ps >= EOLN && n <= g_tot - g_ps - EOLN);
		if(i == g_cnt - 1) ASSUME(g_ps + n + EOLN == g_tot);
		if(i < g_j) { ASSUME(g_ps + n + EOLN <= g_start); if(i + 1 == g_j) ASSUME(g_ps + n + EOLN == g_start); }
		if(i == g_j) ASSUME(n == g_len && at == g_at);
		g_cur.size = n; g_cur.ptr = g_pool + at;
	}
	return &g_cur;
}
void stub_next(void) { g_ps += g_cur.size + EOLN; g_i++; }
stringptr *stub_spnew(size_t n) {
	CHECK(n == g_tot && !g_made, "room for the result");
	if(oom_fails()) { oom_failed = 1; return NULL; }
	g_made = 1; g_i = g_gi = g_ps = 0; stringptr *r = __CPROVER_allocate(sizeof *r, 0); r->ptr = __CPROVER_allocate(n + 1, 0); r->size = n; r->ptr[n] = 0; g_res = r; return r;
}
/* copies only note where the watched byte comes from */
void *stub_mc(void *d, const void *s, size_t n) {
	CHECK((n == 0 || __CPROVER_r_ok(s, n)) && __CPROVER_same_object(d, g_res->ptr) && (size_t) __CPROVER_POINTER_OFFSET(d) <= g_tot && n <= g_tot - (size_t) __CPROVER_POINTER_OFFSET(d), "copied range inside both objects");
	size_t o = __CPROVER_POINTER_OFFSET(d);
	if(g_off >= o && g_off - o < n) g_got = (const char*) s + (g_off - o);
	return d;
}
#endif
void harness(void) {
	VC_INIT();
	OOM_INIT();
#ifdef VC_CBMC
	g_dj = g_wo = 0;
	g_pool = vc_alloc(POOL); g_cnt = nd_u64(); g_tot = nd_u64(); ASSUME(g_cnt <= g_tot && g_tot <= (size_t) 1 << 50); if(g_cnt == 0) ASSUME(g_tot == 0);
	g_list.count = g_list.capa = g_cnt; g_list.items = 0; g_list.itemsize = sizeof(stringptr); g_made = 0; g_got = g_exp = NULL; g_res = NULL; g_len = g_o = g_off = g_start = g_i = g_gi = g_ps = g_at = 0;
	g_j = nd_u64(); ASSUME(g_j <= g_cnt);
	if(g_j < g_cnt) {
		g_len = nd_u64(); g_at = nd_u64(); g_o = nd_u64(); g_start = nd_u64(); ASSUME(g_len <= POOL && g_at <= POOL - g_len && g_o < g_len + EOLN && g_start <= g_tot && g_len + EOLN <= g_tot - g_start && (g_j != 0 || g_start == 0));
		if(g_j == g_cnt - 1) ASSUME(g_start + g_len + EOLN == g_tot);
		g_off = g_start + g_o; g_exp = g_o < g_len ? g_pool + g_at + g_o : NULL;
	} else g_start = g_tot;
	g_eol = DOS && g_o == g_len ? '\r' : '\n';
	stringptr *r = DOS ? stringptrlist_tostring_dos(&g_list) : stringptrlist_tostring(&g_list);
	CHECK((r == NULL) == oom_failed, "fails exactly when memory is out");
	if(r) {
		CHECK(r == g_res && r->size == g_tot && r->ptr[g_tot] == 0, "size and terminator");
		if(g_j < g_cnt) { if(g_o < g_len) CHECK(g_got == g_exp, "the entry's characters"); else CHECK(r->ptr[g_off] == g_eol, "the line end"); }
	}
#else
	sblist l; sblist_init(&l, sizeof(stringptr), 4); size_t n = nd_range(0, 8), i, w = 0; char want[400]; int dos = nd_bool();
	for(i = 0; i < n; i++) { size_t k = nd_range(0, 20); char *p = malloc(k + 1); for(size_t j = 0; j < k; j++) want[w++] = p[j] = nd_u8(); if(dos) want[w++] = '\r'; want[w++] = '\n'; while(!stringptrlist_add(&l, p, k)); }
	oom_failed = 0; int live = oom_live;
	stringptr *r = dos ? stringptrlist_tostring_dos(&l) : stringptrlist_tostring(&l);
	CHECK((r == NULL) == oom_failed, "fails exactly when memory is out");
	if(r) { CHECK(r->size == w && !memcmp(r->ptr, want, w) && r->ptr[w] == 0, "every entry with its line end"); stub_free(r); }
	CHECK(oom_live == live, "nothing else kept"); for(i = 0; i < n; i++) free(stringptrlist_get(&l, i)->ptr); sblist_free_items(&l);
#endif
	REACH("end");
}
