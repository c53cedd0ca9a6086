/*@unit
property = "P19"
functions = ["stringptr_replace"]
lemma = "the result is the pieces between the occurrences of the pattern with the replacement between each two of them, exactly sized and terminated; running out of memory is reported; the list of pieces is released on every path"
timeout = 200
unwind = 2
fuzzlen = 200
nobounded = true
redirect = ["stringptr_splits:stub_splits", "sblist_get:stub_get", "sblist_free:stub_sfree", "stringptr_new:stub_spnew", "memcpy:stub_mc", "free:stub_fr", "*:stub_mul"]
stubs = ["stringptr_splits (proved in unit sl_splits)", "sblist_get, sblist_free (proved in units sblist_ops, sblist_life)", "stringptr_new (proved in unit sp_basic)", "memcpy (libc)"]
assume = ["stringptr_replace: the pattern is not empty; the size of the result does not exceed the address space"]
[[loop]]
fn = "stringptr_replace"
nth = 0
inv = ["i <= g_cnt && i == g_i && w == g_w && g_gi == g_i", "g_w <= g_tot && g_src <= g_n", "i == g_cnt ==> g_w == g_tot", "!g_freed && l == &g_list", "g_got == g_exp", "vc_k < g_w ==> g_exp != 0", "vc_k >= g_w ==> g_exp == 0"]
assigns = ["i, w, temp, g_i, g_w, g_src, g_exp, g_got, g_cur, g_gi"]
decreases = "g_cnt - i"
ghost_end = "stub_next();"
*/
#include "sp_common.h"
#include "include/stringptrlist.h"
/* the pieces: g_cnt of them; g_A0, g_B0: g_cnt - 1 times the size of the pattern, of the replacement; g_w, g_src: where piece g_i lies in result and text */
static size_t g_n, g_dn, g_rn, g_cnt, g_i, g_w, g_tot, g_src, g_gi, g_A0, g_B0, g_k;
static int g_freed, g_split, g_made; static char *g_b; static const char *g_exp, *g_got;   /* where the witness byte of the result has to come from, and comes from */
 static stringptr g_cur, *g_s, *g_dl, *g_rp; static sblist g_list; static stringptr *g_res;
#ifdef VC_CBMC
stringptrlist *stub_splits(stringptr *b, stringptr *d); void *stub_get(sblist *l, size_t i); void stub_sfree(sblist *l); stringptr *stub_spnew(size_t n); void *stub_mc(void *d, const void *s, size_t n); size_t stub_mul(size_t a, size_t b); void stub_next(void); void stub_fr(void *p);
#include "oom_end.h"
#else
#include "sl_native.h"
#define malloc stub_malloc
#define calloc stub_calloc
#define realloc stub_realloc
#define free stub_free
#include "src/stringptrlist/stringptr_splits.c"
#endif
#include "src/stringptrlist/stringptr_replace.c"
#include "oom_end.h"
#ifdef VC_CBMC
/* products by the number of separators: the first piece's values of the ghosts */
size_t stub_mul(size_t a, size_t b) {
	CHECK(g_split && ((a == g_cnt - 1 && (b == g_dn || b == g_rn)) || (b == g_cnt - 1 && (a == g_dn || a == g_rn))), "separators counted");
	size_t o = a == g_cnt - 1 ? b : a;
	return o == g_dn ? g_A0 : g_B0;
}
stringptrlist *stub_splits(stringptr *b, stringptr *d) {
	CHECK(b == g_s && d == g_dl && !g_split, "splits the text at the pattern once"); g_split = 1;
	if(oom_fails()) { oom_failed = 1; return NULL; }
	/* pieces tile the text: their sizes and the separators sum to its size */
	g_list.count = g_cnt; g_list.items = 0; g_list.itemsize = sizeof(stringptr); g_list.capa = g_cnt; return &g_list;
}
stringptr *stub_spnew(size_t n) {
	CHECK(n == g_tot && !g_made, "room for the result"); g_made = 1;
	if(oom_fails()) { oom_failed = 1; return NULL; }
	stringptr *r = __CPROVER_allocate(sizeof *r, 0); r->ptr = __CPROVER_allocate(n + 1, 0); r->size = n; r->ptr[n] = 0; g_res = r; return r;
}
/* piece i, at the source position reached; its size is what the tiling leaves possible */
void *stub_get(sblist *l, size_t i) {
	CHECK(l == &g_list && !g_freed && i == g_i && i < g_cnt, "takes the pieces in order");
	if(g_gi != i + 1) {
		g_gi = i + 1;
		size_t n = nondet_u64(), sep = i == g_cnt - 1 ? 0 : g_rn; ASSUME(n <= g_n - g_src && n <= g_tot - g_w);
		/* tiling: sizes of the pieces and g_cnt - 1 separators sum to the size of the text; hence pieces and replacements to g_tot */
		ASSUME(sep <= g_tot - g_w - n && (i == g_cnt - 1 ? g_w + n == g_tot : g_dn <= g_n - g_src - n));
		g_cur.ptr = g_b + g_src; g_cur.size = n;
	}
	return &g_cur;
}
void *stub_mc(void *d, const void *s, size_t n) {
	CHECK((n == 0 || __CPROVER_r_ok(s, n)) && __CPROVER_same_object(d, g_res->ptr) && (size_t) __CPROVER_POINTER_OFFSET(d) <= g_tot && n <= g_tot - (size_t) __CPROVER_POINTER_OFFSET(d), "copied range inside both objects");
	size_t o = __CPROVER_POINTER_OFFSET(d);
	if(vc_k >= o && vc_k - o < n) g_got = (const char*) s + (vc_k - o);
	return d;
}
/* end of a turn: the piece, then (unless it is the last) the replacement, are due in the result */
void stub_next(void) {
	size_t n = g_cur.size;
	if(vc_k >= g_w && vc_k - g_w < n) g_exp = g_cur.ptr + (vc_k - g_w);
	g_w += n; g_src += n;
	if(g_i != g_cnt - 1) {
		if(vc_k >= g_w && vc_k - g_w < g_rn) g_exp = g_rp->ptr + (vc_k - g_w);
		g_w += g_rn; g_src += g_dn;
	}
	g_i++;
}
void stub_sfree(sblist *l) { CHECK(l == &g_list && g_split && !g_freed, "releases the pieces once"); g_freed = 1; }
void stub_fr(void *p) { CHECK(0, "the list is released with its items"); }
#endif
void harness(void) {
	VC_INIT();
	OOM_INIT();
#ifdef VC_CBMC
	g_dj = g_wo = 0;
	stringptr *s = h_sp(1), *d = h_sp(0), *p = h_sp(0); g_s = s; g_dl = d; g_rp = p; g_n = s->size; g_dn = d->size; g_rn = p->size; g_b = s->ptr; ASSUME(g_dn > 0);
	g_cnt = nd_u64(); ASSUME(g_cnt > 0 && g_cnt <= g_n + 1); g_i = g_w = g_src = g_gi = g_freed = g_split = g_made = 0; g_exp = g_got = NULL; g_res = NULL;
	/* (g_cnt - 1) * size of pattern and replacement */
	g_A0 = nd_u64(); g_B0 = nd_u64(); ASSUME(g_A0 <= g_n && g_B0 <= (size_t) 1 << 50);
	if(g_cnt == 1) ASSUME(g_A0 == 0 && g_B0 == 0); else ASSUME(g_A0 >= g_dn && g_B0 >= g_rn);
	if(g_dn == g_rn) ASSUME(g_A0 == g_B0);
	g_tot = g_n - g_A0 + g_B0;
	stringptr *r = stringptr_replace(s, d, p);
	CHECK((r == NULL) == oom_failed, "fails exactly when memory is out");
	CHECK(!g_split || g_freed || (oom_failed && !g_made), "the list of pieces is released");
	if(r) {
		CHECK(r == g_res && r->size == g_tot && r->ptr[g_tot] == 0, "size and terminator");
		if(vc_k < g_tot) CHECK(g_exp && g_got == g_exp, "the pieces with the replacement between them");
	}
#else
	stringptr s, d, p; native_text(&s, 30); native_text(&d, 3); native_text(&p, 3); if(!d.size) ASSUME(0);
	char *o = malloc(s.size + 1), *want = malloc(s.size * 4 + 10); size_t i, w = 0; memcpy(o, s.ptr, s.size);
	for(i = 0; i < s.size;) if(d.size <= s.size - i && !memcmp(o + i, d.ptr, d.size)) { memcpy(want + w, p.ptr, p.size); w += p.size; i += d.size; } else want[w++] = o[i++];
	stringptr *r = stringptr_replace(&s, &d, &p);
	CHECK((r == NULL) == oom_failed, "fails exactly when memory is out");
	if(r) { CHECK(r->size == w && !memcmp(r->ptr, want, w) && r->ptr[w] == 0, "every occurrence replaced, nothing else"); stub_free(r); }
	CHECK(oom_live == 0, "all released");
#endif
	REACH("end");
}
