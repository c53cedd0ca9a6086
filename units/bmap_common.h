/* contracts of the list functions bmap is built on (proved in units tglist_ops, tglist_sorted), of bsearch, and the
 * representation invariant of a bmap at the witness entries: equal counts, keys strictly sorted */
#ifndef BMAP_COMMON_H
#define BMAP_COMMON_H
#include "vc.h"
#include "oom.h"
#ifdef VC_CBMC
int stub_grow(void *l, size_t s); int stub_mm(void *l, size_t p, int d, size_t s);
size_t stub_ins(void *l, void *o, size_t s, int (*c)(const void*, const void*));
void *stub_bsearch(const void *k, const void *b, size_t n, size_t s, int (*c)(const void*, const void*));
#define bsearch stub_bsearch
#endif
#ifdef GI
#define BMAP_USE_TGILIST
#endif
#ifdef HB
#include "include/hbmap.h"
#else
#include "include/bmap.h"
#endif
#define RANK(k) ((int64_t)(k) >> 2)
static int cmp(const void *a, const void *b) { int64_t x = RANK(*(const int64_t*) a), y = RANK(*(const int64_t*) b); return x < y ? -1 : x > y; }
typedef bmap_decl(tt, int64_t, long) BT;
#ifdef VC_CBMC
#define tglist_grow_if_needed stub_grow
#define tglist_memmove_impl stub_mm
#define tglist_insert_sorted_impl stub_ins
#define NMAX (1u << 27)
static BT *X; static size_t g_w, g_w2, g_vw;   /* witness entries; item slot of entry g_w (index layer) */
static size_t g_n; static int64_t g_kw, g_kw2;
#ifdef GI
#define VL (X->values.index)
typedef unsigned VE;
#else
#define VL (X->values)
typedef long VE;
#endif
/* entry positions at which contents are carried: the witnesses and their neighbours (moved by one) */
#define PV(i, w) ((i) == 0 ? (w) : (i) == 1 ? (w) + 1 : (w) - 1)
int stub_grow(void *l, size_t s) {
	size_t *c = l, cnt = c[0], capa = c[1];
	CHECK(cnt <= capa, "a valid list");
	if(cnt < capa) return 1;
	if(nondet_u8()) { oom_failed = 1; return 0; }
	if(l == (void*) &VL) {
		CHECK(s == sizeof(VE), "item size");
		VE *o = VL.items, *n = vc_alloc((capa + 1) * sizeof(VE));
		if(g_w < cnt) n[g_w] = o[g_w];
		VL.items = n; VL.capa = capa + 1;
		return 1;
	}
#ifdef GI
	CHECK(l == &X->values.items && s == sizeof(long), "one of the lists");
	long *o = X->values.items.items, *n = vc_alloc((capa + 1) * sizeof(long));
	if(g_vw < cnt) n[g_vw] = o[g_vw];
	X->values.items.items = n; X->values.items.capa = capa + 1;
	return 1;
#else
	CHECK(0, "one of the lists"); return 1;
#endif
}
#define MM(T, L) do { \
	size_t cnt = (L).count, from = p + d, n = cnt - from; T *it = (L).items; T v[6]; size_t w[6]; int in[6], i; \
	CHECK(s == sizeof(T), "item size"); \
	CHECK(from <= cnt && (n == 0 || p + n <= (L).capa), "moved range inside the list"); \
	w[0] = g_w; w[1] = g_w + 1; w[2] = g_w - 1; w[3] = g_w2; w[4] = g_w2 + 1; w[5] = g_w2 - 1; \
	for(i = 0; i < 6; i++) { in[i] = w[i] < (L).capa; v[i] = 0; if(in[i]) v[i] = w[i] >= p && w[i] - p < n ? it[w[i] + d] : it[w[i]]; } \
	if(n) { __CPROVER_havoc_object(it); for(i = 0; i < 6; i++) if(in[i]) ASSUME(it[w[i]] == v[i]); } \
	} while(0)
int stub_mm(void *l, size_t p, int d, size_t s) {
	CHECK(d == 1 || d == -1, "moves by one");
	if(l == (void*) &X->keys) MM(int64_t, X->keys);
	else { CHECK(l == (void*) &VL, "one of the lists"); MM(VE, VL); }
	return 1;
}
/* sorted insertion: -1 and unchanged, or at a position keeping the order */
size_t stub_ins(void *l, void *o, size_t s, int (*c)(const void*, const void*)) {
	CHECK(l == (void*) &X->keys && s == sizeof(int64_t) && c == cmp, "inserts into the keys with the map's order");
	if(nondet_u8()) { oom_failed = 1; return -1; }
	size_t n = X->keys.count, r = nondet_u64(); ASSUME(r <= n); int64_t k = *(int64_t*) o;
	int64_t *it = X->keys.items, *nw = vc_alloc((n + 1) * sizeof(int64_t));
	if(g_w < n) { ASSUME(g_w < r ? RANK(it[g_w]) <= RANK(k) : RANK(it[g_w]) >= RANK(k)); nw[g_w < r ? g_w : g_w + 1] = it[g_w]; }
	if(g_w2 < n) { ASSUME(g_w2 < r ? RANK(it[g_w2]) <= RANK(k) : RANK(it[g_w2]) >= RANK(k)); nw[g_w2 < r ? g_w2 : g_w2 + 1] = it[g_w2]; }
	nw[r] = k; X->keys.items = nw; X->keys.count = n + 1; X->keys.capa = n + 1;
	return r;
}
/* bsearch on a sorted array: an element that compares equal, or NULL when there is none */
void *stub_bsearch(const void *k, const void *b, size_t n, size_t s, int (*c)(const void*, const void*)) {
	const int64_t *it = b; int64_t key = *(const int64_t*) k;
	CHECK(it == X->keys.items && n == X->keys.count && s == sizeof(int64_t) && c == cmp, "searches the keys with the map's order");
	size_t i = nondet_u64();
	if(i < n) {
		ASSUME(RANK(it[i]) == RANK(key));
		/* strictly sorted, at the pairs with the witnesses */
		if(g_w < n) ASSUME(i < g_w ? RANK(it[i]) < RANK(it[g_w]) : i > g_w ? RANK(it[i]) > RANK(it[g_w]) : 1);
#ifdef GI
		/* index inside the items, no duplicates, at this entry */
		ASSUME(VL.items[i] < X->values.items.count); if(g_w < n && i != g_w) ASSUME(VL.items[i] != g_vw);
#endif
#ifdef FOUND
		ASSUME(FOUND);
#endif
		return (void*) (it + i);
	}
	if(g_w < n) ASSUME(RANK(it[g_w]) != RANK(key));
	if(g_w2 < n) ASSUME(RANK(it[g_w2]) != RANK(key));
#ifdef FOUND
	ASSUME(!FOUND);
#endif
	return NULL;
}
static void sym_bmap(BT *b) {
	X = b; b->compare = cmp;
	size_t n = nd_range(0, NMAX), kc = nd_range(0, 2 * NMAX), vc = nd_range(0, 2 * NMAX); ASSUME(kc >= n && vc >= n);
	b->keys.count = n; b->keys.capa = kc; b->keys.items = vc_alloc(kc * sizeof(int64_t));
	VL.count = n; VL.capa = vc; VL.items = vc_alloc(vc * sizeof(VE));
	g_w = nd_range(0, 2 * NMAX); g_w2 = nd_range(0, 2 * NMAX); g_n = n; g_vw = 0; g_kw = g_kw2 = 0;
#ifdef GI
	size_t in = nd_range(0, 2 * NMAX), ic = nd_range(0, 2 * NMAX); ASSUME(in <= ic);
	b->values.items.count = in; b->values.items.capa = ic; b->values.items.items = vc_alloc(ic * sizeof(long));
	if(g_w < n) { ASSUME(VL.items[g_w] < in); g_vw = VL.items[g_w]; }
#endif
	if(g_w < n) g_kw = b->keys.items[g_w];
	if(g_w2 < n) g_kw2 = b->keys.items[g_w2];
	if(g_w < n && g_w2 < n) ASSUME(g_w < g_w2 ? RANK(g_kw) < RANK(g_kw2) : g_w2 < g_w ? RANK(g_kw) > RANK(g_kw2) : 1);
}
#endif
#endif
