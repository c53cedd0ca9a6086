/* ghost view of a treap: the sequence of a tree is described by its length and by the position
 * of one arbitrary witness node g_W in it (-1 when absent); that determines the sequence.
 * Subtrees below the unfolded part are opaque: a node with its count and the witness position. */
#define remove tl_remove
struct item; struct tlist;
void stub_merge(struct item **t, struct item *l, struct item *r);
void stub_split(struct item *t, struct item **l, struct item **r, unsigned key, unsigned add);
struct item *stub_getitem(struct item *t, unsigned idx, unsigned add);
void stub_insert(struct item **t, struct item *n, unsigned idx);
void stub_remove(struct item **t, unsigned idx, unsigned add);
int stub_delete_impl(struct tlist *t, size_t idx, int deep);
#include "oom.h"
#include "src/tlist/tlist.c"
#include "oom_end.h"
#ifdef VC_CBMC
struct gnode { struct item it; int64_t w; int conc; };
static pitem g_W;
static pitem h_node(void) { pitem n = vc_alloc(sizeof(struct gnode)); return n; }
/* any valid subtree of at least one node */
static pitem h_opaque(unsigned cnt, int64_t w) {
	pitem n = h_node(); struct gnode *g = (void*) n;
	n->cnt = cnt; g->w = w; g->conc = 0; return n;
}
#define CONC(n) (((struct gnode*)(n))->conc)
static int64_t spec_w0(pitem n) { return n ? ((struct gnode*) n)->w : -1; }
static uint64_t spec_l0(pitem n) { return n ? n->cnt : 0; }
#define SPECN(K, J) \
static uint64_t spec_l##K(pitem n) { return !n ? 0 : CONC(n) ? spec_l##J(n->l) + spec_l##J(n->r) + 1 : spec_l0(n); } \
static int64_t spec_w##K(pitem n) { if(!n || !CONC(n)) return spec_w0(n); \
	int64_t a = spec_w##J(n->l), b = spec_w##J(n->r), c = n == g_W; uint64_t ln = spec_l##J(n->l); \
	return c ? (int64_t) ln : a >= 0 ? a : b >= 0 ? (int64_t) ln + 1 + b : -1; } \
static int spec_ok##K(pitem n) { return !n || (n->cnt > 0 && (!CONC(n) || (spec_ok##J(n->l) && spec_ok##J(n->r) && n->cnt == spec_l##K(n)))); }
static int spec_ok0(pitem n) { return !n || (n->cnt > 0 && CONC(n) == 0); }
SPECN(1, 0)
SPECN(2, 1)
#ifndef DEPTH
#define DEPTH 1
#endif
#if DEPTH == 1
#define g_len spec_l1
#define g_pos spec_w1
#define g_ok spec_ok1
#else
#define g_len spec_l2
#define g_pos spec_w2
#define g_ok spec_ok2
#endif
/* the subtrees the unfolded part hangs on; the witness is in at most one place (g_used) */
static int g_used;
static pitem h_sub(void) {
	if(nd_bool()) return NULL;
	unsigned c = nd_u32(); int64_t w = -1; ASSUME(c > 0);
	if(!g_used && nd_bool()) { uint64_t x = nd_u64(); ASSUME(x < c); w = x; g_used = 1; }
	return h_opaque(c, w);
}
static pitem h_concrete(pitem l, pitem r) {
	pitem n = h_node(); n->l = l; n->r = r; CONC(n) = 1;
	uint64_t c = g_len(l) + g_len(r) + 1; ASSUME(c < UINT_MAX); n->cnt = c;
	if(!g_used && nd_bool()) { g_W = n; g_used = 1; }
	return n;
}
static pitem h_tree(void) { if(nd_bool()) return NULL; pitem l = h_sub(), r = h_sub(); return h_concrete(l, r); }
/* a node handed to a callee is no longer known to the caller */
static void h_dead(pitem n) { if(n) { n->cnt = nondet_u64(); n->l = n->r = 0; } }
static pitem h_fresh(uint64_t len, int64_t w) { return len ? h_opaque(len, w) : NULL; }
#ifndef CUSTOM_STUBS
static uint64_t g_measure;
void stub_merge(pitem *t, pitem l, pitem r) {
	CHECK(g_ok(l) && g_ok(r), "merges valid trees"); uint64_t a = g_len(l), b = g_len(r); int64_t x = g_pos(l), y = g_pos(r);
	CHECK(a + b < g_measure, "recursion gets smaller");
	h_dead(l); h_dead(r);
	*t = h_fresh(a + b, x >= 0 ? x : y >= 0 ? (int64_t) a + y : -1);
}
void stub_split(pitem t, pitem *l, pitem *r, unsigned key, unsigned add) {
	CHECK(g_ok(t) && add <= key, "splits a valid tree"); uint64_t n = g_len(t), k = key - add; int64_t x = g_pos(t);
	CHECK(n < g_measure, "recursion gets smaller");
	h_dead(t); if(k > n) k = n;
	*l = h_fresh(k, x >= 0 && x < (int64_t) k ? x : -1); *r = h_fresh(n - k, x >= (int64_t) k ? x - (int64_t) k : -1);
}
pitem stub_getitem(pitem t, unsigned idx, unsigned add) {
	CHECK(g_ok(t) && add <= idx, "looks into a valid tree"); uint64_t n = g_len(t); int64_t x = g_pos(t);
	CHECK(n < g_measure, "recursion gets smaller");
	if(idx - add >= n) return NULL;
	if(x == (int64_t) (idx - add)) return g_W;
	pitem o = h_node(); return o;      /* some other node */
}
void stub_remove(pitem *t, unsigned idx, unsigned add) {
	CHECK(g_ok(*t) && add <= idx, "removes from a valid tree"); uint64_t n = g_len(*t), k = idx - add; int64_t x = g_pos(*t);
	CHECK(n < g_measure, "recursion gets smaller");
	if(k >= n) return;
	h_dead(*t);
	*t = h_fresh(n - 1, x == (int64_t) k ? -1 : x > (int64_t) k ? x - 1 : x);
}
#endif
#else
static void native_tlist(void) {
	unsigned s = nd_range(1, 12); size_t n = 0, steps = nd_range(1, 40), i; unsigned char ref[64][16], it[16];
	int deep = nd_bool(); if(deep) s = sizeof(void*);
	oom_failed = 0; struct tlist *t = tlist_new(s); CHECK((t == NULL) == oom_failed, "new"); if(!t) return;
	while(steps--) {
		size_t pos = nd_range(0, n + 1); int r; void *p; if(nd_u8() == 1) pos += (size_t) 1 << 32;
		for(i = 0; i < s; i++) it[i] = nd_u8();
		oom_failed = 0;
		switch(nd_range(0, 4)) {
			case 0: case 1: if(deep) { p = malloc(1); memcpy(it, &p, s); }
				if(nd_bool()) { pos = n; r = tlist_append(t, it); } else r = tlist_insert(t, pos, it);
				CHECK(r == (pos <= n && !oom_failed), "insert reports"); if(deep && !r) free(p);
				if(r) { memmove(ref + pos + 1, ref + pos, (n - pos) * 16); memcpy(ref[pos], it, s); n++; } break;
			case 2: case 3: r = deep ? tlist_delete_deep(t, pos) : tlist_delete(t, pos); CHECK(r == (pos < n), "delete reports"); if(r) { memmove(ref + pos, ref + pos + 1, (n - pos - 1) * 16); n--; } break;
			case 4: p = tlist_get(t, pos); CHECK((p != NULL) == (pos < n), "get"); break;
		}
		CHECK(tlist_getsize(t) == n, "size");
		for(i = 0; i < n; i++) { p = tlist_get(t, i); CHECK(p && !memcmp(p, ref[i], s), "sequence"); }
		CHECK(tlist_get(t, n) == NULL, "nothing past the end");
		if(n > 60) break;
	}
	if(nd_bool()) { if(deep) tlist_free_items_deep(t); else tlist_free_items(t); CHECK(tlist_getsize(t) == 0, "emptied"); }
	CHECK((deep ? tlist_free_deep(t) : tlist_free(t)) == NULL, "free returns NULL");
}
#endif
