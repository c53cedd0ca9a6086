/*@unit
property = "P15"
functions = ["tgilist_add", "tgilist_insert", "tgilist_set", "tgilist_get", "tgilist_delete", "tgilist_new", "tgilist_init", "tgilist_free"]
lemma = "from every valid indexed list each operation yields exactly the sequence it denotes, stored items keep their place, the index stays inside the items and without duplicates, and running out of memory leaves the sequence unchanged"
cases = ["-DOP=0", "-DOP=1", "-DOP=2", "-DOP=3", "-DOP=4"]
bcases = [""]
redirect = ["tglist_grow_if_needed:stub_grow", "tglist_memmove_impl:stub_mm"]
timeout = 200
unwind = 1
fuzzlen = 300
nobounded = true
assume = ["tgilist: fewer than 2^27 items; positions valid (not checked, as documented); the index type can hold the number of items ever added (documented)"]
stubs = ["tglist_grow_if_needed, tglist_memmove_impl (contracts proved in unit tglist_ops), stated at the witness entries", "calloc, free (libc)"]
*/
#include "vc.h"
#include "oom.h"
#ifdef VC_CBMC
int stub_grow(void *l, size_t s); int stub_mm(void *l, size_t p, int d, size_t s);
#endif
#include "include/tgilist.h"
typedef tgilist_decl(tt, long, unsigned) LT;
#ifndef OP
#define OP 0
#endif
#ifdef VC_CBMC
/* calls from the macros used in the harness itself go to the contracts too */
#define tglist_grow_if_needed stub_grow
#define tglist_memmove_impl stub_mm
static LT *X; static size_t g_q, g_src, g_pos, g_other; static unsigned g_vs, g_vp, g_vo;
int stub_grow(void *l, size_t s) {
	size_t *c = l, cnt = c[0], capa = c[1];   /* count, capa: first members of every tglist */
	CHECK((l == &X->index && s == sizeof(unsigned)) || (l == &X->items && s == sizeof(long)), "one of the two lists");
	if(cnt < capa) return 1;
	if(nondet_u8()) { oom_failed = 1; return 0; }
	if(l == &X->index) {
		unsigned *o = X->index.items, *n = vc_alloc((capa + 1) * sizeof(unsigned));
		if(g_q < cnt) n[g_q] = o[g_q];
		if(g_src < cnt) n[g_src] = o[g_src];
		if(g_pos < cnt) n[g_pos] = o[g_pos];
		if(g_other < cnt) n[g_other] = o[g_other];
		X->index.items = n; X->index.capa = capa + 1;
	} else {
		long *o = X->items.items, *n = vc_alloc((capa + 1) * sizeof(long));
		if(g_vs < cnt) n[g_vs] = o[g_vs];
		if(g_vp < cnt) n[g_vp] = o[g_vp];
		if(g_vo < cnt) n[g_vo] = o[g_vo];
		X->items.items = n; X->items.capa = capa + 1;
	}
	return 1;
}
int stub_mm(void *l, size_t p, int d, size_t s) {
	CHECK(l == &X->index && s == sizeof(unsigned), "only the index is moved");
	size_t cnt = X->index.count, from = p + d, n = cnt - from;
	CHECK(from <= cnt && (n == 0 || p + n <= X->index.capa), "moved range inside the index");
	unsigned v = 0, *it = X->index.items; int in = g_q < X->index.capa;
	if(in) v = g_q >= p && g_q - p < n ? it[g_q + d] : it[g_q];
	if(n) { __CPROVER_havoc_object(it); if(in) ASSUME(it[g_q] == v); }
	return 1;
}
#endif
void harness(void) {
	VC_INIT(); OOM_INIT();
#ifdef VC_CBMC
	if(OP == 4) {
#define calloc stub_calloc
#define free stub_free
		LT *z = tgilist_new(); CHECK((z == NULL) == oom_failed, "fails exactly when memory is out");
		if(z) { CHECK(tgilist_getsize(z) == 0 && tgilist_empty(z) && z->items.count == 0 && z->index.items == NULL && z->items.items == NULL, "empty"); tgilist_free(z); CHECK(oom_live == 0, "released"); }
		LT y; y.index.count = nd_u64(); tgilist_init(&y); CHECK(y.index.count == 0 && y.items.count == 0 && y.index.items == NULL && y.items.items == NULL, "initialised empty");
#undef calloc
#undef free
	} else {
	X = vc_alloc(sizeof *X); size_t n, ni, pos;
	X->index.capa = nd_range(0, 1u << 27); X->index.count = n = nd_range(0, X->index.capa); X->items.capa = nd_range(0, 1u << 27); X->items.count = ni = nd_range(0, X->items.capa);
	X->index.items = vc_alloc(X->index.capa * sizeof(unsigned)); X->items.items = vc_alloc(X->items.capa * sizeof(long));
	long it = nd_u64(); pos = nd_range(0, 1u << 28); size_t q = nd_range(0, 1u << 28), src = q, nn = n; int isnew = 0;
	if(OP == 0) { nn = n + 1; isnew = q == n; }
	if(OP == 1) { ASSUME(pos <= n); nn = n + 1; isnew = q == pos; if(q > pos) src = q - 1; }
	if(OP == 2) { ASSUME(pos < n); nn = n - 1; if(q >= pos) src = q + 1; }
	if(OP == 3) { ASSUME(pos < n); isnew = q == pos; }
	g_q = q; g_src = src; g_pos = pos; g_other = nd_range(0, 1u << 28);
	/* representation invariant at the entries used: index inside the items, no duplicates */
#define E(i) (X->index.items[i])
	if(q < n) ASSUME(E(q) < ni);
	if(src < n) ASSUME(E(src) < ni);
	if(pos < n) ASSUME(E(pos) < ni);
	if(q < n && pos < n && q != pos) ASSUME(E(q) != E(pos));
	if(q < n && src < n && q != src) ASSUME(E(q) != E(src));
	g_vs = src < n ? E(src) : 0; g_vp = pos < n ? E(pos) : 0; g_vo = q < n ? E(q) : 0;
	long old = src < n ? X->items.items[g_vs] : 0, keep = q < n ? X->items.items[g_vo] : 0;
	int r = 1;
	if(OP == 0) r = tgilist_add(X, it);
	if(OP == 1) r = tgilist_insert(X, it, pos);
	if(OP == 2) r = tgilist_delete(X, pos);
	if(OP == 3) r = tgilist_set(X, it, pos);
	CHECK(r == !oom_failed, "reports success exactly when it succeeded");
	CHECK(X->index.count <= X->index.capa && X->items.count <= X->items.capa && X->items.count <= ni + 1, "representation invariant");
	if(r) {
		CHECK(tgilist_getsize(X) == nn, "number of items");
		if(q < nn) { CHECK(E(q) < X->items.count, "index inside the items"); CHECK(tgilist_get(X, q) == (isnew ? it : old), "item of the denoted sequence");
			if(OP != 3) CHECK(isnew ? E(q) >= ni : E(q) == g_vs, "stored items keep their place, a new one gets its own"); }
	} else {
		CHECK(tgilist_getsize(X) == n && X->items.count == ni, "unchanged on failure");
		if(q < n) CHECK(E(q) == g_vo && tgilist_get(X, q) == keep, "unchanged on failure");
	} }
#else
	long ref[64]; size_t n = 0, steps = nd_range(1, 30), i; oom_failed = 0; int r;
	tgilist(long, unsigned) *l = tgilist_new(); CHECK((l == NULL) == oom_failed, "new"); if(!l) return;
	while(steps-- && n < 60) {
		size_t pos = nd_range(0, n); long v = nd_u8(); oom_failed = 0;
		switch(nd_range(0, 3)) {
			case 0: r = tgilist_add(l, v); CHECK(r == !oom_failed, "add reports"); if(r) ref[n++] = v; break;
			case 1: r = tgilist_insert(l, v, pos); CHECK(r == !oom_failed, "insert reports"); if(r) { memmove(ref + pos + 1, ref + pos, (n - pos) * sizeof(long)); ref[pos] = v; n++; } break;
			case 2: if(pos < n) { tgilist_delete(l, pos); memmove(ref + pos, ref + pos + 1, (n - pos - 1) * sizeof(long)); n--; } break;
			case 3: if(pos < n) { tgilist_set(l, v, pos); ref[pos] = v; } break;
		}
		CHECK(tgilist_getsize(l) == n, "size");
		for(i = 0; i < n; i++) CHECK(tgilist_get(l, i) == ref[i], "sequence");
	}
	tgilist_free(l); CHECK(oom_live == 0, "everything is released");
#endif
	REACH("end");
}
