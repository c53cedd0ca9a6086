/*@unit
property = "P15"
functions = ["tglist_add", "tglist_prepare_addition", "tglist_insert", "tglist_insert_memcpy", "tglist_set", "tglist_get", "tglist_delete", "tglist_grow_if_needed", "tglist_memmove_impl", "tglist_new", "tglist_init", "tglist_free"]
lemma = "from every valid typed list (any count, capacity, contents) each operation yields exactly the sequence it denotes, keeps the representation invariant, and leaves the sequence unchanged when memory is out; element types as listed in the cases"
cases = ["-DT=char -DOP=0", "-DT=char -DOP=1", "-DT=char -DOP=2", "-DT=long -DOP=0", "-DT=long -DOP=1", "-DT=long -DOP=2", "-DT=long -DOP=3", "-DT=long -DOP=4", "-DT=long -DOP=5"]
thorough_cases = ["-DT=int -DOP=0", "-DT=int -DOP=1", "-DT=int -DOP=2", "-DT=short -DOP=1", "-DT=T12 -DOP=0", "-DT=T12 -DOP=1", "-DT=T16 -DOP=1", "-DT=T16 -DOP=2"]
bcases = ["-DT=long -DOP=0"]
timeout = 300
unwind = 1
fuzzlen = 400
nobounded = true
assume = ["tglist: fewer than 2^27 items; positions valid (the header documents that they are not checked)"]
stubs = ["malloc, calloc, realloc, free (libc): fresh object, contents kept, or NULL with nothing changed", "memmove (libc), contract stated at the witness byte", "memcpy (libc)"]
*/
#include "vc.h"
#define MW_N 2
#include "memw.h"
#ifdef VC_PROOF
#define OOM_COPY mw_keep
#endif
#include "oom.h"
#ifdef VC_PROOF
#define memmove stub_memmove
#endif
typedef struct { int a[3]; } T12; typedef struct { long a[2]; } T16;
#ifndef T
#define T long
#endif
#include "include/tglist.h"
typedef tglist_decl(tt, T) LT;
#ifndef OP
#define OP 0
#endif
#define S sizeof(T)
#ifdef VC_CBMC
static LT *h_list(void) {
	LT *l = vc_alloc(sizeof *l);
	l->capa = nd_range(0, (1u << 27) - 1); l->count = nd_range(0, l->capa);
	l->items = l->capa ? vc_alloc(l->capa * S) : NULL;
	return l;
}
static int h_valid(LT *l) { return l->count <= l->capa && (l->capa == 0 ? l->items == NULL : __CPROVER_POINTER_OFFSET(l->items) == 0 && __CPROVER_OBJECT_SIZE(l->items) >= l->capa * S); }
#endif
void harness(void) {
	VC_INIT(); OOM_INIT();
#ifdef VC_CBMC
	if(OP == 5) {
		LT *z = tglist_new(); CHECK((z == NULL) == oom_failed, "fails exactly when memory is out");
		if(z) { CHECK(tglist_getsize(z) == 0 && z->capa == 0 && z->items == NULL && tglist_empty(z), "a new list is empty"); tglist_free(z); CHECK(oom_live == 0, "released"); }
		LT y; y.count = nd_u64(); y.capa = nd_u64(); tglist_init(&y); CHECK(y.count == 0 && y.capa == 0 && y.items == NULL, "initialised empty");
		OOM_INIT(); z = stub_malloc(sizeof *z); ASSUME(z); z->items = stub_malloc(80); ASSUME(z->items); if(nd_bool()) { tglist_free_items(z); CHECK(oom_live == 1, "items released"); } else { tglist_free(z); CHECK(oom_live == 0, "list and items released"); }
	} else {
	LT *l = h_list(); T it; size_t n = l->count, pos = nd_range(0, 1u << 28);
	size_t q = nd_range(0, 1u << 28), b = nd_range(0, S - 1), nn = n; size_t src = q; int isnew = 0; unsigned char old = 0, ib = ((unsigned char*) &it)[b], keep = 0;
	if(OP == 0) { nn = n + 1; isnew = q == n; }
	if(OP == 1 || OP == 4) { ASSUME(pos <= n); nn = n + 1; isnew = q == pos; if(q > pos) src = q - 1; }
	if(OP == 2) { ASSUME(pos < n); nn = n - 1; if(q >= pos) src = q + 1; }
	if(OP == 3) { ASSUME(pos < n); isnew = q == pos; }
	ASSUME(q < nn || q < n);
#ifdef VC_PROOF
	mw_off[0] = q * S + b; mw_off[1] = src * S + b;
#endif
#define B(i) (((unsigned char*) &l->items[i])[b])
	if(src < n) old = B(src);
	if(q < n) keep = B(q);
	int r = 1;
	if(OP == 0) r = tglist_add(l, it);
	if(OP == 1) r = tglist_insert(l, it, pos);
	if(OP == 2) r = tglist_delete(l, pos);
	if(OP == 3) r = tglist_set(l, it, pos);
	if(OP == 4) r = !!tglist_insert_memcpy(l, &it, pos, S);
	CHECK(h_valid(l), "representation invariant");
	CHECK(r == !oom_failed, "reports success exactly when it succeeded");
	if(r) {
		CHECK(tglist_getsize(l) == nn, "number of items");
		if(q < nn) { T x = tglist_get(l, q); CHECK(((unsigned char*) &x)[b] == (isnew ? ib : old), "item of the denoted sequence"); }
	} else {
		CHECK(l->count == n, "unchanged on failure");
		if(q < n) CHECK(B(q) == keep, "unchanged on failure");
	} }
#else
	long ref[64]; size_t n = 0, steps = nd_range(1, 30), i; oom_failed = 0; int r;
	tglist(long) *l = tglist_new(); CHECK((l == NULL) == oom_failed, "new"); if(!l) return;
	tglist(short) *m = tglist_new(); if(!m) { tglist_free(l); return; }
	while(steps-- && n < 60) {
		size_t pos = nd_range(0, n); long v = nd_u8(); oom_failed = 0; int f1, f2;
		switch(nd_range(0, 3)) {
			case 0: case 1: if(n == 0) pos = 0;
				if(nd_bool()) pos = n;
				r = pos == n && nd_bool() ? tglist_add(l, v) : tglist_insert(l, v, pos); f1 = oom_failed; CHECK(r == !f1, "add reports");
				if(r) { memmove(ref + pos + 1, ref + pos, (n - pos) * sizeof(long)); ref[pos] = v; n++;
					oom_failed = 0; r = tglist_insert(m, v, pos); CHECK(r == !oom_failed, "add reports"); if(!r) goto out; } break;
			case 2: if(pos < n) { tglist_delete(l, pos); tglist_delete(m, pos); memmove(ref + pos, ref + pos + 1, (n - pos - 1) * sizeof(long)); n--; } break;
			case 3: if(pos < n) { tglist_set(l, v, pos); tglist_set(m, v, pos); ref[pos] = v; } break;
		}
		CHECK(tglist_getsize(l) == n && tglist_getsize(m) == n, "size");
		for(i = 0; i < n; i++) CHECK(tglist_get(l, i) == ref[i] && tglist_get(m, i) == ref[i], "sequence");
	}
	out: tglist_free(l); tglist_free(m); CHECK(oom_live == 0, "everything is released");
#endif
	REACH("end");
}
