/*@unit
property = "P16"
functions = ["bmap_insert", "bmap_insert_nocheck", "bmap_find", "bmap_contains", "bmap_get", "bmap_getkey", "bmap_getval", "bmap_setvalue", "bmap_delete", "bmap_getsize", "bmap_find_impl"]
lemma = "from every valid map: inserting stores the value under the key (overwriting an equal key) and keeps every other entry, deleting removes exactly one entry, a lookup finds a key exactly when it is there; keys stay strictly sorted and paired with their values; out of memory leaves the map as it was and is reported"
cases = ["-DOP=0", "-DOP=1 -DFOUND=0", "-DOP=1 -DFOUND=1", "-DOP=2", "-DOP=0 -DGI", "-DOP=1 -DFOUND=0 -DGI", "-DOP=1 -DFOUND=1 -DGI", "-DOP=2 -DGI"]
bcases = ["", "-DGI"]
redirect = ["tglist_grow_if_needed:stub_grow", "tglist_memmove_impl:stub_mm", "tglist_insert_sorted_impl:stub_ins"]
timeout = 300
unwind = 7
fuzzlen = 300
nobounded = true
stubs = ["bsearch (libc) on a sorted array", "tglist_grow_if_needed, tglist_memmove_impl, tglist_insert_sorted_impl (proved in units tglist_ops, tglist_sorted), stated at the witness entries"]
assume = ["bmap: instance with 64-bit keys ordered by rank (equal ranks compare equal) and long values, with and without the index layer; fewer than 2^27 entries; positions given to bmap_delete/bmap_getkey are valid"]
*/
#include "bmap_common.h"
#ifndef OP
#define OP 0
#endif
#ifndef VC_CBMC
#define malloc stub_malloc
#define calloc stub_calloc
#define realloc stub_realloc
#define free stub_free
#endif
void harness(void) {
	VC_INIT(); OOM_INIT();
#ifdef VC_CBMC
	BT *b = vc_alloc(sizeof *b); sym_bmap(b);
	size_t w = g_w, w2 = g_w2, n = g_n; int64_t key = nd_u64(); long val = nd_u64(), old = w < n ? bmap_getval(b, w) : 0;
#if OP == 0
	/* lookup first: no change, found exactly when present */
	ssize_t f = bmap_find(b, key);
	CHECK(f == -1 || ((size_t) f < n && RANK(bmap_getkey(b, f)) == RANK(key)), "what is found has an equal key");
	if(w < n && RANK(g_kw) == RANK(key)) CHECK(f == (ssize_t) w, "a key that is there is found");
	CHECK(bmap_contains(b, key) == (w < n && RANK(g_kw) == RANK(key)) || f != (ssize_t) w, "contains");
	long *g = bmap_get(b, key);
	if(w < n && RANK(g_kw) == RANK(key)) CHECK(g && *g == old && g == &bmap_getval(b, w), "get designates the value");
	CHECK(bmap_getsize(b) == n && (w >= n || bmap_getval(b, w) == old), "lookups change nothing");
#elif OP == 1
	ssize_t r = bmap_insert(b, key, val);
	CHECK((r == -1) == oom_failed, "reports exactly the failures");
	size_t m = bmap_getsize(b);
	CHECK(VL.count == m && b->keys.count <= b->keys.capa && VL.count <= VL.capa, "a value for each key");
	if(r == -1) {
		CHECK(m == n, "unchanged on failure");
		if(w < n) CHECK(bmap_getkey(b, w) == g_kw && bmap_getval(b, w) == old, "unchanged on failure");
	} else {
		CHECK((size_t) r < m && (m == n || m == n + 1), "one entry at most is added");
		CHECK(RANK(bmap_getkey(b, r)) == RANK(key) && bmap_getval(b, r) == val, "the value is stored under the key");
		if(w < n) {
			size_t p = m == n || w < (size_t) r ? w : w + 1;
			CHECK(bmap_getkey(b, p) == g_kw, "keys are kept");
			if(RANK(g_kw) != RANK(key)) { CHECK(p != (size_t) r && bmap_getval(b, p) == old, "other entries keep their value"); CHECK(p < (size_t) r ? RANK(g_kw) < RANK(key) : RANK(g_kw) > RANK(key), "strictly sorted"); }
			else CHECK(m == n && r == (ssize_t) w, "an equal key is overwritten, not added");
			if(w2 < n && w < w2) CHECK(RANK(bmap_getkey(b, p)) < RANK(bmap_getkey(b, m == n || w2 < (size_t) r ? w2 : w2 + 1)), "strictly sorted");
		}
	}
#else
	size_t pos = nd_range(0, NMAX); ASSUME(pos < n);
	bmap_delete(b, pos);
	CHECK(bmap_getsize(b) == n - 1 && VL.count == n - 1, "one entry is gone");
	if(w < n && w != pos) { size_t p = w < pos ? w : w - 1; CHECK(bmap_getkey(b, p) == g_kw && bmap_getval(b, p) == old, "the other entries stay");
		bmap_setvalue(b, val, p); CHECK(bmap_getval(b, p) == val && bmap_getkey(b, p) == g_kw, "setvalue"); }
#endif
#else
	int64_t rk[64]; long rv[64]; size_t n = 0, i, j, steps = nd_range(1, 24); BT *b = bmap_new(cmp);
	oom_failed = 0; if(!b) return;
	{ BT *y = (void*) stub_malloc(sizeof *y); if(y) { memset(y, 7, sizeof *y); free(b); b = y; bmap_init(b, cmp); } }
	while(steps-- && n < 60) {
		int64_t key = nd_range(0, 60); long val = nd_u8(); oom_failed = 0; ssize_t r;
		for(i = 0; i < n && RANK(rk[i]) != RANK(key); i++);
		switch(nd_range(0, 3)) {
			case 0: case 1: r = bmap_insert(b, key, val); CHECK((r == -1) == oom_failed, "insert reports exactly the failures"); if(r != -1) { CHECK(RANK(bmap_getkey(b, r)) == RANK(key) && bmap_getval(b, r) == val, "stored"); if(i == n) rk[n++] = key; rv[i] = val; } break;
			case 2: r = bmap_find(b, key); CHECK((r == -1) == (i == n), "find"); if(r != -1) { bmap_delete(b, r); rk[i] = rk[n-1]; rv[i] = rv[n-1]; n--; } break;
			case 3: { long *g = bmap_get(b, key); CHECK(!g == (i == n) && (!g || *g == rv[i]), "get"); CHECK(bmap_contains(b, key) == (i < n), "contains"); r = bmap_find(b, key); if(r != -1) { bmap_setvalue(b, val, r); rv[i] = val; } } break;
		}
		CHECK(bmap_getsize(b) == n, "size");
		for(i = 0; i < n; i++) { r = bmap_find(b, rk[i]); CHECK(r != -1 && bmap_getkey(b, r) == rk[i] && bmap_getval(b, r) == rv[i], "each entry"); if(i) CHECK(cmp(&bmap_getkey(b, i-1), &bmap_getkey(b, i)) < 0, "sorted"); }
	}
	bmap_fini(b, 0); free(b); CHECK(oom_live == 0, "everything is released");
#endif
	REACH("end");
}
