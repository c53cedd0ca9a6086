/*@unit
property = "P13"
functions = ["sblist_insert_sorted_r"]
lemma = "the item is inserted once, at a position where everything before compares not greater and everything after not less, so the list stays sorted; the position, or -1 when memory is out, is returned"
cases = ["-DEMPTY=0", "-DEMPTY=1"]
bcases = ["-DEMPTY=0"]
timeout = 200
unwind = 1
fuzzlen = 200
nobounded = true
stubs = ["sblist_insert (contract proved in unit sblist_ops)"]
assume = ["the list is sorted by the comparison function, which is a total preorder (represented by integer ranks: every total preorder on a finite set is)"]
[[loop]]
fn = "sblist_insert_sorted_r"
nth = 0
inv = ["hi <= lo && lo < g_n && g_ins == 0", "(vc_k < hi) ==> g_k[vc_k] <= g_key", "(vc_k < g_n && vc_k > lo) ==> g_k[vc_k] >= g_key"]
assigns = ["g_ins, g_pos"]
decreases = "lo - hi"
*/
#include "vc.h"
#include "include/sblist.h"
#define S 8
static size_t g_n, g_pos; static int g_ins, g_ok; static int64_t *g_k, g_key; static int g_ctx; static int64_t g_item;
#ifdef VC_CBMC
#define sblist_get stub_get
#define sblist_insert stub_insert
void *stub_get(sblist *l, size_t i) { CHECK(i < g_n, "an item inside the list"); return &g_k[i]; }
#if !EMPTY
/* list not empty: the jump into the loop body (taken on an empty list only) is proved unreachable, the empty list is its own case */
int ins; void vc_nogoto(void) { CHECK(0, "jump into the loop only on an empty list"); ASSUME(0); }
#define goto vc_nogoto(),
#endif
int stub_insert(sblist *l, void *o, size_t pos) { CHECK(o == &g_item && pos <= g_n, "inserts the item inside the list"); g_ins++; g_pos = pos; return g_ok; }
#endif
#include "src/sblist/sblist_insert_sorted_r.c"
#undef goto
#undef sblist_get
#undef sblist_insert
static int cmp(const void *a, const void *b, void *ctx) {
	const int64_t *k = b;
	CHECK(ctx == &g_ctx, "the context is passed on");
#ifdef VC_CBMC
	size_t x = __CPROVER_POINTER_OFFSET(b) / S; int64_t r = nondet_u64();
	CHECK(a == &g_item && __CPROVER_same_object(b, g_k) && x < g_n, "compares the new item with an item of the list");
	/* sortedness, at the pair (item compared, witness) */
	if(vc_k < g_n) ASSUME(vc_k <= x ? g_k[vc_k] <= g_k[x] : g_k[x] <= g_k[vc_k]);
	if(g_key == *k) return 0;
	ASSUME(r == (int) r && (g_key < *k ? r < 0 : r > 0));
	return (int) r;
#else
	return g_key / 4 == *k / 4 ? 0 : (g_key / 4 < *k / 4 ? -1 : 1) * (int) (1 + (*k & 1) * 1000);
#endif
}
void harness(void) {
	VC_INIT();
#ifdef VC_CBMC
	g_n = EMPTY ? 0 : nd_range(1, 1u << 28); g_k = vc_alloc(g_n * S); g_key = nd_u64(); g_ins = 0; g_ok = nd_bool();
	sblist sl; sl.itemsize = S; sl.blockitems = nd_u32(); sl.count = g_n; sl.capa = g_n; sl.items = (char*) g_k;
	size_t r = sblist_insert_sorted_r(&sl, &g_item, cmp, &g_ctx);
	CHECK(g_ins == 1, "inserted once");
	CHECK(r == (g_ok ? g_pos : (size_t) -1), "the position or -1");
	if(vc_k < g_n) CHECK(vc_k < g_pos ? g_k[vc_k] <= g_key : g_k[vc_k] >= g_key, "the list stays sorted");
#else
	size_t n = nd_range(0, 24), i, j; int64_t ref[32];
	sblist *l = sblist_new(S, nd_range(1, 4));
	for(i = 0; i < n; i++) {
		g_item = g_key = nd_range(0, 50);
		size_t r = sblist_insert_sorted_r(l, &g_item, cmp, &g_ctx);
		CHECK(r <= i && sblist_getsize(l) == i + 1, "position and size");
		for(j = i; j > r; j--) ref[j] = ref[j-1];
		ref[r] = g_key;
		for(j = 0; j <= i; j++) { int64_t *p = sblist_get(l, j); CHECK(*p == ref[j], "inserted at the position returned"); if(j) CHECK(ref[j-1] / 4 <= ref[j] / 4, "sorted"); }
	}
	sblist_free(l);
#endif
	REACH("end");
}
