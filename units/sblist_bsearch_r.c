/*@unit
property = "P13"
functions = ["sblist_bsearch_r"]
lemma = "for every list sorted by the comparison (any total preorder, represented by integer ranks) the index returned holds an item equal to the one searched, and -1 is returned only when no item is equal"
timeout = 200
unwind = 1
fuzzlen = 200
nobounded = true
assume = ["the list is sorted by the comparison function, which is a total preorder (represented by integer ranks: every total preorder on a finite set is)"]
[[loop]]
fn = "sblist_bsearch_r"
nth = 0
inv = ["base <= g_n && nel <= g_n - base", "(vc_k < g_n && g_k[vc_k] == g_key) ==> (base <= vc_k && vc_k - base < nel)"]
assigns = []
decreases = "nel"
*/
#include "vc.h"
#include "include/sblist.h"
#define S 8
static size_t g_n; static int64_t *g_k, g_key; static int g_ctx; static int64_t g_item;
#ifdef VC_CBMC
#define sblist_get stub_get
void *stub_get(sblist *l, size_t i) { CHECK(i < g_n, "an item inside the list"); return &g_k[i]; }
#endif
#include "src/sblist/sblist_bsearch_r.c"
#undef sblist_get
static int cmp(const void *a, const void *b, void *ctx) {
	const int64_t *k = b;
	CHECK(ctx == &g_ctx, "the context is passed on");
#ifdef VC_CBMC
	size_t x = __CPROVER_POINTER_OFFSET(b) / S; int64_t r = nondet_u64();
	CHECK(a == &g_item && __CPROVER_same_object(b, g_k) && x < g_n, "compares the searched item with an item of the list");
	/* sortedness, at the pair (item compared, witness) */
	if(vc_k < g_n) ASSUME(vc_k <= x ? g_k[vc_k] <= g_k[x] : g_k[x] <= g_k[vc_k]);
	if(g_key == *k) return 0;
	ASSUME(r == (int) r && (g_key < *k ? r < 0 : r > 0));
	return (int) r;
#else
	return g_key == *k ? 0 : (g_key < *k ? -1 : 1) * (int) (1 + (*k & 1) * 1000);
#endif
}
void harness(void) {
	VC_INIT();
#ifdef VC_CBMC
	g_n = nd_range(0, 1u << 28); g_k = vc_alloc(g_n * S); g_key = nd_u64();
	sblist sl; sl.itemsize = S; sl.blockitems = nd_u32(); sl.count = g_n; sl.capa = g_n; sl.items = (char*) g_k;
	size_t r = sblist_bsearch_r(&sl, &g_item, cmp, &g_ctx);
	if(r == (size_t) -1) CHECK(!(vc_k < g_n && g_k[vc_k] == g_key), "not found only when no item is equal");
	else CHECK(r < g_n && g_k[r] == g_key, "the item found is equal");
#else
	g_n = nd_range(0, 20); g_k = malloc(g_n * S + 1); int64_t acc = 0;
	for(size_t i = 0; i < g_n; i++) { acc += nd_range(0, 2); g_k[i] = acc; }
	g_key = nd_range(0, 41); g_item = g_key;
	sblist sl; sl.itemsize = S; sl.blockitems = 1; sl.count = g_n; sl.capa = g_n; sl.items = (char*) g_k;
	size_t r = sblist_bsearch_r(&sl, &g_item, cmp, &g_ctx), i;
	int in = 0; for(i = 0; i < g_n; i++) if(g_k[i] == g_key) in = 1;
	if(in) CHECK(r < g_n && g_k[r] == g_key, "found"); else CHECK(r == (size_t) -1, "not found");
	free(g_k);
#endif
	REACH("end");
}
