/*@unit
property = "P15"
functions = ["tglist_sorted_insert_pos_impl", "tglist_insert_sorted_impl", "tglist_insert_sorted", "tglist_sort"]
lemma = "sorted insertion puts the item at a position where everything before compares not greater and everything after not less; the position is returned, or -1 with the list unchanged when memory is out; sorting sorts the whole list"
timeout = 200
unwind = 1
fuzzlen = 300
nobounded = true
stubs = ["tglist_grow_if_needed, tglist_memmove_impl (proved in unit tglist_ops)", "qsort (libc)"]
redirect = ["tglist_grow_if_needed:stub_grow", "tglist_memmove_impl:stub_mm"]
assume = ["the list is sorted by the comparison function, which is a total preorder (represented by integer ranks)"]
[[loop]]
fn = "tglist_sorted_insert_pos_impl"
nth = 0
inv = ["hi <= lo && lo < g_n", "(vc_k < hi) ==> g_k[vc_k] <= g_key", "(vc_k < g_n && vc_k > lo) ==> g_k[vc_k] >= g_key"]
assigns = []
decreases = "lo - hi"
*/
#include "vc.h"
#include "oom.h"
#include "oom_end.h"
#define S 8
static size_t g_n, g_pos, g_moved; static int g_ok; static int64_t *g_k, g_key; static int64_t g_item; static int g_calls;
#ifdef VC_CBMC
int stub_grow(void *l, size_t s); int stub_mm(void *l, size_t p, int d, size_t s);
void stub_qsort(void *b, size_t n, size_t s, int (*c)(const void*, const void*));
#include <stdlib.h>
#define qsort stub_qsort
#else
#define malloc stub_malloc
#define calloc stub_calloc
#define realloc stub_realloc
#define free stub_free
#endif
#include "include/tglist.h"
typedef tglist_decl(ll, int64_t) LT;
static int cmp(const void *a, const void *b) {
	const int64_t *k = b;
#ifdef VC_CBMC
	size_t x = __CPROVER_POINTER_OFFSET(b) / S; int64_t r = nondet_u64();
	CHECK(a == &g_item && __CPROVER_same_object(b, g_k) && x < g_n, "compares the new item with an item of the list");
	/* sortedness, at the pair (item compared, witness) */
	if(vc_k < g_n) ASSUME(vc_k <= x ? g_k[vc_k] <= g_k[x] : g_k[x] <= g_k[vc_k]);
	if(g_key == *k) return 0;
	ASSUME(r == (int) r && (g_key < *k ? r < 0 : r > 0));
	return (int) r;
#else
	const int64_t *i = a;
	return *i / 4 == *k / 4 ? 0 : (*i / 4 < *k / 4 ? -1 : 1) * (int) (1 + (*k & 1) * 1000);
#endif
}
#ifdef VC_CBMC
static LT *g_l; static int64_t *g_new;
/* contract: room for one more item, contents kept, or nothing changed */
int stub_grow(void *l, size_t s) { CHECK(l == g_l && s == S, "grows the list"); if(!g_ok) return 0; if(g_l->count == g_l->capa) { g_l->items = g_new; g_l->capa = g_n + 1; } return 1; }
int stub_mm(void *l, size_t p, int d, size_t s) { CHECK(l == g_l && s == S && d == -1 && p >= 1 && p <= g_n + 1, "moves the rest one up"); CHECK(g_l->count == g_n && g_l->capa > g_n, "there is room"); g_moved++; g_pos = p - 1; return 1; }
void stub_qsort(void *b, size_t n, size_t s, int (*c)(const void*, const void*)) { CHECK(b == g_l->items && n == g_l->count && s == S && c == cmp, "sorts the whole list"); g_calls++; }
#endif
void harness(void) {
	VC_INIT();
#ifdef VC_CBMC
	LT *l = vc_alloc(sizeof *l); g_l = l; g_calls = 0; g_moved = 0; g_pos = 0;
	g_n = nd_range(0, 1u << 27); size_t capa = nd_range(0, 1u << 28); ASSUME(capa >= g_n); g_k = vc_alloc(capa * S); g_new = vc_alloc((g_n + 1) * S); g_key = g_item = nd_u64(); g_ok = nd_bool();
	l->items = g_k; l->count = g_n; l->capa = capa;
	tglist_sort(l, cmp); CHECK(g_calls == 1 || g_n <= 1, "sorted once"); CHECK(l->items == g_k && l->count == g_n, "the list stays");
	/* the sortedness facts about the old contents are used before the item is stored */
	int64_t wk = 0; if(vc_k < g_n) wk = g_k[vc_k];
	size_t r = tglist_insert_sorted(l, g_item, cmp);
	if(!g_ok) CHECK(r == (size_t) -1 && l->count == g_n && g_moved == 0, "memory out: unchanged");
	else {
		CHECK(g_moved == 1 && r == g_pos && l->count == g_n + 1, "inserted once, at the position returned");
		CHECK(l->items[r] == g_item, "the item is there");
		if(vc_k < g_n) CHECK(vc_k < r ? wk <= g_key : wk >= g_key, "the list stays sorted");
	}
#else
	size_t n = nd_range(0, 24), i, j, m = 0; int64_t ref[32]; tglist(int64_t) lb, *l = &lb; tglist_init(l); OOM_INIT();
	for(i = 0; i < n; i++) {
		int64_t it = nd_range(0, 50); oom_failed = 0;
		size_t r = tglist_insert_sorted(l, it, cmp);
		if(oom_failed) { CHECK(r == (size_t) -1 && tglist_getsize(l) == m, "failure leaves the list"); }
		else {
			CHECK(r <= m && tglist_getsize(l) == m + 1, "position and size");
			for(j = m; j > r; j--) ref[j] = ref[j-1];
			ref[r] = it; m++;
		}
		for(j = 0; j < m; j++) { CHECK(tglist_get(l, j) == ref[j], "inserted at the position returned"); if(j) CHECK(ref[j-1] / 4 <= ref[j] / 4, "sorted"); }
	}
	tglist_sort(l, cmp); CHECK(tglist_getsize(l) == m, "size after sort"); for(j = 1; j < m; j++) CHECK(tglist_get(l, j-1) / 4 <= tglist_get(l, j) / 4, "sorted");
	tglist_free_items(l); CHECK(oom_live == 0, "released");
#endif
	REACH("end");
}
