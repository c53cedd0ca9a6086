/*@unit
property = "P15"
functions = ["tglist_free_values", "tgilist_free_values"]
lemma = "frees every stored pointer exactly once (last first) and empties the list"
timeout = 100
cases = ["", "-DINDEXED"]
unwind = 1
fuzzlen = 100
nobounded = true
stubs = ["free (libc)"]
[[loop]]
fn = "u_free_values"
nth = 0
inv = ["l->count <= g_n && g_left == l->count"]
assigns = ["l->count, g_left"]
decreases = "l->count"
[[loop]]
fn = "u_free_valuesi"
nth = 0
inv = ["l->items.count <= g_n && g_left == l->items.count"]
assigns = ["l->items.count, g_left"]
decreases = "l->items.count"
*/
#include "vc.h"
#include "include/tgilist.h"
typedef tglist_decl(p, void*) LT; typedef tgilist_decl(p, void*, unsigned) LI;
static size_t g_n, g_left, g_freed; static void **g_items;
#ifdef VC_CBMC
static size_t g_w; static void *g_val;
void stub_free_value(void *p) { CHECK(g_left > 0, "frees no more than was stored"); if(g_left - 1 == g_w) CHECK(p == g_val, "frees each stored pointer once"); g_left--; }
#define free stub_free_value
#else
static void *n_p[64]; static int n_c[64];
static void n_free(void *p) { int f = 0; for(int i = 0; i < 64; i++) if(n_p[i] == p) { n_c[i]++; f = 1; } CHECK(f, "frees a stored pointer"); free(p); }
#define free n_free
#endif
static void u_free_values(LT *l) { unsigned g_x = 1; (void) g_x; tglist_free_values(l); }
static void u_free_valuesi(LI *l) { unsigned g_x = 1; (void) g_x; tgilist_free_values(l); }
#undef free
void harness(void) {
	VC_INIT();
#ifdef VC_CBMC
	g_n = g_left = nd_range(0, 1u << 27); g_items = vc_alloc(g_n * 8); g_w = nd_u64(); g_val = 0;
	if(g_n) { ASSUME(g_w < g_n); g_val = g_items[g_w]; }
#ifndef INDEXED
	LT l; l.count = l.capa = g_n; l.items = g_items; u_free_values(&l); CHECK(g_left == 0 && l.count == 0, "all freed, list empty");
#else
	LI li; li.items.count = g_n; li.items.items = g_items; u_free_valuesi(&li); CHECK(g_left == 0 && li.items.count == 0, "all freed, list empty");
#endif
#else
	size_t n = nd_range(0, 20); LT l; memset(&l, 0, sizeof l); memset(n_p, 0, sizeof n_p); memset(n_c, 0, sizeof n_c);
	for(size_t i = 0; i < n; i++) { n_p[i] = malloc(1); tglist_add(&l, n_p[i]); }
	u_free_values(&l); for(size_t i = 0; i < n; i++) CHECK(n_c[i] == 1, "each freed once"); CHECK(tglist_getsize(&l) == 0, "empty"); tglist_free_items(&l);
#endif
	REACH("end");
}
