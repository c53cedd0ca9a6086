/*@unit
property = "P16"
functions = ["bmap_fini", "bmap_new", "bmap_init", "hbmap_fini"]
lemma = "a new map is empty with its order, or nothing when memory is out; disposing frees exactly what the flags ask for (each stored key once, each stored value once) and the internal buffers of every bucket once"
timeout = 100
unwind = 5
fuzzlen = 100
nobounded = true
cases = ["-DFL=0", "-DFL=1", "-DFL=2", "-DFL=3", "-DFL=0 -DGI", "-DFL=1 -DGI", "-DFL=2 -DGI", "-DFL=3 -DGI", "-DFL=4"]
bcases = ["-DFL=3"]
stubs = ["free, malloc (libc)", "tglist_free_values (proved in unit tglist_free_values)"]
*/
#include "vc.h"
#include "oom.h"
#ifndef FL
#define FL 3
#endif
#define malloc stub_malloc
#ifdef VC_CBMC
#define free stub_free_any
void stub_free_any(void *p);
#else
#define calloc stub_calloc
#define realloc stub_realloc
#define free stub_free
#endif
#ifdef GI
#define BMAP_USE_TGILIST
#endif
#include "include/hbmap.h"
typedef bmap_decl(tt, void*, void*) BT;
typedef hbmap_decl(hh, void*, void*, 3) HT;
#ifdef GI
#define VITEMS values.items
#define VBUF index.items
#else
#define VITEMS values
#define VBUF items
#endif
#ifdef VC_CBMC
static int g_phase, g_k, g_v; static BT *g_m;
void stub_free_any(void *p) {
	CHECK(p != 0 && (p == g_m->keys.items || p == g_m->values.VBUF || p == g_m->VITEMS.items), "frees the internal buffers");
	if(p == g_m->keys.items) { CHECK(!(g_phase & 1), "once"); g_phase |= 1; }
	else if(p == g_m->VITEMS.items) { CHECK(!(g_phase & 2), "once"); g_phase |= 2; }
	else { CHECK(!(g_phase & 4), "once"); g_phase |= 4; }
}
/* contract of tglist_free_values: frees each stored value once and empties the list */
static void stub_fv(void *l) {
	CHECK(!g_phase, "values are freed while the buffers are there");
	if(l == &g_m->keys) { CHECK(!g_k, "once"); g_k++; g_m->keys.count = 0; }
	else { CHECK(l == &g_m->VITEMS && !g_v, "the values, once"); g_v++; g_m->VITEMS.count = 0; }
}
#undef tglist_free_values
#define tglist_free_values(X) stub_fv(X)
static int g_b[3];
#endif
static void u_fini(BT *b, int fl) { bmap_fini(b, fl); }
#ifdef VC_CBMC
#undef bmap_fini
#define bmap_fini(B, F) stub_bfini(B, F)
static HT *H;
static void stub_bfini(void *b, int f) { int i, o = 0; CHECK(f == 2, "flags are passed on"); for(i = 0; i < 3; i++) if(b == &H->buckets[i]) { o = 1; g_b[i]++; } CHECK(o, "one of the buckets"); }
static void h_hfini(HT *h) { hbmap_fini(h, 2); }
#endif
static int cmp(const void *a, const void *b) { return 0; }
void harness(void) {
	VC_INIT(); OOM_INIT(); int fl = nd_range(FL, FL);
#ifdef VC_CBMC
	g_phase = g_k = g_v = 0; g_b[0] = g_b[1] = g_b[2] = 0;
#if FL == 4
	BT *z = bmap_new(cmp); CHECK((z == NULL) == oom_failed, "fails exactly when memory is out");
	if(z) CHECK(bmap_getsize(z) == 0 && z->keys.items == NULL && z->keys.capa == 0 && z->VITEMS.items == NULL && z->VITEMS.count == 0 && z->compare == cmp, "empty, with its order");
	HT h; H = &h; h_hfini(&h); CHECK(g_b[0] == 1 && g_b[1] == 1 && g_b[2] == 1, "every bucket is disposed of once");
#else
	BT *b = vc_alloc(sizeof *b);
	g_m = b; b->keys.items = vc_alloc(64); b->keys.count = nd_u64(); b->VITEMS.items = vc_alloc(64); b->VITEMS.count = nd_u64();
#ifdef GI
	b->values.index.items = vc_alloc(64);
#endif
	u_fini(b, fl);
#ifdef GI
	CHECK(g_phase == 7, "all buffers are freed");
#else
	CHECK(g_phase == 3, "all buffers are freed");
#endif
	CHECK(g_k == !!(fl & 1) && g_v == !!(fl & 2), "everything asked for is freed, nothing else");
#endif
#else
	HT hb, *h = &hb; size_t n = nd_range(0, 12); BT bb, *b = &bb; bmap_init(b, cmp); hbmap_init(h, cmp, 0);
	for(size_t i = 0; i < n; i++) { void *k = stub_malloc(1), *v = stub_malloc(1); if(k && v && bmap_insert_nocheck(b, k, v) != -1) continue; stub_free(k); stub_free(v); }
	u_fini(b, fl);
	for(size_t i = 0; i < n; i++) { void *k = stub_malloc(1), *v = stub_malloc(1); if(k && v && bmap_insert_nocheck(&h->buckets[i % 3], k, v) != -1) continue; stub_free(k); stub_free(v); }
	hbmap_fini(h, 3); CHECK(oom_live == 0, "everything is released once");
#endif
	REACH("end");
}
