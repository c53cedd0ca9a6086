/*@unit
property = "P14"
functions = ["tlist_new", "new_item", "tlist_insert", "tlist_append", "tlist_get", "tlist_getsize", "tlist_delete", "tlist_delete_deep", "tlist_delete_impl", "mrand", "data"]
lemma = "inserting stores a copy of the value at the position, succeeds exactly when the position is inside and memory is not out and otherwise changes nothing; get returns the stored value; deletion removes exactly that item and frees its node (deep: and the stored pointer) once"
redirect = ["getitem:stub_getitem", "insert:stub_insert", "tl_remove:stub_remove"]
cases = ["-DOP=0", "-DOP=1", "-DOP=2", "-DOP=3", "-DOP=4", "-DOP=5"]
bcases = [""]
timeout = 200
fuzzlen = 300
nobounded = true
stubs = ["getitem, insert, remove (contracts proved in units tlist_getitem, tlist_node_insert, tlist_node_remove)", "malloc, free (libc)"]
assume = ["tlist: fewer than UINT_MAX items (documented limit)"]
*/
#include "vc.h"
#ifdef VC_PROOF
#define CUSTOM_STUBS
#endif
#include "tlist_common.h"
#ifndef OP
#define OP 0
#endif
#ifdef VC_CBMC
static unsigned g_n, g_idx, g_is; static pitem g_node, g_ins; static int g_did; static unsigned char *g_val; static size_t g_b; static unsigned char g_vb;
static struct tlist *g_t;
pitem stub_getitem(pitem t, unsigned idx, unsigned add) { CHECK(t == g_t->root && add == 0, "looks into the list"); g_idx = idx; return idx < g_n ? g_node : NULL; }
void stub_insert(pitem *t, pitem n, unsigned idx) {
	CHECK(t == &g_t->root && idx <= g_n, "inserts inside"); CHECK(n->l == NULL && n->r == NULL && n->cnt == 1, "a single node");
	CHECK(((unsigned char*) (n + 1))[g_b] == g_vb, "holding a copy of the value"); CHECK(__CPROVER_OBJECT_SIZE(n) >= sizeof(struct item) + g_is, "of the item size"); g_did++; g_idx = idx; g_ins = n;
}
void stub_remove(pitem *t, unsigned idx, unsigned add) { CHECK(t == &g_t->root && add == 0 && idx < g_n, "removes inside"); CHECK(idx == g_idx, "the item looked up is the one removed"); g_did++; }
#endif
void harness(void) {
	VC_INIT(); OOM_INIT();
#ifdef VC_CBMC
	g_is = nd_range(1, 1u << 20); g_n = nd_u32(); ASSUME(g_n < UINT_MAX - 1);
	struct tlist *t;
	if(OP == 0) { t = tlist_new(g_is); CHECK((t == NULL) == oom_failed, "fails exactly when memory is out"); if(t) CHECK(t->itemsize == g_is && t->root == NULL && tlist_getsize(t) == 0, "a new list is empty"); }
	t = vc_alloc(sizeof *t); t->itemsize = OP >= 4 ? sizeof(void*) : g_is; g_t = t; pitem root = NULL;
	if(OP >= 4) g_is = sizeof(void*);
	if(g_n) { root = vc_alloc(sizeof(struct item)); root->cnt = g_n; }
	t->root = root; OOM_INIT();
	void *stored = NULL;
	g_node = stub_malloc(sizeof(struct item) + g_is); ASSUME(g_node);
	if(OP == 5) { stored = stub_malloc(8); ASSUME(stored); *(void**) (g_node + 1) = stored; }
	g_val = vc_alloc(g_is); g_b = nd_u64(); ASSUME(g_b < g_is); g_vb = g_val[g_b]; OOM_INIT();
	size_t idx = nd_u64(); unsigned is0 = t->itemsize;
	if(OP == 1) { int r = tlist_insert(t, idx, g_val); CHECK(r == (idx <= g_n && !oom_failed) && g_did == r, "succeeds exactly when inside and memory is there"); if(r) CHECK(g_idx == idx, "at the position"); CHECK(oom_live == r, "no memory is lost"); }
	if(OP == 2) { int r = tlist_append(t, g_val); CHECK(r == !oom_failed && g_did == r, "succeeds exactly when memory is there"); if(r) CHECK(g_idx == g_n, "at the end"); CHECK(oom_live == r, "no memory is lost"); }
	if(OP == 3) { void *p = tlist_get(t, idx); CHECK(idx < g_n ? p == (void*) (g_node + 1) && g_idx == idx : p == NULL, "the value stored there, or nothing"); CHECK(tlist_getsize(t) == g_n, "size"); }
	if(OP == 4) { oom_live = 1; int r = tlist_delete(t, idx); CHECK(r == (idx < g_n) && g_did == r && oom_live == 1 - r, "removes and frees exactly that item"); if(r) CHECK(g_idx == idx, "at the position"); }
	if(OP == 5) { oom_live = 2; int r = tlist_delete_deep(t, idx); CHECK(r == (idx < g_n) && g_did == r && oom_live == 2 - 2 * r, "removes and frees exactly that item and its value"); if(r) CHECK(g_idx == idx, "at the position"); }
	CHECK(t->itemsize == is0 && t->root == root, "nothing else changes");
#else
	native_tlist();
#endif
	REACH("end");
}
