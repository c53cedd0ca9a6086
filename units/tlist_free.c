/*@unit
property = "P14"
functions = ["tlist_free_items", "tlist_free_items_deep", "tlist_free", "tlist_free_deep", "tlist_free_items_impl", "tlist_free_impl"]
lemma = "freeing deletes every item once (deep as asked) and then the list itself where asked, for every list length"
redirect = ["tlist_delete_impl:stub_delete_impl"]
cases = ["-DOP=0", "-DOP=1", "-DOP=2", "-DOP=3"]
bcases = [""]
timeout = 100
fuzzlen = 300
nobounded = true
stubs = ["tlist_delete_impl (contract proved in unit tlist_ops)", "free (libc)"]
assume = ["tlist: fewer than UINT_MAX items (documented limit)"]
[[loop]]
fn = "tlist_free_items_impl"
nth = 0
inv = ["g_left <= g_n && (g_left ? (t->root == g_root && g_root->cnt == g_left) : t->root == (pitem) 0)"]
assigns = ["g_left, t->root, g_root->cnt"]
decreases = "g_left"
*/
#include "vc.h"
static unsigned g_n, g_left; static struct item *g_root;
#ifdef VC_PROOF
#define CUSTOM_STUBS
#endif
#include "tlist_common.h"
#ifndef OP
#define OP 0
#endif
#ifdef VC_CBMC
int stub_delete_impl(struct tlist *t, size_t idx, int deep) {
	CHECK(idx < g_left && !!deep == (OP & 1), "deletes an item that is there, deep as asked"); if(idx >= g_left) return 0;
	g_left--; if(g_left) g_root->cnt = g_left; else t->root = 0; return 1;
}
#endif
void harness(void) {
	VC_INIT(); OOM_INIT();
#ifdef VC_CBMC
	struct tlist *t = stub_malloc(sizeof *t); ASSUME(t); g_root = vc_alloc(sizeof(struct item)); g_n = g_left = nd_u32(); ASSUME(g_n < UINT_MAX);
	g_root->cnt = g_n; t->root = g_n ? g_root : 0;
	if(OP == 0) tlist_free_items(t);
	if(OP == 1) tlist_free_items_deep(t);
	if(OP == 2) CHECK(tlist_free(t) == NULL, "returns NULL");
	if(OP == 3) CHECK(tlist_free_deep(t) == NULL, "returns NULL");
	CHECK(g_left == 0, "every item is deleted"); CHECK(oom_live == (OP < 2), "the list itself is freed where asked");
	if(OP < 2) CHECK(tlist_getsize(t) == 0, "the list is empty");
#else
	native_tlist();
#endif
	REACH("end");
}
