/*@unit
property = "P14"
functions = ["merge", "upd_cnt", "cnt"]
lemma = "merging two valid trees gives a valid tree of the concatenated sequences"
redirect = ["merge:stub_merge"]
timeout = 200
fuzzlen = 300
nobounded = true
stubs = ["recursive calls: the function's own contract on smaller trees (induction on the number of nodes; the decrease is an obligation)"]
assume = ["tlist: fewer than UINT_MAX items (documented limit)"]

*/
#include "vc.h"
#include "tlist_common.h"
void harness(void) {
	VC_INIT(); OOM_INIT();
#ifdef VC_CBMC
	g_W = h_node();
	pitem l = h_tree(), r = h_tree(), t = (pitem) nd_u64(); uint64_t a = g_len(l), b = g_len(r); int64_t x = g_pos(l), y = g_pos(r);
	ASSUME(a + b < UINT_MAX); g_measure = a + b;
	merge(&t, l, r);
	CHECK(g_ok(t), "a valid tree with exact counts"); CHECK(g_len(t) == a + b, "all items");
	CHECK(g_pos(t) == (x >= 0 ? x : y >= 0 ? (int64_t) a + y : -1), "the items of both in order");
#else
	native_tlist();
#endif
	REACH("end");
}
