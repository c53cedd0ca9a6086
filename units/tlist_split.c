/*@unit
property = "P14"
functions = ["split"]
lemma = "splitting a valid tree at a position gives two valid trees holding the items before it and the rest, in order"
redirect = ["split:stub_split"]
timeout = 200
fuzzlen = 300
nobounded = true
stubs = ["recursive calls: the function's own contract on smaller trees (induction on the number of nodes; the decrease is an obligation)"]
assume = ["tlist: fewer than UINT_MAX items (documented limit)"]

*/
#include "vc.h"
#include "tlist_common.h"
void harness(void) {
	VC_INIT(); OOM_INIT();
#ifdef VC_CBMC
	g_W = h_node();
	pitem t = h_tree(), l = (pitem) nd_u64(), r = (pitem) nd_u64(); uint64_t n = g_len(t); int64_t x = g_pos(t); unsigned key = nd_u32(), add = nd_u32();
	ASSUME(add <= key && n + add < UINT_MAX); g_measure = n; uint64_t k = key - add; if(k > n) k = n;
	split(t, &l, &r, key, add);
	CHECK(g_ok(l) && g_ok(r), "valid trees with exact counts"); CHECK(g_len(l) == k && g_len(r) == n - k, "split at the position");
	CHECK(g_pos(l) == (x >= 0 && x < (int64_t) k ? x : -1), "the items before the position"); CHECK(g_pos(r) == (x >= (int64_t) k ? x - (int64_t) k : -1), "the items from the position on");
#else
	native_tlist();
#endif
	REACH("end");
}
