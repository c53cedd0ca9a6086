/*@unit
property = "P14"
functions = ["remove"]
lemma = "removing a position gives a valid tree of the sequence without that item"
redirect = ["merge:stub_merge", "tl_remove:stub_remove"]
cases = ["-DSH=0", "-DSH=1", "-DSH=2", "-DSH=3 -DK=0", "-DSH=3 -DK=1", "-DSH=3 -DK=2", "-DSH=4"]
bcases = [""]
timeout = 300
fuzzlen = 300
nobounded = true
stubs = ["recursive calls: the function's own contract on smaller trees (induction on the number of nodes; the decrease is an obligation)"]
assume = ["tlist: fewer than UINT_MAX items (documented limit)"]

*/
#include "vc.h"
#define DEPTH 2
#include "tlist_common.h"
void harness(void) {
	VC_INIT(); OOM_INIT();
#ifdef VC_CBMC
	g_W = h_node();
	/* shapes: empty; root with or without each child */
	pitem l = SH & 1 ? h_concrete(h_sub(), h_sub()) : NULL, r = SH & 2 ? h_concrete(h_sub(), h_sub()) : NULL, t = SH == 4 ? NULL : h_concrete(l, r); uint64_t n = g_len(t); int64_t x = g_pos(t); unsigned idx = nd_u32(), add = nd_u32();
	ASSUME(add <= idx && n + add < UINT_MAX && idx < UINT_MAX); g_measure = n;
#ifdef K
	ASSUME(K == 0 ? idx - add < g_len(l) : K == 1 ? idx - add > g_len(l) && idx - add < n : idx - add == g_len(l) || idx - add >= n);
#endif

	tl_remove(&t, idx, add); uint64_t k = idx - add;
	CHECK(g_ok(t), "a valid tree with exact counts"); CHECK(g_len(t) == (k < n ? n - 1 : n), "one item less");
	CHECK(g_pos(t) == (k >= n || x < (int64_t) k ? x : x == (int64_t) k ? -1 : x - 1), "the sequence without the item");
#else
	native_tlist();
#endif
	REACH("end");
}
