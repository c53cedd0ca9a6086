/*@unit
property = "P14"
functions = ["getitem"]
lemma = "returns the node at the position, and nothing exactly when the position is past the end"
redirect = ["getitem:stub_getitem"]
timeout = 200
fuzzlen = 300
nobounded = true
stubs = ["recursive calls: the function's own contract on smaller trees (induction on the number of nodes; the decrease is an obligation)"]
assume = ["tlist: fewer than UINT_MAX items (documented limit)"]

*/
#include "vc.h"
#include "tlist_common.h"
void harness(void) {
	VC_INIT(); OOM_INIT();
#ifdef VC_CBMC
	g_W = h_node();
	pitem t = h_tree(); uint64_t n = g_len(t); int64_t x = g_pos(t); unsigned idx = nd_u32(), add = nd_u32();
	ASSUME(add <= idx && n + add < UINT_MAX); g_measure = n; if(!g_used || x < 0) g_W = h_node();
	pitem r = getitem(t, idx, add);
	CHECK((r == NULL) == (idx - add >= n), "a node exactly when the position is inside");
	CHECK((r == g_W) == (x >= 0 && x == (int64_t) (idx - add)), "the node at that position");
#else
	native_tlist();
#endif
	REACH("end");
}
