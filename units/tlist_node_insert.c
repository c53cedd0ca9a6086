/*@unit
property = "P14"
functions = ["insert"]
lemma = "inserting a node at a position gives the sequence with the node there"
redirect = ["merge:stub_merge", "split:stub_split"]
timeout = 200
fuzzlen = 300
nobounded = true
stubs = ["recursive calls: the function's own contract on smaller trees (induction on the number of nodes; the decrease is an obligation)"]
assume = ["tlist: fewer than UINT_MAX items (documented limit)"]

*/
#include "vc.h"
#include "tlist_common.h"
void harness(void) {
	VC_INIT(); OOM_INIT();
#ifdef VC_CBMC
	g_W = h_node();
	pitem t = h_sub(), n = h_concrete(0, 0); uint64_t len = g_len(t); int64_t x = g_pos(t); unsigned idx = nd_u32();
	ASSUME(len < UINT_MAX - 1 && idx <= len); g_measure = (uint64_t) -1; int isn = g_used && g_W == n;
	insert(&t, n, idx);
	CHECK(g_ok(t) && g_len(t) == len + 1, "a valid tree with one more item");
	CHECK(g_pos(t) == (isn ? (int64_t) idx : x < 0 ? -1 : x < (int64_t) idx ? x : x + 1), "the sequence with the node at the position");
#else
	native_tlist();
#endif
	REACH("end");
}
