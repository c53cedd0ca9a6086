/*@unit
property = "P16"
functions = ["hbmap_next_valid_impl", "hbmap_next_step", "hbmap_iter_bucket_valid", "hbmap_iter_index_valid"]
lemma = "the next iterator is the least valid one after the given one in (bucket, index) order, for any number of buckets of any sizes; when there is none it lies past the last bucket"
timeout = 200
unwind = 1
nosearch = true
assume = ["hbmap: fewer than 2^32 entries per bucket and 2^26 buckets"]
[[loop]]
fn = "hbmap_next_valid_impl"
nth = 0
inv = ["vc_first ==> iter == g_it", "!vc_first ==> ((iter == g_it + 1 && g_i + 1 < g_cnt) || ((iter & 0xffffffff) == 0 && (iter >> 32) > g_b && (iter >> 32) <= nbucks && g_i + 1 >= g_cnt))", "(!vc_first && vc_k > g_b && vc_k < (iter >> 32)) ==> g_p[vc_k].keys.count == 0"]
assigns = []
decreases = "vc_first + nbucks + 1 - (iter >> 32)"
*/
#include "vc.h"
#include "include/bmap.h"
typedef bmap_decl(px, void*, void*) PB;
static uint64_t g_it; static size_t g_b, g_i, g_cnt, g_nb; static struct bmap_px *g_p;
#include "include/hbmap.h"
void harness(void) {
	VC_INIT();
#ifdef VC_CBMC
	size_t nb = nd_range(1, 1u << 26); char *h = vc_alloc(hbmap_struct_size_impl(nb));
	g_p = (void*) (h + offsetof(hbmap_proto(1), buckets)); g_it = nd_u64(); g_b = g_it >> 32; g_i = g_it & 0xffffffff; g_nb = nb;
	ASSUME(g_b < nb && g_i < 0xffffffff); g_cnt = g_p[g_b].keys.count;
	uint64_t r = hbmap_next_valid_impl(h, g_it, nb); size_t rb = r >> 32, ri = r & 0xffffffff;
	if(g_i + 1 < g_cnt) CHECK(r == g_it + 1, "the next entry of the same bucket");
	else {
		CHECK(rb > g_b && ri == 0 && rb <= nb, "otherwise the first one of a later bucket");
		if(rb < nb) CHECK(g_p[rb].keys.count > 0, "which has an entry");
		if(vc_k > g_b && vc_k < rb) CHECK(g_p[vc_k].keys.count == 0, "and the buckets between are empty");
	}
#endif
	REACH("end");
}
