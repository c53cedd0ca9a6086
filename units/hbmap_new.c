/*@unit
property = "P16"
functions = ["hbmap_new", "hbmap_init"]
lemma = "a new hashed map has every bucket empty with the given order, whatever the number of buckets, or is NULL when memory is out"
timeout = 200
unwind = 1
nosearch = true
assume = ["hbmap: fewer than 2^26 buckets"]
stubs = ["malloc (libc)"]
[[loop]]
fn = "hbmap_new"
nth = 1
inv = ["*(void**) nyu == hash_func", "i <= numbuckets", "vc_k < i ==> p[vc_k].compare == fn", "vc_k < numbuckets ==> (p[vc_k].keys.count == 0 && p[vc_k].keys.items == 0 && p[vc_k].keys.capa == 0 && p[vc_k].values.count == 0 && p[vc_k].values.capa == 0 && p[vc_k].values.items == 0)"]
assigns = ["__CPROVER_object_whole(p)"]
decreases = "numbuckets - i"
*/
#include "vc.h"
#include "oom.h"
#define malloc stub_malloc
#include "include/hbmap.h"
#include "oom_end.h"
typedef bmap_decl(px, void*, void*) PB;
static int cmp(const void *a, const void *b) { return 0; }
static unsigned hf(void *k) { return 0; }
void harness(void) {
	VC_INIT(); OOM_INIT();
#ifdef VC_CBMC
	size_t nb = nd_range(1, 1u << 26); hbmap(void*, void*, 3) *h = hbmap_new(cmp, hf, nb);
	CHECK((h == NULL) == oom_failed, "fails exactly when memory is out");
	if(h) {
		PB *p = (void*) ((char*) h + offsetof(hbmap_proto(1), buckets));
		CHECK((void*) &h->buckets[0] == (void*) p && FRESH_SIZE(h) >= offsetof(hbmap_proto(1), buckets) + nb * sizeof(PB), "room for all buckets");
		CHECK(*(void**) h == (void*) hf, "hash function");
		if(vc_k < nb) CHECK(p[vc_k].compare == cmp && p[vc_k].keys.count == 0 && p[vc_k].values.count == 0 && p[vc_k].keys.items == 0 && p[vc_k].values.items == 0 && p[vc_k].keys.capa == 0 && p[vc_k].values.capa == 0, "every bucket is empty with the order");
	}
#endif
	REACH("end");
}
