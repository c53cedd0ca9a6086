/*@unit
property = "P17"
functions = ["hashlist_new", "hashlist_add", "hashlist_get"]
lemma = "a new table is empty; a value is appended to exactly the bucket of its hash, which is the one looked up; no other bucket changes; failure to allocate is reported and changes no stored value"
cases = ["-DOP=0", "-DOP=1"]
bcases = [""]
timeout = 100
unwind = 1
redirect = ["%:stub_mod"]
fuzzlen = 300
nobounded = true
stubs = ["hash % bucketcount: a function of its operands with a result below the second (division itself is not bit-blasted)", "sblist_new, sblist_add (proved in units sblist_life, sblist_ops)", "calloc, free (libc)"]
assume = ["hashlist: at least one bucket"]
*/
#include "vc.h"
#include "oom.h"
#ifndef OP
#define OP 0
#endif
#include "hashlist_common.h"
#ifdef VC_CBMC
#include "include/sblist.h"
uint64_t stub_mod(uint64_t a, uint64_t b);
sblist *stub_sblist_new(size_t is, size_t bi); int stub_sblist_add(sblist *l, void *item);
#define sblist_new stub_sblist_new
#define sblist_add stub_sblist_add
#define malloc stub_malloc
#define calloc stub_calloc
#define free stub_free
#include "src/hashlist/hashlist.c"
#include "oom_end.h"
#endif
#ifdef VC_CBMC
static sblist *g_new; static sblist *g_addto; static int g_added; static void *g_val; static uint32_t g_ds; static uint64_t g_ma, g_mb, g_mr;
uint64_t stub_mod(uint64_t a, uint64_t b) { CHECK(b != 0, "no division by zero"); if(a == g_ma && b == g_mb) return g_mr; uint64_t r = nondet_u64(); ASSUME(r < b && r <= a); return r; }
sblist *stub_sblist_new(size_t is, size_t bi) { CHECK(is == g_ds && bi > 0, "list of items of the table's size"); if(nondet_u8()) { oom_failed = 1; return NULL; } g_new = vc_alloc(sizeof *g_new); g_new->count = 0; g_new->itemsize = is; return g_new; }
int stub_sblist_add(sblist *l, void *item) { CHECK(item == g_val, "adds the value"); g_addto = l; g_added++; if(nondet_u8()) { oom_failed = 1; return 0; } return 1; }
#endif
void harness(void) {
	VC_INIT(); OOM_INIT();
#ifdef VC_CBMC
	g_new = g_addto = 0; g_added = 0; g_val = 0; g_ds = nd_u32(); uint32_t nb = nd_u32(), hash = nd_u32(); g_ma = hash; g_mb = nb; g_mr = nd_u32(); ASSUME((!nb || g_mr < nb) && g_mr <= hash);
#if OP == 0
	hashlist *h = hashlist_new(nb, g_ds); CHECK((h == NULL) == oom_failed, "fails exactly when memory is out");
	if(h) { CHECK(h->bucketcount == nb && h->datasize == g_ds && FRESH_SIZE(h->buckets) == nb * sizeof(sblist*) && oom_live == 2, "room for the buckets"); if(vc_k < nb) CHECK(h->buckets[vc_k] == NULL, "every bucket is empty"); if(nb) CHECK(hashlist_get(h, hash) == NULL, "nothing found"); }
	else CHECK(oom_live == 0, "nothing leaks");
#else
	ASSUME(nb > 0);
	hashlist *h = vc_alloc(sizeof *h); h->buckets = vc_alloc(nb * sizeof(sblist*)); h->bucketcount = nb; h->datasize = g_ds;
	size_t b = g_mr, w = nd_u32(); ASSUME(w < nb); sblist *bl = vc_alloc(sizeof *bl), *old, *wold;
	if(nd_bool()) h->buckets[b] = NULL; else h->buckets[b] = bl;
	old = h->buckets[b]; wold = h->buckets[w]; char val; g_val = &val;
	CHECK(hashlist_get(h, hash) == old, "lookup returns the bucket of the hash");
	int r = hashlist_add(h, hash, &val);
	CHECK(r == (oom_failed ? -1 : 0), "0 on success, -1 when memory is out");
	CHECK(h->buckets[w] == (w == b && !old ? g_new : wold), "other buckets stay, an existing one is kept");
	CHECK(old || !g_added || g_addto == g_new, "a new list for an empty bucket");
	CHECK(g_added == 1 || (oom_failed && !old && g_added == 0), "added once");
	if(g_added) CHECK(g_addto == h->buckets[b], "to the bucket of the hash");
	if(!r) CHECK(hashlist_get(h, hash) == g_addto, "and the lookup finds it");
	CHECK(h->bucketcount == nb && h->datasize == g_ds, "frame");
#endif
#else
	native_hash();
#endif
	REACH("end");
}
