/*@unit
property = "P24"
functions = ["ssa_init", "ssa_alloc", "ssa_free", "ssa_set", "ssa_getaddr", "ssa_getidx"]
lemma = "from every reachable pool state: an allocation gives a free element, marks exactly it, and fails only for a too large size or a full pool; freeing a live element frees exactly it, freeing anything else in the pool changes nothing; the memory itself is never touched"
cases = ["-DSSA_MAXELEM=8 -DSSA_ELEMSIZE=1", "-DSSA_MAXELEM=16 -DSSA_ELEMSIZE=4", "-DSSA_MAXELEM=32 -DSSA_ELEMSIZE=2"]
thorough_cases = ["-DSSA_MAXELEM=64 -DSSA_ELEMSIZE=1", "-DSSA_MAXELEM=16 -DSSA_ELEMSIZE=24"]
bcases = ["-DSSA_MAXELEM=16 -DSSA_ELEMSIZE=24"]
timeout = 400
unwind = 130
fuzzlen = 200
nobounded = true
assume = ["ssalloc: the pool sizes of the listed instantiations (powers of two, as the header demands; at least 8); every state of such a pool that satisfies the invariant, by complete unrolling of its loops"]
*/
#include "vc.h"
#include "include/ssalloc.c"
#define BIT(i) (pl.used[(i) / 8] >> (i) % 8 & 1)
static ssa_pool pl;
/* all elements from top on are free, the one below is not, and avail counts the free ones */
static int inv(void) {
	size_t i, n = 0; int ok = pl.top <= SSA_MAXELEM;
	for(i = 0; i < SSA_MAXELEM; i++) { n += BIT(i); if(i >= pl.top && BIT(i)) ok = 0; if(i + 1 == pl.top && !BIT(i)) ok = 0; }
	return ok && pl.avail == SSA_MAXELEM - n;
}
static unsigned char old[SSA_MAXELEM]; static size_t live;
static void remember(void) { live = 0; for(size_t i = 0; i < SSA_MAXELEM; i++) { old[i] = BIT(i); live += old[i]; } }
static void only(size_t x, int v) { for(size_t i = 0; i < SSA_MAXELEM; i++) CHECK(BIT(i) == (i == x ? v : old[i]), "no other element changes"); }
static void do_alloc(size_t sz) {
	remember(); unsigned char *r = ssa_alloc(&pl, sz);
	if(sz > SSA_ELEMSIZE || live == SSA_MAXELEM) { CHECK(r == NULL, "too large, or nothing free"); only(SSA_MAXELEM, 0); }
	else {
		CHECK(r != NULL, "succeeds while an element is free");
		size_t d = r - pl.mem; CHECK(r >= pl.mem && d < sizeof pl.mem, "inside the pool"); CHECK(d % SSA_ELEMSIZE == 0, "a whole element"); d /= SSA_ELEMSIZE;
		CHECK(!old[d], "not one that is in use"); only(d, 1);
	}
	CHECK(inv(), "the pool stays consistent");
}
static void do_free(size_t off) {
	remember(); ssa_free(&pl, pl.mem + off); size_t x = off % SSA_ELEMSIZE ? SSA_MAXELEM : off / SSA_ELEMSIZE;
	only(x, 0); CHECK(inv(), "the pool stays consistent");
}
void harness(void) {
	VC_INIT();
#ifdef VC_CBMC
	static size_t k; static unsigned char m; __CPROVER_havoc_object(&pl);
	if(nd_bool()) { ssa_init(&pl); for(size_t i = 0; i < SSA_MAXELEM; i++) CHECK(!BIT(i), "all free"); CHECK(inv(), "a new pool is consistent"); return; }
	ASSUME(inv()); k = nd_u64(); ASSUME(k < sizeof pl.mem); m = pl.mem[k];
	if(nd_bool()) { do_alloc(nd_u64()); } else { size_t off = nd_u64(); ASSUME(off < sizeof pl.mem); do_free(off); }
	CHECK(pl.mem[k] == m, "the memory is not touched");
	REACH("end");
#else
	memset(&pl, 0x55, sizeof pl); ssa_init(&pl); CHECK(inv(), "a new pool is consistent");
	for(int i = 0; i < 150; i++) { memset(pl.mem, i, sizeof pl.mem); if(nd_u8() % 5 < 3) do_alloc(nd_range(0, SSA_ELEMSIZE + 1)); else do_free(nd_range(0, SSA_MAXELEM - 1) * SSA_ELEMSIZE + (nd_u8() % 8 == 0 && SSA_ELEMSIZE > 1)); for(size_t j = 0; j < sizeof pl.mem; j++) CHECK(pl.mem[j] == (unsigned char) i, "the memory is not touched"); }
#endif
}
