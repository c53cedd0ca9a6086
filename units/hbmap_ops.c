/*@unit
property = "P16"
functions = ["hbmap_insert", "hbmap_insert_nocheck", "hbmap_find", "hbmap_contains", "hbmap_get", "hbmap_getkey", "hbmap_getval", "hbmap_setvalue", "hbmap_delete", "hbmap_foreach"]
lemma = "every operation acts on exactly the bucket the key hashes to and has there the effect of the map operation; iterators designate that entry, -1 means absent or out of memory; iteration starts at the first entry"
cases = ["-DOP=0", "-DOP=1", "-DOP=2", "-DOP=3"]
bcases = [""]
redirect = ["hbmap_next_valid_impl:stub_next"]
timeout = 200
unwind = 8
fuzzlen = 300
nobounded = true
stubs = ["bmap_find, bmap_insert_nocheck, bmap_delete (proved in unit bmap_ops)", "hbmap_next_valid_impl (proved in unit hbmap_next)"]
assume = ["hbmap: instance with 5 buckets, 64-bit keys and long values; fewer than 2^32 entries per bucket (documented limit); the hash function gives equal keys equal hashes"]
*/
#include "vc.h"
#include "oom.h"
#ifndef OP
#define OP 0
#endif
#define NB 5
#ifdef VC_CBMC
uint64_t stub_next(void *h, uint64_t it, size_t nb);
#else
#define malloc stub_malloc
#define calloc stub_calloc
#define realloc stub_realloc
#define free stub_free
#endif
#include "include/hbmap.h"
typedef hbmap_decl(hh, int64_t, long, NB) HT;
#define RANK(k) ((int64_t)(k) >> 2)
static int cmp(const void *a, const void *b) { int64_t x = RANK(*(const int64_t*) a), y = RANK(*(const int64_t*) b); return x < y ? -1 : x > y; }
#ifdef VC_CBMC
static HT *H; static int64_t g_key; static unsigned g_h; static size_t g_b, g_nbk; static ssize_t g_pos; static int g_ins, g_del, g_nx; static long g_val; static size_t g_delpos; static uint64_t g_next;
static unsigned stub_hash(int64_t k) { CHECK(k == g_key, "hashes the key"); return g_h; }
static ssize_t stub_find(void *b, int64_t k) { CHECK(b == &H->buckets[g_b] && k == g_key, "searches the key's bucket"); return g_pos; }
static ssize_t stub_insert(void *b, int64_t k, long v) {
	CHECK(b == &H->buckets[g_b] && k == g_key && g_pos == -1, "inserts an absent key into its bucket"); g_ins++; g_val = v;
	if(nondet_u8()) { oom_failed = 1; return -1; }
	ssize_t r = nondet_u64(); ASSUME(r >= 0 && (size_t) r <= H->buckets[g_b].keys.count); H->buckets[g_b].keys.count++; g_delpos = r; return r;
}
static int stub_delete(void *b, size_t pos) { CHECK(b == &H->buckets[g_b], "deletes in the iterator's bucket"); g_del++; g_delpos = pos; return 1; }
uint64_t stub_next(void *h, uint64_t it, size_t nb) { CHECK(h == H && it == 0 && nb == NB, "looks for the next entry after the start"); g_nx++; return g_next; }
#undef bmap_find
#undef bmap_insert_nocheck
#undef bmap_delete
#define bmap_find(B, K) stub_find(B, K)
#define bmap_insert_nocheck(B, K, V) stub_insert(B, K, V)
#define bmap_delete(B, P) stub_delete(B, P)
#define hbmap_next_valid_impl stub_next
#else
static unsigned nhash(int64_t k) { return (unsigned) RANK(k) * 2654435761u; }
#endif
void harness(void) {
	VC_INIT(); OOM_INIT();
#ifdef VC_CBMC
	HT *h = vc_alloc(sizeof *h); H = h; h->hash_func = stub_hash; g_key = nd_u64(); g_h = nd_u64(); g_b = g_h % NB; g_ins = g_del = g_nx = 0; g_val = 0; g_delpos = 0; g_next = nd_u64();
	for(int i = 0; i < NB; i++) { size_t n = nd_range(0, 1u << 26); h->buckets[i].compare = cmp; h->buckets[i].keys.count = h->buckets[i].keys.capa = h->buckets[i].values.count = h->buckets[i].values.capa = n; h->buckets[i].keys.items = 0; h->buckets[i].values.items = 0; }
	size_t n = h->buckets[g_b].keys.count;
	h->buckets[g_b].keys.items = vc_alloc(n * 8); h->buckets[g_b].values.items = vc_alloc(n * 8);
	g_pos = nd_u64(); ASSUME(g_pos == -1 || (size_t) g_pos < n);
	hbmap_iter want = g_pos == -1 ? (hbmap_iter) -1 : (hbmap_iter) g_b << 32 | (hbmap_iter) g_pos, it; long val = nd_u64(); long *vp = g_pos == -1 ? NULL : &h->buckets[g_b].values.items[g_pos];
	size_t ob = nd_range(0, NB - 1), on = h->buckets[ob].keys.count, w = nd_range(0, 1u << 26); long wv = w < n ? h->buckets[g_b].values.items[w] : 0;
#if OP == 0
	it = hbmap_find(h, g_key); CHECK(it == want, "found in its bucket, or absent");
	CHECK(hbmap_contains(h, g_key) == (g_pos != -1), "contains");
	CHECK(hbmap_get(h, g_key) == vp, "get designates the value");
	if(vp) { CHECK(&hbmap_getval(h, it) == vp && &hbmap_getkey(h, it) == &h->buckets[g_b].keys.items[g_pos], "the iterator designates the entry"); hbmap_setvalue(h, val, it); CHECK(*vp == val, "setvalue"); }
	CHECK(!g_ins && !g_del, "lookups change nothing");
#elif OP == 1
	it = hbmap_insert(h, g_key, val);
	CHECK((it == (hbmap_iter) -1) == oom_failed, "reports exactly the failures");
	if(g_pos != -1) { CHECK(it == want && !g_ins && *vp == val, "an existing key gets the new value"); if(w < n && w != (size_t) g_pos) CHECK(h->buckets[g_b].values.items[w] == wv, "other values stay"); }
	else { CHECK(g_ins == 1 && g_val == val, "a new key is inserted once"); if(!oom_failed) CHECK(it == ((hbmap_iter) g_b << 32 | (hbmap_iter) g_delpos), "the iterator designates the entry"); if(w < n) CHECK(h->buckets[g_b].values.items[w] == wv, "other values stay"); }
	CHECK(!g_del && (ob == g_b || h->buckets[ob].keys.count == on), "other buckets stay");
#elif OP == 2
	ASSUME(g_pos != -1);
	CHECK(hbmap_delete(h, want) && g_del == 1 && g_delpos == (size_t) g_pos && !g_ins, "deletes the designated entry");
#else
	it = -2; int first = 0; hbmap_foreach(h, it) { first = 1; break; }
	if(h->buckets[0].keys.count) CHECK(first && it == 0 && g_nx == 0, "starts at the first entry");
	else { CHECK(g_nx == 1 && it == g_next, "or at the next one"); CHECK(first == (g_next >> 32 < NB && (g_next & 0xffffffff) < h->buckets[g_next >> 32 < NB ? g_next >> 32 : 0].keys.count), "ends when there is none"); }
#endif
#else
	int64_t rk[64]; long rv[64]; int seen[64]; size_t n = 0, i, steps = nd_range(1, 24); hbmap(int64_t, long, NB) *h = hbmap_new(cmp, nhash, NB); hbmap_iter it;
	oom_failed = 0; if(!h) return;
	while(steps-- && n < 60) {
		int64_t key = nd_range(0, 60); long val = nd_u8(); oom_failed = 0;
		for(i = 0; i < n && RANK(rk[i]) != RANK(key); i++);
		switch(nd_range(0, 3)) {
			case 0: case 1: it = hbmap_insert(h, key, val); CHECK((it == (hbmap_iter) -1) == oom_failed, "insert reports exactly the failures"); if(it != (hbmap_iter) -1) { CHECK(RANK(hbmap_getkey(h, it)) == RANK(key) && hbmap_getval(h, it) == val, "stored"); if(i == n) rk[n++] = key; rv[i] = val; } break;
			case 2: it = hbmap_find(h, key); CHECK((it == (hbmap_iter) -1) == (i == n), "find"); if(i < n) { hbmap_delete(h, it); rk[i] = rk[n-1]; rv[i] = rv[n-1]; n--; } break;
			case 3: { long *g = hbmap_get(h, key); CHECK(!g == (i == n) && (!g || *g == rv[i]), "get"); CHECK(hbmap_contains(h, key) == (i < n), "contains"); it = hbmap_find(h, key); if(i < n) { hbmap_setvalue(h, val, it); rv[i] = val; } } break;
		}
		memset(seen, 0, sizeof seen); size_t m = 0;
		hbmap_foreach(h, it) { for(i = 0; i < n && rk[i] != hbmap_getkey(h, it); i++); CHECK(i < n && !seen[i], "iterates entries once"); seen[i] = 1; m++; CHECK(hbmap_getval(h, it) == rv[i], "value"); }
		CHECK(m == n, "iterates all entries");
	}
	hbmap_fini(h, 0); free(h); CHECK(oom_live == 0, "everything is released");
#endif
	REACH("end");
}
