/*@unit
property = "P17"
functions = ["hashlist_next", "hashlist_bucket_next", "hashlist_iterator_init", "hashlist_bucket_iterator_init"]
lemma = "the next value is the one after the current one in (bucket, position) order, skipping empty buckets, and NULL exactly when there is none; so iteration yields every value once"
cases = ["-DOP=0", "-DOP=1"]
timeout = 200
unwind = 2
nobounded = true
fuzzlen = 300
bcases = [""]
redirect = ["hashlist_bucket_next:stub_bn"]
stubs = ["sblist_get (proved in unit sblist_ops)", "hashlist_bucket_next (own proof, case OP=0) inside hashlist_next"]
assume = ["hashlist: buckets are NULL or valid lists, each its own"]
[[loop]]
fn = "hashlist_bucket_next"
nth = 0
inv = ["iter->pos > g_p0 && iter->pos <= (ssize_t) g_nb", "((ssize_t) vc_k > g_p0 && (ssize_t) vc_k < iter->pos && (ssize_t) vc_k >= 0) ==> g_bk[vc_k] == 0"]
assigns = ["iter->pos"]
decreases = "g_nb - iter->pos"
[[loop]]
fn = "hashlist_next"
nth = 0
inv = ["iter->pos == 0 && iter->bucket_iter.pos >= g_p0 && iter->bucket_iter.pos < (ssize_t) g_nb", "vc_first ==> iter->bucket_iter.pos == g_p0", "(!vc_first) ==> (iter->bucket_iter.pos >= 0 && iter->bucket_iter.pos > g_p0 && bucket == g_bk[iter->bucket_iter.pos] && (char*) bucket == g_pool + iter->bucket_iter.pos)", "((ssize_t) vc_k > g_p0 && (ssize_t) vc_k >= 0 && (ssize_t) vc_k < iter->bucket_iter.pos && (char*) g_bk[vc_k] == g_pool + vc_k) ==> g_cn[vc_k] == 0"]
assigns = ["iter->bucket_iter.pos"]
decreases = "g_nb - iter->bucket_iter.pos"
*/
#include "vc.h"
#include "include/hashlist.h"
#include "hashlist_common.h"
static ssize_t g_p0; static uint32_t g_nb; static sblist **g_bk; static char *g_pool; static size_t *g_cn;
#ifndef OP
#define OP 0
#endif
#ifdef VC_CBMC
sblist *stub_bn(hashlist *h, hashlist_bucket_iterator *iter);
void *stub_sblist_get(sblist *l, size_t i);
#define sblist_get stub_sblist_get
/* a bucket list is a token; only its size matters here */
size_t stub_size(sblist *l);
#undef sblist_getsize
#undef sblist_empty
#define sblist_getsize(X) stub_size(X)
#define sblist_empty(X) (stub_size(X) == 0)
#endif
#ifdef VC_CBMC
#include "src/hashlist/hashlist_iterator.c"
#endif
#ifdef VC_CBMC
size_t stub_size(sblist *l) { CHECK(l && __CPROVER_same_object(l, g_pool), "a bucket that is there"); return g_cn[__CPROVER_POINTER_OFFSET(l)]; }
static sblist *g_gl; static size_t g_gi; static char g_ret;
/* the address of an item that is there, NULL otherwise */
void *stub_sblist_get(sblist *l, size_t i) { g_gl = l; g_gi = i; return i < stub_size(l) ? &g_ret : NULL; }
/* contract of hashlist_bucket_next; buckets are NULL or their own list (representation invariant, at the bucket found) */
sblist *stub_bn(hashlist *h, hashlist_bucket_iterator *iter) {
	ssize_t p = iter->pos, q = nondet_u64();
	CHECK(h->bucketcount == g_nb && p < (ssize_t) g_nb, "an iterator that is not at the end");
	ASSUME(q > p && q <= (ssize_t) g_nb);
	if((ssize_t) vc_k > p && (ssize_t) vc_k < q && (ssize_t) vc_k >= 0) ASSUME(g_bk[vc_k] == NULL);
	iter->pos = q;
	if(q == (ssize_t) g_nb) return NULL;
	ASSUME((char*) g_bk[q] == g_pool + q);
	return g_bk[q];
}
#endif
void harness(void) {
	VC_INIT();
#ifdef VC_CBMC
	g_nb = nd_u32(); hashlist *h = vc_alloc(sizeof *h); h->bucketcount = g_nb; h->buckets = g_bk = vc_alloc(g_nb * sizeof(sblist*)); h->datasize = 8; g_pool = 0; g_cn = 0;
#if OP == 0
	hashlist_bucket_iterator it; hashlist_bucket_iterator_init(&it); CHECK(it.pos == -1, "starts before the first bucket");
	g_p0 = nd_u64(); ASSUME(g_p0 >= -1 && g_p0 < (ssize_t) g_nb); it.pos = g_p0;
	sblist *r = hashlist_bucket_next(h, &it);
	if(r) CHECK(it.pos > g_p0 && it.pos < (ssize_t) g_nb && r == g_bk[it.pos], "a later bucket"); else CHECK(it.pos >= (ssize_t) g_nb, "the end");
	if((ssize_t) vc_k > g_p0 && (ssize_t) vc_k >= 0 && (ssize_t) vc_k < it.pos && vc_k < g_nb) CHECK(g_bk[vc_k] == NULL, "the first one that is there");
#else
	hashlist_iterator it; hashlist_iterator_init(&it); CHECK(it.pos == -1 && it.bucket_iter.pos == -1, "starts before the first value");
	g_pool = vc_alloc(g_nb); g_cn = vc_alloc(g_nb * sizeof(size_t)); g_p0 = nd_u64(); ssize_t p = nd_u64(); ASSUME(g_p0 >= -1 && g_p0 < (ssize_t) g_nb && p >= (g_p0 == -1 ? -1 : 0) && (g_p0 >= 0 || p == -1) && p < (ssize_t) 1 << 40);
	size_t c0 = 0; if(g_p0 >= 0) { ASSUME((char*) g_bk[g_p0] == g_pool + g_p0); c0 = g_cn[g_p0]; }
	it.pos = p; it.bucket_iter.pos = g_p0;
	void *r = hashlist_next(h, &it);
	if(g_p0 >= 0 && (size_t) p + 1 < c0) { CHECK(it.pos == p + 1 && it.bucket_iter.pos == g_p0, "the next value of the bucket"); CHECK(r == &g_ret && (char*) g_gl == g_pool + g_p0 && g_gi == (size_t) p + 1, "its address"); }
	else {
		ssize_t b = it.bucket_iter.pos; CHECK(b > g_p0 && b <= (ssize_t) g_nb, "a later bucket");
		if(b < (ssize_t) g_nb) { CHECK(it.pos == 0 && (char*) g_bk[b] == g_pool + b && g_cn[b] > 0, "the first value of a bucket with values"); CHECK(r == &g_ret && (char*) g_gl == g_pool + b && g_gi == 0, "its address"); }
		else { CHECK(r == NULL, "NULL at the end"); CHECK(hashlist_next(h, &it) == NULL, "and afterwards"); }
		if((ssize_t) vc_k > g_p0 && (ssize_t) vc_k >= 0 && (ssize_t) vc_k < b && (char*) g_bk[vc_k] == g_pool + vc_k) CHECK(g_cn[vc_k] == 0, "no value is skipped");
	}
#endif
#else
	OOM_INIT(); native_hash();
#endif
	REACH("end");
}
