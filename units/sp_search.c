/*@unit
property = "P18"
functions = ["stringptr_contains", "stringptr_rchr"]
lemma = "contains is true exactly when the needle occurs at some position; rchr finds the last occurrence of the character, NULL when there is none"
cases = ["-DOP=0", "-DOP=1"]
bcases = [""]
timeout = 100
unwind = 1
fuzzlen = 100
nobounded = true
stubs = ["memcmp (libc)"]
assume = ["stringptr_rchr: the character is given as a char value"]
[[loop]]
fn = "stringptr_contains"
nth = 0
inv = ["bufpos <= haystack->size && (bufpos == 0 || needle->size + bufpos <= haystack->size + 1)", "vc_k < bufpos ==> (g_seen && g_j < needle->size && needle->ptr[g_j] != haystack->ptr[vc_k + g_j])"]
assigns = ["g_seen, g_j, g_hit, g_hitp"]
decreases = "haystack->size + 1 - bufpos"
[[loop]]
fn = "stringptr_rchr"
nth = 0
inv = ["i >= -1 && i < (ssize_t) haystack->size", "((ssize_t) vc_k > i && vc_k < haystack->size) ==> haystack->ptr[vc_k] != needle"]
assigns = []
decreases = "i + 1"
*/
#include "sp_common.h"
#ifndef OP
#define OP nd_range(0, 1)
#endif
#ifdef VC_PROOF
static int g_seen, g_hit; static size_t g_j, g_hitp; static const char *g_h, *g_n; static size_t g_ns, g_hs;
/* memcmp of the needle with a window: remembers the differing offset of the witness window, and a hit */
int stub_memcmp_w(const void *a, const void *b, size_t n) {
	const char *x = a, *y = b; int r = (int) (uint32_t) nondet_u64();
	CHECK(n == 0 || (__CPROVER_r_ok(a, n) && __CPROVER_r_ok(b, n)), "compared ranges inside both strings");
	int nx = __CPROVER_same_object(a, g_n);
	const char *w = nx ? y : x; size_t p = __CPROVER_POINTER_OFFSET(w);
	CHECK(n == g_ns && (nx ? x : y) == g_n && __CPROVER_same_object(w, g_h), "compares the whole needle with the haystack");
	if(r == 0) { g_hit = 1; g_hitp = p; if(vc_k2 < n) ASSUME(x[vc_k2] == y[vc_k2]); }
	else { size_t j = nondet_u64(); ASSUME(j < n && x[j] != y[j]); if(p == vc_k) { g_seen = 1; g_j = j; } }
	return r;
}
#define memcmp stub_memcmp_w
#endif
#include "src/stringptr/stringptr_contains.c"
#undef memcmp
#include "src/stringptr/stringptr_rchr.c"
void harness(void) {
	VC_INIT(); int op = OP;
#ifdef VC_PROOF
	g_seen = g_hit = 0; g_j = g_hitp = 0; g_dj = g_wo = 0; oom_failed = oom_live = oom_calls = 0;
#endif
	stringptr *h = h_sp(0), *n = h_sp(0);
#ifdef VC_PROOF
	g_h = h->ptr; g_n = n->ptr; g_ns = n->size; g_hs = h->size;
#endif
	if(op == 0) {
#ifdef VC_NATIVE
		for(size_t i = 0; i < h->size; i++) h->ptr[i] &= 3; for(size_t i = 0; i < n->size; i++) n->ptr[i] &= 3;
#endif
		int r = stringptr_contains(h, n);
#ifdef VC_PROOF
		if(r) { if(g_ns) { CHECK(g_hit && g_hitp + g_ns <= g_hs, "an occurrence inside the string"); if(vc_k2 < g_ns) CHECK(h->ptr[g_hitp + vc_k2] == n->ptr[vc_k2], "an occurrence"); } }
		else if(vc_k < g_hs && g_ns <= g_hs - vc_k) CHECK(g_ns > 0 && g_j < g_ns && n->ptr[g_j] != h->ptr[vc_k + g_j], "no position has it");
		if(!r) CHECK(g_ns > 0, "the empty needle is in every string");
#else
		int e = 0; for(size_t p = 0; p + n->size <= h->size; p++) e |= !memcmp(h->ptr + p, n->ptr, n->size);
		CHECK(!r == !e, "exactly when it occurs");
#endif
	} else {
		char c = nd_char(); char *r = stringptr_rchr(h, c);
		CHECK(stringptr_rchr(NULL, c) == NULL, "nothing there");
		if(r) { size_t p = r - h->ptr; CHECK(r >= h->ptr && p < h->size && h->ptr[p] == c, "an occurrence"); FORALL(k, h->size, k <= p || h->ptr[k] != c, "the last one"); }
		else FORALL(k, h->size, h->ptr[k] != c, "none when there is none");
	}
	REACH("end");
}
