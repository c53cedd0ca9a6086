/*@unit
property = "P18"
functions = ["stringptr_new", "stringptr_copy", "stringptr_strdup", "stringptr_eq", "stringptr_here", "stringptr_shiftleft", "stringptr_shiftright", "stringptr_fromchar"]
lemma = "each gives exactly the characters and length the operation denotes, terminated where it makes a new string, changes nothing else, and reports memory running out with NULL and nothing leaked"
cases = ["-DOP=0", "-DOP=1", "-DOP=2", "-DOP=3", "-DOP=4", "-DOP=5", "-DOP=6", "-DOP=7"]
bcases = [""]
timeout = 100
unwind = 1
fuzzlen = 200
nobounded = true
stubs = ["malloc, memcpy, memcmp, strlen (libc)"]
*/
#include "sp_common.h"
#define malloc stub_malloc
#define calloc stub_calloc
#define realloc stub_realloc
#define free stub_free
#ifdef VC_PROOF
#define memcpy stub_memcpy
#define memcmp stub_memcmp
#define strlen stub_strlen
#endif
#include "src/stringptr/stringptr_new.c"
#include "src/stringptr/stringptr_copy.c"
#include "src/stringptr/stringptr_strdup.c"
#include "src/stringptr/stringptr_eq.c"
#include "src/stringptr/stringptr_here.c"
#include "src/stringptr/stringptr_shiftleft.c"
#include "src/stringptr/stringptr_shiftright.c"
#include "src/stringptr/stringptr_fromchar.c"
#undef memcpy
#undef memcmp
#undef strlen
#include "oom_end.h"
#ifndef OP
#define OP nd_range(0, 7)
#endif
void harness(void) {
	VC_INIT(); OOM_INIT();
#ifdef VC_PROOF
	g_dj = 0; g_wo = 0;
#endif
	int op = OP;
	if(op == 0) {
		size_t n = nd_len(); stringptr *s = stringptr_new(n);
		CHECK((s == NULL) == oom_failed, "fails exactly when memory is out");
		if(s) {
			CHECK(s->size == n && s->ptr[n] == 0, "size and terminator");
#ifdef VC_CBMC
			CHECK(__CPROVER_w_ok(s->ptr, n + 1) && (!__CPROVER_same_object(s->ptr, s) || (size_t) (s->ptr - (char*) s) >= sizeof *s), "room for the characters");
#else
			memset(s->ptr, 'x', n); CHECK(s->size == n, "room for the characters");
#endif
			stub_free(s); CHECK(oom_live == 0, "one block");
		}
	} else if(op == 1 || op == 2) {
		stringptr *s = h_sp(0); size_t n = s->size; char *sp = s->ptr;
#ifdef VC_PROOF
		g_wo = vc_k + (op == 1 ? sizeof(stringptr) : 0); ASSUME(g_wo >= vc_k);   /* where the copied byte lands */
#endif
		CHECK(stringptr_copy(NULL) == NULL && stringptr_strdup(NULL) == NULL, "nothing to copy");
		stringptr *r = NULL; char *t;
		if(op == 1) { r = stringptr_copy(s); t = r ? r->ptr : NULL; } else t = stringptr_strdup(s);
		CHECK((t == NULL) == oom_failed, "fails exactly when memory is out");
		if(t) {
			if(r) CHECK(r->size == n, "size");
			CHECK(t[n] == 0, "terminated");
			FORALL(k, n, t[k] == sp[k], "the same characters");
			CHECK(t != sp, "a new string"); t[n] = 1;
			stub_free(r ? (void*) r : t); CHECK(oom_live == 0, "one block");
		} else CHECK(oom_live == 0, "nothing leaks");
		CHECK(s->size == n && s->ptr == sp, "the original stays");
	} else if(op == 3) {
		stringptr *a = h_sp(0), *b = h_sp(0); int na = nd_bool(), nb = nd_bool();
		int r = stringptr_eq(na ? NULL : a, nb ? NULL : b);
		if(na || nb) CHECK(!r == !(na && nb), "NULL equals only NULL");
		else if(a->size != b->size) CHECK(!r, "different sizes differ");
#ifdef VC_PROOF
		else if(r) FORALL(k, a->size, a->ptr[k] == b->ptr[k], "equal strings have the same characters");
		else CHECK(g_dj < a->size && a->ptr[g_dj] != b->ptr[g_dj], "different ones differ somewhere");
#else
		else { int e = 1; for(size_t i = 0; i < a->size; i++) e &= a->ptr[i] == b->ptr[i]; CHECK(!r == !e, "equal exactly when the characters are"); }
#endif
	} else if(op == 4) {
		stringptr *a = h_sp(0), *b = h_sp(0); size_t p = nd_len(); int r = stringptr_here(a, p, b);
		if(p > a->size || b->size > a->size - p) CHECK(!r, "no room for it there");
#ifdef VC_PROOF
		else if(r) FORALL(k, b->size, a->ptr[p + k] == b->ptr[k], "it is there");
		else CHECK(g_dj < b->size && a->ptr[p + g_dj] != b->ptr[g_dj], "it is not there");
#else
		else { int e = 1; for(size_t i = 0; i < b->size; i++) e &= a->ptr[p + i] == b->ptr[i]; CHECK(!r == !e, "there exactly when the characters are"); }
#endif
	} else if(op == 5 || op == 6) {
		stringptr *s = h_sp(1); size_t n = s->size, c = nd_len(); char *p = s->ptr; 
#ifdef VC_PROOF
		unsigned char old = 0; size_t k = vc_k; if(k < n) old = p[k];
#else
		unsigned char olds[200]; memcpy(olds, p, n);
#endif
		CHECK(stringptr_shiftleft(NULL, c) == 0 && stringptr_shiftright(NULL, c) == 0, "nothing to do");
		int r = op == 5 ? stringptr_shiftleft(s, c) : stringptr_shiftright(s, c);
		CHECK(!r == (c > n), "refuses to cut more than there is");
		if(!r) CHECK(s->size == n && s->ptr == p, "and changes nothing then");
		else if(op == 5) { CHECK(s->size == n - c && s->ptr == p && p[n - c] == 0, "cut at the end, terminated"); }
		else CHECK(s->size == n - c && s->ptr == p + c, "cut at the start");
#ifdef VC_PROOF
		if(k < n && (op == 6 || !r || k != n - c)) CHECK((unsigned char) p[k] == old, "the other characters stay");
#else
		for(size_t k = 0; k < n; k++) if(op == 6 || !r || k != n - c) CHECK((unsigned char) p[k] == olds[k], "the other characters stay");
#endif
	} else {
		stringptr o, *r; size_t n = nd_len1(); char *t = vc_mem(n); t[n - 1] = 0;
		r = stringptr_fromchar(t, &o); CHECK(r == &o && o.ptr == t && o.size < n && t[o.size] == 0, "the text up to its terminator");
		FORALL(k, o.size, t[k] != 0, "the text up to its terminator");
		r = stringptr_fromchar(NULL, &o); CHECK(r == &o && o.ptr == NULL && o.size == 0, "no text is empty");
	}
	REACH("end");
}
