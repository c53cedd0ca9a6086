/* counted strings: arbitrary contents (NULs included), stored with room for the terminator */
#ifndef SP_COMMON_H
#define SP_COMMON_H
#include "vc.h"
#include "oom.h"
#include "include/stringptr.h"
#ifdef VC_CBMC
/* memcmp: 0 exactly when the ranges agree (used at the witness offset), otherwise some offset differs (g_dj) */
static size_t g_dj;
int stub_memcmp(const void *a, const void *b, size_t n) {
	const unsigned char *x = a, *y = b; int r = (int) (uint32_t) nondet_u64();
	CHECK(n == 0 || (__CPROVER_r_ok(a, n) && __CPROVER_r_ok(b, n)), "compared ranges inside both strings");
	if(r == 0) { if(vc_k < n) ASSUME(x[vc_k] == y[vc_k]); }
	else { size_t j = nondet_u64(); ASSUME(j < n && x[j] != y[j] && (r > 0) == (x[j] > y[j])); g_dj = j; }
	return r;
}
/* memcpy: the range takes the source's bytes (used at the witness offset of the destination object), the rest stays */
static size_t g_wo;
static void *stub_memcpy(void *d, const void *s, size_t n) {
	CHECK(n == 0 || (__CPROVER_r_ok(s, n) && __CPROVER_w_ok(d, n)), "copied range inside both objects");
	CHECK(n == 0 || !__CPROVER_same_object(d, s) || (size_t) __CPROVER_POINTER_OFFSET(s) >= __CPROVER_POINTER_OFFSET(d) + n || (size_t) __CPROVER_POINTER_OFFSET(d) >= __CPROVER_POINTER_OFFSET(s) + n, "memcpy ranges do not overlap");
	if(n == 0) return d;
	size_t o = __CPROVER_POINTER_OFFSET(d); int in = g_wo >= o && g_wo - o < n; unsigned char v = 0;
	if(in) v = ((const unsigned char*) s)[g_wo - o];
#ifdef MEMCPY_FRESH /* destination is fresh memory of arbitrary contents: bytes other than the witness may stay arbitrary */
	if(in) ((unsigned char*) d)[g_wo - o] = v;
#else
	__CPROVER_havoc_slice(d, n);
	if(in) ASSUME(((unsigned char*) d)[g_wo - o] == v);
#endif
	return d;
}
size_t stub_strlen(const char *s) { size_t n = nondet_u64(); CHECK(__CPROVER_r_ok(s, 1), "a text"); ASSUME(n < __CPROVER_OBJECT_SIZE(s) - __CPROVER_POINTER_OFFSET(s) && s[n] == 0); if(vc_k < n) ASSUME(s[vc_k] != 0); return n; }
#endif
/* a string of any size; room bytes are writable behind it (at least the terminator's) */
static stringptr *h_sp(size_t room) {
	stringptr *s = vc_alloc(sizeof *s);
	s->size = nd_len(); s->ptr = vc_mem(s->size + room);
	return s;
}
#endif
