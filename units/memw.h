/* contract of memmove/memcpy on heap buffers, stated at witness offsets of the destination object:
 * after the call, the destination byte at a witness offset holds the byte the move puts there (or its
 * old value outside the range); the other bytes of the object are unconstrained.  As the witnesses are
 * arbitrary, this is an over-approximation of the libc contract. */
#ifndef MEMW_H
#define MEMW_H
#include "vc.h"
#ifdef VC_PROOF
#ifndef MW_N
#define MW_N 1
#endif
static size_t mw_off[MW_N];
static unsigned char mw_new(char *d, const char *s, size_t n, size_t w) {
	size_t o = __CPROVER_POINTER_OFFSET(d);
	if(w >= o && w - o < n) return ((const unsigned char*) s)[w - o];
	return ((unsigned char*) d - o)[w];
}
static void *mw_move(void *d, const void *s, size_t n, _Bool overlap) {
	CHECK(n == 0 || (__CPROVER_r_ok(s, n) && __CPROVER_w_ok(d, n)), "moved range inside both objects");
	if(!overlap) CHECK(n == 0 || !__CPROVER_same_object(d, s) || (size_t) __CPROVER_POINTER_OFFSET(s) >= __CPROVER_POINTER_OFFSET(d) + n || (size_t) __CPROVER_POINTER_OFFSET(d) >= __CPROVER_POINTER_OFFSET(s) + n, "memcpy ranges do not overlap");
	if(n == 0) return d;
	size_t sz = __CPROVER_OBJECT_SIZE(d); unsigned char *base = (unsigned char*) d - __CPROVER_POINTER_OFFSET(d);
	unsigned char v0 = 0; _Bool i0 = mw_off[0] < sz;
	if(i0) v0 = mw_new(d, s, n, mw_off[0]);
#if MW_N > 1
	unsigned char v1 = 0; _Bool i1 = mw_off[1] < sz;
	if(i1) v1 = mw_new(d, s, n, mw_off[1]);
#endif
#if MW_N > 2
	unsigned char v2 = 0; _Bool i2 = mw_off[2] < sz;
	if(i2) v2 = mw_new(d, s, n, mw_off[2]);
#endif
	__CPROVER_havoc_object(base);
	if(i0) ASSUME(base[mw_off[0]] == v0);
#if MW_N > 1
	if(i1) ASSUME(base[mw_off[1]] == v1);
#endif
#if MW_N > 2
	if(i2) ASSUME(base[mw_off[2]] == v2);
#endif
	return d;
}
/* realloc keeps the contents: stated at the witnesses */
static void mw_keep(char *p, const char *o, size_t m) {
	if(mw_off[0] < m) p[mw_off[0]] = o[mw_off[0]];
#if MW_N > 1
	if(mw_off[1] < m) p[mw_off[1]] = o[mw_off[1]];
#endif
#if MW_N > 2
	if(mw_off[2] < m) p[mw_off[2]] = o[mw_off[2]];
#endif
}
static void *stub_memmove(void *d, const void *s, size_t n) { return mw_move(d, s, n, 1); }
static void *stub_memcpy(void *d, const void *s, size_t n) { return mw_move(d, s, n, 0); }
#endif
#endif
