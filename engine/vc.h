/* Harness prelude.  One harness text, three readings of it:
 *   VC_PROOF    cbmc, unbounded inputs, loop contracts injected into the real source
 *   VC_BOUNDED  cbmc, small inputs, real loops unwound, every nondet value logged (counterexample search)
 *   VC_NATIVE   gcc/clang + ASan, values taken from a byte stream (replay of a counterexample, fuzzing)
 */
#ifndef VC_H
#define VC_H
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>

#ifndef VC_BOUND
#define VC_BOUND 4
#endif
#ifndef VC_NATIVE_MAX
#define VC_NATIVE_MAX 48
#endif
#ifndef VC_HUGE
#define VC_HUGE ((size_t)1 << 32)
#endif

#define VC_OR(a, b) ((a) || (b))
#define IMPLIES(a, b) (!(a) || (b))

#if defined(VC_PROOF) || defined(VC_BOUNDED)
#define VC_CBMC 1
#endif

#ifdef VC_CBMC
void __CPROVER_assume(_Bool);
void __CPROVER_assert(_Bool, const char *);
void __CPROVER_havoc_object(void *);
size_t __CPROVER_OBJECT_SIZE(const void *);
size_t __CPROVER_POINTER_OFFSET(const void *);
size_t __CPROVER_POINTER_OBJECT(const void *);
_Bool __CPROVER_same_object(const void *, const void *);
void __CPROVER_havoc_slice(void *, size_t);
uint8_t nondet_u8(void); uint16_t nondet_u16(void); uint64_t nondet_u64(void);
#define ASSUME(x) __CPROVER_assume((_Bool)(x))
#define CHECK(x, msg) __CPROVER_assert((_Bool)(x), "CHECK " msg)
/* vacuity guard: this assertion must FAIL, i.e. the point must be reachable under the preconditions */
#define REACH(tag) __CPROVER_assert(0, "VCREACH " tag)
#else
#include <stdio.h>
#include <setjmp.h>
extern jmp_buf vc_jmp;
extern const unsigned char *vc_data; extern size_t vc_size;
extern int vc_verbose;
void vc_fail(const char *expr, const char *msg, const char *file, int line);
#define ASSUME(x) do { if(!(x)) longjmp(vc_jmp, 77); } while(0)
#define CHECK(x, msg) do { if(!(x)) vc_fail(#x, msg, __FILE__, __LINE__); } while(0)
#define REACH(tag) ((void)0)
#endif

/* ---- nondeterministic values ------------------------------------------------------- */
#ifdef VC_CBMC
uint8_t vc_nd_v1; uint16_t vc_nd_v2; uint64_t vc_nd_v8;
static inline uint8_t nd_u8(void) { uint8_t v = nondet_u8(); vc_nd_v1 = v; return v; }
static inline uint16_t nd_u16(void) { uint16_t v = nondet_u16(); vc_nd_v2 = v; return v; }
static inline uint64_t nd_u64(void) { uint64_t v = nondet_u64(); vc_nd_v8 = v; return v; }
static inline uint64_t nd_range(uint64_t lo, uint64_t hi) {
	ASSUME(lo <= hi);
	uint64_t v, d;
	if(hi - lo < 256) { d = nd_u8(); }
	else if(hi - lo < 65536) { d = nd_u16(); }
	else d = nd_u64();
	ASSUME(d <= hi - lo);
	v = lo + d;
	return v;
}
#else
uint8_t nd_u8(void); uint16_t nd_u16(void); uint64_t nd_u64(void);
uint64_t nd_range(uint64_t lo, uint64_t hi);
#endif
static inline uint32_t nd_u32(void) { return (uint32_t) nd_u64(); }
static inline int nd_int(void) { return (int)(uint32_t) nd_u64(); }
static inline int nd_bool(void) { return nd_u8() & 1; }
static inline char nd_char(void) { return (char) nd_u8(); }

/* an input length: any value in the proof, a small one elsewhere */
#ifdef VC_PROOF
#define nd_len_max(hi) nd_range(0, VC_HUGE - 1)
#define nd_len() nd_range(0, VC_HUGE - 1)
#define nd_len1() nd_range(1, VC_HUGE - 1)
#elif defined(VC_BOUNDED)
#define nd_len() nd_range(0, VC_BOUND)
#define nd_len1() nd_range(1, VC_BOUND)
#else
#define nd_len() nd_range(0, VC_NATIVE_MAX)
#define nd_len1() nd_range(1, VC_NATIVE_MAX)
#endif

/* an object of exactly n bytes (at least one byte is allocated: n==0 gives a
 * pointer to the end of an object, so that any access is an error) */
#ifdef VC_NATIVE
void *vc_alloc(size_t n);
void *vc_mem(size_t n);      /* filled from the stream */
#define vc_mem_hint(n, chars) vc_mem_alpha(n, chars)
void *vc_mem_alpha(size_t n, const char *chars);
#else
static inline void *vc_alloc(size_t n) {
	void *p = __CPROVER_allocate(n, 0);
	return p;
}
#ifdef VC_PROOF
#define vc_mem(n) vc_alloc(n)
#define vc_mem_hint(n, chars) vc_alloc(n)
#else
static inline void *vc_mem(size_t n) {
	unsigned char *p = vc_alloc(n);
	for(size_t i = 0; i < n; i++) p[i] = nd_u8();
	return p;
}
#define vc_mem_hint(n, chars) vc_mem(n)
#endif
#endif

/* pointwise universally quantified check: the proof checks it at one arbitrary
 * index (the ghost witness vc_k, chosen before the code runs), the other
 * modes at every index */
size_t vc_k, vc_k2;
unsigned char vc_lp;
#ifdef VC_PROOF
#define VC_INIT() do { vc_k = nondet_u64(); vc_k2 = nondet_u64(); } while(0)
#define FORALL(K, N, E, MSG) do { size_t K = vc_k; if(K < (N)) CHECK(E, MSG); } while(0)
#define FORALL2(K, N, E, MSG) do { size_t K = vc_k2; if(K < (N)) CHECK(E, MSG); } while(0)
/* quantified assumption, instantiated at the witness only */
#define ASSUME_ALL(K, N, E) do { size_t K = vc_k; if(K < (N)) ASSUME(E); } while(0)
#else
#define VC_INIT() ((void)0)
#define FORALL(K, N, E, MSG) do { for(size_t K = 0; K < (N); K++) CHECK(E, MSG); } while(0)
#define FORALL2 FORALL
#define ASSUME_ALL(K, N, E) do { for(size_t K = 0; K < (N); K++) ASSUME(E); } while(0)
#endif
#endif
