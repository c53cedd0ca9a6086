/* allocation outcomes chosen by the environment: every call may fail; live blocks are counted.
 * Included before the repo source; oom_end.h restores the names. */
#ifndef OOM_H
#define OOM_H
#include "vc.h"
static int oom_failed, oom_live, oom_calls;
#define OOM_INIT() (oom_failed = oom_live = oom_calls = 0)
#ifdef VC_CBMC
#define FRESH_SIZE(p) __CPROVER_OBJECT_SIZE(p)
#ifdef VC_PROOF
_Bool nondet_bool_(void);
static int oom_fails(void) { return nondet_bool_(); }
#else
static int oom_fails(void) { return nd_bool(); }
#endif
static void *stub_malloc(size_t n) {
	oom_calls++;
	if(oom_fails()) { oom_failed = 1; return NULL; }
	void *p = __CPROVER_allocate(n, 0);
	oom_live++;
	return p;
}
static void *stub_calloc(size_t a, size_t b) {
	oom_calls++;
	if(oom_fails()) { oom_failed = 1; return NULL; }
	void *p = __CPROVER_allocate(a * b, 1);
	oom_live++;
	return p;
}
#ifdef VC_PROOF
void *realloc_copy(void *old, size_t oldn, void *nw, size_t n);
#endif
static void *stub_realloc(void *o, size_t n) {
	if(!o) return stub_malloc(n);
	CHECK(__CPROVER_POINTER_OFFSET(o) == 0, "realloc of a block start");
	oom_calls++;
	if(oom_fails()) { oom_failed = 1; return NULL; }
	size_t m = __CPROVER_OBJECT_SIZE(o);
#ifdef OOM_COPY
	size_t z = nondet_u64(); ASSUME(z == n);   /* no element type inferred from the size expression */
	char *p = __CPROVER_allocate(z, 0);
	if(m > n) m = n;
	OOM_COPY(p, o, m);
#else
	char *p = __CPROVER_allocate(n, 0);
	if(m > n) m = n;
	if(m) memcpy(p, o, m);
#endif
	free(o);
	return p;
}
static void stub_free(void *p) { if(p) { oom_live--; free(p); } }
#else
#include <malloc.h>
#define FRESH_SIZE(p) (n_oom_size(p))
size_t __sanitizer_get_allocated_size(const volatile void *);
static size_t n_oom_size(void *p) { return __sanitizer_get_allocated_size(p); }
/* most allocations succeed natively */
static int oom_fails(void) { return nd_u8() % 8 == 7; }
static void *stub_malloc(size_t n) { oom_calls++; if(oom_fails()) { oom_failed = 1; return NULL; } oom_live++; return malloc(n); }
static void *stub_calloc(size_t a, size_t b) { oom_calls++; if(oom_fails()) { oom_failed = 1; return NULL; } oom_live++; return calloc(a, b); }
static void *stub_realloc(void *o, size_t n) { if(!o) return stub_malloc(n); oom_calls++; if(oom_fails()) { oom_failed = 1; return NULL; } return realloc(o, n); }
static void stub_free(void *p) { if(p) { oom_live--; free(p); } }
#endif
static char *stub_strdup(const char *s) {
	size_t n = strlen(s) + 1; char *p = stub_malloc(n);
	if(p) memcpy(p, s, n);
	return p;
}
#endif
#define malloc stub_malloc
#define calloc stub_calloc
#define realloc stub_realloc
#define free stub_free
#undef strdup
#define strdup stub_strdup
