/*@unit
property = "P25"
functions = ["guard_alloc", "guard_free"]
lemma = "the block lies inside the mapping and ends exactly at its one inaccessible page, freeing it returns the whole mapping, and a failure of either system call leaves nothing mapped"
timeout = 150
unwind = 1
fuzzlen = 40
stubs = ["mmap, mprotect, munmap (system): page-aligned mappings, either may fail"]
*/
#include "vc.h"
#ifndef PAGE_SIZE
#define PAGE_SIZE 4096
#endif
#include <sys/mman.h>
static char *g_base; static size_t g_len, g_glen, g_goff; static int g_maps, g_unmaps, g_prot, g_fail;
#ifdef VC_CBMC
static uintptr_t g_addr;
#endif
static void *stub_mmap(void *a, size_t len, int prot, int flags, int fd, off_t off) {
	CHECK(prot == (PROT_READ | PROT_WRITE) && (flags & MAP_ANONYMOUS) && (flags & MAP_PRIVATE) && !(flags & MAP_FIXED), "private memory, readable and writable");
	CHECK(len > 0 && len % PAGE_SIZE == 0, "whole pages"); CHECK(!g_maps, "one mapping");
	if(nd_bool()) { g_fail = 1; return MAP_FAILED; }
	ASSUME(len < (size_t) 1 << 46);   /* more is never there */
#ifdef VC_NATIVE
	ASSUME(len < 1 << 20); g_base = mmap(0, len, prot, flags, fd, off);
#else
	/* an address: the memory is not accessed */
	uintptr_t b = (uintptr_t) nondet_u64(); ASSUME(b % PAGE_SIZE == 0 && b >= 65536 && b < (uintptr_t) 1 << 46); g_base = (char*) b;
#endif
	g_maps++; g_len = len; return g_base;
}
static int stub_mprotect(void *p, size_t len, int prot) {
	CHECK(g_maps && !g_unmaps && prot == PROT_NONE, "makes the guard inaccessible"); 
	g_goff = (uintptr_t) p - (uintptr_t) g_base; g_glen = len;
	CHECK(g_goff % PAGE_SIZE == 0 && g_goff <= g_len && len <= g_len - g_goff && len >= PAGE_SIZE, "a page of the mapping");
	if(nd_bool()) { g_fail = 1; return -1; }
#ifdef VC_NATIVE
	mprotect(p, len, prot);
#endif
	g_prot++; return 0;
}
static int stub_munmap(void *p, size_t len) {
	CHECK(g_maps && !g_unmaps, "unmaps once"); CHECK((uintptr_t) p == (uintptr_t) g_base && len == g_len, "the whole mapping"); g_unmaps++;
#ifdef VC_NATIVE
	munmap(g_base, g_len);
#endif
	return 0;
}
#define mmap stub_mmap
#define mprotect stub_mprotect
#define munmap stub_munmap
#include "include/guard_alloc.c"
void harness(void) {
	VC_INIT(); g_base = NULL; g_len = g_glen = g_goff = 0; g_maps = g_unmaps = g_prot = g_fail = 0;
	size_t n = nd_u64();
#ifdef VC_NATIVE
	if(nd_u8() % 4) n %= 20000; if(nd_u8() % 4 == 0) n = n / PAGE_SIZE * PAGE_SIZE;
#endif
	char *p = guard_alloc(n);
	if(!p) { CHECK(g_maps == g_unmaps, "nothing stays mapped"); CHECK(g_fail || n > SIZE_MAX - 4 * PAGE_SIZE, "fails only when the system does"); }
	else {
		size_t d = (uintptr_t) p - (uintptr_t) g_base;
		CHECK(g_maps == 1 && g_prot == 1 && !g_unmaps, "one mapping with a guard"); CHECK(d <= g_len && n <= g_len - d, "inside the mapping");
		CHECK(d + n == g_goff, "ends where the guard begins");
#ifdef VC_NATIVE
		memset(p, 1, n);
#endif
		guard_free(p, n); CHECK(g_unmaps == 1, "released");
	}
	REACH("end");
}
