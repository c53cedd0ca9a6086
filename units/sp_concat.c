/*@unit
property = "P18"
functions = ["stringptr_concat"]
lemma = "the result is exactly the arguments one after the other, terminated; NULL when memory is out"
cases = ["-DARITY=0", "-DARITY=1", "-DARITY=2", "-DARITY=3"]
bcases = [""]
timeout = 100
unwind = 6
fuzzlen = 200
nobounded = true
stubs = ["malloc, memcpy (libc)"]
assume = ["stringptr_concat: calls with one to four strings (the argument count is fixed at the call; contents and lengths arbitrary)"]
*/
#define MEMCPY_FRESH
#include "sp_common.h"
#define malloc stub_malloc
#ifdef VC_PROOF
#define memcpy stub_memcpy
#endif
#include "src/stringptr/stringptr_new.c"
#include "src/stringptr/stringptr_concat.c"
#undef memcpy
#include "oom_end.h"
#ifndef ARITY
#define ARITY nd_range(0, 3)
#endif
void harness(void) {
	VC_INIT(); OOM_INIT();
	int ar = ARITY, i; stringptr *a[4], *r; size_t tot = 0, off[5];
	a[0] = a[1] = a[2] = a[3] = NULL;
	for(i = 0; i < 4; i++) if(i <= ar) { a[i] = h_sp(0); off[i] = tot; tot += a[i]->size; }
#ifdef VC_PROOF
	size_t k = vc_k; g_dj = 0; g_wo = k + sizeof(stringptr); ASSUME(g_wo >= k);
#endif
	r = ar == 0 ? stringptr_concat(a[0], NULL) : ar == 1 ? stringptr_concat(a[0], a[1], NULL) : ar == 2 ? stringptr_concat(a[0], a[1], a[2], NULL) : stringptr_concat(a[0], a[1], a[2], a[3], NULL);
	CHECK((r == NULL) == oom_failed, "fails exactly when memory is out");
	if(r) {
		CHECK(r->size == tot && r->ptr[tot] == 0, "total size, terminated");
		for(i = 0; i <= ar && i < 4; i++)
#ifdef VC_PROOF
			if(k >= off[i] && k - off[i] < a[i]->size) CHECK(r->ptr[k] == a[i]->ptr[k - off[i]], "the characters in order");
#else
			CHECK(!memcmp(r->ptr + off[i], a[i]->ptr, a[i]->size), "the characters in order");
		free(r);
#endif
	}
	REACH("end");
}
