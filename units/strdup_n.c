/*@unit
property = "P07"
functions = ["strdup_n"]
lemma = "a fresh terminated text with exactly the first n characters, or nothing when memory is out; the source is unchanged and not read past n"
unwind = 1
fuzzlen = 64
stubs = ["malloc (libc): fresh object of the size asked, or NULL", "memcpy (libc): copies n readable bytes to n writable bytes"]
*/
#include "vc.h"
#include "oom.h"
#include "src/strlib/strdup_n.c"
#include "oom_end.h"
void harness(void) {
	VC_INIT(); OOM_INIT();
	size_t n = nd_len1(); char *s = vc_mem(n);
	char g = 0; size_t w = 0;
#ifdef VC_PROOF
	w = vc_k; if(w < n) g = s[w];
#endif
	CHECK(strdup_n(NULL, n) == NULL && strdup_n(s, 0) == NULL, "nothing to copy");
	char *r = strdup_n(s, n);
	CHECK(IMPLIES(!oom_failed, r != NULL) && IMPLIES(oom_failed, r == NULL), "fails exactly when memory is out");
	if(r) {
		CHECK(r != s && FRESH_SIZE(r) == n + 1, "fresh object of the right size");
		FORALL(k, n, r[k] == s[k], "the characters are copied");
		CHECK(r[n] == 0, "terminated");
#ifdef VC_PROOF
		if(w < n) CHECK(s[w] == g, "source unchanged");
#endif
	}
	REACH("end");
}
