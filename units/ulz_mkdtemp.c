/*@unit
property = "P32"
functions = ["ulz_mkdtemp"]
lemma = "replaces the last six characters by letters and digits and nothing else, asks for a private directory of that name, again with another name when it exists, and reports a failure with NULL"
timeout = 100
unwind = 3
fuzzlen = 100
nobounded = true
redirect = ["strlen:stub_len", "%:stub_mod"]
stubs = ["mkdir, rand, strlen (libc): mkdir reports an existing name at most once here; every further round starts like the one before"]
[[loop]]
fn = "ulz_mkdtemp"
nth = 0
wrap = true
inv = ["i >= l - 6 && i <= l && l == g_n && templ == g_t && g_t[g_n] == 0", "vc_k < g_n - 6 ==> g_t[vc_k] == g_o", "i > g_w ==> g_t[g_w] >= 48", "(i > g_w && g_t[g_w] > 57) ==> g_t[g_w] >= 65", "(i > g_w && g_t[g_w] > 90) ==> g_t[g_w] >= 97", "i > g_w ==> g_t[g_w] <= 122"]
assigns = ["i, __CPROVER_object_whole(g_t), vc_nd_v8"]
decreases = "l - i"
*/
#include "vc.h"
#include <sys/types.h>
#include <sys/stat.h>
#include <unistd.h>
#include <errno.h>
#include "include/strlib.h"
#define LEGAL(c) ((((c) >= '0') & ((c) <= '9')) | (((c) >= 'a') & ((c) <= 'z')) | (((c) >= 'A') & ((c) <= 'Z')))
static size_t g_w; static char g_o;   /* one arbitrary position of the six */
static int g_err, g_tries, g_made; static char *g_t; static size_t g_n;
static int stub_rand(void) { return (int) nd_range(0, 2147483647); }
static int stub_mkdir(const char *p, mode_t m) {
	CHECK(p == g_t && m == 0700, "a private directory of that name"); CHECK(!g_made, "one directory");
#ifdef VC_NATIVE
	for(g_w = g_n - 6; g_w < g_n; g_w++)
#endif
	CHECK(LEGAL(p[g_w]), "letters and digits");
	if(g_tries == 0 && nd_bool()) { g_tries = 1; g_err = EEXIST; return -1; }
	g_tries = 2; if(nd_bool()) { g_err = nd_bool() ? EACCES : ENOENT; return -1; }
	g_made = 1; return 0;
}
#ifdef VC_CBMC
size_t stub_mod(size_t a, size_t b) { CHECK(b != 0, "no division by zero"); size_t r = nondet_u64(); ASSUME(r < b && r <= a); return r; }
size_t stub_len(const char *s) { CHECK(s == g_t, "the template"); return g_n; }
#endif
#undef errno
#define errno g_err
#define rand stub_rand
#define mkdir stub_mkdir
#include "src/strlib/conv_cypher.c"
#include "src/filelib/ulz_mkdtemp.c"
void harness(void) {
	VC_INIT(); size_t n = nd_len(), k; char *t = vc_mem(n + 1); g_t = t;
#ifdef VC_NATIVE
	char o[64]; for(k = 0; k < n; k++) if(!t[k]) t[k] = 'X'; t[n] = 0; memcpy(o, t, n);
#else
	t[n] = 0; k = vc_k; char o = 0; if(k < n) o = t[k]; g_o = o; g_w = nondet_u64(); ASSUME(n < 6 || (g_w < n && g_w >= n - 6));
#endif
	g_n = n; g_err = g_tries = g_made = 0;
	char *r = ulz_mkdtemp(t);
	CHECK((r == t && g_made) || (r == NULL && !g_made), "the name, or NULL when no directory was made");
	if(n < 6) CHECK(!r && g_err == EINVAL && !g_tries, "too short a template is refused"); else CHECK(g_tries == 2, "tries until made or refused");
#ifdef VC_NATIVE
	for(k = 0; k + 6 < n || (n < 6 && k < n); k++) CHECK(t[k] == o[k], "the rest stays");
#else
	if(k < n && (n < 6 || k < n - 6)) CHECK(t[k] == o, "the rest stays");
#endif
	CHECK(t[n] == 0, "terminated");
	REACH("end");
}
