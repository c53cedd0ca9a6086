/*@unit
property = "P27"
functions = ["op_hasflag"]
lemma = "true exactly when some argument is a dash (two at will for long names) and exactly the name"
timeout = 100
unwind = 2
fuzzlen = 200
nobounded = true
redirect = ["memcmp:stub_mcmp", "strcmp:stub_scmp", "strlen:stub_len"]
stubs = ["memcmp, strcmp, strlen (libc)"]
[[loop]]
fn = "op_hasflag"
nth = 0
inv = ["i >= 1 && g_i == i && (i <= g_p.argc || i == 1) && !g_found"]
assigns = ["i, l, s, g_i, g_n, g_s, g_t, g_e, g_eq, g_found, g_pos, g_skip, __CPROVER_object_whole(g_argv)"]
decreases = "g_p.argc + 1 - i"
ghost = "opt_next(i);"
*/
#include "opt_common.h"
#ifdef VC_CBMC
int stub_mcmp(const void *a, const void *b, size_t n); int stub_scmp(const char *a, const char *b); size_t stub_len(const char *s);
#endif
#include "src/optparser/op_hasflag.c"
#ifdef VC_NATIVE
#include "src/optparser/op_init.c"
#endif
#ifdef VC_CBMC
void opt_spec(size_t i) { if(!g_found && g_n > 0 && g_s[0] == '-' && g_eq && g_n - g_skip == g_name.size) { g_found = 1; g_pos = i; } }
#endif
void harness(void) {
	VC_INIT(); h_opts();
#ifdef VC_CBMC
	int r = op_hasflag(&g_p, &g_name);
	if(g_found) CHECK(r == 1 && g_i == g_pos + 1, "found where it is");
	else CHECK(r == 0 && (g_i == g_p.argc || g_p.argc == 0), "absent from every argument");
#else
	int e = 0, r = op_hasflag(&g_p, &g_name);
	for(size_t i = 1; i < g_p.argc; i++) { char *s = g_a[i]; if(*s++ != '-') continue; if(g_name.size > 1 && *s == '-') s++; e |= !strcmp(s, g_name.ptr); }
	CHECK(!r == !e, "true exactly when given"); h_done();
#endif
	REACH("end");
}
