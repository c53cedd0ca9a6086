/*@unit
property = "P27"
functions = ["op_get", "op_init"]
lemma = "the value is the text behind the equals sign of, or the argument after, the first argument that is a dash (two at will for long names) and exactly the name; none otherwise"
timeout = 100
unwind = 2
fuzzlen = 200
nobounded = true
redirect = ["memcmp:stub_mcmp", "strcmp:stub_scmp", "strlen:stub_len", "strleneq:stub_sle"]
stubs = ["strleneq (proved in unit op_strleneq)", "memcmp, strcmp, strlen (libc)"]
assume = ["option names are terminated, not empty and have no equals sign or NUL in them"]
[[loop]]
fn = "op_get"
nth = 0
inv = ["i >= 1 && g_i == i && (i <= g_p.argc || i == 1) && !g_found"]
assigns = ["i, l, s, g_i, g_n, g_s, g_t, g_e, g_eq, g_found, g_pos, g_skip, __CPROVER_object_whole(g_argv)"]
decreases = "g_p.argc + 1 - i"
ghost = "opt_next(i);"
*/
#include "opt_common.h"
#ifdef VC_CBMC
int stub_mcmp(const void *a, const void *b, size_t n); int stub_scmp(const char *a, const char *b); size_t stub_len(const char *s); size_t stub_sle(const char *s);
#endif
#include "src/optparser/op_get.c"
#include "src/optparser/op_init.c"
#ifdef VC_CBMC
void opt_spec(size_t i) {
	int dash = g_n > 0 && g_s[0] == '-'; size_t k = g_name.size;
	if(!g_found && dash && g_eq && g_e == k) {
		if(g_t[k] == '=') { g_found = 1; g_pos = i; }
		else if(i + 1 < g_p.argc) { g_found = 2; g_pos = i; }
	}
}
#endif
void harness(void) {
	VC_INIT(); h_opts();
#ifdef VC_CBMC
	op_state q; op_init(&q, g_p.argc, g_argv); CHECK(q.argc == g_p.argc && q.argv == g_argv, "the state is the vector");
	char *r = op_get(&g_p, &g_name);
	if(g_found == 1) CHECK(g_i == g_pos + 1 && r == g_t + g_name.size + 1, "the text behind the equals sign");
	else if(g_found == 2) CHECK(g_i == g_pos + 1 && r == g_argv[g_pos + 1], "the next argument");
	else CHECK(r == NULL && (g_i == g_p.argc || g_p.argc == 0), "absent from every argument");
#else
	char *e = NULL, *r = op_get(&g_p, &g_name);
	for(size_t i = 1; i < g_p.argc && !e; i++) { char *s = g_a[i]; size_t k = g_name.size; if(*s++ != '-') continue; if(k > 1 && *s == '-') s++;
		if(strncmp(s, g_name.ptr, k)) continue; if(s[k] == '=') e = s + k + 1; else if(!s[k] && i + 1 < g_p.argc) e = g_a[i + 1]; }
	CHECK(r == e, "the value of the first such option"); h_done();
#endif
	REACH("end");
}
