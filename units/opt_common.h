/* an argument vector of any length.  cbmc: the vector's elements are handed out one after the other (opt_next, put at the
 * start of each round of the loop over them); each is a text of any length somewhere in one pool. */
#include "vc.h"
#include "include/optparser.h"
static op_state g_p; static stringptr g_name; static size_t g_i, g_n, g_e; static int g_eq, g_found; static char *g_s, *g_t, *g_res, *g_pool, **g_argv; static size_t g_ps, g_pos;
#ifdef VC_CBMC
void opt_spec(size_t i);
char *opt_nextarg(size_t i);
static size_t g_skip;
/* the argument at i: g_s, length g_n; behind its dashes (g_t) the first '=' or end is at g_e; g_eq: the name stands there */
void opt_next(size_t i) {
	CHECK(i == g_i && i < g_p.argc, "looks at the arguments in order");
	size_t at = nondet_u64(); g_n = nondet_u64(); ASSUME(at < g_ps && g_n < g_ps - at);
	g_s = g_pool + at; ASSUME(g_s[g_n] == 0); if(g_n > 0) ASSUME(g_s[0] != 0); if(g_n > 1) ASSUME(g_s[1] != 0);
	g_skip = 0; if(g_n > 0 && g_s[0] == '-') { g_skip = 1; if(g_name.size > 1 && g_n > 1 && g_s[1] == '-') g_skip = 2; }
	g_t = g_s + g_skip; size_t r = g_n - g_skip;
	g_e = nondet_u64(); ASSUME(g_e <= r && (g_e == r || g_t[g_e] == '=')); if(g_e > 0) ASSUME(g_t[0] != '=' && g_t[0] != 0);
	g_eq = nondet_u8() & 1; ASSUME(!(g_eq && g_e < g_name.size));   /* the name has no '=' and no terminator in it */
	g_argv[i] = g_s;
	opt_spec(i); g_i = i + 1;
}
int stub_mcmp(const void *a, const void *b, size_t n) {
	CHECK((a == g_name.ptr && b == g_t || b == g_name.ptr && a == g_t), "compares the name with the argument"); CHECK(n <= g_name.size && n <= g_n - g_skip + 1, "inside both texts");
	if(n == g_name.size) return g_eq ? 0 : 1;
	return nondet_u8();
}
int stub_scmp(const char *a, const char *b) {
	CHECK((a == g_name.ptr && b == g_t || b == g_name.ptr && a == g_t), "compares the name with the argument");
	return g_eq && g_n - g_skip == g_name.size ? 0 : 1;
}
size_t stub_len(const char *s) { if(s == g_name.ptr) return g_name.size; CHECK(__CPROVER_same_object(s, g_s) && s >= g_s && s <= g_s + g_n, "measures the argument"); return g_n - (s - g_s); }
/* proved in unit op_strleneq */
size_t stub_sle(const char *s) { CHECK(s == g_t, "measures the argument behind its dashes"); return g_t[g_e] ? g_e : 0; }
static void h_opts(void) {
	g_ps = nd_range(1, (size_t) 1 << 40); g_pool = vc_alloc(g_ps); g_name.size = nd_range(1, (size_t) 1 << 40); g_name.ptr = vc_alloc(g_name.size + 1); ASSUME(g_name.ptr[g_name.size] == 0);
	g_p.argc = nd_u32(); g_argv = vc_alloc((size_t) g_p.argc * sizeof(char*)); g_p.argv = g_argv;
	g_i = 1; g_s = g_t = g_res = NULL; g_n = g_e = g_skip = 0; g_eq = g_found = 0;
}
#else
#define NA 6
static char *g_a[NA + 1];
static char *h_word(void) { size_t n = nd_range(0, 7); char *p = malloc(n + 1); for(size_t i = 0; i < n; i++) p[i] = "--=abab-"[nd_u8() & 7]; if(n && nd_u8() & 3) p[0] = '-'; p[n] = 0; return p; }
static void h_opts(void) {
	size_t n = nd_range(0, NA), i; for(i = 0; i < n; i++) g_a[i] = h_word();
	g_argv = malloc(n * sizeof(char*)); memcpy(g_argv, g_a, n * sizeof(char*)); op_init(&g_p, n, g_argv);
	g_name.size = nd_range(1, 3); g_name.ptr = malloc(g_name.size + 1); for(i = 0; i < g_name.size; i++) g_name.ptr[i] = "ab"[nd_u8() & 1]; g_name.ptr[i] = 0;
}
static void h_done(void) { for(size_t i = 0; i < g_p.argc; i++) free(g_a[i]); free(g_argv); free(g_name.ptr); }
#endif
