/*@unit
property = "P20"
functions = ["iniparser_getvalue_at", "iniparser_getvalue"]
lemma = "the value is the text behind the equals sign of the first line of the section, from the start line on, that is the key followed by an equals sign; none gives an empty value and -1"
cases = ["-DOP=0", "-DOP=1"]
bcases = [""]
timeout = 100
unwind = 2
fuzzlen = 300
nobounded = true
redirect = ["sblist_get:stub_get", "memcmp:stub_mcmp"]
stubs = ["sblist_get (proved in unit sblist_ops)", "memcmp (libc)"]
[[loop]]
fn = "iniparser_getvalue_at"
nth = 0
inv = ["i >= g_st && (i <= g_max || i == g_st) && g_i == (i <= g_cnt ? i : (g_st <= g_cnt ? g_cnt : g_st))", "!g_found"]
assigns = ["i, line, g_i, g_line, g_eq, g_found, g_at"]
decreases = "g_max - i"
*/
#include "ini_common.h"
static size_t g_at, g_max, g_st; static int g_found; static char *g_vp; static size_t g_vn;
#ifdef VC_CBMC
int stub_mcmp(const void *a, const void *b, size_t n);
#endif
#include "src/iniparser/iniparser.c"
#ifdef VC_NATIVE
#include "src/iniparser/iniparser_count_sections.c"
#endif
#ifdef VC_CBMC
int stub_mcmp(const void *a, const void *b, size_t n) {
	CHECK(n == 0 || (__CPROVER_r_ok(a, n) && __CPROVER_r_ok(b, n)), "compared ranges inside both texts");
	CHECK((a == g_line.ptr && b == g_name->ptr || b == g_line.ptr && a == g_name->ptr) && n == g_name->size, "compares the key at the start of the line");
	return g_eq ? 0 : 1;
}
void stub_spec(size_t i) {
	size_t k = g_name->size;
	if(!g_found && i < g_max && g_line.size > k && g_line.ptr[k] == '=' && g_eq) { g_found = 1; g_at = i; }
}
#endif
#ifndef OP
#define OP 0
#endif
void harness(void) {
	VC_INIT();
#ifdef VC_CBMC
	g_dj = g_wo = 0; oom_failed = oom_live = oom_calls = 0;
	g_ps = nd_range(0, (size_t) 1 << 40); g_pool = vc_alloc(g_ps); g_cnt = nd_u64(); ASSUME(g_cnt < (size_t) 1 << 60); g_list.count = g_cnt; g_list.items = 0; g_list.capa = g_cnt; g_list.itemsize = sizeof(stringptr);
	g_name = h_sp(0); g_line.ptr = NULL; g_line.size = 0; g_eq = 0; g_found = 0; g_at = 0;
	ini_section s; s.startline = nd_u64(); s.linecount = nd_u64(); ASSUME(s.startline < (size_t) 1 << 60 && s.linecount < (size_t) 1 << 60); g_max = s.startline + s.linecount;
	stringptr *v = vc_alloc(sizeof *v); ssize_t r;
	if(OP == 0) { g_st = nd_u64(); ASSUME(g_st < (size_t) 1 << 60); g_i = g_st; r = iniparser_getvalue_at(&g_list, &s, g_name, v, g_st); if(g_found) CHECK(r == (ssize_t) g_at, "its line"); else CHECK(r == -1, "none"); }
	else { g_st = g_i = s.startline; iniparser_getvalue(&g_list, &s, g_name, v); }
	if(g_found) CHECK(g_i == g_at + 1 && v->ptr == g_line.ptr + g_name->size + 1 && v->size == g_line.size - g_name->size - 1, "the text behind the equals sign");
	else { CHECK(g_i >= g_max || g_i >= g_cnt || g_st >= g_cnt, "looked through the section"); CHECK(!v->ptr && !v->size, "an empty value"); }
#else
	native_ini();
#endif
	REACH("end");
}
