/*@unit
property = "P20"
functions = ["iniparser_count_sections"]
lemma = "counts exactly the lines of at least three characters that start with an opening bracket and whose last character that is not a blank is a closing bracket"
timeout = 100
unwind = 2
fuzzlen = 300
nobounded = true
redirect = ["sblist_get:stub_get", "iswhitespace:stub_isws"]
stubs = ["sblist_get (proved in unit sblist_ops)"]
[[loop]]
fn = "getlastnonwhitespace"
nth = 0
inv = ["res <= g_line.size && res >= g_e && s == &g_line"]
assigns = ["res"]
decreases = "res"
[[loop]]
fn = "iniparser_count_sections"
nth = 0
inv = ["i <= g_cnt && g_i == i && result == g_n && g_n <= i"]
assigns = ["i, n, line, result, g_i, g_line, g_eq, g_n, g_e"]
decreases = "g_cnt - i"
*/
#include "ini_common.h"
static size_t g_n, g_e;
#ifdef VC_CBMC
int stub_isws(char *p); static inline int iswhitespace(char *p);
#endif
#include "src/iniparser/iniparser_count_sections.c"
#ifdef VC_NATIVE
#include "src/iniparser/iniparser.c"
#endif
#ifdef VC_CBMC
/* g_e: length without the blanks at the end: the character before is none, all from there on are (instantiated at the one looked at) */
int stub_isws(char *p) { size_t k = p - g_line.ptr; CHECK(__CPROVER_same_object(p, g_line.ptr) && p >= g_line.ptr && k < g_line.size, "inside the line"); if(k >= g_e) ASSUME(*p == ' ' || *p == '\t'); return iswhitespace(p); }
void stub_spec(size_t i) {
	size_t n = g_line.size; g_e = nondet_u64(); ASSUME(g_e <= n && (g_e == 0 || (g_line.ptr[g_e - 1] != ' ' && g_line.ptr[g_e - 1] != '\t')));
	if(n >= 3 && g_line.ptr[0] == '[' && g_e && g_line.ptr[g_e - 1] == ']') g_n++;
}
#endif
void harness(void) {
	VC_INIT();
#ifdef VC_CBMC
	g_dj = g_wo = 0; oom_failed = oom_live = oom_calls = 0;
	g_ps = nd_range(0, (size_t) 1 << 40); g_pool = vc_alloc(g_ps); g_cnt = nd_u64(); ASSUME(g_cnt < (size_t) 1 << 60); g_list.count = g_cnt; g_list.items = 0; g_list.capa = g_cnt; g_list.itemsize = sizeof(stringptr);
	g_name = NULL; g_line.ptr = NULL; g_line.size = 0; g_eq = 0; g_n = g_i = g_e = 0;
	size_t r = iniparser_count_sections(&g_list);
	CHECK(g_i == g_cnt && r == g_n, "the headers");
#else
	native_ini();
#endif
	REACH("end");
}
