/*@unit
property = "P20"
functions = ["iniparser_get_section_at", "iniparser_get_section", "iniparser_get_next_section", "iniparser_file_as_section"]
lemma = "the section starts behind the first line from the start line on that is its header and reaches to the line before the next header, or to the end; no header gives an empty section at 0"
cases = ["-DOP=0", "-DOP=1"]
bcases = [""]
timeout = 100
unwind = 2
fuzzlen = 300
nobounded = true
redirect = ["sblist_get:stub_get", "memcmp:stub_mcmp"]
stubs = ["sblist_get (proved in unit sblist_ops)", "memcmp (libc)"]
[[loop]]
fn = "iniparser_get_section_at"
nth = 0
inv = ["g_i == i && g_i >= g_st && (i <= g_cnt || i == g_st)", "result.startline == g_first && result.linecount == 0 && g_end == 0 && !g_ended", "g_first == 0 || (g_first > g_st && g_first <= i)"]
assigns = ["i, line, result.startline, result.linecount, g_i, g_line, g_eq, g_first, g_end, g_ended"]
decreases = "g_cnt - i"
*/
#include "ini_common.h"
static size_t g_first, g_end, g_st; static int g_ended;
#ifdef VC_CBMC
int stub_mcmp(const void *a, const void *b, size_t n);
#endif
#include "src/iniparser/iniparser.c"
#ifdef VC_NATIVE
#include "src/iniparser/iniparser_count_sections.c"
#endif
#ifdef VC_CBMC
int stub_mcmp(const void *a, const void *b, size_t n) {
	CHECK(n == 0 || (__CPROVER_r_ok(a, n) && __CPROVER_r_ok(b, n)), "compared ranges inside both texts");
	CHECK((a == g_line.ptr + 1 && b == g_name->ptr || b == g_line.ptr + 1 && a == g_name->ptr) && n == g_name->size, "compares the name behind the bracket");
	return g_eq ? 0 : 1;
}
/* a header of the section: '[', the name, ']'; any header: a line starting with '[' */
void stub_spec(size_t i) {
	size_t k = g_name->size;
	int head = g_line.size >= 2 && g_line.size - 2 >= k && g_line.ptr[0] == '[' && g_line.ptr[1 + k] == ']' && g_eq, any = g_line.size && g_line.ptr[0] == '[';
	if(!g_first) { if(head) g_first = i + 1; }
	else if(!g_ended && any) { g_ended = 1; g_end = i; }
}
#endif
#ifndef OP
#define OP 0
#endif
void harness(void) {
	VC_INIT();
#ifdef VC_CBMC
	g_dj = g_wo = 0; oom_failed = oom_live = oom_calls = 0;
	g_ps = nd_range(0, (size_t) 1 << 40); g_pool = vc_alloc(g_ps); g_cnt = nd_u64(); ASSUME(g_cnt < (size_t) 1 << 60); g_list.count = g_cnt; g_list.items = 0; g_list.capa = g_cnt; g_list.itemsize = sizeof(stringptr);
	g_name = h_sp(0); g_line.ptr = NULL; g_line.size = 0; g_eq = 0; g_first = g_end = 0; g_ended = 0;
	ini_section r, p;
	if(OP == 1) { p.startline = nd_u64(); p.linecount = nd_u64(); ASSUME(p.startline <= g_cnt && p.linecount <= g_cnt - p.startline); g_st = g_i = p.startline + p.linecount; r = iniparser_get_next_section(&g_list, g_name, &p); }
	else { g_st = g_i = 0; r = iniparser_get_section(&g_list, g_name); p = iniparser_file_as_section(&g_list); CHECK(p.startline == 0 && p.linecount == g_cnt, "the whole file"); }
	CHECK(g_ended || g_i >= g_cnt, "looked to the end");
	CHECK(r.startline == g_first, "starts behind the first header");
	CHECK(r.linecount == (!g_first ? 0 : (g_ended ? g_end : g_cnt) - g_first), "reaches to the next header or the end");
#else
	native_ini();
#endif
	REACH("end");
}
