/* an INI file as a list of lines.  cbmc: any number of lines, handed out one after the other by the contract of
 * stringptrlist_get; each lies somewhere in one pool of arbitrary text. */
#include "sp_common.h"
#include "include/iniparser.h"
#include "oom_end.h"
static size_t g_cnt, g_i, g_ks; static int g_eq; static stringptr g_line, *g_name; static sblist g_list; static char *g_pool;
#ifdef VC_CBMC
static size_t g_ps;
void stub_spec(size_t i);
void *stub_get(sblist *l, size_t i) {
	CHECK(l == &g_list, "reads the file's lines");
	if(i >= g_cnt) return NULL;
	if(g_i != i + 1) {
		CHECK(i == g_i, "reads the lines in order");
		size_t n = nondet_u64(), at = nondet_u64(); ASSUME(at <= g_ps && n <= g_ps - at);
		g_line.ptr = g_pool + at; g_line.size = n; g_eq = nondet_u8() & 1;   /* g_eq: the name stands where it would have to in this line */
		stub_spec(i); g_i = i + 1;
	}
	return &g_line;
}
#endif
#ifdef VC_NATIVE
#include "src/sblist/sblist.c"
size_t iniparser_count_sections(stringptrlist* inifile);
#define NL 12
static void native_ini(void) {
	static char buf[NL][12]; stringptr L[NL]; size_t n = nd_range(0, NL), i, j; sblist *l = sblist_new(sizeof(stringptr), 3);
	for(i = 0; i < n; i++) { size_t k = nd_range(0, 8); char *p = malloc(k); for(j = 0; j < k; j++) p[j] = "[]ab= \t["[nd_u8() & 7]; if(nd_bool() && k >= 3) { p[0] = '['; p[2] = ']'; } if(nd_bool() && k >= 3) p[1] = '='; L[i].ptr = p; L[i].size = k; sblist_add(l, &L[i]); }
	size_t ns = nd_range(0, 2); char *nb = malloc(ns); for(i = 0; i < ns; i++) nb[i] = "ab"[nd_u8() & 1]; stringptr nm = {nb, ns};
#define ISH(x) (L[x].size >= ns + 2 && L[x].ptr[0] == '[' && !memcmp(L[x].ptr + 1, nb, ns) && L[x].ptr[1 + ns] == ']')
	ini_section s = {0, 0}, r, f; size_t st = 0, a, cnt = 0;
	for(int turn = 0; turn < 3; turn++) {
		r = turn ? iniparser_get_next_section(l, &nm, &s) : iniparser_get_section(l, &nm);
		for(a = st; a < n && !ISH(a); a++); s.startline = s.linecount = 0;
		if(a < n) { s.startline = a + 1; for(a++; a < n && !(L[a].size && L[a].ptr[0] == '['); a++); s.linecount = a - s.startline; }
		CHECK(r.startline == s.startline && r.linecount == s.linecount, "the lines between the header and the next");
		if(!s.startline) break; st = s.startline + s.linecount;
		stringptr v = {(char*) 1, 7}; iniparser_getvalue(l, &r, &nm, &v); ssize_t at = iniparser_getvalue_at(l, &r, &nm, &v, r.startline);
		for(a = s.startline; a < st && !(L[a].size > ns && !memcmp(L[a].ptr, nb, ns) && L[a].ptr[ns] == '='); a++);
		if(a == st) CHECK(at == -1 && !v.ptr && !v.size, "no such key"); else CHECK(at == (ssize_t) a && v.ptr == L[a].ptr + ns + 1 && v.size == L[a].size - ns - 1, "the value");
	}
	f = iniparser_file_as_section(l); CHECK(f.startline == 0 && f.linecount == n, "the whole file");
	for(a = 0; a < n; a++) { size_t e = L[a].size; while(e && (L[a].ptr[e - 1] == ' ' || L[a].ptr[e - 1] == '\t')) e--; if(L[a].size >= 3 && L[a].ptr[0] == '[' && e && L[a].ptr[e - 1] == ']') cnt++; }
	CHECK(iniparser_count_sections(l) == cnt, "sections counted");
	for(i = 0; i < n; i++) free(L[i].ptr); free(nb); sblist_free(l);
}
#endif
