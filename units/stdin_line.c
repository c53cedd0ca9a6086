/*@unit
property = "P31"
functions = ["read_stdin_line", "stringptr_fromchar", "stringptr_shiftleft"]
lemma = "gives the line read, without its newline (and only that) when asked for, still terminated; an empty text without memory at the end of the input"
timeout = 60
unwind = 2
fuzzlen = 100
nobounded = true
stubs = ["fgets, strlen (libc)"]
assume = ["the line has no NUL character; the buffer is at least one and below 2^31 bytes"]
*/
#include "vc.h"
#include <stdio.h>
static char *g_b, *g_x; static size_t g_bs, g_l; static int g_eof, g_nl, g_n;
static char *s_fgets(char *b, int n, FILE *f) {
	CHECK(b == g_b && n > 0 && (size_t) n == g_bs && f == stdin && !g_n, "one line of the standard input into the buffer"); g_n = 1; if(g_eof) return NULL;
#ifdef VC_NATIVE
	memcpy(b, g_x, g_l);
#endif
	b[g_l] = 0; return b;
}
#ifdef VC_CBMC
static size_t s_len(const char *s) { CHECK(s == g_b && g_n && !g_eof, "the line"); return g_l; }
#define strlen s_len
#endif
#define fgets s_fgets
#include "src/stringptr/stringptr_fromchar.c"
#include "src/stringptr/stringptr_shiftleft.c"
#include "src/stringptr/read_stdin_line.c"
#undef strlen
void harness(void) {
	VC_INIT(); g_bs = nd_len1(); ASSUME(g_bs <= INT_MAX); g_b = vc_alloc(g_bs); g_eof = nd_u8() % 8 == 3; g_n = 0; int chomp = nd_bool() ? nd_int() | 1 : 0; char c = 0;
	g_l = nd_range(0, g_bs - 1); if(g_bs > 1 && g_l == 0) g_l = 1;
#ifdef VC_NATIVE
	g_x = vc_alloc(g_l); for(size_t i = 0; i < g_l; i++) { g_x[i] = nd_range(1, 255); if(g_x[i] == '\n') g_x[i] = 'n'; } if(g_l && nd_bool()) g_x[g_l - 1] = '\n'; g_nl = g_l && g_x[g_l - 1] == '\n';
#else
	g_nl = g_l && g_b[g_l - 1] == '\n'; if(vc_k < g_l) c = g_b[vc_k];   /* what the buffer holds is what will be read */
#endif
	stringptr r = read_stdin_line(g_b, g_bs, chomp);
	if(g_eof) CHECK(r.ptr == NULL && r.size == 0, "end of the input");
	else {
		size_t n = g_l - (chomp && g_nl); CHECK(r.ptr == g_b && r.size == n, "the line, its newline taken off when asked for"); CHECK(g_b[n] == 0, "terminated");
#ifdef VC_NATIVE
		CHECK(!memcmp(g_b, g_x, n), "the line's characters");
#else
		if(vc_k < n) CHECK(g_b[vc_k] == c, "the line's characters");
#endif
	}
	REACH("end");
}
