/*@unit
property = "P31"
functions = ["stringptrlist_tofile", "stringptrlist_fromfile"]
lemma = "writes every entry in order, each followed by one newline, and succeeds exactly when all was written; reads and appends every line up to an empty one or the end, and succeeds exactly when no line was too long, no call failed and no memory was missing; the file is closed in every case"
cases = ["-DOP=0", "-DOP=1"]
bcases = [""]
timeout = 100
unwind = 2
fuzzlen = 200
nobounded = true
redirect = ["sblist_get:stub_get"]
stubs = ["sblist_get (proved in unit sblist_ops)", "stringptrlist_add_strdup (proved in unit sl_lists)", "fileparser_open, _readline, _getline, _close (proved in units fp_readline, fp_nextlen)", "open, write, close (system)"]
[[loop]]
fn = "stringptrlist_tofile"
nth = 0
inv = ["sblist_iterator0 <= g_cnt && G.n == sblist_iterator0 && !G.failed && G.pos == G.epos && G.got == G.exp && G.pos <= G.n * 4294967296ul"]
assigns = ["sblist_iterator0, s, vc_nd_v1, vc_nd_v2, vc_nd_v8, G, g_e"]
decreases = "g_cnt - sblist_iterator0"
[[loop]]
fn = "stringptrlist_fromfile"
nth = 0
inv = ["!G.pending && !G.failed && !G.end"]
assigns = ["line, ret, f, vc_nd_v1, vc_nd_v2, vc_nd_v8, G"]
*/
#include "vc.h"
#include "include/stringptrlist.h"
#include "include/fileparser.h"
#include <fcntl.h>
static struct { size_t n, pos, epos, len; int failed, got, exp, pending, end; } G;
static size_t g_cnt; static stringptr g_e; static sblist g_list; static char *g_pool, g_nm[2]; static int g_open, g_mode; static fileparser *g_p; static size_t g_ps;
#ifdef VC_NATIVE
static char g_ob[4000], g_eb[4000];
#endif
static int fails(void) { if(nd_u8() % 32 == 7) { G.failed = 1; return 1; } return 0; }
void *stub_get(sblist *l, size_t i) {
	CHECK(l == &g_list && i <= g_cnt && i == G.n, "the next entry"); if(i == g_cnt) return NULL; G.n++;
#ifdef VC_NATIVE
	size_t at = nd_range(0, 20); g_e.size = nd_range(0, 20); g_e.ptr = g_pool + at; memcpy(g_eb + G.epos, g_e.ptr, g_e.size); g_eb[G.epos + g_e.size] = '\n';
#else
	size_t at = nd_u64(); g_e.size = nd_range(0, 4294967295 - 1); ASSUME(at <= g_ps && g_e.size <= g_ps - at); g_e.ptr = g_pool + at;
	if(vc_k >= G.epos && vc_k - G.epos <= g_e.size) G.exp = vc_k - G.epos == g_e.size ? '\n' : g_e.ptr[vc_k - G.epos];
#endif
	G.epos += g_e.size + 1; return &g_e;
}
static int s_open(const char *n, int fl, int mode) { CHECK(n == g_nm && !g_open && (fl & ~O_CLOEXEC) == (O_WRONLY | O_CREAT | O_TRUNC) && mode == g_mode, "makes the named file"); if(fails()) return -1; g_open = 1; return 7; }
static int s_close(int fd) { CHECK(fd == 7 && g_open == 1, "closes the open descriptor"); g_open = 2; return 0; }
static long s_write(int fd, const void *p, size_t n) {
	CHECK(fd == 7 && g_open == 1 && !G.failed, "to the open file, as long as all is well"); if(fails()) return -1;
	size_t r = n; if(n && nd_u8() % 32 == 9) { r = nd_range(0, n - 1); G.failed = 1; }
#ifdef VC_NATIVE
	memcpy(g_ob + G.pos, p, r);
#else
	CHECK(__CPROVER_r_ok(p, n), "bytes of the list"); if(vc_k >= G.pos && vc_k - G.pos < r) G.got = ((const char*) p)[vc_k - G.pos];
#endif
	G.pos += r; return r;
}
static int p_open(fileparser *p, const char *n) { CHECK(n == g_nm && !g_open, "opens the named file"); if(fails()) return 2; g_p = p; g_open = 1; return 0; }
static int p_close(fileparser *p) { CHECK(p == g_p && g_open == 1, "closes the open file"); g_open = 2; return 0; }
static int p_readline(fileparser *p) {
	CHECK(p == g_p && g_open == 1 && !G.pending && !G.end, "the next line, after the last was taken"); G.n++;
	int c = nd_u8() % 16;
	if(c == 3) { G.end = 1; return -2; }
	if(c == 5) { G.end = G.failed = 1; return nd_bool() ? -3 : (int) nd_range(1, 100); }
	G.len = nd_range(0, 1023); if(c == 6) G.len = 0; p->len = G.len; p->buf[G.len] = 0; if(G.len) G.pending = 1; else G.end = 1; return 0;
}
static int p_getline(fileparser *p, stringptr *l) { CHECK(p == g_p && l, "the line read"); l->ptr = p->buf; l->size = p->len; return 0; }
static int s_add(stringptrlist *l, stringptr *s) {
	CHECK(l == &g_list && G.pending && s->ptr == g_p->buf && s->size == G.len, "appends the line read, once"); G.pending = 0;
	if(fails()) { G.end = 1; return 0; } return 1;
}
#define open s_open
#define close s_close
#define write s_write
#ifdef VC_NATIVE
#define sblist_get stub_get
#endif
#include "src/stringptrlist/stringptrlist_tofile.c"
#define fileparser_open p_open
#define fileparser_close p_close
#define fileparser_readline p_readline
#define fileparser_getline p_getline
#define stringptrlist_add_strdup s_add
#include "src/stringptrlist/stringptrlist_fromfile.c"
#ifndef OP
#define OP nd_range(0, 1)
#endif
void harness(void) {
	VC_INIT(); int op = OP; G.n = G.pos = G.epos = 0; G.failed = G.pending = G.end = 0; G.got = G.exp = -1; g_open = 0; g_mode = nd_int(); int r;
	if(op == 0) {
#ifdef VC_NATIVE
		g_cnt = nd_range(0, 20); g_pool = vc_mem(40);
#else
		g_cnt = nd_len(); g_ps = nd_range(1, (size_t) 1 << 40); g_pool = vc_alloc(g_ps);
#endif
		g_list.count = g_cnt; g_list.itemsize = sizeof(stringptr);
		r = stringptrlist_tofile(&g_list, g_nm, g_mode);
		CHECK(!r == !!G.failed, "success exactly when all was written"); if(r) CHECK(G.n == g_cnt && G.pos == G.epos, "every entry");
#ifdef VC_NATIVE
		CHECK(!memcmp(g_ob, g_eb, G.pos), "the entries, a newline behind each");
#else
		if(r) CHECK(G.got == G.exp, "the entries, a newline behind each");
#endif
	} else {
		r = stringptrlist_fromfile(&g_list, g_nm);
		CHECK(!r == !!G.failed, "success exactly when nothing failed"); CHECK(!G.pending, "every line read was appended"); if(r) CHECK(G.end, "read to the end");
	}
	CHECK(g_open != 1, "closed");
	REACH("end");
}
