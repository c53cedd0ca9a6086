/*@unit
property = "P23"
functions = ["fileparser_getnextlinelength", "fileparser_open", "fileparser_close"]
lemma = "gives the length of the next line, whatever it is, and leaves the parser where it was; -1 at the end of the file or when a call fails; opening starts at the beginning, closing closes the descriptor once"
cases = ["-DOP=0", "-DOP=1", "-DOP=2"]
bcases = [""]
timeout = 100
unwind = 2
fuzzlen = 100
nobounded = true
stubs = ["fileparser_readline (proved in unit fp_readline)", "open, close, lseek, errno (system)"]
assume = ["the standard streams are open, so descriptors are above 0"]
[[loop]]
fn = "fileparser_getnextlinelength"
nth = 0
inv = ["res <= g_len && G.pos == res && parser->fpos == g_fp + res && !G.failed && parser->file == 7"]
assigns = ["res, ret, vc_nd_v1, vc_nd_v8, G, parser->fpos, parser->len"]
decreases = "g_len - res"
*/
#include "vc.h"
#include "src/fileparser/fileparser_internal.h"
static struct { size_t pos; int failed, err; } G;
static size_t g_len; static uint64_t g_fp; static int g_nl, g_open, g_ofl, g_ret; static char g_nm[2];
static int fails(void) { if(nd_u8() % 32 == 7) { G.failed = 1; G.err = nd_range(1, 100); return 1; } return 0; }
static off_t s_lseek(int fd, off_t o, int w) {
	CHECK(fd == 7 && w == SEEK_SET && (uint64_t) o >= g_fp, "seeks in the parser's file, not before the line"); if(fails()) return -1;
	G.pos = o - g_fp; return o;
}
static int s_readline(fileparser *p) {
	CHECK(p->file == 7 && p->fpos == g_fp + G.pos && G.pos <= g_len, "reads on inside the line"); if(fails()) return G.err;
	if(G.pos == g_len && !g_nl) return -2;
	if(g_len - G.pos >= sizeof p->buf) return -3;
	p->len = g_len - G.pos; p->fpos += p->len + 1; G.pos = g_len + g_nl; return 0;
}
static int s_open(const char *n, int fl, ...) { CHECK(n == g_nm && !(fl & ~O_CLOEXEC), "opens the named file for reading"); if(fails()) return -1; g_open++; return 7; }
static int s_close(int fd) { CHECK(fd == 7 && g_open == 1, "closes the open descriptor"); g_open--; return 0; }
#undef errno
#define errno G.err
#define lseek s_lseek
#define fileparser_readline s_readline
#define open s_open
#define close s_close
#include "src/fileparser/fileparser_getnextlinelength.c"
#undef _POSIX_C_SOURCE
#define _POSIX_C_SOURCE 200809L
#include "src/fileparser/fileparser_open.c"
#include "src/fileparser/fileparser_close.c"
#ifndef OP
#define OP nd_range(0, 2)
#endif
void harness(void) {
	VC_INIT(); int op = OP; fileparser *p = vc_alloc(sizeof *p); G.pos = 0; G.failed = G.err = g_open = 0;
	if(op == 0) {
		p->file = 7; p->len = nd_u64(); p->fpos = g_fp = nd_range(0, (uint64_t) 1 << 40); g_nl = nd_bool();
#ifdef VC_NATIVE
		g_len = nd_bool() ? nd_range(0, 5000) : 1024 * nd_range(0, 4);
#else
		g_len = nd_range(0, (uint64_t) 1 << 40);
#endif
		long r = fileparser_getnextlinelength(p);
		if(G.failed) CHECK(r == -1, "the failure is told");
		else { CHECK(r == (g_len || g_nl ? (long) g_len : -1), "the length of the line"); CHECK(p->fpos == g_fp && G.pos == 0, "the parser stays where it was"); }
	} else if(op == 1) {
		CHECK(fileparser_open(NULL, g_nm) == -1 && fileparser_open(p, NULL) == -1, "nothing to open");
		int r = fileparser_open(p, g_nm);
		if(G.failed) CHECK(r == G.err && !g_open, "the error is told"); else CHECK(r == 0 && p->file == 7 && p->fpos == 0 && g_open == 1, "open at the beginning");
	} else {
		p->file = 7; g_open = 1; CHECK(fileparser_close(NULL) == -1, "nothing to close");
		CHECK(fileparser_close(p) == 0 && !g_open, "closed"); CHECK(fileparser_close(p) == 0 && !g_open, "once only");
	}
	REACH("end");
}
