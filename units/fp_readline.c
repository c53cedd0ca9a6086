/*@unit
property = "P23"
functions = ["fileparser_readline_userbuf", "fileparser_readline", "fileparser_getline"]
lemma = "the line given is the file's bytes from the position up to the next newline or the end, terminated, however the reads are cut; position and file offset move right behind it; a line that does not fit leaves both where they were; nothing left and failing calls are told apart"
cases = ["-DOP=0", "-DOP=1"]
bcases = [""]
timeout = 150
unwind = 2
fuzzlen = 200
nobounded = true
stubs = ["read, lseek, errno (system): a read gives any number of the bytes left, at least one before the end, or fails"]
assume = ["the file does not change while it is read; descriptors are above 0"]
[[loop]]
fn = "fileparser_readline_userbuf"
nth = 0
inv = ["parser->len <= bufsize && parser->len == G.pos && G.pos <= g_rem && !G.failed && found == 0", "vc_k < parser->len ==> buf[vc_k] == G.ck"]
assigns = ["parser->len, ret, vc_nd_v1, vc_nd_v8, G, __CPROVER_object_whole(buf)"]
[[loop]]
fn = "fileparser_readline_userbuf"
nth = 1
inv = ["i <= parser->len && parser->len == G.pos && G.pos <= g_rem && !G.failed && found == 0 && parser->fpos == g_fp && parser->len <= bufsize", "parser->len < bufsize ==> G.pos == g_rem", "vc_k < parser->len ==> buf[vc_k] == G.ck", "vc_k < i ==> buf[vc_k] != 10"]
assigns = ["i, found, vc_nd_v1, vc_nd_v8, G, __CPROVER_object_whole(buf), parser->fpos, parser->len"]
*/
#include "vc.h"
#include "src/fileparser/fileparser_internal.h"
/* the file from the position on: its length, how far it is read, its byte at one arbitrary place */
static struct { size_t pos; char ck; int failed, err; } G;
static size_t g_rem, g_bs; static uint64_t g_fp; static char *g_c; static int g_calls;
static long s_read(int fd, void *p, size_t n) {
	CHECK(fd == 7, "the parser's file"); if(nd_u8() % 32 == 7) { G.failed = 1; G.err = nd_range(1, 100); return -1; }
	if(n == 0 || G.pos >= g_rem) return 0;
	size_t m = g_rem - G.pos < n ? g_rem - G.pos : n, r;
#ifdef VC_NATIVE
	r = nd_range(1, m); memcpy(p, g_c + G.pos, r);
#else
	r = nd_u64(); ASSUME(r >= 1 && r <= m);
	CHECK(__CPROVER_w_ok(p, n), "room for what is asked"); if(vc_k >= G.pos && vc_k - G.pos < r) G.ck = ((char*) p)[vc_k - G.pos] = nd_u8();   /* elsewhere the memory, arbitrary before, is the file's contents */
#endif
	G.pos += r; return r;
}
static off_t s_lseek(int fd, off_t o, int w) {
	CHECK(fd == 7 && w == SEEK_SET && (uint64_t) o >= g_fp, "seeks in the parser's file, not before the line"); if(nd_u8() % 32 == 7) { G.failed = 1; G.err = nd_range(1, 100); return -1; }
	G.pos = o - g_fp; return o;
}
#undef errno
#define errno G.err
#define read s_read
#define lseek s_lseek
#include "src/fileparser/fileparser_readline_userbuf.c"
#ifdef VC_CBMC
static fileparser *g_p; static int g_ret;
static int s_userbuf(fileparser *p, char *b, size_t n) { CHECK(p == g_p && b == p->buf && n == sizeof p->buf, "into the parser's own buffer"); g_calls++; return g_ret; }
#define fileparser_readline_userbuf s_userbuf
#endif
#include "src/fileparser/fileparser_readline.c"
#undef fileparser_readline_userbuf
#include "src/fileparser/fileparser_getline.c"
static void check(fileparser *p, int r, char *buf, size_t bs) {
	CHECK(p->file == 7, "same file");
	if(G.failed) { CHECK(r == G.err, "the error is told"); return; }
	if(g_rem == 0) { CHECK(r == -2 && G.pos == 0 && p->fpos == g_fp, "nothing left"); return; }
	CHECK(r == 0 || r == -3, "a line, or one that does not fit");
#ifdef VC_NATIVE
	size_t e = 0; while(e < g_rem && g_c[e] != '\n') e++;
	if(e >= bs) { CHECK(r == -3, "too long for the buffer"); }
	else { CHECK(r == 0 && p->len == e && !memcmp(buf, g_c, e), "the line"); }
#endif
	if(r == 0) {
		size_t n = p->len; CHECK(n < bs && n <= g_rem && buf[n] == 0, "inside the buffer and terminated");
#ifndef VC_NATIVE
		if(vc_k < n) CHECK(buf[vc_k] == G.ck && G.ck != '\n', "the bytes before the newline");
		if(vc_k == n && n < g_rem) CHECK(G.ck == '\n', "a newline ends the line");
#endif
		CHECK(p->fpos == g_fp + n + 1, "the position is behind the line");
		CHECK(G.pos == (n < g_rem ? n + 1 : g_rem), "the next read starts behind the line");
	} else {
		CHECK(g_rem >= bs, "only when it may not fit");
#ifndef VC_NATIVE
		if(vc_k < bs) CHECK(G.ck != '\n', "no newline in as much as fits");
#endif
		CHECK(p->fpos == g_fp && G.pos == 0, "the line can be read again");
	}
}
#ifndef OP
#define OP nd_range(0, 1)
#endif
void harness(void) {
	VC_INIT(); int op = OP; fileparser *p = vc_alloc(sizeof *p); p->file = 7; p->len = nd_u64(); p->fpos = g_fp = nd_range(0, (uint64_t) 1 << 40); G.pos = 0; G.failed = G.err = 0; g_calls = 0;
#ifdef VC_NATIVE
	static const unsigned char pick[] = { 0, 3, 20, 60, 200, 250 };
	size_t big = op && nd_bool() ? 1000 : 0; g_rem = big + nd_range(0, 60); g_c = vc_alloc(g_rem); for(size_t i = 0; i < g_rem; i++) { g_c[i] = i < big ? 'x' : nd_range(0, 255); if(nd_u8() % 6 == 0 && i >= big) g_c[i] = '\n'; }
#else
	g_rem = nd_range(0, (uint64_t) 1 << 40);
#endif
	if(op == 0) {
#ifdef VC_NATIVE
		g_bs = nd_range(1, 40);
#else
		g_bs = nd_len1();
#endif
		char *b = vc_alloc(g_bs); int r = fileparser_readline_userbuf(p, b, g_bs); check(p, r, b, g_bs);
	} else {
#ifdef VC_CBMC
		g_p = p; g_ret = nd_int(); int r = fileparser_readline(p); CHECK(r == g_ret && g_calls == 1, "as the buffer reader says");
#else
		int r = fileparser_readline(p); check(p, r, p->buf, sizeof p->buf);
#endif
		stringptr l; size_t n = p->len; CHECK(fileparser_getline(p, &l) == 0 && l.ptr == p->buf && l.size == n, "the line read last");
		CHECK(fileparser_getline(NULL, &l) == -1 && fileparser_getline(p, NULL) == -1, "nothing to give");
	}
	CHECK(fileparser_readline_userbuf(NULL, p->buf, 1) == -1, "no parser");
	REACH("end");
}
