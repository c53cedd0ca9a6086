/*@unit
property = "P31"
functions = ["stringptr_fromfile", "stringptr_tofile", "getfilesize"]
lemma = "a text read from a file is the file's contents, terminated, or nothing when it is empty or a call failed or memory is out; a text is written whole and in order, or the number of bytes written tells how far; the descriptor is closed in every case, no memory is kept on failure"
cases = ["-DOP=0", "-DOP=1"]
bcases = [""]
timeout = 150
unwind = 2
fuzzlen = 200
nobounded = true

stubs = ["stringptr_new (proved in unit sp_basic)", "stat, open, read, write, close (system): any part of what is asked is transferred, or the call fails; the file may have become shorter or longer since its size was asked", "malloc, free (libc)"]
[[loop]]
fn = "stringptr_fromfile"
nth = 0
inv = ["bufpos <= size && bufpos == G.pos && bufpos <= g_len && !G.failed && g_sp.ptr[size] == 0 && buf == &g_sp", "vc_k < bufpos ==> g_sp.ptr[vc_k] == G.ck", "oom_live == 1"]
assigns = ["bufpos, bytesleft, bread, buf, vc_nd_v1, vc_nd_v8, G, oom_live, __CPROVER_object_whole(g_sp.ptr)"]
decreases = "size - bufpos"
ghost = "buf = vc_same(buf);"
after = "buf = vc_same(buf);"
[[loop]]
fn = "stringptr_tofile"
nth = 0
inv = ["bufpos <= buffer->size && bufpos == G.pos && !G.failed", "vc_k < bufpos ==> G.ck == buffer->ptr[vc_k]"]
assigns = ["bufpos, ret, togo, vc_nd_v1, vc_nd_v8, G"]
decreases = "buffer->size - bufpos"
*/
#define NO_SPLIT
#include "vc.h"
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include "oom.h"
#include "include/stringptr.h"
#include "include/filelib.h"
/* the file: its length, how far it is moved, its byte at one arbitrary place */
static struct { size_t pos; char ck; int failed; } G;
static size_t g_len, g_size; static char *g_c, g_nm[2]; static int g_open, g_w;
static int fails(void) { if(nd_u8() % 32 == 7) { G.failed = 1; return 1; } return 0; }
static int s_stat(const char *n, struct stat *st) { CHECK(n == g_nm && !g_open, "the named file"); if(fails()) return -1; st->st_size = g_size; return 0; }
static int s_open(const char *n, int fl, ...) {
	CHECK(n == g_nm && !g_open, "opens the named file once"); fl &= ~O_CLOEXEC;
	CHECK(g_w ? fl == (O_WRONLY | O_CREAT | O_TRUNC) : fl == O_RDONLY, "for this purpose");
	if(fails()) return -1; g_open = 1; return 7;
}
static int s_close(int fd) { CHECK(fd == 7 && g_open == 1, "closes the open descriptor"); g_open = 2; return 0; }
static long s_read(int fd, void *p, size_t n) {
	CHECK(fd == 7 && g_open == 1, "from the open file"); if(fails()) return -1;
	if(n == 0) return 0;
	if(G.pos >= g_len) { G.failed = 1; return 0; }
	size_t m = g_len - G.pos < n ? g_len - G.pos : n, r;
#ifdef VC_NATIVE
	r = nd_range(1, m); memcpy(p, g_c + G.pos, r);
#else
	r = nd_u64(); ASSUME(r >= 1 && r <= m);
	CHECK(__CPROVER_w_ok(p, n), "room for what is asked"); if(vc_k >= G.pos && vc_k - G.pos < r) G.ck = ((char*) p)[vc_k - G.pos] = nd_u8();   /* elsewhere the memory, arbitrary before, is the file's contents */
#endif
	G.pos += r; return r;
}
static long s_write(int fd, const void *p, size_t n) {
	CHECK(fd == 7 && g_open == 1, "to the open file"); CHECK(n > 0, "writes something"); if(fails()) return -1;
	size_t r;
#ifdef VC_NATIVE
	r = nd_range(1, n); memcpy(g_c + G.pos, p, r);
#else
	r = nd_u64(); ASSUME(r >= 1 && r <= n);
	CHECK(__CPROVER_r_ok(p, n), "bytes of the text"); if(vc_k >= G.pos && vc_k - G.pos < r) G.ck = ((const char*) p)[vc_k - G.pos];
#endif
	G.pos += r; return r;
}
#define malloc stub_malloc
#define free stub_free
#define stat(a, b) s_stat(a, b)
#define open s_open
#define close s_close
#define read s_read
#define write s_write
#ifdef VC_CBMC
static stringptr g_sp;
/* the text's bytes as an object of their own */
static stringptr *s_new(size_t n) { if(oom_fails()) { oom_failed = 1; return NULL; } CHECK(!oom_live, "one text"); oom_live = 1; g_sp.size = n; g_sp.ptr = __CPROVER_allocate(n + 1, 0); g_sp.ptr[n] = 0; return &g_sp; }
static void s_free(void *p) { if(p) { CHECK(p == (void*) &g_sp && oom_live == 1, "the text, once"); oom_live = 0; } }
/* the same pointer, named */
static stringptr *vc_same(stringptr *b) { CHECK(b == &g_sp, "the text"); return &g_sp; }
#define stringptr_new s_new
#undef free
#define free s_free
#else
#include "src/stringptr/stringptr_new.c"
#endif
#include "src/filelib/getfilesize.c"
#undef _POSIX_C_SOURCE
#define _POSIX_C_SOURCE 200809L
#include "src/stringptr/stringptr_fromfile.c"
#include "src/stringptr/stringptr_tofile.c"
#undef malloc
#undef free
#undef stat
#ifndef OP
#define OP nd_range(0, 1)
#endif
void harness(void) {
	VC_INIT(); OOM_INIT(); int op = OP; G.pos = 0; G.failed = g_open = 0; g_w = op;
#ifdef VC_NATIVE
	size_t big = nd_u8() % 64 == 5 ? 65500 : 0;
	g_size = big + nd_range(0, 60); g_len = nd_u8() % 8 ? g_size : big + nd_range(0, 60);
#else
	g_size = nd_len(); g_len = nd_len();
#endif
	if(op == 0) {
#ifdef VC_NATIVE
		g_c = vc_alloc(g_len); for(size_t i = 0; i < g_len; i++) g_c[i] = i < big ? i : nd_char();
#endif
		stringptr *r = stringptr_fromfile(g_nm);
		CHECK(g_open != 1, "closed");
		if(g_size == 0 || G.failed || oom_failed || g_len < g_size) CHECK(r == NULL && oom_live == 0, "nothing is given, nothing is kept");
		else {
#ifdef VC_CBMC
			r = vc_same(r);
#endif
			CHECK(r != NULL && r->size == g_size && r->ptr[g_size] == 0 && oom_live == 1, "as long as the file, terminated");
#ifdef VC_NATIVE
			CHECK(!memcmp(r->ptr, g_c, g_size), "the contents");
#else
			if(vc_k < g_size) CHECK(r->ptr[vc_k] == G.ck, "the contents");
#endif
		}
#ifdef VC_NATIVE
		free(r);
#endif
	} else {
		stringptr s; s.size = g_size; s.ptr = vc_mem(g_size);
#ifdef VC_NATIVE
		g_c = vc_alloc(g_size);
#endif
		size_t r = stringptr_tofile(g_nm, &s);
		CHECK(g_open != 1, "closed"); CHECK(r == G.pos, "what was written"); if(!G.failed) CHECK(r == g_size && g_open == 2, "all of it");
#ifdef VC_NATIVE
		CHECK(!memcmp(s.ptr, g_c, r), "the text's bytes in order");
#else
		if(vc_k < r) CHECK(G.ck == s.ptr[vc_k], "the text's bytes in order");
#endif
		CHECK(stringptr_tofile(NULL, &s) == 0 && stringptr_tofile(g_nm, NULL) == 0, "nothing to write");
	}
	REACH("end");
}
