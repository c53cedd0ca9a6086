/*@unit
property = "P29"
functions = ["log_putln", "log_puts", "log_putc", "log_putd", "log_puterror", "log_timestamp", "log_put"]
lemma = "exactly the bytes of the argument are written, in order and once, to the descriptor named; several arguments follow one another and end in one newline; the error text is that of the error at the call"
cases = ["-DOP=0", "-DOP=1", "-DOP=2", "-DOP=3", "-DOP=4", "-DOP=5", "-DOP=6"]
bcases = [""]
timeout = 150
unwind = 2
fuzzlen = 200
nobounded = true
redirect = ["numberToString:stub_nts", "timestamp:stub_timestamp", "strlen:stub_len"]
stubs = ["write (system): takes every write whole", "numberToString (proved in unit numberToString)", "timestamp (proved in unit timestamp)", "strlen, strerror (libc)"]
assume = ["log_put's arguments are described by a sequence of any length ending in NULL (va_arg gives its next element)"]
[[loop]]
fn = "log_put"
nth = 0
inv = ["g_pos == g_epos && g_got == g_exp && !g_end"]
assigns = ["v, sign, number, cnv, g_pos, g_epos, g_got, g_exp, g_end, g_v, g_spv, g_spp, g_cp, g_iv, g_uv, g_lv, g_ulv, g_num, g_sign, g_nl, g_nc, g_nst, g_tp, g_tn, g_err, vc_nd_v1, vc_nd_v8"]
*/
#include "vc.h"
#include <unistd.h>
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include "include/vario.h"
#include "include/logger.h"
#include "include/strlib.h"
#include "include/timelib.h"
/* output: its length so far and its byte at one arbitrary position; the expected output likewise */
static size_t g_pos, g_epos, g_mn; static int g_got, g_exp, g_fd, g_err, g_err0; static char *g_msg;
#ifdef VC_NATIVE
static char g_ob[4000], g_eb[4000];
#endif
static long stub_write(int fd, const void *p, size_t n) {
	CHECK(fd == g_fd, "to the descriptor named");
	g_err = nd_bool() ? 0 : EAGAIN;
#ifdef VC_NATIVE
	memcpy(g_ob + g_pos, p, n);
#else
	CHECK(n == 0 || __CPROVER_r_ok(p, n), "written bytes inside the text");
	if(vc_k >= g_pos && vc_k - g_pos < n) g_got = ((const unsigned char*) p)[vc_k - g_pos];
#endif
	g_pos += n; return n;
}
static void want(const char *p, size_t n) {
#ifdef VC_NATIVE
	memcpy(g_eb + g_epos, p, n);
#else
	if(vc_k >= g_epos && vc_k - g_epos < n) g_exp = ((const unsigned char*) p)[vc_k - g_epos];
#endif
	g_epos += n;
}
static char *stub_strerror(int n) { CHECK(n == g_err0, "the error at the call"); return g_msg; }
/* one argument of log_put at a time, in any kind; the number's numeral: its length and its byte at the observed position */
static vario g_v; static stringptr g_spv, *g_spp; static char *g_cp, *g_tp, *g_pool; static int g_iv; static unsigned g_uv; static long g_lv; static unsigned long g_ulv;
static uint64_t g_num; static int g_sign, g_nc, g_end; static size_t g_nl, g_nst, g_tn, g_ps;
static void want_num(uint64_t n, int sign) {
#ifdef VC_NATIVE
	char b[40]; snprintf(b, 40, sign ? "%lld" : "%llu", (long long) n); want(b, strlen(b));
#else
	g_num = n; g_sign = sign; g_nl = nondet_u64(); ASSUME(g_nl >= 1 && g_nl <= 20); g_nc = nondet_u8(); g_nst = g_epos;
	if(vc_k >= g_epos && vc_k - g_epos < g_nl) g_exp = g_nc;
	g_epos += g_nl;
#endif
}
/* a text in memory of any contents: g_tp, length g_tn */
static char *h_text(void) {
#ifdef VC_NATIVE
	g_tn = nd_range(0, 20); g_tp = vc_alloc(g_tn + 1); for(size_t i = 0; i < g_tn; i++) g_tp[i] = nd_range(1, 255); g_tp[g_tn] = 0;
#else
	size_t at = nondet_u64(); g_tn = nondet_u64(); ASSUME(at < g_ps && g_tn < g_ps - at && g_pool[at + g_tn] == 0); g_tp = g_pool + at;
#endif
	return g_tp;
}
static vario *next_arg(void) {
	if(nd_u8() % 5 == 4) { g_end = 1; return NULL; }
	g_v.type = nd_range(0, 8);
	switch((int) g_v.type) {
	case VT_STRINGPTR: g_spp = &g_spv;
#ifdef VC_NATIVE
		g_spv.ptr = h_text(); g_spv.size = g_tn;
#else
		{ size_t at = nondet_u64(); g_spv.size = nondet_u64(); ASSUME(at <= g_ps && g_spv.size <= g_ps - at); g_spv.ptr = g_pool + at; }
#endif
		if(nd_bool()) g_spp = NULL; else want(g_spv.ptr, g_spv.size);
		g_v.ptr = &g_spp; break;
	case VT_CHAR_STAR: case VT_CONST_CHAR_STAR: g_cp = NULL; if(nd_bool()) { g_cp = h_text(); want(g_cp, g_tn); } g_v.ptr = &g_cp; break;
	case VT_INT: g_iv = nd_int(); g_v.ptr = &g_iv; want_num((int64_t) g_iv, 1); break;
	case VT_UNSIGNED: g_uv = nd_int(); g_v.ptr = &g_uv; want_num(g_uv, 0); break;
	case VT_LONG: g_lv = nd_u64(); g_v.ptr = &g_lv; want_num(g_lv, 1); break;
	case VT_ULONG: g_ulv = nd_u64(); g_v.ptr = &g_ulv; want_num(g_ulv, 0); break;
	default: g_v.ptr = NULL;
	}
	return &g_v;
}
static size_t g_tsn; static int g_tsc;
#ifdef VC_CBMC
size_t stub_len(const char *s) { CHECK(s == g_tp || s == g_msg, "a text"); return s == g_tp ? g_tn : g_mn; }
char *stub_nts(uint64_t n, unsigned base, char *buf, size_t maxlen, int flags) {
	CHECK(base == 10 && maxlen == 0 && !(flags & NTS_PAD), "the plain decimal numeral"); CHECK(n == g_num, "of the number given"); CHECK((flags & NTS_SIGNED_TYPE) != 0 == g_sign || n >> 63 == 0, "with its sign");
	CHECK(__CPROVER_w_ok(buf, 21), "room for every numeral"); __CPROVER_havoc_slice(buf, 21);
	ASSUME(buf[g_nl] == 0); if(vc_k >= g_nst && vc_k - g_nst < g_nl) ASSUME((unsigned char) buf[vc_k - g_nst] == g_nc);
	g_tp = buf; g_tn = g_nl; return buf;
}
size_t stub_timestamp(char *buf, size_t n) {
	if(n == 0) return 0;
	CHECK(__CPROVER_w_ok(buf, n), "the stated room"); __CPROVER_havoc_slice(buf, n); size_t l = g_tsn < n ? g_tsn : n - 1; ASSUME(buf[l] == 0); if(vc_k < l) ASSUME((unsigned char) buf[vc_k] == g_tsc); return l;
}
#undef va_arg
#define va_arg(ap, T) ((T) next_arg())
#else
static size_t stub_ts(char *buf, size_t n) { CHECK(n > 25, "room for the time"); memset(buf, 'y', 19); buf[19] = 0; return 19; }
#define timestamp stub_ts
#endif
#undef errno
#define errno g_err
#define write stub_write
#define strerror stub_strerror
#include "src/logger/log_putln.c"
#include "src/logger/log_puts.c"
#include "src/logger/log_putc.c"
#include "src/logger/log_putd.c"
#include "src/logger/log_puterror.c"
#include "src/logger/log_timestamp.c"
#include "src/logger/log_put.c"
#ifdef VC_NATIVE
#include "src/strlib/conv_cypher.c"
#include "src/strlib/numberToString.c"
#endif
#ifndef OP
#define OP nd_range(0, 6)
#endif
void harness(void) {
	VC_INIT(); int op = OP, fd; fd = g_fd = nd_int(); g_pos = g_epos = 0; g_got = g_exp = -1; g_end = 0; g_err = g_err0 = nd_int(); g_tp = g_msg = NULL; g_cp = NULL; g_spp = NULL;
#ifdef VC_CBMC
	g_ps = nd_range(1, (size_t) 1 << 40); g_pool = vc_alloc(g_ps);
#endif
	if(op == 0) { want("\n", 1); log_putln(fd); }
	else if(op == 1) {
		stringptr s; int z = nd_bool(); s.size = nd_len(); s.ptr = vc_mem(s.size); if(!z) want(s.ptr, s.size);
		log_puts(fd, z ? NULL : &s);
	} else if(op == 2) { char *t = nd_bool() ? NULL : h_text(); if(t) want(t, g_tn); log_putc(fd, t); }
	else if(op == 3) { uint64_t n = nd_u64(); int s = nd_bool(); want_num(n, s); log_putd(fd, n, s ? nd_int() | 1 : 0); }
	else if(op == 4) {
		char *t = nd_bool() ? NULL : h_text(); if(t) want(t, g_tn); want(": ", 2);
#ifdef VC_NATIVE
		g_msg = "some error"; g_mn = 10;
#else
		{ size_t at = nondet_u64(); g_mn = nondet_u64(); ASSUME(at < g_ps && g_mn < g_ps - at && g_pool[at + g_mn] == 0); g_msg = g_pool + at; ASSUME(g_msg != t || g_mn == g_tn); }
#endif
		want(g_msg, g_mn);
		want("\n", 1);
		log_puterror(fd, t);
	} else if(op == 5) {
#ifdef VC_NATIVE
		want("yyyyyyyyyyyyyyyyyyy", 19);
#else
		g_tsn = nd_range(19, 25); g_tsc = nondet_u8(); if(vc_k < g_tsn) g_exp = g_tsc; g_epos = g_tsn;
#endif
		log_timestamp(fd);
	} else {
#ifdef VC_NATIVE
		vario a[4], *p[5] = {0}; stringptr sp[4], *spp[4]; char *c[4]; int iv[4]; unsigned uv[4]; long lv[4]; unsigned long ulv[4];
		for(int i = 0; i < 4 && (p[i] = next_arg()); i++) {
			a[i] = *p[i]; p[i] = &a[i]; sp[i] = g_spv; spp[i] = g_spp ? &sp[i] : NULL; c[i] = g_cp; iv[i] = g_iv; uv[i] = g_uv; lv[i] = g_lv; ulv[i] = g_ulv;
			switch((int) a[i].type) { case VT_STRINGPTR: a[i].ptr = &spp[i]; break; case VT_CHAR_STAR: case VT_CONST_CHAR_STAR: a[i].ptr = &c[i]; break; case VT_INT: a[i].ptr = &iv[i]; break; case VT_UNSIGNED: a[i].ptr = &uv[i]; break; case VT_LONG: a[i].ptr = &lv[i]; break; case VT_ULONG: a[i].ptr = &ulv[i]; break; }
		}
		log_put(fd, p[0], p[1], p[2], p[3], p[4]);
		want("\n", 1);
#else
		log_put(fd, (vario*) 0);
		CHECK(g_end, "every argument was taken"); want("\n", 1);
#endif
	}
	CHECK(g_pos == g_epos, "as many bytes as asked for");
#ifdef VC_NATIVE
	CHECK(!memcmp(g_ob, g_eb, g_epos), "exactly the bytes asked for");
#else
	CHECK(g_got == g_exp, "exactly the bytes asked for");
#endif
	REACH("end");
}
