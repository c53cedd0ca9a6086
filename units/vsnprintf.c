/*@unit
property = "P21"
functions = ["ulz_vsnprintf", "ulz_snprintf"]
lemma = "for every format text, argument list and buffer the output is the C text of the conversions (precisions of any size included) cut at the buffer's size, terminated inside it, and its length is returned; without a buffer the full length is; an unknown conversion gives -1"
cases = ["-DDEST=0 -DKIND=3", "-DDEST=0 -DKIND=2", "-DDEST=0 -DKIND=4", "-DDEST=1 -DKIND=0", "-DDEST=0 -DKIND=1", "-DDEST=0 -DKIND=0"]
thorough_cases = ["-DDEST=1 -DKIND=1", "-DDEST=2 -DKIND=4", "-DDEST=2 -DKIND=2", "-DDEST=2 -DKIND=3", "-DDEST=1 -DKIND=2", "-DDEST=1 -DKIND=3", "-DDEST=1 -DKIND=4"]
bcases = [""]
timeout = 550
unwind = 3
fuzzlen = 200
nobounded = true
redirect = ["numberToString:stub_nts", "isNumber:stub_isnum", "strlen:stub_len"]
stubs = ["numberToString (proved in unit numberToString)", "isNumber (proved in unit charclass)", "strlen (libc)"]
assume = ["the arguments are a sequence of the kinds the conversions ask for (va_arg gives the next one and is checked to ask for that kind's size)", "precisions below 2^31"]
[[loop]]
fn = "ulz_vsnprintf"
nth = 0
inv = ["DEST != 2 || G.epos <= g_cap", "__CPROVER_same_object(a, g_fmt) && __CPROVER_POINTER_OFFSET(a) < g_fs && !G.bad && base == 10 && !G.want", "DEST ? (o == g_dst + res && (size_t) res == (DEST == 2 || G.epos < g_cap ? G.epos : g_cap) && o <= omax) : ((size_t) res == G.epos && o == g_nul)", "(DEST && vc_k < (size_t) res) ==> g_dst[vc_k] == G.exp", "G.epos < 4611686018427387904ul"]
assigns = ["a, ins, o, inn, i, j, width, res, nflags, lng, lflag, base, vc_lp, __CPROVER_object_whole(cbuf), __CPROVER_object_whole(g_dum), G"]
ghost = "spec_item(a);"
[[loop]]
fn = "ulz_vsnprintf"
nth = 1
inv = ["i <= G.nd && a == G.ds"]
assigns = ["i"]
decreases = "G.nd - i"
[[loop]]
fn = "ulz_vsnprintf"
nth = 2
inv = ["j <= i && i == G.nd && a == G.ds && width == G.pv && G.pv < 2147483648ul", "(j == i && j > 0) ==> G.pv == G.prec"]
assigns = ["j, width, G.pv"]
decreases = "i - j"
ghost = "spec_digit(a[j], j);"
[[loop]]
fn = "ulz_vsnprintf"
nth = 3
wrap = true
inv = ["i <= G.bl && ins == G.tp", "DEST ? (o == g_dst + res && (size_t) res == (DEST == 2 || G.bs + i < g_cap ? G.bs + i : g_cap) && o <= omax) : ((size_t) res == G.bs + i && o == g_nul)", "(DEST && vc_k < (size_t) res) ==> g_dst[vc_k] == G.exp"]
assigns = ["i, o, res, __CPROVER_object_whole(g_dum)"]
decreases = "G.bl + 1 - i"
after = "__CPROVER_assume(i >= G.bl || G.tp[i] != 0);"
[[loop]]
fn = "ulz_vsnprintf"
nth = 4
wrap = true
inv = ["i >= G.bl && i <= (width > G.bl ? width : G.bl) && width == G.prec && ins == G.tp", "DEST ? (o == g_dst + res && (size_t) res == (DEST == 2 || G.zs + (i - G.bl) < g_cap ? G.zs + (i - G.bl) : g_cap) && o <= omax) : ((size_t) res == G.zs + (i - G.bl) && o == g_nul)", "(DEST && vc_k < (size_t) res) ==> g_dst[vc_k] == G.exp"]
assigns = ["i, o, res, __CPROVER_object_whole(g_dum)"]
decreases = "G.prec - i"
*/
#include "vc.h"
#include <stdarg.h>
#include <stdio.h>
#include "include/strlib.h"
#include "include/format.h"
#ifdef VC_CBMC
#define NONE ((size_t) -1)
/* the expected output: its length so far (G.epos) and its byte at one arbitrary position (vc_k).  One item of the format
 * at a time: a sign, zeros from G.zs on, and a body of G.bl characters from G.bs on. */
static char *g_dst, *g_dum, *g_nul, *g_fmt, *g_pool; static size_t g_fs, g_cap, g_ps;
static struct { char *tp; const char *ds; size_t epos, bs, zs, bl, nl, prec, pv, nd, ti, asz; uint64_t arg, num; int bad, want, low, sgn, neg; unsigned base; char exp, nc; } G;
#if DEST == 2
#define FITS(n) ASSUME((n) < g_cap)   /* the case of a buffer that is large enough */
#else
#define FITS(n)
#endif
static void spec_put(char c) { if(vc_k == G.epos) G.exp = c; G.epos++; FITS(G.epos); }
static void spec_num(size_t size, int sgn, unsigned base, int low) {
	G.want = 1; G.asz = size; G.arg = nondet_u64(); G.num = size == 4 ? (sgn ? (uint64_t)(int64_t)(int32_t) G.arg : (uint32_t) G.arg) : G.arg;
	G.base = base; G.low = low; G.sgn = sgn; G.neg = sgn && G.num >> 63;
	/* its numeral: length, and the digit at the observed position */
	G.nl = nondet_u64(); ASSUME(G.nl >= 1 && G.nl <= 20 && (G.num || G.nl == 1)); G.nc = nondet_u8(); ASSUME(G.nc != 0 && G.nc != '-' && (G.num || G.nc == '0'));
	if(G.prec == 0 && !G.num) return;
	size_t z = G.prec != NONE && G.prec > G.nl ? G.prec - G.nl : 0;
	if(G.neg) spec_put('-');
	G.zs = G.epos; G.bs = G.zs + z; G.bl = G.nl;
	if(vc_k >= G.zs && vc_k < G.bs) G.exp = '0';
	if(vc_k >= G.bs && vc_k - G.bs < G.bl) { G.ti = vc_k - G.bs; G.exp = G.nc; }
	G.epos = G.bs + G.bl; FITS(G.epos);
}
#define IS_KIND(n) ASSUME(KIND == (n))
static void spec_item(const char *p) {
	ASSUME(G.epos < (size_t) 1 << 61);
	/* the items are proved kind by kind: ordinary characters, %, c and unknown ones; s; d u p; x X; l z */
	G.bad = G.want = 0; G.prec = NONE; G.ti = NONE; G.nd = 0;
	if(*p != '%') { IS_KIND(0); spec_put(*p); return; }
	p++;
	if(*p == '.') {
		p++; G.ds = p; G.nd = nondet_u64(); ASSUME(G.nd <= g_fs - 1 - (p - g_fmt)); G.pv = 0;
		if(G.nd == 0) { ASSUME(*p < '0' || *p > '9'); IS_KIND(0); G.bad = 1; return; }
		G.prec = nondet_u64(); ASSUME(G.prec < (size_t) 1 << 31); p += G.nd;
	}
	switch(*p) {
	case '%': IS_KIND(0); spec_put('%'); break;
	case 's': IS_KIND(1);
		G.want = 1; G.asz = 0; if(nondet_u8() & 1) { G.tp = NULL; G.bad = 1; return; }
		size_t at = nondet_u64(); ASSUME(at < g_ps); G.tp = g_pool + at;
		/* its length: up to the terminator or the precision */
		G.bl = nondet_u64(); ASSUME(G.bl < (size_t) 1 << 60 && G.bl <= g_ps - at && (G.prec == NONE || G.bl <= G.prec) && (G.bl == G.prec || (G.bl < g_ps - at && G.tp[G.bl] == 0)));
		G.bs = G.epos; if(vc_k >= G.bs && vc_k - G.bs < G.bl) { G.exp = G.tp[vc_k - G.bs]; ASSUME(G.exp != 0); } G.epos += G.bl; break;
	case 'c': IS_KIND(0); G.want = 1; G.asz = 4; G.arg = nondet_u64(); spec_put((char) G.arg); break;
	case 'd': IS_KIND(2); spec_num(4, 1, 10, 0); break;
	case 'u': IS_KIND(2); spec_num(4, 0, 10, 0); break;
	case 'x': IS_KIND(4); spec_num(4, 0, 16, 1); break;
	case 'X': IS_KIND(4); spec_num(4, 0, 16, 0); break;
	case 'p': IS_KIND(2); spec_num(8, 0, 16, 0); break;
	case 'l': IS_KIND(3); p++; if(*p == 'l') p++; if(*p == 'd') spec_num(8, 1, 10, 0); else if(*p == 'u') spec_num(8, 0, 10, 0); else G.bad = 1; break;
	case 'z': IS_KIND(3); p++; if(*p == 'd') spec_num(8, 1, 10, 0); else if(*p == 'u') spec_num(8, 0, 10, 0); else G.bad = 1; break;
	default: IS_KIND(0); G.bad = 1;
	}
}
/* the precision's value so far; the last one is the precision */
static void spec_digit(char c, size_t j) { G.pv = G.pv * 10 + (c - '0'); ASSUME(G.pv < (size_t) 1 << 31); if(j + 1 == G.nd) ASSUME(G.pv == G.prec); }
int stub_isnum(char *p) { size_t i = p - G.ds; CHECK(__CPROVER_same_object(p, g_fmt) && p >= G.ds && i <= G.nd, "looks at the precision"); ASSUME((*p >= '0' && *p <= '9') == (i < G.nd)); return i < G.nd; }
static uint64_t stub_argi(size_t n) { CHECK(G.want && G.asz == n, "the next argument, of its kind"); G.want = 0; return G.arg; }
static char *stub_argp(void) { CHECK(G.want && G.asz == 0, "the next argument, of its kind"); G.want = 0; return G.tp; }
char *stub_nts(uint64_t n, unsigned base, char *buf, size_t maxlen, int flags) {
	CHECK(n == G.num, "the number given"); CHECK(base == G.base && maxlen == 0 && !(flags & NTS_PAD), "its plain numeral"); CHECK(base != 16 || !(flags & NTS_LOWERCASE_CHARS) == !G.low, "in the case asked for"); CHECK(!(flags & NTS_SIGNED_TYPE) == !G.sgn || n >> 63 == 0, "with its sign");
	CHECK(__CPROVER_w_ok(buf, 22), "room for every numeral");
	ASSUME((buf[0] == '-') == (G.neg != 0) && buf[0] != 0); G.tp = buf + G.neg; ASSUME(G.tp[G.nl] == 0); if(G.ti < G.nl) ASSUME(G.tp[G.ti] == G.nc);
	return buf;
}
size_t stub_len(const char *s) { CHECK(s == G.tp, "measures the numeral"); return G.nl; }
#undef va_arg
#define va_arg(ap, T) _Generic((T) 0, char*: stub_argp(), default: (T) stub_argi(sizeof(T)))
#endif
#include "src/format/ulz_vsnprintf.c"
#include "src/format/ulz_snprintf.c"
#ifdef VC_NATIVE
#include "src/strlib/conv_cypher.c"
#include "src/strlib/numberToString.c"
#include "src/strlib/isNumber.c"
/* against the C library; every argument goes through an 8-byte slot, whatever its type */
static void native_printf(void) {
	char fmt[200], ref[200], *f = fmt, *q = ref; uint64_t arg[4] = {0}; int items = nd_range(0, 6), na = 0, bad = 0, nul = 0; static char txt[4][12];
	static const char *conv[] = {"d", "u", "x", "X", "p", "c", "s", "ld", "lld", "lu", "llu", "zd", "zu", "%", "q", "s", "d"};
	for(int i = 0; i < items && !bad; i++) {
		int k = nd_range(0, 24); char pr[12] = "";
		if(k > 16 || (k != 13 && k != 14 && na == 4)) { char c = "ab :9.d"[nd_range(0, 6)]; *f++ = *q++ = c; continue; }
		if(nd_bool() && k != 13 && k != 5 && k != 4) snprintf(pr, 12, ".%d", (int) nd_range(0, nd_bool() ? 4 : 60));
		const char *c = conv[k]; f += sprintf(f, "%%%s%s", pr, c); q += sprintf(q, "%%%s%s", pr, k == 4 ? "lX" : c);
		if(k == 14) { bad = 1; break; } if(k == 13) continue;
		if(c[0] == 's') { int n = nd_range(0, 10), j; for(j = 0; j < n; j++) txt[na][j] = nd_range(1, 255); txt[na][n] = 0; arg[na] = (uint64_t) txt[na]; if(nd_range(0, 15) == 15) { arg[na] = 0; bad = 1; } }
		else { arg[na] = nd_u64(); int sh = nd_range(0, 63); if(nd_bool()) arg[na] = (int64_t) arg[na] >> sh; if(nd_range(0, 15) == 15) arg[na] = 0; if(k == 5 && !(char) arg[na]) nul = 1; }
		na++;
	}
	*f = *q = 0;
	char exp[1000]; long r, e = bad ? 0 : snprintf(exp, sizeof exp, ref, arg[0], arg[1], arg[2], arg[3]); size_t n = nd_range(0, nd_bool() ? 8 : 200); char *d = malloc(n);
	r = ulz_snprintf(NULL, 0, fmt, arg[0], arg[1], arg[2], arg[3]); CHECK(r == (bad ? -1 : e), "the full length");
	r = ulz_snprintf(d, n, fmt, arg[0], arg[1], arg[2], arg[3]);
	if(bad) CHECK(r == -1, "refused");
	else { long w = n == 0 ? 0 : e < (long) n ? e : (long) n - 1; CHECK(r == w && !memcmp(d, exp, w) && (n == 0 || d[w] == 0), "the C text, cut at the buffer's size"); }
	free(d); (void) nul;
}
#endif
void harness(void) {
	VC_INIT();
#ifdef VC_CBMC
	size_t n = nd_len(); char *dest = NULL; g_nul = NULL; g_dum = g_dst = vc_alloc(n);
	if(DEST) dest = g_dst; g_cap = n ? n - 1 : 0;
	g_fs = nd_range(1, (size_t) 1 << 40); g_fmt = vc_alloc(g_fs); ASSUME(g_fmt[g_fs - 1] == 0); g_ps = nd_range(1, (size_t) 1 << 40); g_pool = vc_alloc(g_ps);
	G.epos = 0; G.exp = 0; G.bad = G.want = 0; G.bl = G.bs = G.zs = G.nl = G.prec = G.pv = G.nd = G.ti = G.asz = 0; G.tp = NULL; G.ds = NULL; G.nc = 0; G.low = G.sgn = G.neg = 0; G.base = 0; G.arg = G.num = 0;
	va_list ap;
	ssize_t r = ulz_vsnprintf(dest, n, g_fmt, ap);
	if(G.bad) CHECK(r == -1, "an unknown conversion is refused");
	else if(!dest) CHECK(r == (ssize_t) G.epos, "the full length");
	else {
		CHECK(r == (ssize_t) (G.epos < g_cap ? G.epos : g_cap), "the length, cut at the buffer's size");
		if(n) CHECK(dest[r] == 0, "terminated");
		if(vc_k < (size_t) r) CHECK(dest[vc_k] == G.exp, "the C text of the conversions");
	}
#else
	native_printf();
#endif
	REACH("end");
}
