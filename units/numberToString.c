/*@unit
property = "P03"
functions = ["numberToString"]
lemma = "for every 64-bit number, flag combination and maximum length the text is the number's numeral in the base: sign, letter case, zero padding or stripping as documented, inside the documented buffer"
cases = ["-DBASE=10 -DMAXD=20 -DML=0", "-DBASE=10 -DMAXD=20 -DML=1", "-DBASE=16 -DMAXD=16 -DML=0", "-DBASE=16 -DMAXD=16 -DML=1"]
thorough_cases = ["-DBASE=2 -DMAXD=64 -DML=1", "-DBASE=2 -DMAXD=64 -DML=0", "-DBASE=36 -DMAXD=13 -DML=0", "-DBASE=8 -DMAXD=22 -DML=1", "-DBASE=60 -DMAXD=11 -DML=0", "-DBASE=38 -DMAXD=13 -DML=1"]
bcases = ["-DBASE=10 -DMAXD=20 -DML=1", "-DBASE=16 -DMAXD=16 -DML=1", "-DBASE=36 -DMAXD=13 -DML=0", "-DBASE=62 -DMAXD=11 -DML=1"]

split = true
split_more = ["LEMMA"]
unwind = 66
timeout = 500
bunwind = 66
fuzzlen = 90
assume = ["numberToString: maximum length below 2^31 - 2"]
[macro]
INST = "{ size_t vc_m = #1; if(vc_m >= 1 && vc_m <= g_nz) { __CPROVER_assume(g_d[vc_m-1] < BASE && g_A[vc_m-1] <= 18446744073709551615ul / BASE && g_A[vc_m] == g_A[vc_m-1] * BASE + g_d[vc_m-1] && g_A[vc_m] >= g_d[vc_m-1]); __CPROVER_assume(vc_m >= 2 ? g_A[vc_m-1] >= 1 : g_A[0] == 0 && g_d[0] > 0); } }"
[[loop]]
fn = "numberToString"
nth = 0
inv = ["len <= g_nz && lentest == g_A[g_nz - len]", "len < g_nz ==> lentest > 0"]
decreases = "g_nz + 1 - len"
ghost = "$INST(g_nz - len)"
[[loop]]
fn = "numberToString"
nth = 1
inv = ["i <= len && len == g_T && result == g_buf && (vc_k < i ==> g_buf[vc_k] == '0') && (vc_k2 < i ==> g_buf[vc_k2] == '0')"]
assigns = ["__CPROVER_object_whole(buffer)"]
decreases = "len - i"
[[loop]]
fn = "numberToString"
nth = 2
inv = ["len <= g_T && g_T - len <= g_nz && number == g_A[g_nz - (g_T - len)]",
 "g_buf[g_T] == 0 && result == g_buf", "g_T - len < g_nz ==> number > 0",
 "vc_k < g_T ==> g_buf[vc_k] == (vc_k >= len ? g_e : '0')",
 "vc_k2 < g_T ==> g_buf[vc_k2] == (vc_k2 >= len ? g_e2 : '0')"]
assigns = ["__CPROVER_object_whole(buffer)"]
decreases = "len"
ghost = "$INST(g_nz - (g_T - len)) { size_t vc_m = g_nz - (g_T - len); if(vc_m >= 1) { __CPROVER_assert(number % BASE == g_d[vc_m-1], \"LEMMA last digit\"); __CPROVER_assume(number % BASE == g_d[vc_m-1]); __CPROVER_assert((number - number % BASE) / BASE == g_A[vc_m-1], \"LEMMA rest\"); __CPROVER_assume((number - number % BASE) / BASE == g_A[vc_m-1]); } }"
[[loop]]
fn = "numberToString"
nth = 3
inv = ["i <= tmp && shr == (int)i && (g_nz <= g_T ==> i <= g_T - g_nz) && result == g_buf && tmp == g_T && (vc_k < i ==> g_e == '0')"]
decreases = "tmp - i"
*/
#include "vc.h"
static unsigned char g_d[MAXD]; static uint64_t g_A[MAXD+1]; static size_t g_nz, g_T; static char *g_buf, g_e, g_e2;
#include "src/strlib/conv_cypher.c"
#include "src/strlib/numberToString.c"

static char spec_digit(unsigned v, int lower) {
	return v < 10 ? '0' + v : v < 36 ? (lower && BASE <= 36 ? 'a' : 'A') + (v - 10) : 'a' + (v - 36);
}
/* character at position k of the T-wide zero padded field */
static char spec_field(size_t k, int lower) {
	if(g_nz <= g_T) { return k < g_T - g_nz ? '0' : spec_digit(g_d[k - (g_T - g_nz)], lower); }
	return spec_digit(g_d[k + (g_nz - g_T)], lower);
}

void harness(void) {
	unsigned i; uint64_t n = 0, max;
	VC_INIT();
	int flags = nd_range(0, 7), neg = nd_bool(), lower = !!(flags & NTS_LOWERCASE_CHARS), pad = flags & NTS_PAD;
	ASSUME(!neg || (flags & NTS_SIGNED_TYPE));
	max = (flags & NTS_SIGNED_TYPE) ? (neg ? (uint64_t)1 << 63 : ((uint64_t)1 << 63) - 1) : UINT64_MAX;
	/* the magnitude is given by its numeral (g_d most significant first, g_A the values of its prefixes);
	 * zero has no digits */
	g_nz = nd_range(0, MAXD);
#ifdef VC_PROOF
	/* g_A[j+1] == g_A[j]*BASE + g_d[j] for all j: instantiated where the loops use it */
	__CPROVER_havoc_object(g_A); __CPROVER_havoc_object(g_d);
	ASSUME(g_A[0] == 0);
	n = g_A[g_nz];
	if(g_nz == 0) ASSUME(n == 0); else ASSUME(n > 0);
	for(i = 0; i < MAXD; i++) ASSUME(g_d[i] < BASE);
	ASSUME(g_d[0] > 0);
#else
	g_A[0] = 0;
	for(i = 0; i < MAXD; i++) {
		g_d[i] = nd_range(0, BASE - 1);
		if(i == 0 && !g_d[0]) g_d[0] = 1;
		if(i < g_nz) {
			ASSUME(n <= UINT64_MAX / BASE && n * BASE <= UINT64_MAX - g_d[i]);
			n = n * BASE + g_d[i];
		}
		g_A[i+1] = n;
	}
#endif
	ASSUME(n <= max && (!neg || n));
#ifdef VC_PROOF
	size_t maxlen = ML ? nd_range(1, INT_MAX - 2) : 0;
#else
	size_t maxlen = nd_range(0, 80);
#endif
	g_T = maxlen ? maxlen : g_nz ? g_nz : 1;
	char *buf = vc_alloc(g_T + 2);      /* maxlen chars + sign + terminator */
	if(!neg && !(flags & NTS_SIGNED_TYPE)) { buf = vc_alloc(g_T + 1); }
	g_buf = buf + neg;
#ifdef VC_PROOF
	ASSUME(vc_k < g_T);
	g_e = spec_field(vc_k, lower);
	vc_k2 = g_nz && g_nz <= g_T ? g_T - g_nz : 0;
	g_e2 = spec_field(vc_k2, lower);
#endif
	char *r = numberToString(neg ? -n : n, BASE, buf, maxlen, flags);
	CHECK(r != NULL, "accepted");
	CHECK(g_buf[g_T] == 0, "terminated");
	if(pad) {
		CHECK(r == buf, "padded result starts at the buffer");
		if(neg) CHECK(r[0] == '-', "sign");
		FORALL(k, g_T, g_buf[k] == spec_field(k, lower), "padded field is the number in the base");
	} else if(g_nz <= g_T) {
		size_t z = g_nz ? g_T - g_nz : g_T - 1;
#ifdef VC_PROOF
		/* the start is at most z, and is no k < z: so it is z */
		CHECK(r >= g_buf - neg && r <= g_buf + z - neg && !(vc_k < z && r == g_buf + vc_k - neg), "leading zeros stripped, sign in front");
#else
		CHECK(r == g_buf + z - neg, "leading zeros stripped, sign in front");
#endif
		if(neg) CHECK(r[0] == '-', "sign");
		FORALL(k, g_T, k < z || g_buf[k] == spec_field(k, lower), "text is the number in the base");
	}
	REACH("end");
}
