/*@unit
property = "P28"
functions = ["timespec_diff", "mspassed", "getutime", "gettimestamp"]
lemma = "differences and clock readings are the exact counts of nanoseconds, whole milliseconds and microseconds, for every pair of times whose difference the result type can hold"
cases = ["-DOP=0", "-DOP=1", "-DOP=2"]
bcases = [""]
timeout = 100
unwind = 1
redirect = ["/:stub_div"]
stubs = ["gettimeofday (system)", "integer division: the one quotient"]
*/
#include "vc.h"
#include <sys/time.h>
#include "include/timelib.h"
static struct timeval g_now; static int g_calls;
static int stub_gettimeofday(struct timeval *t, void *z) { CHECK(t != NULL, "asked for the time"); *t = g_now; g_calls++; return 0; }
static long g_a, g_q;   /* g_q: thousandths of g_a */
#ifdef VC_CBMC
long stub_div(long a, long b) { CHECK(b != 0, "no division by zero"); if(a == g_a && b == 1000) return g_q; return a / b; }
#endif
#define gettimeofday stub_gettimeofday
#include "src/timelib/timespec_diff.c"
#include "src/timelib/mspassed.c"
#include "src/timelib/getutime.c"
#include "src/timelib/gettimestamp.c"
#ifndef OP
#define OP nd_range(0, 2)
#endif
static long h_secs(int bits) { long s = (long) nd_u64(); ASSUME(s > -(1L << bits) && s < 1L << bits); return s; }
void harness(void) {
	VC_INIT(); int op = OP;
	if(op == 0) {
		struct timespec a, b, a0, b0;
		a.tv_sec = (long) nd_u64(); b.tv_sec = (long) nd_u64(); a.tv_nsec = nd_range(0, 999999999); b.tv_nsec = nd_range(0, 999999999);
#ifdef VC_NATIVE
		a.tv_sec >>= 12; b.tv_sec >>= 12; ASSUME(a.tv_sec - b.tv_sec < 9223372036L && a.tv_sec - b.tv_sec > -9223372036L);
#endif
		__int128 d = (__int128) a.tv_sec - b.tv_sec; ASSUME(d < 9223372036LL && d > -9223372036LL);
		d = d * 1000000000 + a.tv_nsec - b.tv_nsec;
		a0 = a; b0 = b;
		CHECK(timespec_diff(&a, &b) == (long long) d, "the exact difference in nanoseconds");
		CHECK(a.tv_sec == a0.tv_sec && a.tv_nsec == a0.tv_nsec && b.tv_sec == b0.tv_sec && b.tv_nsec == b0.tv_nsec, "the times stay");
	} else if(op == 1) {
		struct timeval t, t0; t.tv_sec = h_secs(48); t.tv_usec = nd_range(0, 999999); g_now.tv_sec = h_secs(48); g_now.tv_usec = nd_range(0, 999999); t0 = t;
		long ds = g_now.tv_sec - t.tv_sec, du = g_now.tv_usec - t.tv_usec; if(du < 0) { du += 1000000; ds--; }
		g_a = du; g_q = nd_range(0, 999);
#ifdef VC_NATIVE
		g_q = du / 1000;
#else
		ASSUME(du - g_q * 1000 >= 0 && du - g_q * 1000 < 1000);
#endif
		long r = mspassed(&t); CHECK(r == ds * 1000 + g_q, "the whole milliseconds since then");
		CHECK(t.tv_sec == t0.tv_sec && t.tv_usec == t0.tv_usec, "the start stays"); CHECK(g_calls == 1, "one reading of the clock");
	} else {
		g_now.tv_sec = h_secs(42); g_now.tv_usec = nd_range(0, 999999);
		long long u = getutime(); CHECK(u == (long long) g_now.tv_sec * 1000000 + g_now.tv_usec, "microseconds now");
		struct timeval t; gettimestamp(&t); CHECK(t.tv_sec == g_now.tv_sec && t.tv_usec == g_now.tv_usec, "the time now");
	}
	REACH("end");
}
