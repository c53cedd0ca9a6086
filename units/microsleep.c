/*@unit
property = "P28"
functions = ["microsleep"]
lemma = "asks the system for exactly the given time, again for exactly the remainder after every interruption, and reports how the last request ended"
timeout = 100
unwind = 2
redirect = ["/:stub_div", "%:stub_mod"]
stubs = ["nanosleep, errno (system): any number of interruptions with any remainder", "integer division: the one quotient and remainder"]
[[loop]]
fn = "microsleep"
nth = 0
inv = ["req.tv_sec == g_s && req.tv_nsec == g_n && g_n >= 0 && g_n < 1000000000 && !g_done && g_calls >= 0 && g_calls <= 2"]
assigns = ["req, rem, ret, g_s, g_n, g_done, g_err, g_calls, vc_nd_v1, vc_nd_v8"]
*/
#include "vc.h"
#include <time.h>
#include <errno.h>
#undef errno
#define errno g_err
static int g_err, g_done, g_calls; static long g_s, g_n;   /* the request the system must get next */
static int stub_nanosleep(const struct timespec *req, struct timespec *rem) {
	CHECK(!g_done, "nothing more is slept after the end");
	CHECK(req->tv_sec == g_s && req->tv_nsec == g_n, "exactly the time still to sleep");
	if(g_calls < 2) g_calls++;
	int r = nd_u8() % 3;
	if(r == 0) { g_done = 1; return 0; }
	if(r == 1) { g_done = 2; g_err = nd_bool() ? EINVAL : EFAULT; return -1; }
	g_err = EINTR; g_s = (long) nd_u64(); g_n = nd_range(0, 999999999); ASSUME(g_s >= 0);
	if(rem) { rem->tv_sec = g_s; rem->tv_nsec = g_n; }
	return -1;
}
static long g_m, g_q, g_r;   /* g_m is g_q times the units of a second and g_r units more */
#ifdef VC_CBMC
/* truncating division, used at the split of the request */
long stub_div(long a, long b) { CHECK(b != 0, "no division by zero"); if(a == g_m && b == 1000000) return g_q; return a / b; }
long stub_mod(long a, long b) { CHECK(b != 0, "no division by zero"); if(a == g_m && b == 1000000) return g_r; return a % b; }
#endif
#define nanosleep stub_nanosleep
#include "src/timelib/microsleep.c"
void harness(void) {
	VC_INIT(); long m = (long) nd_u64(); ASSUME(m >= 0);
g_m = m;
#ifdef VC_NATIVE
	g_q = m / 1000000; g_r = m % 1000000;
#else
	g_q = (long) nd_u64(); g_r = nd_range(0, 1000000 - 1); ASSUME(g_q >= 0 && g_q <= LONG_MAX / 1000000 && (__int128) g_q * 1000000 + g_r == m);   /* the one normalised form */
#endif
	g_s = g_q; g_n = g_r * 1000; g_err = g_done = g_calls = 0;
	int r = microsleep(m);
	CHECK(g_calls >= 1, "the system was asked"); CHECK(g_done != 0, "ended by the sleep being over or an error");
	CHECK((r == 0) == (g_done == 1) && (r == 0 || r == -1), "reports how it ended");
	REACH("end");
}
