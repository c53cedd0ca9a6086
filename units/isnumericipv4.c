/*@unit
property = "P05"
functions = ["isnumericipv4"]
lemma = "for a string of any length: accepted means digits and exactly three dots only, no empty number; every dotted quad is accepted"
cases = ["-DWF=0", "-DWF=1"]
unwind = 17
bunwind = 20
timeout = 120
fuzzlen = 64
assume = ["isnumericipv4: NUL-terminated input; completeness half: well-formed text; instantiated at the positions read"]
[[loop]]
fn = "isnumericipv4"
nth = 0
inv = ["x <= g_n && d == g_dots && n <= x && d <= x && n + d == x", "x > 0 ==> wasdot == (ipstring[x-1] == '.')", "x == 0 ==> !wasdot",
 "vc_k < x ==> (g_isdig || (g_isdot && vc_k > 0 && !g_prevdot))", "(x > 0) ==> n > 0"]
assigns = ["g_dots"]
decreases = "g_n - x"
ghost = """if(ipstring[x] == '.') g_dots++; if(x < g_n) __CPROVER_assume(ipstring[x] != 0);
 if(WF && x < g_n) __CPROVER_assume((ipstring[x] >= '0' && ipstring[x] <= '9') || (ipstring[x] == '.' && x > 0 && ipstring[x-1] != '.')); """
*/
#include "vc.h"
#ifndef WF
#define WF 0
#endif
static size_t g_n, g_dots; static int g_isdig, g_isdot, g_prevdot;
#include "src/strlib/isnumericipv4.c"
void harness(void) {
	VC_INIT();
	g_n = nd_len();
	char *s = vc_mem_hint(g_n + 1, "0123456789....."); s[g_n] = 0; g_dots = 0;
#ifdef VC_PROOF
	ASSUME(vc_k <= g_n);
	g_isdig = s[vc_k] >= '0' && s[vc_k] <= '9'; g_isdot = s[vc_k] == '.';
	g_prevdot = vc_k > 0 && s[vc_k-1] == '.';
	/* the string ends at g_n: instantiated at the witness and the end */
	ASSUME(vc_k == g_n || s[vc_k]); if(g_n) ASSUME(s[g_n - 1]);
	if(g_n) ASSUME(s[0]);
	int r = isnumericipv4(s);
	if(r) {
		CHECK(g_dots == 3, "three dots");
		CHECK(g_n >= 7 && g_n <= 15 && s[g_n - 1] != '.', "4 to 12 digits, none missing at the end");
		if(vc_k < g_n) CHECK(g_isdig || (g_isdot && vc_k > 0 && !g_prevdot), "only digits and separating dots");
	}
	if(WF && g_n >= 7 && g_n <= 15 && s[g_n - 1] != '.' && g_dots == 3) CHECK(r == 1, "well-formed text is accepted");
#else
	int r = isnumericipv4(s);
	size_t dots = 0, dig = 0, i; int bad = 0;
	for(i = 0; s[i]; i++) {
		if(s[i] == '.') { dots++; if(i == 0 || s[i-1] == '.') bad = 1; }
		else if(s[i] >= '0' && s[i] <= '9') dig++; else bad = 1;
	}
	if(i && s[i-1] == '.') bad = 1;
	CHECK(r == (!bad && dots == 3 && dig >= 4 && dig <= 12), "accepted exactly when four non-empty numbers with at most 12 digits in all");
#endif
	REACH("end");
}
