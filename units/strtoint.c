/*@unit
property = "P04"
functions = ["strtoint"]
lemma = "a decimal numeral with optional minus sign whose value fits the type is converted to exactly that value (leading zeros allowed); no string or no length gives 0; exactly len bytes are read"
cases = ["-DDL=1", "-DDL=2", "-DDL=3", "-DDL=4", "-DDL=5", "-DDL=6", "-DDL=7", "-DDL=8", "-DDL=9", "-DDL=10", "-DDL=11", "-DDL=12"]
unwind = 24
bunwind = 24
timeout = 120
fuzzlen = 40
assume = ["strtoint: at most 12 digits (leading zeros included)"]
*/
#include "vc.h"
#ifndef DL
#define DL 5
#endif
#include "src/strlib/strtoint.c"
void harness(void) {
	unsigned char d[DL]; unsigned i; uint64_t v = 0, p = 1;
	int neg = nd_bool(), over = 0;
	char *s = vc_alloc(DL + neg);       /* not terminated: only len bytes may be read */
	if(neg) s[0] = '-';
	for(i = 0; i < DL; i++) { d[i] = nd_range(0, 9); s[neg + i] = '0' + d[i]; }
	/* value = sum of digit * 10^position; digits beyond the 10th from the right must be zero */
	for(i = 0; i < DL; i++) {
		unsigned dg = d[DL - 1 - i];
		if(i >= 10) { ASSUME(dg == 0); continue; }
		v += (uint64_t) dg * p; p *= 10;
	}
	ASSUME(v <= 2147483647ULL + neg);
	CHECK(strtoint(s, DL + neg) == (int)(neg ? 0 - v : v), "value of the numeral");
	CHECK(strtoint(NULL, DL) == 0 && strtoint(s, 0) == 0, "nothing to convert");
	REACH("end");
}
