/*@unit
property = "P04"
functions = ["strtoint64"]
lemma = "a decimal numeral with optional minus sign whose value fits the type is converted to exactly that value (leading zeros allowed); no string or no length gives 0; exactly len bytes are read"
cases = ["-DDL=1", "-DDL=2", "-DDL=3", "-DDL=4", "-DDL=5", "-DDL=6", "-DDL=7", "-DDL=8", "-DDL=9", "-DDL=10", "-DDL=11", "-DDL=12", "-DDL=13", "-DDL=14", "-DDL=15", "-DDL=16", "-DDL=17", "-DDL=18", "-DDL=19", "-DDL=20"]
unwind = 24
bunwind = 24
timeout = 120
fuzzlen = 40
assume = ["strtoint64: at most 20 digits (leading zeros included)"]
*/
#include "vc.h"
#ifndef DL
#define DL 5
#endif
#include "src/strlib/strtoint64.c"
void harness(void) {
	unsigned char d[DL]; unsigned i; uint64_t v = 0, p = 1;
	int neg = nd_bool(), over = 0;
	char *s = vc_alloc(DL + neg);       /* not terminated: only len bytes may be read */
	if(neg) s[0] = '-';
	for(i = 0; i < DL; i++) { d[i] = nd_range(0, 9); s[neg + i] = '0' + d[i]; }
	/* value = sum of digit * 10^position; digits beyond the 19th from the right must be zero */
	for(i = 0; i < DL; i++) {
		unsigned dg = d[DL - 1 - i];
		if(i >= 19) { ASSUME(dg == 0); continue; }
		v += (uint64_t) dg * p; p *= 10;
	}
	ASSUME(v <= 9223372036854775807ULL + neg);
	CHECK(strtoint64(s, DL + neg) == (int64_t)(neg ? 0 - v : v), "value of the numeral");
	CHECK(strtoint64(NULL, DL) == 0 && strtoint64(s, 0) == 0, "nothing to convert");
	REACH("end");
}
