/*@unit
property = "P02"
functions = ["hexval"]
lemma = "value of a hex digit of either case, 0 for anything else"
fuzzlen = 8
*/
#include "vc.h"
#include "src/strlib/hexval.c"
void harness(void) {
	char *c = vc_mem(1);
	int v = *c >= '0' && *c <= '9' ? *c - '0' : *c >= 'a' && *c <= 'f' ? *c - 'a' + 10 : *c >= 'A' && *c <= 'F' ? *c - 'A' + 10 : 0;
	char old = *c;
	CHECK(hexval(c) == v && *c == old, "digit value");
	REACH("end");
}
