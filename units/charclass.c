/*@unit
property = "P07"
functions = ["isAlpha", "isLetter", "isLower", "isUpper", "isNumber", "makelower", "makeupper"]
lemma = "each predicate holds for exactly the characters of its class; case conversion changes exactly the ASCII letters of the other case, and no other byte"
unwind = 1
fuzzlen = 8
*/
#include "vc.h"
#define ludiff ludiff_l
#include "src/strlib/makelower.c"
#undef ludiff
#define ludiff ludiff_u
#include "src/strlib/makeupper.c"
#include "src/strlib/isAlpha.c"
#include "src/strlib/isLetter.c"
#include "src/strlib/isLower.c"
#include "src/strlib/isUpper.c"
#include "src/strlib/isNumber.c"
void harness(void) {
	VC_INIT();
	unsigned char c = nd_u8(), b0 = nd_u8(), b2 = nd_u8();
	char *p = vc_alloc(3); p[0] = b0; p[1] = c; p[2] = b2;
	int lo = c >= 97 && c <= 122, up = c >= 65 && c <= 90, nu = c >= 48 && c <= 57;
	CHECK(!!isLower(p+1) == lo, "lower-case letters");
	CHECK(!!isUpper(p+1) == up, "upper-case letters");
	CHECK(!!isLetter(p+1) == (lo || up), "letters");
	CHECK(!!isNumber(p+1) == nu, "digits");
	CHECK(!!isAlpha(p+1) == (lo || up || nu), "letters and digits");
	CHECK((unsigned char) p[1] == c, "predicates change nothing");
	makelower(p+1);
	CHECK((unsigned char) p[1] == (up ? c + 32 : c), "lower case");
	p[1] = c; makeupper(p+1);
	CHECK((unsigned char) p[1] == (lo ? c - 32 : c), "upper case");
	CHECK((unsigned char) p[0] == b0 && (unsigned char) p[2] == b2, "no other byte changes");
	REACH("end");
}
