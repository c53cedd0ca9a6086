/*@unit
property = "P05"
functions = ["stringfromipv4"]
lemma = "any four bytes become their canonical dotted-quad text, terminated, inside 16 bytes"
unwind = 16
bunwind = 20
timeout = 120
fuzzlen = 8
*/
#include "vc.h"
#include "src/strlib/stringfromipv4.c"
void harness(void) {
	unsigned char *ip = vc_mem(4), keep[4]; char *out = vc_alloc(16);
	for(int i = 0; i < 4; i++) keep[i] = ip[i];
	stringfromipv4(ip, out);
	unsigned p = 0;
	for(int i = 0; i < 4; i++) {
		unsigned v = keep[i];
		CHECK(ip[i] == keep[i], "input untouched");
		if(v >= 100) { CHECK(out[p] == '0' + v / 100, "hundreds"); p++; }
		if(v >= 10) { CHECK(out[p] == '0' + v / 10 % 10, "tens"); p++; }
		CHECK(out[p] == '0' + v % 10, "ones"); p++;
		CHECK(out[p] == (i < 3 ? '.' : 0), "dot or terminator"); p++;
	}
	REACH("end");
}
