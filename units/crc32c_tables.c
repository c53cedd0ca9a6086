/*@unit
property = "P11"
functions = ["CRC32C_InitTables", "CRC32C_Init", "CRC32C_Final", "reverse"]
lemma = "after initialisation table j holds, at every index, the bitwise remainder after 8(j+1) zero bits; the tables are linear; a byte step is table 0; initial state all ones; the result is the complement, least significant byte first"
unwind = 257
timeout = 200
fuzzlen = 240
nobounded = true
*/
#include "vc.h"
#include "src/crc32/crc32c.c"
#define REF_POLY 0x82f63b78u
#define FN(x) CRC32C_ ## x
#include "crc_common.h"
void harness(void) {
	VC_INIT();
#ifdef VC_CBMC
	FN(InitTables)();
	size_t k = nd_u8(), l = nd_u8();
	uint32_t e = ref_byte(k, 0);
	CHECK(T[0][k] == e, "table 0 is the byte step of the definition");
	e = ref_byte(e, 0); CHECK(T[1][k] == e, "table 1: one zero byte more");
	e = ref_byte(e, 0); CHECK(T[2][k] == e, "table 2: two zero bytes more");
	e = ref_byte(e, 0); CHECK(T[3][k] == e, "table 3: three zero bytes more");
	for(int j = 1; j < 4; j++) CHECK(T[j][k] == (T[j-1][k] >> 8 ^ T[0][T[j-1][k] & 255]), "slicing recurrence");
	CHECK(T[0][k ^ l] == (T[0][k] ^ T[0][l]), "table 0 is linear");
	uint32_t c = nd_u32(); unsigned char b = nd_u8();
	CHECK(ref_byte(c, b) == (c >> 8 ^ T[0][(c ^ b) & 255]), "a byte step is one lookup");
	CRC32_CTX x; x.state = nd_u32(); int r = FN(Init)(&x);
	CHECK(r == 0 && x.state == 0xffffffff, "initial state");
	unsigned char *out = vc_alloc(4); x.state = c; FN(Final)(out, &x);
	for(int i = 0; i < 4; i++) CHECK(out[i] == (unsigned char)(~c >> 8 * i), "complement, least significant byte first");
#else
	native_crc();
#endif
	REACH("end");
}
