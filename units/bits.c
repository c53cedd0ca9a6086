/*@unit
property = "P32"
functions = ["BA_GET", "BA_GET_SWAPPED", "BA_SET", "BA_SET_TRUE", "BA_SET_FALSE", "BA_SIZE_REQUIRED", "BYTEM", "BYTEL", "byteswap16", "byteswap32", "byteswap64", "le16", "le32"]
lemma = "setting a bit changes exactly that bit, reading gives it, the size is the least number of bytes that holds the bits; the byte swaps reverse the bytes and undo themselves, little-endian conversion keeps the bytes in memory order"
cases = ["-DOP=0", "-DOP=1", "-DOP=2"]
bcases = [""]
timeout = 100
unwind = 1
*/
#include "vc.h"
#include "include/bitarray.h"
#include "include/endianness.h"
#ifndef OP
#define OP nd_range(0, 2)
#endif
static uint64_t spec_swap(uint64_t x, int n) {
	uint64_t r = 0;
	r = (x & 255) << 56 | (x >> 8 & 255) << 48 | (x >> 16 & 255) << 40 | (x >> 24 & 255) << 32 | (x >> 32 & 255) << 24 | (x >> 40 & 255) << 16 | (x >> 48 & 255) << 8 | x >> 56;
	return r >> (64 - 8 * n);
}
void harness(void) {
	VC_INIT(); int op = OP;
	if(op == 0) {
		size_t bits = nd_len1(), n, i = nd_len(); ASSUME(i < bits); n = BA_SIZE_REQUIRED(bits);
		CHECK(n * 8 >= bits && (n - 1) * 8 < bits, "the least number of bytes that holds the bits");
		unsigned char *b = vc_mem(n); int v = nd_int(), on;
#ifdef VC_PROOF
		unsigned char o = 0, oi = b[i / 8]; size_t k = vc_k; if(k < n) o = b[k];
#else
		unsigned char old[4000]; memcpy(old, b, n); unsigned char oi = b[i / 8];
#endif
		on = BA_GET(b, i); CHECK(on == (oi >> i % 8 & 1), "reads that bit");
		CHECK(BA_GET_SWAPPED(b, i) == (oi >> (7 - i % 8) & 1), "reads that bit, counted from the high end");
		CHECK(b[i / 8] == oi, "reading changes nothing");
		if(nd_bool()) { BA_SET(b, i, v); } else if(nd_bool()) { v = 1; BA_SET_TRUE(b, i); } else { v = 0; BA_SET_FALSE(b, i); }
		CHECK(BA_GET(b, i) == !!v, "the bit is set"); CHECK((b[i / 8] ^ oi) == ((!!v ^ on) << i % 8), "no other bit of its byte changes");
#ifdef VC_PROOF
		if(k < n && k != i / 8) CHECK(b[k] == o, "no other byte changes");
#else
		for(size_t k = 0; k < n; k++) if(k != i / 8) CHECK(b[k] == old[k], "no other byte changes");
#endif
	} else if(op == 1) {
		uint16_t a = nd_u64(); uint32_t b = nd_u32(); uint64_t c = nd_u64();
		CHECK((uint16_t) byteswap16(a) == spec_swap(a, 2), "16 bits reversed"); CHECK((uint32_t) byteswap32(b) == spec_swap(b, 4), "32 bits reversed"); CHECK(byteswap64(c) == spec_swap(c, 8), "64 bits reversed");
		uint16_t a2 = byteswap16(a); uint32_t b2 = byteswap32(b); CHECK((uint16_t) byteswap16(a2) == a && (uint32_t) byteswap32(b2) == b && byteswap64(byteswap64(c)) == c, "undone by itself");
		a2 = le16(a); b2 = le32(b); unsigned char *p = (void*) &a2, *q = (void*) &b2;
		CHECK(p[0] == (a & 255) && p[1] == a >> 8, "little end first"); CHECK(q[0] == (b & 255) && q[1] == (b >> 8 & 255) && q[2] == (b >> 16 & 255) && q[3] == b >> 24, "little end first");
	} else {
		unsigned v = nd_u8(), a = v & 1, b = v >> 1 & 1, c = v >> 2 & 1, d = v >> 3 & 1, e = v >> 4 & 1, f = v >> 5 & 1, g = v >> 6 & 1, h = v >> 7;
		CHECK(BYTEM(h, g, f, e, d, c, b, a) == v, "a byte from its bits, high first");
		CHECK(BYTEL(a, b, c, d, e, f, g, h) == v, "a byte from its bits, low first");
	}
	REACH("end");
}
