/*@unit
property = "P11"
functions = ["CRC32C_Update"]
lemma = "from any state, the state after an update is the byte-wise definition folded over exactly the bytes given: hence it does not depend on how the message is cut"
unwind = 1
timeout = 500
split = true
split_rest = 2
fuzzlen = 240
nobounded = true
let.D = "__CPROVER_POINTER_OFFSET(buf)"
assume = ["crc: the table facts proved in unit crc32c_tables (slicing recurrence, linearity) are used at the indices one step reads; the tables were initialised first (documented)"]
[[loop]]
fn = "CRC32C_Update"
nth = 0
inv = ["__CPROVER_same_object(buf, g_m) && $D <= g_n && len == g_n - $D && ctx->state == g_crc"]
assigns = ["ctx->state", "g_crc"]
decreases = "len"
ghost = """ uint32_t g_c = g_crc; uint32_t g_x0 = (g_c ^ buf[0]) & 255; uint32_t g_x1 = (g_c >> 8 ^ buf[1]) & 255; uint32_t g_x2 = (g_c >> 16 ^ buf[2]) & 255; uint32_t g_x3 = g_c >> 24 ^ buf[3];
 uint32_t g_a0 = T[0][g_x0]; uint32_t g_b0 = T[1][g_x0]; uint32_t g_d0 = T[2][g_x0]; uint32_t g_a1 = T[0][g_x1]; uint32_t g_b1 = T[1][g_x1]; uint32_t g_a2 = T[0][g_x2];
 $REC(g_x0) $REC(g_x1) $REC(g_x2)
 $LIN(g_x1 ^ (g_a0 & 255), g_x1, g_a0 & 255)
 $LIN(g_x2 ^ (g_a1 & 255) ^ (g_b0 & 255), g_x2 ^ (g_a1 & 255), g_b0 & 255) $LIN(g_x2 ^ (g_a1 & 255), g_x2, g_a1 & 255)
 $LIN(g_x3 ^ (g_a2 & 255) ^ (g_b1 & 255) ^ (g_d0 & 255), g_x3 ^ (g_a2 & 255) ^ (g_b1 & 255), g_d0 & 255) $LIN(g_x3 ^ (g_a2 & 255) ^ (g_b1 & 255), g_x3 ^ (g_a2 & 255), g_b1 & 255) $LIN(g_x3 ^ (g_a2 & 255), g_x3, g_a2 & 255)
 $STEP(buf[0]) __CPROVER_assert(g_crc == (g_c >> 8 ^ g_a0), "CHECK one byte"); __CPROVER_assume(g_crc == (g_c >> 8 ^ g_a0));
 $STEP(buf[1]) __CPROVER_assert(g_crc == (g_c >> 16 ^ g_a1 ^ g_b0), "CHECK two bytes"); __CPROVER_assume(g_crc == (g_c >> 16 ^ g_a1 ^ g_b0));
 $STEP(buf[2]) __CPROVER_assert(g_crc == (g_c >> 24 ^ g_a2 ^ g_b1 ^ g_d0), "CHECK three bytes"); __CPROVER_assume(g_crc == (g_c >> 24 ^ g_a2 ^ g_b1 ^ g_d0));
 $STEP(buf[3]) """
[[loop]]
fn = "CRC32C_Update"
nth = 1
inv = ["__CPROVER_same_object(buf, g_m) && $D <= g_n && len == g_n - $D && ctx->state == g_crc"]
assigns = ["ctx->state", "g_crc"]
decreases = "len"
ghost = "$STEP(buf[0])"
[macro]
STEP = "g_crc = g_crc >> 8 ^ T[0][(g_crc ^ #1) & 255];"
REC = "__CPROVER_assume(T[1][#1] == (T[0][#1] >> 8 ^ T[0][T[0][#1] & 255]) && T[2][#1] == (T[1][#1] >> 8 ^ T[0][T[1][#1] & 255]) && T[3][#1] == (T[2][#1] >> 8 ^ T[0][T[2][#1] & 255]));"
LIN = "__CPROVER_assume(T[0][#1] == (T[0][#2] ^ T[0][#3]));"
*/
#include "vc.h"
static size_t g_n; static const unsigned char *g_m; static uint32_t g_crc;
#include "src/crc32/crc32c.c"
#define REF_POLY 0x82f63b78u
#define FN(x) CRC32C_ ## x
#include "crc_common.h"
void harness(void) {
	VC_INIT();
#ifdef VC_CBMC
	__CPROVER_havoc_object(T0); __CPROVER_havoc_object(T1); __CPROVER_havoc_object(T2); __CPROVER_havoc_object(T3);
	T[0] = T0; T[1] = T1; T[2] = T2; T[3] = T3;
	g_n = nd_len(); unsigned char *m = vc_mem(g_n); g_m = m;
	CRC32_CTX *c = vc_alloc(sizeof *c); g_crc = c->state;
	FN(Update)(c, m, g_n);
	CHECK(c->state == g_crc, "the definition folded over the bytes");
#else
	native_crc();
#endif
	REACH("end");
}
