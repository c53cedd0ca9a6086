/*@unit
property = "P18"
functions = ["stringptr_hash"]
lemma = "the hash is the ELF hash of the characters, for every content and length"
timeout = 100
unwind = 1
fuzzlen = 100
nobounded = true
[[loop]]
fn = "stringptr_hash"
nth = 0
inv = ["size <= g_n && g_i == g_n - size", "s == (unsigned char*) g_p + g_i", "((h ^ g_h) & 0xfffffff) == 0 && g_h <= 0xfffffff"]
assigns = ["g_i, g_h"]
decreases = "size"
ghost_end = "g_h = (g_h << 4) + (unsigned char) g_p[g_i]; g_h = (g_h ^ ((g_h & 0xf0000000) >> 24)) & 0x0fffffff; g_i = g_i + 1;"
*/
#include "sp_common.h"
static size_t g_n, g_i; static uint32_t g_h; static char *g_p;
#include "src/stringptr/stringptr_hash.c"
static uint32_t spec_elf(const unsigned char *p, size_t n) { uint32_t h = 0, g; while(n--) { h = (h << 4) + *p++; if((g = h & 0xf0000000)) h ^= g >> 24; h &= ~g; } return h; }
void harness(void) {
	VC_INIT();
#ifdef VC_PROOF
	g_i = 0; g_h = 0; g_dj = g_wo = 0; oom_failed = oom_live = oom_calls = 0;
#endif
	stringptr *s = h_sp(0); g_n = s->size; g_p = s->ptr;
	uint32_t r = stringptr_hash(s);
#ifdef VC_PROOF
	CHECK(g_i == g_n && r == g_h, "the ELF hash");
#else
	CHECK(r == spec_elf((void*) s->ptr, s->size), "the ELF hash");
#endif
	CHECK(s->size == g_n && s->ptr == g_p, "frame");
	REACH("end");
}
