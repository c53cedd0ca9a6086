/* runtime of the native reading of a harness: replay, random search or libFuzzer */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <setjmp.h>
jmp_buf vc_jmp;
const unsigned char *vc_data; size_t vc_size; static size_t vc_pos;
int vc_verbose;
static void *vc_objs[4096]; static int vc_nobjs;
void harness(void);

static unsigned nextb(void) { return vc_pos < vc_size ? vc_data[vc_pos++] : (vc_pos++, 0); }
static uint64_t nextn(int n) { uint64_t v = 0; for(int i = 0; i < n; i++) v |= (uint64_t) nextb() << (8*i); return v; }
static void say(const char *what, uint64_t v) { if(vc_verbose) fprintf(stderr, "  input %s = %llu (0x%llx)\n", what, (unsigned long long)v, (unsigned long long)v); }
uint8_t nd_u8(void) { uint8_t v = nextn(1); say("u8", v); return v; }
uint16_t nd_u16(void) { uint16_t v = nextn(2); say("u16", v); return v; }
uint64_t nd_u64(void) { uint64_t v = nextn(8); say("u64", v); return v; }
uint64_t nd_range(uint64_t lo, uint64_t hi) {
	uint64_t d, r;
	if(lo > hi) longjmp(vc_jmp, 77);
	r = hi - lo;
	if(r < 256) d = nextn(1); else if(r < 65536) d = nextn(2); else d = nextn(8);
	if(r != UINT64_MAX && d > r) d %= (r + 1);
	say("range", lo + d);
	return lo + d;
}
void *vc_alloc(size_t n) {
	void *p;
	if(n > (1u << 28)) longjmp(vc_jmp, 77);
	p = malloc(n);           /* ASan traps any access past n */
	if(!p) abort();
	if(vc_nobjs < 4096) vc_objs[vc_nobjs++] = p;
	return p;
}
void *vc_mem(size_t n) {
	unsigned char *p = vc_alloc(n);
	for(size_t i = 0; i < n; i++) p[i] = nextb();
	if(vc_verbose) { fprintf(stderr, "  input mem[%zu] =", n); for(size_t i = 0; i < n && i < 256; i++) fprintf(stderr, " %02x", p[i]); fprintf(stderr, "\n"); }
	return p;
}
int vc_exact;
void *vc_mem_alpha(size_t n, const char *chars) {
	unsigned char *p = vc_mem(n);
	size_t l = strlen(chars);
	/* search only: fold most bytes onto the interesting alphabet */
	if(!vc_exact && l && n) { for(size_t i = 0; i < n; i++) if(p[i] & 0x80) { p[i] = chars[p[i] % l]; } }
	return p;
}
void vc_fail(const char *expr, const char *msg, const char *file, int line) {
	fprintf(stderr, "VCFAIL %s:%d: %s  [%s]\n", file, line, msg, expr);
	abort();
}
static int once(const unsigned char *d, size_t n) {
	int r;
	vc_data = d; vc_size = n; vc_pos = 0; vc_nobjs = 0;
	if(!(r = setjmp(vc_jmp))) harness();
	while(vc_nobjs) free(vc_objs[--vc_nobjs]);
	return r;
}
#ifdef VC_FUZZ
int LLVMFuzzerTestOneInput(const unsigned char *d, size_t n) { once(d, n); return 0; }
#else
int main(int argc, char **argv) {
	if(argc > 2 && !strcmp(argv[1], "-e")) { vc_exact = 1; argv++; argc--; }
	FILE *f = fopen(argv[1], "rb");
	static unsigned char buf[1 << 20];
	size_t n = f ? fread(buf, 1, sizeof buf, f) : 0;
	vc_verbose = 1;
	int r = once(buf, n);
	if(r) { fprintf(stderr, "input outside the precondition\n"); return 77; }
	fprintf(stderr, "held\n");
	return 0;
}
#endif
