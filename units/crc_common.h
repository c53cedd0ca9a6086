/* bitwise definition, reflected */
static uint32_t ref_byte(uint32_t c, unsigned char b) {
	c ^= b;
	for(int i = 0; i < 8; i++) c = c & 1 ? c >> 1 ^ REF_POLY : c >> 1;
	return c;
}
#ifndef VC_CBMC
static void native_crc(void) {
	size_t n = nd_range(0, 200); unsigned char *m = vc_mem(n), out[4];
	CRC32_CTX c; c.state = nd_u32(); FN(InitTables)(); CHECK(FN(Init)(&c) == 0, "init");
	uint32_t r = 0xffffffff; size_t o = 0;
	for(size_t i = 0; i < n; i++) r = ref_byte(r, m[i]);
	r = ~r;
	while(o < n) { size_t l = nd_range(0, n - o); if(!l) l = 1; unsigned char *x = vc_alloc(l); memcpy(x, m + o, l); FN(Update)(&c, x, l); o += l; }
	FN(Final)(out, &c);
	for(int i = 0; i < 4; i++) CHECK(out[i] == (unsigned char)(r >> 8 * i), "bitwise remainder");
}
#endif
