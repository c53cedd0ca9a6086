/* RFC 1321, written from the text of the RFC (section 3.4) */
static const uint32_t ref_T[64] = { /* floor(4294967296 * abs(sin(i + 1))) */
0xd76aa478,0xe8c7b756,0x242070db,0xc1bdceee,0xf57c0faf,0x4787c62a,0xa8304613,0xfd469501,
0x698098d8,0x8b44f7af,0xffff5bb1,0x895cd7be,0x6b901122,0xfd987193,0xa679438e,0x49b40821,
0xf61e2562,0xc040b340,0x265e5a51,0xe9b6c7aa,0xd62f105d,0x02441453,0xd8a1e681,0xe7d3fbc8,
0x21e1cde6,0xc33707d6,0xf4d50d87,0x455a14ed,0xa9e3e905,0xfcefa3f8,0x676f02d9,0x8d2a4c8a,
0xfffa3942,0x8771f681,0x6d9d6122,0xfde5380c,0xa4beea44,0x4bdecfa9,0xf6bb4b60,0xbebfbc70,
0x289b7ec6,0xeaa127fa,0xd4ef3085,0x04881d05,0xd9d4d039,0xe6db99e5,0x1fa27cf8,0xc4ac5665,
0xf4292244,0x432aff97,0xab9423a7,0xfc93a039,0x655b59c3,0x8f0ccc92,0xffeff47d,0x85845dd1,
0x6fa87e4f,0xfe2ce6e0,0xa3014314,0x4e0811a1,0xf7537e82,0xbd3af235,0x2ad7d2bb,0xeb86d391 };
static const unsigned char ref_s[16] = { 7,12,17,22, 5,9,14,20, 4,11,16,23, 6,10,15,21 };
static void ref_md5_block(const unsigned char *p, uint32_t h[4]) {
	uint32_t x[16], v[4] = { h[0], h[1], h[2], h[3] };
	for(int i = 0; i < 16; i++) x[i] = p[4*i] | (uint32_t) p[4*i+1] << 8 | (uint32_t) p[4*i+2] << 16 | (uint32_t) p[4*i+3] << 24;
	for(int i = 0; i < 64; i++) {
		/* the four words rotate: step i updates word -i mod 4 */
		int ia = (64 - i) & 3, ib = (ia + 1) & 3, ic = (ia + 2) & 3, id = (ia + 3) & 3;
		uint32_t b = v[ib], c = v[ic], d = v[id], f; int k;
		if(i < 16) { f = ((c ^ d) & b) ^ d; k = i; }
		else if(i < 32) { f = ((c ^ b) & d) ^ c; k = (5*i + 1) & 15; }
		else if(i < 48) { f = b ^ c ^ d; k = (3*i + 5) & 15; }
		else { f = c ^ (b | ~d); k = (7*i) & 15; }
		int s = ref_s[(i / 16) * 4 + (i & 3)];
		uint32_t t = v[ia] + f + x[k] + ref_T[i];
		v[ia] = b + (t << s | t >> (32 - s));
	}
	for(int i = 0; i < 4; i++) h[i] += v[i];
}
static const uint32_t ref_IV[4] = { 0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476 };
#ifndef VC_CBMC
static void ref_md5(const unsigned char *m, size_t n, unsigned char out[16]) {
	size_t pl = (n + 9 + 63) / 64 * 64; unsigned char *b = calloc(pl, 1); memcpy(b, m, n); b[n] = 0x80;
	for(int i = 0; i < 8; i++) b[pl - 8 + i] = (uint64_t) n * 8 >> 8 * i;
	uint32_t h[4] = { ref_IV[0], ref_IV[1], ref_IV[2], ref_IV[3] };
	for(size_t i = 0; i < pl; i += 64) ref_md5_block(b + i, h);
	for(int i = 0; i < 16; i++) out[i] = h[i / 4] >> 8 * (i & 3);
	free(b);
}
/* the whole hash over the public interface, cut into updates */
static void native_md5(void) {
	size_t n = nd_range(0, 200); unsigned char *m = vc_mem(n), ref[16], out[16], part[16];
	md5_ctx c; memset(&c, 0xa5, sizeof c); md5_init(&c);
	size_t o = 0; while(o < n) {
		size_t l = nd_range(0, n - o); if(!l) l = 1;
		unsigned char *x = vc_alloc(l); memcpy(x, m + o, l);
		md5_update(&c, x, l); o += l;
		ref_md5(m, o, ref); md5_end(&c, part); CHECK(!memcmp(part, ref, 16), "digest of the message so far");
	}
	ref_md5(m, n, ref); md5_end(&c, out); CHECK(!memcmp(out, ref, 16), "RFC 1321 digest");
}
#endif
