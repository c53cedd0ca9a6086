/* FIPS 180-4 SHA-512; constants generated from cube/square roots of the first primes */
#include <stdint.h>
static const uint64_t ref_K[80] = {
0x428a2f98d728ae22ULL, 0x7137449123ef65cdULL, 0xb5c0fbcfec4d3b2fULL, 0xe9b5dba58189dbbcULL,
0x3956c25bf348b538ULL, 0x59f111f1b605d019ULL, 0x923f82a4af194f9bULL, 0xab1c5ed5da6d8118ULL,
0xd807aa98a3030242ULL, 0x12835b0145706fbeULL, 0x243185be4ee4b28cULL, 0x550c7dc3d5ffb4e2ULL,
0x72be5d74f27b896fULL, 0x80deb1fe3b1696b1ULL, 0x9bdc06a725c71235ULL, 0xc19bf174cf692694ULL,
0xe49b69c19ef14ad2ULL, 0xefbe4786384f25e3ULL, 0x0fc19dc68b8cd5b5ULL, 0x240ca1cc77ac9c65ULL,
0x2de92c6f592b0275ULL, 0x4a7484aa6ea6e483ULL, 0x5cb0a9dcbd41fbd4ULL, 0x76f988da831153b5ULL,
0x983e5152ee66dfabULL, 0xa831c66d2db43210ULL, 0xb00327c898fb213fULL, 0xbf597fc7beef0ee4ULL,
0xc6e00bf33da88fc2ULL, 0xd5a79147930aa725ULL, 0x06ca6351e003826fULL, 0x142929670a0e6e70ULL,
0x27b70a8546d22ffcULL, 0x2e1b21385c26c926ULL, 0x4d2c6dfc5ac42aedULL, 0x53380d139d95b3dfULL,
0x650a73548baf63deULL, 0x766a0abb3c77b2a8ULL, 0x81c2c92e47edaee6ULL, 0x92722c851482353bULL,
0xa2bfe8a14cf10364ULL, 0xa81a664bbc423001ULL, 0xc24b8b70d0f89791ULL, 0xc76c51a30654be30ULL,
0xd192e819d6ef5218ULL, 0xd69906245565a910ULL, 0xf40e35855771202aULL, 0x106aa07032bbd1b8ULL,
0x19a4c116b8d2d0c8ULL, 0x1e376c085141ab53ULL, 0x2748774cdf8eeb99ULL, 0x34b0bcb5e19b48a8ULL,
0x391c0cb3c5c95a63ULL, 0x4ed8aa4ae3418acbULL, 0x5b9cca4f7763e373ULL, 0x682e6ff3d6b2b8a3ULL,
0x748f82ee5defb2fcULL, 0x78a5636f43172f60ULL, 0x84c87814a1f0ab72ULL, 0x8cc702081a6439ecULL,
0x90befffa23631e28ULL, 0xa4506cebde82bde9ULL, 0xbef9a3f7b2c67915ULL, 0xc67178f2e372532bULL,
0xca273eceea26619cULL, 0xd186b8c721c0c207ULL, 0xeada7dd6cde0eb1eULL, 0xf57d4f7fee6ed178ULL,
0x06f067aa72176fbaULL, 0x0a637dc5a2c898a6ULL, 0x113f9804bef90daeULL, 0x1b710b35131c471bULL,
0x28db77f523047d84ULL, 0x32caab7b40c72493ULL, 0x3c9ebe0a15c9bebcULL, 0x431d67c49c100d4cULL,
0x4cc5d4becb3e42b6ULL, 0x597f299cfc657e2aULL, 0x5fcb6fab3ad6faecULL, 0x6c44198c4a475817ULL };
static const uint64_t ref_H0[8] = {
0x6a09e667f3bcc908ULL, 0xbb67ae8584caa73bULL, 0x3c6ef372fe94f82bULL, 0xa54ff53a5f1d36f1ULL, 0x510e527fade682d1ULL, 0x9b05688c2b3e6c1fULL, 0x1f83d9abfb41bd6bULL, 0x5be0cd19137e2179ULL };
#define REF_ROR(x, n) ((x) >> (n) | (x) << (64 - (n)))
static void ref_schedule(const unsigned char *p, uint64_t *w) {
	for(int i = 0; i < 16; i++) {
		const unsigned char *q = p + 8*i;
		w[i] = (uint64_t) q[0] << 56 | (uint64_t) q[1] << 48 | (uint64_t) q[2] << 40 | (uint64_t) q[3] << 32 | (uint64_t) q[4] << 24 | (uint64_t) q[5] << 16 | (uint64_t) q[6] << 8 | (uint64_t) q[7];
	}
	for(int i = 16; i < 80; i++)
		w[i] = w[i-16] + (w[i-7] + (REF_ROR(w[i-15], 1) ^ REF_ROR(w[i-15], 8) ^ w[i-15] >> 7) + (REF_ROR(w[i-2], 19) ^ REF_ROR(w[i-2], 61) ^ w[i-2] >> 6));
}
/* v = a..h */
static void ref_round(uint64_t *v, uint64_t ki, uint64_t wi) {
	uint64_t t1 = v[7] + (REF_ROR(v[4], 14) ^ REF_ROR(v[4], 18) ^ REF_ROR(v[4], 41)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + ki + wi;
	uint64_t t2 = t1 + (REF_ROR(v[0], 28) ^ REF_ROR(v[0], 34) ^ REF_ROR(v[0], 39)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
	v[7] = v[6]; v[6] = v[5]; v[5] = v[4]; v[4] = v[3] + t1; v[3] = v[2]; v[2] = v[1]; v[1] = v[0]; v[0] = t2;
}
#ifndef VC_CBMC
static void ref_sha512_block(const unsigned char *p, uint64_t *h) {
	uint64_t w[80], v[8];
	ref_schedule(p, w);
	for(int i = 0; i < 8; i++) v[i] = h[i];
	for(int i = 0; i < 80; i++) ref_round(v, ref_K[i], w[i]);
	for(int i = 0; i < 8; i++) h[i] = h[i] + v[i];
}
#endif
#ifndef VC_CBMC
static void ref_sha512(const unsigned char *m, size_t n, unsigned char out[64]) {
	size_t pl = (n + 17 + 127) / 128 * 128; unsigned char *b = calloc(pl, 1); memcpy(b, m, n); b[n] = 0x80;
	for(int i = 0; i < 8; i++) b[pl - 1 - i] = (uint64_t) n * 8 >> 8 * i;
	uint64_t h[8]; for(int i = 0; i < 8; i++) h[i] = ref_H0[i];
	for(size_t i = 0; i < pl; i += 128) ref_sha512_block(b + i, h);
	for(int i = 0; i < 64; i++) out[i] = h[i / 8] >> (56 - 8 * (i & 7));
	free(b);
}
static void native_sha512(void) {
	size_t n = nd_range(0, 700); unsigned char *m = vc_mem(n), ref[64];
	sha512_ctx c; memset(&c, 0xa5, sizeof c); sha512_init(&c);
	size_t o = 0; while(o < n) {
		size_t l = nd_range(0, n - o); if(l < n - o) l &= ~(size_t) 127; if(!l) l = n - o;
		unsigned char *x = vc_alloc(l); memcpy(x, m + o, l);
		sha512_update(&c, x, l); o += l;
	}
	ref_sha512(m, n, ref); unsigned char *r = sha512_end(&c);
	CHECK(!memcmp(r, ref, 64), "FIPS 180-4 digest");
}
#endif
