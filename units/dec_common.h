/* a number given by its canonical decimal numeral: g_d[0..g_nd) most significant first, and the values
 * of its prefixes g_A[j].  Every number has exactly one canonical numeral, so quantifying over
 * numerals is quantifying over numbers. */
#ifndef MAXD
#define MAXD 10
#endif
static unsigned char g_d[MAXD]; static uint64_t g_A[MAXD+1]; static size_t g_nd; static char *g_buf;
static uint64_t h_numeral(uint64_t max) {
	unsigned i; uint64_t n = 0;
	g_nd = nd_range(1, MAXD);
	g_A[0] = 0;
	for(i = 0; i < MAXD; i++) {
		g_d[i] = nd_range(0, 9);
		if(i < g_nd) { ASSUME(n <= (max - g_d[i]) / 10); n = n * 10 + g_d[i]; }
		g_A[i+1] = n;
	}
	ASSUME(g_d[0] || g_nd == 1);
	return n;
}
