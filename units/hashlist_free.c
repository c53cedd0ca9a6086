/*@unit
property = "P17"
functions = ["hashlist_free"]
lemma = "disposing frees every bucket's list exactly once, the table and the header, for any number of buckets"
timeout = 100
unwind = 1
nobounded = true
fuzzlen = 300
bcases = [""]
stubs = ["sblist_free (proved in unit sblist_life)", "free (libc)"]
[[loop]]
fn = "hashlist_free"
nth = 0
inv = ["i <= h->bucketcount", "g_fw == (g_w < i && g_wl != 0)", "g_fb == 0 && g_fh == 0 && h->bucketcount == g_nb", "g_i == i"]
assigns = ["g_fw, g_i"]
decreases = "h->bucketcount - i"
ghost_end = "g_i = g_i + 1;"
*/
#include "vc.h"
#include "include/hashlist.h"
#include "hashlist_common.h"
static size_t g_i; static uint32_t g_w, g_nb; static int g_fw, g_fb, g_fh; static sblist *g_wl; static hashlist *g_h; static void *g_bk;
#ifdef VC_CBMC
void stub_sblist_free(sblist *l); void stub_freeb(void *p);
#define sblist_free stub_sblist_free
#define free stub_freeb
#endif
#ifdef VC_CBMC
#include "src/hashlist/hashlist.c"
#endif
#ifdef VC_CBMC
void stub_sblist_free(sblist *l) { CHECK(l != NULL && g_i < g_nb && l == g_h->buckets[g_i], "frees the buckets' lists in turn"); if(g_i == g_w) g_fw++; }
void stub_freeb(void *p) { if(p == g_bk && !g_fb) { CHECK(!g_fh, "table before header"); g_fb = 1; } else { CHECK(p == g_h && !g_fh, "frees the header once"); g_fh = 1; } }
#endif
void harness(void) {
	VC_INIT();
#ifdef VC_CBMC
	g_i = 0; g_fw = g_fb = g_fh = 0; g_w = nd_u32(); g_nb = nd_u32(); ASSUME(g_w < g_nb);
	hashlist *h = vc_alloc(sizeof *h); g_h = h; h->bucketcount = g_nb; h->buckets = vc_alloc(g_nb * sizeof(sblist*)); g_bk = h->buckets; g_wl = h->buckets[g_w];
	hashlist_free(NULL); CHECK(!g_fh, "nothing to do");
	hashlist_free(h);
	CHECK(g_fw == (g_wl != 0) && g_fb == 1 && g_fh == 1, "each exactly once");
#else
	OOM_INIT(); native_hash();
#endif
	REACH("end");
}
