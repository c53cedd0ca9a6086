/* native reading of the hash list units: a random history of the real code against plain arrays */
#ifndef VC_CBMC
#include "oom.h"
#define malloc stub_malloc
#define calloc stub_calloc
#define realloc stub_realloc
#define free stub_free
#include "src/sblist/sblist.c"
#include "src/sblist/sblist_delete.c"
#include "src/hashlist/hashlist.c"
#include "src/hashlist/hashlist_iterator.c"
#include "oom_end.h"
static void native_hash(void) {
	uint32_t nb = nd_range(1, 7), hs[40]; uint8_t seen[40]; unsigned v, vs[40]; size_t n = 0, i, j, steps = nd_range(1, 20); hashlist *h; oom_failed = 0;
	h = hashlist_new(nb, sizeof v); CHECK((h == NULL) == oom_failed, "new"); if(!h) { CHECK(oom_live == 0, "nothing leaks"); return; }
	while(steps--) {
		if(nd_range(0, 4) && n < 40) { uint32_t hash = nd_u8(); v = nd_u8(); oom_failed = 0; int r = hashlist_add(h, hash, &v); CHECK(r == (oom_failed ? -1 : 0), "add reports"); if(!r) { hs[n] = hash % nb; vs[n++] = v; } }
		else if(n) { size_t k = nd_range(0, n - 1), p = 0; for(j = 0; j < k; j++) p += hs[j] == hs[k]; sblist_delete(hashlist_get(h, hs[k]), p); memmove(hs + k, hs + k + 1, (n - k - 1) * sizeof *hs); memmove(vs + k, vs + k + 1, (n - k - 1) * sizeof *vs); n--; }
		for(i = 0; i < nb; i++) { sblist *l = hashlist_get(h, i + nb * nd_range(0, 3)); size_t m = 0; for(j = 0; j < n; j++) if(hs[j] == i) { CHECK(l && m < sblist_getsize(l) && *(unsigned*) sblist_get(l, m) == vs[j], "in insertion order"); m++; } CHECK(l ? sblist_getsize(l) == m : m == 0, "nothing else"); }
		hashlist_iterator it; hashlist_iterator_init(&it); unsigned *p; size_t m = 0; uint32_t b = 0;
		for(i = 0; i < nb; i++) for(j = 0; j < n; j++) if(hs[j] == i) { p = hashlist_next(h, &it); CHECK(p && *p == vs[j], "iterates every value once"); m++; }
		CHECK(hashlist_next(h, &it) == NULL && hashlist_next(h, &it) == NULL, "then ends");
	}
	hashlist_free(h); CHECK(oom_live == 0, "everything is released");
}
#endif
