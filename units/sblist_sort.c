/*@unit
property = "P13"
functions = ["sblist_sort"]
lemma = "sorts exactly the items of the list, in place, by the given comparison (qsort is called once on the whole list)"
timeout = 60
fuzzlen = 200
nobounded = true
stubs = ["qsort (libc): sorts the array it is given"]
*/
#include "vc.h"
#include "include/sblist.h"
static sblist *g_l; static int g_calls;
static int cmp(const void *a, const void *b) { int x = *(int*) a, y = *(int*) b; return x < y ? -1 : x > y; }
#ifdef VC_CBMC
void stub_qsort(void *b, size_t n, size_t s, int (*c)(const void*, const void*)) {
	CHECK(b == g_l->items && n == g_l->count && s == g_l->itemsize && c == cmp, "the whole list, by the given comparison"); g_calls++;
}
#define qsort stub_qsort
#endif
#include "src/sblist/sblist_sort.c"
#undef qsort
void harness(void) {
	VC_INIT();
#ifdef VC_CBMC
	sblist sl; size_t n = nd_u32(), c = nd_u32(), is = nd_u32(); char *it = vc_alloc(8);
	sl.itemsize = is; sl.count = n; sl.capa = c; sl.items = it; g_l = &sl;
	sblist_sort(&sl, cmp);
	CHECK(n <= 1 ? g_calls <= 1 : g_calls == 1, "sorted once"); CHECK(sl.items == it && sl.count == n && sl.itemsize == is && sl.capa == c, "the list itself is unchanged");
#else
	int ref[32]; size_t n = nd_range(0, 30), i, j; sblist *l = sblist_new(sizeof(int), nd_range(1, 4));
	for(i = 0; i < n; i++) { int v = nd_range(0, 40) - 20; ref[i] = v; sblist_add(l, &v); }
	sblist_sort(l, cmp); qsort(ref, n, sizeof(int), cmp);
	CHECK(sblist_getsize(l) == n, "size"); for(i = 0; i < n; i++) CHECK(*(int*) sblist_get(l, i) == ref[i], "sorted permutation");
	sblist_free(l);
#endif
	REACH("end");
}
