/*@unit
property = "P32"
functions = ["kv_find"]
lemma = "gives the value of the first entry with an equal key, nothing otherwise, and leaves the result alone then"
timeout = 100
unwind = 2
fuzzlen = 200
nobounded = true
redirect = ["sblist_get:stub_get", "stringptr_eq:stub_eq"]
stubs = ["sblist_get (proved in unit sblist_ops)", "stringptr_eq (proved in unit sp_basic)"]
[[loop]]
fn = "kv_find"
nth = 0
inv = ["g_i == i && i <= g_cnt && !g_found"]
assigns = ["i, s, g_i, g_found, g_ent, g_eq"]
decreases = "g_cnt - i"
*/
#include "vc.h"
#include "include/kvlist.h"
static size_t g_cnt, g_i; static int g_eq, g_found; static stringptrv g_ent; static stringptr g_key; static sblist g_list;
#ifdef VC_CBMC
void *stub_get(sblist *l, size_t i); int stub_eq(stringptr *a, stringptr *b);
#endif
#include "src/kvlist/kvlist.c"
#ifdef VC_NATIVE
#include "src/sblist/sblist.c"
#include "src/stringptr/stringptr_eq.c"
#else
void *stub_get(sblist *l, size_t i) {
	CHECK(l == &g_list, "reads the list");
	if(i >= g_cnt) return NULL;
	if(g_i != i + 1) {
		CHECK(i == g_i, "reads the entries in order");
		g_ent.ptr = NULL; g_ent.size = nondet_u64(); g_ent.value = (void*) (size_t) nondet_u64(); g_eq = nondet_u8() & 1;
		if(g_eq) g_found = 1;
		g_i = i + 1;
	}
	return &g_ent;
}
int stub_eq(stringptr *a, stringptr *b) { CHECK(a == &g_key && (void*) b == (void*) &g_ent || b == &g_key && (void*) a == (void*) &g_ent, "compares the key"); return g_eq; }
#endif
void harness(void) {
	VC_INIT();
#ifdef VC_CBMC
	g_cnt = nd_u64(); ASSUME(g_cnt < (size_t) 1 << 60); g_list.count = g_list.capa = g_cnt; g_list.items = NULL; g_list.itemsize = sizeof(stringptrv); g_i = 0; g_eq = g_found = 0;
	void *v, *v0; v = v0 = (void*) (size_t) nd_u64(); int z = nd_range(0, 3);
	int r = kv_find(z == 1 ? NULL : &g_list, z == 2 ? NULL : &g_key, z == 3 ? NULL : &v);
	if(z) CHECK(!r && v == v0 && g_i == 0, "nothing to look for");
	else if(g_found) CHECK(r == 1 && v == g_ent.value, "the first equal entry's value");
	else CHECK(r == 0 && v == v0 && g_i == g_cnt, "none of the entries");
#else
#define VAL(i) ((void*) ((i) % 3 ? (i) + 10 : 0))
	kvlist *l = kv_new(4); size_t n = nd_range(0, 9), i; static char keys[12][3]; size_t ks[12];
	for(i = 0; i < n; i++) { ks[i] = nd_range(0, 2); for(size_t j = 0; j < ks[i]; j++) keys[i][j] = "ab"[nd_u8() & 1]; kv_add(l, keys[i], ks[i], VAL(i)); }
	if(n) { i = nd_range(0, n - 1); kv_set(l, i, keys[i], ks[i], VAL(i)); }
	char kb[2]; stringptr k = {kb, nd_range(0, 2)}; for(i = 0; i < k.size; i++) kb[i] = "ab"[nd_u8() & 1];
	void *v = (void*) 7; int r = kv_find(l, &k, &v); size_t e; for(e = 0; e < n && !(ks[e] == k.size && !memcmp(keys[e], kb, k.size)); e++);
	CHECK(r == (e < n) && v == (e < n ? VAL(e) : (void*) 7), "the first equal entry's value"); kv_free(l);
#endif
	REACH("end");
}
