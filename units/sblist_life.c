/*@unit
property = "P12"
functions = ["sblist_new", "sblist_init", "sblist_free", "sblist_free_items", "sblist_clear", "sblist_new_from_data", "sblist_free_values"]
lemma = "a new list is empty (or wraps exactly the items given), creation fails exactly when memory is out, freeing releases every block once, freeing values frees every stored pointer once in order"
timeout = 200
fuzzlen = 400
nobounded = true
stubs = ["malloc, free (libc): fresh object or NULL; releases a block once"]
assume = ["sblist: fewer than 2^28 items; byte sizes do not overflow"]
[[loop]]
fn = "sblist_free_values"
nth = 0
inv = ["i <= l->count && g_i == i"]
assigns = ["g_i"]
decreases = "l->count - i"
*/
#include "vc.h"
#define S 8
static size_t g_i; static void **g_items;
#ifdef VC_PROOF
void stub_free_value(void *p) { CHECK(p == g_items[g_i], "frees each stored pointer once, in order"); g_i++; }
#define free stub_free_value
#endif
#include "src/sblist/sblist_free_values.c"
#undef free
#include "oom.h"
#include "src/sblist/sblist.c"
#include "src/sblist/sblist_new_from_data.c"
#ifdef VC_NATIVE
#include "src/sblist/sblist_addi.c"
#include "src/sblist/sblist_insert.c"
#include "src/sblist/sblist_delete.c"
#include "src/sblist/sblist_pop.c"
#endif
#include "oom_end.h"
#include "sblist_common.h"
void harness(void) {
	VC_INIT(); OOM_INIT();
#ifdef VC_CBMC
	size_t is = nd_range(1, 100000), bi = nd_u32();
	sblist *l = sblist_new(is, bi);
	CHECK((l == NULL) == oom_failed, "fails exactly when memory is out");
	if(l) {
		CHECK(l->count == 0 && l->capa == 0 && l->items == NULL && l->itemsize == is, "a new list is empty");
		sblist_free(l); CHECK(oom_live == 0, "an empty list is released");
	}
	sblist_free(NULL); sblist_free_items(NULL); sblist_init(NULL, is, bi);
	OOM_INIT();
	l = stub_malloc(sizeof *l); ASSUME(l); size_t n = nd_range(0, 1u << 20);
	sblist_init(l, S, bi); CHECK(l->count == 0 && l->capa == 0 && l->items == NULL && l->itemsize == S, "initialised empty");
	l->items = stub_malloc(n * S + S); ASSUME(l->items); l->capa = n + 1; l->count = nd_range(0, n + 1);
	if(nd_bool()) { sblist_free_items(l); CHECK(oom_live == 1 && l->items == NULL && l->count == 0 && l->capa == 0, "items released, list empty"); }
	sblist_free(l); CHECK(oom_live == 0, "every block is released once");
	OOM_INIT();
	size_t dl = nd_range(0, 1u << 20); char *d = vc_alloc(dl);
	l = sblist_new_from_data(S, d, dl);
	CHECK((l == NULL) == oom_failed, "fails exactly when memory is out");
	if(l) CHECK(l->items == d && l->count == dl / S && l->itemsize == S && l->capa == l->count, "wraps exactly the items given");
	l = h_list(); g_items = (void**) l->items; g_i = 0;
	sblist_free_values(l); CHECK(g_i == l->count, "every value was freed");
#else
	native_sblist();
	{ size_t n = nd_range(0, 9); sblist *l = sblist_new(sizeof(void*), 4); if(l) { for(size_t i = 0; i < n; i++) { void *p = malloc(3); if(!sblist_add(l, &p)) free(p); } sblist_free_values(l); sblist_free(l); } }
#endif
	REACH("end");
}
