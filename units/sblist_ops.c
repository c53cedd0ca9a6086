/*@unit
property = "P12"
functions = ["sblist_add", "sblist_addi", "sblist_insert", "sblist_set", "sblist_get", "sblist_delete", "sblist_pop", "sblist_grow_if_needed", "sblist_item_from_index"]
lemma = "from every valid list (any count, capacity, block size, contents) each operation yields exactly the sequence it denotes, keeps the representation invariant, and on failure (memory out, position outside) leaves the sequence unchanged; item sizes as listed in the cases"
cases = ["-DS=1 -DOP=0", "-DS=1 -DOP=1", "-DS=1 -DOP=2", "-DS=1 -DOP=3", "-DS=1 -DOP=4", "-DS=1 -DOP=5", "-DS=1 -DOP=6", "-DS=8 -DOP=0", "-DS=8 -DOP=2", "-DS=8 -DOP=3", "-DS=8 -DOP=4", "-DS=8 -DOP=5", "-DS=8 -DOP=6", "-DS=12 -DOP=0"]
thorough_cases = ["-DS=12 -DOP=2", "-DS=12 -DOP=5", "-DS=3 -DOP=2", "-DS=3 -DOP=0", "-DS=4 -DOP=2", "-DS=4 -DOP=4", "-DS=16 -DOP=0", "-DS=16 -DOP=2", "-DS=16 -DOP=4", "-DS=32 -DOP=2", "-DS=32 -DOP=4", "-DS=24 -DOP=2"]
bcases = ["-DS=3 -DOP=2", "-DS=3 -DOP=4"]
timeout = 400
unwind = 1
fuzzlen = 400
bunwind = 20
assume = ["sblist: fewer than 2^28 items; byte sizes do not overflow"]
stubs = ["malloc, realloc, free (libc): fresh object, contents kept, or NULL with nothing changed", "memmove (libc), contract stated at the witness byte", "memcpy (libc)"]
*/
#include "vc.h"
#define MW_N 2
#include "memw.h"
#ifdef VC_PROOF
#define OOM_COPY mw_keep
#endif
#include "oom.h"
#ifdef VC_PROOF
#define memmove stub_memmove
#endif
#include "src/sblist/sblist.c"
#include "src/sblist/sblist_addi.c"
#include "src/sblist/sblist_insert.c"
#include "src/sblist/sblist_delete.c"
#include "src/sblist/sblist_pop.c"
#include "src/sblist/sblist_new_from_data.c"
#include "oom_end.h"
#undef memmove
#include "sblist_common.h"
#ifndef OP
#define OP 0
#endif
void harness(void) {
	VC_INIT(); OOM_INIT();
#ifdef VC_CBMC
	sblist *l = h_list(); unsigned char *it = vc_mem(S); size_t n = l->count, pos = nd_range(0, 1u << 29);
	/* witness: byte b of item q of the resulting sequence */
	size_t q = nd_range(0, 1u << 29), b = nd_range(0, S - 1), nn = n; int ok = 1; size_t src = q; int isnew = 0;
	unsigned char old = 0, ib = it[b];
	if(OP == 0 || OP == 1) { nn = n + 1; isnew = q == n; }
	if(OP == 2) { ok = pos <= n; if(ok) { nn = n + 1; isnew = q == pos; if(q > pos) src = q - 1; } }
	if(OP == 3) { ok = pos < n; isnew = ok && q == pos; }
	if(OP == 4) { ok = pos < n; if(ok) { nn = n - 1; if(q >= pos) src = q + 1; } }
	if(OP == 5) { ok = n > 0; if(ok) nn = n - 1; }
	unsigned char keep = 0, last = 0;
	ASSUME(q < nn || q < n);
#ifdef VC_PROOF
	mw_off[0] = q * S + b; mw_off[1] = src * S + b;
#endif
	if(src < n) old = l->items[src * S + b];
	if(q < n) keep = l->items[q * S + b];
	if(n) last = l->items[(n - 1) * S + b];
	size_t r = 0; void *p = NULL;
	if(OP == 0) r = sblist_add(l, it);
	if(OP == 1) r = sblist_addi(l, it);
	if(OP == 2) r = sblist_insert(l, it, pos);
	if(OP == 3) r = sblist_set(l, it, pos);
	if(OP == 4) { sblist_delete(l, pos); r = 1; }
	if(OP == 5) p = sblist_pop(l);
	if(OP == 6) p = sblist_get(l, pos);
	CHECK(h_valid(l), "representation invariant");
	if(OP == 5) { CHECK((p != NULL) == ok, "pops exactly when there is an item"); if(p) CHECK(((unsigned char*) p)[b] == last, "returns the last item"); r = ok; }
	if(OP == 6) { CHECK((p != NULL) == (pos < n), "an item exactly when the position is inside"); if(p) CHECK(p == l->items + pos * S, "pointer to the item"); r = 1; ok = 1; }
	int done = OP == 1 ? r != (size_t) -1 : r != 0;
	if(OP != 4) CHECK(done == (ok && !oom_failed), "reports success exactly when it succeeded");
	if(OP == 1 && done) CHECK(r == n, "returns the index");
	if(done && ok) {
		CHECK(l->count == nn, "number of items");
		if(q < nn) CHECK((unsigned char) l->items[q * S + b] == (isnew ? ib : OP == 6 ? keep : old), "item of the denoted sequence");
	} else {
		CHECK(l->count == n, "unchanged on failure");
		if(q < n) CHECK((unsigned char) l->items[q * S + b] == keep, "unchanged on failure");
	}
	CHECK(it[b] == ib, "the item argument is not modified");
#else
	native_sblist();
#endif
	REACH("end");
}
