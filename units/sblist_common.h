#ifndef S
#define S 8
#endif
#define NOINLINE
static size_t g_cnt, g_capa;
#ifdef VC_CBMC
/* any valid list of items of S bytes */
static sblist *h_list(void) {
	sblist *l = vc_alloc(sizeof *l);
	l->itemsize = S;
#ifdef VC_PROOF
	l->capa = nd_range(0, (1u << 28) - 1); l->count = nd_range(0, l->capa); l->blockitems = nd_range(0, (1u << 20) - 1);
#else
	l->capa = nd_range(0, 3); l->count = nd_range(0, l->capa); l->blockitems = nd_range(0, 2);
#endif
	l->items = l->capa ? vc_alloc(l->capa * S) : NULL;
#ifndef VC_PROOF
	for(size_t i = 0; i < l->capa * S; i++) l->items[i] = nd_u8();
#endif
	g_cnt = l->count; g_capa = l->capa;
	return l;
}
/* representation invariant */
static int h_valid(sblist *l) {
	return l->itemsize == S && l->count <= l->capa && (l->capa == 0 ? l->items == NULL :
		__CPROVER_POINTER_OFFSET(l->items) == 0 && __CPROVER_OBJECT_SIZE(l->items) == l->capa * S);
}
#else
/* random history on the real list against a plain array */
static void native_sblist(void) {
	size_t n = 0, s = nd_range(1, 9), steps = nd_range(1, 24); if(nd_u8() == 1) s = 5000;
	unsigned char *ref = malloc(64 * s), *it = malloc(s);
	sblist *l; oom_failed = 0;
	if(nd_bool()) { n = nd_range(0, 4); unsigned char *d = malloc(n * s + 1); for(size_t i = 0; i < n * s; i++) d[i] = ref[i] = nd_u8(); l = sblist_new_from_data(s, d, n * s); if(!l) { CHECK(oom_failed, "out of memory only"); return; } }
	else { l = sblist_new(s, nd_range(0, 3)); if(!l) { CHECK(oom_failed, "out of memory only"); return; } }
	CHECK(sblist_getsize(l) == n, "initial size");
	while(steps--) {
		int op = nd_range(0, 6); size_t pos = nd_range(0, n + 2), r; void *p;
		for(size_t i = 0; i < s; i++) it[i] = i < 8 ? nd_u8() : i;
		oom_failed = 0;
		switch(op) {
			case 0: case 1: r = op ? sblist_addi(l, it) : (size_t) sblist_add(l, it);
				if(oom_failed) CHECK(r == (op ? (size_t) -1 : 0), "add reports failure");
				else { CHECK(r == (op ? n : 1), "add reports success"); memcpy(ref + n * s, it, s); n++; } break;
			case 2: r = sblist_insert(l, it, pos);
				if(oom_failed || pos > n) CHECK(!r, "insert reports failure");
				else { CHECK(r == 1, "insert reports success"); memmove(ref + (pos + 1) * s, ref + pos * s, (n - pos) * s); memcpy(ref + pos * s, it, s); n++; } break;
			case 3: r = sblist_set(l, it, pos); CHECK(r == (pos < n), "set reports"); if(pos < n) memcpy(ref + pos * s, it, s); break;
			case 4: sblist_delete(l, pos); if(pos < n) { memmove(ref + pos * s, ref + (pos + 1) * s, (n - pos - 1) * s); n--; } break;
			case 5: p = sblist_pop(l); if(n) { n--; CHECK(p && !memcmp(p, ref + n * s, s), "pop returns the last item"); } else CHECK(!p, "nothing to pop"); break;
			case 6: p = sblist_get(l, pos); if(pos < n) CHECK(p && !memcmp(p, ref + pos * s, s), "get returns the item"); else CHECK(!p, "nothing there"); break;
		}
		CHECK(sblist_getsize(l) == n, "size");
		for(size_t i = 0; i < n; i++) { p = sblist_get(l, i); CHECK(p && !memcmp(p, ref + i * s, s), "sequence"); }
		if(n > 60) break;
	}
	sblist_free(l); free(ref); free(it);
}
#endif
