/* native: the real lists on small alphabets against a reference splitter */
#ifndef SL_NATIVE_H
#define SL_NATIVE_H
#define malloc stub_malloc
#define calloc stub_calloc
#define realloc stub_realloc
#define free stub_free
#include "src/sblist/sblist.c"
#include "src/sblist/sblist_delete.c"
#include "src/stringptr/stringptr_new.c"
#include "src/stringptr/stringptr_here.c"
#include "src/stringptr/stringptr_eq.c"
#include "src/stringptr/stringptr_strdup.c"
#include "oom_end.h"
#ifndef NO_SPLIT
stringptrlist* stringptr_splitc(stringptr* buf, int delim);
stringptrlist* stringptr_splits(stringptr* buf, stringptr* delim);
static void native_text(stringptr *s, size_t max) {
	s->size = nd_range(0, max); s->ptr = malloc(s->size + 1);
	for(size_t i = 0; i < s->size; i++) s->ptr[i] = "abca"[nd_u8() & 3];
	s->ptr[s->size] = 7;
}
static void native_split(int chr) {
	stringptr s, d, c; native_text(&s, 30); do native_text(&d, 3); while(0); if(!d.size) { d.ptr[0] = 'a'; d.ptr = realloc(d.ptr, 2); d.ptr[1] = 0; d.size = 1; }
	OOM_INIT(); if(chr) d.size = 1;
	char *o = malloc(s.size + 1), *cut = calloc(s.size + 1, 1); memcpy(o, s.ptr, s.size); c = s;
#ifdef SPLIT_FN
	stringptrlist *l = SPLIT_FN(&s, &d);
#else
	stringptrlist *l = chr ? stringptr_splitc(&s, d.ptr[0]) : stringptr_splits(&s, &d);
#endif
	CHECK(s.ptr == c.ptr && s.size == c.size, "the text stays in place");
	if(!l) { CHECK(oom_failed && oom_live == 0, "fails exactly when memory is out"); free(o); free(cut); free(s.ptr); free(d.ptr); return; }
	CHECK(!oom_failed, "fails exactly when memory is out");
	size_t st = 0, i = 0, n = 0;
	for(;;) {
		if(i == s.size || (d.size <= s.size - i && !memcmp(o + i, d.ptr, d.size))) {
			stringptr *p = stringptrlist_get(l, n); CHECK(p && p->ptr == s.ptr + st && p->size == i - st, "the pieces between the delimiters"); n++;
			if(i == s.size) break;
			cut[i] = 1; i += d.size; st = i;
		} else i++;
	}
	CHECK(stringptrlist_getsize(l) == n, "no more pieces");
	for(i = 0; i < s.size; i++) CHECK(s.ptr[i] == (cut[i] ? 0 : o[i]), "only delimiters are cut");
	CHECK(s.ptr[s.size] == 0, "terminated");
	sblist_free(l); CHECK(oom_live == 0, "all released"); free(o); free(cut); free(s.ptr); free(d.ptr);
}
#endif
#endif
