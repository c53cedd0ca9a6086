From 80f3d9cefc60ccf21c008b6682dbccd56adc04c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:18 +0000
Subject: [PATCH 01/36] fix: utoa: numbers above INT_MAX were mis-sized and
 written before the buffer

---
 src/strlib/utoa.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/strlib/utoa.c b/src/strlib/utoa.c
index 036984d..a1b1f91 100644
--- a/src/strlib/utoa.c
+++ b/src/strlib/utoa.c
@@ -9,7 +9,8 @@
   because it was written for agscc originally. */
 
 char *utoa(unsigned number, char* buffer) {
-	int lentest, len = 0, i, start = 0;
+	unsigned lentest;
+	int len = 0, i, start = 0;
 
 	lentest = number;
 	do {
-- 
2.43.0


From de10dd7a30c84a64f4f259215ce2186101e7bd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:18 +0000
Subject: [PATCH 02/36] fix: itoa: INT_MIN was converted to garbage (signed
 overflow)

---
 src/strlib/itoa.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/strlib/itoa.c b/src/strlib/itoa.c
index 45e2014..245a2f1 100644
--- a/src/strlib/itoa.c
+++ b/src/strlib/itoa.c
@@ -9,28 +9,29 @@
   because it was written for agscc originally. */
 
 char *itoa(int number, char* buffer) {
-	int lentest, len = 0, i, start;
+	int len = 0, i, start;
+	unsigned lentest, n = number;
 
-	if(number >> 31) {
-		number = number * -1;
+	if(number < 0) {
+		n = 0U - n;
 		buffer[0] = '-';
 		start = 1;
 	} else
 		start = 0;
 
-	lentest = number;
+	lentest = n;
 	do {
 		len++;
 		lentest /= 10;
 	} while(lentest);
 	buffer[start+len] = 0;
 	do {
-		i = number % 10;
+		i = n % 10;
 		buffer[start+len - 1] = '0' + i;
-		number -= i;
+		n -= i;
 		len -= 1;
-		number /= 10;
-	} while (number);
+		n /= 10;
+	} while (n);
 	return buffer;
 }
 
-- 
2.43.0


From eebb24088927b0b51912e3ca08ec66cafe40b69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:18 +0000
Subject: [PATCH 03/36] fix: numberToString: padding flag test had the wrong
 precedence

---
 src/strlib/numberToString.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/strlib/numberToString.c b/src/strlib/numberToString.c
index a8e6689..0020f75 100644
--- a/src/strlib/numberToString.c
+++ b/src/strlib/numberToString.c
@@ -37,7 +37,7 @@ char* numberToString(uint64_t number, unsigned base, char* buffer, size_t maxlen
 	for(i = 0; i < len; i++) result[i] = '0';
 	result[len] = 0;
 	if(!number) {
-		if(!flags & NTS_PAD) result += len - 1;
+		if(!(flags & NTS_PAD)) result += len - 1;
 		return result;
 	}
 
@@ -52,7 +52,7 @@ char* numberToString(uint64_t number, unsigned base, char* buffer, size_t maxlen
 		len -= 1;
 		number /= base;
 	}
-	if (!flags & NTS_PAD) {
+	if (!(flags & NTS_PAD)) {
 		for (i = 0; i < tmp; i++) {
 			if (result[i] == '0') shr ++;
 			else break;
-- 
2.43.0


From 7b3debf39868f0d5fa16b88d85e8e8ba2c52d074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:18 +0000
Subject: [PATCH 04/36] fix: numberToString: base 0 divided by zero

---
 src/strlib/numberToString.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/strlib/numberToString.c b/src/strlib/numberToString.c
index 0020f75..15ba570 100644
--- a/src/strlib/numberToString.c
+++ b/src/strlib/numberToString.c
@@ -16,7 +16,7 @@ char* numberToString(uint64_t number, unsigned base, char* buffer, size_t maxlen
 	size_t tmp, len = 0, i;
 	int shr = 0;
 	
-	if(base % 2 || base > conv_cypher_len) return NULL;
+	if(!base || base % 2 || base > conv_cypher_len) return NULL;
 	
 	int hasSign = (flags & NTS_SIGNED_TYPE) && number >> 63 == 1;
 	if(hasSign) number = ~number + 1;
-- 
2.43.0


From 0437ec62cfdaae25ad16a6f41a28687415b56f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:18 +0000
Subject: [PATCH 05/36] fix: strstar: matches overlapping a failed partial
 match were missed

---
 src/strlib/strstar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/strlib/strstar.c b/src/strlib/strstar.c
index 6b5165d..dfda983 100644
--- a/src/strlib/strstar.c
+++ b/src/strlib/strstar.c
@@ -13,7 +13,7 @@ char* strstar(const char* haystack, const char* needle, size_t needlesize) {
 		}
 		return save;
 		next:
-		haystack++;
+		haystack = save + 1;
 	}
 	return NULL;
 }
-- 
2.43.0


From 387781330ba12fd42f37080bedfcce14fc634188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:18 +0000
Subject: [PATCH 06/36] fix: strstr_uc: matches overlapping a failed partial
 match were missed

---
 src/strlib/strstr_uc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/strlib/strstr_uc.c b/src/strlib/strstr_uc.c
index 37e2d76..667fb48 100644
--- a/src/strlib/strstr_uc.c
+++ b/src/strlib/strstr_uc.c
@@ -18,7 +18,7 @@ char* strstr_uc(char* haystack, char* needle, size_t needlesize) {
 		}
 		return save;
 		next:
-		haystack++;
+		haystack = save + 1;
 	}
 	return NULL;
 }
-- 
2.43.0


From e08b82cc5c02bed04e94cdece027fa0ea5eca73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:18 +0000
Subject: [PATCH 07/36] fix: strdup_n: copy of a substring was not terminated
 and read past len

---
 src/strlib/strdup_n.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/strlib/strdup_n.c b/src/strlib/strdup_n.c
index 5aa6e96..058f84a 100644
--- a/src/strlib/strdup_n.c
+++ b/src/strlib/strdup_n.c
@@ -5,8 +5,10 @@
 char* strdup_n(char* str, size_t len) {
 	if (!str || !len) return NULL;
 	char * res;
-	if((res = malloc(len + 1)))
-		memcpy(res, str, len + 1);
+	if((res = malloc(len + 1))) {
+		memcpy(res, str, len);
+		res[len] = 0;
+	}
 	return res;
 }
 
-- 
2.43.0


From 9d206fa93bf2e70d21fdb2991f4722d7cfd541ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:18 +0000
Subject: [PATCH 08/36] fix: isnumericipv4: accepted a trailing dot with an
 empty last number

---
 src/strlib/isnumericipv4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/strlib/isnumericipv4.c b/src/strlib/isnumericipv4.c
index c6280d4..4912160 100644
--- a/src/strlib/isnumericipv4.c
+++ b/src/strlib/isnumericipv4.c
@@ -22,7 +22,7 @@ int isnumericipv4(const char* ipstring) {
 		x++;
 	}
 	done:
-	if(d == 3 && n >= 4 && n <= 12) return 1;
+	if(!wasdot && d == 3 && n >= 4 && n <= 12) return 1;
 	return 0;
 }
 
-- 
2.43.0


From d3471bc40d2c7293a3529ed721f63cfbf4597c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:27 +0000
Subject: [PATCH 09/36] fix: findword: a match right after a rejected one
 counted as the start of the text

---
 src/strlib/findword.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/strlib/findword.c b/src/strlib/findword.c
index 00e0806..c68d207 100644
--- a/src/strlib/findword.c
+++ b/src/strlib/findword.c
@@ -21,9 +21,9 @@ static inline int isTrailingWhitespace(char c) {
 }
 
 char* findword(char* buf, char* word_uc, size_t word_len) {
-	char* res = buf;
+	char* res = buf, *start = buf;
 	while(*res && (res = strstr_uc(buf, word_uc, word_len))) {
-		if((res == buf || isLeadingWhitespace(res[-1])) &&
+		if((res == start || isLeadingWhitespace(res[-1])) &&
 		   (res[word_len] == 0 || isTrailingWhitespace(res[word_len])))
 			return res;
 		else buf = res + 1;
-- 
2.43.0


From 66a43100208cfff17495548cd2b442c0a40cb316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:49 +0000
Subject: [PATCH 10/36] fix: sblist_grow_if_needed: block size 0 (from data, or
 items above 4KB) never grew and the next item overflowed the heap

---
 src/sblist/sblist.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sblist/sblist.c b/src/sblist/sblist.c
index 4e1860f..4bc7650 100644
--- a/src/sblist/sblist.c
+++ b/src/sblist/sblist.c
@@ -57,10 +57,14 @@ int sblist_set(sblist* l, void* item, size_t pos) {
 
 int sblist_grow_if_needed(sblist* l) {
 	char* temp;
+	size_t add;
 	if(l->count == l->capa) {
-		temp = realloc(l->items, (l->capa + l->blockitems) * l->itemsize);
+		/* 0 means one page, but at least one item */
+		add = l->blockitems ? l->blockitems : MY_PAGE_SIZE / l->itemsize;
+		if(!add) add = 1;
+		temp = realloc(l->items, (l->capa + add) * l->itemsize);
 		if(!temp) return 0;
-		l->capa += l->blockitems;
+		l->capa += add;
 		l->items = temp;
 	}
 	return 1;
-- 
2.43.0


From 7c161daf26ddbbcb7b94c03bd93e74ae2c7fe834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:49 +0000
Subject: [PATCH 11/36] fix: sblist_insert: a position past the end moved
 memory outside the list

---
 src/sblist/sblist_insert.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sblist/sblist_insert.c b/src/sblist/sblist_insert.c
index 12fa07a..1a38d26 100644
--- a/src/sblist/sblist_insert.c
+++ b/src/sblist/sblist_insert.c
@@ -2,6 +2,7 @@
 #include <string.h>
 
 int sblist_insert(sblist* l, void* item, size_t pos) {
+	if(pos > sblist_getsize(l)) return 0;
 	if(!sblist_grow_if_needed(l)) return 0;
 	memmove(sblist_item_from_index(l, pos + 1), sblist_item_from_index(l, pos), (sblist_getsize(l) - pos) * l->itemsize);
 	l->count++;
-- 
2.43.0


From e1931dc2c19cb0e5321046468274116d21c015d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:22 +0000
Subject: [PATCH 12/36] fix: sblist_free_values: freed the list's own slots
 instead of the stored pointers

---
 src/sblist/sblist_free_values.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sblist/sblist_free_values.c b/src/sblist/sblist_free_values.c
index 6b07e37..dda388d 100644
--- a/src/sblist/sblist_free_values.c
+++ b/src/sblist/sblist_free_values.c
@@ -4,5 +4,5 @@
 void sblist_free_values(sblist *l) {
 	size_t i;
 	for(i=0; i<sblist_getsize(l); i++)
-		free(sblist_get(l, i));
+		free(*(void**) sblist_get(l, i));
 }
-- 
2.43.0


From 60ccf4ccad9365a96f574a040dff4baddc47ebfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:42 +0000
Subject: [PATCH 13/36] fix: tlist_get: an index past the end returned a bogus
 pointer (or, above UINT_MAX, another item)

---
 src/tlist/tlist.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tlist/tlist.c b/src/tlist/tlist.c
index 1ac4c09..379c723 100644
--- a/src/tlist/tlist.c
+++ b/src/tlist/tlist.c
@@ -126,6 +126,7 @@ size_t tlist_getsize(struct tlist* t) {
 }
 
 void* tlist_get(struct tlist* t, size_t idx) {
+	if(idx >= cnt (t->root)) return 0;
 	return data(getitem(t->root, idx, 0));
 }
 
-- 
2.43.0


From 054574ebca6f18230199668688cd5b83c9f63782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:42 +0000
Subject: [PATCH 14/36] fix: tlist deep deletion: freed the inside of the node
 instead of the stored pointer

---
 src/tlist/tlist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tlist/tlist.c b/src/tlist/tlist.c
index 379c723..b8333fe 100644
--- a/src/tlist/tlist.c
+++ b/src/tlist/tlist.c
@@ -145,7 +145,7 @@ int tlist_append(struct tlist* t, void *value) {
 static int tlist_delete_impl(struct tlist *t, size_t idx, int deep) {
 	if(idx >= cnt (t->root)) return 0;
 	pitem it = getitem(t->root, idx, 0);
-	if(deep) free(data(it));
+	if(deep) free(*(void**) data(it));
 	remove(&t->root, idx, 0);
 	free(it);
 	return 1;
-- 
2.43.0


From 112aceff4b45bf09f14fd078e381d69bbc2467e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:33 +0000
Subject: [PATCH 15/36] fix: bmap_insert: reported success when memory for the
 value ran out

---
 include/bmap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bmap.h b/include/bmap.h
index 86da54a..c5abb59 100644
--- a/include/bmap.h
+++ b/include/bmap.h
@@ -137,7 +137,7 @@ static inline void* bmap_new(bmap_compare_func fn) {
 #define bmap_insert(X, KEY, VAL) ( \
 		( (X)->tmp.ss = bmap_find(X, KEY) ) \
 		== (ssize_t) -1 ? bmap_insert_nocheck(X, KEY, VAL) : \
-		bmap_cat(VAL_LIST_TYPE, _set)(&(X)->values, VAL, (X)->tmp.ss), (X)->tmp.ss \
+		(  bmap_cat(VAL_LIST_TYPE, _set)(&(X)->values, VAL, (X)->tmp.ss), (X)->tmp.ss  ) \
 	)
 
 #define bmap_delete(X, POS) ( \
-- 
2.43.0


From a98f8c27c2066cfdf75916b341f875e606da2fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:07 +0000
Subject: [PATCH 16/36] fix: hashlist_add: returned 1 instead of -1 when memory
 ran out

---
 src/hashlist/hashlist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashlist/hashlist.c b/src/hashlist/hashlist.c
index 1129353..990bc8c 100644
--- a/src/hashlist/hashlist.c
+++ b/src/hashlist/hashlist.c
@@ -21,7 +21,7 @@ int hashlist_add(hashlist* h, uint32_t hash, void* value) {
 		h->buckets[dstbkt] = sblist_new(h->datasize, 8);
 		if(!h->buckets[dstbkt]) return -1;
 	}
-	return !sblist_add(h->buckets[dstbkt], value);
+	return sblist_add(h->buckets[dstbkt], value) ? 0 : -1;
 }
 
 /* return a sblist containing all values matching the hash, or NULL if not found */
-- 
2.43.0


From 55ad448a602a14adc408bdaebb689c0ae14dd072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:07 +0000
Subject: [PATCH 17/36] fix: hashlist_next: iteration ended early at a bucket
 without items

---
 src/hashlist/hashlist_iterator.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hashlist/hashlist_iterator.c b/src/hashlist/hashlist_iterator.c
index 0edfa5f..bb7427c 100644
--- a/src/hashlist/hashlist_iterator.c
+++ b/src/hashlist/hashlist_iterator.c
@@ -20,8 +20,13 @@ void* hashlist_next(hashlist* h, hashlist_iterator* iter) {
 	if(iter->bucket_iter.pos >= (ssize_t) h->bucketcount) return NULL;
 	iter->pos++;
 	if(iter->bucket_iter.pos == -1 || (size_t) iter->pos >= sblist_getsize(h->buckets[iter->bucket_iter.pos])) {
+		sblist* bucket;
 		iter->pos = 0;
-		if(!hashlist_bucket_next(h, &iter->bucket_iter)) return NULL;
+		/* a bucket can be empty: its items were deleted, or an add failed */
+		do {
+			bucket = hashlist_bucket_next(h, &iter->bucket_iter);
+			if(!bucket) return NULL;
+		} while(sblist_empty(bucket));
 	}
 	return sblist_get(h->buckets[iter->bucket_iter.pos], iter->pos);
 }
-- 
2.43.0


From 792318d0fc2c93f7f9496a641874497b35c45c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:47 +0000
Subject: [PATCH 18/36] fix: stringptr_copy: wrote through NULL when memory ran
 out

---
 src/stringptr/stringptr_copy.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stringptr/stringptr_copy.c b/src/stringptr/stringptr_copy.c
index c019525..133d80c 100644
--- a/src/stringptr/stringptr_copy.c
+++ b/src/stringptr/stringptr_copy.c
@@ -4,6 +4,7 @@
 stringptr* stringptr_copy(stringptr* s) {
 	if(!s) return NULL;
 	stringptr* result = stringptr_new(s->size);
+	if(!result) return NULL;
 	memcpy(result->ptr, s->ptr, s->size);
 	return result;
 }
-- 
2.43.0


From c6b2ed8d55164bf6599181add5c92fdcc1ab8082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:47 +0000
Subject: [PATCH 19/36] fix: stringptr_here: a position past the end compared
 memory outside the string

---
 src/stringptr/stringptr_here.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stringptr/stringptr_here.c b/src/stringptr/stringptr_here.c
index 557bc7f..007adf3 100644
--- a/src/stringptr/stringptr_here.c
+++ b/src/stringptr/stringptr_here.c
@@ -2,7 +2,7 @@
 #include <string.h>
 
 int stringptr_here(stringptr* haystack, size_t bufpos, stringptr* needle) {
-	if(needle->size <= haystack->size - bufpos) {
+	if(bufpos <= haystack->size && needle->size <= haystack->size - bufpos) {
 		if(!memcmp(needle->ptr, haystack->ptr + bufpos, needle->size))
 			return 1;
 	}
-- 
2.43.0


From b15b8ab760aa5f2ced525490a100910d28ca7bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:46 +0000
Subject: [PATCH 20/36] fix: stringptr_splitc, stringptr_splits: pieces were
 dropped silently when memory ran out

---
 src/stringptrlist/stringptr_splitc.c | 5 ++++-
 src/stringptrlist/stringptr_splits.c | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/stringptrlist/stringptr_splitc.c b/src/stringptrlist/stringptr_splitc.c
index 1d1f2b8..60b413a 100644
--- a/src/stringptrlist/stringptr_splitc.c
+++ b/src/stringptrlist/stringptr_splitc.c
@@ -12,7 +12,10 @@ stringptrlist* stringptr_splitc(stringptr* buf, int delim) {
 
 	for(i=0;i<=buf->size;i++) {
 		if(i == buf->size || buf->ptr[i] == delim) {
-			stringptrlist_add(result, buf->ptr + linestart, i - linestart);
+			if(!stringptrlist_add(result, buf->ptr + linestart, i - linestart)) {
+				stringptrlist_free(result);
+				return NULL;
+			}
 			linestart = i+1;
 			buf->ptr[i] = 0;
 		}
diff --git a/src/stringptrlist/stringptr_splits.c b/src/stringptrlist/stringptr_splits.c
index 024bb1b..9015db8 100644
--- a/src/stringptrlist/stringptr_splits.c
+++ b/src/stringptrlist/stringptr_splits.c
@@ -13,7 +13,10 @@ stringptrlist* stringptr_splits(stringptr* buf, stringptr* delim) {
 	i = 0;
 	while(i<=buf->size) {
 		if(i == buf->size || stringptr_here(buf, i, delim)) {
-			stringptrlist_add(result, buf->ptr + linestart, i - linestart);
+			if(!stringptrlist_add(result, buf->ptr + linestart, i - linestart)) {
+				stringptrlist_free(result);
+				return NULL;
+			}
 			linestart = i + delim->size;
 			buf->ptr[i] = 0;
 			i += delim->size;
-- 
2.43.0


From 794306aa28139efb03562f19ca9707071f14363d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:46 +0000
Subject: [PATCH 21/36] fix: stringptr_replace: leaked the list of pieces

---
 src/stringptrlist/stringptr_replace.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/stringptrlist/stringptr_replace.c b/src/stringptrlist/stringptr_replace.c
index e72bc08..6cf48ea 100644
--- a/src/stringptrlist/stringptr_replace.c
+++ b/src/stringptrlist/stringptr_replace.c
@@ -7,7 +7,10 @@ stringptr* stringptr_replace(stringptr* buf, stringptr* what, stringptr* whit) {
 	size_t i, w;
 	if((l = stringptr_splits(buf, what))) {
 		result = stringptr_new(buf->size - ((stringptrlist_getsize(l) - 1) * what->size) + ((stringptrlist_getsize(l) - 1) * whit->size));
-		if(!result) return NULL;
+		if(!result) {
+			stringptrlist_free(l);
+			return NULL;
+		}
 		w = 0;
 		for(i = 0; i < stringptrlist_getsize(l); i++) {
 			if((temp = stringptrlist_get(l, i))) {
@@ -21,7 +24,7 @@ stringptr* stringptr_replace(stringptr* buf, stringptr* what, stringptr* whit) {
 				}
 			}
 		}
-		free(l);
+		stringptrlist_free(l);
 	}
 	return result;
 }
-- 
2.43.0


From ed3518c7b4068eccc622ac3a2663bc16f2e870e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:46 +0000
Subject: [PATCH 22/36] fix: stringptrlist_add_strdup: leaked the copy when the
 list could not grow

---
 src/stringptrlist/stringptrlist_add_strdup.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/stringptrlist/stringptrlist_add_strdup.c b/src/stringptrlist/stringptrlist_add_strdup.c
index 3fc57a7..9d358ec 100644
--- a/src/stringptrlist/stringptrlist_add_strdup.c
+++ b/src/stringptrlist/stringptrlist_add_strdup.c
@@ -3,5 +3,9 @@
 int stringptrlist_add_strdup(stringptrlist* l, stringptr* s) {
 	char* nu = stringptr_strdup(s);
 	if(!nu) return 0;
-	return stringptrlist_add(l, nu, stringptr_getsize(s));
+	if(!stringptrlist_add(l, nu, stringptr_getsize(s))) {
+		free(nu);
+		return 0;
+	}
+	return 1;
 }
-- 
2.43.0


From a36ae6a325671084d234fb107811fed5d4e66858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:20 +0000
Subject: [PATCH 23/36] fix: ulz_vsnprintf: a precision was misread, cut
 numbers off and overflowed a local buffer

---
 src/format/ulz_vsnprintf.c | 49 ++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 26 deletions(-)

diff --git a/src/format/ulz_vsnprintf.c b/src/format/ulz_vsnprintf.c
index 0c34258..8d6eb18 100644
--- a/src/format/ulz_vsnprintf.c
+++ b/src/format/ulz_vsnprintf.c
@@ -2,6 +2,9 @@
 #include "../../include/strlib.h"
 #include "../../include/format.h"
 
+// appends one character if there is room for it
+#define PUT(C) { if(!o) res++; else if(o < omax) { *o = (C); o++; res++; } }
+
 // lightweight sprintf replacement. supports width via %.2x and all int types, and %s, and %% for an escaped %
 // returns the number of bytes written to the target. should behave exactly as posix sprintf except %x also returns hex decimals in uppercase.
 // destsize is treated like in the original. it will leave space for a trailing 0,
@@ -17,33 +20,28 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 	unsigned int base = 10;
 	for(a = (char*)format; *a; a++) {
 		if(*a == '%') {
-			checkmod:
+			width = 0;
 			++a;
+			if(*a == '.') {
+				i = 0;
+				a++;
+				while(isNumber(a + i)) i++;
+				if(!i) {
+					fail:
+					return -1;
+				}
+				for(j = 0; j < i; j++) width = width * 10 + (a[j] - '0');
+				a += i;
+			}
 			switch(*a) {
 				case '%':
 					goto inschar;
-				case '.':
-					i = 0;
-					a++;
-					while(isNumber(a + i)) i++;
-					if(!i) {
-						fail:
-						return -1;
-					}
-					width = 0;
-					for(j = 0; j < i; j++) width += (a[j] - '0') * (j ? (10 * (i - 1 - j)) : 1);
-					a += i - 1;
-					goto checkmod;
 				case 's':
 					ins = va_arg(ap, char*);
 					strmove:
 					if(!ins) goto fail;
 					while(*ins) {
-						if(o < omax) {
-							*o = *ins;
-							o++;
-							res++;
-						} else if (!o) res++;
+						PUT(*ins);
 						ins++;
 					}
 					break;
@@ -57,10 +55,13 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 					intstart:
 					inn = va_arg(ap, int);
 					nconv:
-					if(width) nflags |= NTS_PAD;
-					ins = numberToString(inn, base, cbuf, width, nflags);
-					width = 0;
+					ins = numberToString(inn, base, cbuf, 0, nflags);
 					base = 10;
+					if(*ins == '-') {
+						PUT('-');
+						ins++;
+					}
+					for(i = strlen(ins); i < width; i++) PUT('0');
 					goto strmove;
 					break;
 				case 'l': case 'z':
@@ -99,11 +100,7 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 			}
 		} else {
 			inschar:
-			if(o < omax) {
-				*o = *a;
-				o++;
-				res++;
-			} else if(!o) res++;
+			PUT(*a);
 		}
 	}
 	if(o) o[0] = 0;
-- 
2.43.0


From 242d751f25fa0ba992bebeca69820aaec08894d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:42 +0000
Subject: [PATCH 24/36] fix: ulz_vsnprintf: %x and %X sign-extended their
 argument to 64 bits

---
 src/format/ulz_vsnprintf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/format/ulz_vsnprintf.c b/src/format/ulz_vsnprintf.c
index 8d6eb18..012e764 100644
--- a/src/format/ulz_vsnprintf.c
+++ b/src/format/ulz_vsnprintf.c
@@ -52,7 +52,6 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 					goto strmove;
 				case 'd':
 					nflags = NTS_SIGNED_TYPE;
-					intstart:
 					inn = va_arg(ap, int);
 					nconv:
 					ins = numberToString(inn, base, cbuf, 0, nflags);
@@ -94,7 +93,8 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 				case 'x': case 'X':
 					base = 16;
 					nflags = (*a == 'x') ? NTS_LOWERCASE_CHARS : 0;
-					goto intstart;
+					inn = va_arg(ap, unsigned);
+					goto nconv;
 				default:
 					goto fail;
 			}
-- 
2.43.0


From 7798b365f8f00fdcbf58a2e7f6cdab47d083a0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:06 +0000
Subject: [PATCH 25/36] fix: ulz_vsnprintf: wrote a terminator into a buffer of
 size 0

---
 src/format/ulz_vsnprintf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/format/ulz_vsnprintf.c b/src/format/ulz_vsnprintf.c
index 012e764..f60335a 100644
--- a/src/format/ulz_vsnprintf.c
+++ b/src/format/ulz_vsnprintf.c
@@ -10,7 +10,7 @@
 // destsize is treated like in the original. it will leave space for a trailing 0,
 // if NULL is passed as dest it will return the number of bytes it would haven written if a sufficiently large buffer was provided.
 ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list ap) {
-	char *ins, *a, *o = dest, *omax = dest ? dest + destsize - 1: NULL;
+	char *ins, *a, *o = dest, *omax = dest && destsize ? dest + destsize - 1: dest;
 	char cbuf[32];
 	uint64_t inn;
 	size_t i,j, width = 0;
@@ -103,6 +103,6 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 			PUT(*a);
 		}
 	}
-	if(o) o[0] = 0;
+	if(o && destsize) o[0] = 0;
 	return res;
 }
-- 
2.43.0


From 86d2394bb838c71dc81eeb81bb1b299b2650e069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:51 +0000
Subject: [PATCH 26/36] fix: ulz_vsnprintf: %c of the NUL character printed
 nothing

---
 src/format/ulz_vsnprintf.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/format/ulz_vsnprintf.c b/src/format/ulz_vsnprintf.c
index f60335a..b1cd942 100644
--- a/src/format/ulz_vsnprintf.c
+++ b/src/format/ulz_vsnprintf.c
@@ -46,10 +46,9 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 					}
 					break;
 				case 'c':
-					cbuf[0] = (unsigned char) va_arg(ap, int);
-					cbuf[1] = 0;
-					ins = cbuf;
-					goto strmove;
+					inn = va_arg(ap, int);
+					PUT((char) inn);
+					break;
 				case 'd':
 					nflags = NTS_SIGNED_TYPE;
 					inn = va_arg(ap, int);
-- 
2.43.0


From 9d30ef0c206d2276a034015452946ef31d3be8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:10 +0000
Subject: [PATCH 27/36] fix: ulz_vsnprintf: the precision of %s was ignored, as
 was a precision of 0

---
 src/format/ulz_vsnprintf.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/format/ulz_vsnprintf.c b/src/format/ulz_vsnprintf.c
index b1cd942..d99bc3c 100644
--- a/src/format/ulz_vsnprintf.c
+++ b/src/format/ulz_vsnprintf.c
@@ -3,6 +3,7 @@
 #include "../../include/format.h"
 
 // appends one character if there is room for it
+#define NO_WIDTH ((size_t) -1)
 #define PUT(C) { if(!o) res++; else if(o < omax) { *o = (C); o++; res++; } }
 
 // lightweight sprintf replacement. supports width via %.2x and all int types, and %s, and %% for an escaped %
@@ -20,7 +21,7 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 	unsigned int base = 10;
 	for(a = (char*)format; *a; a++) {
 		if(*a == '%') {
-			width = 0;
+			width = NO_WIDTH;
 			++a;
 			if(*a == '.') {
 				i = 0;
@@ -30,6 +31,7 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 					fail:
 					return -1;
 				}
+				width = 0;
 				for(j = 0; j < i; j++) width = width * 10 + (a[j] - '0');
 				a += i;
 			}
@@ -38,12 +40,9 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 					goto inschar;
 				case 's':
 					ins = va_arg(ap, char*);
-					strmove:
 					if(!ins) goto fail;
-					while(*ins) {
-						PUT(*ins);
-						ins++;
-					}
+					strmove:
+					for(i = 0; i < width && ins[i]; i++) PUT(ins[i]);
 					break;
 				case 'c':
 					inn = va_arg(ap, int);
@@ -55,11 +54,13 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 					nconv:
 					ins = numberToString(inn, base, cbuf, 0, nflags);
 					base = 10;
+					if(!width && !inn) break;
 					if(*ins == '-') {
 						PUT('-');
 						ins++;
 					}
-					for(i = strlen(ins); i < width; i++) PUT('0');
+					if(width != NO_WIDTH) for(i = strlen(ins); i < width; i++) PUT('0');
+					width = NO_WIDTH;
 					goto strmove;
 					break;
 				case 'l': case 'z':
-- 
2.43.0


From 31965ceea4bc1ff0d712b0541550cf7b5333eacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:31 +0000
Subject: [PATCH 28/36] fix: ulz_printf, ulz_fprintf: a failed conversion wrote
 the whole address space's size

---
 src/format/ulz_fprintf.c | 2 +-
 src/format/ulz_printf.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/format/ulz_fprintf.c b/src/format/ulz_fprintf.c
index ae605f7..708e68e 100644
--- a/src/format/ulz_fprintf.c
+++ b/src/format/ulz_fprintf.c
@@ -9,7 +9,7 @@ void ulz_fprintf(int fd, const char* fmt, ...) {
 	va_start(ap, fmt);
 	ssize_t result = ulz_vsnprintf(dest, sizeof(dest), fmt, ap);
 	va_end(ap);
-	if(result) {
+	if(result > 0) {
 		write(fd, dest, result);
 	}
 }
diff --git a/src/format/ulz_printf.c b/src/format/ulz_printf.c
index bc3f342..0b1c5dd 100644
--- a/src/format/ulz_printf.c
+++ b/src/format/ulz_printf.c
@@ -9,7 +9,7 @@ void ulz_printf(const char* fmt, ...) {
 	va_start(ap, fmt);
 	ssize_t result = ulz_vsnprintf(dest, sizeof(dest), fmt, ap);
 	va_end(ap);
-	if(result) {
+	if(result > 0) {
 		write(1, dest, result);
 	}
 }
-- 
2.43.0


From 9a87ee3c5b65213199bc8e8fbaf09bd652f30946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:53 +0000
Subject: [PATCH 29/36] fix: guard_alloc: a page leaked for every size that is
 a multiple of the page size

---
 include/guard_alloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/guard_alloc.c b/include/guard_alloc.c
index 49c91d8..95c2845 100644
--- a/include/guard_alloc.c
+++ b/include/guard_alloc.c
@@ -13,7 +13,7 @@
 static const size_t guard_alloc_pagesize = PAGE_SIZE;
 
 static void *guard_alloc(size_t n) {
-	size_t ps = guard_alloc_pagesize, pages = 1+n/ps;
+	size_t ps = guard_alloc_pagesize, pages = n/ps + !!(n%ps);
 	char *mem = mmap(0, (pages+1)*ps, PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
 	if(mem == MAP_FAILED) return 0;
 	if(mprotect(mem + pages*ps, ps, PROT_NONE)) {
-- 
2.43.0


From 50a7bc454caa1fa346e8b4867b672b81323593c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:32 +0000
Subject: [PATCH 30/36] fix: guard_alloc: a size near SIZE_MAX overflowed and
 gave a pointer into another mapping

---
 include/guard_alloc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/guard_alloc.c b/include/guard_alloc.c
index 95c2845..e36a5a1 100644
--- a/include/guard_alloc.c
+++ b/include/guard_alloc.c
@@ -14,6 +14,7 @@ static const size_t guard_alloc_pagesize = PAGE_SIZE;
 
 static void *guard_alloc(size_t n) {
 	size_t ps = guard_alloc_pagesize, pages = n/ps + !!(n%ps);
+	if(pages > SIZE_MAX/ps - 1) return 0;
 	char *mem = mmap(0, (pages+1)*ps, PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
 	if(mem == MAP_FAILED) return 0;
 	if(mprotect(mem + pages*ps, ps, PROT_NONE)) {
-- 
2.43.0


From 6ffdbede8a369135443d52f817d2fb5e3509c1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:54 +0000
Subject: [PATCH 31/36] fix: process_open: destroyed file actions that could
 not be initialised

---
 src/proclib/process.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proclib/process.c b/src/proclib/process.c
index e471ea9..fee8661 100644
--- a/src/proclib/process.c
+++ b/src/proclib/process.c
@@ -9,7 +9,7 @@ int process_open(struct process *p, char* const argv[]) {
 	int pipes[3][2] = {0}, i,j;
 
 	errno = posix_spawn_file_actions_init(&p->fa);
-	if(errno) goto spawn_error;
+	if(errno) return -1;
 
 	for(i=0; i<3; ++i) {
 		errno = posix_spawn_file_actions_addclose(&p->fa, i);
-- 
2.43.0


From 59f50794bb18a9a0027c757b26cb4f4b99cc1ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:34 +0000
Subject: [PATCH 32/36] fix: a line is read whole when a read gives less than
 asked for

---
 src/fileparser/fileparser_readline_userbuf.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/fileparser/fileparser_readline_userbuf.c b/src/fileparser/fileparser_readline_userbuf.c
index 9596076..221427f 100644
--- a/src/fileparser/fileparser_readline_userbuf.c
+++ b/src/fileparser/fileparser_readline_userbuf.c
@@ -5,9 +5,12 @@ int fileparser_readline_userbuf(fileparser* parser, char* buf, size_t bufsize) {
 	size_t found = 0;
 	ssize_t ret;
 	if(!parser || !parser->file) return -1;
-	if(!(ret = read(parser->file, buf, bufsize))) return -2;
-	if(ret == -1) return errno;
-	parser->len = (size_t) ret;
+	// a read may give less than asked for before the end of the file
+	for(parser->len = 0; parser->len < bufsize; parser->len += (size_t) ret) {
+		if((ret = read(parser->file, buf + parser->len, bufsize - parser->len)) == -1) return errno;
+		if(!ret) break;
+	}
+	if(!parser->len) return -2;
 	for(i = 0; i < parser->len; i++) {
 		if(buf[i] == '\n') {
 			found = 1;
-- 
2.43.0


From fd09e048cf6b8c845afd7e12399e89c8eb15be10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:35 +0000
Subject: [PATCH 33/36] fix: length of a last line of a multiple of the buffer
 size, and position kept on errors

---
 src/fileparser/fileparser_getnextlinelength.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fileparser/fileparser_getnextlinelength.c b/src/fileparser/fileparser_getnextlinelength.c
index 497316a..aa74c0e 100644
--- a/src/fileparser/fileparser_getnextlinelength.c
+++ b/src/fileparser/fileparser_getnextlinelength.c
@@ -9,10 +9,11 @@ ssize_t fileparser_getnextlinelength(fileparser* parser) {
 		parser->fpos += sizeof(parser->buf);
 		if(lseek(parser->file, (off_t) parser->fpos, SEEK_SET) == -1) return -1;
 	}
-	if(ret != 0) return -1;
-	res += parser->len;
+	if(ret == 0) res += parser->len;
+	else if(ret == -2 && res) ret = 0; // the line ends with the file
 	parser->fpos = store_fpos;
 	if(lseek(parser->file, (off_t) parser->fpos, SEEK_SET) == -1) return -1;
+	if(ret != 0) return -1;
 	return res;
 }
 
-- 
2.43.0


From 86913d477946499c3b11b51cd257972e55d18dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:30 +0000
Subject: [PATCH 34/36] fix: stringptr_fromfile read forever when the file had
 become shorter

---
 src/stringptr/stringptr_fromfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stringptr/stringptr_fromfile.c b/src/stringptr/stringptr_fromfile.c
index 32a7f4a..ebfbac8 100644
--- a/src/stringptr/stringptr_fromfile.c
+++ b/src/stringptr/stringptr_fromfile.c
@@ -24,7 +24,7 @@ stringptr* stringptr_fromfile(char* filename) {
 
 	while(bufpos < size) {
 		bytesleft = size - bufpos;
-		if((bread = read(f, buf->ptr + bufpos, bytesleft > 64*1024 ? 64*1024 : bytesleft)) < 0) {
+		if((bread = read(f, buf->ptr + bufpos, bytesleft > 64*1024 ? 64*1024 : bytesleft)) <= 0) {
 			stringptr_free(buf);
 			buf = NULL;
 			goto FEXIT;
-- 
2.43.0


From d3b87d4a3cf47b7449fbebb987e68266aa584995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:30 +0000
Subject: [PATCH 35/36] fix: read_stdin_line chomped a character of a line
 without newline

---
 src/stringptr/read_stdin_line.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stringptr/read_stdin_line.c b/src/stringptr/read_stdin_line.c
index 0fb4baa..011e138 100644
--- a/src/stringptr/read_stdin_line.c
+++ b/src/stringptr/read_stdin_line.c
@@ -9,7 +9,7 @@ stringptr read_stdin_line(char* buf, size_t bufsize, int chomp) {
 	if((fgets_result = fgets(buf, bufsize, stdin))) {
 		stringptr line;
 		stringptr_fromchar(fgets_result, &line);
-		if(chomp) 
+		if(chomp && line.size && line.ptr[line.size - 1] == '\n')
 			stringptr_shiftleft(&line, 1); // remove trailing \n
 		return line;
 	}
-- 
2.43.0


From e503a1c7f11521268244a9ca952f7b731bedc1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:30 +0000
Subject: [PATCH 36/36] fix: stringptrlist_fromfile reported success when a
 line could not be read

---
 src/stringptrlist/stringptrlist_fromfile.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/stringptrlist/stringptrlist_fromfile.c b/src/stringptrlist/stringptrlist_fromfile.c
index 9614b87..13e8914 100644
--- a/src/stringptrlist/stringptrlist_fromfile.c
+++ b/src/stringptrlist/stringptrlist_fromfile.c
@@ -4,12 +4,13 @@
 int stringptrlist_fromfile(stringptrlist* l, const char* fn) {
 	fileparser f;
 	stringptr line;
-	int success = 0;
+	int ret, success = 0;
 	if(fileparser_open(&f, fn)) goto err;
-	while(!fileparser_readline(&f) && !fileparser_getline(&f, &line) && line.size) {
+	while(!(ret = fileparser_readline(&f)) && !fileparser_getline(&f, &line) && line.size) {
 		if(!stringptrlist_add_strdup(l, &line)) goto ferr;
 	}
-	success = 1;
+	// any other code means that a line did not fit or could not be read
+	if(!ret || ret == -2) success = 1;
 	ferr:
 	fileparser_close(&f);
 	err:
-- 
2.43.0

