From 9bdf9a2f9a1a9844caae8c180c524dab4169bb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 01/28] fix: mem_strncpy must copy exactly len bytes and
 null-terminate the copy

---
 maa/memory.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maa/memory.c b/maa/memory.c
index de2e2da..b9289bc 100644
--- a/maa/memory.c
+++ b/maa/memory.c
@@ -151,7 +151,8 @@ const char *mem_strncpy(mem_String info,
 	i->growing_size = 0;
 
 	str = xmalloc(len + 1);
-	memcpy(str, string, len + 1);
+	memcpy(str, string, len);
+	str[len] = '\0';
 	stk_push(i->allocated, str);
 
 	return str;
-- 
2.43.0


From f7647f618c0d1d298a368ea7fcf6291817b1adbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 02/28] fix: lst_truncate must stop at the requested length

---
 maa/list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/list.c b/maa/list.c
index e9d7c14..48cd7c6 100644
--- a/maa/list.c
+++ b/maa/list.c
@@ -290,7 +290,7 @@ void lst_truncate(lst_List list, unsigned int length)
 		l->head = l->tail = NULL;
 	} else {
 		/* Find new end of list */
-		for (i = 1, d = l->head; i < length && d; d = d->next);
+		for (i = 1, d = l->head; i < length && d; i++, d = d->next);
    
 		/* Remember start of remainder of list */   
 		next = d->next;		
-- 
2.43.0


From 9fbfc1f528e9ee6a6a48ed950e3d597e27caf4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 03/28] fix: validate list, table, set and object handles
 before using them

---
 maa/hash.c   | 16 +++++++++++-----
 maa/list.c   | 14 ++++++++------
 maa/memory.c |  3 ++-
 maa/set.c    | 18 ++++++++++++------
 4 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/maa/hash.c b/maa/hash.c
index 72ff75f..1d2239c 100644
--- a/maa/hash.c
+++ b/maa/hash.c
@@ -219,13 +219,15 @@ int hsh_insert(
 	const void *datum)
 {
 	tableType     t         = (tableType)table;
-	unsigned long hashValue = t->hash(key);
+	unsigned long hashValue;
 	unsigned long h;
 
 	_hsh_check(t, __func__);
 	if (t->readonly)
 		err_internal(__func__, "Attempt to insert into readonly table");
-   
+
+	hashValue = t->hash(key);
+
 	/* Keep table less than half full */
 	if (t->entries * 2 > t->prime) {
 		tableType     new = _hsh_create(t->prime * 3, t->hash, t->compare);
@@ -268,12 +270,14 @@ int hsh_insert(
 int hsh_delete(hsh_HashTable table, const void *key)
 {
 	tableType     t = (tableType)table;
-	unsigned long h = t->hash(key) % t->prime;
+	unsigned long h;
 
 	_hsh_check(t, __func__);
 	if (t->readonly)
 		err_internal(__func__, "Attempt to delete from readonly table");
 
+	h = t->hash(key) % t->prime;
+
 	if (t->buckets[h]) {
 		bucketType pt;
 		bucketType prev;
@@ -301,10 +305,12 @@ const void *hsh_retrieve(hsh_HashTable table,
 						 const void *key)
 {
 	tableType     t = (tableType)table;
-	unsigned long h = t->hash(key) % t->prime;
+	unsigned long h;
 
 	_hsh_check(t, __func__);
-   
+
+	h = t->hash(key) % t->prime;
+
 	++t->retrievals;
 	if (t->buckets[h]) {
 		bucketType pt;
diff --git a/maa/list.c b/maa/list.c
index 48cd7c6..0c512e6 100644
--- a/maa/list.c
+++ b/maa/list.c
@@ -128,11 +128,11 @@ void lst_append(lst_List list, const void *datum)
 		return;
 
 	l = (listType)list;
-	d = mem_get_object(mem);
+	_lst_check(l, __func__);
 
+	d = mem_get_object(mem);
 	_lst_allocated += sizeof(struct data);
-	_lst_check(l, __func__);
-   
+
 	d->datum = datum;
 	d->next  = NULL;
 	if (l->tail) {
@@ -149,11 +149,13 @@ void lst_append(lst_List list, const void *datum)
 void lst_push(lst_List list, const void *datum)
 {
 	listType l = (listType)list;
-	dataType d = mem_get_object(mem);
+	dataType d;
 
-	_lst_allocated += sizeof(struct data);
 	_lst_check(l, __func__);
-   
+
+	d = mem_get_object(mem);
+	_lst_allocated += sizeof(struct data);
+
 	d->datum = datum;
 	d->next  = l->head;
 	l->head  = d;
diff --git a/maa/memory.c b/maa/memory.c
index b9289bc..79ac7bf 100644
--- a/maa/memory.c
+++ b/maa/memory.c
@@ -304,10 +304,11 @@ void mem_destroy_objects(mem_Object info)
 void *mem_get_object(mem_Object info)
 {
 	objectInfo  i   = (objectInfo)info;
-	void       *obj = stk_pop(i->stack);
+	void       *obj;
 
 	_mem_magic_objects(i, __func__);
 
+	obj = stk_pop(i->stack);
 	if (!obj) {
 		obj = xmalloc(i->size);
 		stk_push(i->allocated, obj);
diff --git a/maa/set.c b/maa/set.c
index c338d15..540f164 100644
--- a/maa/set.c
+++ b/maa/set.c
@@ -226,13 +226,15 @@ static void _set_insert(set_Set set, unsigned long hash, const void *elem)
 int set_insert(set_Set set, const void *elem)
 {
 	setType       t         = (setType)set;
-	unsigned long hashValue = t->hash(elem);
+	unsigned long hashValue;
 	unsigned long h;
 
 	_set_check(t, __func__);
 	if (t->readonly)
 		err_internal(__func__, "Attempt to insert into readonly set");
-   
+
+	hashValue = t->hash(elem);
+
 	/* Keep table less than half full */
 	if (t->entries * 2 > t->prime) {
 		setType       new = _set_create(t->prime * 3, t->hash, t->compare);
@@ -274,12 +276,14 @@ int set_insert(set_Set set, const void *elem)
 int set_delete(set_Set set, const void *elem)
 {
 	setType       t = (setType)set;
-	unsigned long h = t->hash(elem) % t->prime;
+	unsigned long h;
 
 	_set_check(t, __func__);
 	if (t->readonly)
 		err_internal(__func__, "Attempt to delete from readonly set");
-   
+
+	h = t->hash(elem) % t->prime;
+
 	if (t->buckets[h]) {
 		bucketType pt;
 		bucketType prev;
@@ -305,10 +309,12 @@ int set_delete(set_Set set, const void *elem)
 int set_member(set_Set set, const void *elem)
 {
 	setType       t = (setType)set;
-	unsigned long h = t->hash(elem) % t->prime;
+	unsigned long h;
 
 	_set_check(t, __func__);
-   
+
+	h = t->hash(elem) % t->prime;
+
 	++t->retrievals;
 	if (t->buckets[h]) {
 		bucketType pt;
-- 
2.43.0


From eaef8facb5922c3a695074ff2305936bc5b42f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 04/28] fix: str_pool_finish must return the pointer already
 pooled for an equal string

---
 maa/string.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maa/string.c b/maa/string.c
index 97cfe97..5639966 100644
--- a/maa/string.c
+++ b/maa/string.c
@@ -224,7 +224,8 @@ const char *str_pool_finish( str_Pool pool )
 
 	mem_grow( p->string, "\0", 1 ); /* guarantee null termination */
 	datum = mem_finish( p->string );
-	hsh_insert( p->hash, datum, datum );
+	if (hsh_insert( p->hash, datum, datum ))
+		return hsh_retrieve( p->hash, datum ); /* already in the pool */
 
 	return datum;
 }
-- 
2.43.0


From 352942ec1a294a2ea1c2fce59bc82e1dd43c5840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 05/28] fix: str_exists and str_copyn must create the global
 string pool when needed

---
 maa/string.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/maa/string.c b/maa/string.c
index 5639966..a94f833 100644
--- a/maa/string.c
+++ b/maa/string.c
@@ -288,6 +288,7 @@ static void _str_check_global( void )
 
 int str_exists( const char *s )
 {
+	_str_check_global();
 	return str_pool_exists( global, s );
 }
 
@@ -336,6 +337,7 @@ const char *str_copy( const char *s )
 
 const char *str_copyn( const char *s, int length )
 {
+	_str_check_global();
 	return str_pool_copyn( global, s, length );
 }
 
-- 
2.43.0


From 07593f14f5e86bb0d1463eb7660b8050560ba299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 06/28] fix: str_pool_iterate stopped early must not leave the
 pool readonly

---
 maa/string.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/maa/string.c b/maa/string.c
index a94f833..e3f3605 100644
--- a/maa/string.c
+++ b/maa/string.c
@@ -120,8 +120,10 @@ int str_pool_iterate(
 	/*   printf ("inside str_pool_iterate\n"); */
 
 	HSH_ITERATE_KEYS (hash, hash_pos, key){
-		if ((*iterator) ((const char *) key))
+		if ((*iterator) ((const char *) key)){
+			HSH_ITERATE_END (hash);
 			return 1;
+		}
 	}
 
 	return 0;
-- 
2.43.0


From ab8756ebebb543c2b80abc442fd967ff672f4b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 07/28] fix: dbg_test and flg_test must look at the flag's own
 set

---
 maa/debug.c | 4 ++--
 maa/flags.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/maa/debug.c b/maa/debug.c
index bff990b..b98bbfa 100644
--- a/maa/debug.c
+++ b/maa/debug.c
@@ -38,10 +38,10 @@
 #include "maaP.h"
 
 #define TEST(flags,var) (((flags)>>31)                         \
-			 ? (((flags)>>30)                                  \
+			 ? ((((flags)>>30)&1)                                \
 			    ? ((var[3] & (flags)) << 2)                    \
 			    : ((var[2] & (flags)) << 2))                   \
-			 : (((flags)>>30)                                  \
+			 : ((((flags)>>30)&1)                                \
 			    ? ((var[1] & (flags)) << 2)                    \
 			    : ((var[0] & (flags)) << 2)))
 
diff --git a/maa/flags.c b/maa/flags.c
index 3a4ab84..0c4a040 100644
--- a/maa/flags.c
+++ b/maa/flags.c
@@ -37,10 +37,10 @@
 #include "maaP.h"
 
 #define TEST(flags,var) (((flags)>>31)                                     \
-			 ? (((flags)>>30)                                  \
+			 ? ((((flags)>>30)&1)                                \
 			    ? ((var[3] & (flags)) << 2)                    \
 			    : ((var[2] & (flags)) << 2))                   \
-			 : (((flags)>>30)                                  \
+			 : ((((flags)>>30)&1)                                \
 			    ? ((var[1] & (flags)) << 2)                    \
 			    : ((var[0] & (flags)) << 2)))
 
-- 
2.43.0


From aa2bfffd07bdf322fd738cfe5fe98928f13d52e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 08/28] fix: dbg_set must reject unknown flag names as flg_set
 does

---
 maa/debug.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/maa/debug.c b/maa/debug.c
index b98bbfa..e3472d1 100644
--- a/maa/debug.c
+++ b/maa/debug.c
@@ -141,9 +141,8 @@ void dbg_set(const char *name)
 	}
    
 	if (!(flag = (dbg_Type)hsh_retrieve(hash, name))) {
-		if (!(flag = (dbg_Type)hsh_retrieve(hash, name+1))
-			&& *name != '-'
-			&& *name != '+') {
+		if ((*name != '-' && *name != '+')
+			|| !(flag = (dbg_Type)hsh_retrieve(hash, name+1))) {
 	 
 			fprintf(stderr, "Valid debugging flags are:\n");
 			dbg_list(stderr);
-- 
2.43.0


From cfdef9f5885134dceec430e252ce7fc3c747ed22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 09/28] fix: timers must not drop the microseconds of the
 elapsed time

---
 maa/timer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/timer.c b/maa/timer.c
index 23ec520..3175154 100644
--- a/maa/timer.c
+++ b/maa/timer.c
@@ -82,7 +82,7 @@ void tim_stop(const char *name)
 
 #define DIFFTIME(now,then)							\
 	(((now).tv_sec - (then).tv_sec)					\
-	 + ((now).tv_usec - (then).tv_usec)/1000000)
+	 + ((now).tv_usec - (then).tv_usec)/1000000.0)
 
 	_tim_check();
 	gettimeofday(&real, NULL);
-- 
2.43.0


From 00463a03d757289fec34f9bb258b72288552a85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 10/28] fix: b26_decode must not overflow int for large values

---
 maa/base26.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/base26.c b/maa/base26.c
index 9e94027..4eb03b4 100644
--- a/maa/base26.c
+++ b/maa/base26.c
@@ -82,7 +82,7 @@ unsigned long b26_decode(const char *val)
 {
 	unsigned long v = 0;
 	int           i;
-	int           offset = 1;
+	unsigned long offset = 1;
 	int           len = strlen(val);
 
 	for (i = len - 1; i >= 0; i--) {
-- 
2.43.0


From 6d876ee464e1107d732d3a986d937c0fd721ab14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 11/28] fix: b64_decode_buf must not overflow int for values of
 2^31 and above

---
 maa/base64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/base64.c b/maa/base64.c
index b864949..2ab9007 100644
--- a/maa/base64.c
+++ b/maa/base64.c
@@ -109,7 +109,7 @@ unsigned long b64_decode_buf(const char *val, size_t len)
 			err_internal(__func__,
 						 "Illegal character in base64 value: `%c'", val[i]);
 
-		v |= tmp << offset;
+		v |= (unsigned long)tmp << offset;
 		offset += 6;
 	}
 
-- 
2.43.0


From 8eb2c5943e7523a75522d1c5d12087321355d1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 12/28] fix: bit_tst must report bits above the width of int

---
 maa/bit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/bit.c b/maa/bit.c
index 20dc204..d1b7299 100644
--- a/maa/bit.c
+++ b/maa/bit.c
@@ -50,7 +50,7 @@ void bit_clr(unsigned long *flags, int bit)
 
 int bit_tst(unsigned long *flags, int bit)
 {
-	return (*flags & (1UL << bit));
+	return (*flags & (1UL << bit)) != 0;
 }
 
 /* \doc Return a count of the number of bits set in |flags|. */
-- 
2.43.0


From 2be496beb50d0914e4201b530b63a24fa70ffaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 13/28] fix: prm_is_prime must not overflow the square of the
 divisor

---
 maa/prime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/prime.c b/maa/prime.c
index abe82fa..89600fc 100644
--- a/maa/prime.c
+++ b/maa/prime.c
@@ -43,7 +43,7 @@
 int prm_is_prime(unsigned int value)
 {
 	unsigned int divisor = 3;
-	unsigned int square  = divisor * divisor;
+	uint64_t     square  = divisor * divisor;
 
 	if (value == 2)   return 1;
 	if (value == 3)   return 1;
-- 
2.43.0


From e0644359244c8dfe0379c6c9750da13f0eaa0a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 14/28] fix: stk_push must report memory exhaustion instead of
 dereferencing NULL

---
 maa/stack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/stack.c b/maa/stack.c
index 14c03a3..1f34c98 100644
--- a/maa/stack.c
+++ b/maa/stack.c
@@ -71,7 +71,7 @@ void stk_destroy(stk_Stack stack)
 void stk_push(stk_Stack stack, void *datum)
 {
 	stackType s = (stackType)stack;
-	dataType  d = (dataType)malloc(sizeof(struct data));
+	dataType  d = (dataType)xmalloc(sizeof(struct data));
 
 	d->datum = datum;
 	d->prev  = s->data;
-- 
2.43.0


From d200f1c511a4bd733048cf459e1d4a17ec27bc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 15/28] fix: src_destroy must forget the number of stored lines

---
 maa/source.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/maa/source.c b/maa/source.c
index 8bf4015..42a862b 100644
--- a/maa/source.c
+++ b/maa/source.c
@@ -79,6 +79,8 @@ void src_destroy(void)
 	mem_destroy_strings(StringHeap);
 	xfree(Lines);		/* terminal */
 	Lines = StringHeap = InfoHeap = NULL;
+	Used = Count = 0;
+	memset(&Info, 0, sizeof(Info));
 }
 
 /* \doc |src_line| stores a |line| of length |len|. */
-- 
2.43.0


From 16e5578f02d9aebe0ff0e689f3f185d38c1492da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 16/28] fix: src_parse_error must stay inside the message and
 its symbol buffer

---
 maa/source.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/maa/source.c b/maa/source.c
index 42a862b..96143b6 100644
--- a/maa/source.c
+++ b/maa/source.c
@@ -329,12 +329,14 @@ static void _src_print_yyerror(FILE *str, const char *message)
 				fprintf(str, "`%c'", pt[2]);
 				pt += 4;
 			} else if (pt[1] == 'T' && pt[2] == '_') { /* replace symbols */
-				for (b = buf, ++pt; *pt && *pt != '\''; b++, pt++) *b = *pt;
+				for (b = buf, ++pt; *pt && *pt != '\''; pt++)
+					if (b < buf + sizeof(buf) - 1) *b++ = *pt;
 				*b = '\0';
 				if ((concrete = prs_concrete(buf)))
 					fprintf(str, "`%s'", concrete);
 				else
 					fprintf(str, "`%s'", buf);
+				if (!*pt) break;		/* no closing quote */
 			} else
 				putc(*pt, str);
 		} else
-- 
2.43.0


From 9de1c852a9f4dfe22eb0e744ba6873b755951def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 17/28] fix: src_print_error and src_print_message must use
 stdout for a NULL stream

---
 maa/source.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/maa/source.c b/maa/source.c
index 96143b6..c6d7650 100644
--- a/maa/source.c
+++ b/maa/source.c
@@ -412,6 +412,7 @@ void src_print_error(FILE *str, src_Type source, const char *format, ...)
 	va_list    ap;
 	sourceType *s = (sourceType *)source;
 
+	if (!str) str = stdout;
 	fflush(str);
 	if (format) {
 		if (s)
@@ -434,6 +435,7 @@ void src_print_message(FILE *str, src_Type source, const char *format, ...)
 	va_list    ap;
 	sourceType *s = (sourceType *)source;
 
+	if (!str) str = stdout;
 	fflush(str);
 	if (format) {
 		if (s)
-- 
2.43.0


From f33608b82f3a231119be6116920ab598c3d85c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 18/28] fix: pr_readwrite must report output that does not fit
 its buffer

---
 maa/pr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/maa/pr.c b/maa/pr.c
index e56e061..2fee522 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -289,6 +289,7 @@ int pr_readwrite(int in, int out,
 	const char     *inPt  = inBuffer;
 	char           *outPt = outBuffer;
 	int            outLen = 0;
+	char           extra;
 	fd_set         rfds, wfds, efds;
 	struct timeval tv;
 	int            n;
@@ -359,7 +360,9 @@ int pr_readwrite(int in, int out,
 						}
 					}
 				}
-				if ((count = read(out, outPt, outMaxLen)) <= 0) {
+				/* a full buffer still has to tell the end of output from overflow */
+				if ((count = outMaxLen > 0 ? read(out, outPt, outMaxLen)
+					 : read(out, &extra, 1)) <= 0) {
 					if (!count) {
 						if (inLen)
 							err_fatal(__func__,
-- 
2.43.0


From 614e8a0fb8e070717b3b38cbcce1179272279bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 19/28] fix: set_add and set_del must work when both sets are
 the same

---
 maa/set.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/maa/set.c b/maa/set.c
index 540f164..bcbdf86 100644
--- a/maa/set.c
+++ b/maa/set.c
@@ -505,6 +505,8 @@ set_Set set_add(set_Set set1, set_Set set2)
 		err_fatal(__func__,
 				  "Sets do not have identical comparison functions");
 
+	if (t1 == t2) return set1;
+
 	for (i = 0; i < t2->prime; i++) {
 		if (t2->buckets[i]) {
 			bucketType pt;
@@ -543,9 +545,12 @@ set_Set set_del(set_Set set1, set_Set set2)
 	for (i = 0; i < t2->prime; i++) {
 		if (t2->buckets[i]) {
 			bucketType pt;
+			bucketType next;		/* pt vanishes if both sets are the same */
 	 
-			for (pt = t2->buckets[i]; pt; pt = pt->next)
+			for (pt = t2->buckets[i]; pt; pt = next) {
+				next = pt->next;
 				set_delete(set1, pt->elem);
+			}
 		}
 	}
 
-- 
2.43.0


From d388e243c4c7e385555e709770e5adb3d41f5fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 20/28] fix: prm_is_prime must not call 1 a prime

---
 maa/prime.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/maa/prime.c b/maa/prime.c
index 89600fc..11160e2 100644
--- a/maa/prime.c
+++ b/maa/prime.c
@@ -45,6 +45,7 @@ int prm_is_prime(unsigned int value)
 	unsigned int divisor = 3;
 	uint64_t     square  = divisor * divisor;
 
+	if (value == 1)   return 0;
 	if (value == 2)   return 1;
 	if (value == 3)   return 1;
 	if (!(value & 1)) return 0;	/* even */
-- 
2.43.0


From 4eb3ee85ebcef9fc27cda5dc18e40be7d76237ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 21/28] fix: _prs_shutdown must forget the table it destroyed

---
 maa/parse-concrete.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/maa/parse-concrete.c b/maa/parse-concrete.c
index f591732..5e21075 100644
--- a/maa/parse-concrete.c
+++ b/maa/parse-concrete.c
@@ -43,4 +43,5 @@ const char *prs_concrete(const char *symbol)
 void _prs_shutdown(void)
 {
 	if (_prs_hash) hsh_destroy(_prs_hash);
+	_prs_hash = NULL;
 }
-- 
2.43.0


From eaa42c32c896dbe4eea3466839b7ad3de1f8fa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:20 +0000
Subject: [PATCH 22/28] fix: pr_readwrite must close the input of the filter
 when there is nothing to write

---
 maa/pr.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/maa/pr.c b/maa/pr.c
index 2fee522..5a6b7da 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -317,6 +317,11 @@ int pr_readwrite(int in, int out,
 
 	n = max(in, out) + 1;
 
+	if (!inLen) {		/* nothing to write: the filter must see the end of its input */
+		pr_close_nowait(in);
+		n = out + 1;
+	}
+
 	for (;;) {
 		tv.tv_sec  = 5;
 		tv.tv_usec = 0;
-- 
2.43.0


From bdc951287e30039abdaa4d460a7ef03b0576a2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:20 +0000
Subject: [PATCH 23/28] fix: pr_readwrite must go on after an interrupted
 system call

---
 maa/pr.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/maa/pr.c b/maa/pr.c
index 5a6b7da..5779f3c 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -337,7 +337,10 @@ int pr_readwrite(int in, int out,
    
 		switch ((retval = select(n, &rfds, &wfds, &efds, &tv)))
 		{
-			case -1: err_fatal_errno(__func__, "Filter failed"); break;
+			case -1:
+				if (errno != EINTR)
+					err_fatal_errno(__func__, "Filter failed");
+				break;
 				/*       case 0:  err_fatal(__func__, "Filter hung\n");         break; */
 			default:
 				if (dbg_test(MAA_PR)) {
@@ -353,7 +356,7 @@ int pr_readwrite(int in, int out,
 				}
 				if (inLen) {
 					if ((count = write(in, inPt, inLen)) <= 0) {
-						if (errno != EAGAIN)
+						if (errno != EAGAIN && errno != EINTR)
 							err_fatal_errno(__func__, "Error writing to filter");
 					} else {
 						PRINTF(MAA_PR,("  wrote %d\n",count));
@@ -377,7 +380,7 @@ int pr_readwrite(int in, int out,
 										"Filter had non-zero exit status: 0x%x",
 										status);
 						return outLen;
-					} else if (errno != EAGAIN)
+					} else if (errno != EAGAIN && errno != EINTR)
 						err_fatal_errno(__func__, "Error reading from filter");
 				} else {
 					PRINTF(MAA_PR,("  read %d\n",count));
-- 
2.43.0


From 3dfd3395a232846fbfb06fda530fb26bb3b44010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:45 +0000
Subject: [PATCH 24/28] fix: log: write the whole entry when write() accepts
 only a part of it

---
 maa/log.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/maa/log.c b/maa/log.c
index 563d987..b3691f0 100644
--- a/maa/log.c
+++ b/maa/log.c
@@ -291,6 +291,22 @@ void log_close(void)
 	log_syslog (NULL);
 }
 
+/* write everything, even if interrupted or accepted in parts */
+static void _log_write(int fd, const char *buf, size_t len)
+{
+	ssize_t n;
+
+	while (len > 0){
+		n = write (fd, buf, len);
+		if (n > 0){
+			buf += n;
+			len -= n;
+		}else if (n == 0 || errno != EINTR){
+			break;
+		}
+	}
+}
+
 static void _log_base_va(
 	const char *routine,
 	int log_facility,
@@ -336,7 +352,7 @@ static void _log_base_va(
 		/* writing */
 		if (logFd >= 0) {
 			_log_check_filename();
-			while (-1 == write (logFd, buf, strlen (buf)) && errno == EINTR);
+			_log_write (logFd, buf, strlen (buf));
 		}
 		if (logUserStream) {
 			fseek(logUserStream, 0L, SEEK_END); /* might help if luser didn't
-- 
2.43.0


From e50812bf75b67860fb6d5ebd9f599d2b5a7a96fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:44 +0000
Subject: [PATCH 25/28] fix: maa_shutdown() must forget the registered symbol
 expansions

They are strings of the global pool, which is released: prs_concrete()
and prs_register_concrete() used freed memory afterwards.
---
 maa/maa.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/maa/maa.c b/maa/maa.c
index 3206cd8..43d9df8 100644
--- a/maa/maa.c
+++ b/maa/maa.c
@@ -56,6 +56,7 @@ void maa_shutdown(void)
 	}
 
 	_pr_shutdown();
+	_prs_shutdown();
 	str_destroy();
 	_lst_shutdown();
 	_sl_shutdown();
-- 
2.43.0


From fdbb51971366bd0180dcf7c8d2170b4bff83b550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:44 +0000
Subject: [PATCH 26/28] fix: _pr_shutdown() must not kill processes that are
 not its children

A child with several descriptors in the table was killed again after it
had been waited for, as was a child waited for by pr_close() of one of
its other descriptors; the pid may belong to another process by then.
---
 maa/pr.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/maa/pr.c b/maa/pr.c
index 5779f3c..65bc89e 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -98,8 +98,11 @@ void _pr_shutdown(void)
 		for (i = 0; i < max_fd(); i++) {
 			/* FIXME: blah */;
 			if (_pr_objects[i].pid) {
-				kill(_pr_objects[i].pid, SIGKILL); /* FIXME! be gentler. */
-				pr_wait(_pr_objects[i].pid);
+				/* already waited for: the pid may be somebody else's by now */
+				if (!waitpid(_pr_objects[i].pid, NULL, WNOHANG)) {
+					kill(_pr_objects[i].pid, SIGKILL); /* FIXME! be gentler. */
+					pr_wait(_pr_objects[i].pid);
+				}
 				_pr_objects[i].pid = 0;
 			}
 		}
-- 
2.43.0


From c38dfdbc582481d0c681a7be60ed0b620e5cbac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:07 +0000
Subject: [PATCH 27/28] fix: flg_list(), flg_name() and dbg_list() must not
 abort when nothing is registered

The table exists from the first registration on only.
---
 maa/debug.c | 2 ++
 maa/flags.c | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/maa/debug.c b/maa/debug.c
index e3472d1..c51d532 100644
--- a/maa/debug.c
+++ b/maa/debug.c
@@ -221,6 +221,8 @@ static int _dbg_builtin(const void *key, const void *datum, void *arg)
 
 void dbg_list(FILE *stream)
 {
+	if (!hash) return;
+
 	hsh_iterate_arg(hash, _dbg_user, stream);
 	hsh_iterate_arg(hash, _dbg_builtin, stream);
 }
diff --git a/maa/flags.c b/maa/flags.c
index 0c4a040..08ed777 100644
--- a/maa/flags.c
+++ b/maa/flags.c
@@ -65,6 +65,8 @@ const char *flg_name(flg_Type flag)
 	void         *key;
 	void         *datum;
 
+	if (!hash) return "unknown flag";
+
 	HSH_ITERATE(hash, position, key, datum) {
 		if (flag == (flg_Type)datum) {
 			HSH_ITERATE_END(hash);
@@ -178,5 +180,5 @@ static int _flg_user(const void *key, const void *datum, void *arg)
 
 void flg_list(FILE *stream)
 {
-	hsh_iterate_arg(hash, _flg_user, stream);
+	if (hash) hsh_iterate_arg(hash, _flg_user, stream);
 }
-- 
2.43.0


From d636a72fa66edeca9d47751ecdfb36b1cd5b14cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:29 +0000
Subject: [PATCH 28/28] fix: STR_ITERATE_END and str_pool_readonly() must
 release the pool

Both were macros that could not work: the one named a function that does
not exist, the other passed the pool where its hash table is expected.
---
 maa/export.sym |  1 +
 maa/maa.h      |  4 ++--
 maa/string.c   | 10 ++++++++++
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/maa/export.sym b/maa/export.sym
index 0bfbb45..4110580 100644
--- a/maa/export.sym
+++ b/maa/export.sym
@@ -118,6 +118,7 @@ str_pool_print_stats
 str_pool_init_position
 str_pool_next_position
 str_pool_get_position
+str_pool_readonly
 str_pool_iterate
 str_pool_iterate_arg
 str_exists
diff --git a/maa/maa.h b/maa/maa.h
index c4c4154..786e1e5 100644
--- a/maa/maa.h
+++ b/maa/maa.h
@@ -389,7 +389,7 @@ extern str_Position  str_pool_next_position(
 extern void str_pool_get_position(
 	str_Position position,
 	char const *const *key);
-#define str_pool_readonly(pool, flag) hsh_readonly ((pool), (flag))
+extern int        str_pool_readonly(str_Pool pool, int flag);
 
 extern int        str_pool_iterate(
 	str_Pool pool,
@@ -413,7 +413,7 @@ extern int        str_pool_iterate_arg(
 /* If the STR_ITERATE loop is exited before all elements in the table are
    seen, then STR_ITERATE_END should be called.  Calling this function
    after complete loops does no harm. */
-#define STR_ITERATE_END(T) str_readonly(T,0)
+#define STR_ITERATE_END(T) str_pool_readonly(T,0)
 
 extern int        str_exists(const char *s);
 extern const char *str_find(const char *s);
diff --git a/maa/string.c b/maa/string.c
index e3f3605..d125c2c 100644
--- a/maa/string.c
+++ b/maa/string.c
@@ -176,6 +176,16 @@ void str_pool_get_position (str_Position position, char const * const*key)
 	hsh_get_position (position, (void **) __UNCONST(key));
 }
 
+/* \doc |str_pool_readonly| sets the |readonly| flag for the |pool| to
+   |flag| and returns the old value, see |hsh_readonly|. */
+
+int str_pool_readonly (str_Pool pool, int flag)
+{
+	poolInfo p = (poolInfo) pool;
+
+	return hsh_readonly (p -> hash, flag);
+}
+
 /* \doc |str_pool_copy| returns a copy of the string, |s|, using memory
    from the string pool object, |pool|.  This can be used for data that is
    known to be unique.  No checks are made for uniqueness, however; and a
-- 
2.43.0

