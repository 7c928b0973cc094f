From e328991062ab30dc886cf4d66517a2919013cd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:37 +0000
Subject: [PATCH 001/106] fix: r_harray_taillookup_s searches from the tail

---
 rlib/rharray.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlib/rharray.c b/rlib/rharray.c
index 58398c0..d42ffa4 100644
--- a/rlib/rharray.c
+++ b/rlib/rharray.c
@@ -213,7 +213,7 @@ long r_harray_taillookup(rharray_t *harray, const char *name, unsigned int names
 
 long r_harray_taillookup_s(rharray_t *harray, const char *name)
 {
-	return r_harray_lookup(harray, name, r_strlen(name));
+	return r_harray_taillookup(harray, name, r_strlen(name));
 }
 
 
-- 
2.43.0


From cd9342ba8555553868d4d598ac0bea2683a06ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:37 +0000
Subject: [PATCH 002/106] fix: r_map_add without a value clears the recycled
 node

---
 rlib/rmap.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rlib/rmap.c b/rlib/rmap.c
index adbe23a..320cff4 100644
--- a/rlib/rmap.c
+++ b/rlib/rmap.c
@@ -187,6 +187,8 @@ size_t r_map_add(rmap_t *map, const char *name, size_t namesize, rconstpointer p
 	node = r_map_getfreenode(map, name, namesize);
 	if (pval)
 		r_memcpy(node->value.data, pval, map->elt_size);
+	else
+		r_memset(node->value.data, 0, map->elt_size);
 	node->nbucket = (r_map_rstring_hash(node->key) & r_map_hashmask(map));
 	r_list_addt(&map->hash[node->nbucket], &node->hash);
 	r_list_addt(&map->active, &node->active);
-- 
2.43.0


From 119db7340d22c615c7c7f55fdcd3404a1df24ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:47 +0000
Subject: [PATCH 003/106] fix: counted string keys compare all of their bytes

---
 rlib/rhash.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rlib/rhash.c b/rlib/rhash.c
index af993a5..fe2b893 100644
--- a/rlib/rhash.c
+++ b/rlib/rhash.c
@@ -18,6 +18,7 @@
  *  Martin Stoilov <martin@rpasearch.com>
  */
 
+#include <string.h>
 #include "rlib/rmem.h"
 #include "rlib/rstring.h"
 #include "rlib/rhash.h"
@@ -144,7 +145,7 @@ rboolean r_hash_rstrequal(rconstpointer key1, rconstpointer key2)
 	const rstr_t *k1 = (const rstr_t *)key1;
 	const rstr_t *k2 = (const rstr_t *)key2;
 
-	return (k1->size == k2->size && r_strncmp((const char*)k1->str, (const char*)k2->str, k1->size) == 0) ? TRUE : FALSE;
+	return (k1->size == k2->size && memcmp(k1->str, k2->str, k1->size) == 0) ? TRUE : FALSE;
 }
 
 
@@ -173,7 +174,7 @@ rboolean r_hash_rstring_equal(rconstpointer key1, rconstpointer key2)
 	const rstring_t *k1 = (const rstring_t *)key1;
 	const rstring_t *k2 = (const rstring_t *)key2;
 
-	return (k1->size == k2->size && r_strncmp((const char*)k1->str, (const char*)k2->str, k1->size) == 0) ? TRUE : FALSE;
+	return (k1->size == k2->size && memcmp(k1->str, k2->str, k1->size) == 0) ? TRUE : FALSE;
 }
 
 
-- 
2.43.0


From e44aeb4a6d7727af038fc4f54a4717793adac2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:05 +0000
Subject: [PATCH 004/106] fix: atomic get and set are real atomic accesses

---
 arch/unix/rtypes.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arch/unix/rtypes.h b/arch/unix/rtypes.h
index 5de94a4..90ccc53 100644
--- a/arch/unix/rtypes.h
+++ b/arch/unix/rtypes.h
@@ -59,10 +59,10 @@ typedef struct {ruint32 p1; ruint32 p2;} rpair_t;
 	do { res = __sync_fetch_and_sub(ptr, val); } while (0)
 
 #define R_ATOMIC_GET(ptr, res) \
-	do { __sync_synchronize (); res = *ptr; } while (0)
+	do { res = __atomic_load_n(ptr, __ATOMIC_SEQ_CST); } while (0)
 
 #define R_ATOMIC_SET(ptr, val) \
-	do { *ptr = val; __sync_synchronize (); } while (0)
+	do { __atomic_store_n(ptr, val, __ATOMIC_SEQ_CST); } while (0)
 
 #define R_DEBUG_BRAKE assert(0)
 #define R_ASSERT(__a__) do { if (!(__a__)) R_DEBUG_BRAKE; } while (0)
-- 
2.43.0


From 45c11f7d383127151c03a51b551f9c485cf856ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:05 +0000
Subject: [PATCH 005/106] fix: releasing a spin lock is an atomic store with
 release semantics

---
 rlib/rspinlock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlib/rspinlock.c b/rlib/rspinlock.c
index e098a69..30f04c9 100644
--- a/rlib/rspinlock.c
+++ b/rlib/rspinlock.c
@@ -41,7 +41,7 @@ void r_spinlock_lock(rspinlock_t *lock)
 
 void r_spinlock_unlock(rspinlock_t *lock)
 {
-	*lock = 0;
+	r_atomic_set(lock, 0);
 }
 
 
-- 
2.43.0


From 0b1dd9c6a049ed45c5e696c47018f17005b745a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:05 +0000
Subject: [PATCH 006/106] fix: r_ref_create honours the requested type

---
 rlib/rref.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlib/rref.c b/rlib/rref.c
index f474976..16297a6 100644
--- a/rlib/rref.c
+++ b/rlib/rref.c
@@ -36,7 +36,7 @@ rref_t *r_ref_create(rref_type_t type)
 {
 	rref_t *ref;
 	ref = (rref_t*)r_object_create(sizeof(*ref));
-	r_ref_init((robject_t*)ref, R_OBJECT_REF, r_ref_cleanup, r_ref_copy, 1, RREF_TYPE_SHARED);
+	r_ref_init((robject_t*)ref, R_OBJECT_REF, r_ref_cleanup, r_ref_copy, 1, type);
 	return ref;
 }
 
-- 
2.43.0


From 922ec0ca03812d310fcebd22ebb5bb5f9d85badc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:05 +0000
Subject: [PATCH 007/106] fix: r_ref_get reads the count under its lock

---
 rlib/rref.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rlib/rref.c b/rlib/rref.c
index 16297a6..57cdbf8 100644
--- a/rlib/rref.c
+++ b/rlib/rref.c
@@ -89,7 +89,12 @@ ruint32 r_ref_dec(rref_t *ref)
 
 ruint32 r_ref_get(rref_t *ref)
 {
-	return ref->count;
+	ruint32 count;
+
+	r_spinlock_lock(&ref->lock);
+	count = ref->count;
+	r_spinlock_unlock(&ref->lock);
+	return count;
 }
 
 
-- 
2.43.0


From 9fc0f08e57afdac2f80455b252a3e805f620b52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:24 +0000
Subject: [PATCH 008/106] fix: debug calloc of zero-sized elements leaves room
 for its header

---
 rlib/rmem.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rlib/rmem.c b/rlib/rmem.c
index 1d5a496..f72ab9d 100644
--- a/rlib/rmem.c
+++ b/rlib/rmem.c
@@ -64,6 +64,8 @@ static rpointer r_dbg_calloc(size_t nmemb, size_t size)
 {
 	ruword *mem = NULL;
 
+	if (!size)
+		size = 1;
 	nmemb += (size < sizeof(ruword)) ? sizeof(ruword) : 1;
 	mem = (ruword*)calloc(nmemb, size);
 	*((ruword*)mem) = size * nmemb;
-- 
2.43.0


From 64651b50c8cd228ed265d5eb88d3dcb94c1de9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:01 +0000
Subject: [PATCH 009/106] fix: rex_regex_create returns NULL for a pattern that
 does not compile

---
 rex/rexregex.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rex/rexregex.c b/rex/rexregex.c
index a2fb8fa..1974bc0 100644
--- a/rex/rexregex.c
+++ b/rex/rexregex.c
@@ -81,8 +81,7 @@ rexregex_t *rex_regex_create(const char *str, unsigned int size)
 	rexregex_t *regex;
 
 	regex = (rexregex_t*)r_object_create(sizeof(*regex));
-	rex_regex_init((robject_t*)regex, R_OBJECT_REXREGEX, rex_regex_cleanup, NULL, str, size);
-	return regex;
+	return (rexregex_t*)rex_regex_init((robject_t*)regex, R_OBJECT_REXREGEX, rex_regex_cleanup, NULL, str, size);
 }
 
 
-- 
2.43.0


From ff1f3748cfa01e38360e1bc8fa73ab41ba023391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:01 +0000
Subject: [PATCH 010/106] fix: byte matching does not sign-extend bytes above
 127

---
 rex/rexregex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rex/rexregex.c b/rex/rexregex.c
index 1974bc0..cef5247 100644
--- a/rex/rexregex.c
+++ b/rex/rexregex.c
@@ -171,7 +171,7 @@ static int rex_regex_match_byte(rexregex_t *regex, const char *start, const char
 	rexdfs_t *s;
 
 	while (input < end) {
-		wc = *input;
+		wc = (unsigned char)*input;
 		REX_DFA_NEXT(dfa, nstate, wc, &nstate);
 		if (nstate == 0)
 			break;
-- 
2.43.0


From 53c80e1bcd3dd628bd22dbe588d78b3b15a72de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:01 +0000
Subject: [PATCH 011/106] fix: the scan filter starts out empty

---
 rex/rexdfa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rex/rexdfa.c b/rex/rexdfa.c
index 301c839..0e16966 100644
--- a/rex/rexdfa.c
+++ b/rex/rexdfa.c
@@ -161,7 +161,7 @@ int rex_dfa_hash(rexdfa_t *dfa, unsigned int hbytes, unsigned int hbits)
 	dfa->hbytes = hbytes;
 	dfa->hbits = hbits;
 	dfa->hsize = REX_DFA_HASHSIZE(hbytes, hbits) >> 3;
-	dfa->bits = (unsigned char*)r_malloc(dfa->hsize);
+	dfa->bits = (unsigned char*)r_zmalloc(dfa->hsize);
 	rex_dfa_statehash(dfa, REX_DFA_STARTSTATE, hbytes - 1, hbits, 0);
 	return 0;
 }
-- 
2.43.0


From aac8f0e3451f852fc11785da66c259643d14088b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:01 +0000
Subject: [PATCH 012/106] fix: pattern characters outside ASCII are not
 classified as operators, digits or blanks

---
 rex/rexcompiler.c | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index 8e465c6..413e29c 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -66,13 +66,25 @@ void rex_compiler_destroy(rexcompiler_t *co)
 
 static int rex_compiler_isspace(int c)
 {
-	return isspace(c);
+	return c >= 0 && c < 0x80 && isspace(c);
+}
+
+
+static int rex_compiler_isdigit(int c)
+{
+	return c >= 0 && c < 0x80 && isdigit(c);
+}
+
+
+static int rex_compiler_isxdigit(int c)
+{
+	return c >= 0 && c < 0x80 && isxdigit(c);
 }
 
 
 static int rex_compiler_isblank(rexcompiler_t *co, int c)
 {
-	return r_strchr(co->blankchars, c) ? 1 : 0;
+	return (c > 0 && c < 0x80 && r_strchr(co->blankchars, c)) ? 1 : 0;
 }
 
 
@@ -226,10 +238,10 @@ int rex_compiler_numerictoken(rexcompiler_t *co, rexdb_t *rexdb)
 		} else {
 			base = 8;
 		}
-	} else if (!isdigit(co->token)) {
+	} else if (!rex_compiler_isdigit(co->token)) {
 		return -1;
 	}
-	while ((base == 16 && isxdigit(co->token)) || (base == 8 && isdigit(co->token) && co->token != '8' && co->token != '9') || isdigit(co->token)) {
+	while ((base == 16 && rex_compiler_isxdigit(co->token)) || (base == 8 && rex_compiler_isdigit(co->token) && co->token != '8' && co->token != '9') || rex_compiler_isdigit(co->token)) {
 		if (i >= REX_CONV_BUFSIZE)
 			return -1;
 		convbuf[i++] = co->token;
@@ -361,9 +373,9 @@ static int rex_compiler_parsecount(rexcompiler_t *co, rexdb_t *rexdb)
 	int i = 0;
 
 	rex_compiler_getnbtok(co);		/* eat '{' */
-	if (!isdigit(co->token))
+	if (!rex_compiler_isdigit(co->token))
 		return -1;
-	for (i = 0; isdigit(co->token); i++) {
+	for (i = 0; rex_compiler_isdigit(co->token); i++) {
 		if (i >= REX_CONV_BUFSIZE)
 			return -1;
 		convbuf[i] = co->token;
@@ -379,8 +391,8 @@ static int rex_compiler_parsecount(rexcompiler_t *co, rexdb_t *rexdb)
 	if (co->token == ',') {
 		rex_compiler_getnbtok(co);		/* eat ',' */
 		co->tocount = (size_t)-1;
-		if (isdigit(co->token)) {
-			for (i = 0; isdigit(co->token); i++) {
+		if (rex_compiler_isdigit(co->token)) {
+			for (i = 0; rex_compiler_isdigit(co->token); i++) {
 				if (i >= REX_CONV_BUFSIZE)
 					return -1;
 				convbuf[i] = co->token;
@@ -408,7 +420,7 @@ static int rex_compiler_qfactor(rexcompiler_t *co, rexdb_t *rexdb)
 	rexstate_t *srcstate;
 	size_t nstates, i;
 
-	if (strchr("{}*?+]\n\r)", co->token)) {
+	if (co->token > 0 && co->token < 0x80 && strchr("{}*?+]\n\r)", co->token)) {
 		/*
 		 * Unexpected char.
 		 */
-- 
2.43.0


From e2bbcc3bb8f6be2aadc10f0987897b0ac3fb1bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:01 +0000
Subject: [PATCH 013/106] fix: a{0} does not leak its factor or eat the escape
 that follows it

---
 rex/rexcompiler.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index 413e29c..fa36ed7 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -472,14 +472,13 @@ static int rex_compiler_qfactor(rexcompiler_t *co, rexdb_t *rexdb)
 			/*
 			 * Special case
 			 */
-			frag = FPOP(co);
+			rex_fragment_destroy(FPOP(co));
 			for (i = nstates; i < r_array_length(rexdb->states); i++) {
 				srcstate = rex_db_getstate(rexdb, i);
 				rex_state_destroy(srcstate);
 			}
 			r_array_setlength(rexdb->states, nstates);
 			srcstate = rex_db_getstate(rexdb, rex_db_createstate(rexdb, REX_STATETYPE_NONE));
-			rex_compiler_adjustescapedtoken(co);
 			rex_state_addtransition_e(srcstate, -1);
 			frag = rex_fragment_create(srcstate);
 			FPUSH(co, frag);
-- 
2.43.0


From 25d2b8f8d98587c510370414196e6025dcaefd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:01 +0000
Subject: [PATCH 014/106] fix: repetition counts nested in a repeated group
 keep the outer count

---
 rex/rexcompiler.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index fa36ed7..152b612 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -491,26 +491,28 @@ static int rex_compiler_qfactor(rexcompiler_t *co, rexdb_t *rexdb)
 		}
 		do {
 			size_t count;
+			size_t fromcount = co->fromcount;
+			size_t tocount = co->tocount;
 			const char *saved_start = co->start;
 			const char *saved_end = co->end;
 			const char *saved_ptr = co->ptr;
 			const char *saved_tokenptr = co->tokenptr;
 			int saved_token = co->token;
-			for (count = 1; count < co->tocount; count++) {
+			for (count = 1; count < tocount; count++) {
 				co->start = fstart;
 				co->end = fend;
 				co->ptr = fstart;
 				rex_compiler_getnbtok(co);
 				rex_compiler_catexpression(co, rexdb);
 				frag2 = FPOP(co);
-				if (co->tocount == (size_t)-1 && count >= co->fromcount) {
+				if (tocount == (size_t)-1 && count >= fromcount) {
 					frag2 = rex_fragment_mop(rexdb, frag2);
 					frag1 = FPOP(co);
 					frag1 = rex_fragment_cat(rexdb, frag1, frag2);
 					FPUSH(co, frag1);
 					break;
 				}
-				if (count >= co->fromcount) {
+				if (count >= fromcount) {
 					frag2 = rex_fragment_opt(rexdb, frag2);
 				}
 				frag1 = FPOP(co);
-- 
2.43.0


From bad3d26253241656c6249fd4e512809f0f73ba02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:01 +0000
Subject: [PATCH 015/106] fix: empty alternatives, a stray ) and a trailing
 backslash are refused

---
 rex/rexcompiler.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index 152b612..7276435 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -356,6 +356,8 @@ static int rex_compiler_factor(rexcompiler_t *co, rexdb_t *rexdb)
 	} else {
 		srcstate = rex_db_getstate(rexdb, rex_db_createstate(rexdb, REX_STATETYPE_NONE));
 		rex_compiler_adjustescapedtoken(co);
+		if (co->token == REX_TOKEN_EOF)
+			return -1;
 		rex_state_addtransition(srcstate, co->token, co->token, -1);
 		frag = rex_fragment_create(srcstate);
 		FPUSH(co, frag);
@@ -544,7 +546,7 @@ static int rex_compiler_catexpression(rexcompiler_t *co, rexdb_t *rexdb)
 		case REX_TOKEN_EOF:
 		case '|':
 		case ')':
-			return 0;
+			return nfactors ? 0 : -1;
 		}
 		if (rex_compiler_qfactor(co, rexdb) < 0)
 			return -1;
@@ -603,6 +605,8 @@ long rex_compiler_expression(rexcompiler_t *co, rexdb_t *rexdb, const char *str,
 	rex_compiler_getnbtok(co);
 	if (rex_compiler_altexpression(co, rexdb) < 0)
 		goto error;
+	if (co->token != REX_TOKEN_EOF)
+		goto error;
 	frag1 = FPOP(co);
 	frag2 = rex_fragment_create(rex_db_getstate(rexdb, rex_db_createstate(rexdb, REX_STATETYPE_ACCEPT)));
 	rex_state_setuserdata(REX_FRAG_STATE(frag2), userdata);
-- 
2.43.0


From d0a00b3e2eb11a406cae5d4562f3b2750ad20c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:01 +0000
Subject: [PATCH 016/106] fix: a reversed character range is inserted by its
 low end

---
 rex/rextransition.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rex/rextransition.c b/rex/rextransition.c
index 5d73f7c..449605a 100644
--- a/rex/rextransition.c
+++ b/rex/rextransition.c
@@ -86,7 +86,7 @@ rex_transition_t *rex_transitions_add(rarray_t *trans, rexchar_t c1, rexchar_t c
 	while (max > min) {
 		mid = (min + max)/2;
 		t = (rex_transition_t *)r_array_slot(trans, mid);
-		if (c1 >= t->lowin) {
+		if (ntrans.lowin >= t->lowin) {
 			min = mid + 1;
 		} else {
 			max = mid;
-- 
2.43.0


From 271143c22e5e85208fd5f2e5417656b2234561fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:18 +0000
Subject: [PATCH 017/106] fix: deeply nested groups are refused instead of
 exhausting the stack

---
 rex/rexcompiler.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index 7276435..cb98a55 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -11,6 +11,7 @@
 
 #define REX_COMPILER_TOKENSIZE	128
 #define REX_COMPILER_BLANKCHARS	64
+#define REX_COMPILER_MAXDEPTH 1000
 
 struct rexcompiler_s {
 	rarray_t *stack;
@@ -23,6 +24,7 @@ struct rexcompiler_s {
 	rexchar_t numtoken;
 	size_t fromcount;
 	size_t tocount;
+	size_t depth;
 	char tokenstr[REX_COMPILER_TOKENSIZE];
 	char blankchars[REX_COMPILER_BLANKCHARS];
 };
@@ -338,8 +340,11 @@ static int rex_compiler_factor(rexcompiler_t *co, rexdb_t *rexdb)
 		rex_compiler_getnbtok(co);		/* eat '(' */
 		if (co->token == ')')
 			return -1;
+		if (++co->depth > REX_COMPILER_MAXDEPTH)
+			return -1;
 		if (rex_compiler_altexpression(co, rexdb) < 0)
 			return -1;
+		--co->depth;
 		if (co->token != ')')
 			return -1;
 		rex_compiler_getnbtok(co);		/* eat ')' */
@@ -601,6 +606,7 @@ long rex_compiler_expression(rexcompiler_t *co, rexdb_t *rexdb, const char *str,
 	co->start = str;
 	co->end = str + size;
 	co->ptr = str;
+	co->depth = 0;
 
 	rex_compiler_getnbtok(co);
 	if (rex_compiler_altexpression(co, rexdb) < 0)
-- 
2.43.0


From bdc8b0fe0b67338033373c2fb33412b2028c7ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:18 +0000
Subject: [PATCH 018/106] fix: dumping transitions on wide characters does not
 index the ctype tables out of range

---
 rex/rexdb.c         | 4 ++--
 rex/rexdfa.c        | 4 ++--
 rex/rextransition.c | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/rex/rexdb.c b/rex/rexdb.c
index e6c9886..ca2b2ad 100644
--- a/rex/rexdb.c
+++ b/rex/rexdb.c
@@ -258,12 +258,12 @@ void rex_db_dumpstate(rexdb_t *rexdb, size_t uid)
 		if (t->type == REX_TRANSITION_EMPTY) {
 			fprintf(stdout, "    epsilon -> %ld\n", t->dstuid);
 		} else if (t->lowin != t->highin) {
-			if (isprint(t->lowin) && !isspace(t->lowin) && isprint(t->highin) && !isspace(t->highin))
+			if ((t->lowin < 0x80 && isprint(t->lowin)) && !isspace(t->lowin) && (t->highin < 0x80 && isprint(t->highin)) && !isspace(t->highin))
 				n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "        [%c - %c] ", t->lowin, t->highin);
 			else
 				n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "        [0x%X - 0x%X] ", t->lowin, t->highin);
 		} else {
-			if (isprint(t->lowin) && !isspace(t->lowin))
+			if ((t->lowin < 0x80 && isprint(t->lowin)) && !isspace(t->lowin))
 				n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "        '%c' ", t->lowin);
 			else
 				n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "        0x%X ", t->lowin);
diff --git a/rex/rexdfa.c b/rex/rexdfa.c
index 0e16966..3a138e6 100644
--- a/rex/rexdfa.c
+++ b/rex/rexdfa.c
@@ -218,12 +218,12 @@ void rex_dfa_dumpstate(rexdfa_t *dfa, rexuint_t nstate)
 		t = &dfa->trans[s->trans + index];
 		n = 0;
 		if (t->lowin != t->highin) {
-			if (isprint(t->lowin) && !isspace(t->lowin) && isprint(t->highin) && !isspace(t->highin) && !r_strchr("[]-^", t->lowin) && !r_strchr("[]-^", t->highin))
+			if ((t->lowin < 0x80 && isprint(t->lowin)) && !isspace(t->lowin) && (t->highin < 0x80 && isprint(t->highin)) && !isspace(t->highin) && !r_strchr("[]-^", t->lowin) && !r_strchr("[]-^", t->highin))
 				n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "    [%c - %c] ", t->lowin, t->highin);
 			else
 				n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "    [0x%X - 0x%X] ", t->lowin, t->highin);
 		} else {
-			if (isprint(t->lowin) && !isspace(t->lowin))
+			if ((t->lowin < 0x80 && isprint(t->lowin)) && !isspace(t->lowin))
 				n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "    '%c' ", t->lowin);
 			else
 				n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "    0x%X ", t->lowin);
diff --git a/rex/rextransition.c b/rex/rextransition.c
index 449605a..60d14b2 100644
--- a/rex/rextransition.c
+++ b/rex/rextransition.c
@@ -195,12 +195,12 @@ void rex_transitions_dump(rarray_t *trans)
 		if (t->type == REX_TRANSITION_EMPTY) {
 			fprintf(stdout, "    epsilon -> %ld\n", t->dstuid);
 		} else if (t->lowin != t->highin) {
-			if (isprint(t->lowin) && !isspace(t->lowin) && isprint(t->highin) && !isspace(t->highin))
+			if ((t->lowin < 0x80 && isprint(t->lowin)) && !isspace(t->lowin) && (t->highin < 0x80 && isprint(t->highin)) && !isspace(t->highin))
 				n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "        [%c - %c] ", t->lowin, t->highin);
 			else
 				n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "        [0x%X - 0x%X] ", t->lowin, t->highin);
 		} else {
-			if (isprint(t->lowin) && !isspace(t->lowin))
+			if ((t->lowin < 0x80 && isprint(t->lowin)) && !isspace(t->lowin))
 				n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "        '%c' ", t->lowin);
 			else
 				n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "        0x%X ", t->lowin);
-- 
2.43.0


From b348ef7a59a87b4b3383dd2eceb2d2c5578efef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 019/106] fix: a fault in a VM program stops the program, not
 the process

---
 rvm/rvmcpu.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rvm/rvmcpu.h b/rvm/rvmcpu.h
index 26fe889..224f205 100644
--- a/rvm/rvmcpu.h
+++ b/rvm/rvmcpu.h
@@ -417,7 +417,7 @@ enum {
 };
 
 #define RVM_STACK_CHUNK 256
-#define RVM_ABORT(__cpu__, __e__) do { __cpu__->error = (__e__); (__cpu__)->abort = 1; R_ASSERT(0); return; } while (0)
+#define RVM_ABORT(__cpu__, __e__) do { __cpu__->error = (__e__); (__cpu__)->abort = 1; return; } while (0)
 #define BIT(__shiftby__) (1 << (__shiftby__))
 #define BITR(__f__, __l__, __r__) (((__r__) >= (__f__) && (__r__) <= (__l__)) ? BIT(__r__) : 0)
 #define BITS(__f__, __l__)  (BITR(__f__, __l__, R0)) | (BITR(__f__, __l__, R1)) | (BITR(__f__, __l__, R2)) | (BITR(__f__, __l__, R3)) | \
-- 
2.43.0


From afa4fa04e1114a2779b7711345323f98fa973a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 020/106] fix: ADC and SBC propagate the carry when an operand
 is all ones

---
 rvm/rvmcpu.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index b95b6ed..e6af947 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -375,7 +375,7 @@ static void rvm_op_adc(rvmcpu_t *cpu, rvm_asmins_t *ins)
 	
 	res = op2 + op3 + (RVM_STATUS_GETBIT(cpu, RVM_STATUS_C) ? 1 : 0);
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
-	RVM_STATUS_UPDATE(cpu, RVM_STATUS_C, res < op2 || res < op3);
+	RVM_STATUS_UPDATE(cpu, RVM_STATUS_C, RVM_STATUS_GETBIT(cpu, RVM_STATUS_C) ? res <= op2 : res < op2);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_N, res & RVM_SIGN_BIT);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_V, (op2 & RVM_SIGN_BIT) == (op3 & RVM_SIGN_BIT) &&
@@ -637,7 +637,7 @@ static void rvm_op_sbc(rvmcpu_t *cpu, rvm_asmins_t *ins)
 
 	res = op2 - op3 + (RVM_STATUS_GETBIT(cpu, RVM_STATUS_C) ? 0 : -1);
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
-	RVM_STATUS_UPDATE(cpu, RVM_STATUS_C, !(res > op2));	/* borrow = !carry */
+	RVM_STATUS_UPDATE(cpu, RVM_STATUS_C, RVM_STATUS_GETBIT(cpu, RVM_STATUS_C) ? op2 >= op3 : op2 > op3);	/* borrow = !carry */
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_N, res & RVM_SIGN_BIT);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_V, (op2 & RVM_SIGN_BIT) != (op3 & RVM_SIGN_BIT) &&
-- 
2.43.0


From 6496541afaee252a4962d32a766eb7072d816277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 021/106] fix: shifts keep the sign, set the sign flag and
 handle counts past the register width

---
 rvm/rvmcpu.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index e6af947..4dc4e9f 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -411,7 +411,7 @@ static void rvm_op_lsl(rvmcpu_t *cpu, rvm_asmins_t *ins)
 {
 	ruword res, op2 = RVM_CPUREG_GETU(cpu, ins->op2), op3 = RVM_CPUREG_GETU(cpu, ins->op3);
 	
-	res = op2 << op3;
+	res = op3 < RVM_REGISTER_BITS ? op2 << op3 : 0;
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
 	RVM_STATUS_CLRALL(cpu);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
@@ -423,21 +423,23 @@ static void rvm_op_lsr(rvmcpu_t *cpu, rvm_asmins_t *ins)
 {
 	ruword res, op2 = RVM_CPUREG_GETU(cpu, ins->op2), op3 = RVM_CPUREG_GETU(cpu, ins->op3);
 	
-	res = op2 >> op3;
+	res = op3 < RVM_REGISTER_BITS ? op2 >> op3 : 0;
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
 	RVM_STATUS_CLRALL(cpu);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
+	RVM_STATUS_UPDATE(cpu, RVM_STATUS_N, res & RVM_SIGN_BIT);
 }
 
 
 static void rvm_op_lsrs(rvmcpu_t *cpu, rvm_asmins_t *ins)
 {
-	rword res, op2 = RVM_CPUREG_GETU(cpu, ins->op2), op3 = RVM_CPUREG_GETU(cpu, ins->op3);
+	ruword res, op2 = RVM_CPUREG_GETU(cpu, ins->op2), op3 = RVM_CPUREG_GETU(cpu, ins->op3);
 
-	res = ((rword)op2) >> op3;
+	res = (ruword)(((rword)op2) >> R_MIN(op3, RVM_REGISTER_BITS - 1));
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
 	RVM_STATUS_CLRALL(cpu);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
+	RVM_STATUS_UPDATE(cpu, RVM_STATUS_N, res & RVM_SIGN_BIT);
 }
 
 
@@ -445,8 +447,7 @@ static void rvm_op_asr(rvmcpu_t *cpu, rvm_asmins_t *ins)
 {
 	ruword res, op2 = RVM_CPUREG_GETU(cpu, ins->op2), op3 = RVM_CPUREG_GETU(cpu, ins->op3);
 	
-	res = op2 >> op3;
-	res |= op2 & RVM_SIGN_BIT;
+	res = (ruword)(((rword)op2) >> R_MIN(op3, RVM_REGISTER_BITS - 1));
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
 	RVM_STATUS_CLRALL(cpu);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
@@ -460,7 +461,7 @@ static void rvm_op_ror(rvmcpu_t *cpu, rvm_asmins_t *ins)
 	ruword res, op2 = RVM_CPUREG_GETU(cpu, ins->op2), op3 = RVM_CPUREG_GETU(cpu, ins->op3);
 	
 	res = op2;
-	for (i = 0; i < op3; i++) {
+	for (i = 0; i < op3 % RVM_REGISTER_BITS; i++) {
 		if (res & 1) {
 			res >>= 1;
 			res |= RVM_SIGN_BIT;
-- 
2.43.0


From eb3dc949f066c2e75ef03b489cec00bd7e2bcc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 022/106] fix: signed multiply, divide and modulo do not
 overflow, and MODS does not print

---
 rvm/rvmcpu.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index 4dc4e9f..1b9a5d3 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -657,7 +657,7 @@ static void rvm_op_mls(rvmcpu_t *cpu, rvm_asmins_t *ins)
 	rword res;
 	rword op2 = RVM_CPUREG_GETU(cpu, ins->op2), op3 = RVM_CPUREG_GETU(cpu, ins->op3);
 
-	res = (rword)(op2 * op3);
+	res = (rword)((ruword)op2 * (ruword)op3);
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
 	/* TBD: Not sure how to update the RVM_STATUS_C */
 	RVM_STATUS_CLRALL(cpu);
@@ -717,8 +717,7 @@ static void rvm_op_mods(rvmcpu_t *cpu, rvm_asmins_t *ins)
 
 	if (!op3)
 		RVM_ABORT(cpu, RVM_E_DIVZERO);
-	res = op2 % op3;
-	r_printf("mod RES: %ld\n", res);
+	res = op3 == -1 ? 0 : op2 % op3;
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
 	RVM_STATUS_CLRALL(cpu);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
@@ -733,7 +732,7 @@ static void rvm_op_dvs(rvmcpu_t *cpu, rvm_asmins_t *ins)
 
 	if (!op3)
 		RVM_ABORT(cpu, RVM_E_DIVZERO);
-	res = (rword)(op2 / op3);
+	res = op3 == -1 ? (rword)(0 - (ruword)op2) : op2 / op3;
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
 	RVM_STATUS_CLRALL(cpu);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
-- 
2.43.0


From 0444d359182b3ae117a4ba2fd01a587825125156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 023/106] fix: POP, POPM, LDS and PUSHM stay inside the stack

---
 rvm/rvmcpu.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index 1b9a5d3..e127f0f 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -755,6 +755,8 @@ static void rvm_op_lds(rvmcpu_t *cpu, rvm_asmins_t *ins)
 {
 	ruword sp = ((ins->op2 != XX) ? RVM_CPUREG_GETU(cpu, ins->op2) : 0) + ((ins->op3 != XX) ? RVM_CPUREG_GETU(cpu, ins->op3) : 0);
 
+	if (!RVM_STACK_CHECKSIZE(cpu, cpu->stack, sp))
+		RVM_ABORT(cpu, RVM_E_NOMEM);
 	RVM_CPUREG_SET(cpu, ins->op1, RVM_STACK_READ(cpu->stack, sp));
 }
 
@@ -775,7 +777,7 @@ static void rvm_op_pushm(rvmcpu_t *cpu, rvm_asmins_t *ins)
 	ruword bits = RVM_CPUREG_GETU(cpu, ins->op1);
 	ruword sp = RVM_CPUREG_GETU(cpu, SP);
 
-	if (!RVM_STACK_CHECKSIZE(cpu, cpu->stack, sp + RVM_REGS_NUM))
+	if (!RVM_STACK_CHECKSIZE(cpu, cpu->stack, sp + 1) || !RVM_STACK_CHECKSIZE(cpu, cpu->stack, sp + RVM_REGS_NUM))
 		RVM_ABORT(cpu, RVM_E_NOMEM);
 
 	if (!(bits & ((1<<(RVM_REGS_NUM / 2)) - 1)))
@@ -804,6 +806,8 @@ static void rvm_op_popm(rvmcpu_t *cpu, rvm_asmins_t *ins)
 	for (; bits && i >= 0; i--) {
 		n = 1 << i;
 		if (n & bits) {
+			if (!RVM_STACK_CHECKSIZE(cpu, cpu->stack, sp))
+				RVM_ABORT(cpu, RVM_E_NOMEM);
 			RVM_CPUREG_SET(cpu, i, RVM_STACK_READ(cpu->stack, sp));
 			sp -= 1;
 			bits &= ~n;
@@ -818,6 +822,8 @@ static void rvm_op_pop(rvmcpu_t *cpu, rvm_asmins_t *ins)
 {
 	ruword sp = RVM_CPUREG_GETU(cpu, SP);
 
+	if (!RVM_STACK_CHECKSIZE(cpu, cpu->stack, sp))
+		RVM_ABORT(cpu, RVM_E_NOMEM);
 	RVM_CPUREG_SET(cpu, ins->op1, RVM_STACK_READ(cpu->stack, sp));
 	if (ins->op1 != SP)
 		RVM_CPUREG_SETU(cpu, SP, sp - 1);
-- 
2.43.0


From 427e2cd98fb626e13e88e8e8ee4813483445b725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 024/106] fix: an opcode without a handler stops the program
 with RVM_E_ILLEGAL

---
 rvm/rvmcpu.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index e127f0f..0953a51 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -1294,6 +1294,12 @@ static rvmcpu_op ops[] = {
 #endif
 
 
+static void rvm_op_illegal(rvmcpu_t *cpu, rvm_asmins_t *ins)
+{
+	RVM_ABORT(cpu, RVM_E_ILLEGAL);
+}
+
+
 int rvm_cpu_setophandler(rvmcpu_t *cpu, unsigned int opcode, const char *opname, rvmcpu_op op)
 {
 	if (opcode >= RVM_COUNT)
@@ -1306,6 +1312,7 @@ int rvm_cpu_setophandler(rvmcpu_t *cpu, unsigned int opcode, const char *opname,
 
 rvmcpu_t *rvm_cpu_create(unsigned long stacksize)
 {
+	unsigned int opcode;
 	rvmcpu_t *cpu;
 
 	cpu = (rvmcpu_t *)r_malloc(sizeof(*cpu));
@@ -1318,6 +1325,8 @@ rvmcpu_t *rvm_cpu_create(unsigned long stacksize)
 	cpu->data = r_carray_create(sizeof(rvmreg_t));
 	cpu->gc = r_gc_create();
 
+	for (opcode = 0; opcode < RVM_COUNT; opcode++)
+		rvm_cpu_setophandler(cpu, opcode, "ILLEGAL", rvm_op_illegal);
 	rvm_cpu_setophandler(cpu, RVM_EXT, "EXT", rvm_op_exit);
 	rvm_cpu_setophandler(cpu, RVM_ABORT, "ABORT", rvm_op_abort);
 	rvm_cpu_setophandler(cpu, RVM_PRN, "PRN", rvm_op_prn);
-- 
2.43.0


From 6254d0e3a79e759f0aa30c10bc7153d19927dda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 025/106] fix: a service call past the end of its table stops
 the program with RVM_E_SWINUM

---
 rvm/rvmcpu.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index 0953a51..bea0fab 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -565,6 +565,16 @@ static void rvm_op_dec(rvmcpu_t *cpu, rvm_asmins_t *ins)
 }
 
 
+static rvmcpu_swi rvm_switable_op(rvm_switable_t *switable, unsigned int nswi)
+{
+	for (; switable && switable->name; switable++, nswi--) {
+		if (nswi == 0)
+			return switable->op;
+	}
+	return NULL;
+}
+
+
 static void rvm_op_swi(rvmcpu_t *cpu, rvm_asmins_t *ins)
 {
 	rvmcpu_swi swi;
@@ -575,7 +585,9 @@ static void rvm_op_swi(rvmcpu_t *cpu, rvm_asmins_t *ins)
 	if (r_harray_length(cpu->switables) <= ntable)
 		RVM_ABORT(cpu, RVM_E_SWITABLE);
 	switable = r_harray_index(cpu->switables, ntable, rvm_switable_t*);
-	swi = switable[nswi].op;
+	swi = rvm_switable_op(switable, nswi);
+	if (!swi)
+		RVM_ABORT(cpu, RVM_E_SWINUM);
 	swi(cpu, ins);
 }
 
@@ -590,7 +602,9 @@ static void rvm_op_swiid(rvmcpu_t *cpu, rvm_asmins_t *ins)
 	if (r_harray_length(cpu->switables) <= ntable)
 		RVM_ABORT(cpu, RVM_E_SWITABLE);
 	switable = r_harray_index(cpu->switables, ntable, rvm_switable_t*);
-	swi = switable[nswi].op;
+	swi = rvm_switable_op(switable, nswi);
+	if (!swi)
+		RVM_ABORT(cpu, RVM_E_SWINUM);
 	swi(cpu, ins);
 }
 
-- 
2.43.0


From 8c3ab885b4ac0df8ce07984a4037cb8f57aabed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:51 +0000
Subject: [PATCH 026/106] fix: a base alternative of a left-recursive rule
 leaves the recursion size alone

---
 rpa/rpacompiler.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rpa/rpacompiler.c b/rpa/rpacompiler.c
index 5fd7847..2667648 100644
--- a/rpa/rpacompiler.c
+++ b/rpa/rpacompiler.c
@@ -735,7 +735,6 @@ int rpa_compiler_nonloopybranch_end(rpa_compiler_t *co)
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, R1, XX, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, R0, XX, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_SUBS, R0, R_TOP, R1, 0));
-	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R_LOO, R0, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_BX, LR, XX, XX, 0));
 	rvm_codegen_redefinelabel_default(co->cg, exp.endidx);
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, LR, XX, XX, 0));
-- 
2.43.0


From 580a80be01e8a3737a31abf248153c9e86573988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:34 +0000
Subject: [PATCH 027/106] fix: a left-recursive rule stops growing when an
 iteration matches no more than the last

---
 rpa/rpacompiler.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rpa/rpacompiler.c b/rpa/rpacompiler.c
index 2667648..d5ba2b2 100644
--- a/rpa/rpacompiler.c
+++ b/rpa/rpacompiler.c
@@ -389,7 +389,9 @@ int rpa_compiler_loop_end(rpa_compiler_t *co)
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, R0, XX, XX, 0));		// Pop the accumulated ret, although ignored here
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_POPM, DA, XX, XX, BIT(R1)|BIT(R_LOO)|BIT(R_OTP)|BIT(LR)));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_SUBS, R0, R_TOP, R_OTP, 0));
-	rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BRANCH, exp.failidx, rvm_asm(RVM_BEQ, DA, XX, XX, 0));	// ------------- R_TOP is the same
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_CMP, R0, R3, XX, 0));
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_BGRE, DA, XX, XX, 2));
+	rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BRANCH, exp.failidx, rvm_asm(RVM_B, DA, XX, XX, 0));	// ------------- The match didn't grow
 	if (exp.rulepref && (exp.rulepref->flags & RPA_RFLAG_EMITRECORD)) {                                            //       |
 		rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BLOB, exp.dataidx, rvm_asm(RPA_EMITEND, DA, R_OTP, R0, 0)); //      |
 	}
@@ -398,8 +400,9 @@ int rpa_compiler_loop_end(rpa_compiler_t *co)
 	rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BRANCH, exp.loopidx, rvm_asm(RVM_B, DA, XX, XX, 0));        //          |
 	rvm_codegen_redefinelabel_default(co->cg, exp.failidx);	                                                    //          |
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R_REC, R1, XX, 0));	         //        <-------------------------------------
-	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOVS, R0, DA, XX, -1));
-	rvm_codegen_addins(co->cg, rvm_asm(RVM_BX, LR, XX, XX, 0));
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R_TOP, R_OTP, XX, 0));
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R0, R3, XX, 0));
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_B, DA, XX, XX, 4));		// Keep what the previous iteration matched
 
 	/*
 	 *  END FAILED:
-- 
2.43.0


From 395728a02a5c34523454d6ffa10c4acfe314bb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:34 +0000
Subject: [PATCH 028/106] fix: records of inlined rules carry the rule's id

---
 rpa/rpadbex.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index 83347c6..b10fb66 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -1937,6 +1937,12 @@ int rpa_dbex_compile(rpadbex_t *dbex)
 	dbex->co = rpa_compiler_create();
 	rpa_dbex_setemit(dbex, TRUE);
 
+	/*
+	 * A rule can be inlined before it is compiled, so its id has to be known.
+	 */
+	for (rid = rpa_dbex_first(dbex); rid >= 0; rid = rpa_dbex_next(dbex, rid))
+		rpa_compiler_rulepref_set_ruleid_s(dbex->co, rpa_dbex_name(dbex, rid), rid);
+
 	for (rid = rpa_dbex_first(dbex); rid >= 0; rid = rpa_dbex_next(dbex, rid)) {
 		if (rpa_dbex_compile_rule(dbex, rid) < 0) {
 			RPA_DBEX_SETERRINFO_CODE(dbex, RPA_E_COMPILE);
-- 
2.43.0


From 458072299ca12d94d5e96a3bba74a7e4e174e7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:58 +0000
Subject: [PATCH 029/106] fix: records of earlier parses are not regrouped, and
 only recursion at the same position is regrouped

---
 rpa/rpastat.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/rpa/rpastat.c b/rpa/rpastat.c
index 6e7f10f..daaf9f9 100644
--- a/rpa/rpastat.c
+++ b/rpa/rpastat.c
@@ -146,13 +146,13 @@ long rpa_stat_exec(rpastat_t *stat, rvm_asmins_t *prog, ruword off, unsigned int
 	return ret;
 }
 
-static void rpa_stat_normalizeleftrecursion(rpastat_t *stat, rarray_t *records)
+static void rpa_stat_normalizeleftrecursion(rpastat_t *stat, rarray_t *records, long first)
 {
 	rparecord_t *srec, *erec;
 	long i, temp_start, strayrecs_start, strayrecs_size, strayrecs_end;
 	long size = r_array_length(records);
 
-	for (i = 1; i < size; i++) {
+	for (i = first + 1; i < size; i++) {
 		srec = (rparecord_t *) r_array_slot(records, i);
 		if ((srec->usertype & RPA_LOOP_PATH) && (srec->type & RPA_RECORD_START)) {
 			erec = rpa_record_get(records, i - 1);
@@ -160,21 +160,20 @@ static void rpa_stat_normalizeleftrecursion(rpastat_t *stat, rarray_t *records)
 				long ssize = 0, j;
 				strayrecs_end = i - 1;
 				strayrecs_start = rpa_recordtree_get(records, strayrecs_end, RPA_RECORD_START);
-				for (temp_start = rpa_recordtree_prev(records, strayrecs_start, RPA_RECORD_START); temp_start >= 0;
+				for (temp_start = rpa_recordtree_prev(records, strayrecs_start, RPA_RECORD_START); temp_start >= first;
 					temp_start = rpa_recordtree_prev(records, strayrecs_start, RPA_RECORD_START)) {
 					erec = rpa_record_get(records, temp_start);
 					if (erec && (erec->input >= srec->input) && (erec->input + erec->inputsiz <= srec->input + srec->inputsiz)) {
 						strayrecs_start = temp_start;
-						r_printf("----> strayrecs_start = %ld\n", strayrecs_start);
 						continue;
 					}
 					break;
 				}
 				strayrecs_size = strayrecs_end - strayrecs_start + 1;
 
-				for (j = 0; j < size; j++) {
-					srec = (rparecord_t *) r_array_slot(records, i + j);
-					if (!(srec->usertype & RPA_LOOP_PATH) || !(srec->type & RPA_RECORD_START)) {
+				for (j = 0; i + j < size; j++) {
+					erec = (rparecord_t *) r_array_slot(records, i + j);
+					if (!(erec->usertype & RPA_LOOP_PATH) || !(erec->type & RPA_RECORD_START) || erec->input != srec->input) {
 						break;
 					}
 					ssize++;
@@ -190,7 +189,7 @@ static void rpa_stat_normalizeleftrecursion(rpastat_t *stat, rarray_t *records)
 
 	}
 
-	for (i = 0; i < size; i++) {
+	for (i = first; i < size; i++) {
 		erec = (rparecord_t *) r_array_slot(records, i);
 		erec->usertype = 0;
 	}
@@ -203,7 +202,7 @@ static long rpa_stat_exec_rid(rpastat_t *stat, rparule_t rid, unsigned int encod
 	rpainput_t *ptp;
 	long offset;
 	rvm_asmins_t *exec;
-
+	long first = records ? (long)r_array_length(records) : 0;
 
 	exec = rpa_dbex_executable(stat->dbex);
 	if (!exec) {
@@ -222,7 +221,7 @@ static long rpa_stat_exec_rid(rpastat_t *stat, rparule_t rid, unsigned int encod
 		return 0;
 	ptp = &stat->instack[topsiz];
 	if (records)
-		rpa_stat_normalizeleftrecursion(stat, records);
+		rpa_stat_normalizeleftrecursion(stat, records, first);
 	return (long)(ptp->input - input);
 }
 
-- 
2.43.0


From 7ba22029174b130b74a8f3088eb556140f6e99d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:01 +0000
Subject: [PATCH 030/106] fix: a left-recursive reference continues the
 recursion only at the position where it started

---
 rpa/rpacompiler.c |  8 +++++++-
 rpa/rpadbex.c     | 37 +++++++++++++++++++++++++++++++++++--
 rpa/rpavm.h       |  1 +
 3 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/rpa/rpacompiler.c b/rpa/rpacompiler.c
index d5ba2b2..e25d489 100644
--- a/rpa/rpacompiler.c
+++ b/rpa/rpacompiler.c
@@ -366,6 +366,8 @@ int rpa_compiler_loop_begin(rpa_compiler_t *co, const char *name, unsigned int n
 	exp.loopidx = rpa_codegen_add_numlabel_s(co->cg, "__loop", exp.start);
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_PUSHM, DA, XX, XX, BIT(R_REC)|BIT(R_LOO)|BIT(R_TOP)|BIT(LR)));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_PUSH, R0, XX, XX, 0));
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_PUSH, R_LTP, XX, XX, 0));
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R_LTP, R_TOP, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R_LOO, R3, XX, 0));
 	if (exp.rulepref && (exp.rulepref->flags & RPA_RFLAG_EMITRECORD)) {
 		rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BLOB, exp.dataidx, rvm_asm(RPA_EMITSTART, DA, R_TOP, XX, 0));
@@ -386,6 +388,7 @@ int rpa_compiler_loop_end(rpa_compiler_t *co)
 	rpa_ruledef_t exp = r_array_pop(co->expressions, rpa_ruledef_t);
 
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R3, R_LOO, XX, 0));		// Save LOO to R3 before restoring the old one
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, R_LTP, XX, XX, 0));		// Restore the position of the outer loop
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, R0, XX, XX, 0));		// Pop the accumulated ret, although ignored here
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_POPM, DA, XX, XX, BIT(R1)|BIT(R_LOO)|BIT(R_OTP)|BIT(LR)));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_SUBS, R0, R_TOP, R_OTP, 0));
@@ -402,13 +405,14 @@ int rpa_compiler_loop_end(rpa_compiler_t *co)
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R_REC, R1, XX, 0));	         //        <-------------------------------------
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R_TOP, R_OTP, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R0, R3, XX, 0));
-	rvm_codegen_addins(co->cg, rvm_asm(RVM_B, DA, XX, XX, 4));		// Keep what the previous iteration matched
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_B, DA, XX, XX, 5));		// Keep what the previous iteration matched
 
 	/*
 	 *  END FAILED:
 	 */
 	rvm_codegen_redefinelabel_default(co->cg, exp.endidx);
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R3, R_LOO, XX, 0));		// Save LOO to R3 before restoring the old one
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, R_LTP, XX, XX, 0));		// Restore the position of the outer loop
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, R0, XX, XX, 0));		// Pop the accumulated ret, use it to save the status for return
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_POPM, DA, XX, XX, BIT(R_REC)|BIT(R_LOO)|BIT(R_TOP)|BIT(LR)));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_CMP, R0, DA, XX, 0));
@@ -722,6 +726,8 @@ int rpa_compiler_nonloopybranch_begin(rpa_compiler_t *co, unsigned int flags)
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_PUSH, R_REC, XX, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_PUSH, R_TOP, XX, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_PUSH, LR, XX, XX, 0));
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_CMP, R_TOP, R_LTP, XX, 0));
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_BNEQ, DA, XX, XX, 3));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_CMP, R_LOO, DA, XX, 0));
 	rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BRANCH, exp.endidx, rvm_asm(RVM_BGRE, DA, XX, XX, 0));
 	r_array_add(co->expressions, &exp);
diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index b10fb66..c4a1b77 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -969,13 +969,40 @@ static int rpa_dbex_rh_branch(rpadbex_t *dbex, long rec)
 }
 
 
-static void rpa_dbex_rh_loopref(rpadbex_t *dbex, rparecord_t *prec)
+/*
+ * A reference that takes part in a left recursion continues the recursion only if nothing has been
+ * consumed since the recursion started. Otherwise it is an ordinary reference.
+ */
+static long rpa_dbex_rh_loopref_begin(rpadbex_t *dbex, const char *name, unsigned long namesize)
 {
+	long loop, skip;
+
+	rvm_codegen_addins(dbex->co->cg, rvm_asm(RVM_CMP, R_TOP, R_LTP, XX, 0));
+	loop = rvm_codegen_addins(dbex->co->cg, rvm_asm(RVM_BEQ, DA, XX, XX, 0));
+	rpa_compiler_reference(dbex->co, name, namesize, RPA_MATCH_NONE);
+	rvm_codegen_index_addrelocins(dbex->co->cg, RVM_RELOC_BRANCH, RPA_COMPILER_CURRENTEXP(dbex->co)->endidx, rvm_asm(RVM_BLES, DA, XX, XX, 0));
+	skip = rvm_codegen_addins(dbex->co->cg, rvm_asm(RVM_B, DA, XX, XX, 0));
+	rvm_codegen_replaceins(dbex->co->cg, loop, rvm_asm(RVM_BEQ, DA, XX, XX, rvm_codegen_getcodesize(dbex->co->cg) - loop));
+	return skip;
+}
+
+
+static void rpa_dbex_rh_loopref_end(rpadbex_t *dbex, long skip)
+{
+	rvm_codegen_replaceins(dbex->co->cg, skip, rvm_asm(RVM_B, DA, XX, XX, rvm_codegen_getcodesize(dbex->co->cg) - skip));
+}
+
+
+static void rpa_dbex_rh_loopref(rpadbex_t *dbex, rparecord_t *prec, const char *name, unsigned long namesize)
+{
+	long skip;
+
 	/*
 	 * We ignore, it doesn't make sense for loops:
 	 * RPA_MATCH_MULTIPLE
 	 */
 	rpa_compiler_exp_begin(dbex->co, (prec->usertype & RPA_MATCH_OPTIONAL), 0);
+	skip = rpa_dbex_rh_loopref_begin(dbex, name, namesize);
 	rvm_codegen_addins(dbex->co->cg, rvm_asm(RVM_CMP, R_LOO, DA, XX, 0));
 	rvm_codegen_addins(dbex->co->cg, rvm_asm(RVM_BGRE, DA, XX, XX, 3));
 	rvm_codegen_addins(dbex->co->cg, rvm_asm(RVM_MOVS, R0, DA, XX, -1));
@@ -983,6 +1010,7 @@ static void rpa_dbex_rh_loopref(rpadbex_t *dbex, rparecord_t *prec)
 	rvm_codegen_addins(dbex->co->cg, rvm_asm(RVM_ADD, R_TOP, R_TOP, R_LOO, 0));
 	rvm_codegen_addins(dbex->co->cg, rvm_asm(RVM_MOVS, R0, R_LOO, XX, 0));
 	rvm_codegen_index_addrelocins(dbex->co->cg, RVM_RELOC_BRANCH, RPA_COMPILER_CURRENTEXP(dbex->co)->endidx, rvm_asm(RVM_BLES, DA, XX, XX, 0));
+	rpa_dbex_rh_loopref_end(dbex, skip);
 	rpa_compiler_exp_end(dbex->co);
 }
 
@@ -994,6 +1022,7 @@ static int rpa_dbex_rh_aref(rpadbex_t *dbex, long rec)
 	rpa_ruleinfo_t *info;
 	rarray_t *records = dbex->records;
 	rparecord_t *prec;
+	long skip;
 
 	rec = rpa_recordtree_get(records, rec, RPA_RECORD_START);
 	prec = rpa_dbex_record(dbex, rec);
@@ -1012,7 +1041,7 @@ static int rpa_dbex_rh_aref(rpadbex_t *dbex, long rec)
 			return -1;
 		}
 		if (rpa_dbex_findinlined(dbex, info->startrec)) {
-			rpa_dbex_rh_loopref(dbex, prec);
+			rpa_dbex_rh_loopref(dbex, prec, name, namesize);
 		} else {
 			if (prec->usertype & RPA_MATCH_OPTIONAL) {
 				/*
@@ -1025,11 +1054,15 @@ static int rpa_dbex_rh_aref(rpadbex_t *dbex, long rec)
 				 * RPA_MATCH_MULTIPLE
 				 */
 				rpa_compiler_exp_begin(dbex->co, RPA_MATCH_OPTIONAL, 0);
+				skip = rpa_dbex_rh_loopref_begin(dbex, name, namesize);
 				rpa_dbex_playrecord(dbex, info->startrec);
 				rvm_codegen_index_addrelocins(dbex->co->cg, RVM_RELOC_BRANCH, RPA_COMPILER_CURRENTEXP(dbex->co)->endidx, rvm_asm(RVM_BLES, DA, XX, XX, 0));
+				rpa_dbex_rh_loopref_end(dbex, skip);
 				rpa_compiler_exp_end(dbex->co);
 			} else {
+				skip = rpa_dbex_rh_loopref_begin(dbex, name, namesize);
 				rpa_dbex_playrecord(dbex, info->startrec);
+				rpa_dbex_rh_loopref_end(dbex, skip);
 			}
 		}
 	} else {
diff --git a/rpa/rpavm.h b/rpa/rpavm.h
index e120b6d..082af16 100644
--- a/rpa/rpavm.h
+++ b/rpa/rpavm.h
@@ -43,6 +43,7 @@ extern "C" {
 #define RPA_RFLAG_ABORTONFAIL (1 << 2)
 #define RPA_RFLAG_LEFTRECURSION (1<<3)
 
+#define R_LTP (TP - 4)
 #define R_REC (TP - 3)
 #define R_LOO (TP - 2)
 #define R_OTP (TP - 1)
-- 
2.43.0


From b01e5c5329efd7b0191aa89ddc9abbf53aa8f1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:16 +0000
Subject: [PATCH 031/106] fix: what follows an expression that consumes input
 is not left recursion

---
 rpa/rpadbex.c | 43 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index c4a1b77..7b424d0 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -1151,6 +1151,42 @@ void rpa_dbex_destroy(rpadbex_t *dbex)
 }
 
 
+/*
+ * Can this expression match without consuming anything?
+ */
+static int rpa_parseinfo_optional(rpadbex_t *dbex, long rec)
+{
+	long i;
+	rparecord_t *prec = (rparecord_t *)r_array_slot(dbex->records, rec);
+
+	if (prec->usertype & RPA_MATCH_OPTIONAL)
+		return 1;
+	if (prec->usertype & RPA_MATCH_MULTIPLE)
+		return 0;
+	switch (prec->ruleuid) {
+	case RPA_PRODUCTION_MINOP:
+		i = rpa_recordtree_firstchild(dbex->records, rec, RPA_RECORD_START);
+		return (i >= 0) ? rpa_parseinfo_optional(dbex, i) : 1;
+	case RPA_PRODUCTION_REQOP:
+	case RPA_PRODUCTION_BRACKETEXP:
+		for (i = rpa_recordtree_firstchild(dbex->records, rec, RPA_RECORD_START); i >= 0; i = rpa_recordtree_next(dbex->records, i, RPA_RECORD_START)) {
+			if (!rpa_parseinfo_optional(dbex, i))
+				return 0;
+		}
+		return 1;
+	case RPA_PRODUCTION_CREF:
+	case RPA_PRODUCTION_AREF:
+	case RPA_PRODUCTION_CHAR:
+	case RPA_PRODUCTION_CLS:
+	case RPA_PRODUCTION_SPECIALCHAR:
+	case RPA_PRODUCTION_NOTOP:
+	case RPA_PRODUCTION_OROP:
+		return 0;
+	}
+	return 1;
+}
+
+
 static int rpa_parseinfo_loopdetect_do(rpadbex_t *dbex, long parent, long loopto, int inderction)
 {
 	unsigned long namesiz;
@@ -1198,8 +1234,11 @@ static int rpa_parseinfo_loopdetect_do(rpadbex_t *dbex, long parent, long loopto
 				break;
 		}
 
-		if ((prec->usertype & RPA_MATCH_OPTIONAL) == 0 && (prec->ruleuid == RPA_PRODUCTION_CREF || prec->ruleuid == RPA_PRODUCTION_AREF ||
-				prec->ruleuid == RPA_PRODUCTION_CHAR || prec->ruleuid == RPA_PRODUCTION_CLS || prec->ruleuid == RPA_PRODUCTION_SPECIALCHAR))
+		/*
+		 * What follows something that consumes input can't be part of the loop. The branches of
+		 * an alternative don't follow each other, neither do the two sides of an exclusion.
+		 */
+		if (prec->ruleuid != RPA_PRODUCTION_REQOP && !rpa_parseinfo_optional(dbex, i))
 			break;
 
 	}
-- 
2.43.0


From dec107f7e7aa687bd57e7f3665f8467b26cd810d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:49 +0000
Subject: [PATCH 032/106] fix: an expression that can match nothing is not
 ruled out by the next character

---
 rpa/rpabitmap.c | 5 +++++
 rpa/rpastat.c   | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/rpa/rpabitmap.c b/rpa/rpabitmap.c
index 0f6eae8..25e36a6 100644
--- a/rpa/rpabitmap.c
+++ b/rpa/rpabitmap.c
@@ -169,6 +169,11 @@ static long rpa_bitmap_set_expression(rarray_t *records, rparecord_t *record, lo
 			if (!(childrecord->usertype & RPA_MATCH_OPTIONAL))
 				break;
 		}
+		/*
+		 * This can match nothing, so it matters not what is next in the input.
+		 */
+		if (child < 0 && (record->ruleuid == RPA_PRODUCTION_REQOP || record->ruleuid == RPA_PRODUCTION_BRACKETEXP))
+			RPA_BITMAP_SETALL(RPA_RECORD2BITMAP(record));
 	}
 	return 0;
 }
diff --git a/rpa/rpastat.c b/rpa/rpastat.c
index daaf9f9..55717a1 100644
--- a/rpa/rpastat.c
+++ b/rpa/rpastat.c
@@ -297,6 +297,8 @@ rboolean rpa_stat_matchbitmap(rpastat_t *stat, long top, rpabitmap_t bitmap)
 	int ret = FALSE;
 	rpainput_t *in = &stat->instack[top];
 
+	if (bitmap == (rpabitmap_t)-1)
+		return TRUE;
 	if (in->eof)
 		return 0;
 	if (stat->encoding & RPA_ENCODING_ICASE) {
-- 
2.43.0


From f60afbd10413f184c97023affdbefe988bcfa271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:21 +0000
Subject: [PATCH 033/106] fix: the first characters of a left-recursive rule
 include those of the rules it recurses through

---
 rpa/rpabitmap.c | 11 +++++++++--
 rpa/rpabitmap.h |  2 ++
 rpa/rpadbex.c   |  7 +++++++
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/rpa/rpabitmap.c b/rpa/rpabitmap.c
index 25e36a6..9e09a78 100644
--- a/rpa/rpabitmap.c
+++ b/rpa/rpabitmap.c
@@ -270,12 +270,19 @@ static long rpa_bitmap_set_numrng(rarray_t *records, rparecord_t *record, long r
 static long rpa_bitmap_set_ref(rarray_t *records, rparecord_t *record, long rec, rpointer userdata)
 {
 	rpa_bitmapcompiler_t *bc = (rpa_bitmapcompiler_t*)userdata;
-	if ((record->type & RPA_RECORD_END) && (record->usertype & RPA_LOOP_PATH) == 0) {
+	if (record->type & RPA_RECORD_END) {
 		long child = rpa_recordtree_firstchild(records, rec, RPA_RECORD_END);
 		if (child >= 0) {
 			rparecord_t *childrecord = rpa_record_get(records, child);
 			rparule_t rid = rpa_dbex_lookup(bc->dbex, childrecord->input, childrecord->inputsiz);
-			if (rid >= 0) {
+			if ((record->usertype & RPA_LOOP_PATH) && rid == bc->rid) {
+				/*
+				 * The rule we are computing
+				 */
+				RPA_BITMAP_SETVAL(RPA_RECORD2BITMAP(record), bc->self);
+			} else if (record->usertype & RPA_LOOP_PATH) {
+				RPA_BITMAP_SETALL(RPA_RECORD2BITMAP(record));
+			} else if (rid >= 0) {
 				RPA_BITMAP_SETVAL(RPA_RECORD2BITMAP(record), rpa_dbex_getrulebitmap(bc->dbex, rid));
 			}
 
diff --git a/rpa/rpabitmap.h b/rpa/rpabitmap.h
index 7bb3efe..87d534b 100644
--- a/rpa/rpabitmap.h
+++ b/rpa/rpabitmap.h
@@ -60,6 +60,8 @@ typedef struct rpa_bitmapcompiler_s {
 	rpadbex_t *dbex;
 	ruint32 beginchar;
 	ruint32 endchar;
+	rparule_t rid;
+	rpabitmap_t self;
 } rpa_bitmapcompiler_t;
 
 long rpa_bitmap_set(rarray_t *records, long rec, rpointer userdata);
diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index 7b424d0..691e8b3 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -66,8 +66,15 @@ static void rpa_dbex_buildbitmapinfo_for_rule(rpadbex_t *dbex, rparule_t rid)
 	if ((info = (rpa_ruleinfo_t *)r_harray_get(rules, rid)) != NULL) {
 		rpa_rulepref_t *rulepref = rpa_compiler_rulepref_lookup_s(dbex->co, rpa_dbex_name(dbex, rid));
 		rparecord_t *record = rpa_record_get(dbex->records, info->startrec);
+		bc.rid = rid;
 		RPA_BITMAP_SETALL(RPA_RECORD2BITMAP(record));
 		rpa_recordtree_walk(dbex->records, info->startrec, 0, rpa_bitmap_set, (rpointer)&bc);
+		/*
+		 * Now we know what the left-recursive references to this rule can start with.
+		 */
+		bc.self = RPA_BITMAP_GETVAL(RPA_RECORD2BITMAP(record));
+		if (bc.self)
+			rpa_recordtree_walk(dbex->records, info->startrec, 0, rpa_bitmap_set, (rpointer)&bc);
 		if (rulepref && (rulepref->flags & RPA_RFLAG_ABORTONFAIL))
 			rpa_dbex_bitmapinfo_set_all(dbex, rid);
 	}
-- 
2.43.0


From 66070f548af33f0611cd8aaf0b439d03b9e04365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:47 +0000
Subject: [PATCH 034/106] fix: the bitmap of an exclusion lets through what an
 excluded abort rule has to see

---
 rpa/rpabitmap.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rpa/rpabitmap.c b/rpa/rpabitmap.c
index 9e09a78..6222a94 100644
--- a/rpa/rpabitmap.c
+++ b/rpa/rpabitmap.c
@@ -198,10 +198,12 @@ static long rpa_bitmap_set_minop(rarray_t *records, rparecord_t *record, long re
 	if (record->type & RPA_RECORD_END) {
 		long child;
 
-		child = rpa_recordtree_firstchild(records, rec, RPA_RECORD_END);
-		if (child >= 0) {
+		/*
+		 * What is excluded is tried first, and it can abort.
+		 */
+		for (child = rpa_recordtree_firstchild(records, rec, RPA_RECORD_END); child >= 0; child = rpa_recordtree_next(records, child, RPA_RECORD_END)) {
 			rparecord_t *childrecord = rpa_record_get(records, child);
-			RPA_BITMAP_SETVAL(RPA_RECORD2BITMAP(record), RPA_BITMAP_GETVAL(RPA_RECORD2BITMAP(childrecord)));
+			RPA_BITMAP_ORBITS(RPA_RECORD2BITMAP(record), RPA_RECORD2BITMAP(childrecord));
 		}
 	}
 	return 0;
-- 
2.43.0


From d0be52aca774141fba01ff5f761c14fcbed7218b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:13 +0000
Subject: [PATCH 035/106] fix: a record tree is walked to any depth

---
 rpa/rparecord.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/rpa/rparecord.c b/rpa/rparecord.c
index fa4f1c9..8b9c7f4 100644
--- a/rpa/rparecord.c
+++ b/rpa/rparecord.c
@@ -227,20 +227,18 @@ int rpa_recordtree_move(rarray_t *records, long dst, long src, long size)
 
 long rpa_recordtree_walk(rarray_t *records, long rec, long level, rpa_recordtree_callback callback, rpointer userdata)
 {
-	long child;
+	long start = rpa_recordtree_get(records, rec, RPA_RECORD_START);
+	long end = rpa_recordtree_get(records, rec, RPA_RECORD_END);
 
-	if (level > 128)
+	if (start < 0 || end < 0)
 		return -1;
-	rec = rpa_recordtree_get(records, rec, RPA_RECORD_START);
-	if (callback && callback(records, rec, userdata) < 0)
-		return -1;
-	for (child = rpa_recordtree_firstchild(records, rec, RPA_RECORD_START); child >= 0; child = rpa_recordtree_next(records, child, RPA_RECORD_START)) {
-		if (rpa_recordtree_walk(records, child, level + 1, callback, userdata) < 0)
+	/*
+	 * The records of a branch are already in the order we visit them.
+	 */
+	for (rec = start; rec <= end; rec++) {
+		if (callback && callback(records, rec, userdata) < 0)
 			return -1;
 	}
-	rec = rpa_recordtree_get(records, rec, RPA_RECORD_END);
-	if (callback && callback(records, rec, userdata) < 0)
-		return -1;
 	return 0;
 }
 
-- 
2.43.0


From 1163e1c51904559e5ce83c5efa187bf34a77760d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:13 +0000
Subject: [PATCH 036/106] fix: rpa_recordtree_copy copies the branch it was
 asked for

---
 rpa/rparecord.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpa/rparecord.c b/rpa/rparecord.c
index 8b9c7f4..1ad2f04 100644
--- a/rpa/rparecord.c
+++ b/rpa/rparecord.c
@@ -193,7 +193,7 @@ long rpa_recordtree_copy(rarray_t *dst, rarray_t *src, long rec)
 	size = rpa_recordtree_size(src, rec);
 
 	for (i = 0; i < size; i++) {
-		prec = rpa_record_get(src, i);
+		prec = rpa_record_get(src, rec + i);
 		r_array_add(dst, prec);
 	}
 	return size;
-- 
2.43.0


From d77bef97cc657fe9682e6b7327bc737ce0070ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:13 +0000
Subject: [PATCH 037/106] fix: record accessors refuse positions past the end
 of the array

---
 rpa/rparecord.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rpa/rparecord.c b/rpa/rparecord.c
index 1ad2f04..0e87532 100644
--- a/rpa/rparecord.c
+++ b/rpa/rparecord.c
@@ -269,7 +269,7 @@ long rpa_record_getruleuid(rarray_t *records, long rec)
 	if (rec < 0)
 		return -1;
 	rec = rpa_recordtree_get(records, rec, RPA_RECORD_START);
-	if (rec >= (long)r_array_length(records))
+	if (rec < 0)
 		return -1;
 	prec = (rparecord_t *)r_array_slot(records, rec);
 	return prec->ruleuid;
@@ -283,12 +283,12 @@ void rpa_record_setusertype(rarray_t *records, long rec, ruint32 usertype, rvals
 	if (rec < 0)
 		return;
 	rec = rpa_recordtree_get(records, rec, RPA_RECORD_START);
-	if (rec >= (long)r_array_length(records))
+	if (rec < 0)
 		return;
 	prec = (rparecord_t *)r_array_slot(records, rec);
 	rpa_recordptr_setusertype(prec, usertype, op);
 	rec = rpa_recordtree_get(records, rec, RPA_RECORD_END);
-	if (rec >= (long)r_array_length(records))
+	if (rec < 0)
 		return;
 	prec = (rparecord_t *)r_array_slot(records, rec);
 	rpa_recordptr_setusertype(prec, usertype, op);
@@ -302,7 +302,7 @@ long rpa_record_getusertype(rarray_t *records, long rec)
 	if (rec < 0)
 		return -1;
 	rec = rpa_recordtree_get(records, rec, RPA_RECORD_START);
-	if (rec >= (long)r_array_length(records))
+	if (rec < 0)
 		return -1;
 	prec = (rparecord_t *)r_array_slot(records, rec);
 	return prec->usertype;
-- 
2.43.0


From 3e002d3e2cf8f5cf6350c90495b6326adbcf6305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:13 +0000
Subject: [PATCH 038/106] fix: rpa_recordtree_move refuses a source outside the
 array

---
 rpa/rparecord.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpa/rparecord.c b/rpa/rparecord.c
index 0e87532..5990f89 100644
--- a/rpa/rparecord.c
+++ b/rpa/rparecord.c
@@ -204,7 +204,7 @@ int rpa_recordtree_move(rarray_t *records, long dst, long src, long size)
 {
 	long i;
 	rparecord_t *srcrec, *dstrec;
-	if ((dst + size) > (long)r_array_length(records))
+	if (dst < 0 || src < 0 || (dst + size) > (long)r_array_length(records) || (src + size) > (long)r_array_length(records))
 		return -1;
 	if (dst == src)
 		return 0;
-- 
2.43.0


From fc4520bfddccb07bed101b551df81e996b621e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:31 +0000
Subject: [PATCH 039/106] fix: rpa_record_dump stays inside its buffer and
 inside the record array

---
 rpa/rparecord.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rpa/rparecord.c b/rpa/rparecord.c
index 5990f89..19a4269 100644
--- a/rpa/rparecord.c
+++ b/rpa/rparecord.c
@@ -354,7 +354,7 @@ void rpa_record_dump(rarray_t *records, long rec, int wantuserdata)
 	int n = 0, size;
 	char optc = ' ';
 
-	if (rec < 0 || rec >= (long)records->alloc_size)
+	if (rec < 0 || rec >= (long)r_array_length(records))
 		return;
 	prec = (rparecord_t *)r_array_slot(records, rec);
 	if (prec->type & RPA_RECORD_END) {
@@ -382,6 +382,8 @@ void rpa_record_dump(rarray_t *records, long rec, int wantuserdata)
 	if (prec->type & RPA_RECORD_END)
 		n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "END   ");
 	n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "%s ", prec->rule);
+	if (n > bufsize)
+		n = bufsize;
 
 	r_memset(buf + n, ' ', bufsize - n);
 	n = 90;
-- 
2.43.0


From c65a7f1232a4c97ca18845e1891eba95a1424e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:31 +0000
Subject: [PATCH 040/106] fix: input outside its bounds is refused with
 RPA_E_INVALIDINPUT

---
 rpa/rpastat.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rpa/rpastat.c b/rpa/rpastat.c
index 55717a1..eb38fdc 100644
--- a/rpa/rpastat.c
+++ b/rpa/rpastat.c
@@ -118,7 +118,11 @@ long rpa_stat_exec(rpastat_t *stat, rvm_asmins_t *prog, ruword off, unsigned int
 		return -1;
 	}
 	rpa_stat_cacheinvalidate(stat);
-	rpa_stat_init(stat, encoding, input, start, end, records);
+	if (rpa_stat_init(stat, encoding, input, start, end, records) < 0) {
+		r_memset(&stat->err, 0, sizeof(stat->err));
+		RPA_STAT_SETERROR_CODE(stat, RPA_E_INVALIDINPUT);
+		return -1;
+	}
 
 	if (stat->debug) {
 		ret = rvm_cpu_exec_debug(stat->cpu, prog, off);
-- 
2.43.0


From 3d5ba32c972d318806ca27eea5926cfec7710531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:31 +0000
Subject: [PATCH 041/106] fix: a failed execution always leaves an error code

---
 rpa/rpastat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpa/rpastat.c b/rpa/rpastat.c
index eb38fdc..31a7302 100644
--- a/rpa/rpastat.c
+++ b/rpa/rpastat.c
@@ -130,7 +130,7 @@ long rpa_stat_exec(rpastat_t *stat, rvm_asmins_t *prog, ruword off, unsigned int
 		ret = rvm_cpu_exec(stat->cpu, prog, off);
 	}
 	if (ret < 0) {
-		if (!stat->cpu->error) {
+		if (!stat->err.code) {
 			if (stat->cpu->error) {
 				RPA_STAT_SETERROR_CODE(stat, stat->cpu->error);
 			} else {
-- 
2.43.0


From ab867e210c0fecd94be4011df33faf6f26b8caf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:31 +0000
Subject: [PATCH 042/106] fix: a scan goes on at the next character after a
 rule aborts

---
 rpa/rpastat.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/rpa/rpastat.c b/rpa/rpastat.c
index 31a7302..f8b9d64 100644
--- a/rpa/rpastat.c
+++ b/rpa/rpastat.c
@@ -262,12 +262,8 @@ long rpa_stat_scan(rpastat_t *stat, rparule_t rid, unsigned int encoding, const
 			*where = input;
 			return ret;
 		}
-		if (topsiz == 0) {
-			ptp = &stat->instack[0];
-			input += ptp->wcsize;
-		} else {
-			input += 1;
-		}
+		ptp = &stat->instack[0];
+		input += ptp->wcsize;
 	}
 	return 0;
 }
-- 
2.43.0


From 47dec219ba6fef2c9b3b58c615d82500526f559d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:31 +0000
Subject: [PATCH 043/106] fix: an error does not keep the position and name of
 the one before

---
 rpa/rpadbex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index 691e8b3..108a6ff 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -31,7 +31,7 @@
 #include "rpa/rpastatpriv.h"
 
 
-#define RPA_DBEX_SETERRINFO_CODE(__d__, __e__) do { (__d__)->err.code = __e__; (__d__)->err.mask |= RPA_ERRINFO_CODE; } while (0)
+#define RPA_DBEX_SETERRINFO_CODE(__d__, __e__) do { (__d__)->err.code = __e__; (__d__)->err.mask = RPA_ERRINFO_CODE; } while (0)
 #define RPA_DBEX_SETERRINFO_OFFSET(__d__, __o__) do { (__d__)->err.offset = __o__; (__d__)->err.mask |= RPA_ERRINFO_OFFSET; } while (0)
 #define RPA_DBEX_SETERRINFO_LINE(__d__, __l__) do { (__d__)->err.line = __l__; (__d__)->err.mask |= RPA_ERRINFO_LINE; } while (0)
 #define RPA_DBEX_SETERRINFO_NAME(__d__, __n__, __s__) do { \
-- 
2.43.0


From 33a0d64bac63429abfa9e64377090057457c00eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:31 +0000
Subject: [PATCH 044/106] fix: rpa_dbex_name refuses a negative rule id

---
 rpa/rpadbex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index 108a6ff..700b575 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -1849,7 +1849,7 @@ const char *rpa_dbex_name(rpadbex_t *dbex, rparule_t rid)
 		RPA_DBEX_SETERRINFO_CODE(dbex, RPA_E_NOTCLOSED);
 		return NULL;
 	}
-	if (rid >= (rparule_t)r_array_length(dbex->rules->members))
+	if (rid < 0 || rid >= (rparule_t)r_array_length(dbex->rules->members))
 		return NULL;
 	name = r_array_index(dbex->rules->names, rid, rstr_t*);
 	return name->str;
-- 
2.43.0


From 5d75ab9e75cdee237733dc5f3facc314617601cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:36 +0000
Subject: [PATCH 045/106] fix: rpa_record2long reads only the record's own text

---
 rpa/rpadbex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index 700b575..baa5b44 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -262,9 +262,9 @@ int rpa_record2long(rparecord_t *prec, ruint32 *num)
 	r_memset(buffer, 0, sizeof(buffer));
 	r_memcpy(buffer, prec->input, prec->inputsiz);
 	if (prec->ruleuid == RPA_PRODUCTION_HEX) {
-		*num = (ruint32)r_strtoul(prec->input, &endptr, 16);
+		*num = (ruint32)r_strtoul(buffer, &endptr, 16);
 	} else if (prec->ruleuid == RPA_PRODUCTION_DEC) {
-		*num = (ruint32)r_strtoul(prec->input, &endptr, 10);
+		*num = (ruint32)r_strtoul(buffer, &endptr, 10);
 	} else {
 		return -1;
 	}
-- 
2.43.0


From b80ba5de49d7d1a3ad329b72f250e932f77dffd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:36 +0000
Subject: [PATCH 046/106] fix: rules after a zero byte are loaded too

---
 rpa/rpadbex.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index baa5b44..4af061a 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -1517,8 +1517,9 @@ long rpa_dbex_load(rpadbex_t *dbex, const char *rules, unsigned long size)
 		return -1;
 	}
 
-	text = r_strndup(rules, size);
+	text = (char*)r_zmalloc(size + 1);
 	R_ASSERT(text);
+	r_memcpy(text, rules, size);
 	r_array_add(dbex->text, &text);
 	r_array_setlength(dbex->temprecords, 0);
 	if ((ret = rpa_parser_load(dbex->pa, text, size, dbex->temprecords)) < 0) {
-- 
2.43.0


From 247ed511d0663f06d6e3a5995f5ba4e08a1def7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:36 +0000
Subject: [PATCH 047/106] fix: a grammar the parser gives up on leaves an error
 code

---
 rpa/rpadbex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index 4af061a..0ed0d6e 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -1523,7 +1523,7 @@ long rpa_dbex_load(rpadbex_t *dbex, const char *rules, unsigned long size)
 	r_array_add(dbex->text, &text);
 	r_array_setlength(dbex->temprecords, 0);
 	if ((ret = rpa_parser_load(dbex->pa, text, size, dbex->temprecords)) < 0) {
-
+		RPA_DBEX_SETERRINFO_CODE(dbex, rpa_stat_lasterror(dbex->pa->stat));
 		return -1;
 	}
 	if (ret != (long)size) {
-- 
2.43.0


From c5634c70bbe3577b97814df080023eb270c45c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:10 +0000
Subject: [PATCH 048/106] fix: signs and letters without a case counterpart
 match only themselves when the case is ignored

---
 rlib/rcharconv.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rlib/rcharconv.c b/rlib/rcharconv.c
index 0d9ff57..d0fc44c 100644
--- a/rlib/rcharconv.c
+++ b/rlib/rcharconv.c
@@ -39,6 +39,12 @@ unsigned long r_charhigh(unsigned long c)
 
 unsigned long r_charicase(unsigned long c)
 {
+	/*
+	 * These are inside the ranges below, but have no counterpart there.
+	 */
+	if (c == 0x00D7 || c == 0x00F7 || c == 0x00DF || c == 0x00FF ||
+			c == 0x0390 || c == 0x03B0 || c == 0x03A2 || c == 0x03C2)
+		return c;
 	if (c >= 'A' && c <= 'Z')
 		return c + ('a' - 'A');
 	else if (c >= 'a' && c <= 'z')
-- 
2.43.0


From 2b15cff983ae9c7c420799f8c3d23d1949dc6fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:57 +0000
Subject: [PATCH 049/106] fix: rpa_record_dumpindented prints a record whose
 end is missing

---
 rpa/rparecord.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rpa/rparecord.c b/rpa/rparecord.c
index 19a4269..fd143b2 100644
--- a/rpa/rparecord.c
+++ b/rpa/rparecord.c
@@ -430,7 +430,8 @@ void rpa_record_dumpindented(rarray_t *records, long rec, int level)
 	r_printf("%s, %c, %c", prec->rule, rpa_record_optchar(prec, 'x'), rpa_record_loopchar(prec, 'x'));
 	r_printf(")");
 	rec = rpa_recordtree_get(records, rec, RPA_RECORD_END);
-	prec = (rparecord_t *)r_array_slot(records, rec);
+	if (rec >= 0)
+		prec = (rparecord_t *)r_array_slot(records, rec);
 	size = R_MIN(prec->inputsiz, sizeof(buffer) - 1);
 	r_strncpy(buffer, prec->input, size);
 
-- 
2.43.0


From fed5f09ccacc97599318cdb72cb96be7954d5fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:57 +0000
Subject: [PATCH 050/106] fix: an undefined rule in a recursive rule is
 reported by name

---
 rpa/rpadbex.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index 0ed0d6e..e69b917 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -2009,6 +2009,7 @@ int rpa_dbex_compile(rpadbex_t *dbex)
 		RPA_DBEX_SETERRINFO_CODE(dbex, RPA_E_NOTCLOSED);
 		return -1;
 	}
+	r_memset(&dbex->err, 0, sizeof(dbex->err));
 	/*
 	 * By default all production rules emit
 	 */
@@ -2025,7 +2026,11 @@ int rpa_dbex_compile(rpadbex_t *dbex)
 
 	for (rid = rpa_dbex_first(dbex); rid >= 0; rid = rpa_dbex_next(dbex, rid)) {
 		if (rpa_dbex_compile_rule(dbex, rid) < 0) {
-			RPA_DBEX_SETERRINFO_CODE(dbex, RPA_E_COMPILE);
+			/*
+			 * An undefined rule has already been reported with its name
+			 */
+			if (dbex->err.code != RPA_E_UNRESOLVEDSYMBOL)
+				RPA_DBEX_SETERRINFO_CODE(dbex, RPA_E_COMPILE);
 			return -1;
 		}
 	}
-- 
2.43.0


From d361353f846e85dbe4d937f63706db581dc9e83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:34 +0000
Subject: [PATCH 051/106] fix: rules loaded after a compilation are compiled as
 if they had been there from the start

---
 rpa/rpadbex.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index e69b917..43faff2 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -1299,6 +1299,11 @@ static void rpa_dbex_buildloopinfo(rpadbex_t *dbex)
 	rharray_t *rules = dbex->rules;
 	rpa_ruleinfo_t *info;
 
+	/*
+	 * Other rules might have been loaded since the loops were last marked.
+	 */
+	for (i = 0; i < r_array_length(dbex->records); i++)
+		((rparecord_t *)r_array_slot(dbex->records, i))->usertype &= ~(RPA_LOOP_PATH | RPA_NONLOOP_PATH);
 	for (i = 0; i < r_array_length(rules->members); i++) {
 		if ((info = (rpa_ruleinfo_t *)r_harray_get(rules, i)) != NULL)
 			rpa_parseinfo_marklooppath(dbex, info->startrec);
@@ -2001,6 +2006,7 @@ static int rpa_dbex_compile_rule(rpadbex_t *dbex, rparule_t rid)
 int rpa_dbex_compile(rpadbex_t *dbex)
 {
 	rparule_t rid;
+	long i;
 	rvm_codelabel_t *labelerr;
 
 	if (!dbex)
@@ -2010,6 +2016,12 @@ int rpa_dbex_compile(rpadbex_t *dbex)
 		return -1;
 	}
 	r_memset(&dbex->err, 0, sizeof(dbex->err));
+	/*
+	 * Nothing of an earlier compilation, which might have failed, is valid any more.
+	 */
+	r_array_setlength(dbex->inlinestack, 0);
+	for (i = 0; i < (long)r_array_length(dbex->records); i++)
+		RPA_BITMAP_CLRALL(RPA_RECORD2BITMAP((rparecord_t *)r_array_slot(dbex->records, i)));
 	/*
 	 * By default all production rules emit
 	 */
-- 
2.43.0


From 9e57798af6fb0bce1ecb2ccd704049b2629642fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:37 +0000
Subject: [PATCH 052/106] fix: a directive can not be run as a rule

---
 rpa/rpadbex.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index 43faff2..c392ede 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -2088,7 +2088,10 @@ long rpa_dbex_executableoffset(rpadbex_t *dbex, rparule_t rid)
 		return -1;
 	}
 	info = (rpa_ruleinfo_t *)r_harray_get(dbex->rules, rid);
-	if (!info) {
+	if (!info || info->type == RPA_RULEINFO_DIRECTIVE) {
+		/*
+		 * A directive has no code
+		 */
 		RPA_DBEX_SETERRINFO_CODE(dbex, RPA_E_NOTFOUND);
 		return -1;
 	}
-- 
2.43.0


From e940f4bbf2f2b44c3faf9571b7f4ffa1a11a9fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:37 +0000
Subject: [PATCH 053/106] fix: rpa_dbex_dumpcode refuses rules that are not
 compiled

---
 rpa/rpadbex.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index c392ede..95c830b 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -1804,6 +1804,10 @@ int rpa_dbex_dumpcode(rpadbex_t* dbex, rparule_t rid)
 		RPA_DBEX_SETERRINFO_CODE(dbex, RPA_E_NOTCLOSED);
 		return -1;
 	}
+	if (!dbex->compiled) {
+		RPA_DBEX_SETERRINFO_CODE(dbex, RPA_E_NOTCOMPILED);
+		return -1;
+	}
 	info = (rpa_ruleinfo_t *)r_harray_get(dbex->rules, rid);
 	if (!info)
 		return -1;
-- 
2.43.0


From 02c4c4e3a55ed5e88729981eb02bf4be9462023e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:55 +0000
Subject: [PATCH 054/106] fix: a rule name of 256 characters or more keeps its
 data

---
 rpa/rpacompiler.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/rpa/rpacompiler.c b/rpa/rpacompiler.c
index e25d489..d9ec637 100644
--- a/rpa/rpacompiler.c
+++ b/rpa/rpacompiler.c
@@ -308,17 +308,17 @@ void rpa_compiler_rulepref_set_s(rpa_compiler_t *co, const char *name, long rule
 }
 
 
-#define RPA_RULEBLOB_SIZE (RPA_RULENAME_MAXSIZE + sizeof(rpa_ruledata_t) + 2*sizeof(unsigned long))
-
 long rpa_compiler_addblob(rpa_compiler_t *co, long ruleid, long ruleuid, unsigned long flags, const char *name, unsigned long namesize)
 {
-	char blob[RPA_RULEBLOB_SIZE];
+	char *blob;
 	char *ptr;
-	rpa_ruledata_t *pblob = (rpa_ruledata_t *)blob;
+	long dataidx;
+	rpa_ruledata_t *pblob;
 
-	if (namesize >= RPA_RULENAME_MAXSIZE)
+	blob = (char *)r_zmalloc(sizeof(rpa_ruledata_t) + namesize + 1);
+	if (!blob)
 		return -1;
-	r_memset(pblob, 0, RPA_RULEBLOB_SIZE);
+	pblob = (rpa_ruledata_t *)blob;
 	ptr = blob + sizeof(rpa_ruledata_t);
 	pblob->name = (unsigned long)(ptr - blob);
 	pblob->ruleid = ruleid;
@@ -328,7 +328,9 @@ long rpa_compiler_addblob(rpa_compiler_t *co, long ruleid, long ruleuid, unsigne
 	r_strncpy(ptr, name, namesize);
 	ptr += namesize;
 	pblob->size = (long)(ptr - blob + 1);
-	return rvm_codegen_adddata_s(co->cg, NULL, pblob, pblob->size);
+	dataidx = rvm_codegen_adddata_s(co->cg, NULL, pblob, pblob->size);
+	r_free(blob);
+	return dataidx;
 }
 
 
-- 
2.43.0


From b5d8bd7cd7311c98cf1e3e84da73457d7eb6e359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:20 +0000
Subject: [PATCH 055/106] fix: a compilation stops at the rule that fails

---
 rpa/rpadbex.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index 95c830b..212e03a 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -1062,13 +1062,15 @@ static int rpa_dbex_rh_aref(rpadbex_t *dbex, long rec)
 				 */
 				rpa_compiler_exp_begin(dbex->co, RPA_MATCH_OPTIONAL, 0);
 				skip = rpa_dbex_rh_loopref_begin(dbex, name, namesize);
-				rpa_dbex_playrecord(dbex, info->startrec);
+				if (rpa_dbex_playrecord(dbex, info->startrec) < 0)
+					return -1;
 				rvm_codegen_index_addrelocins(dbex->co->cg, RVM_RELOC_BRANCH, RPA_COMPILER_CURRENTEXP(dbex->co)->endidx, rvm_asm(RVM_BLES, DA, XX, XX, 0));
 				rpa_dbex_rh_loopref_end(dbex, skip);
 				rpa_compiler_exp_end(dbex->co);
 			} else {
 				skip = rpa_dbex_rh_loopref_begin(dbex, name, namesize);
-				rpa_dbex_playrecord(dbex, info->startrec);
+				if (rpa_dbex_playrecord(dbex, info->startrec) < 0)
+					return -1;
 				rpa_dbex_rh_loopref_end(dbex, skip);
 			}
 		}
-- 
2.43.0


From cd00cf2501926aa55b77c5b88b2600f85cf08e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:13 +0000
Subject: [PATCH 056/106] fix: the JSON lexer takes the escape \/ in strings

---
 rexjson/rexjsondfa.rexcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexjson/rexjsondfa.rexcc b/rexjson/rexjsondfa.rexcc
index 46a4fc1..8ca4794 100644
--- a/rexjson/rexjsondfa.rexcc
+++ b/rexjson/rexjsondfa.rexcc
@@ -21,7 +21,7 @@
 #define TOKEN_RIGHTCB 273
 
 %%
-TOKEN_STRING        "([^"\\#0x0-#0x1F]|[\\](["\\bfnrt]|u[0-9a-fA-F][0-9a-fA-F][0-9a-fA-F][0-9a-fA-F]))*"
+TOKEN_STRING        "([^"\\#0x0-#0x1F]|[\\](["\\/bfnrt]|u[0-9a-fA-F][0-9a-fA-F][0-9a-fA-F][0-9a-fA-F]))*"
 TOKEN_INT           -?[0-9]|-?[1-9][0-9]+
 TOKEN_NUMBER        -?([1-9][0-9]*|0)([.][0-9]+)?([eE][+\-]?[0-9]+)?
 TOKEN_TRUE          true
-- 
2.43.0


From d7d3df90df7d06b9a414e666c5c39ce60a5089fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:13 +0000
Subject: [PATCH 057/106] fix: the JSON reader does not lose characters read
 past the end of a token

---
 rexjson/rexjson++.cpp | 25 +++++++++++++++++--------
 rexjson/rexjson++.h   |  1 +
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index 247b397..a6ac710 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -576,21 +576,27 @@ void input::get_token()
 {
 	rexdfss_t *acc_ss = NULL;
 	rexuint_t nstate = REX_DFA_STARTSTATE;
+	size_t pos = 0;
+	int c;
 	char ch = 0;
 
+	/* What was read past the end of the previous token is still to be tokenized */
 	loctok_.clear();
 	token_.clear();
 	token_id_ = 0;
-	while (is_) {
-		++offset_;
-		ch = is_.get();
+	while (true) {
+		if (pos == pending_.size()) {
+			if ((c = is_.get()) == std::istream::traits_type::eof())
+				break;
+			pending_ += std::istream::traits_type::to_char_type(c);
+		}
+		ch = pending_[pos];
 		loctok_ += ch;
 		REX_DFA_NEXT(dfa, nstate, ch, &nstate);
-		if (nstate == REX_DFA_DEADSTATE) {
-			is_.unget();
-			--offset_;
+		if (nstate == REX_DFA_DEADSTATE)
 			break;
-		}
+		++pos;
+		++offset_;
 		if (ch == '\n') {
 			errline_++;
 			errpos_ = 1;
@@ -607,6 +613,9 @@ void input::get_token()
 			token_ = loctok_;
 		}
 	}
+	offset_ -= pos - token_.size();
+	errpos_ -= pos - token_.size();
+	pending_.erase(0, token_.size());
 }
 
 void input::read_steam(value& v, size_t maxlevels)
@@ -630,7 +639,7 @@ void input::next_token()
 void input::error_unexpectedtoken()
 {
 	std::ostringstream os;
-	os << "Unexpected (" << errline_ << ":" << errpos_ + 1 - loctok_.length() << "): " << "'" << loctok_ << "' at offset " << offset_ + 1 - loctok_.length();
+	os << "Unexpected (" << errline_ << ":" << errpos_ - token_.length() << "): " << "'" << loctok_ << "' at offset " << offset_ - token_.length();
 	throw std::runtime_error(os.str());
 }
 
diff --git a/rexjson/rexjson++.h b/rexjson/rexjson++.h
index d90de34..5554ef6 100644
--- a/rexjson/rexjson++.h
+++ b/rexjson/rexjson++.h
@@ -236,6 +236,7 @@ protected:
 	std::istream& is_;
 	std::string token_;
 	std::string loctok_;
+	std::string pending_;
 	int token_id_;
 	size_t offset_;
 	size_t levels_;
-- 
2.43.0


From fd27043378aa7433f14edb56afa11ed6156d2bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:13 +0000
Subject: [PATCH 058/106] fix: JSON strings are escaped when written and
 unescaped when read, and only then

---
 rexjson/rexjson++.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index a6ac710..f59db5e 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -51,10 +51,7 @@ std::string value::get_typename(unsigned int type)
 static void escape_str_val(const value& v, std::ostream& os)
 {
 	for (std::string::const_iterator it = v.get_str().begin(); it != v.get_str().end(); it++) {
-		if (*it == '\\' && (it + 1) != v.get_str().end()) {
-			os << *it++;
-			os << *it;
-		} else if (*it == '"') {
+		if (*it == '"' || *it == '\\') {
 			os << '\\' << *it;
 		} else if (*it == '\b') {
 			os << "\\b";
@@ -66,6 +63,8 @@ static void escape_str_val(const value& v, std::ostream& os)
 			os << "\\r";
 		} else if (*it == '\t') {
 			os << "\\t";
+		} else if (static_cast<unsigned char>(*it) < 0x20) {
+			os << "\\u00" << (*it >> 4) << "0123456789abcdef"[*it & 0xf];
 		} else {
 			os << *it;
 		}
@@ -164,13 +163,13 @@ value::value(const value& v)
 value::value(const char* v)
 {
 	value_type_ = str_type;
-	store_.v_string_ = new std::string(unescape_str(v));
+	store_.v_string_ = new std::string(v);
 }
 
 value::value(const std::string& v)
 {
 	value_type_ = str_type;
-	store_.v_string_ = new std::string(unescape_str(v));
+	store_.v_string_ = new std::string(v);
 }
 
 value::value(bool v)
@@ -386,7 +385,7 @@ value& value::operator=(double v)
 
 value& value::operator=(const std::string& v)
 {
-	std::string *tmp = new std::string(unescape_str(v));
+	std::string *tmp = new std::string(v);
 
 	destroy();
 	value_type_ = str_type;
@@ -702,7 +701,7 @@ void input::parse_primitive(value& v)
 {
 	switch (token_id_) {
 	case TOKEN_STRING:
-		v = (token_.length() > 2) ? token_.substr(1, token_.length() - 2) : std::string();
+		v = (token_.length() > 2) ? unescape_str(token_.substr(1, token_.length() - 2)) : std::string();
 		break;
 	case TOKEN_INT:
 		v = (int64_t)strtoll(token_.c_str(), NULL, 10);
@@ -766,7 +765,7 @@ int main(int argc, const char *argv[])
 	std::cout << std::endl << std::endl;
 
 	rexjson::value v = rexjson::object();
-	v["prop1"] = "Value \\\"one\\\"";
+	v["prop1"] = "Value \"one\"";
 	v["prop2"] = "Value \u0434\u0432\u0435 two \u0434\u0432\u0435";
 	v["prop3"] = rexjson::array();
 	v["prop3"].push_back().read("\"Value 3\"");
-- 
2.43.0


From a34b73201d5c624aa0cdec73b51e041ef8c078aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:13 +0000
Subject: [PATCH 059/106] fix: JSON member names are escaped and unescaped like
 strings

---
 rexjson/rexjson++.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index f59db5e..a33a522 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -48,9 +48,9 @@ std::string value::get_typename(unsigned int type)
 	return ret;
 }
 
-static void escape_str_val(const value& v, std::ostream& os)
+static void escape_str(const std::string& s, std::ostream& os)
 {
-	for (std::string::const_iterator it = v.get_str().begin(); it != v.get_str().end(); it++) {
+	for (std::string::const_iterator it = s.begin(); it != s.end(); it++) {
 		if (*it == '"' || *it == '\\') {
 			os << '\\' << *it;
 		} else if (*it == '\b') {
@@ -494,7 +494,9 @@ void output::write_stream_namevalue(const std::string& n, const value& v, std::o
 	std::string indent(level * tabsize_, ' ');
 	if (pretty_)
 		os << indent;
-	os << '"' << n << '"';
+	os << '"';
+	escape_str(n, os);
+	os << '"';
 	if (pretty_)
 		os << ' ';
 	os << ":";
@@ -531,7 +533,7 @@ void output::write_stream(const value& v, std::ostream& os, size_t level)
 		}
 	} else if (v.value_type_ == str_type) {
 		os << '"';
-		escape_str_val(v, os);
+		escape_str(v.get_str(), os);
 		os << '"';
 	} else if (v.value_type_ == obj_type) {
 		size_t elems = 0;
@@ -653,7 +655,7 @@ void input::parse_name(std::string &str)
 {
 	if (token_id_ != TOKEN_STRING)
 		error_unexpectedtoken();
-	str = (token_.length() > 2) ? token_.substr(1, token_.length() - 2) : std::string();
+	str = (token_.length() > 2) ? unescape_str(token_.substr(1, token_.length() - 2)) : std::string();
 	next_token();
 }
 
-- 
2.43.0


From 5e51208d5112139cb96e77d1e23fbe4e338c0041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:13 +0000
Subject: [PATCH 060/106] fix: \u escapes are decoded to UTF-8 bytes in order

---
 rexjson/rexjson++.cpp | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index a33a522..1db42e5 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -103,24 +103,15 @@ static std::string unescape_str(const std::string& s)
 		} else if (*it == '\\' && (it + 5) < s.end() && *(it + 1) == 'u') {
 			std::string ustr(it + 2, it + 6);
 			unsigned int wc = static_cast<unsigned int>(std::strtol(ustr.c_str(), NULL, 16));
-			unsigned int count = 0;
-			if (wc <= 0x007F)
-				count = 1;
-			else if (wc <= 0x07FF)
-				count = 2;
-			else if (wc <= 0xFFFF)
-				count = 3;
-			switch (count) {
-				case 3:
-					os << static_cast<unsigned char>(0x80 | (wc & 0x3f));
-					wc = wc >> 6;
-					wc |= 0x800;
-				case 2:
-					os << static_cast<unsigned char>(0x80 | (wc & 0x3f));
-					wc = wc >> 6;
-					wc |= 0xc0;
-				case 1:
-					os << static_cast<unsigned char>(wc);
+			if (wc <= 0x007F) {
+				os << static_cast<unsigned char>(wc);
+			} else if (wc <= 0x07FF) {
+				os << static_cast<unsigned char>(0xc0 | (wc >> 6));
+				os << static_cast<unsigned char>(0x80 | (wc & 0x3f));
+			} else {
+				os << static_cast<unsigned char>(0xe0 | (wc >> 12));
+				os << static_cast<unsigned char>(0x80 | ((wc >> 6) & 0x3f));
+				os << static_cast<unsigned char>(0x80 | (wc & 0x3f));
 			}
 			it += 5;
 		} else if (*it == '\\' && (it + 1) < s.end()) {
-- 
2.43.0


From cd3dc004c5e0738a7fc4bfb972b97b7bc226be5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:13 +0000
Subject: [PATCH 061/106] fix: a surrogate pair of \u escapes is one character

---
 rexjson/rexjson++.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index 1db42e5..1b75251 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -103,11 +103,23 @@ static std::string unescape_str(const std::string& s)
 		} else if (*it == '\\' && (it + 5) < s.end() && *(it + 1) == 'u') {
 			std::string ustr(it + 2, it + 6);
 			unsigned int wc = static_cast<unsigned int>(std::strtol(ustr.c_str(), NULL, 16));
+			if (wc >= 0xD800 && wc <= 0xDBFF && it + 11 < s.end() && *(it + 6) == '\\' && *(it + 7) == 'u') {
+				unsigned int low = static_cast<unsigned int>(std::strtol(std::string(it + 8, it + 12).c_str(), NULL, 16));
+				if (low >= 0xDC00 && low <= 0xDFFF) {
+					wc = 0x10000 + ((wc - 0xD800) << 10) + (low - 0xDC00);
+					it += 6;
+				}
+			}
 			if (wc <= 0x007F) {
 				os << static_cast<unsigned char>(wc);
 			} else if (wc <= 0x07FF) {
 				os << static_cast<unsigned char>(0xc0 | (wc >> 6));
 				os << static_cast<unsigned char>(0x80 | (wc & 0x3f));
+			} else if (wc > 0xFFFF) {
+				os << static_cast<unsigned char>(0xf0 | (wc >> 18));
+				os << static_cast<unsigned char>(0x80 | ((wc >> 12) & 0x3f));
+				os << static_cast<unsigned char>(0x80 | ((wc >> 6) & 0x3f));
+				os << static_cast<unsigned char>(0x80 | (wc & 0x3f));
 			} else {
 				os << static_cast<unsigned char>(0xe0 | (wc >> 12));
 				os << static_cast<unsigned char>(0x80 | ((wc >> 6) & 0x3f));
-- 
2.43.0


From c4f4f3365f2f23d5cdec21647b1f1dbb2a24492a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:13 +0000
Subject: [PATCH 062/106] fix: NaN and negative infinity are not written as
 JSON

---
 rexjson/rexjson++.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index 1b75251..4b9bc31 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -19,6 +19,7 @@
 #include <sstream>
 #include <stdexcept>
 #include <cstdlib>
+#include <cmath>
 #include <limits>
 #include "rexjson++.h"
 #include "rexjsondfa.h"
@@ -527,7 +528,7 @@ void output::write_stream(const value& v, std::ostream& os, size_t level)
 	} else if (v.value_type_ == int_type) {
 		os << v.get_int64();
 	} else if (v.value_type_ == real_type) {
-		if (v.get_real() != std::numeric_limits<double>::infinity() && v.get_real() != std::numeric_limits<double>::quiet_NaN()) {
+		if (std::isfinite(v.get_real())) {
 			os.precision(precision_);
 			os.setf(std::ios::fixed, std:: ios::floatfield);
 			os << v.get_real();
-- 
2.43.0


From ee506e0556c0064362ea9fd6fb260c27354a8af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:13 +0000
Subject: [PATCH 063/106] fix: a JSON value can be assigned or moved from a
 part of itself

---
 rexjson/rexjson++.cpp | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index 4b9bc31..469929f 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -151,10 +151,16 @@ void value::destroy()
 
 void value::move(value& v)
 {
-	value_type_ = v.value_type_;
-	store_ = v.store_;
+	value_type type = v.value_type_;
+	decltype(store_) store = v.store_;
+
+	if (&v == this)
+		return;
 	v.value_type_ = null_type;
 	v.store_.v_null_ = NULL;
+	destroy();
+	value_type_ = type;
+	store_ = store;
 }
 
 value::value(const value& v)
@@ -348,10 +354,11 @@ void value::check_type(value_type vtype) const
 
 value& value::operator=(const char* v)
 {
+	std::string *tmp = new std::string(v);
+
 	destroy();
-	check_type(null_type);
 	value_type_ = str_type;
-	store_.v_string_ = new std::string(v);
+	store_.v_string_ = tmp;
 	return *this;
 }
 
@@ -421,16 +428,18 @@ value& value::operator=(const value& v)
 {
 	if (&v == this)
 		return *this;
+	/* v may be a part of this value, copy it before anything is destroyed */
+	value_type type = v.value_type_;
+	decltype(store_) store = v.store_;
+	if (type == str_type)
+		store.v_string_ = new std::string(*v.store_.v_string_);
+	else if (type == array_type)
+		store.v_array_ = new array(*v.store_.v_array_);
+	else if (type == obj_type)
+		store.v_object_ =  new object(*v.store_.v_object_);
 	destroy();
-	value_type_ = v.value_type_;
-	if (get_type() == str_type)
-		store_.v_string_ = new std::string(*v.store_.v_string_);
-	else if (get_type() == array_type)
-		store_.v_array_ = new array(*v.store_.v_array_);
-	else if (get_type() == obj_type)
-		store_.v_object_ =  new object(*v.store_.v_object_);
-	else
-		store_ = v.store_;
+	value_type_ = type;
+	store_ = store;
 	return *this;
 }
 
-- 
2.43.0


From b12fe2f2639d7144104a4be61c79736d763c1d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:13 +0000
Subject: [PATCH 064/106] fix: a JSON value made from an unsigned int keeps its
 value

---
 rexjson/rexjson++.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index 469929f..bceb5ac 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -197,7 +197,7 @@ value::value(int v)
 value::value(unsigned int v)
 {
 	value_type_ = int_type;
-	store_.v_int_ = (signed int)v;
+	store_.v_int_ = v;
 }
 
 value::value(long int v)
-- 
2.43.0


From 05ed8266cd3dcf8e59d522ba6ec067e2f4118273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:13 +0000
Subject: [PATCH 065/106] fix: JSON integers beyond 64 bits are read as reals

---
 rexjson/rexjson++.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index bceb5ac..d92d4b2 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -18,6 +18,7 @@
 
 #include <sstream>
 #include <stdexcept>
+#include <cerrno>
 #include <cstdlib>
 #include <cmath>
 #include <limits>
@@ -719,7 +720,10 @@ void input::parse_primitive(value& v)
 		v = (token_.length() > 2) ? unescape_str(token_.substr(1, token_.length() - 2)) : std::string();
 		break;
 	case TOKEN_INT:
+		errno = 0;
 		v = (int64_t)strtoll(token_.c_str(), NULL, 10);
+		if (errno == ERANGE)
+			v = strtod(token_.c_str(), NULL);
 		break;
 	case TOKEN_NUMBER:
 		v = strtod(token_.c_str(), NULL);
-- 
2.43.0


From b6eb593b2b55c6e1c58b75636d9736ecfefba3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:13 +0000
Subject: [PATCH 066/106] fix: the spans of JSON arrays and objects end with
 their closing bracket

---
 rexjson/rexjson.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/rexjson/rexjson.c b/rexjson/rexjson.c
index 89babab..8c21bf0 100644
--- a/rexjson/rexjson.c
+++ b/rexjson/rexjson.c
@@ -50,6 +50,7 @@ static void rexjson_get_token(rexjson_t *ctx)
 	int size = ctx->bufsize - ctx->offset;
 
 	ctx->token_str = buffer;
+	ctx->token_offset = ctx->offset;
 	ctx->token_size = 0;
 	ctx->token_id = -1;
 	for (i = 0; i < size; i++) {
@@ -69,7 +70,6 @@ static void rexjson_get_token(rexjson_t *ctx)
 		}
 	}
 	if (ctx->token_size > 0) {
-		ctx->token_offset = ctx->offset;
 		ctx->offset += ctx->token_size;
 	}
 }
@@ -130,7 +130,7 @@ static ssize_t rexjson_parse_namevalue(rexjson_t* ctx)
 
 static ssize_t rexjson_parse_object(rexjson_t* ctx)
 {
-	size_t cur_offset = ctx->token_offset;
+	size_t cur_offset = ctx->token_offset, end_offset;
 	rexjson_record_t *record = rexjson_record_current(ctx);
 
 	if (rexjson_parse_token(ctx, TOKEN_LEFTCB) < 0)
@@ -145,17 +145,18 @@ static ssize_t rexjson_parse_object(rexjson_t* ctx)
 				return -1;
 		}
 	}
+	end_offset = ctx->token_offset + ctx->token_size;
 	if (rexjson_parse_token(ctx, TOKEN_RIGHTCB) < 0)
 		return -1;
 	record->value = cur_offset;
-	record->valuesize = ctx->token_offset - cur_offset;
+	record->valuesize = end_offset - cur_offset;
 	record->valtype = REXJSON_VALUE_OBJECT;
-	return (ctx->token_offset - cur_offset);
+	return (end_offset - cur_offset);
 }
 
 static ssize_t rexjson_parse_array(rexjson_t* ctx)
 {
-	size_t cur_offset = ctx->token_offset;
+	size_t cur_offset = ctx->token_offset, end_offset;
 	rexjson_record_t *record = rexjson_record_current(ctx);
 
 	if (rexjson_parse_token(ctx, TOKEN_LEFTSB) < 0)
@@ -170,12 +171,13 @@ static ssize_t rexjson_parse_array(rexjson_t* ctx)
 				return -1;
 		}
 	}
+	end_offset = ctx->token_offset + ctx->token_size;
 	if (rexjson_parse_token(ctx, TOKEN_RIGHTSB) < 0)
 		return -1;
 	record->value = cur_offset;
-	record->valuesize = ctx->token_offset - cur_offset;
+	record->valuesize = end_offset - cur_offset;
 	record->valtype = REXJSON_VALUE_ARRAY;
-	return (ctx->token_offset - cur_offset);
+	return (end_offset - cur_offset);
 }
 
 
-- 
2.43.0


From c16ac701fd21976ebe93281e0b9453d69eab7626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:13 +0000
Subject: [PATCH 067/106] fix: the JSON records end with an empty record where
 there is room

---
 rexjson/rexjson.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rexjson/rexjson.c b/rexjson/rexjson.c
index 8c21bf0..1afd6ec 100644
--- a/rexjson/rexjson.c
+++ b/rexjson/rexjson.c
@@ -335,9 +335,14 @@ void rexjson_dump_records(FILE *file, rexjson_record_t* recs, size_t recsize, co
 
 ssize_t rexjson_parse_buffer(rexjson_t *ctx, rexjson_record_t* recs, size_t recsize, const char* buffer, size_t bufsize, size_t maxlevels)
 {
+	ssize_t ret;
+
 	rexjson_init(ctx, recs, recsize, buffer, bufsize, maxlevels);
 	rexjson_next_token(ctx);
-	return rexjson_parse_value(ctx);
+	ret = rexjson_parse_value(ctx);
+	if (ctx->top < ctx->stacksize)
+		memset(&ctx->stack[ctx->top], 0, sizeof(rexjson_record_t));
+	return ret;
 }
 
 static ssize_t rexjson_recordtree_end(rexjson_record_t* recs, size_t recsize, ssize_t rec_index)
-- 
2.43.0


From 79f9b322960b754dcf0c64eae5ce9856aee3b3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:40 +0000
Subject: [PATCH 068/106] fix: an RPC request whose params are not an array is
 answered with its identifier

---
 rexjsonrpc/rpcserver.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rexjsonrpc/rpcserver.h b/rexjsonrpc/rpcserver.h
index 030a979..3005148 100644
--- a/rexjsonrpc/rpcserver.h
+++ b/rexjsonrpc/rpcserver.h
@@ -420,14 +420,14 @@ public:
 		try {
 			if (val.get_type() != rexjson::obj_type)
 				throw create_rpc_error(RPC_PARSE_ERROR, "top-level object parse error");
+			rexjson::object::const_iterator id_it = val.get_obj().find("id");
+			if (id_it != val.get_obj().end())
+				id = id_it->second;
 			rexjson::object::const_iterator params_it = val.get_obj().find("params");
 			if (params_it != val.get_obj().end() && params_it->second.type() != rexjson::array_type)
 				throw create_rpc_error(RPC_INVALID_REQUEST, "params must be an array");
 			if (params_it != val.get_obj().end())
 				params = params_it->second.get_array();
-			rexjson::object::const_iterator id_it = val.get_obj().find("id");
-			if (id_it != val.get_obj().end())
-				id = id_it->second;
 			rexjson::object::const_iterator method_it = val.get_obj().find("method");
 			if (method_it == val.get_obj().end())
 				throw create_rpc_error(RPC_INVALID_REQUEST, "missing method");
-- 
2.43.0


From fe67a7c577204ec881ae9f21e52d4171df914ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:40 +0000
Subject: [PATCH 069/106] fix: 64-bit integers of any type are taken from a
 JSON value whole

---
 rexjson/rexjson++.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexjson/rexjson++.h b/rexjson/rexjson++.h
index 5554ef6..f5a9243 100644
--- a/rexjson/rexjson++.h
+++ b/rexjson/rexjson++.h
@@ -111,7 +111,7 @@ public:
 	template<typename T>
 	void get(T& ret) const
 	{
-		ret = get_int();
+		ret = get_int64();
 	}
 
 	template<typename T>
-- 
2.43.0


From 34257cadc919f9eae35a7d6f6d07246da5fde233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:40 +0000
Subject: [PATCH 070/106] fix: properties without an object, and parts of the
 assigned property, can be assigned

---
 rexjsonrpc/property.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rexjsonrpc/property.cpp b/rexjsonrpc/property.cpp
index 2657849..fd7a6e6 100644
--- a/rexjsonrpc/property.cpp
+++ b/rexjsonrpc/property.cpp
@@ -35,7 +35,7 @@ property::property()
 
 property::property(const property& v)
 {
-	object_ = v.object_->duplicate();
+	object_ = v.object_ ? v.object_->duplicate() : nullptr;
 }
 
 property::property(property&& v)
@@ -73,8 +73,10 @@ property& property::operator[](const std::string& name)
 
 property& property::operator=(const property& v)
 {
+	iproperty_object *object = v.object_ ? v.object_->duplicate() : nullptr;
+
 	delete(object_);
-	object_ = v.object_->duplicate();
+	object_ = object;
 	return *this;
 }
 
@@ -98,6 +100,8 @@ rexjson::value property::get_prop()
 
 property_access property::access() const
 {
+	if (!object_)
+		throw std::runtime_error("Invalid property");
 	return object_->access();
 }
 
-- 
2.43.0


From 608dd282058d49e912712590b59df4a8239dc3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:40 +0000
Subject: [PATCH 071/106] fix: a refused write to a property range changes none
 of it

---
 rexjsonrpc/property.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rexjsonrpc/property.h b/rexjsonrpc/property.h
index 5271f64..9449c16 100644
--- a/rexjsonrpc/property.h
+++ b/rexjsonrpc/property.h
@@ -24,6 +24,7 @@
 
 #include <assert.h>
 #include <functional>
+#include <algorithm>
 #include "rexjson/rexjson++.h"
 
 namespace rexjson {
@@ -284,12 +285,14 @@ public:
 		base::check_hook_(val);
 		size_t i = 0;
 		const rexjson::array& a = val.get_array();
+		std::vector<T> values(base::propaddr_, base::propaddr_ + size_);
 		for (auto v : a) {
 			if (i >= size_)
 				throw std::range_error("The array of values passed is of bigger size than the property range.");
-			base::set_prop_impl(base::propaddr_ + i, v);
+			base::set_prop_impl(&values[i], v);
 			++i;
 		}
+		std::copy(values.begin(), values.begin() + i, base::propaddr_);
 		base::modified_hook_(base::ctx_);
 	}
 
-- 
2.43.0


From 365bf6ab427f47f982aba6181c5955abdfbb6ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:40 +0000
Subject: [PATCH 072/106] fix: a write-only property range can not be read

---
 rexjsonrpc/property.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rexjsonrpc/property.h b/rexjsonrpc/property.h
index 9449c16..b92a7f6 100644
--- a/rexjsonrpc/property.h
+++ b/rexjsonrpc/property.h
@@ -298,6 +298,8 @@ public:
 
 	virtual rexjson::value get_prop() override
 	{
+		if ((base::access_ & property_access::readonly) == 0)
+			throw std::runtime_error("No read access");
 		rexjson::array ret;
 		for (size_t i = 0; i < size_; i++) {
 			ret.push_back(base::get_prop_impl(base::propaddr_ + i));
-- 
2.43.0


From 2492fdddcca7c27aa4a0ae86e46bdddbb6747dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:40 +0000
Subject: [PATCH 073/106] fix: a property index must be a number

---
 rexjsonrpc/property.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexjsonrpc/property.h b/rexjsonrpc/property.h
index b92a7f6..1b92969 100644
--- a/rexjsonrpc/property.h
+++ b/rexjsonrpc/property.h
@@ -451,7 +451,7 @@ public:
 	virtual property& operator[](const std::string& name)
 	{
 		size_t idx = atol(name.c_str());
-		if (idx >= array_.size())
+		if (name.find_first_not_of("0123456789") != std::string::npos || idx >= array_.size())
 			throw std::range_error("Invalid index");
 		return array_.operator [](idx);
 	}
-- 
2.43.0


From 393078d13873122cf61a5106fb3e976efa93f72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 074/106] fix: rexcc does not read its context after destroying
 it

---
 rexcc/rexccmain.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rexcc/rexccmain.c b/rexcc/rexccmain.c
index 4ba073e..77666d9 100644
--- a/rexcc/rexccmain.c
+++ b/rexcc/rexccmain.c
@@ -100,6 +100,7 @@ int main(int argc, const char *argv[])
 	rexcc_t *pCC;
 	int i, ret = 0, dumponly = 0;
 	int withsubstates = 0;
+	unsigned int showtime = 0;
 	FILE *devnull = NULL;
 	rexdb_t *tempdb = NULL;
 	FILE *cfile = stdout;
@@ -203,8 +204,9 @@ int main(int argc, const char *argv[])
 	}
 
 end:
+	showtime = pCC->showtime;
 	rex_cc_destroy(pCC);
-	if (pCC->showtime) {
+	if (showtime) {
 		fprintf(stdout, "memory: %ld KB (leaked %ld Bytes)\n", (long)r_debug_get_maxmem()/1024, (long)r_debug_get_allocmem());
 	}
 	if (devnull)
-- 
2.43.0


From 72325d4f4ec276ca36cf53835c8a8cf1e912c5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 075/106] fix: rexcc exits with a failing status if the
 specification is not valid

---
 rexcc/rexcc.c     | 3 ++-
 rexcc/rexccmain.c | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/rexcc/rexcc.c b/rexcc/rexcc.c
index 9e800b1..12cd2fb 100644
--- a/rexcc/rexcc.c
+++ b/rexcc/rexcc.c
@@ -493,8 +493,9 @@ int rex_cc_load_buffer(rexcc_t *pCC, rbuffer_t *text)
 			fprintf(stdout, "\n");
 #endif
 		}
+		return 0;
 	}
-	return 0;
+	return -1;
 }
 
 
diff --git a/rexcc/rexccmain.c b/rexcc/rexccmain.c
index 77666d9..0703c76 100644
--- a/rexcc/rexccmain.c
+++ b/rexcc/rexccmain.c
@@ -168,6 +168,7 @@ int main(int argc, const char *argv[])
 					/*
 					 * Error
 					 */
+					ret = 2;
 				}
 				if (pCC->startuid >= 0) {
 					tempdb = rex_db_createdfa(pCC->nfa, pCC->startuid);
@@ -184,6 +185,8 @@ int main(int argc, const char *argv[])
 				/*
 				 * Error
 				 */
+				fprintf(stderr, "Failed to open file: %s\n", argv[i]);
+				ret = 2;
 			}
 			break;
 		} else if (argv[i][1] == 'o'){
-- 
2.43.0


From 5308d103d35aeb32afe0ac63f54c100281ed2e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 076/106] fix: rexcc -D without an automaton has nothing to
 dump

---
 rexcc/rexccmain.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexcc/rexccmain.c b/rexcc/rexccmain.c
index 0703c76..8e50b6f 100644
--- a/rexcc/rexccmain.c
+++ b/rexcc/rexccmain.c
@@ -194,7 +194,7 @@ int main(int argc, const char *argv[])
 		}
 	}
 	if (dumponly == 1) {
-		for (i = 0; i < (int)pCC->dfa->nstates; i++) {
+		for (i = 0; pCC->dfa && i < (int)pCC->dfa->nstates; i++) {
 			rex_dfa_dumpstate(pCC->dfa, i);
 		}
 		goto end;
-- 
2.43.0


From 36aecd50955388941ad11c734414c6311131cdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 077/106] fix: the prolog of a rexcc file ends at a line
 containing only %%

---
 rexcc/rexcc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexcc/rexcc.c b/rexcc/rexcc.c
index 12cd2fb..a6cc9c7 100644
--- a/rexcc/rexcc.c
+++ b/rexcc/rexcc.c
@@ -433,7 +433,7 @@ int rex_cc_parse(rexcc_t *pCC)
 	pCC->prolog.s = pCC->input;
 	pCC->prolog.size = 0;
 	while (pCC->input + 3 < pCC->end) {
-		if (*pCC->input == '%' && *(pCC->input+1) == '%' && (*(pCC->input+2) == '\n' || (*(pCC->input+2) == '\r' && *(pCC->input+3) == '\n'))) {
+		if ((pCC->input == pCC->start || *(pCC->input-1) == '\n') && *pCC->input == '%' && *(pCC->input+1) == '%' && (*(pCC->input+2) == '\n' || (*(pCC->input+2) == '\r' && *(pCC->input+3) == '\n'))) {
 			break;
 		}
 		pCC->prolog.size += 1;
-- 
2.43.0


From 162fd2a995af3533590320adaa6a2b427aa9eb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 078/106] fix: a quoted character as user data in a rexcc file
 ends at its closing quote

---
 rexcc/rexcc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexcc/rexcc.c b/rexcc/rexcc.c
index a6cc9c7..124688d 100644
--- a/rexcc/rexcc.c
+++ b/rexcc/rexcc.c
@@ -55,7 +55,7 @@ struct parseinfo_s {
 
 static struct tokeninfo_s tokens[] = {
 		{REXCC_TOKEN_DELIMITER,		"delimiter",	"%%[ \\t]?[\\r]?[\\n]"},
-		{REXCC_TOKEN_IDENTIFIER,	"identifier",	"([^\\t\\r\\n\'\" ]+|\"([^\"\\n]|\\\\\")*\")+|'.+'"},
+		{REXCC_TOKEN_IDENTIFIER,	"identifier",	"([^\\t\\r\\n\'\" ]+|\"([^\"\\n]|\\\\\")*\")+|'([^'\\r\\n\\\\]|\\\\.)+'"},
 		{REXCC_TOKEN_SPACE,			"space",		"[ \\t]+"},
 		{REXCC_TOKEN_CR,			"cr ",			"[\\r]?[\\n]"},
 		{REXCC_TOKEN_REGEX,			"regex",		"[ \\t](\\\\[\\r]?[\\n]|.)+\\r?\\n"},
-- 
2.43.0


From 5e59ed1461ccf06a6d199615416a06b1e6e89260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 079/106] fix: an rpc_server without a derived class can be
 made

---
 rexjsonrpc/rpcserver.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rexjsonrpc/rpcserver.h b/rexjsonrpc/rpcserver.h
index 3005148..c05d2fc 100644
--- a/rexjsonrpc/rpcserver.h
+++ b/rexjsonrpc/rpcserver.h
@@ -195,8 +195,8 @@ public:
 	rpc_server()
 	{
 		add("help", this, &rpc_server::rpc_help);
-		add("spec", &rpc_server::rpc_spec);
-		add("helpspec", &rpc_server::rpc_helpspec);
+		add("spec", this, &rpc_server::rpc_spec);
+		add("helpspec", this, &rpc_server::rpc_helpspec);
 	}
 
 	~rpc_server()
-- 
2.43.0


From 567fb608b308cd34cd195245a7b1cb41e24c3f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 080/106] fix: a rexcc pattern that ends with an escaped
 backslash ends at its line

---
 rexcc/rexcc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexcc/rexcc.c b/rexcc/rexcc.c
index 124688d..8591d81 100644
--- a/rexcc/rexcc.c
+++ b/rexcc/rexcc.c
@@ -58,7 +58,7 @@ static struct tokeninfo_s tokens[] = {
 		{REXCC_TOKEN_IDENTIFIER,	"identifier",	"([^\\t\\r\\n\'\" ]+|\"([^\"\\n]|\\\\\")*\")+|'([^'\\r\\n\\\\]|\\\\.)+'"},
 		{REXCC_TOKEN_SPACE,			"space",		"[ \\t]+"},
 		{REXCC_TOKEN_CR,			"cr ",			"[\\r]?[\\n]"},
-		{REXCC_TOKEN_REGEX,			"regex",		"[ \\t](\\\\[\\r]?[\\n]|.)+\\r?\\n"},
+		{REXCC_TOKEN_REGEX,			"regex",		"[ \\t](\\\\([\\r]?[\\n]|.)|[^\\\\\\n])+\\r?\\n"},
 		{0, NULL, NULL},
 };
 
-- 
2.43.0


From 2e00a083a9e5181b5531aaed2e8f6f374cc8fa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 081/106] fix: a lexer that includes only rexdfatypes.h
 compiles

---
 rex/rexdfatypes.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rex/rexdfatypes.h b/rex/rexdfatypes.h
index 6e7ee21..e8b36f1 100644
--- a/rex/rexdfatypes.h
+++ b/rex/rexdfatypes.h
@@ -1,6 +1,8 @@
 #ifndef _REXDFATYPES_H_
 #define _REXDFATYPES_H_
 
+#include <stddef.h>
+
 #ifdef __cplusplus
 extern "C" {
 #endif
-- 
2.43.0


From 50850a9d800ca46f7d86a5575c3725656ab91f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 082/106] fix: a string as user data in a rexcc file ends at
 its closing quote

---
 rexcc/rexcc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexcc/rexcc.c b/rexcc/rexcc.c
index 8591d81..5b00826 100644
--- a/rexcc/rexcc.c
+++ b/rexcc/rexcc.c
@@ -55,7 +55,7 @@ struct parseinfo_s {
 
 static struct tokeninfo_s tokens[] = {
 		{REXCC_TOKEN_DELIMITER,		"delimiter",	"%%[ \\t]?[\\r]?[\\n]"},
-		{REXCC_TOKEN_IDENTIFIER,	"identifier",	"([^\\t\\r\\n\'\" ]+|\"([^\"\\n]|\\\\\")*\")+|'([^'\\r\\n\\\\]|\\\\.)+'"},
+		{REXCC_TOKEN_IDENTIFIER,	"identifier",	"([^\\t\\r\\n\'\" ]+|\"([^\"\\n\\\\]|\\\\.)*\")+|'([^'\\r\\n\\\\]|\\\\.)+'"},
 		{REXCC_TOKEN_SPACE,			"space",		"[ \\t]+"},
 		{REXCC_TOKEN_CR,			"cr ",			"[\\r]?[\\n]"},
 		{REXCC_TOKEN_REGEX,			"regex",		"[ \\t](\\\\([\\r]?[\\n]|.)|[^\\\\\\n])+\\r?\\n"},
-- 
2.43.0


From 42ffdf3c1c6930c9fb47f297be825639e5579f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 083/106] fix: rexgrep's exit status tells a match from none

---
 rexgrep/rexgrep.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rexgrep/rexgrep.c b/rexgrep/rexgrep.c
index 9af468e..ef5638f 100644
--- a/rexgrep/rexgrep.c
+++ b/rexgrep/rexgrep.c
@@ -200,6 +200,7 @@ static int rex_grep_dfascan(rexgrep_t *pGrep, const char* start, const char* end
 				REX_GREP_SHIFT(shifter, 1, REX_HASH_BYTES, REX_HASH_BITS, nextshift, end);
 			}
 		} else if (ret > 0) {
+			pGrep->ret = 0;
 			if (pGrep->showfilename) {
 				fprintf(stdout, "%s:", (const char*)pGrep->filename);
 			}
@@ -238,6 +239,7 @@ static int rex_grep_nfascan(rexgrep_t *pGrep, const char* start, const char* end
 			 */
 			return -1;
 		} else if (ret > 0) {
+			pGrep->ret = 0;
 			if (pGrep->showfilename) {
 				fprintf(stdout, "%s:", (const char*)pGrep->filename);
 			}
-- 
2.43.0


From a8536b8b307e499021a1c3308a4e9220df194cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 084/106] fix: rexgrep prints no file name for text that has
 none

---
 rexgrep/rexgrep.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rexgrep/rexgrep.c b/rexgrep/rexgrep.c
index ef5638f..4116ff8 100644
--- a/rexgrep/rexgrep.c
+++ b/rexgrep/rexgrep.c
@@ -201,7 +201,7 @@ static int rex_grep_dfascan(rexgrep_t *pGrep, const char* start, const char* end
 			}
 		} else if (ret > 0) {
 			pGrep->ret = 0;
-			if (pGrep->showfilename) {
+			if (pGrep->showfilename && pGrep->filename) {
 				fprintf(stdout, "%s:", (const char*)pGrep->filename);
 			}
 			if (alloutput) {
@@ -240,7 +240,7 @@ static int rex_grep_nfascan(rexgrep_t *pGrep, const char* start, const char* end
 			return -1;
 		} else if (ret > 0) {
 			pGrep->ret = 0;
-			if (pGrep->showfilename) {
+			if (pGrep->showfilename && pGrep->filename) {
 				fprintf(stdout, "%s:", (const char*)pGrep->filename);
 			}
 			if (alloutput) {
-- 
2.43.0


From c2ad50dc785b13097e574e474644243ad5280bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 085/106] fix: rexgrep does not read the text after -s as a
 file name

---
 rexgrep/rexgrep-main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexgrep/rexgrep-main.c b/rexgrep/rexgrep-main.c
index 95b9715..7c6121c 100644
--- a/rexgrep/rexgrep-main.c
+++ b/rexgrep/rexgrep-main.c
@@ -328,7 +328,7 @@ int main(int argc, const char *argv[])
 		if (argv[i][0] != '-') {
 			++scanned;
 			rex_grep_scan_path(pGrep, argv[i]);
-		} else if (argv[i][1] == 'e' || argv[i][1] == 'f' || argv[i][1] == 'b'){
+		} else if (argv[i][1] == 'e' || argv[i][1] == 'f' || argv[i][1] == 'b' || argv[i][1] == 's'){
 			++i;
 		}
 		
-- 
2.43.0


From 49fc6d8dbd5d7e95d29525813a04946cf9d53d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 086/106] fix: rexgrep -t does not read its context after
 freeing it

---
 rexgrep/rexgrep-main.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rexgrep/rexgrep-main.c b/rexgrep/rexgrep-main.c
index 7c6121c..5847606 100644
--- a/rexgrep/rexgrep-main.c
+++ b/rexgrep/rexgrep-main.c
@@ -115,6 +115,7 @@ int main(int argc, const char *argv[])
 	rarray_t *buffers;
 	const char *binfile = NULL;
 	int binop = REXGREP_BINOP_NONE;
+	int showtime = 0;
 	FILE *devnull = NULL;
 
 	buffers = r_array_create(sizeof(rbuffer_t *));
@@ -376,9 +377,10 @@ end:
 					(unsigned long long) 1000 * sckb / milsec);
 		}
 	}
+	showtime = pGrep->showtime;
 	rex_grep_destroy(pGrep);
 #ifdef R_DEBUG_MEMALLOC
-	if (pGrep->showtime) {
+	if (showtime) {
 		fprintf(stdout, "\tMemory Allocator: %ld KB (leaked %ld Bytes)\n", (long)r_debug_get_maxmem() / 1024, (long)r_debug_get_allocmem());
 	}
 #endif
-- 
2.43.0


From cafa9100b647cdd4966ee253d1fed6a769c25afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 087/106] fix: leaving a directory given by a relative name
 does not read before the path buffer

---
 rexgrep/unix/fsenum.c | 2 +-
 rpagrep/unix/fsenum.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rexgrep/unix/fsenum.c b/rexgrep/unix/fsenum.c
index 0c98d5d..d31cfed 100644
--- a/rexgrep/unix/fsenum.c
+++ b/rexgrep/unix/fsenum.c
@@ -229,7 +229,7 @@ static int fsePopDir(fs_enum_ptr pFSE)
 		*pszEnd = '\0';
 		if (pFSE->iDirOffset >= 0)
 		{
-			if (*(pszEnd - 1) == CH_SLASH)
+			if (pszEnd > pFSE->szCurDir && *(pszEnd - 1) == CH_SLASH)
 				break;
 		}
 
diff --git a/rpagrep/unix/fsenum.c b/rpagrep/unix/fsenum.c
index 0c98d5d..d31cfed 100644
--- a/rpagrep/unix/fsenum.c
+++ b/rpagrep/unix/fsenum.c
@@ -229,7 +229,7 @@ static int fsePopDir(fs_enum_ptr pFSE)
 		*pszEnd = '\0';
 		if (pFSE->iDirOffset >= 0)
 		{
-			if (*(pszEnd - 1) == CH_SLASH)
+			if (pszEnd > pFSE->szCurDir && *(pszEnd - 1) == CH_SLASH)
 				break;
 		}
 
-- 
2.43.0


From 34dd20a6e0da1e133f87cd793117deb2241fe1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:04 +0000
Subject: [PATCH 088/106] fix: rpagrep: do not read the exit status from freed
 memory

---
 rpagrep/unix/rpagrep-main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rpagrep/unix/rpagrep-main.c b/rpagrep/unix/rpagrep-main.c
index 921ed4d..be1abfe 100644
--- a/rpagrep/unix/rpagrep-main.c
+++ b/rpagrep/unix/rpagrep-main.c
@@ -313,8 +313,9 @@ end:
 
 	if (devnull)
 		fclose(devnull);
+	ret = pGrep->ret;
 	rpa_grep_destroy(pGrep);
-	return pGrep->ret;
+	return ret;
 
 error:
 	if (devnull)
-- 
2.43.0


From 3aab2f5224a0fa7f3f0af94d3478929d10645e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:04 +0000
Subject: [PATCH 089/106] fix: rpagrep: -a stops at the last record

---
 rpagrep/rpagrep.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/rpagrep/rpagrep.c b/rpagrep/rpagrep.c
index 85cd361..0eaea94 100644
--- a/rpagrep/rpagrep.c
+++ b/rpagrep/rpagrep.c
@@ -237,13 +237,9 @@ int rpa_grep_match(rpa_grep_t *pGrep, const char* buffer, unsigned long size)
 void dump_ast_records(rarray_t *records)
 {
 	long i = 0;
-	rparecord_t *prec = NULL;
 
-	prec = (rparecord_t *)r_array_slot(records, i);
-	while (prec->type & (RPA_RECORD_START | RPA_RECORD_END)) {
+	for (i = 0; i < rpa_records_length(records); i++)
 		rpa_record_dump(records, i, 0);
-		prec = (rparecord_t *)r_array_slot(records, ++i);
-	}
 }
 
 int rpa_grep_parse(rpa_grep_t *pGrep, const char* buffer, unsigned long size)
-- 
2.43.0


From f26727a3eb8d424ca9b96b66792b159cd332f740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 090/106] fix: rpagrep --debug-compile does not crash for want
 of a machine to name the instructions

---
 rpa/rpadbex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index 212e03a..4648e9b 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -141,7 +141,7 @@ void rpa_dbex_debug_recordtail(rpadbex_t *dbex, long rec)
 	if (dbex->debug) {
 		rarray_t *records = dbex->records;
 		rparecord_t *prec = (rparecord_t *) r_array_slot(records, rec);
-		rvm_asm_dump(NULL, rvm_codegen_getcode(dbex->co->cg, dbex->headoff), rvm_codegen_getcodesize(dbex->co->cg) - dbex->headoff);
+		rvm_asm_dump(dbex->pa->stat->cpu, rvm_codegen_getcode(dbex->co->cg, dbex->headoff), rvm_codegen_getcodesize(dbex->co->cg) - dbex->headoff);
 		if (prec->type & RPA_RECORD_END) {
 			rpa_record_dump(records, rec, 0);
 		}
-- 
2.43.0


From 2469c6cab8092b40b03d7a0625f91b47bb395387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:06 +0000
Subject: [PATCH 091/106] fix: rpagrep: the value of -s is not a file name

---
 rpagrep/unix/rpagrep-main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpagrep/unix/rpagrep-main.c b/rpagrep/unix/rpagrep-main.c
index be1abfe..9f3322e 100644
--- a/rpagrep/unix/rpagrep-main.c
+++ b/rpagrep/unix/rpagrep-main.c
@@ -276,7 +276,7 @@ int main(int argc, const char *argv[])
 		if (argv[i][0] != '-') {
 			++scanned;
 			rpa_grep_scan_path(pGrep, argv[i]);
-		} else if (argv[i][1] == 'e' || argv[i][1] == 'f' || argv[i][1] == 'c' || argv[i][1] == 'C'){
+		} else if (argv[i][1] == 'e' || argv[i][1] == 'f' || argv[i][1] == 's' || argv[i][1] == 'c' || argv[i][1] == 'C'){
 			++i;
 		}
 		
-- 
2.43.0


From 7b7e6fdeec917fd5fbea33c6ba70fdc22e70be93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:06 +0000
Subject: [PATCH 092/106] fix: rpagrep: line mode handles a text without a
 newline

---
 rpagrep/rpagrep.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/rpagrep/rpagrep.c b/rpagrep/rpagrep.c
index 0eaea94..00e93f4 100644
--- a/rpagrep/rpagrep.c
+++ b/rpagrep/rpagrep.c
@@ -360,7 +360,6 @@ int rpa_grep_scan_lines(rpa_grep_t *pGrep, const char* buffer, unsigned long siz
 	rpastat_t *hStat;
 	const char *matched;
 	int displayed = 0;
-	unsigned long lines = 0;
 	const char *end = buffer + size, *lstart = buffer, *lend;
 
 	hStat = rpa_stat_create(pGrep->hDbex, 0);
@@ -372,7 +371,6 @@ again:
 	if (pGrep->encoding == RPA_ENCODING_UTF16LE || pGrep->encoding == RPA_ENCODING_ICASE_UTF16LE) {
 		for (lend = lstart; lend < end; lend += sizeof(unsigned short)) {
 			if (*((unsigned short*)lend) == L'\n') {
-				++lines;
 				lend += sizeof(unsigned short);
 				break;
 			}
@@ -380,14 +378,11 @@ again:
 	} else {
 		for (lend = lstart; lend < end; lend += sizeof(unsigned char)) {
 			if (*((unsigned char*)lend) == '\n') {
-				++lines;
 				lend += sizeof(unsigned char);
 				break;
 			}
 		}
 	}
-	if (!lines)
-		return 0;
 	ret = rpa_stat_scan(hStat, pGrep->hPattern, pGrep->encoding, lstart, lstart, lend, &matched);
 	if (ret > 0) {
 		rpa_grep_matchfound(pGrep);
-- 
2.43.0


From d15836764e1ab7b9000cafed3c62fe40233d3a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:06 +0000
Subject: [PATCH 093/106] fix: rpagrep: line mode stays inside a UTF-16 text of
 odd size

---
 rpagrep/rpagrep.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rpagrep/rpagrep.c b/rpagrep/rpagrep.c
index 00e93f4..be9e389 100644
--- a/rpagrep/rpagrep.c
+++ b/rpagrep/rpagrep.c
@@ -370,6 +370,10 @@ int rpa_grep_scan_lines(rpa_grep_t *pGrep, const char* buffer, unsigned long siz
 again:
 	if (pGrep->encoding == RPA_ENCODING_UTF16LE || pGrep->encoding == RPA_ENCODING_ICASE_UTF16LE) {
 		for (lend = lstart; lend < end; lend += sizeof(unsigned short)) {
+			if (end - lend < (long)sizeof(unsigned short)) {
+				lend = end;
+				break;
+			}
 			if (*((unsigned short*)lend) == L'\n') {
 				lend += sizeof(unsigned short);
 				break;
-- 
2.43.0


From e41d77fcb5bb790dd0d96f32d82460f22466a43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:06 +0000
Subject: [PATCH 094/106] fix: rpagrep: count the lines before a syntax error,
 not past the buffer

---
 rpagrep/rpagrep.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpagrep/rpagrep.c b/rpagrep/rpagrep.c
index be9e389..642b7d2 100644
--- a/rpagrep/rpagrep.c
+++ b/rpagrep/rpagrep.c
@@ -155,8 +155,8 @@ int rpa_grep_load_pattern(rpa_grep_t *pGrep, rpa_buffer_t *buf)
 		rpa_dbex_lasterrorinfo(pGrep->hDbex, &errinfo);
 		if (errinfo.code == RPA_E_SYNTAXERROR) {
 			pattern += errinfo.offset;
-			for (line = 1; pattern >= buf->s; --pattern) {
-				if (*pattern == '\n')
+			for (line = 1; pattern > buf->s; --pattern) {
+				if (pattern[-1] == '\n')
 					line += 1;
 			}
 			fprintf(stdout, "Line: %d, ERROR: Syntax Error.\n", line);
-- 
2.43.0


From 070489252f234bf057cf4566f8a41d4c5b8156dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:06 +0000
Subject: [PATCH 095/106] fix: rpagrep: print the letters U+00A0 to U+00FF

---
 rpagrep/unix/rpagrepdep.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpagrep/unix/rpagrepdep.c b/rpagrep/unix/rpagrepdep.c
index 99a3241..73c8448 100644
--- a/rpagrep/unix/rpagrepdep.c
+++ b/rpagrep/unix/rpagrepdep.c
@@ -131,7 +131,7 @@ void rpa_grep_output_char(int c)
 
 	if ((unsigned int)c < 32 && !(c == '\t' || c == '\n' || c == '\r')) {
 		c = garbage;
-	} else if (c >= 127 && c <= 255) {
+	} else if (c >= 127 && c < 160) {
 		c = garbage;
 	}
 
-- 
2.43.0


From 220e9a48393eadcb8665678003c20c2edca37143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:02 +0000
Subject: [PATCH 096/106] fix: DFA conversion: don't lose acceptance when the
 start set is reached again

---
 rex/rexdfaconv.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/rex/rexdfaconv.c b/rex/rexdfaconv.c
index bf77c17..b04c033 100644
--- a/rex/rexdfaconv.c
+++ b/rex/rexdfaconv.c
@@ -133,6 +133,18 @@ static long rex_dfaconv_setsubstates(rexstate_t *state, rexdb_t *nfa, rarray_t *
 }
 
 
+static rboolean rex_dfaconv_isaccepting(rexdb_t *nfa, rarray_t *set)
+{
+	size_t i;
+
+	for (i = 0; i < r_array_length(set); i++) {
+		if (rex_db_getstate(nfa, rex_subset_index(set, i))->type == REX_STATETYPE_ACCEPT)
+			return TRUE;
+	}
+	return FALSE;
+}
+
+
 static void rex_dfaconv_mark(rexdfaconv_t *co, size_t uid)
 {
 	unsigned char marked = 1;
@@ -366,7 +378,12 @@ rexdb_t *rex_dfaconv_run(rexdfaconv_t *co, rexdb_t *nfa, size_t start)
 	rex_subset_clear(co->setU);
 	rex_subset_push(co->setU, start);
 	rex_dfaconv_eclosure(co, nfa, co->setU, s->subset);
-	r_hash_insert_object(co->hash, s->subset, &s->uid);
+	/*
+	 * The START state doesn't accept, so if its sub-states do and they are
+	 * reached again after some input, they must form a state of their own.
+	 */
+	if (!rex_dfaconv_isaccepting(nfa, s->subset))
+		r_hash_insert_object(co->hash, s->subset, &s->uid);
 
 	for (i = 0; i < r_array_length(dfa->states); i++) {
 		s = r_array_index(dfa->states, i, rexstate_t*);
-- 
2.43.0


From 39964b20d02a28ec74979b0698abc6039fe54b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:04 +0000
Subject: [PATCH 097/106] fix: rvm: release chunked arrays by their length, as
 the comment says

---
 rvm/rvmreg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rvm/rvmreg.c b/rvm/rvmreg.c
index b639fcb..1888ccb 100644
--- a/rvm/rvmreg.c
+++ b/rvm/rvmreg.c
@@ -73,7 +73,7 @@ void rvm_reg_array_unref_gcdata(robject_t *obj)
 			/*
 			 * set the size to 0, to prevent circular references to come back here
 			 */
-			array->alloc_size = 0;
+			array->len = 0;
 			for (i = 0; i < size; i++) {
 				r = (rvmreg_t*) r_carray_slot(array, i);
 				if (rvm_reg_tstflag(r, RVM_INFOBIT_ROBJECT)) {
@@ -93,7 +93,7 @@ void rvm_reg_array_unref_gcdata(robject_t *obj)
 			/*
 			 * Restore the size
 			 */
-			array->alloc_size = size;
+			array->len = size;
 		}
 	}
 }
-- 
2.43.0


From 71bb6aede23953d98a798b5f40defcc574f51361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:04 +0000
Subject: [PATCH 098/106] fix: rvm: the value of a double register is its
 double

---
 rvm/rvmreg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rvm/rvmreg.c b/rvm/rvmreg.c
index 1888ccb..8442d2e 100644
--- a/rvm/rvmreg.c
+++ b/rvm/rvmreg.c
@@ -438,7 +438,7 @@ rboolean rvm_reg_boolean(const rvmreg_t *src)
 double rvm_reg_double(const rvmreg_t *src)
 {
 	R_ASSERT(src);
-	return (double)RVM_REG_GETL(src);
+	return RVM_REG_GETD(src);
 }
 
 
-- 
2.43.0


From f892271084e57d33c228191d569e3661d393656a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:38 +0000
Subject: [PATCH 099/106] fix: rex: set the blank characters from the given
 size

---
 rex/rexcompiler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index cb98a55..794d8d0 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -95,7 +95,7 @@ long rex_compiler_setblanks(rexcompiler_t *co, const char *str, size_t size)
 	if (size + 1 > sizeof(co->blankchars))
 		return -1;
 	r_memset(co->blankchars, 0, sizeof(co->blankchars));
-	r_strncpy(co->blankchars, str, sizeof(co->blankchars) - 1);
+	r_memcpy(co->blankchars, str, size);
 	return 0;
 }
 
-- 
2.43.0


From 6a9262fb120d49dd186d72370b08241aa75459ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:53 +0000
Subject: [PATCH 100/106] fix: rex: a blank after an alternation bar is skipped
 only where blanks are skipped

---
 rex/rexcompiler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index 794d8d0..6fcfe1c 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -204,7 +204,7 @@ again:
 static int rex_compiler_getnstok(rexcompiler_t *co)
 {
 again:
-	while (co->ptr < co->end && rex_compiler_isspace(*co->ptr))
+	while (co->ptr < co->end && (rex_compiler_isblank(co, *co->ptr) || (rex_compiler_isspace(*co->ptr) && *co->ptr != ' ' && *co->ptr != '\t')))
 		co->ptr += 1;
 	if (co->ptr + 1 < co->end && *co->ptr == '\\' && *(co->ptr + 1) == '\n') {
 		co->ptr += 2;
-- 
2.43.0


From c791377d1e161d913368221d4dc5c113410f8472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:13 +0000
Subject: [PATCH 101/106] fix: rlib: appending to a buffer keeps what it holds

---
 rlib/rbuffer.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rlib/rbuffer.c b/rlib/rbuffer.c
index 1155db4..468b237 100644
--- a/rlib/rbuffer.c
+++ b/rlib/rbuffer.c
@@ -59,12 +59,12 @@ int r_buffer_append(rbuffer_t *buffer, void *src, unsigned long size)
 {
 	char *s;
 
-	s = (char *)r_realloc(buffer->s, size + 1);
+	s = (char *)r_realloc(buffer->s, buffer->size + size + 1);
 	if (!s)
 		return -1;
 	buffer->s = s;
-	buffer->size = size;
-	r_memcpy(buffer->s, src, size);
+	r_memcpy(buffer->s + buffer->size, src, size);
+	buffer->size += size;
 	buffer->s[buffer->size] = '\0';
 	return 0;
 }
-- 
2.43.0


From 5c514b0d2543b58661c2bf64911a178e8c27c88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:45 +0000
Subject: [PATCH 102/106] fix: rpa_dbex_dumpuids leaked its buffer when the
 database could not be dumped

---
 rpa/rpadbex.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index 4648e9b..f2ed7fb 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -1757,7 +1757,7 @@ int rpa_dbex_dumpuids(rpadbex_t *dbex)
 	unsigned long i;
 	long rec;
 	rpa_ruleinfo_t *info;
-	char *buffer = r_zmalloc(32 * sizeof(char));
+	char *buffer;
 
 	if (!dbex)
 		return -1;
@@ -1765,6 +1765,7 @@ int rpa_dbex_dumpuids(rpadbex_t *dbex)
 		RPA_DBEX_SETERRINFO_CODE(dbex, RPA_E_NOTCLOSED);
 		return -1;
 	}
+	buffer = r_zmalloc(32 * sizeof(char));
 	for (i = 0; i < r_array_length(dbex->rules->names); i++) {
 		info = (rpa_ruleinfo_t *)r_harray_get(dbex->rules, i);
 		if (info->type == RPA_RULEINFO_DIRECTIVE) {
-- 
2.43.0


From bf333c4530e8acfc94278307e7bc7f299ffee266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:45 +0000
Subject: [PATCH 103/106] fix: large double keys of a map were cut, so that
 different keys were the same

---
 rlib/rmap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rlib/rmap.c b/rlib/rmap.c
index 320cff4..d126dfb 100644
--- a/rlib/rmap.c
+++ b/rlib/rmap.c
@@ -213,7 +213,7 @@ size_t r_map_add_l(rmap_t *map, long name, rconstpointer pval)
 
 size_t r_map_add_d(rmap_t *map, double name, rconstpointer pval)
 {
-	char key[128];
+	char key[512];
 	r_memset(key, 0, sizeof(key));
 	r_snprintf(key, sizeof(key) - 1, "%.15f", name);
 	return r_map_add_s(map, key, pval);
@@ -315,7 +315,7 @@ size_t r_map_lookup_l(rmap_t *map, long name)
 
 size_t r_map_lookup_d(rmap_t *map, double name)
 {
-	char key[128];
+	char key[512];
 	r_memset(key, 0, sizeof(key));
 	r_snprintf(key, sizeof(key) - 1, "%.15f", name);
 	return r_map_lookup_s(map, key);
-- 
2.43.0


From af59d30da3faa4cddb628bb8438eda2c2457eb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:45 +0000
Subject: [PATCH 104/106] fix: r_string_create_from_double failed for large
 numbers

---
 rlib/rstring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlib/rstring.c b/rlib/rstring.c
index c5d1dd3..de52648 100644
--- a/rlib/rstring.c
+++ b/rlib/rstring.c
@@ -284,7 +284,7 @@ rstring_t *r_string_cat(rstring_t *str1, rstring_t *str2)
 
 rstring_t *r_string_create_from_double(double d)
 {
-	char temp[128];
+	char temp[512];
 	int size;
 
 	r_memset(temp, 0, sizeof(temp));
-- 
2.43.0


From d7550685cd30c00875070cb0f98aba22d0eaccc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:45 +0000
Subject: [PATCH 105/106] fix: the error offset was wrong when a left recursive
 rule aborted

---
 rpa/rpacompiler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpa/rpacompiler.c b/rpa/rpacompiler.c
index d9ec637..06cf185 100644
--- a/rpa/rpacompiler.c
+++ b/rpa/rpacompiler.c
@@ -421,7 +421,7 @@ int rpa_compiler_loop_end(rpa_compiler_t *co)
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_BGRE, DA, XX, XX, 3));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOVS, R0, DA, XX, -1));
 	if (exp.rulepref && (exp.rulepref->flags & RPA_RFLAG_ABORTONFAIL)) {
-		rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BLOB, exp.dataidx, rvm_asm(RPA_ABORT, DA, R_OTP, R0, 0));
+		rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BLOB, exp.dataidx, rvm_asm(RPA_ABORT, DA, R_TOP, R0, 0));
 	} else {
 		rvm_codegen_addins(co->cg, rvm_asm(RVM_BX, LR, XX, XX, 0));
 	}
-- 
2.43.0


From 588ed1c1753a8d649d7ff2e0352d846fd48bd405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:32 +0000
Subject: [PATCH 106/106] fix: a number without digits before the point was
 converted only if nothing preceded the point

---
 rvm/rvmreg.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rvm/rvmreg.c b/rvm/rvmreg.c
index 8442d2e..00fc05f 100644
--- a/rvm/rvmreg.c
+++ b/rvm/rvmreg.c
@@ -376,6 +376,15 @@ int rvm_reg_str2num(rvmreg_t *dst, const rvmreg_t *src)
 	l = r_strtol(R_STRING2ANSI(RVM_REG_GETP(src)), &lptr, 10);
 	if (!lptr)
 		return -1;
+	if (lptr == R_STRING2ANSI(RVM_REG_GETP(src))) {
+		/*
+		 * No digits before the decimal point
+		 */
+		while (*lptr == ' ' || (*lptr >= '\t' && *lptr <= '\r'))
+			lptr++;
+		if (*lptr == '-' || *lptr == '+')
+			lptr++;
+	}
 	if (*lptr != '.') {
 		rvm_reg_setsigned(dst, l);
 		return 0;
-- 
2.43.0

