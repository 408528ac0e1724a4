From c3bdee4a185a5b9c7df6c1bb622d0c874bf09c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 01/56] fix: division and modulo of the minimum int by -1
 crashed the interpreter

---
 compiler/middleend.c |  5 +++--
 interpreter/VM.c     | 11 +++++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/compiler/middleend.c b/compiler/middleend.c
index c4073b3..ee86757 100644
--- a/compiler/middleend.c
+++ b/compiler/middleend.c
@@ -154,12 +154,13 @@ static void fold_BinOp(struct Node *const node) {
 			make_float(node, (yasl_float)left->value.ival / (yasl_float)right->value.ival);
 			break;
 		case T_DSLASH:
-			if (right->value.ival != 0) {
+			// `INT_MIN // -1` is left to the VM, since it's undefined in C.
+			if (right->value.ival != 0 && right->value.ival != -1) {
 				FOLD_BINOP_INT_INT(left, right, /, int);
 			}
 			break;
 		case T_MOD:
-			if (right->value.ival != 0) {
+			if (right->value.ival != 0 && right->value.ival != -1) {
 				FOLD_BINOP_INT_INT(left, right, %, int);
 			}
 			break;
diff --git a/interpreter/VM.c b/interpreter/VM.c
index 56000f7..481ff4f 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -352,8 +352,15 @@ INT_BINOP(band, &)
 INT_BINOP(bandnot, &~)
 INT_BINOP(shift_left, <<)
 INT_BINOP(shift_right, >>)
-INT_BINOP(modulo, %)
-INT_BINOP(idiv, /)
+
+// `INT_MIN / -1` and `INT_MIN % -1` are undefined in C (and trap on most hardware), so division by -1 is done by negation.
+yasl_int modulo(yasl_int left, yasl_int right) {
+	return right == -1 ? 0 : left % right;
+}
+
+yasl_int idiv(yasl_int left, yasl_int right) {
+	return right == -1 ? (yasl_int)(0 - (uint64_t)left) : left / right;
+}
 
 typedef yasl_int int_binop(yasl_int, yasl_int);
 typedef yasl_float float_binop(yasl_float, yasl_float);
-- 
2.43.0


From bde88e302a9856485791ae9e4f7307d9c0aec76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 02/56] fix: constant folding of === and !== on floats, and of
 ! on NaN, disagreed with evaluation at run time

---
 compiler/middleend.c | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/compiler/middleend.c b/compiler/middleend.c
index ee86757..c6ececc 100644
--- a/compiler/middleend.c
+++ b/compiler/middleend.c
@@ -172,11 +172,9 @@ static void fold_BinOp(struct Node *const node) {
 	} else if (left->nodetype == N_FLOAT && right->nodetype == N_FLOAT) {
 		switch (node->value.type) {
 		case T_DEQ:
-		case T_TEQ:
 			FOLD_BINOP_FLOAT_FLOAT(left, right, ==, bool);
 			break;
 		case T_BANGEQ:
-		case T_BANGDEQ:
 			FOLD_BINOP_FLOAT_FLOAT(left, right, !=, bool);
 			break;
 		case T_GT:
@@ -214,11 +212,9 @@ static void fold_BinOp(struct Node *const node) {
 	} else if (left->nodetype == N_FLOAT && right->nodetype == N_INT) {
 		switch (node->value.type) {
 		case T_DEQ:
-		case T_TEQ:
 			FOLD_BINOP_FLOAT_INT(left, right, ==, bool);
 			break;
 		case T_BANGEQ:
-		case T_BANGDEQ:
 			FOLD_BINOP_FLOAT_INT(left, right, !=, bool);
 			break;
 		case T_GT:
@@ -256,11 +252,9 @@ static void fold_BinOp(struct Node *const node) {
 	} else if (left->nodetype == N_INT && right->nodetype == N_FLOAT) {
 		switch (node->value.type) {
 		case T_DEQ:
-		case T_TEQ:
 			FOLD_BINOP_INT_FLOAT(left, right, ==, bool);
 			break;
 		case T_BANGEQ:
-		case T_BANGDEQ:
 			FOLD_BINOP_INT_FLOAT(left, right, !=, bool);
 			break;
 		case T_GT:
@@ -338,7 +332,7 @@ void fold_UnOp(struct Node *const node) {
 			make_float(node, -expr->value.dval);
 			break;
 		case T_BANG:
-			make_bool(node, 0);  // NOTE: safe because we don't have NaN literals
+			make_bool(node, expr->value.dval != expr->value.dval);  // NaN is falsey, and can be the result of folding.
 			break;
 		default:
 			break;
-- 
2.43.0


From 818a033d7b7b219972f81437d0d83d79e0f709a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 03/56] fix: slicing a str with an empty range crashed, and
 slicing a slice used the wrong offset

---
 interpreter/VM.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 481ff4f..97f6b51 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -711,9 +711,13 @@ static void vm_SLICE_str(struct VM *const vm){
 	vm_pop(vm);
 	vm_pop(vm);
 
+	// As with lists, an empty range gives an empty result.
+	if (end < 0) end = 0;
+	if (start > end) start = end;
+
 	struct YASL_String *str = vm_popstr(vm);
 
-	vm_push(vm, YASL_STR(YASL_String_new_substring((size_t)start, (size_t)end, str)));
+	vm_push(vm, YASL_STR(YASL_String_new_substring(str->start + (size_t)start, str->start + (size_t)end, str)));
 }
 
 static void vm_SLICE(struct VM *const vm) {
-- 
2.43.0


From 363932b691571be5cd4c9e647692d97bda276b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 04/56] fix: iterating over a slice of a str yielded characters
 from outside of the slice

---
 interpreter/VM.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 97f6b51..d438d3c 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -916,7 +916,7 @@ static void vm_ITER_1(struct VM *const vm) {
 			vm_pushbool(vm, false);
 		} else {
 			size_t i = (size_t) frame->iter;
-			vm_pushstr(vm, YASL_String_new_substring(i, i + 1, str));
+			vm_pushstr(vm, YASL_String_new_substring(str->start + i, str->start + i + 1, str));
 			frame->iter++;
 			vm_pushbool(vm, true);
 		}
-- 
2.43.0


From 6159d67f47e4ae3dcfdcbb43691ad5f563e470b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 05/56] fix: trimming all of a str crashed, and trimming an
 empty str from a str never terminated

---
 data-structures/YASL_String.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/data-structures/YASL_String.c b/data-structures/YASL_String.c
index e7f7f73..8e444e3 100644
--- a/data-structures/YASL_String.c
+++ b/data-structures/YASL_String.c
@@ -472,7 +472,7 @@ struct YASL_String *YASL_String_ltrim(struct YASL_String *haystack, struct YASL_
 	const char *haystack_chars = YASL_String_chars(haystack);
 	const char *needle_chars = YASL_String_chars(needle);
 	int64_t start = 0;
-	while(haystack_len - start >= needle_len &&
+	while(needle_len > 0 && haystack_len - start >= needle_len &&
 	      !memcmp(haystack_chars + start, needle_chars, needle_len)) {
 		start += needle_len;
 	}
@@ -497,7 +497,7 @@ struct YASL_String *YASL_String_rtrim(struct YASL_String *haystack, struct YASL_
 	const char *haystack_chars = YASL_String_chars(haystack);
 	const char *needle_chars = YASL_String_chars(needle);
 	size_t end = YASL_String_len(haystack);
-	while (end >= needle_len &&
+	while (needle_len > 0 && end >= needle_len &&
 	       !memcmp(haystack_chars + end - needle_len, needle_chars, needle_len)) {
 		end -= needle_len;
 	}
@@ -514,7 +514,7 @@ struct YASL_String *YASL_String_trim_default(struct YASL_String *haystack) {
 	}
 
 	int64_t end = haystack_len;
-	while (end >= 1 && iswhitespace(haystack_chars[end - 1])) {
+	while (end > start && iswhitespace(haystack_chars[end - 1])) {
 		end--;
 	}
 
@@ -527,13 +527,13 @@ struct YASL_String *YASL_String_trim(struct YASL_String *haystack, struct YASL_S
 	const char *haystack_chars = YASL_String_chars(haystack);
 	const char *needle_chars = YASL_String_chars(needle);
 	int64_t start = 0;
-	while (haystack_len - start >= needle_len &&
+	while (needle_len > 0 && haystack_len - start >= needle_len &&
 	       !memcmp(haystack_chars + start, needle_chars, needle_len)) {
 		start += needle_len;
 	}
 
 	size_t end = haystack_len;
-	while (end >= needle_len &&
+	while (needle_len > 0 && end - start >= needle_len &&
 	       !memcmp(haystack_chars + end - needle_len, needle_chars, needle_len)) {
 		end -= needle_len;
 	}
-- 
2.43.0


From c51aa7e0a544588d72e1acfa85e2855dc9aa46ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 06/56] fix: str.replace counted every character, not every
 replacement, against its limit

---
 data-structures/YASL_String.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data-structures/YASL_String.c b/data-structures/YASL_String.c
index 8e444e3..94f4ea9 100644
--- a/data-structures/YASL_String.c
+++ b/data-structures/YASL_String.c
@@ -387,10 +387,10 @@ struct YASL_String *YASL_String_replace_fast(struct YASL_String *str, struct YAS
 		if (search_len <= str_len - i && memcmp(str_ptr + i, search_str_ptr, search_len) == 0 && max > 0) {
 			YASL_ByteBuffer_extend(buff, replace_str_ptr, YASL_String_len(replace_str));
 			i += search_len;
+			max--;
 		} else {
 			YASL_ByteBuffer_add_byte(buff, str_ptr[i++]);
 		}
-		max--;
 	}
 
 	STR_REPLACE_END
-- 
2.43.0


From 13a371c55c449e1bc74046f71e0fdc827de53d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 07/56] fix: str.split lost the end of the last piece when the
 separator was longer than one character

---
 data-structures/YASL_String.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data-structures/YASL_String.c b/data-structures/YASL_String.c
index 94f4ea9..4d28bc6 100644
--- a/data-structures/YASL_String.c
+++ b/data-structures/YASL_String.c
@@ -449,7 +449,7 @@ void YASL_String_split_fast(struct YASL_List *data, struct YASL_String *haystack
 		}
 	}
 	struct YASL_Object to = YASL_STR(
-		YASL_String_new_substring(start + haystack->start, end + haystack->start, haystack));
+		YASL_String_new_substring(start + haystack->start, haystack->end, haystack));
 	YASL_List_append(data, to);
 }
 
-- 
2.43.0


From cf9b74f704f220b867d0e8722bc8ec3ecbc7a61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 08/56] fix: str.count of an empty str never terminated

---
 interpreter/str_methods.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/interpreter/str_methods.c b/interpreter/str_methods.c
index f5fc41f..3f31f8f 100644
--- a/interpreter/str_methods.c
+++ b/interpreter/str_methods.c
@@ -175,6 +175,12 @@ int str_search(struct YASL_State *S) {
 int str_count(struct YASL_State *S) {
 	struct YASL_String *needle = YASLX_checknstr(S, "str.count", 1);
 	struct YASL_String *haystack = YASLX_checknstr(S, "str.count", 0);
+
+	if (YASL_String_len(needle) == 0) {
+		vm_print_err((struct VM *)S, "ValueError: %s expected a nonempty str as arg 1.", "str.count");
+		YASL_throw_err(S, YASL_VALUE_ERROR);
+	}
+
 	YASL_pushint(S, YASL_String_count(haystack, needle));
 	return 1;
 }
-- 
2.43.0


From e3f0307e6ebb8e1442bf56e77c7b2379b5b3fb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 09/56] fix: str.tofloat read outside of an empty str

---
 data-structures/YASL_String.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data-structures/YASL_String.c b/data-structures/YASL_String.c
index 4d28bc6..32c0df2 100644
--- a/data-structures/YASL_String.c
+++ b/data-structures/YASL_String.c
@@ -186,7 +186,7 @@ yasl_float YASL_String_tofloat(struct YASL_String *str) {
 	const size_t length = YASL_String_len(str);
 	const char *chars = YASL_String_chars(str);
 	char *buffer = (char *)malloc(length + 1);
-	if (!isdigit((int)chars[0])) {
+	if (length == 0 || !isdigit((int)chars[0])) {
 		free(buffer);
 		return NAN;
 	}
-- 
2.43.0


From 4fdde9a005ee46330d879fc55dd3a3eba44ff0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 10/56] fix: undef was accepted as a key of a table or an
 element of a set, which then lost track of it

---
 interpreter/YASL_Object.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/interpreter/YASL_Object.c b/interpreter/YASL_Object.c
index b0c57a7..d735ab8 100644
--- a/interpreter/YASL_Object.c
+++ b/interpreter/YASL_Object.c
@@ -80,7 +80,6 @@ int yasl_object_cmp(struct YASL_Object a, struct YASL_Object b) {
 
 bool ishashable(const struct YASL_Object *const v) {
 	return (
-		obj_isundef(v) ||
 		obj_isbool(v) ||
 		obj_isfloat(v) ||
 		obj_isint(v) ||
-- 
2.43.0


From d14f8b45eb730762e93a27e0be0d6555420e8313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 11/56] fix: a global holding undef could be overwritten or
 lost when another global was added

---
 data-structures/YASL_Table.c | 2 +-
 data-structures/YASL_Table.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/data-structures/YASL_Table.c b/data-structures/YASL_Table.c
index 40fdcb0..2eb9e17 100644
--- a/data-structures/YASL_Table.c
+++ b/data-structures/YASL_Table.c
@@ -106,7 +106,7 @@ size_t YASL_Table_getindex(struct YASL_Table *const table, const struct YASL_Obj
 	size_t index = get_hash(key, table->size, 0);
 	struct YASL_Table_Item curr_item = table->items[index];
 	size_t i = 1;
-	while (curr_item.value.type != Y_UNDEF) {
+	while (!obj_isundef(&curr_item.key)) {
 		if (curr_item.key.type != Y_END) {
 			if (isequal_typed(&curr_item.key, &key)) {
 				return index;
diff --git a/data-structures/YASL_Table.h b/data-structures/YASL_Table.h
index dac5f43..e9b097d 100644
--- a/data-structures/YASL_Table.h
+++ b/data-structures/YASL_Table.h
@@ -8,7 +8,7 @@
 #define TABLE_BASESIZE 30
 
 #define FOR_TABLE(i, item, table) struct YASL_Table_Item *item; for (size_t i = 0; i < (table)->size; i++) \
-                                                  if (item = &(table)->items[i], item->key.type != Y_END && !obj_isundef(&item->value))
+                                                  if (item = &(table)->items[i], item->key.type != Y_END && !obj_isundef(&item->key))
 
 
 #define NEW_TABLE() ((struct YASL_Table){\
-- 
2.43.0


From 2dabc3e52a0e01b34cbeff22faabaf512d729e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 12/56] fix: tables could be made to store undef, through
 collections.table and YASL_tableset

---
 std/yasl-std-collections.c | 4 ++++
 yasl.c                     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/std/yasl-std-collections.c b/std/yasl-std-collections.c
index 20642a3..fe4c831 100644
--- a/std/yasl-std-collections.c
+++ b/std/yasl-std-collections.c
@@ -82,6 +82,10 @@ static int YASL_collections_table_new(struct YASL_State *S) {
 	while (i > 0) {
 		struct YASL_Object value = vm_pop((struct VM *)S);
 		struct YASL_Object key = vm_pop((struct VM *)S);
+		if (obj_isundef(&value)) {
+			i -= 2;
+			continue;
+		}
 		if (!YASL_Table_insert((struct YASL_Table *) table->data, key, value)) {
 			rcht_del(table);
 			vm_print_err_type(&S->vm, "unable to use mutable object of type %s as key.",
diff --git a/yasl.c b/yasl.c
index a7da9bb..0ce648c 100644
--- a/yasl.c
+++ b/yasl.c
@@ -398,6 +398,10 @@ int YASL_tableset(struct YASL_State *S) {
 
 	if (!obj_istable(&table))
 		return YASL_TYPE_ERROR;
+	if (obj_isundef(&value)) {
+		YASL_Table_rm(YASL_GETTABLE(table), key);
+		return YASL_SUCCESS;
+	}
 	if (!YASL_Table_insert(YASL_GETTABLE(table), key, value)) {
 		return YASL_TYPE_ERROR;
 	}
-- 
2.43.0


From 13f655bddf24947bcb25c5b56045decd6504ed26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 13/56] fix: removing an absent key from a table or set
 decremented its length

---
 data-structures/YASL_Set.c   | 5 +++--
 data-structures/YASL_Table.c | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/data-structures/YASL_Set.c b/data-structures/YASL_Set.c
index 34d6b3b..7078b16 100644
--- a/data-structures/YASL_Set.c
+++ b/data-structures/YASL_Set.c
@@ -111,14 +111,15 @@ void YASL_Set_rm(struct YASL_Set *const set, struct YASL_Object key) {
 	while (!obj_isundef(&item)) {
 		if (item.type != Y_END) {
 			if ((isequal(&item, &key))) {
-				dec_ref(&item);
 				set->items[index] = YASL_END();
+				set->count--;
+				dec_ref(&item);
+				return;
 			}
 		}
 		index = get_hash(key, set->size, i++);
 		item = set->items[index];
 	}
-	set->count--;
 }
 
 struct YASL_Set *YASL_Set_union(const struct YASL_Set *const left, const struct YASL_Set *const right) {
diff --git a/data-structures/YASL_Table.c b/data-structures/YASL_Table.c
index 2eb9e17..62c43e5 100644
--- a/data-structures/YASL_Table.c
+++ b/data-structures/YASL_Table.c
@@ -191,12 +191,13 @@ void YASL_Table_rm(struct YASL_Table *const table, const struct YASL_Object key)
 	while (!obj_isundef(&item.key)) {
 		if (item.key.type != Y_END) {
 			if ((isequal_typed(&item.key, &key))) {
-				del_item(&item);
 				table->items[index] = TOMBSTONE;
+				table->count--;
+				del_item(&item);
+				return;
 			}
 		}
 		index = get_hash(key, table->size, i++);
 		item = table->items[index];
 	}
-	table->count--;
 }
-- 
2.43.0


From a7fd6cb0dda55f1cd717d42c902c68cc046843e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 14/56] fix: tables and sets that had enough distinct keys
 removed made every later operation loop forever

---
 data-structures/YASL_Set.c   | 12 ++++++++----
 data-structures/YASL_Table.c | 14 +++++++++-----
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/data-structures/YASL_Set.c b/data-structures/YASL_Set.c
index 7078b16..c35f752 100644
--- a/data-structures/YASL_Set.c
+++ b/data-structures/YASL_Set.c
@@ -66,21 +66,25 @@ bool YASL_Set_insert(struct YASL_Set *const set, struct YASL_Object value) {
 	const size_t load = set->count * 100 / set->size;
 	if (load > 70) set_resize_up(set);
 	size_t index = get_hash(value, set->size, 0);
+	size_t tombstone = set->size;
 	inc_ref(&value);
 	struct YASL_Object curr_item = set->items[index];
 	size_t i = 1;
-	while (!obj_isundef(&curr_item)) {
+	// `size` is prime, so the first `size` attempts visit every slot.
+	while (!obj_isundef(&curr_item) && i <= set->size) {
 		if (curr_item.type != Y_END) {
 			if ((isequal(&curr_item, &value))) {
 				dec_ref(&curr_item);
 				set->items[index] = value;
 				return true;
 			}
+		} else if (tombstone == set->size) {
+			tombstone = index;
 		}
 		index = get_hash(value, set->size, i++);
 		curr_item = set->items[index];
 	}
-	set->items[index] = value;
+	set->items[tombstone < set->size ? tombstone : index] = value;
 	set->count++;
 	return true;
 }
@@ -89,7 +93,7 @@ bool YASL_Set_search(const struct YASL_Set *const set, const struct YASL_Object
 	size_t index = get_hash(key, set->size, 0);
 	struct YASL_Object item = set->items[index];
 	size_t i = 1;
-	while (!obj_isundef(&item)) {
+	while (!obj_isundef(&item) && i <= set->size) {
 		if ((isequal(&item, &key))) {
 			return true;
 		}
@@ -108,7 +112,7 @@ void YASL_Set_rm(struct YASL_Set *const set, struct YASL_Object key) {
 	size_t index = get_hash(key, set->size, 0);
 	struct YASL_Object item = set->items[index];
 	size_t i = 1;
-	while (!obj_isundef(&item)) {
+	while (!obj_isundef(&item) && i <= set->size) {
 		if (item.type != Y_END) {
 			if ((isequal(&item, &key))) {
 				set->items[index] = YASL_END();
diff --git a/data-structures/YASL_Table.c b/data-structures/YASL_Table.c
index 62c43e5..0615fdd 100644
--- a/data-structures/YASL_Table.c
+++ b/data-structures/YASL_Table.c
@@ -104,18 +104,22 @@ bool isequal_typed(const struct YASL_Object *const a, const struct YASL_Object *
 
 size_t YASL_Table_getindex(struct YASL_Table *const table, const struct YASL_Object key) {
 	size_t index = get_hash(key, table->size, 0);
+	size_t tombstone = table->size;
 	struct YASL_Table_Item curr_item = table->items[index];
 	size_t i = 1;
-	while (!obj_isundef(&curr_item.key)) {
+	// `size` is prime, so the first `size` attempts visit every slot.
+	while (!obj_isundef(&curr_item.key) && i <= table->size) {
 		if (curr_item.key.type != Y_END) {
 			if (isequal_typed(&curr_item.key, &key)) {
 				return index;
 			}
+		} else if (tombstone == table->size) {
+			tombstone = index;
 		}
 		index = get_hash(key, table->size, i++);
 		curr_item = table->items[index];
 	}
-	return index;
+	return tombstone < table->size ? tombstone : index;
 }
 
 void YASL_Table_insert_fast(struct YASL_Table *const table, const struct YASL_Object key, const struct YASL_Object value) {
@@ -160,8 +164,8 @@ struct YASL_Object YASL_Table_search(const struct YASL_Table *const table, const
 	if (!ishashable(&key)) return YASL_END();
 	size_t index = get_hash(key, table->size, 0);
 	struct YASL_Table_Item item = table->items[index];
-	int i = 1;
-	while (!obj_isundef(&item.key)) {
+	size_t i = 1;
+	while (!obj_isundef(&item.key) && i <= table->size) {
 		if ((isequal_typed(&item.key, &key))) {
 			return item.value;
 		}
@@ -188,7 +192,7 @@ void YASL_Table_rm(struct YASL_Table *const table, const struct YASL_Object key)
 	size_t index = get_hash(key, table->size, 0);
 	struct YASL_Table_Item item = table->items[index];
 	size_t i = 1;
-	while (!obj_isundef(&item.key)) {
+	while (!obj_isundef(&item.key) && i <= table->size) {
 		if (item.key.type != Y_END) {
 			if ((isequal_typed(&item.key, &key))) {
 				table->items[index] = TOMBSTONE;
-- 
2.43.0


From 5e3f553c00172fa11834031ca5d586d19dc1b885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:45 +0000
Subject: [PATCH 15/56] fix: clearing a table gave it a size that wasn't prime,
 after which some keys could not be inserted

---
 interpreter/table_methods.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interpreter/table_methods.c b/interpreter/table_methods.c
index 41a02b5..2addcbc 100644
--- a/interpreter/table_methods.c
+++ b/interpreter/table_methods.c
@@ -251,7 +251,8 @@ int table_clear(struct YASL_State *S) {
 	}
 
 	ht->count = 0;
-	ht->size = TABLE_BASESIZE;
+	ht->base_size = TABLE_BASESIZE;
+	ht->size = next_prime(ht->base_size);
 	free(ht->items);
 	ht->items = (struct YASL_Table_Item *) calloc((size_t) ht->size, sizeof(struct YASL_Table_Item));
 	dec_ref(&vm_peek((struct VM *) S));
-- 
2.43.0


From fb908235d9eafa4f6bae4b8c34b94c692c753d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:45 +0000
Subject: [PATCH 16/56] fix: copies of tables had no methods or operators

---
 interpreter/table_methods.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interpreter/table_methods.c b/interpreter/table_methods.c
index 2addcbc..8221b72 100644
--- a/interpreter/table_methods.c
+++ b/interpreter/table_methods.c
@@ -230,6 +230,7 @@ int table_remove(struct YASL_State *S) {
 int table_copy(struct YASL_State *S) {
 	struct YASL_Table *ht = YASLX_checkntable(S, "table.copy", 0);
 	struct RC_UserData *new_ht = rcht_new_sized(ht->base_size);
+	ud_setmt(new_ht, S->vm.builtins_htable[Y_TABLE]);
 
 	FOR_TABLE(i, item, ht) {
 		YASL_Table_insert_fast((struct YASL_Table *) new_ht->data, item->key, item->value);
-- 
2.43.0


From 0e256577edf51da8313dfaca6e7820565ab63a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:45 +0000
Subject: [PATCH 17/56] fix: 0.0 and -0.0 are equal, but were different keys

---
 util/hash_function.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/util/hash_function.c b/util/hash_function.c
index 57e5e41..939a533 100644
--- a/util/hash_function.c
+++ b/util/hash_function.c
@@ -13,6 +13,8 @@ size_t hash_function(const struct YASL_Object s, const size_t a, const size_t m)
 			hash %= m;
 		}
 		return (size_t) hash;
+	} else if (obj_isfloat(&s) && obj_getfloat(&s) == 0.0) {
+		return 0;  // 0.0 and -0.0 are equal, so they must have the same hash.
 	} else {
 		int64_t ll = s.value.ival & 0xFFFF;
 		int64_t lu = (s.value.ival & 0xFFFF0000) >> 16;
-- 
2.43.0


From c7bc14414a02080fe6d8ad7b036869cfbe370df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:45 +0000
Subject: [PATCH 18/56] fix: whether 1 and 1.0 were the same element of a set
 depended on what else was in it

---
 data-structures/YASL_Set.c   | 7 ++++---
 data-structures/YASL_Table.h | 2 ++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/data-structures/YASL_Set.c b/data-structures/YASL_Set.c
index c35f752..7a4cc42 100644
--- a/data-structures/YASL_Set.c
+++ b/data-structures/YASL_Set.c
@@ -1,5 +1,6 @@
 #include "YASL_Set.h"
 
+#include "data-structures/YASL_Table.h"
 #include "util/hash_function.h"
 #include "util/prime.h"
 
@@ -73,7 +74,7 @@ bool YASL_Set_insert(struct YASL_Set *const set, struct YASL_Object value) {
 	// `size` is prime, so the first `size` attempts visit every slot.
 	while (!obj_isundef(&curr_item) && i <= set->size) {
 		if (curr_item.type != Y_END) {
-			if ((isequal(&curr_item, &value))) {
+			if ((isequal_typed(&curr_item, &value))) {
 				dec_ref(&curr_item);
 				set->items[index] = value;
 				return true;
@@ -94,7 +95,7 @@ bool YASL_Set_search(const struct YASL_Set *const set, const struct YASL_Object
 	struct YASL_Object item = set->items[index];
 	size_t i = 1;
 	while (!obj_isundef(&item) && i <= set->size) {
-		if ((isequal(&item, &key))) {
+		if ((isequal_typed(&item, &key))) {
 			return true;
 		}
 		index = get_hash(key, set->size, i++);
@@ -114,7 +115,7 @@ void YASL_Set_rm(struct YASL_Set *const set, struct YASL_Object key) {
 	size_t i = 1;
 	while (!obj_isundef(&item) && i <= set->size) {
 		if (item.type != Y_END) {
-			if ((isequal(&item, &key))) {
+			if ((isequal_typed(&item, &key))) {
 				set->items[index] = YASL_END();
 				set->count--;
 				dec_ref(&item);
diff --git a/data-structures/YASL_Table.h b/data-structures/YASL_Table.h
index e9b097d..d9471d5 100644
--- a/data-structures/YASL_Table.h
+++ b/data-structures/YASL_Table.h
@@ -42,6 +42,8 @@ extern struct YASL_Table_Item TOMBSTONE;
 
 void del_item(struct YASL_Table_Item *const item);
 
+bool isequal_typed(const struct YASL_Object *const a, const struct YASL_Object *const b);
+
 struct YASL_Table *YASL_Table_new(void);
 void YASL_Table_del(struct YASL_Table *const table);
 bool YASL_Table_insert(struct YASL_Table *const table, const struct YASL_Object key, const struct YASL_Object value) /* YASL_WARN_UNUSED */;
-- 
2.43.0


From 5ddc2452718419487deb1d8f149cddac21b7dc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:45 +0000
Subject: [PATCH 19/56] fix: clearing a set with many elements left some of
 them behind

---
 data-structures/YASL_Set.c | 11 +++++++++++
 data-structures/YASL_Set.h |  1 +
 std/yasl-std-collections.c |  4 +---
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/data-structures/YASL_Set.c b/data-structures/YASL_Set.c
index 7a4cc42..80fb95c 100644
--- a/data-structures/YASL_Set.c
+++ b/data-structures/YASL_Set.c
@@ -127,6 +127,17 @@ void YASL_Set_rm(struct YASL_Set *const set, struct YASL_Object key) {
 	}
 }
 
+void YASL_Set_clear(struct YASL_Set *const set) {
+	FOR_SET(i, item, set) {
+		dec_ref(item);
+	}
+	free(set->items);
+	set->base_size = SET_BASESIZE;
+	set->size = next_prime(set->base_size);
+	set->count = 0;
+	set->items = (struct YASL_Object *)calloc((size_t) set->size, sizeof(struct YASL_Object));
+}
+
 struct YASL_Set *YASL_Set_union(const struct YASL_Set *const left, const struct YASL_Set *const right) {
 	struct YASL_Set *tmp = YASL_Set_new();
 	FOR_SET(i, iteml, left) {
diff --git a/data-structures/YASL_Set.h b/data-structures/YASL_Set.h
index 919b590..f8c9493 100644
--- a/data-structures/YASL_Set.h
+++ b/data-structures/YASL_Set.h
@@ -18,6 +18,7 @@ void YASL_Set_del(void *s);
 bool YASL_Set_insert(struct YASL_Set *const set, struct YASL_Object value) /* YASL_WARN_UNUSED */;
 bool YASL_Set_search(const struct YASL_Set *const set, const struct YASL_Object key);
 void YASL_Set_rm(struct YASL_Set *const set, struct YASL_Object key);
+void YASL_Set_clear(struct YASL_Set *const set);
 
 struct YASL_Set *YASL_Set_union(const struct YASL_Set *const left, const struct YASL_Set *const right);
 struct YASL_Set *YASL_Set_intersection(const struct YASL_Set *const left, const struct YASL_Set *const right);
diff --git a/std/yasl-std-collections.c b/std/yasl-std-collections.c
index fe4c831..39a8022 100644
--- a/std/yasl-std-collections.c
+++ b/std/yasl-std-collections.c
@@ -299,9 +299,7 @@ static int YASL_collections_set_copy(struct YASL_State *S) {
 static int YASL_collections_set_clear(struct YASL_State *S) {
 	struct YASL_Set *set = YASLX_checknset(S, SET_PRE ".clear", 0);
 
-	FOR_SET(i, item, set) {
-		YASL_Set_rm(set, *item);
-	}
+	YASL_Set_clear(set);
 	return 1;
 }
 
-- 
2.43.0


From 8495622903c3682c323a7ecaac7fda0384f5dc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 20/56] fix: pushing the value that was just popped could use
 it after freeing it

---
 interpreter/VM.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index d438d3c..2872365 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -193,9 +193,11 @@ void vm_push(struct VM *const vm, const struct YASL_Object val) {
 
 	vm->sp++;
 
-	dec_ref(vm->stack + vm->sp);
+	// `val` may be what's in this slot already, so we have to keep it alive until we're done.
+	struct YASL_Object old = vm->stack[vm->sp];
 	vm->stack[vm->sp] = val;
 	inc_ref(vm->stack + vm->sp);
+	dec_ref(&old);
 }
 
 void vm_pushend(struct VM *const vm) {
-- 
2.43.0


From 461d78c18ff37bf8ea5b16a0fe80b40c39d331a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:00 +0000
Subject: [PATCH 21/56] fix: the literals 0.0 and -0.0 shared one constant

---
 compiler/compiler.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index 6e099a0..68241a1 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -799,7 +799,8 @@ static void compiler_add_literal_pattern(struct Compiler *const compiler, const
 }
 
 static void visit_FloatPattern(struct Compiler *const compiler, const struct Node *const node) {
-	yasl_int index = compiler_intern_float(compiler, Float_get_float(node));
+	yasl_float val = Float_get_float(node);
+	yasl_int index = compiler_intern_float(compiler, val == 0 ? 0.0 : val);
 	compiler_add_literal_pattern(compiler, index);
 }
 
@@ -1332,8 +1333,12 @@ static void compiler_add_literal(struct Compiler *const compiler, const yasl_int
 static void visit_Float(struct Compiler *const compiler, const struct Node *const node) {
 	yasl_float val = Float_get_float(node);
 
-	yasl_int index = compiler_intern_float(compiler, val);
+	// 0.0 and -0.0 are equal, so they share a constant.
+	yasl_int index = compiler_intern_float(compiler, val == 0 ? 0.0 : val);
 	compiler_add_literal(compiler, index);
+	if (val == 0 && signbit(val)) {
+		compiler_add_byte(compiler, O_NEG);
+	}
 }
 
 static void visit_Integer(struct Compiler *const compiler, const struct Node *const node) {
-- 
2.43.0


From 0ebbab1a2fea963d3de32796e039fd7efaa2320a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:00 +0000
Subject: [PATCH 22/56] fix: ** on ints lost precision for large results

---
 interpreter/VM.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 2872365..65594ac 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -403,7 +403,20 @@ NUM_BINOP(sub, -)
 NUM_BINOP(mul, *)
 
 static yasl_int int_pow(yasl_int left, yasl_int right) {
-    return (yasl_int)pow((double)left, (double)right);
+	if (left == 0 || left == 1) return right == 0 ? 1 : left;
+	if (left == -1) return right % 2 == 0 ? 1 : -1;
+
+	const bool isneg = left < 0 && right % 2 != 0;
+	const uint64_t base = left < 0 ? 0 - (uint64_t)left : (uint64_t)left;
+	const uint64_t max = (uint64_t)INT64_MAX + isneg;
+	uint64_t result = 1;
+	for (; right > 0; right--) {
+		if (result > max / base) {    // doesn't fit into an int.
+			return INT64_MIN;
+		}
+		result *= base;
+	}
+	return (yasl_int)(isneg ? 0 - result : result);
 }
 
 static void vm_num_binop(struct VM *const vm, int_binop int_op, float_binop float_op,
-- 
2.43.0


From ef722962031b0b93834b144519a44e7dae7de09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:00 +0000
Subject: [PATCH 23/56] fix: list.pop leaked the value it returned

---
 interpreter/list_methods.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/interpreter/list_methods.c b/interpreter/list_methods.c
index 6f1e769..0584f9e 100644
--- a/interpreter/list_methods.c
+++ b/interpreter/list_methods.c
@@ -222,7 +222,9 @@ int list_pop(struct YASL_State *S) {
 		vm_print_err((struct VM *)S, "ValueError: %s expected nonempty list as arg 0.", "list.pop");
 		YASL_throw_err(S, YASL_VALUE_ERROR);
 	}
-	vm_push((struct VM *) S, ls->items[--ls->count]);
+	struct YASL_Object val = ls->items[--ls->count];
+	vm_push((struct VM *) S, val);
+	dec_ref(&val);
 	return 1;
 }
 
-- 
2.43.0


From 7ea7a85a1564a7d89fd50b5f33aae2d1aca3678c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:00 +0000
Subject: [PATCH 24/56] fix: sorting compared large ints as floats

---
 interpreter/YASL_Object.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/interpreter/YASL_Object.c b/interpreter/YASL_Object.c
index d735ab8..7f8239d 100644
--- a/interpreter/YASL_Object.c
+++ b/interpreter/YASL_Object.c
@@ -58,6 +58,10 @@ int yasl_object_cmp(struct YASL_Object a, struct YASL_Object b) {
 	YASL_ASSERT(obj_isstr(&a) && obj_isstr(&b) || obj_isnum(&a) && obj_isnum(&b), "Both must be either numeric or strings");
 	if (obj_isstr(&a) && obj_isstr(&b)) {
 		return YASL_String_cmp(obj_getstr(&a), obj_getstr(&b));
+	} else if (obj_isint(&a) && obj_isint(&b)) {
+		if (obj_getint(&a) < obj_getint(&b)) return -1;
+		if (obj_getint(&a) > obj_getint(&b)) return 1;
+		return 0;
 	} else if (obj_isnum(&a) && obj_isnum(&b)) {
 		yasl_float aVal, bVal;
 		if(obj_isint(&a)) {
-- 
2.43.0


From f0448f63f509a4200ee9456abc643f01d2531322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:00 +0000
Subject: [PATCH 25/56] fix: open upvalues were kept in the wrong order, so
 captured variables could be missed when closing over them

---
 interpreter/VM.c | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 65594ac..a8e2939 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -592,30 +592,18 @@ void vm_stringify_top(struct VM *const vm) {
 }
 
 static struct Upvalue *add_upvalue(struct VM *const vm, struct YASL_Object *const location) {
-	if (vm->pending == NULL) {
-		return (vm->pending = upval_new(location));
+	// pending is kept sorted by location, highest first.
+	struct Upvalue **curr = &vm->pending;
+	while (*curr && (*curr)->location > location) {
+		curr = &(*curr)->next;
 	}
-
-	struct Upvalue *prev = NULL;
-	struct Upvalue *curr = vm->pending;
-	while (curr) {
-		if (curr->location > location) {
-			prev = curr;
-			curr = curr->next;
-			continue;
-		}
-		if (curr->location == location) {
-			return curr;
-		}
-		if (curr->location < location) {
-			struct Upvalue *upval = upval_new(location);
-			upval->next = curr->next;
-			curr->next = upval;
-			return upval;
-		}
-		return (curr->next = upval_new(location));
+	if (*curr && (*curr)->location == location) {
+		return *curr;
 	}
-	return (prev->next = upval_new(location));
+
+	struct Upvalue *upval = upval_new(location);
+	upval->next = *curr;
+	return (*curr = upval);
 }
 
 static void vm_CCONST(struct VM *const vm) {
-- 
2.43.0


From 1aca5189fd71211d3566fec35b807a496e82553c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:47 +0000
Subject: [PATCH 26/56] fix: functions with more than 128 locals used the wrong
 ones

---
 compiler/compiler.c | 6 ++++++
 interpreter/VM.c    | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index 68241a1..c42300c 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -420,6 +420,12 @@ static void visit_FnDecl(struct Compiler *const compiler, const struct Node *con
 		FOR_TABLE(i, item, &compiler->params->upval_indices) {
 			int64_t index = item->value.value.ival;
 			int64_t value = YASL_Table_search(&compiler->params->upval_values, item->key).value.ival;
+			// both locals and upvalues of the enclosing function must be encoded in a single signed byte.
+			if (value < INT8_MIN || value > INT8_MAX || count > UINT8_MAX) {
+				compiler_print_err_syntax(compiler, "Too many captured variables in function (line %" PRI_SIZET ").\n", node->line);
+				handle_error(compiler);
+				break;
+			}
 			compiler->buffer->bytes[start + index] = value;
 		}
 	}
diff --git a/interpreter/VM.c b/interpreter/VM.c
index a8e2939..3c5ff16 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1377,7 +1377,7 @@ void vm_setupconstants(struct VM *const vm) {
 
 void vm_executenext(struct VM *const vm) {
 	unsigned char opcode = NCODE(vm);        // fetch
-	signed char offset;
+	unsigned char offset;
 	struct YASL_Object a, b;
 	yasl_int c;
 	YASL_VM_DEBUG_LOG("----------------"
-- 
2.43.0


From de674e691eea1640fd03c0403ce7baeaecc4cd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:04 +0000
Subject: [PATCH 27/56] fix: break and continue left the variables of the
 blocks they exit on the stack

---
 compiler/compiler.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index c42300c..36e3ae2 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -31,6 +31,7 @@ YASL_FORMAT_CHECK static void compiler_print_err(struct Compiler *compiler, cons
 
 #define break_checkpoint(compiler)    ((compiler)->checkpoints.items[(compiler)->checkpoints.count-1])
 #define continue_checkpoint(compiler) ((compiler)->checkpoints.items[(compiler)->checkpoints.count-2])
+#define locals_checkpoint(compiler)   ((compiler)->checkpoints.items[(compiler)->checkpoints.count-3])
 
 
 void compiler_tables_del(struct Compiler *compiler) {
@@ -109,10 +110,17 @@ static void sizebuffer_pop(struct SizeBuffer *sb) {
 	sb->count--;
 }
 
+static struct Scope *get_scope_in_use(const struct Compiler *const compiler);
+
 static void add_checkpoint(struct Compiler *const compiler, const size_t cp) {
 	sizebuffer_push(&compiler->checkpoints, cp);
 }
 
+// Number of locals live outside of the body of a loop. This must be added before the other checkpoints of the loop.
+static void add_locals_checkpoint(struct Compiler *const compiler) {
+	add_checkpoint(compiler, scope_len(get_scope_in_use(compiler)));
+}
+
 static void rm_checkpoint(struct Compiler *const compiler) {
 	sizebuffer_pop(&compiler->checkpoints);
 }
@@ -609,6 +617,7 @@ static void visit_ForIter(struct Compiler *const compiler, const struct Node *co
 	decl_var(compiler, name, iter->line);
 
 	size_t index_start = compiler->buffer->count;
+	add_locals_checkpoint(compiler);
 	add_checkpoint(compiler, index_start);
 
 	compiler_add_byte(compiler, O_ITER_1);
@@ -631,6 +640,7 @@ static void visit_ForIter(struct Compiler *const compiler, const struct Node *co
 
 	rm_checkpoint(compiler);
 	rm_checkpoint(compiler);
+	rm_checkpoint(compiler);
 }
 
 static void enter_jump(struct Compiler *const compiler, size_t *index) {
@@ -690,6 +700,7 @@ static void visit_While(struct Compiler *const compiler, const struct Node *cons
 		exit_jump(compiler, &index);
 	}
 
+	add_locals_checkpoint(compiler);
 	add_checkpoint(compiler, index_start);
 
 	visit(compiler, cond);
@@ -707,6 +718,14 @@ static void visit_While(struct Compiler *const compiler, const struct Node *cons
 
 	rm_checkpoint(compiler);
 	rm_checkpoint(compiler);
+	rm_checkpoint(compiler);
+}
+
+static void pop_loop_locals(struct Compiler *const compiler) {
+	size_t num_locals = scope_len(get_scope_in_use(compiler)) - locals_checkpoint(compiler);
+	while (num_locals-- > 0) {
+		compiler_add_byte(compiler, O_POP);
+	}
 }
 
 static void visit_Break(struct Compiler *const compiler, const struct Node *const node) {
@@ -715,6 +734,7 @@ static void visit_Break(struct Compiler *const compiler, const struct Node *cons
 		handle_error(compiler);
 		return;
 	}
+	pop_loop_locals(compiler);
 	compiler_add_byte(compiler, O_BCONST_F);
 	branch_back(compiler, break_checkpoint(compiler));
 }
@@ -725,6 +745,7 @@ static void visit_Continue(struct Compiler *const compiler, const struct Node *c
 		handle_error(compiler);
 		return;
 	}
+	pop_loop_locals(compiler);
 	branch_back(compiler, continue_checkpoint(compiler));
 }
 
-- 
2.43.0


From f9553147b1df49bc5f2199fcfad636ffa381d196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 28/56] fix: break and continue in a function could jump into a
 loop outside of the function

---
 compiler/compiler.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index 36e3ae2..a737f7c 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -387,6 +387,9 @@ static void visit_ExprStmt(struct Compiler *const compiler, const struct Node *c
 
 static void visit_FnDecl(struct Compiler *const compiler, const struct Node *const node) {
 	compiler->params = env_new(compiler->params);
+	// loops outside of the function can't be targets of `break` or `continue` inside of it.
+	struct SizeBuffer checkpoints = compiler->checkpoints;
+	compiler->checkpoints = NEW_SIZEBUFFER(4);
 
 	enter_scope(compiler);
 
@@ -438,6 +441,9 @@ static void visit_FnDecl(struct Compiler *const compiler, const struct Node *con
 		}
 	}
 
+	free(compiler->checkpoints.items);
+	compiler->checkpoints = checkpoints;
+
 	struct Env *tmp = compiler->params->parent;
 	compiler->params->parent = NULL;
 	env_del(compiler->params);
-- 
2.43.0


From d907b6a6b664d5ad10a65b2db1441ccbb545b80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:29 +0000
Subject: [PATCH 29/56] fix: variables captured by closures were overwritten
 once the block or the function declaring them was left

---
 interpreter/VM.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 3c5ff16..e5fd636 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1314,6 +1314,10 @@ void vm_close_all(struct VM *const vm) {
 	vm->pending = vm_close_all_helper(vm->stack + vm->fp, vm->pending);
 }
 
+static void vm_close_top(struct VM *const vm, const int len) {
+	vm->pending = vm_close_all_helper(vm->stack + vm->sp - len + 1, vm->pending);
+}
+
 static void vm_ECHO(struct VM *const vm) {
 	unsigned char top = NCODE(vm);
 	YASL_UNUSED(top);
@@ -1542,6 +1546,7 @@ void vm_executenext(struct VM *const vm) {
 		vm->loopframe_num--;
 		break;
 	case O_ENDCOMP:
+		vm_close_top(vm, 2);
 		a = vm_pop(vm);
 		vm_pop(vm);
 		vm_push(vm, a);
@@ -1626,6 +1631,7 @@ void vm_executenext(struct VM *const vm) {
 		vm_RET(vm);
 		break;
 	case O_RET:
+		vm_close_all(vm);
 		vm_RET(vm);
 		break;
 	case O_GET:
@@ -1638,6 +1644,7 @@ void vm_executenext(struct VM *const vm) {
 		vm_SET(vm);
 		break;
 	case O_POP:
+		vm_close_top(vm, 1);
 		vm_pop(vm);
 		break;
 	case O_DEL_FP:
-- 
2.43.0


From 5ba20911d0d1d01ec7071df76690f0a653528efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:08 +0000
Subject: [PATCH 30/56] fix: dropping a closure freed its captured variables
 while they were still on the stack

---
 interpreter/VM.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index e5fd636..2249cf9 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -77,6 +77,7 @@ void vm_close_all(struct VM *const vm);
 
 void vm_cleanup(struct VM *const vm) {
 	// If we've exited early somehow, without closing over some upvalues, we need to do that first.
+	vm->fp = -1;
 	vm_close_all(vm);
 
 	// Exit out of all loops (in case we're exiting with an error).
@@ -602,6 +603,7 @@ static struct Upvalue *add_upvalue(struct VM *const vm, struct YASL_Object *cons
 	}
 
 	struct Upvalue *upval = upval_new(location);
+	upval->rc.refs++;    // pending holds a reference, until it's closed.
 	upval->next = *curr;
 	return (*curr = upval);
 }
@@ -1305,9 +1307,14 @@ static void vm_RET(struct VM *const vm) {
 static struct Upvalue *vm_close_all_helper(struct YASL_Object *const end, struct Upvalue *const curr) {
 	if (curr == NULL) return NULL;
 	if (curr->location < end) return curr;
-	inc_ref(curr->location);
-	upval_close(curr);
-	return (vm_close_all_helper(end, curr->next));
+	struct Upvalue *const next = curr->next;
+	if (--curr->rc.refs == 0) {
+		free(curr);    // no closure uses it anymore.
+	} else {
+		inc_ref(curr->location);
+		upval_close(curr);
+	}
+	return (vm_close_all_helper(end, next));
 }
 
 void vm_close_all(struct VM *const vm) {
-- 
2.43.0


From 07c6a4176d536add50f6e4768d9fb71256a0d85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 31/56] fix: more than 16 active for loops corrupted the VM

---
 interpreter/VM.c | 4 ++++
 interpreter/VM.h | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 2249cf9..e4d78fe 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1543,6 +1543,10 @@ void vm_executenext(struct VM *const vm) {
 		break;
 	}
 	case O_INITFOR:
+		if (vm->loopframe_num + 1 >= NUM_LOOPFRAMES) {
+			vm_print_err(vm, "StackOverflow.");
+			vm_throw_err(vm, YASL_STACK_OVERFLOW_ERROR);
+		}
 		inc_ref(&vm_peek(vm));
 		vm->loopframe_num++;
 		vm->loopframes[vm->loopframe_num].iter = 0;
diff --git a/interpreter/VM.h b/interpreter/VM.h
index cb34e44..5bf4f77 100644
--- a/interpreter/VM.h
+++ b/interpreter/VM.h
@@ -16,6 +16,7 @@
 
 
 #define NUM_FRAMES 1000
+#define NUM_LOOPFRAMES 256
 #define NUM_TYPES 13                                     // number of builtin types, each needs a vtable
 #define SCRATCH_SIZE 1024								// scratchspace size (needs tuning)
 
@@ -99,7 +100,7 @@ struct VM {
 	struct YASL_Object *stack;     // stack
 	struct CallFrame frames[NUM_FRAMES];
 	int frame_num;
-	struct LoopFrame loopframes[16];
+	struct LoopFrame loopframes[NUM_LOOPFRAMES];
 	int loopframe_num;
 	struct YASL_Object *constants;
 	int64_t num_constants;
-- 
2.43.0


From df4ccbb2409b4f7817305f0e9aa544da56bda0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 32/56] fix: binding variables in a pattern could write past
 the end of the stack

---
 interpreter/VM.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index e4d78fe..c77a42d 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1101,6 +1101,10 @@ static bool vm_MATCH_subpattern(struct VM *const vm, struct YASL_Object *expr) {
 		   still on top of the stack. This is taken care of _after_ a successful match by a O_DEL_FP instruction.
 		  */
 		unsigned char offset = NCODE(vm);
+		if (vm->fp + offset + 2 >= STACK_SIZE) {
+			vm_print_err(vm, "StackOverflow.");
+			vm_throw_err(vm, YASL_STACK_OVERFLOW_ERROR);
+		}
 		dec_ref(&vm_peek(vm, vm->fp + offset + 2));
 		vm_peek(vm, vm->fp + offset + 2) = *expr;
 		inc_ref(&vm_peek(vm, vm->fp + offset + 2));
-- 
2.43.0


From 5cc5f615d004a5726ebdda263479f54ef52b7aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 33/56] fix: looking up methods of functions and userptrs read
 uninitialised memory

---
 interpreter/VM.c | 2 +-
 interpreter/VM.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index c77a42d..5e2e7be 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -23,7 +23,7 @@
 #include "closure.h"
 
 static struct RC_UserData **builtins_htable_new(struct VM *const vm) {
-	struct RC_UserData **ht = (struct RC_UserData **) malloc(sizeof(struct RC_UserData *) * NUM_TYPES);
+	struct RC_UserData **ht = (struct RC_UserData **) calloc(NUM_TYPES, sizeof(struct RC_UserData *));
 	ht[Y_UNDEF] = ud_new(undef_builtins(vm), TABLE_NAME, NULL, rcht_del_data);
 	ht[Y_UNDEF]->rc.refs++;
 	ht[Y_FLOAT] = ud_new(float_builtins(vm), TABLE_NAME, NULL, rcht_del_data);
diff --git a/interpreter/VM.h b/interpreter/VM.h
index 5bf4f77..e76eba2 100644
--- a/interpreter/VM.h
+++ b/interpreter/VM.h
@@ -17,7 +17,7 @@
 
 #define NUM_FRAMES 1000
 #define NUM_LOOPFRAMES 256
-#define NUM_TYPES 13                                     // number of builtin types, each needs a vtable
+#define NUM_TYPES (Y_USERDATA_W + 1)                                     // number of builtin types, each needs a vtable
 #define SCRATCH_SIZE 1024								// scratchspace size (needs tuning)
 
 #define vm_peek_offset(vm, offset) ((vm)->stack[offset])
-- 
2.43.0


From 52e4e71b77a1deed29e388ad901ca1012299ed02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:39 +0000
Subject: [PATCH 34/56] fix: a missing key in a table pattern left the matcher
 in the middle of the pattern

---
 interpreter/VM.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 5e2e7be..a2e0e80 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -992,9 +992,14 @@ static bool vm_MATCH_table_elements(struct VM *const vm, size_t len, struct YASL
 			val = YASL_Table_search(table, vm->constants[vm_read_int(vm)]);
 			break;
 		default:
+			val = YASL_END();
 			break;
 		}
-		if (val.type == Y_END || !(vm_MATCH_subpattern(vm, &val))) {
+		if (val.type == Y_END) {
+			vm_ff_subpatterns_multiple(vm, 2 * (len - i) - 1);
+			return false;
+		}
+		if (!vm_MATCH_subpattern(vm, &val)) {
 			vm_ff_subpatterns_multiple(vm, 2 * (len - (i + 1)));
 			return false;
 		}
-- 
2.43.0


From 38833e76cdfa9febc0a886e9fc8fe2237d73bb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:08 +0000
Subject: [PATCH 35/56] fix: math.isprime treated negative numbers as huge
 positive ones

---
 std/yasl-std-math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/yasl-std-math.c b/std/yasl-std-math.c
index d73bc76..5598a0e 100644
--- a/std/yasl-std-math.c
+++ b/std/yasl-std-math.c
@@ -178,7 +178,7 @@ static int YASL_math_isprime(struct YASL_State *S) {
 		n = (yasl_int)YASL_popfloat(S);
 	}
 
-	int p = is_prime(n);
+	int p = n > 0 && is_prime((size_t)n);
 	if (p < 0) YASL_pushundef(S);
 	else YASL_pushbool(S, (bool)p);
 	return 1;
-- 
2.43.0


From 932a3b47993944bc80c108f496fdb667e2019e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:08 +0000
Subject: [PATCH 36/56] fix: math.lcm overflowed even when its result did not

---
 std/yasl-std-math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/yasl-std-math.c b/std/yasl-std-math.c
index 5598a0e..26e0394 100644
--- a/std/yasl-std-math.c
+++ b/std/yasl-std-math.c
@@ -260,7 +260,7 @@ static int YASL_math_lcm(struct YASL_State *S) {
 		YASL_pushundef(S);
 	} else {
 		yasl_int gcd = gcd_helper(a, b);
-		YASL_pushint(S, b*a/gcd);
+		YASL_pushint(S, b/gcd*a);
 	}
 	return 1;
 }
-- 
2.43.0


From 727ce88e82b0908bce8e02ecef31a98731abd8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:08 +0000
Subject: [PATCH 37/56] fix: math.max and math.min compared large ints as
 floats

---
 std/yasl-std-math.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/std/yasl-std-math.c b/std/yasl-std-math.c
index 26e0394..02d00dc 100644
--- a/std/yasl-std-math.c
+++ b/std/yasl-std-math.c
@@ -97,7 +97,7 @@ static int YASL_math_max(struct YASL_State *S) {
 	for (yasl_int i = 0; i < num_va_args; i++) {
 		if (vm_isint((struct VM *)S)) {
 			yasl_int top = vm_popint((struct VM *)S);
-			if ((top >= obj_getnum(&max))) {
+			if (obj_isint(&max) ? top >= obj_getint(&max) : top >= obj_getnum(&max)) {
 				max = YASL_INT(top);
 			}
 		} else if (vm_isfloat((struct VM *)S)) {
@@ -129,7 +129,7 @@ static int YASL_math_min(struct YASL_State *S) {
 	for (yasl_int i = 0; i < num_va_args; i++) {
 		if (vm_isint((struct VM *)S)) {
 			yasl_int top = vm_popint((struct VM *)S);
-			if ((top <= obj_getnum(&max))) {
+			if (obj_isint(&max) ? top <= obj_getint(&max) : top <= obj_getnum(&max)) {
 				max = YASL_INT(top);
 			}
 		} else if (vm_isfloat((struct VM *)S)) {
-- 
2.43.0


From b144f3ae434672207ee0c6a0962908665c71d3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:57 +0000
Subject: [PATCH 38/56] fix: YASL_isuserptr and YASL_isnuserptr were declared
 but not defined

---
 yasl.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/yasl.c b/yasl.c
index 0ce648c..904687d 100644
--- a/yasl.c
+++ b/yasl.c
@@ -515,6 +515,14 @@ bool YASL_isuserdata(struct YASL_State *S, const char *tag) {
 	return vm_isuserdata(&S->vm) && YASL_GETUSERDATA(vm_peek(&S->vm))->tag == tag;
 }
 
+bool YASL_isuserptr(struct YASL_State *S) {
+	return vm_isuserptr(&S->vm);
+}
+
+bool YASL_isnuserptr(struct YASL_State *S, unsigned n) {
+	return vm_isuserptr(&S->vm, S->vm.fp + 1 + n);
+}
+
 bool YASL_peekbool(struct YASL_State *S) {
 	if (YASL_isbool(S)) {
 		return vm_peekbool(&S->vm);
-- 
2.43.0


From 4673fa4a5e03877cfb1bf8a151bff94fe8a2dcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:20 +0000
Subject: [PATCH 39/56] fix: a call's number of expected values no longer leaks
 into nested calls and operands

---
 compiler/compiler.c | 11 +++++++++--
 compiler/parser.c   |  6 +++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index a737f7c..e97f059 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -458,26 +458,33 @@ static void visit_VariadicContext(struct Compiler *const compiler, const struct
 }
 
 static void visit_Call(struct Compiler *const compiler, const struct Node *const node) {
+	// the number of values expected concerns this call only, not the calls nested in it.
+	const int expected_returns = compiler->expected_returns;
+	compiler->expected_returns = 1;
 	visit(compiler, Call_get_object(node));
 	compiler_add_byte(compiler, O_INIT_CALL);
-	compiler_add_byte(compiler, (unsigned char)compiler->expected_returns);
+	compiler_add_byte(compiler, (unsigned char)expected_returns);
 	visit_Body(compiler, Call_get_params(node));
 	compiler_add_byte(compiler, O_CALL);
+	compiler->expected_returns = expected_returns;
 }
 
 static void visit_MethodCall(struct Compiler *const compiler, const struct Node *const node) {
 	char *str = MethodCall_get_name(node);
 	size_t len = strlen(str);
+	const int expected_returns = compiler->expected_returns;
+	compiler->expected_returns = 1;
 	visit(compiler, MethodCall_get_object(node));
 
 	yasl_int index = compiler_intern_string(compiler, str, len);
 
 	compiler_add_byte(compiler, O_INIT_MC);
-	compiler_add_byte(compiler, (unsigned char)compiler->expected_returns);
+	compiler_add_byte(compiler, (unsigned char)expected_returns);
 	compiler_add_int(compiler, index);
 
 	visit_Body(compiler, MethodCall_get_params(node));
 	compiler_add_byte(compiler, O_CALL);
+	compiler->expected_returns = expected_returns;
 }
 
 static void visit_Return(struct Compiler *const compiler, const struct Node *const node) {
diff --git a/compiler/parser.c b/compiler/parser.c
index f9427a1..bf9a4a4 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -348,7 +348,11 @@ static struct Node *parse_return(struct Parser *const parser) {
 		}
 		return new_MultiReturn(parser, block, line);
 	}
-	return new_Return(parser, new_VariadicContext(parser, expr, -1, line), line);
+	// only a call in tail position passes on all of its values.
+	if (expr && will_var_expand(expr)) {
+		expr = new_VariadicContext(parser, expr, -1, line);
+	}
+	return new_Return(parser, expr, line);
 }
 
 static struct Node *parse_fn(struct Parser *const parser) {
-- 
2.43.0


From 9cf3519abae9422ca81e237529d6cd63ecd055a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:01 +0000
Subject: [PATCH 40/56] fix: comprehensions inside larger expressions no longer
 mistake intermediate values for their variable

---
 compiler/parser.c | 28 ++++++++++++++++++++--------
 compiler/parser.h |  2 ++
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index bf9a4a4..dce2fff 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -47,9 +47,9 @@ static struct Node *parse_float(struct Parser *const parser);
 static struct Node *parse_integer(struct Parser *const parser);
 static struct Node *parse_boolean(struct Parser *const parser);
 static struct Node *parse_string(struct Parser *const parser);
-static struct Node *parse_table(struct Parser *const parser);
+static struct Node *parse_table(struct Parser *const parser, const bool inline_comp);
 static struct Node *parse_lambda(struct Parser *const parser);
-static struct Node *parse_list(struct Parser *const parser);
+static struct Node *parse_list(struct Parser *const parser, const bool inline_comp);
 static struct Node *parse_assert(struct Parser *const parser);
 
 YASL_FORMAT_CHECK static void parser_print_err(struct Parser *parser, const char *const fmt, ...) {
@@ -252,6 +252,7 @@ static struct Node *parse_program(struct Parser *const parser) {
 	switch (curtok(parser)) {
 	case T_ECHO:
 		eattok(parser, T_ECHO);
+		parser->inline_comp = true;
 		return new_Echo(parser, parse_expr(parser), line);
 	case T_FN:
 		if (isfndecl(parser)) return parse_fn(parser);
@@ -973,6 +974,8 @@ static struct Node *parse_call(struct Parser *const parser) {
 }
 
 static struct Node *parse_constant(struct Parser *const parser) {
+	const bool inline_comp = parser->inline_comp;
+	parser->inline_comp = false;
 	switch (curtok(parser)) {
 	case T_DOT: {
 		eattok(parser, T_DOT);
@@ -990,9 +993,9 @@ static struct Node *parse_constant(struct Parser *const parser) {
 		return expr;
 	}
 	case T_LSQB:
-		return parse_list(parser);
+		return parse_list(parser, inline_comp);
 	case T_LBRC:
-		return parse_table(parser);
+		return parse_table(parser, inline_comp);
 	case T_STR:
 		return parse_string(parser);
 	case T_INT:
@@ -1132,7 +1135,16 @@ static struct Node *parse_string(struct Parser *const parser) {
 }
 
 
-static struct Node *parse_table(struct Parser *const parser) {
+// A comprehension keeps its variable in a local, so it's evaluated in a frame of its own, unless nothing is below it:
+// the intermediate values of the enclosing expression (or comprehension) are then below that frame.
+static struct Node *wrap_comp(struct Parser *const parser, struct Node *const comp, const size_t line) {
+	struct Node *body = new_Body(parser, line);
+	body_append(parser, &body, new_Return(parser, comp, line));
+	struct Node *fn = new_FnDecl(parser, new_Body(parser, line), body, NULL, 0, line);
+	return new_Call(parser, new_Body(parser, line), fn, line);
+}
+
+static struct Node *parse_table(struct Parser *const parser, const bool inline_comp) {
 	size_t line = parserline(parser);
 	eattok(parser, T_LBRC);
 	struct Node *keys = new_Body(parser, line);
@@ -1162,7 +1174,7 @@ static struct Node *parse_table(struct Parser *const parser) {
 		while (parser->lex.c == '\n') eattok(parser, T_SEMI);
 		eattok(parser, T_RBRC);
 		struct Node *table_comp = new_TableComp(parser, keys, iter, cond, line);
-		return table_comp;
+		return inline_comp ? table_comp : wrap_comp(parser, table_comp, line);
 	}
 	while (matcheattok(parser, T_COMMA)) {
 		body_append(parser, &keys, parse_expr(parser));
@@ -1176,7 +1188,7 @@ static struct Node *parse_table(struct Parser *const parser) {
 
 
 // parse list literal
-static struct Node *parse_list(struct Parser *const parser) {
+static struct Node *parse_list(struct Parser *const parser, const bool inline_comp) {
 	size_t line = parserline(parser);
 	eattok(parser, T_LSQB);
 	struct Node *keys = new_Body(parser, line);
@@ -1203,7 +1215,7 @@ static struct Node *parse_list(struct Parser *const parser) {
 		while (parser->lex.c == '\n') eattok(parser, T_SEMI);
 		eattok(parser, T_RSQB);
 		struct Node *table_comp = new_ListComp(parser, keys->children[0], iter, cond, line);
-		return table_comp;
+		return inline_comp ? table_comp : wrap_comp(parser, table_comp, line);
 	} else {
 		while (matcheattok(parser, T_COMMA)) {
 			YASL_PARSE_DEBUG_LOG("%s\n", "Parsing list");
diff --git a/compiler/parser.h b/compiler/parser.h
index fe8de9c..bd860de 100644
--- a/compiler/parser.h
+++ b/compiler/parser.h
@@ -19,6 +19,7 @@
 	.status = YASL_SUCCESS,\
 	.head = NULL,\
 	.tail = NULL,\
+	.inline_comp = false,\
 })
 
 struct Parser {
@@ -26,6 +27,7 @@ struct Parser {
 	int status;
 	struct Node *head;
 	struct Node *tail;
+	bool inline_comp;    // nothing is below the next primary expression on the stack.
 	jmp_buf env;
 };
 
-- 
2.43.0


From 263e35c8e4f22fbd7e9ad48a2db31d8643415eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:27 +0000
Subject: [PATCH 41/56] fix: release the right operand of ~ when converting the
 left one fails

---
 interpreter/VM.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index a2e0e80..e7b4256 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -529,19 +529,20 @@ void vm_EQ(struct VM *const vm) {
 }
 
 static void vm_CNCT(struct VM *const vm) {
+		// Both operands stay on the stack until they are copied, since stringifying them may throw an error.
 		vm_stringify_top(vm);
-		struct YASL_Object top = vm_peek(vm);
-		inc_ref(&top);
-		struct YASL_String *b = vm_popstr(vm);
+		vm_swaptop(vm);
 		vm_stringify_top(vm);
-		struct YASL_String *a = vm_popstr(vm);
+		struct YASL_String *a = vm_peekstr(vm);
+		struct YASL_String *b = vm_peekstr(vm, vm->sp - 1);
 
 		size_t size = YASL_String_len(a) + YASL_String_len(b);
 		char *ptr = (char *)malloc(size);
 		memcpy(ptr, YASL_String_chars(a), YASL_String_len(a));
 		memcpy(ptr + YASL_String_len(a), YASL_String_chars(b), YASL_String_len(b));
+		vm_pop(vm);
+		vm_pop(vm);
 		vm_pushstr(vm, YASL_String_new_sized_heap(0, size, ptr));
-		dec_ref(&top);
 }
 
 #define DEFINE_COMP(name, opstr, overload_name) \
-- 
2.43.0


From 58d3b61f2aa195b2c68c3d5a60c5e6ad2e5d03fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:27 +0000
Subject: [PATCH 42/56] fix: release the buffer of list.join when converting an
 element fails

---
 interpreter/list_methods.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/interpreter/list_methods.c b/interpreter/list_methods.c
index 0584f9e..aa9de0d 100644
--- a/interpreter/list_methods.c
+++ b/interpreter/list_methods.c
@@ -278,13 +278,20 @@ int list_join(struct YASL_State *S) {
 		return 1;
 	}
 
+	// Stringifying an element may throw an error, so it has to be done before anything is allocated that is not on the stack.
+	vm_pushlist((struct VM *) S, rcls_new());
+	struct YASL_List *strings = vm_peeklist((struct VM *) S, S->vm.sp);
+	for (size_t i = 0; i < list->count; i++) {
+		vm_push((struct VM *) S, list->items[i]);
+		vm_stringify_top((struct VM *) S);
+		YASL_List_append(strings, vm_pop((struct VM *) S));
+	}
+
 	size_t buffer_count = 0;
 	size_t buffer_size = 8;
 	char *buffer = (char *) malloc(buffer_size);
 
-	vm_push((struct VM *)S, list->items[0]);
-	vm_stringify_top((struct VM *)S);
-	struct YASL_String *str = vm_popstr((struct VM *) S);
+	struct YASL_String *str = obj_getstr(strings->items);
 
 	while (buffer_count + YASL_String_len(str) >= buffer_size) {
 		buffer_size *= 2;
@@ -295,7 +302,7 @@ int list_join(struct YASL_State *S) {
 	buffer_count += YASL_String_len(str);
 
 
-	for (size_t i = 1; i < list->count; i++) {
+	for (size_t i = 1; i < strings->count; i++) {
 		while (buffer_count + YASL_String_len(string) >= buffer_size) {
 			buffer_size *= 2;
 			buffer = (char *) realloc(buffer, buffer_size);
@@ -304,9 +311,7 @@ int list_join(struct YASL_State *S) {
 		memcpy(buffer + buffer_count, YASL_String_chars(string), YASL_String_len(string));
 		buffer_count += YASL_String_len(string);
 
-		vm_push((struct VM *) S, list->items[i]);
-		vm_stringify_top((struct VM *)S);
-		struct YASL_String *str = vm_popstr((struct VM *) S);
+		struct YASL_String *str = obj_getstr(strings->items + i);
 
 		while (buffer_count + YASL_String_len(str) >= buffer_size) {
 			buffer_size *= 2;
@@ -318,6 +323,7 @@ int list_join(struct YASL_State *S) {
 	}
 	vm_pop((struct VM *) S);
 	vm_pop((struct VM *) S);
+	vm_pop((struct VM *) S);
 	vm_pushstr((struct VM *) S, YASL_String_new_sized_heap(0, buffer_count, buffer));
 	return 1;
 }
-- 
2.43.0


From ebda580800cb290c502c4efeca84bf1af4f089a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:15 +0000
Subject: [PATCH 43/56] fix: release a new string when there is no room for it
 on the stack

---
 interpreter/VM.c            | 4 ++++
 interpreter/float_methods.c | 4 ++--
 interpreter/int_methods.c   | 4 ++--
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index e7b4256..6ae4702 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -188,6 +188,10 @@ void vm_throw_err(struct VM *const vm, int error) {
 
 void vm_push(struct VM *const vm, const struct YASL_Object val) {
 	if (vm->sp + 1 >= STACK_SIZE) {
+		// `val` is released if nothing else refers to it.
+		struct YASL_Object tmp = val;
+		inc_ref(&tmp);
+		dec_ref(&tmp);
 		vm_print_err(vm, "StackOverflow.");
 		vm_throw_err(vm, YASL_STACK_OVERFLOW_ERROR);
 	}
diff --git a/interpreter/float_methods.c b/interpreter/float_methods.c
index 873c2fe..486f3a9 100644
--- a/interpreter/float_methods.c
+++ b/interpreter/float_methods.c
@@ -5,6 +5,7 @@
 #include "yasl.h"
 #include "yasl_aux.h"
 #include "yasl_float.h"
+#include "interpreter/VM.h"
 
 int float_toint(struct YASL_State *S) {
 	yasl_float val = YASLX_checknfloat(S, "float.toint", 0);
@@ -28,7 +29,6 @@ int float_tofloat(struct YASL_State *S) {
 int float_tostr(struct YASL_State *S) {
 	yasl_float val = YASLX_checknfloat(S, "float.tostr", 0);
 	const char *ptr = float64_to_str(val);
-	YASL_pushzstr(S, ptr);
-	free((void *)ptr);
+	vm_pushstr((struct VM *) S, YASL_String_new_sized_heap(0, strlen(ptr), ptr));
 	return 1;
 }
diff --git a/interpreter/int_methods.c b/interpreter/int_methods.c
index 559bd17..ff0d6a9 100644
--- a/interpreter/int_methods.c
+++ b/interpreter/int_methods.c
@@ -5,6 +5,7 @@
 #include "yasl.h"
 #include "yasl_aux.h"
 #include "yasl_include.h"
+#include "interpreter/VM.h"
 
 int int_toint(struct YASL_State *S) {
 	yasl_int n = YASLX_checknint(S, "int.toint", 0);
@@ -29,7 +30,6 @@ int int_tostr(struct YASL_State *S) {
 	int len = snprintf(NULL, 0, "%" PRId64 "", n);
 	char *ptr = (char *)malloc(len + 1);
 	sprintf(ptr, "%" PRId64 "", n);
-	YASL_pushlstr(S, ptr, len);
-	free(ptr);
+	vm_pushstr((struct VM *) S, YASL_String_new_sized_heap(0, len, ptr));
 	return 1;
 }
-- 
2.43.0


From 3278545c865c5d033bcb70edab41a6324a69082e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:23 +0000
Subject: [PATCH 44/56] fix: nested scopes left over after a syntax error were
 freed twice

---
 compiler/env.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/compiler/env.c b/compiler/env.c
index b648ba0..cacc094 100644
--- a/compiler/env.c
+++ b/compiler/env.c
@@ -50,7 +50,6 @@ struct Scope *scope_new(struct Scope *const parent) {
 void scope_del(struct Scope *const scope) {
 	if (scope == NULL) return;
 	scope_del(scope->parent);
-	free(scope->parent);
 	scope_del_current_only(scope);
 }
 
-- 
2.43.0


From f424787ca56e4b2802ba50eed189844ab9b1fcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:24 +0000
Subject: [PATCH 45/56] fix: resetting a state freed code that functions in
 globals still use

---
 yasl.c | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/yasl.c b/yasl.c
index 904687d..d75e233 100644
--- a/yasl.c
+++ b/yasl.c
@@ -76,6 +76,25 @@ void YASL_loadprinterr(struct YASL_State *S) {
 	}
 }
 
+// Forgets the program that was compiled and run last.
+static void forget_program(struct YASL_State *S) {
+	struct VM *vm = &S->vm;
+	struct Compiler *compiler = &S->compiler;
+
+	// functions stored in globals still need the code they were compiled to, so it's kept until S is deleted.
+	if (vm->code) {
+		vm->headers = (unsigned char **)realloc(vm->headers, (vm->headers_size + 1) * sizeof(unsigned char *));
+		vm->headers[vm->headers_size++] = vm->code;
+		vm->headers[compiler->num] = NULL;
+		vm->code = NULL;
+	}
+
+	compiler->code->count = 0;
+	compiler->buffer->count = 0;
+	compiler->status = YASL_SUCCESS;
+	compiler->parser.status = YASL_SUCCESS;
+}
+
 int YASL_resetstate(struct YASL_State *S, const char *filename) {
 	FILE *fp = fopen(filename, "r");
 	if (!fp) {
@@ -84,13 +103,10 @@ int YASL_resetstate(struct YASL_State *S, const char *filename) {
 
 	fseek(fp, 0, SEEK_SET);
 
-	S->compiler.status = YASL_SUCCESS;
-	S->compiler.parser.status = YASL_SUCCESS;
+	forget_program(S);
 	lex_cleanup(&S->compiler.parser.lex);
 
 	S->compiler.parser.lex = NEW_LEXER(lexinput_new_file(fp));
-	S->compiler.code->count = 0;
-	S->compiler.buffer->count = 0;
 
 	return YASL_SUCCESS;
 }
@@ -109,14 +125,9 @@ struct YASL_State *YASL_newstate_bb(const char *buf, size_t len) {
 }
 
 int YASL_resetstate_bb(struct YASL_State *S, const char *buf, size_t len) {
-	S->compiler.status = YASL_SUCCESS;
-	S->compiler.parser.status = YASL_SUCCESS;
+	forget_program(S);
 	lex_cleanup(&S->compiler.parser.lex);
 	S->compiler.parser.lex = NEW_LEXER(lexinput_new_bb(buf, len));
-	S->compiler.code->count = 0;
-	S->compiler.buffer->count = 0;
-	if (S->vm.code)	free(S->vm.code);
-	S->vm.code = NULL;
 
 	return YASL_SUCCESS;
 }
-- 
2.43.0


From 6be72ffa6d3a9290a9d5a4c9adac7360f15b7ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:24 +0000
Subject: [PATCH 46/56] fix: resetting a state kept the line table, scopes and
 stack of a program that failed

---
 yasl.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/yasl.c b/yasl.c
index d75e233..dd4dc8b 100644
--- a/yasl.c
+++ b/yasl.c
@@ -76,7 +76,9 @@ void YASL_loadprinterr(struct YASL_State *S) {
 	}
 }
 
-// Forgets the program that was compiled and run last.
+void vm_close_all(struct VM *const vm);
+
+// Forgets the program that was compiled and run last, and what it left behind if it ended with an error.
 static void forget_program(struct YASL_State *S) {
 	struct VM *vm = &S->vm;
 	struct Compiler *compiler = &S->compiler;
@@ -89,6 +91,22 @@ static void forget_program(struct YASL_State *S) {
 		vm->code = NULL;
 	}
 
+	vm->fp = -1;
+	vm_close_all(vm);
+	while (vm->loopframe_num >= 0) {
+		dec_ref(&vm->loopframes[vm->loopframe_num].iterable);
+		vm->loopframe_num--;
+	}
+	vm->frame_num = -1;
+	vm->sp = -1;
+
+	scope_del(compiler->stack);
+	compiler->stack = NULL;
+	env_del(compiler->params);
+	compiler->params = NULL;
+	compiler->checkpoints.count = 0;
+	compiler->lines->count = 0;
+	compiler->line = 0;
 	compiler->code->count = 0;
 	compiler->buffer->count = 0;
 	compiler->status = YASL_SUCCESS;
-- 
2.43.0


From f37d8a450cb7e40877b4cb6d6c3208a326bd278f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:24 +0000
Subject: [PATCH 47/56] fix: YASL_functioncall did not run functions written in
 YASL and miscounted results

---
 yasl.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/yasl.c b/yasl.c
index dd4dc8b..cd8bc29 100644
--- a/yasl.c
+++ b/yasl.c
@@ -469,14 +469,17 @@ int YASL_listpush(struct YASL_State *S) {
 	return YASL_SUCCESS;
 }
 
+void vm_CALL_now(struct VM *const vm);
+
 int YASL_functioncall(struct YASL_State *S, int n) {
 	struct VM *vm = &S->vm;
 	vm_INIT_CALL_offset(vm, vm->sp - n, -1);
 
-	const int old_sp = vm->sp;
-	vm_CALL(vm);
+	// the results replace the function and its arguments.
+	const int base = vm->sp - n - 1;
+	vm_CALL_now(vm);
 
-	return old_sp - vm->sp - 1;
+	return vm->sp - base;
 }
 
 bool YASL_isundef(struct YASL_State *S) {
-- 
2.43.0


From b7ea64bbff73bc044313b9705aace3b048f0cc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:24 +0000
Subject: [PATCH 48/56] fix: functions in globals lost the variables of the
 program they come from

---
 interpreter/VM.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 6ae4702..60ab785 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1413,6 +1413,8 @@ void vm_executenext(struct VM *const vm) {
 		vm_close_all(vm);
 		vm_throw_err(vm, YASL_MODULE_SUCCESS);
 	case O_HALT:
+		// functions that outlive the program keep the variables of it that they use.
+		vm_close_all(vm);
 		vm_throw_err(vm, YASL_SUCCESS);
 	case O_BCONST_F:
 	case O_BCONST_T:
-- 
2.43.0


From 81d60b83ca9277f223bff50c3278c90c11055832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:24 +0000
Subject: [PATCH 49/56] fix: running another program leaked the constants of
 the one before it

---
 interpreter/VM.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 60ab785..b119473 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1362,6 +1362,10 @@ static void vm_ECHO(struct VM *const vm) {
 }
 
 void vm_setupconstants(struct VM *const vm) {
+	for (int64_t i = 0; i < vm->num_constants; i++) {
+		dec_ref(vm->constants + i);
+	}
+	free(vm->constants);
 	vm->num_constants = ((int64_t *)vm->code)[2];
 	vm->constants = (struct YASL_Object *)malloc(sizeof(struct YASL_Object) * vm->num_constants);
 	unsigned char *tmp = vm->code + 3*sizeof(int64_t);
-- 
2.43.0


From aa94bbc52cd7da203c2a375919d030c767288ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:24 +0000
Subject: [PATCH 50/56] fix: YASL_popint, popfloat and popbool kept values of
 other types on the stack

---
 yasl.c | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/yasl.c b/yasl.c
index cd8bc29..e9f7e33 100644
--- a/yasl.c
+++ b/yasl.c
@@ -571,10 +571,9 @@ bool YASL_peeknbool(struct YASL_State *S, unsigned n) {
 }
 
 bool YASL_popbool(struct YASL_State *S) {
-	if (YASL_isbool(S)) {
-		return vm_popbool(&S->vm);
-	}
-	return false;
+	bool value = YASL_peekbool(S);
+	YASL_pop(S);
+	return value;
 }
 
 yasl_float YASL_peekfloat(struct YASL_State *S) {
@@ -593,10 +592,9 @@ yasl_float YASL_peeknfloat(struct YASL_State *S, unsigned n) {
 }
 
 yasl_float YASL_popfloat(struct YASL_State *S) {
-	if (YASL_isfloat(S)) {
-		return vm_popfloat(&S->vm);
-	}
-	return 0.0;
+	yasl_float value = YASL_peekfloat(S);
+	YASL_pop(S);
+	return value;
 }
 
 yasl_int YASL_peekint(struct YASL_State *S) {
@@ -615,10 +613,9 @@ yasl_int YASL_peeknint(struct YASL_State *S, unsigned n) {
 }
 
 yasl_int YASL_popint(struct YASL_State *S) {
-	if (YASL_isint(S)) {
-		return vm_popint(&S->vm);
-	}
-	return 0;
+	yasl_int value = YASL_peekint(S);
+	YASL_pop(S);
+	return value;
 }
 
 char *YASL_peekcstr(struct YASL_State *S) {
-- 
2.43.0


From b27cab68125eadfbdb8b101909759efa91a2a65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:24 +0000
Subject: [PATCH 51/56] fix: YASL_setmt with undef did not pop it, so
 metatables could not be removed

---
 yasl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yasl.c b/yasl.c
index e9f7e33..e15acff 100644
--- a/yasl.c
+++ b/yasl.c
@@ -254,7 +254,8 @@ int YASL_setmt(struct YASL_State *S) {
 		return YASL_TYPE_ERROR;
 	}
 
-	struct RC_UserData *mt = YASL_istable(S) ? YASL_GETUSERDATA(vm_pop(&S->vm)) : NULL;
+	struct RC_UserData *mt = YASL_istable(S) ? YASL_GETUSERDATA(vm_peek(&S->vm)) : NULL;
+	vm_pop(&S->vm);
 
 	if (!vm_isuserdata(&S->vm) && !vm_istable(&S->vm) && !vm_islist(&S->vm)) {
 		return YASL_TYPE_ERROR;
-- 
2.43.0


From 76b34cc821dcc240ca437ea60ad621c3f248be0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:57 +0000
Subject: [PATCH 52/56] fix: YASL_peeknuserdata dereferenced values that are
 not userdata

---
 yasl.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yasl.c b/yasl.c
index e15acff..7818941 100644
--- a/yasl.c
+++ b/yasl.c
@@ -638,6 +638,9 @@ char *YASL_popcstr(struct YASL_State *S) {
 }
 
 void *YASL_peeknuserdata(struct YASL_State *S, unsigned n) {
+	// lists and tables are userdata as well.
+	if (!vm_isuserdata(&S->vm, S->vm.fp + 1 + n) && !YASL_isnlist(S, n) && !YASL_isntable(S, n)) return NULL;
+
 	return YASL_GETUSERDATA(vm_peek(&S->vm, S->vm.fp + 1 + n))->data;
 }
 
-- 
2.43.0


From 08beb3c10230d98dc72cc3683c38d0909db517c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:57 +0000
Subject: [PATCH 53/56] fix: argument errors named the type of the last
 argument instead of the wrong one

---
 yasl_aux.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yasl_aux.c b/yasl_aux.c
index f5f8573..3380165 100644
--- a/yasl_aux.c
+++ b/yasl_aux.c
@@ -27,7 +27,7 @@ void YASLX_print_err_bad_arg_type(struct YASL_State *S,
 
 yasl_int YASLX_checknint(struct YASL_State *S, const char *name, unsigned n) {
 	if (!YASL_isnint(S, n)) {
-		YASLX_print_err_bad_arg_type(S, name, n, "int", YASL_peektypename(S));
+		YASLX_print_err_bad_arg_type(S, name, n, "int", YASL_peekntypename(S, n));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
 	return YASL_peeknint(S, n);
@@ -35,7 +35,7 @@ yasl_int YASLX_checknint(struct YASL_State *S, const char *name, unsigned n) {
 
 yasl_float YASLX_checknfloat(struct YASL_State *S, const char *name, unsigned n) {
 	if (!YASL_isnfloat(S, n)) {
-		YASLX_print_err_bad_arg_type(S, name, n, "float", YASL_peektypename(S));
+		YASLX_print_err_bad_arg_type(S, name, n, "float", YASL_peekntypename(S, n));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
 	return YASL_peeknfloat(S, n);
@@ -43,7 +43,7 @@ yasl_float YASLX_checknfloat(struct YASL_State *S, const char *name, unsigned n)
 
 bool YASLX_checknbool(struct YASL_State *S, const char *name, unsigned n) {
 	if (!YASL_isnbool(S, n)) {
-		YASLX_print_err_bad_arg_type(S, name, n, "bool", YASL_peektypename(S));
+		YASLX_print_err_bad_arg_type(S, name, n, "bool", YASL_peekntypename(S, n));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
 	return YASL_peeknbool(S, n);
-- 
2.43.0


From d81183ec767d590c46a695f439db44b8a03c9bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:15 +0000
Subject: [PATCH 54/56] fix: refuse a sign or blank in a hexadecimal escape

strtol accepts both, so '\x+1' and '\x 1' were read as the character 1.
---
 compiler/lexer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/lexer.c b/compiler/lexer.c
index 0a2171a..a9e77e4 100644
--- a/compiler/lexer.c
+++ b/compiler/lexer.c
@@ -344,7 +344,7 @@ static bool handle_escapes(struct Lexer *const lex, char delim) {
 		buffer[1] = lex_getchar(lex);
 		buffer[2] = '\0';
 		tmp = (char) strtol(buffer, &end, 16);
-		if (end != buffer + 2) {
+		if (!isxdigit((unsigned char) buffer[0]) || end != buffer + 2) {
 			lex_print_err_syntax(lex, "Invalid hex string escape in line %" PRI_SIZET ".\n", lex->line);
 			goto error;
 		}
-- 
2.43.0


From e84f6a5556a8766299e766add993ae41497cfa43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:15 +0000
Subject: [PATCH 55/56] fix: a field that ends a line has that line

The line was taken from the next token, so an error named a later line.
---
 compiler/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index dce2fff..dc667a5 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -932,7 +932,7 @@ static struct Node *parse_call(struct Parser *const parser) {
 						   Call_get_params(right)->children[1], parserline(parser));
 			} else if (right->nodetype == N_VAR) {
 				right->nodetype = N_STR;
-				cur_node = new_Get(parser, cur_node, right, parserline(parser));
+				cur_node = new_Get(parser, cur_node, right, right->line);
 			} else {
 				parser_print_err_syntax(parser, "Invalid member access (line %" PRI_SIZET ").\n", parserline(parser));
 				handle_error(parser);
-- 
2.43.0


From bd7fd33d717857044c4aeab456632b33184126fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:15 +0000
Subject: [PATCH 56/56] fix: a ternary that ends a line has that line

The line was taken from the next token, so an error in it named a later line.
---
 compiler/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index dc667a5..d45c90e 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -833,7 +833,7 @@ static struct Node *parse_ternary(struct Parser *const parser) {
 		struct Node *left = parse_ternary(parser);
 		eattok(parser, T_COLON);
 		struct Node *right = parse_ternary(parser);
-		return new_TriOp(parser, T_QMARK, cur_node, left, right, parserline(parser));
+		return new_TriOp(parser, T_QMARK, cur_node, left, right, cur_node->line);
 	}
 	return cur_node;
 }
-- 
2.43.0

