From 35814f329f1f37be0716581fbea7fd5e95366a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:44 +0000
Subject: [PATCH 01/33] fix: btree lookup must not match slots past the last
 key of a node

---
 src/datastructure/btree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datastructure/btree.c b/src/datastructure/btree.c
index 7e064ae..0896e8f 100644
--- a/src/datastructure/btree.c
+++ b/src/datastructure/btree.c
@@ -73,7 +73,7 @@ static struct btree_node_tuple* btree_search(struct btree_head *head, struct btr
 	while (i < node->key_count && head->cmp_fn(key, node->keys[i].key) > 0)
 		i++;
 
-	if (node->keys[i].key && head->cmp_fn(node->keys[i].key, key) == 0)
+	if (i < node->key_count && head->cmp_fn(node->keys[i].key, key) == 0)
 		return &node->keys[i];
 
 	if (node->is_leaf)
-- 
2.43.0


From 2a21e7c709ebfa184fe972a7a0f727594cc691e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:02 +0000
Subject: [PATCH 02/33] fix: bit_set/clear/toggle take any bit number, not only
 0..255

---
 include/lib/bit.h | 6 +++---
 src/lib/bit.c     | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/lib/bit.h b/include/lib/bit.h
index 0186c0f..e1c8b69 100644
--- a/include/lib/bit.h
+++ b/include/lib/bit.h
@@ -12,10 +12,10 @@
 
 bool bit_test(void* field, size_t bit_number, size_t len);
 
-void bit_set(void* field, uint8_t bit_number, size_t len);
+void bit_set(void* field, size_t bit_number, size_t len);
 
-void bit_clear(void* field, uint8_t bit_number, size_t len);
+void bit_clear(void* field, size_t bit_number, size_t len);
 
-void bit_toggle(void* field, uint8_t bit_number, size_t len);
+void bit_toggle(void* field, size_t bit_number, size_t len);
 
 #endif /* INCLUDE_COMPILER_BIT_H_ */
diff --git a/src/lib/bit.c b/src/lib/bit.c
index 1e0aaca..9321887 100644
--- a/src/lib/bit.c
+++ b/src/lib/bit.c
@@ -8,7 +8,7 @@ bool bit_test(void *field, size_t bit_number, size_t len)
 	return (((char*)field)[byte_no] >> bit_number) & 1ULL;
 }
 
-void bit_set(void *field, uint8_t bit_number, size_t len)
+void bit_set(void *field, size_t bit_number, size_t len)
 {
 	size_t byte_no = floorl(bit_number / CHAR_BIT);
 	bit_number -= byte_no * CHAR_BIT;
@@ -16,7 +16,7 @@ void bit_set(void *field, uint8_t bit_number, size_t len)
 	((char*)field)[byte_no] |= (1ULL << bit_number);
 }
 
-void bit_clear(void *field, uint8_t bit_number, size_t len)
+void bit_clear(void *field, size_t bit_number, size_t len)
 {
 	size_t byte_no = floorl(bit_number / CHAR_BIT);
 	bit_number -= byte_no * CHAR_BIT;
@@ -24,7 +24,7 @@ void bit_clear(void *field, uint8_t bit_number, size_t len)
 	((char*)field)[byte_no] &= ~(1UL << bit_number);
 }
 
-void bit_toggle(void *field, uint8_t bit_number, size_t len)
+void bit_toggle(void *field, size_t bit_number, size_t len)
 {
 	size_t byte_no = floorl(bit_number / CHAR_BIT);
 	bit_number -= byte_no * CHAR_BIT;
-- 
2.43.0


From 0c875f9799b90ea848b99dd050937f2dc25f0de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:46 +0000
Subject: [PATCH 03/33] fix: vector_push keeps its content when it cannot grow

---
 src/datastructure/vector.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/datastructure/vector.c b/src/datastructure/vector.c
index d8ae49e..1d29064 100644
--- a/src/datastructure/vector.c
+++ b/src/datastructure/vector.c
@@ -26,6 +26,7 @@ bool vector_init(struct vector *vec)
 bool vector_push(struct vector *vec, void *data, size_t len)
 {
 	size_t new_cap;
+	char *new_data;
 
 	/* sanity checks */
 	if (!vec || !data || len == 0)
@@ -34,12 +35,13 @@ bool vector_push(struct vector *vec, void *data, size_t len)
 	/* does the vector need to grow? */
 	if (vec->len + len > vec->capacity / 2) {
 		new_cap = (vec->len + len) * 3;
-		vec->data = realloc(vec->data, new_cap);
-		memzero(vec->data + vec->len, new_cap - vec->len);
-
-		if (!vec->data)
+		new_data = realloc(vec->data, new_cap);
+		if (!new_data)
 			return false;
 
+		memzero(new_data + vec->len, new_cap - vec->len);
+
+		vec->data = new_data;
 		vec->capacity = new_cap;
 	}
 
-- 
2.43.0


From f7748bc3c9c9d3ed7bab7640d31450bb2b26c880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:47 +0000
Subject: [PATCH 04/33] fix: btree removal must not fail (and lose nodes) for
 lack of memory when merging

---
 src/datastructure/btree.c | 51 ++++++---------------------------------
 1 file changed, 7 insertions(+), 44 deletions(-)

diff --git a/src/datastructure/btree.c b/src/datastructure/btree.c
index 0896e8f..561d2af 100644
--- a/src/datastructure/btree.c
+++ b/src/datastructure/btree.c
@@ -146,40 +146,6 @@ err_node:
 	return NULL;
 }
 
-static int __must_check btree_node_copy(struct btree_head *head, struct btree_node *dst, struct btree_node *src)
-{
-
-	int max_degree = btree_max_degree(head) + 1 /* sentinel node */;
-
-	dst->is_leaf = src->is_leaf;
-	dst->key_count = src->key_count;
-
-	if (!(dst->keys = calloc(max_degree, sizeof(struct btree_node_tuple))))
-		goto err;
-
-	memcpy(dst->keys, src->keys, max_degree * sizeof(struct btree_node_tuple));
-
-	if (!(dst->children = calloc(max_degree, sizeof(struct btree_node))))
-		goto err_children;
-
-	if (!src->is_leaf) {
-		for (int i = 0; i <= src->key_count; i++) {
-			if (btree_node_copy(head, &dst->children[i], &src->children[i]) != 0)
-				goto err_recur;
-		}
-	}
-
-	return 0;
-
-err_recur:
-	free(dst->children);
-err_children:
-	free(dst->keys);
-err:
-	printf("error while allocating mem");
-	return -MIDORIDB_NOMEM;
-}
-
 static int __must_check btree_split_child(struct btree_head *head, struct btree_node *x, int i)
 {
 	struct btree_node *y;
@@ -357,7 +323,6 @@ static struct btree_node_tuple btree_node_get_successor(struct btree_node *node,
 
 static int __must_check btree_node_merge(struct btree_head *head, struct btree_node *node, int idx)
 {
-	int ret = 0;
 	struct btree_node *child, *sibling;
 
 	child = &node->children[idx];
@@ -373,20 +338,18 @@ static int __must_check btree_node_merge(struct btree_head *head, struct btree_n
 		memzero(&sibling->keys[i], sizeof(struct btree_node_tuple));
 	}
 
-	// Copying the child pointers from C[idx+1] to C[idx]
+	// Moving the child pointers from C[idx+1] to C[idx]
 	if (!child->is_leaf) {
-		for (int i = 0; i <= sibling->key_count; ++i) {
-			if ((ret = btree_node_copy(head, &child->children[i + head->min_degree], &sibling->children[i]))
-					!= 0)
-				return ret;
-		}
+		for (int i = 0; i <= sibling->key_count; ++i)
+			child->children[i + head->min_degree] = sibling->children[i];
 	}
 
 	// Updating the key count of child and the current node
 	child->key_count += sibling->key_count + 1;
 
-	// Freeing the memory occupied by sibling
-	__btree_destroy(head, sibling);
+	// Freeing the memory occupied by sibling (its children now belong to C[idx])
+	free(sibling->children);
+	free(sibling->keys);
 
 	// Moving all keys after idx in the current node one step before -
 	// to fill the gap created by moving keys[idx] to C[idx]
@@ -403,7 +366,7 @@ static int __must_check btree_node_merge(struct btree_head *head, struct btree_n
 
 	node->key_count--;
 
-	return ret;
+	return 0;
 }
 
 // A function to remove the idx-th key from this node - which is a non-leaf node
-- 
2.43.0


From 4e5285aa6769a1066a2c5297041f0ad4b9b8aede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:31 +0000
Subject: [PATCH 05/33] fix: table_insert_row reads no further than the text it
 stores and undoes a failed insert correctly

---
 src/primitive/row.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/primitive/row.c b/src/primitive/row.c
index 03f8674..5b56a59 100644
--- a/src/primitive/row.c
+++ b/src/primitive/row.c
@@ -78,7 +78,9 @@ bool table_insert_row(struct table *table, struct row *row, size_t len)
 
 			/* Copy data only if column is not NULL */
 			if (!bit_test(row->null_bitmap, column_idx, sizeof(row->null_bitmap))) {
-				memcpy(ptr, *((char**)((char*)row->data + pos)), column->precision);
+				/* source can be shorter than the column */
+				char *src = *((char**)((char*)row->data + pos));
+				memcpy(ptr, src, strnlen(src, column->precision));
 			}
 
 			uintptr_t *col_idx_ptr = (uintptr_t*)&new_row->data[pos];
@@ -108,7 +110,7 @@ err:
 	 */
 	pos = 0;
 	for (int i = 0; i < column_idx; i++) {
-		struct column *column = &table->columns[column_idx];
+		struct column *column = &table->columns[i];
 		if (table_check_var_column(column)) {
 			void **col_idx_ptr = (void**)&new_row->data[pos];
 			free(*col_idx_ptr);
@@ -116,7 +118,7 @@ err:
 		pos += table_calc_column_space(column);
 	}
 
-	memzero(new_row->data, table_calc_row_size(table));
+	memzero(new_row->data, table_calc_row_data_size(table));
 	new_row->flags.empty = true;
 	new_row->flags.deleted = false;
 
-- 
2.43.0


From a90b21478f91c389c347d6665e04a0be6c234fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:50 +0000
Subject: [PATCH 06/33] fix: table_update_row reads no further than the text it
 stores

---
 src/primitive/row.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/primitive/row.c b/src/primitive/row.c
index 5b56a59..50a37d1 100644
--- a/src/primitive/row.c
+++ b/src/primitive/row.c
@@ -158,8 +158,16 @@ bool table_update_row(struct table *table, struct datablock *blk, size_t offset,
 	for (int i = 0; i < table->column_count; i++) {
 		struct column *column = &table->columns[i];
 		if (table_check_var_column(column)) {
-			void **ptr = (void**)&upd_row->data[pos];
-			memcpy(*ptr, *((char**)((char*)row->data + pos)), column->precision);
+			char *dst = *((char**)&upd_row->data[pos]);
+			char *src = *((char**)((char*)row->data + pos));
+
+			/* source can be shorter than the column (or absent if column is NULL) */
+			if (src) {
+				size_t src_len = strnlen(src, column->precision);
+
+				memmove(dst, src, src_len);
+				memzero(dst + src_len, column->precision - src_len);
+			}
 		} else {
 			memcpy(upd_row->data + pos, ((char*)row->data) + pos, column->precision);
 		}
-- 
2.43.0


From 1acf7df5f83c0d7d669a3710197d085dbd73316e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:51 +0000
Subject: [PATCH 07/33] fix: table_vacuum on a table without datablocks

---
 src/primitive/vacuum.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/primitive/vacuum.c b/src/primitive/vacuum.c
index b634752..7dcabd7 100644
--- a/src/primitive/vacuum.c
+++ b/src/primitive/vacuum.c
@@ -23,6 +23,10 @@ bool table_vacuum(struct table *table)
 	if (!table)
 		return false;
 
+	/* nothing to reclaim if no row has ever been inserted */
+	if (list_is_empty(table->datablock_head))
+		return true;
+
 	dst_blk_idx = 0;
 	src_blk_idx = 0;
 	dst_blk_offset = 0;
-- 
2.43.0


From 0faf09ec316c9c14a0b9709e7ae9507e960cc5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:16 +0000
Subject: [PATCH 08/33] fix: table_add_column gives VARCHAR columns content and
 leaves the table as it was when it fails

---
 src/primitive/column.c | 42 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/src/primitive/column.c b/src/primitive/column.c
index b405e3b..17c0450 100644
--- a/src/primitive/column.c
+++ b/src/primitive/column.c
@@ -37,12 +37,17 @@ static bool datablock_add_column(struct table *table, size_t row_cur_size, size_
 	struct list_head *old_head, *new_head;
 	struct list_head *old_pos, *new_pos, *tmp_pos;
 	struct datablock *old_entry, *new_entry;
-	size_t blk_offset;
+	struct column *column;
+	size_t blk_offset, col_offset;
 
 	/* sanity checks */
 	if (!table || row_cur_size == row_nxt_size)
 		goto err;
 
+	/* the new column is the last one */
+	column = &table->columns[table->column_count - 1];
+	col_offset = row_nxt_size - table_calc_column_space(column);
+
 	old_head = table->datablock_head;
 	blk_offset = 0;
 	old_entry = NULL;
@@ -78,6 +83,20 @@ static bool datablock_add_column(struct table *table, size_t row_cur_size, size_
 
 			/* copy row into new datablock */
 			memcpy(&new_entry->data[blk_offset], row, row_cur_size);
+
+			/* if that holds a var precision column, rows need their own (empty) content */
+			if (table_check_var_column(column)) {
+				void *ptr = zalloc(column->precision);
+
+				if (!ptr) {
+					/* not a row that err_free can release */
+					((struct row*)&new_entry->data[blk_offset])->flags.empty = true;
+					goto err_free;
+				}
+
+				memcpy(&new_entry->data[blk_offset + col_offset], &ptr, sizeof(ptr));
+			}
+
 			blk_offset += row_nxt_size;
 		}
 	}
@@ -98,7 +117,21 @@ static bool datablock_add_column(struct table *table, size_t row_cur_size, size_
 err_free:
 	list_for_each_safe(new_pos, tmp_pos, new_head)
 	{
-		datablock_free(list_entry(new_pos, typeof(*new_entry), head));
+		new_entry = list_entry(new_pos, typeof(*new_entry), head);
+
+		/* content of the other columns still belongs to the old datablocks */
+		for (size_t i = 0; i < (DATABLOCK_PAGE_SIZE / row_nxt_size) && table_check_var_column(column); i++) {
+			struct row *row = (struct row*)&new_entry->data[i * row_nxt_size];
+			void *ptr;
+
+			if (row->flags.empty)
+				break;
+
+			memcpy(&ptr, &new_entry->data[i * row_nxt_size + col_offset], sizeof(ptr));
+			free(ptr);
+		}
+
+		datablock_free(new_entry);
 	}
 	free(new_head);
 
@@ -136,8 +169,11 @@ bool table_add_column(struct table *table, struct column *column)
 
 	/* if table isn't empty than we can to rearrange rows in datablocks */
 	if (!list_is_empty(table->datablock_head)) {
-		if (!datablock_add_column(table, row_cur_size, table_calc_row_size(table)))
+		if (!datablock_add_column(table, row_cur_size, table_calc_row_size(table))) {
+			/* rows weren't rearranged so the table must not have the column either */
+			table->column_count--;
 			return false;
+		}
 	}
 
 	return true;
-- 
2.43.0


From 50034bec4c964519e85f638f0e9b056fef8a3219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:18 +0000
Subject: [PATCH 09/33] fix: removing a column moves the NULL flags of the
 columns after it

---
 src/primitive/column.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/primitive/column.c b/src/primitive/column.c
index 17c0450..bab9775 100644
--- a/src/primitive/column.c
+++ b/src/primitive/column.c
@@ -228,6 +228,14 @@ static void datablock_rem_column(struct table *table, size_t col_idx)
 				&row->data[data_offset + col_prec],
 				row_data_size - (data_offset + col_prec));
 
+			/* columns on the right hand side move one position so must their NULL flags */
+			for (int j = col_idx; j < table->column_count; j++) {
+				if (j + 1 < table->column_count && bit_test(row->null_bitmap, j + 1, sizeof(row->null_bitmap)))
+					bit_set(row->null_bitmap, j, sizeof(row->null_bitmap));
+				else
+					bit_clear(row->null_bitmap, j, sizeof(row->null_bitmap));
+			}
+
 			/* make rows sit right next to each other now that row has a smaller size */
 			memmove(&entry->data[blk_offset], row, row_new_size);
 			blk_offset += row_new_size;
-- 
2.43.0


From b5625f9581b94b1cae191520ff594e2746beed7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:27 +0000
Subject: [PATCH 10/33] fix: regex_ext_match_grp leaves the caller's stack
 alone when there is no match

---
 src/lib/regex.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/lib/regex.c b/src/lib/regex.c
index 9228981..a2a4be9 100644
--- a/src/lib/regex.c
+++ b/src/lib/regex.c
@@ -15,12 +15,14 @@ bool regex_ext_match_grp(const char *text, const char *exp, struct stack *out)
 	char *match;
 	int num_matches;
 
-	BUG_ON(regcomp(&regex, exp, REG_EXTENDED));
+	if (regcomp(&regex, exp, REG_EXTENDED))
+		return false;
+
 	num_matches = regex.re_nsub + 1;
 
 	matches = calloc(num_matches, sizeof(*matches));
 	if (!matches)
-		goto err;
+		goto err_matches;
 
 	if (regexec(&regex, text, num_matches, matches, 0))
 		goto err_regex;
@@ -54,10 +56,10 @@ bool regex_ext_match_grp(const char *text, const char *exp, struct stack *out)
 err_stack:
 	free(match);
 err_regex:
-	stack_free(out);
-	regfree(&regex);
 	free(matches);
-err:
+err_matches:
+	/* out belongs to the caller, who frees it whether or not there was a match */
+	regfree(&regex);
 	return false;
 
 }
-- 
2.43.0


From d853a93beff8e17497bac18a041f3263478fe3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:47 +0000
Subject: [PATCH 11/33] fix: lexer and parser reject what they can't read
 instead of carrying on

Unterminated strings, names and comments and unknown characters were
reported on stderr only and skipped (an unclosed comment looped forever),
64-bit and scientific numbers lost digits, tokens over 255 bytes were cut,
"1-1" was two numbers, doubled and double quotes stayed in the text, and
running out of memory went unnoticed.
---
 include/parser/syntax.h |  17 +++++
 src/engine/query.c      |   8 ++-
 src/parser/midorisql.l  | 156 +++++++++++++++++++++++++++++++++-------
 src/parser/midorisql.y  | 101 ++++++++++++++------------
 src/parser/syntax.c     |  43 +++++++++--
 5 files changed, 243 insertions(+), 82 deletions(-)

diff --git a/include/parser/syntax.h b/include/parser/syntax.h
index 9c3ed0d..bf5abeb 100644
--- a/include/parser/syntax.h
+++ b/include/parser/syntax.h
@@ -10,6 +10,23 @@
 
 #include <compiler/common.h>
 #include <datastructure/queue.h>
+#include <primitive/table.h>
+#include <inttypes.h>
+#include <setjmp.h>
+
+/* state of one run of the scanner and the parser */
+struct syntax_scan {
+	/* tokens (and error messages) go here */
+	struct queue *out;
+	/* the scanner's start condition before a comment */
+	int oldstate;
+	/* last token given to the parser */
+	int last_token;
+	/* a token couldn't be queued */
+	bool failed;
+	/* where the scanner goes when it runs out of memory */
+	jmp_buf fatal;
+};
 
 int syntax_parse(char *in, struct queue *out);
 
diff --git a/src/engine/query.c b/src/engine/query.c
index 23fc1eb..2de5a70 100644
--- a/src/engine/query.c
+++ b/src/engine/query.c
@@ -53,8 +53,12 @@ struct query_output* query_execute(struct database *db, char *query)
 	/* syntax analysis */
 	if (syntax_parse(query, &queue)) {
 		/* copy error from the tail of the queue */
-		char *err_msg = (char*)queue_peek(&queue);
+		char *err_msg = "error while parsing query\n";
 		size_t err_msg_len = sizeof(output->error.message) - 1;
+
+		if (!queue_empty(&queue))
+			err_msg = (char*)queue_peek_pos(&queue, queue_length(&queue) - 1);
+
 		strncpy(output->error.message, err_msg, err_msg_len);
 
 		goto err_syntax_parser;
@@ -101,6 +105,8 @@ err_syntax_parser:
 	queue_free(&queue);
 err_init_queue:
 	output->status = ST_ERROR;
+	if (!*output->error.message)
+		snprintf(output->error.message, sizeof(output->error.message) - 1, "error while executing query\n");
 err:
 	return output;
 }
diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index dbb8e1d..ca3b111 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -1,11 +1,21 @@
 %option noyywrap nodefault yylineno case-insensitive reentrant bison-bridge
+%option extra-type="struct syntax_scan *"
 
 %{
+#include <parser/syntax.h>
 #include "midorisql.tab.h"
-void yyerror(void*, void*, char *s, ...);
-int oldstate;
 
-#define YY_FATAL_ERROR(msg) yyerror(NULL, yyscanner, msg)
+/* only running out of memory gets us here, and syntax_parse is who can clean up after that */
+#define YY_FATAL_ERROR(msg) longjmp(yyget_extra(yyscanner)->fatal, 1)
+
+/* the scanner is wrapped so that it can tell whether the token before this one ends an operand */
+#define YY_DECL static int scan_token(YYSTYPE *yylval_param, yyscan_t yyscanner)
+
+static int lexical_error(yyscan_t yyscanner, const char *fmt, ...);
+static bool after_operand(yyscan_t yyscanner);
+static char *string_content(const char *text, size_t len);
+static int text_token(yyscan_t yyscanner, int token, char *text, char **out);
+static int name_token(yyscan_t yyscanner, const char *text, size_t len, char **out);
 %}
 
 %x COMMENT
@@ -40,7 +50,7 @@ DOUBLE	{ return DOUBLE; }
 ELSE	{ return ELSE; }
 END	{ return END; }
 EXISTS	{ yylval->subtok = 0; return EXISTS; }
-NOT[ \t\n]+EXISTS	{ yylval->subtok = 1; return EXISTS; }
+NOT[ \t\r\n]+EXISTS	{ yylval->subtok = 1; return EXISTS; }
 EXPLAIN	{ return EXPLAIN; }
 FROM	{ return FROM; }
 GROUP	{ return GROUP; }
@@ -82,14 +92,29 @@ XOR	{ return XOR; }
 
    /* numbers */
 
--?[0-9]+	        { yylval->intval = atoi(yytext); return INTNUM; } 
+-?[0-9]+	        { if (*yytext == '-' && after_operand(yyscanner)) {
+				/* "1-1" is a subtraction */
+				yyless(1);
+				return '-';
+			  }
+			  errno = 0;
+			  yylval->numval = strtoll(yytext, NULL, 10);
+			  if (errno)
+				return lexical_error(yyscanner, "number out of range %s", yytext);
+			  return INTNUM; }
 
 -?[0-9]+"."[0-9]* |
 -?"."[0-9]+	|
 -?[0-9]+E[-+]?[0-9]+	|
 -?[0-9]+"."[0-9]*E[-+]?[0-9]+ |
--?"."[0-9]*E[-+]?[0-9]+	{ yylval->floatval = atof(yytext) ;
-                                  return APPROXNUM; }
+-?"."[0-9]+E[-+]?[0-9]+	{ if (*yytext == '-' && after_operand(yyscanner)) {
+				yyless(1);
+				return '-';
+			  }
+			  yylval->floatval = atof(yytext);
+			  if (!isfinite(yylval->floatval))
+				return lexical_error(yyscanner, "number out of range %s", yytext);
+			  return APPROXNUM; }
     /* booleans */
 TRUE	{ yylval->intval = 1; return BOOL; }
 UNKNOWN	{ yylval->intval = -1; return BOOL; }
@@ -98,19 +123,19 @@ FALSE	{ yylval->intval = 0; return BOOL; }
    /* strings */
 
 '(\\.|''|[^'\n])*'	|
-\"(\\.|\"\"|[^"\n])*\"  { yylval->strval = strdup(yytext); return STRING; }
+\"(\\.|\"\"|[^"\n])*\"  { return text_token(yyscanner, STRING, string_content(yytext, yyleng), &yylval->strval); }
 
-'(\\.|[^'\n])*$	        { yyerror(NULL, yyscanner, "Unterminated string %s", yytext); }
-\"(\\.|[^"\n])*$	{ yyerror(NULL, yyscanner, "Unterminated string %s", yytext); }
+'(\\.|[^'\n])*$	        { return lexical_error(yyscanner, "Unterminated string %s", yytext); }
+\"(\\.|[^"\n])*$	{ return lexical_error(yyscanner, "Unterminated string %s", yytext); }
 
    /* hex strings */
 X'[0-9A-F]+' |  
-0X[0-9A-F]+  { yylval->strval = strdup(yytext); return STRING; }
+0X[0-9A-F]+  { return text_token(yyscanner, STRING, strdup(yytext), &yylval->strval); }
 
    /* bit strings */
 
 0B[01]+      |
-B'[01]+'     { yylval->strval = strdup(yytext); return STRING; }
+B'[01]+'     { return text_token(yyscanner, STRING, strdup(yytext), &yylval->strval); }
 
 
    /* operators */
@@ -136,31 +161,108 @@ B'[01]+'     { yylval->strval = strdup(yytext); return STRING; }
 	/* 
          * peek ahead and return function if name(
          */
-COUNT    { int c = input(yyscanner); unput(c);
-           if(c == '(') {return FCOUNT;}
-           yylval->strval = strdup(yytext);
-           return NAME; }
+COUNT/"("	{ return FCOUNT; }
 
-[A-Za-z][A-Za-z0-9_]*	{ yylval->strval = strdup(yytext);
-                          return NAME; }
-`[^`/\\.\n]+`           { yylval->strval = strdup(yytext+1);
-                          yylval->strval[yyleng-2] = 0;
-                          return NAME; }
+[A-Za-z][A-Za-z0-9_]*	{ return name_token(yyscanner, yytext, yyleng, &yylval->strval); }
+`[A-Za-z0-9_]+`         { return name_token(yyscanner, yytext + 1, yyleng - 2, &yylval->strval); }
+`[^`\n]*`               { return lexical_error(yyscanner, "invalid quoted name %s", yytext); }
 
-`[^`\n]*$               { yyerror(NULL, yyscanner, "unterminated quoted name %s", yytext); }
+`[^`\n]*$               { return lexical_error(yyscanner, "unterminated quoted name %s", yytext); }
 
 
 	/* comments */   
 #.*		;
 "--"[ \t].*	;
 
-"/*"            { oldstate = YY_START; BEGIN COMMENT; }
-<COMMENT>"*/"   { BEGIN oldstate; }
+"/*"            { yyextra->oldstate = YY_START; BEGIN COMMENT; }
+<COMMENT>"*/"   { BEGIN yyextra->oldstate; }
 <COMMENT>.|\n   ;
-<COMMENT><<EOF>> { yyerror(NULL, yyscanner, "unclosed comment"); }
+<COMMENT><<EOF>> { return lexical_error(yyscanner, "unclosed comment"); }
 
 	/* everything else */
-[ \t\n]         /* white space */
-.               { yyerror(NULL, yyscanner, "mystery character '%c'", *yytext); }
+[ \t\r\n]       /* white space */
+.               { return lexical_error(yyscanner, "mystery character '%c'", *yytext); }
 
 %%
+
+int yylex(YYSTYPE *lval, yyscan_t yyscanner)
+{
+	struct syntax_scan *scan = yyget_extra(yyscanner);
+
+	scan->last_token = scan_token(lval, yyscanner);
+	return scan->last_token;
+}
+
+/* report what is wrong with the text; the parser gives up when it gets the YYerror token */
+static int lexical_error(yyscan_t yyscanner, const char *fmt, ...)
+{
+	char buf[256];
+	va_list ap;
+
+	va_start(ap, fmt);
+	vsnprintf(buf, sizeof(buf), fmt, ap);
+	va_end(ap);
+
+	yyerror(yyget_extra(yyscanner)->out, yyscanner, buf);
+	return YYerror;
+}
+
+/* is the token before the one being read the end of an operand? */
+static bool after_operand(yyscan_t yyscanner)
+{
+	switch (yyget_extra(yyscanner)->last_token) {
+	case NAME:
+	case STRING:
+	case INTNUM:
+	case APPROXNUM:
+	case BOOL:
+	case NULLX:
+	case ')':
+		return true;
+	default:
+		return false;
+	}
+}
+
+/* the text between the quotes in single quotes, with doubled quotes replaced by a single one */
+static char *string_content(const char *text, size_t len)
+{
+	char quote = text[0];
+	char *out = malloc(len + 1);
+	size_t pos = 0;
+
+	if (!out)
+		return NULL;
+
+	out[pos++] = '\'';
+	for (size_t i = 1; i < len - 1; i++) {
+		out[pos++] = text[i];
+		/* the character after a backslash never closes the string, so it is never doubled */
+		if (text[i] == '\\' && i + 1 < len - 1)
+			out[pos++] = text[++i];
+		else if (text[i] == quote)
+			i++;
+	}
+	out[pos++] = '\'';
+	out[pos] = '\0';
+
+	return out;
+}
+
+static int text_token(yyscan_t yyscanner, int token, char *text, char **out)
+{
+	if (!text)
+		return lexical_error(yyscanner, "out of memory");
+
+	*out = text;
+	return token;
+}
+
+static int name_token(yyscan_t yyscanner, const char *text, size_t len, char **out)
+{
+	/* that's what AST nodes have room for */
+	if (len > 255)
+		return lexical_error(yyscanner, "name is too long");
+
+	return text_token(yyscanner, NAME, strndup(text, len), out);
+}
diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index 2b2dbd8..ff2e1c5 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -6,10 +6,14 @@
 
 %{
 #include <datastructure/queue.h>
+#include <parser/syntax.h>
 
-void yyerror(struct queue*, void*, const char *, ...);
-bool emit(struct queue *q, char *s, ...);
+/* a token that can't be queued makes syntax_parse fail once the parser is done */
+#define emit(q, ...)	emit_token(q, scanner, __VA_ARGS__)
+
+static void emit_token(struct queue *q, void *scanner, const char *s, ...);
 int yylex(void*, void*);
+struct syntax_scan *yyget_extra(void*);
 %}
 
 %code requires { 
@@ -17,6 +21,10 @@ int yylex(void*, void*);
 #include <datastructure/queue.h>
 }
 
+%code provides {
+void yyerror(struct queue*, void*, const char *);
+}
+
 /* 
    Add another argument in yyparse() so that we
    can communicate the parsed result to the caller.
@@ -31,6 +39,7 @@ int yylex(void*, void*);
 
 %union {
 	int intval;
+	int64_t numval;
 	double floatval;
 	char *strval;
 	int subtok;
@@ -40,7 +49,7 @@ int yylex(void*, void*);
 
 %token <strval> NAME
 %token <strval> STRING
-%token <intval> INTNUM
+%token <numval> INTNUM
 %token <intval> BOOL
 %token <floatval> APPROXNUM
 
@@ -200,7 +209,7 @@ column_list: NAME { emit(result, "COLUMN %s", $1); free($1); $$ = 1; }
   ;
 
 select_opts:                          { $$ = 0; }
-   | select_opts DISTINCT            { if($$ & 02) yyerror(result, scanner, "duplicate DISTINCT option"); $$ = $1 | 02; }
+   | select_opts DISTINCT            { if($1 & 02) { yyerror(result, scanner, "duplicate DISTINCT option"); YYERROR; } $$ = $1 | 02; }
    ;
 
 select_expr_list: select_expr { $$ = 1; }
@@ -250,8 +259,8 @@ join_condition:
 expr: NAME          { emit(result, "NAME %s", $1); free($1); }
    | NAME '.' NAME { emit(result, "FIELDNAME %s.%s", $1, $3); free($1); free($3); }
    | STRING        { emit(result, "STRING %s", $1); free($1); }
-   | INTNUM        { emit(result, "NUMBER %d", $1); }
-   | APPROXNUM     { emit(result, "FLOAT %g", $1); }
+   | INTNUM        { emit(result, "NUMBER %" PRId64, $1); }
+   | APPROXNUM     { emit(result, "FLOAT %.17g", $1); }
    | BOOL          { emit(result, "BOOL %d", $1); }
    | NULLX         { emit(result, "NULL"); }
    ;
@@ -317,8 +326,8 @@ del_opt_where: /* nil */
 
 delete_expr: NAME          { emit(result, "NAME %s", $1); free($1); }
 	   | STRING        { emit(result, "STRING %s", $1); free($1); }
-	   | INTNUM        { emit(result, "NUMBER %d", $1); }
-	   | APPROXNUM     { emit(result, "FLOAT %g", $1); }
+	   | INTNUM        { emit(result, "NUMBER %" PRId64, $1); }
+	   | APPROXNUM     { emit(result, "FLOAT %.17g", $1); }
    	   | BOOL          { emit(result, "BOOL %d", $1); }
    	   | NULLX         { emit(result, "NULL"); }
    	   ;
@@ -374,8 +383,8 @@ insert_stmt: INSERT opt_into NAME opt_col_names
 
 insert_expr:
      STRING        { emit(result, "STRING %s", $1); free($1); }
-   | INTNUM        { emit(result, "NUMBER %d", $1); }
-   | APPROXNUM     { emit(result, "FLOAT %g", $1); }
+   | INTNUM        { emit(result, "NUMBER %" PRId64, $1); }
+   | APPROXNUM     { emit(result, "FLOAT %.17g", $1); }
    | BOOL          { emit(result, "BOOL %d", $1); }
    | NULLX         { emit(result, "NULL"); }
    ;
@@ -401,10 +410,10 @@ update_stmt: UPDATE NAME
 
 update_asgn_list:
      NAME COMPARISON update_expr 
-       { if ($2 != 4) yyerror(result, scanner, "bad insert assignment to %s", $1);
+       { if ($2 != 4) { yyerror(result, scanner, "bad update assignment"); free($1); YYERROR; }
 	 emit(result, "ASSIGN %s", $1); free($1); $$ = 1; }   
    | update_asgn_list ',' NAME COMPARISON update_expr
-       { if ($4 != 4) yyerror(result, scanner, "bad insert assignment to %s", $3);
+       { if ($4 != 4) { yyerror(result, scanner, "bad update assignment"); free($3); YYERROR; }
 	 emit(result, "ASSIGN %s", $3); free($3); $$ = $1 + 1; }   
    ;
 
@@ -413,8 +422,8 @@ update_opt_where: /* nil */ 	{ $$ = 0; }
 
 update_expr: NAME          { emit(result, "NAME %s", $1); free($1); }
 	   | STRING        { emit(result, "STRING %s", $1); free($1); }
-	   | INTNUM        { emit(result, "NUMBER %d", $1); }
-	   | APPROXNUM     { emit(result, "FLOAT %g", $1); }
+	   | INTNUM        { emit(result, "NUMBER %" PRId64, $1); }
+	   | APPROXNUM     { emit(result, "FLOAT %.17g", $1); }
    	   | BOOL          { emit(result, "BOOL %d", $1); }
    	   | NULLX         { emit(result, "NULL"); }
    	   ;
@@ -441,8 +450,10 @@ update_val_list: update_expr				{ $$ = 1; }
    /** create table **/
 
 opt_if_not_exists:  /* nil */ { $$ = 0; }
-   | IF EXISTS           { if(!$2) yyerror(result, scanner, "IF EXISTS doesn't exist");
+   | IF EXISTS           { if(!$2) { yyerror(result, scanner, "IF EXISTS doesn't exist"); YYERROR; }
                         $$ = $2; /* NOT EXISTS hack */ }
+   | IF NOT EXISTS       { if($3) { yyerror(result, scanner, "IF NOT NOT EXISTS doesn't exist"); YYERROR; }
+                        $$ = 1; }
    ;
 
 stmt: create_table_stmt { emit(result, "STMT"); }
@@ -479,50 +490,46 @@ data_type:
    | DOUBLE { $$ = 80000; }
    | DATE { $$ = 100000; }
    | DATETIME { $$ = 110000; }
-   | VARCHAR '(' INTNUM ')' { $$ = 130000 + $3; }
+   | VARCHAR '(' INTNUM ')' { if($3 < 1 || $3 > 9999) { yyerror(result, scanner, "invalid VARCHAR length"); YYERROR; }
+                        $$ = 130000 + $3; }
    ;
 
 
 %%
 
-void yyerror(struct queue *q, void* scanner, const char *s, ...)
+void yyerror(struct queue *q, void* scanner, const char *s)
 {
 	(void)scanner;
-	char buf[256];
-	va_list ap;
-	
-	memzero(buf, sizeof(buf));
-	va_start(ap, s);
-	
-	/* if the error happened at the lexical phase then 
-	we print it to stderr as there is no queue ref yet */
-	if(!q){
-		vfprintf(stderr, s, ap);  
-		fprintf(stderr, "\n");
-	}else {
-		sprintf(buf, s, ap);
-	
-		/* although unlikely, if we fail to push content to the queue
-		   so other program can read the error message, then we fail 
-		   over to the stderr */
-		if(!queue_offer(q, buf, strlen(buf) + 1)){
-			vfprintf(stderr, s, ap);  
-			fprintf(stderr, "\n");
-		}
-	}
-	
-	va_end(ap);
+
+	/* although unlikely, if we fail to push content to the queue
+	   so other program can read the error message, then we fail
+	   over to the stderr */
+	if (!queue_offer(q, (char*)s, strlen(s) + 1))
+		fprintf(stderr, "%s\n", s);
 }
 
-bool emit(struct queue *q, char *s, ...)
+static void emit_token(struct queue *q, void *scanner, const char *s, ...)
 {
-	char buf[256];
+	char *buf;
 	va_list ap;
-	
-	memzero(buf, sizeof(buf));
+	int len;
+
 	va_start(ap, s);
-	vsnprintf(buf,sizeof(buf), s, ap);
+	len = vsnprintf(NULL, 0, s, ap);
 	va_end(ap);
 
-	return queue_offer(q, buf, strlen(buf) + 1);
+	buf = malloc(len + 1);
+	if (!buf) {
+		yyget_extra(scanner)->failed = true;
+		return;
+	}
+
+	va_start(ap, s);
+	vsnprintf(buf, len + 1, s, ap);
+	va_end(ap);
+
+	if (!queue_offer(q, buf, len + 1))
+		yyget_extra(scanner)->failed = true;
+
+	free(buf);
 }
diff --git a/src/parser/syntax.c b/src/parser/syntax.c
index 0674de5..ddfdff6 100644
--- a/src/parser/syntax.c
+++ b/src/parser/syntax.c
@@ -10,26 +10,55 @@
 #include <midorisql.yy.h>
 #include <errno.h>
 
+static void report(struct queue *out, const char *msg)
+{
+	if (!queue_offer(out, (char*)msg, strlen(msg) + 1))
+		fprintf(stderr, "error while gathering parser error \n");
+}
+
 int syntax_parse(char *in, struct queue *out)
 {
+	struct syntax_scan scan = {.out = out};
 	yyscan_t sc;
-	YY_BUFFER_STATE bs;
+	size_t len;
+	char *buf;
 	int res;
 
 	/* sanity check */
 	BUG_ON(!in || !out);
 
-	if (yylex_init(&sc)) {
+	if (yylex_init_extra(&scan, &sc)) {
 		res = errno;
-		if (!queue_offer(out, strerror(res), strlen(strerror(res))))
-			fprintf(stderr, "error while gathering parser error \n");
+		report(out, strerror(res));
 		return res;
 	}
 
-	bs = yy_scan_string(in, sc);
-	res = yyparse(out, sc);
-	yy_delete_buffer(bs, sc);
+	/* the scanner wants two NUL chars at the end */
+	len = strlen(in) + 2;
+	if (!(buf = zalloc(len))) {
+		report(out, "out of memory");
+		yylex_destroy(sc);
+		return 1;
+	}
+	memcpy(buf, in, len - 2);
+
+	if (setjmp(scan.fatal)) {
+		report(out, "out of memory");
+		res = 1;
+	} else {
+		/* make room for the buffer first so that no half-made buffer is lost if there's no memory for it */
+		yy_switch_to_buffer(NULL, sc);
+		yy_scan_buffer(buf, len, sc);
+		res = yyparse(out, sc);
+
+		if (!res && scan.failed) {
+			report(out, "out of memory");
+			res = 1;
+		}
+	}
+
 	yylex_destroy(sc);
+	free(buf);
 
 	return res;
 }
-- 
2.43.0


From b39378230ca5ef68507feb1c0b769fcdbfd0a83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:12 +0000
Subject: [PATCH 12/33] fix: AST of a statement with an unsupported part is
 refused, not fatal

Tokens without handler called exit(1), the token text leaked when a column
definition couldn't be read, and 64-bit, scientific and empty literals were
cut, refused or taken for other text.
---
 src/parser/ast_create.c | 5 ++---
 src/parser/ast_delete.c | 8 ++++----
 src/parser/ast_insert.c | 8 ++++----
 src/parser/ast_select.c | 8 ++++----
 src/parser/ast_update.c | 8 ++++----
 5 files changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/parser/ast_create.c b/src/parser/ast_create.c
index 8683f9f..d2701fa 100644
--- a/src/parser/ast_create.c
+++ b/src/parser/ast_create.c
@@ -108,8 +108,7 @@ static struct ast_crt_column_def_node* __must_check build_columndef_node(struct
 err_regex:
 	stack_free(&tmp_st);
 err_stack_init:
-	if (!str)
-		free(str);
+	free(str);
 	free(node->node_children_head);
 err_head:
 	free(node);
@@ -347,7 +346,7 @@ struct ast_node* ast_create_build_tree(struct queue *parser)
 			break;
 		} else {
 			fprintf(stderr, "%s: %s handler not implement yet\n", __func__, str);
-			exit(1);
+			goto err_push_node;
 		}
 
 		if (!curr)
diff --git a/src/parser/ast_delete.c b/src/parser/ast_delete.c
index 0815743..44ff85b 100644
--- a/src/parser/ast_delete.c
+++ b/src/parser/ast_delete.c
@@ -138,10 +138,10 @@ static struct ast_del_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "NUMBER (-{0,1}[0-9]+)";
 	} else if (type == AST_DEL_EXPR_VAL_STRING) {
 		node->value_type.is_str = true;
-		reg_exp = "STRING '(.+)'";
+		reg_exp = "^STRING '(.*)'$";
 	} else if (type == AST_DEL_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
-		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
+		reg_exp = "FLOAT ([-+0-9.e]+)";
 	} else if (type == AST_DEL_EXPR_VAL_BOOL) {
 		node->value_type.is_bool = true;
 		reg_exp = "BOOL ([0-1])";
@@ -169,7 +169,7 @@ static struct ast_del_exprval_node* build_expr_val_node(struct queue *parser, en
 
 		ext_val = (char*)stack_peek_pos(&reg_pars, 0);
 		if (type == AST_DEL_EXPR_VAL_INTNUM) {
-			node->int_val = atoi(ext_val);
+			node->int_val = strtoll(ext_val, NULL, 10);
 		} else if (type == AST_DEL_EXPR_VAL_STRING) {
 			strncpy(node->str_val, ext_val, sizeof(node->str_val) - 1);
 		} else if (type == AST_DEL_EXPR_VAL_NAME) {
@@ -401,7 +401,7 @@ struct ast_node* ast_delete_build_tree(struct queue *parser)
 			break;
 		} else {
 			fprintf(stderr, "%s: %s handler not implement yet\n", __func__, str);
-			exit(1);
+			goto err_push_node;
 		}
 
 		if (!curr)
diff --git a/src/parser/ast_insert.c b/src/parser/ast_insert.c
index a030ca7..ca2e555 100644
--- a/src/parser/ast_insert.c
+++ b/src/parser/ast_insert.c
@@ -134,10 +134,10 @@ static struct ast_ins_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "NUMBER (-{0,1}[0-9]+)";
 	} else if (type == AST_INS_EXPR_VAL_STRING) {
 		node->value_type.is_str = true;
-		reg_exp = "STRING '(.+)'";
+		reg_exp = "^STRING '(.*)'$";
 	} else if (type == AST_INS_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
-		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
+		reg_exp = "FLOAT ([-+0-9.e]+)";
 	} else if (type == AST_INS_EXPR_VAL_BOOL) {
 		node->value_type.is_bool = true;
 		reg_exp = "BOOL ([0-1])";
@@ -162,7 +162,7 @@ static struct ast_ins_exprval_node* build_expr_val_node(struct queue *parser, en
 
 		ext_val = (char*)stack_peek_pos(&reg_pars, 0);
 		if (type == AST_INS_EXPR_VAL_INTNUM) {
-			node->int_val = atoi(ext_val);
+			node->int_val = strtoll(ext_val, NULL, 10);
 		} else if (type == AST_INS_EXPR_VAL_STRING) {
 			strncpy(node->str_val, ext_val, sizeof(node->str_val) - 1);
 		} else if (type == AST_INS_EXPR_VAL_APPROXNUM) {
@@ -433,7 +433,7 @@ struct ast_node* ast_insert_build_tree(struct queue *parser)
 			break;
 		} else {
 			fprintf(stderr, "%s: %s handler not implement yet\n", __func__, str);
-			exit(1);
+			goto err_push_node;
 		}
 
 		if (!curr)
diff --git a/src/parser/ast_select.c b/src/parser/ast_select.c
index f82c01c..92ff3fc 100644
--- a/src/parser/ast_select.c
+++ b/src/parser/ast_select.c
@@ -41,10 +41,10 @@ static struct ast_sel_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "NUMBER (-{0,1}[0-9]+)";
 	} else if (type == AST_SEL_EXPR_VAL_STRING) {
 		node->value_type.is_str = true;
-		reg_exp = "STRING '(.+)'";
+		reg_exp = "^STRING '(.*)'$";
 	} else if (type == AST_SEL_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
-		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
+		reg_exp = "FLOAT ([-+0-9.e]+)";
 	} else if (type == AST_SEL_EXPR_VAL_BOOL) {
 		node->value_type.is_bool = true;
 		reg_exp = "BOOL ([0-1])";
@@ -72,7 +72,7 @@ static struct ast_sel_exprval_node* build_expr_val_node(struct queue *parser, en
 
 		ext_val = (char*)stack_peek_pos(&reg_pars, 0);
 		if (type == AST_SEL_EXPR_VAL_INTNUM) {
-			node->int_val = atoi(ext_val);
+			node->int_val = strtoll(ext_val, NULL, 10);
 		} else if (type == AST_SEL_EXPR_VAL_STRING) {
 			strncpy(node->str_val, ext_val, sizeof(node->str_val) - 1);
 		} else if (type == AST_SEL_EXPR_VAL_NAME) {
@@ -1111,7 +1111,7 @@ struct ast_node* ast_select_build_tree(struct queue *parser)
 			break;
 		} else {
 			fprintf(stderr, "%s: %s handler not implement yet\n", __func__, str);
-			exit(1);
+			goto err_push_node;
 		}
 
 		if (!curr)
diff --git a/src/parser/ast_update.c b/src/parser/ast_update.c
index 88f441b..686f8d2 100644
--- a/src/parser/ast_update.c
+++ b/src/parser/ast_update.c
@@ -189,10 +189,10 @@ static struct ast_upd_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "NUMBER (-{0,1}[0-9]+)";
 	} else if (type == AST_UPD_EXPR_VAL_STRING) {
 		node->value_type.is_str = true;
-		reg_exp = "STRING '(.+)'";
+		reg_exp = "^STRING '(.*)'$";
 	} else if (type == AST_UPD_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
-		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
+		reg_exp = "FLOAT ([-+0-9.e]+)";
 	} else if (type == AST_UPD_EXPR_VAL_BOOL) {
 		node->value_type.is_bool = true;
 		reg_exp = "BOOL ([0-1])";
@@ -220,7 +220,7 @@ static struct ast_upd_exprval_node* build_expr_val_node(struct queue *parser, en
 
 		ext_val = (char*)stack_peek_pos(&reg_pars, 0);
 		if (type == AST_UPD_EXPR_VAL_INTNUM) {
-			node->int_val = atoi(ext_val);
+			node->int_val = strtoll(ext_val, NULL, 10);
 		} else if (type == AST_UPD_EXPR_VAL_STRING) {
 			strncpy(node->str_val, ext_val, sizeof(node->str_val) - 1);
 		} else if (type == AST_UPD_EXPR_VAL_NAME) {
@@ -460,7 +460,7 @@ struct ast_node* ast_update_build_tree(struct queue *parser)
 			break;
 		} else {
 			fprintf(stderr, "%s: %s handler not implement yet\n", __func__, str);
-			exit(1);
+			goto err_push_node;
 		}
 
 		if (!curr)
-- 
2.43.0


From b65391c40e13c335e074bce921401c95313d7df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:21 +0000
Subject: [PATCH 13/33] fix: refuse dates that don't exist or are followed by
 something else

'2023-02-31' was stored as 3rd of March, '2023-01-02xyz' as 2nd of January,
and the last second of 1969 was taken for an error.
---
 include/primitive/column.h   | 11 +++++++++++
 src/engine/executor_insert.c | 35 +++--------------------------------
 src/parser/semantic_delete.c | 21 +--------------------
 src/parser/semantic_insert.c | 21 +--------------------
 src/parser/semantic_select.c | 21 +--------------------
 src/parser/semantic_update.c | 21 +--------------------
 src/primitive/column.c       | 27 +++++++++++++++++++++++++++
 7 files changed, 45 insertions(+), 112 deletions(-)

diff --git a/include/primitive/column.h b/include/primitive/column.h
index a8959e3..78d9dbd 100644
--- a/include/primitive/column.h
+++ b/include/primitive/column.h
@@ -108,4 +108,15 @@ size_t table_calc_column_precision(enum COLUMN_TYPE type);
  */
 bool table_validate_column_name(char *name);
 
+/*
+ * table_parse_time - parse the text of a DATE or DATETIME value
+ *
+ * @type: either CT_DATE or CT_DATETIME
+ * @str: text to be parsed
+ * @out: the value to be stored for that text
+ *
+ * this function returns true if the whole text is an existing date (and time), false otherwise
+ */
+bool table_parse_time(enum COLUMN_TYPE type, const char *str, time_t *out);
+
 #endif /* INCLUDE_PRIMITIVE_COLUMN_H_ */
diff --git a/src/engine/executor_insert.c b/src/engine/executor_insert.c
index 938cd85..1baad15 100644
--- a/src/engine/executor_insert.c
+++ b/src/engine/executor_insert.c
@@ -18,43 +18,14 @@ static int parse_date_type(struct ast_ins_exprval_node *exprval_node, enum COLUM
 		time_t *time_out
 		)
 {
-	int rc = MIDORIDB_OK;
-	struct tm time_struct = {0};
-	const char *fmt;
-
-	if (type == CT_DATE)
-		fmt = COLUMN_CTDATE_FMT;
-	else
-		fmt = COLUMN_CTDATETIME_FMT;
-
-	// Parse the string into a time structure
-	if (strptime(exprval_node->str_val, fmt, &time_struct) == NULL)
-		goto err_parse;
-
-	// Convert the time structure to a time_t value
-	*time_out = mktime(&time_struct);
-
-	// Check if the conversion was successful
-	if (*time_out == -1)
-		goto err_convert;
-
-	return rc;
+	if (table_parse_time(type, exprval_node->str_val, time_out))
+		return MIDORIDB_OK;
 
-err_parse:
-	rc = -MIDORIDB_ERROR;
 	snprintf(output->error.message, sizeof(output->error.message) - 1,
 			/* max str size would exceed buffer's size, so trim it */
 			"Failed to parse the time string: '%.256s...'\n",
 			exprval_node->str_val);
-	return rc;
-
-err_convert:
-	rc = -MIDORIDB_ERROR;
-	snprintf(output->error.message, sizeof(output->error.message) - 1,
-			/* max str size would exceed buffer's size, so trim it */
-			"Failed to convert the time structure to time_t: '%.256s...'\n",
-			exprval_node->str_val);
-	return rc;
+	return -MIDORIDB_ERROR;
 }
 
 static int build_row(struct table *table,
diff --git a/src/parser/semantic_delete.c b/src/parser/semantic_delete.c
index 2af106c..19fa985 100644
--- a/src/parser/semantic_delete.c
+++ b/src/parser/semantic_delete.c
@@ -167,28 +167,9 @@ static bool check_isxnull_entries(struct ast_node *root, char *out_err, size_t o
 
 static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 {
-	struct tm time_struct = {0};
-	const char *fmt;
 	time_t time_out;
 
-	if (type == CT_DATE)
-		fmt = COLUMN_CTDATE_FMT;
-	else
-		fmt = COLUMN_CTDATETIME_FMT;
-
-	// Parse the string into a time structure
-	if (strptime(str, fmt, &time_struct) == NULL)
-		return false;
-
-	// Convert the time structure to a time_t value
-	time_out = mktime(&time_struct);
-
-	// Check if the conversion was successful
-	if (time_out == -1)
-		return false;
-
-	return true;
-
+	return table_parse_time(type, str, &time_out);
 }
 
 static bool check_values_field_to_field(struct ast_del_cmp_node *cmp, struct ast_del_exprval_node *val_1,
diff --git a/src/parser/semantic_insert.c b/src/parser/semantic_insert.c
index 1ecb77f..da49334 100644
--- a/src/parser/semantic_insert.c
+++ b/src/parser/semantic_insert.c
@@ -203,28 +203,9 @@ static bool validate_number_terms(struct database *db, struct ast_ins_insvals_no
 
 static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 {
-	struct tm time_struct = {0};
-	const char *fmt;
 	time_t time_out;
 
-	if (type == CT_DATE)
-		fmt = COLUMN_CTDATE_FMT;
-	else
-		fmt = COLUMN_CTDATETIME_FMT;
-
-	// Parse the string into a time structure
-	if (strptime(str, fmt, &time_struct) == NULL)
-		return false;
-
-	// Convert the time structure to a time_t value
-	time_out = mktime(&time_struct);
-
-	// Check if the conversion was successful
-	if (time_out == -1)
-		return false;
-
-	return true;
-
+	return table_parse_time(type, str, &time_out);
 }
 
 static bool check_math_expr_type(struct column *column, struct ast_node *node, char *out_err, size_t out_err_len)
diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index cf97186..de38763 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -57,28 +57,9 @@ static void free_hashmap_entries(struct hashtable *hashtable, const void *key, s
 
 static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 {
-	struct tm time_struct = {0};
-	const char *fmt;
 	time_t time_out;
 
-	if (type == CT_DATE)
-		fmt = COLUMN_CTDATE_FMT;
-	else
-		fmt = COLUMN_CTDATETIME_FMT;
-
-	// Parse the string into a time structure
-	if (strptime(str, fmt, &time_struct) == NULL)
-		return false;
-
-	// Convert the time structure to a time_t value
-	time_out = mktime(&time_struct);
-
-	// Check if the conversion was successful
-	if (time_out == -1)
-		return false;
-
-	return true;
-
+	return table_parse_time(type, str, &time_out);
 }
 
 static struct ast_node* find_node(struct ast_node *root, enum ast_node_type node_type)
diff --git a/src/parser/semantic_update.c b/src/parser/semantic_update.c
index 8b8534f..77dc2a0 100644
--- a/src/parser/semantic_update.c
+++ b/src/parser/semantic_update.c
@@ -170,28 +170,9 @@ static bool check_isxnull_entries(struct ast_node *root, char *out_err, size_t o
 
 static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 {
-	struct tm time_struct = {0};
-	const char *fmt;
 	time_t time_out;
 
-	if (type == CT_DATE)
-		fmt = COLUMN_CTDATE_FMT;
-	else
-		fmt = COLUMN_CTDATETIME_FMT;
-
-	// Parse the string into a time structure
-	if (strptime(str, fmt, &time_struct) == NULL)
-		return false;
-
-	// Convert the time structure to a time_t value
-	time_out = mktime(&time_struct);
-
-	// Check if the conversion was successful
-	if (time_out == -1)
-		return false;
-
-	return true;
-
+	return table_parse_time(type, str, &time_out);
 }
 
 static bool check_values_field_to_field(struct ast_upd_cmp_node *cmp, struct ast_upd_exprval_node *val_1,
diff --git a/src/primitive/column.c b/src/primitive/column.c
index bab9775..763d47c 100644
--- a/src/primitive/column.c
+++ b/src/primitive/column.c
@@ -5,6 +5,7 @@
  *      Author: paulo
  */
 
+#define _XOPEN_SOURCE       /* See feature_test_macros(7) */
 #include <primitive/table.h>
 #include <primitive/column.h>
 #include <primitive/row.h>
@@ -335,3 +336,29 @@ size_t table_calc_column_precision(enum COLUMN_TYPE type)
 
 	return ret;
 }
+
+bool table_parse_time(enum COLUMN_TYPE type, const char *str, time_t *out)
+{
+	static const int days[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
+	struct tm tm = {0};
+	char *end;
+	int year, max_day;
+
+	end = strptime(str, type == CT_DATE ? COLUMN_CTDATE_FMT : COLUMN_CTDATETIME_FMT, &tm);
+	if (!end || *end)
+		return false;
+
+	/* strptime doesn't know the calendar, and mktime would turn 30th of February into a day in March */
+	year = tm.tm_year + 1900;
+	max_day = days[tm.tm_mon];
+	if (tm.tm_mon == 1 && year % 4 == 0 && (year % 100 != 0 || year % 400 == 0))
+		max_day++;
+	if (tm.tm_mday > max_day || tm.tm_sec > 59)
+		return false;
+
+	/* -1 is a valid point in time, so what tells us that it worked is tm_wday */
+	tm.tm_wday = -1;
+	*out = mktime(&tm);
+
+	return tm.tm_wday != -1;
+}
-- 
2.43.0


From 73b3d8d162d785afc2be88251e004d636a67e32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:03 +0000
Subject: [PATCH 14/33] fix: INSERT arithmetic is 64-bit, knows NULL and range,
 and a failed INSERT adds no rows

Results were cut to 32 bits, a remainder by zero killed the process (as did
NULL in a right operand), an expression that became NULL got into NOT NULL
columns, and rows before the failing one stayed in the table.
---
 src/engine/executor_insert.c  |  76 +++++++++++++++++++---
 src/engine/optimiser_insert.c | 117 ++++++++++++++++++++++------------
 2 files changed, 144 insertions(+), 49 deletions(-)

diff --git a/src/engine/executor_insert.c b/src/engine/executor_insert.c
index 1baad15..2af3155 100644
--- a/src/engine/executor_insert.c
+++ b/src/engine/executor_insert.c
@@ -162,13 +162,39 @@ static void build_column_order(struct table *table, struct ast_ins_insvals_node
 	}
 }
 
+/* math expressions can become NULL, which the semantic phase can't see */
+static bool check_not_null(struct table *table, struct row *row, struct query_output *output)
+{
+	for (int i = 0; i < table->column_count; i++) {
+		struct column *column = &table->columns[i];
+
+		if (!column->nullable && bit_test(row->null_bitmap, i, sizeof(row->null_bitmap))) {
+			snprintf(output->error.message, sizeof(output->error.message) - 1,
+					"NOT NULL constraint failed: %s.%s\n", table->name, column->name);
+			return false;
+		}
+	}
+
+	return true;
+}
+
+/* a row to be inserted and where it ended up */
+struct new_row {
+	struct row *row;
+	struct datablock *blk;
+	size_t offset;
+};
+
 int executor_run_insertvals_stmt(struct database *db, struct ast_ins_insvals_node *ins_node,
 		struct query_output *output)
 {
 	struct list_head *pos;
 	struct ast_node *entry;
 	struct table *table;
-	struct row *row;
+	struct new_row *rows;
+	size_t row_size;
+	int row_count = 0;
+	int ins_count = 0;
 	int column_order[TABLE_MAX_COLUMNS];
 	int rc = MIDORIDB_OK;
 
@@ -178,43 +204,73 @@ int executor_run_insertvals_stmt(struct database *db, struct ast_ins_insvals_nod
 	}
 
 	table = database_table_get(db, ins_node->table_name);
+	row_size = table_calc_row_size(table);
 
 	memset(column_order, -1, sizeof(column_order));
 
 	/* columns can be specified in an order that's different from the order defined in the CREATE stmt */
 	build_column_order(table, ins_node, column_order, ARR_SIZE(column_order));
 
+	rows = zalloc(sizeof(*rows) * ins_node->row_count);
+	if (!rows) {
+		rc = -MIDORIDB_NOMEM;
+		goto err;
+	}
+
+	/* build all rows before inserting any so that there is nothing to undo when one of them is invalid */
 	list_for_each(pos, ins_node->node_children_head)
 	{
 		entry = list_entry(pos, typeof(*entry), head);
 
 		if (entry->node_type == AST_TYPE_INS_VALUES) {
 
-			row = zalloc(table_calc_row_size(table));
+			struct row *row = zalloc(row_size);
+
+			if (!row) {
+				rc = -MIDORIDB_NOMEM;
+				goto err_build_row;
+			}
 
-			if (!row)
-				goto err_row_alloc;
+			rows[row_count++].row = row;
 
 			if ((rc = build_row(table, (struct ast_ins_values_node*)entry, column_order, row, output)))
 				goto err_build_row;
 
-			if (!table_insert_row(table, row, table_calc_row_size(table))) {
-				rc = -MIDORIDB_INTERNAL;
-				goto err_ins_row;
+			if (!check_not_null(table, row, output)) {
+				rc = -MIDORIDB_ERROR;
+				goto err_build_row;
 			}
+		}
+	}
+
+	for (ins_count = 0; ins_count < row_count; ins_count++) {
+		struct new_row *new_row = &rows[ins_count];
 
-			free(row);
+		if (!table_insert_row(table, new_row->row, row_size)) {
+			rc = -MIDORIDB_INTERNAL;
+			goto err_ins_row;
 		}
+
+		/* rows are added to the end of the last datablock */
+		new_row->blk = list_entry(table->datablock_head->prev, typeof(*new_row->blk), head);
+		new_row->offset = table->free_dtbkl_offset - row_size;
 	}
 
+	for (int i = 0; i < row_count; i++)
+		free(rows[i].row);
+	free(rows);
+
 	output->n_rows_aff = ins_node->row_count;
 
 	return rc;
 
 err_ins_row:
+	while (ins_count-- > 0)
+		table_delete_row(table, rows[ins_count].blk, rows[ins_count].offset);
 err_build_row:
-	free(row);
-err_row_alloc:
+	for (int i = 0; i < row_count; i++)
+		free(rows[i].row);
+	free(rows);
 err:
 	return rc;
 }
diff --git a/src/engine/optimiser_insert.c b/src/engine/optimiser_insert.c
index 3148d1d..0564573 100644
--- a/src/engine/optimiser_insert.c
+++ b/src/engine/optimiser_insert.c
@@ -7,29 +7,51 @@
 
 #include <engine/optimiser.h>
 
-static void negate(struct ast_ins_exprval_node *in, struct ast_ins_exprval_node *out)
+static void set_null(struct ast_ins_exprval_node *out)
+{
+	memzero(&out->value_type, sizeof(out->value_type));
+	out->value_type.is_null = true;
+	out->int_val = 0;
+}
+
+static int out_of_range(struct query_output *output)
+{
+	snprintf(output->error.message, sizeof(output->error.message) - 1,
+			"result of math expression is out of range\n");
+	return -MIDORIDB_ERROR;
+}
+
+static int negate(struct ast_ins_exprval_node *in, struct ast_ins_exprval_node *out, struct query_output *output)
 {
 	if (in->value_type.is_intnum) {
-		out->int_val = in->int_val * -1;
+		if (__builtin_sub_overflow((int64_t)0, in->int_val, &out->int_val))
+			return out_of_range(output);
 	} else if (in->value_type.is_approxnum) {
-		out->double_val = in->double_val * -1;
-	} else {
+		out->double_val = -in->double_val;
+	} else if (!in->value_type.is_null) {
 		BUG_GENERIC();
 	}
 	memcpy(&out->value_type, &in->value_type, sizeof(out->value_type));
+	return MIDORIDB_OK;
+}
+
+/* integer part of a double, like SQLite does it */
+static int64_t int_part(double val)
+{
+	if (val >= 9223372036854775808.0)
+		return INT64_MAX;
+	if (val <= -9223372036854775808.0)
+		return INT64_MIN;
+	return (int64_t)val;
 }
 
-static void calcd(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *val_1,
-		struct ast_ins_exprval_node *val_2, struct ast_ins_exprval_node *out)
+static int calcd(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *val_1,
+		struct ast_ins_exprval_node *val_2, struct ast_ins_exprval_node *out,
+		struct query_output *output)
 {
 	double result = 0;
 
-	if (val_1->value_type.is_null || val_2->value_type.is_null) {
-		/* if any term _became_ NULL, then we bubble that up */
-		out->value_type.is_approxnum = false;
-		out->value_type.is_null = true;
-		result = 0;
-	} else if (op->op_type == AST_INS_EXPR_OP_ADD) {
+	if (op->op_type == AST_INS_EXPR_OP_ADD) {
 		result = val_2->double_val + val_1->double_val;
 	} else if (op->op_type == AST_INS_EXPR_OP_SUB) {
 		result = val_2->double_val - val_1->double_val;
@@ -41,57 +63,68 @@ static void calcd(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *v
 			 * division by 0 in SQL result to null instead of throwing an
 			 * exception like in most programming languages
 			 */
-			out->value_type.is_approxnum = false;
-			out->value_type.is_null = true;
-			result = 0;
-		} else {
-			result = val_2->double_val / val_1->double_val;
+			set_null(out);
+			return MIDORIDB_OK;
 		}
+		result = val_2->double_val / val_1->double_val;
 	} else if (op->op_type == AST_INS_EXPR_OP_MOD) {
 		/* C doesn't support modulo operation on double data type. Replicating SQLite behaviour */
-		result = (double)(((int)val_2->double_val) % ((int)val_1->double_val));
+		int64_t divisor = int_part(val_1->double_val);
+
+		if (divisor == 0) {
+			set_null(out);
+			return MIDORIDB_OK;
+		}
+		result = divisor == -1 ? 0 : (double)(int_part(val_2->double_val) % divisor);
 	} else {
 		BUG_GENERIC();
 	}
 
+	if (!isfinite(result))
+		return out_of_range(output);
+
 	out->double_val = result;
+	return MIDORIDB_OK;
 }
 
-static void calci(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *val_1,
-		struct ast_ins_exprval_node *val_2, struct ast_ins_exprval_node *out)
+static int calci(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *val_1,
+		struct ast_ins_exprval_node *val_2, struct ast_ins_exprval_node *out,
+		struct query_output *output)
 {
-	int result = 0;
+	int64_t result = 0;
 
-	if (val_1->value_type.is_null || val_2->value_type.is_null) {
-		/* if any term _became_ NULL, then we bubble that up */
-		out->value_type.is_intnum = false;
-		out->value_type.is_null = true;
-		result = 0;
-	} else if (op->op_type == AST_INS_EXPR_OP_ADD) {
-		result = val_2->int_val + val_1->int_val;
+	if (op->op_type == AST_INS_EXPR_OP_ADD) {
+		if (__builtin_add_overflow(val_2->int_val, val_1->int_val, &result))
+			return out_of_range(output);
 	} else if (op->op_type == AST_INS_EXPR_OP_SUB) {
-		result = val_2->int_val - val_1->int_val;
+		if (__builtin_sub_overflow(val_2->int_val, val_1->int_val, &result))
+			return out_of_range(output);
 	} else if (op->op_type == AST_INS_EXPR_OP_MUL) {
-		result = val_2->int_val * val_1->int_val;
-	} else if (op->op_type == AST_INS_EXPR_OP_DIV) {
+		if (__builtin_mul_overflow(val_2->int_val, val_1->int_val, &result))
+			return out_of_range(output);
+	} else if (op->op_type == AST_INS_EXPR_OP_DIV || op->op_type == AST_INS_EXPR_OP_MOD) {
 		if (val_1->int_val == 0) {
 			/*
 			 * division by 0 in SQL result to null instead of throwing an
 			 * exception like in most programming languages
 			 */
-			out->value_type.is_intnum = false;
-			out->value_type.is_null = true;
-			result = 0;
+			set_null(out);
+			return MIDORIDB_OK;
+		}
+
+		if (op->op_type == AST_INS_EXPR_OP_MOD) {
+			result = val_1->int_val == -1 ? 0 : val_2->int_val % val_1->int_val;
 		} else {
+			if (val_1->int_val == -1 && val_2->int_val == INT64_MIN)
+				return out_of_range(output);
 			result = val_2->int_val / val_1->int_val;
 		}
-	} else if (op->op_type == AST_INS_EXPR_OP_MOD) {
-		result = val_2->int_val % val_1->int_val;
 	} else {
 		BUG_GENERIC();
 	}
 
 	out->int_val = result;
+	return MIDORIDB_OK;
 }
 
 static int resolve_math_expr(struct ast_node **node, struct query_output *output)
@@ -139,15 +172,21 @@ static int resolve_math_expr(struct ast_node **node, struct query_output *output
 
 	/* calculating the result of that operation */
 	if (val_1->value_type.is_negation) {
-		negate(val_2, val_1);
+		ret = negate(val_2, val_1, output);
+	} else if (val_1->value_type.is_null || val_2->value_type.is_null) {
+		/* if any term _became_ NULL, then we bubble that up */
+		set_null(val_1);
 	} else if (val_1->value_type.is_intnum) {
-		calci(op, val_1, val_2, val_1);
+		ret = calci(op, val_1, val_2, val_1, output);
 	} else if (val_1->value_type.is_approxnum) {
-		calcd(op, val_1, val_2, val_1);
+		ret = calcd(op, val_1, val_2, val_1, output);
 	} else {
 		BUG_GENERIC();
 	}
 
+	if (ret)
+		return ret;
+
 	/* juggling with pointers so I don't have to alloc something new on the heap */
 	list_del(&val_1->head);
 	list_add(&val_1->head, op->head.prev);
-- 
2.43.0


From 06161f49493ad2d6665b0a75fe7ce064a1e44046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:41 +0000
Subject: [PATCH 15/33] fix: result cursor ends where the rows end

Stepping an empty result or past the end of a page read memory that isn't
a row, and reading a TINYINT column took bytes of its neighbours.
---
 src/engine/query.c | 48 ++++++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/src/engine/query.c b/src/engine/query.c
index 2de5a70..9c904b3 100644
--- a/src/engine/query.c
+++ b/src/engine/query.c
@@ -126,29 +126,29 @@ int query_cur_step(struct result_set *res)
 
 		res->cursor_blk = container_of(res->table->datablock_head->next, typeof(struct datablock), head);
 		res->cursor_offset = 0;
-	} else {
-		if (res->cursor_offset + row_size > DATABLOCK_PAGE_SIZE) {
-			res->cursor_blk = container_of(res->cursor_blk->head.next, typeof(struct datablock), head);
-			res->cursor_offset = 0;
-
-			if (&res->cursor_blk->head == res->table->datablock_head) {
-				/* end of the line */
-				return MIDORIDB_OK;
-			}
-		} else {
-			res->cursor_offset += row_size;
-		}
+	} else if (&res->cursor_blk->head != res->table->datablock_head) {
+		res->cursor_offset += row_size;
 	}
 
-	/* at this point we shouldn't have any of this, so clearly something went really wrong here */
-	row = (typeof(row))&res->cursor_blk->data[res->cursor_offset];
-	BUG_ON(row->flags.deleted);
+	while (&res->cursor_blk->head != res->table->datablock_head) {
+
+		if (res->cursor_offset + row_size <= DATABLOCK_PAGE_SIZE) {
+			row = (typeof(row))&res->cursor_blk->data[res->cursor_offset];
+
+			/* at this point we shouldn't have any of this, so clearly something went really wrong here */
+			BUG_ON(row->flags.deleted);
+
+			if (!row->flags.empty)
+				return MIDORIDB_ROW;
+		}
 
-	if (row->flags.empty)
-		/* end of the line */
-		return MIDORIDB_OK;
+		/* a datablock isn't necessarily full, so what's left (if anything) is in the next one */
+		res->cursor_blk = container_of(res->cursor_blk->head.next, typeof(struct datablock), head);
+		res->cursor_offset = 0;
+	}
 
-	return MIDORIDB_ROW;
+	/* end of the line */
+	return MIDORIDB_OK;
 }
 
 int64_t query_column_int64(struct result_set *res, int col_idx)
@@ -158,7 +158,9 @@ int64_t query_column_int64(struct result_set *res, int col_idx)
 	int64_t ret = 0;
 
 	/* sanity checks */
-	BUG_ON(!res || !res->table || !res->cursor_blk || col_idx > res->table->column_count - 1);
+	BUG_ON(!res || !res->table || !res->cursor_blk || col_idx < 0 || col_idx > res->table->column_count - 1);
+
+	BUG_ON_CUSTOM_MSG(&res->cursor_blk->head == res->table->datablock_head, "cursor is past the last row\n");
 
 	row = (typeof(row))&res->cursor_blk->data[res->cursor_offset];
 
@@ -168,7 +170,11 @@ int64_t query_column_int64(struct result_set *res, int col_idx)
 	for (int i = 0; i < col_idx; i++)
 		offset += table_calc_column_space(&res->table->columns[i]);
 
-	ret = *(int64_t*)(row->data + offset);
+	/* not all columns are as wide as an int64_t */
+	if (res->table->columns[col_idx].type == CT_TINYINT)
+		return *(int8_t*)(row->data + offset);
+
+	memcpy(&ret, row->data + offset, sizeof(ret));
 	return ret;
 }
 
-- 
2.43.0


From a6ca82ff3f7c934e06b73c8af1b030ea81eb0da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:35 +0000
Subject: [PATCH 16/33] fix: conditions of DELETE and UPDATE: 64-bit integers,
 a field against itself, value before field, NOT IN

---
 src/engine/executor_delete.c | 41 +++++++++++++++++++++++++++++-------
 src/engine/executor_update.c | 41 +++++++++++++++++++++++++++++-------
 2 files changed, 66 insertions(+), 16 deletions(-)

diff --git a/src/engine/executor_delete.c b/src/engine/executor_delete.c
index 505e79b..b4263ee 100644
--- a/src/engine/executor_delete.c
+++ b/src/engine/executor_delete.c
@@ -54,7 +54,7 @@ static bool cmp_double_value_to_value(enum ast_comparison_type cmp_type, double
 	}
 }
 
-static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int val_1, int val_2)
+static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int64_t val_1, int64_t val_2)
 {
 	switch (cmp_type) {
 	case AST_CMP_DIFF_OP:
@@ -137,7 +137,10 @@ static bool cmp_field_to_field(struct table *table, struct row *row, struct ast_
 			type = col->type;
 			offset_1 = tmp_offset;
 			col_idx_1 = i;
-		} else if (strcmp(col->name, val_2->name_val) == 0) {
+		}
+
+		/* not an else-branch because a field can be compared to itself */
+		if (strcmp(col->name, val_2->name_val) == 0) {
 			offset_2 = tmp_offset;
 			col_idx_2 = i;
 		}
@@ -264,11 +267,29 @@ static bool cmp_value_to_value(struct ast_del_cmp_node *node, struct ast_del_exp
 
 }
 
+/* operator that makes 'b op a' mean the same as 'a cmp_type b' */
+static enum ast_comparison_type mirror_cmp_type(enum ast_comparison_type cmp_type)
+{
+	switch (cmp_type) {
+	case AST_CMP_GTE_OP:
+		return AST_CMP_LTE_OP;
+	case AST_CMP_GT_OP:
+		return AST_CMP_LT_OP;
+	case AST_CMP_LTE_OP:
+		return AST_CMP_GTE_OP;
+	case AST_CMP_LT_OP:
+		return AST_CMP_GT_OP;
+	default:
+		return cmp_type;
+	}
+}
+
 static bool eval_cmp(struct table *table, struct row *row, struct ast_del_cmp_node *node)
 {
 	struct list_head *pos;
 	struct ast_node *tmp_node;
 	struct ast_del_exprval_node *val_1 = NULL, *val_2 = NULL;
+	struct ast_del_cmp_node mirror = {0};
 
 	list_for_each(pos, node->node_children_head)
 	{
@@ -284,11 +305,12 @@ static bool eval_cmp(struct table *table, struct row *row, struct ast_del_cmp_no
 		/* field to field comparison */
 		return cmp_field_to_field(table, row, node, val_1, val_2);
 	} else if (val_1->value_type.is_name && !val_2->value_type.is_name) {
-		/* field-to-value or value-to-field comparison */
+		/* field-to-value comparison */
 		return cmp_field_to_value(table, row, node, val_1, val_2);
 	} else if (!val_1->value_type.is_name && val_2->value_type.is_name) {
-		/* value-to-field or value-to-field comparison */
-		return cmp_field_to_value(table, row, node, val_2, val_1);
+		/* value-to-field comparison */
+		mirror.cmp_type = mirror_cmp_type(node->cmp_type);
+		return cmp_field_to_value(table, row, &mirror, val_2, val_1);
 	} else {
 		/* value-to-value comparison */
 		return cmp_value_to_value(node, val_1, val_2);
@@ -351,11 +373,14 @@ static bool eval_isxin(struct table *table, struct row *row, struct ast_del_isxi
 		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
 
 		if (!tmp_entry->value_type.is_name) {
-			if (cmp_field_to_value(table, row, &cmp_node, field, tmp_entry))
-				return true;
+			bool eval = cmp_field_to_value(table, row, &cmp_node, field, tmp_entry);
+
+			/* IN needs one value that matches, NOT IN needs all values to differ */
+			if (eval != node->is_negation)
+				return eval;
 		}
 	}
-	return false;
+	return node->is_negation;
 }
 
 static bool eval_delete_row(struct table *table, struct row *row, struct ast_node *node)
diff --git a/src/engine/executor_update.c b/src/engine/executor_update.c
index 1844ec6..debba73 100644
--- a/src/engine/executor_update.c
+++ b/src/engine/executor_update.c
@@ -54,7 +54,7 @@ static bool cmp_double_value_to_value(enum ast_comparison_type cmp_type, double
 	}
 }
 
-static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int val_1, int val_2)
+static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int64_t val_1, int64_t val_2)
 {
 	switch (cmp_type) {
 	case AST_CMP_DIFF_OP:
@@ -137,7 +137,10 @@ static bool cmp_field_to_field(struct table *table, struct row *row, struct ast_
 			type = col->type;
 			offset_1 = tmp_offset;
 			col_idx_1 = i;
-		} else if (strcmp(col->name, val_2->name_val) == 0) {
+		}
+
+		/* not an else-branch because a field can be compared to itself */
+		if (strcmp(col->name, val_2->name_val) == 0) {
 			offset_2 = tmp_offset;
 			col_idx_2 = i;
 		}
@@ -243,11 +246,29 @@ static bool cmp_value_to_value(struct ast_upd_cmp_node *node, struct ast_upd_exp
 
 }
 
+/* operator that makes 'b op a' mean the same as 'a cmp_type b' */
+static enum ast_comparison_type mirror_cmp_type(enum ast_comparison_type cmp_type)
+{
+	switch (cmp_type) {
+	case AST_CMP_GTE_OP:
+		return AST_CMP_LTE_OP;
+	case AST_CMP_GT_OP:
+		return AST_CMP_LT_OP;
+	case AST_CMP_LTE_OP:
+		return AST_CMP_GTE_OP;
+	case AST_CMP_LT_OP:
+		return AST_CMP_GT_OP;
+	default:
+		return cmp_type;
+	}
+}
+
 static bool eval_cmp(struct table *table, struct row *row, struct ast_upd_cmp_node *node)
 {
 	struct list_head *pos;
 	struct ast_node *tmp_node;
 	struct ast_upd_exprval_node *val_1 = NULL, *val_2 = NULL;
+	struct ast_upd_cmp_node mirror = {0};
 
 	list_for_each(pos, node->node_children_head)
 	{
@@ -263,11 +284,12 @@ static bool eval_cmp(struct table *table, struct row *row, struct ast_upd_cmp_no
 		/* field to field comparison */
 		return cmp_field_to_field(table, row, node, val_1, val_2);
 	} else if (val_1->value_type.is_name && !val_2->value_type.is_name) {
-		/* field-to-value or value-to-field comparison */
+		/* field-to-value comparison */
 		return cmp_field_to_value(table, row, node, val_1, val_2);
 	} else if (!val_1->value_type.is_name && val_2->value_type.is_name) {
-		/* value-to-field or value-to-field comparison */
-		return cmp_field_to_value(table, row, node, val_2, val_1);
+		/* value-to-field comparison */
+		mirror.cmp_type = mirror_cmp_type(node->cmp_type);
+		return cmp_field_to_value(table, row, &mirror, val_2, val_1);
 	} else {
 		/* value-to-value comparison */
 		return cmp_value_to_value(node, val_1, val_2);
@@ -330,11 +352,14 @@ static bool eval_isxin(struct table *table, struct row *row, struct ast_upd_isxi
 		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
 
 		if (!tmp_entry->value_type.is_name) {
-			if (cmp_field_to_value(table, row, &cmp_node, field, tmp_entry))
-				return true;
+			bool eval = cmp_field_to_value(table, row, &cmp_node, field, tmp_entry);
+
+			/* IN needs one value that matches, NOT IN needs all values to differ */
+			if (eval != node->is_negation)
+				return eval;
 		}
 	}
-	return false;
+	return node->is_negation;
 }
 
 static bool should_update_row(struct table *table, struct row *row, struct ast_node *node)
-- 
2.43.0


From 785218cafb5235a9e990e133e2a93fd68ca7599f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:37 +0000
Subject: [PATCH 17/33] fix: DELETE and UPDATE refuse conditions and
 assignments they can't evaluate or store

---
 src/parser/semantic_delete.c |  71 ++++++++++++++++++-
 src/parser/semantic_update.c | 134 ++++++++++++++++++++++++++++++++++-
 2 files changed, 202 insertions(+), 3 deletions(-)

diff --git a/src/parser/semantic_delete.c b/src/parser/semantic_delete.c
index 19fa985..ae763eb 100644
--- a/src/parser/semantic_delete.c
+++ b/src/parser/semantic_delete.c
@@ -65,7 +65,10 @@ static bool __check_column_exists(struct database *db, struct ast_del_deleteone_
 		val_node = (typeof(val_node))node;
 
 		if (val_node->value_type.is_name) {
-			return column_exists(db, root, val_node);
+			if (!column_exists(db, root, val_node)) {
+				snprintf(out_err, out_err_len, "column '%s' doesn't exist\n", val_node->name_val);
+				return false;
+			}
 		}
 	} else {
 		list_for_each(pos, node->node_children_head)
@@ -84,6 +87,68 @@ static bool check_column_exists(struct database *db, struct ast_del_deleteone_no
 	return __check_column_exists(db, root, (struct ast_node*)root, out_err, out_err_len);
 }
 
+static bool is_exprval(struct ast_node *node, bool is_name)
+{
+	return node->node_type == AST_TYPE_DEL_EXPRVAL
+			&& ((struct ast_del_exprval_node*)node)->value_type.is_name == is_name;
+}
+
+/*
+ * Syntax-wise, any expression can be a condition or an operand of one (Ex.: "WHERE 1", "WHERE (a = 1) = TRUE",
+ * "WHERE 1 IN (1)"). Semantically, only comparisons between fields and raw values, IS [NOT] NULL and [NOT] IN of
+ * fields, and AND | OR | XOR of these can be evaluated.
+ */
+static bool check_condition(struct ast_node *node, char *out_err, size_t out_err_len)
+{
+	struct list_head *pos;
+	struct ast_node *tmp_entry;
+	bool first = true;
+
+	if (node->node_type != AST_TYPE_DEL_CMP && node->node_type != AST_TYPE_DEL_LOGOP
+			&& node->node_type != AST_TYPE_DEL_EXPRISXIN && node->node_type != AST_TYPE_DEL_EXPRISXNULL) {
+		snprintf(out_err, out_err_len, "WHERE-clause requires a condition\n");
+		return false;
+	}
+
+	list_for_each(pos, node->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+		if (node->node_type == AST_TYPE_DEL_LOGOP) {
+			if (!check_condition(tmp_entry, out_err, out_err_len))
+				return false;
+		} else if (node->node_type == AST_TYPE_DEL_CMP) {
+			if (!is_exprval(tmp_entry, true) && !is_exprval(tmp_entry, false)) {
+				snprintf(out_err, out_err_len, "only fields and raw values can be compared\n");
+				return false;
+			}
+		} else if (first && !is_exprval(tmp_entry, true)) {
+			snprintf(out_err, out_err_len, "only fields are allowed in IS [NOT] NULL | [NOT] IN\n");
+			return false;
+		}
+
+		first = false;
+	}
+
+	return true;
+}
+
+static bool check_where(struct ast_node *root, char *out_err, size_t out_err_len)
+{
+	struct list_head *pos;
+	struct ast_node *tmp_entry;
+
+	list_for_each(pos, root->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+		if (!check_condition(tmp_entry, out_err, out_err_len))
+			return false;
+	}
+
+	return true;
+}
+
 static bool check_isxin_entries(struct ast_node *root, char *out_err, size_t out_err_len)
 {
 	struct list_head *pos;
@@ -467,6 +532,10 @@ bool semantic_analyse_delete_stmt(struct database *db, struct ast_node *node, ch
 	if (!check_table_name(db, deleteone_node, out_err, out_err_len))
 		return false;
 
+	/* is the WHERE-clause something that can be evaluated? */
+	if (!check_where((struct ast_node*)deleteone_node, out_err, out_err_len))
+		return false;
+
 	/* do all columns specified in the statement exist in the table? */
 	if (!check_column_exists(db, deleteone_node, out_err, out_err_len))
 		return false;
diff --git a/src/parser/semantic_update.c b/src/parser/semantic_update.c
index 77dc2a0..a4f2221 100644
--- a/src/parser/semantic_update.c
+++ b/src/parser/semantic_update.c
@@ -65,12 +65,18 @@ static bool __check_column_exists(struct database *db, struct ast_upd_update_nod
 		val_node = (typeof(val_node))node;
 
 		if (val_node->value_type.is_name) {
-			return column_exists(db, root, val_node->name_val, sizeof(val_node->name_val));
+			if (!column_exists(db, root, val_node->name_val, sizeof(val_node->name_val))) {
+				snprintf(out_err, out_err_len, "column '%s' doesn't exist\n", val_node->name_val);
+				return false;
+			}
 		}
 	} else if (node->node_type == AST_TYPE_UPD_ASSIGN) {
 		assign_node = (typeof(assign_node))node;
 
-		return column_exists(db, root, assign_node->field_name, sizeof(assign_node->field_name));
+		if (!column_exists(db, root, assign_node->field_name, sizeof(assign_node->field_name))) {
+			snprintf(out_err, out_err_len, "column '%s' doesn't exist\n", assign_node->field_name);
+			return false;
+		}
 	} else {
 		list_for_each(pos, node->node_children_head)
 		{
@@ -88,6 +94,122 @@ static bool check_column_exists(struct database *db, struct ast_upd_update_node
 	return __check_column_exists(db, root, (struct ast_node*)root, out_err, out_err_len);
 }
 
+static bool is_exprval(struct ast_node *node, bool is_name)
+{
+	return node->node_type == AST_TYPE_UPD_EXPRVAL
+			&& ((struct ast_upd_exprval_node*)node)->value_type.is_name == is_name;
+}
+
+/*
+ * Syntax-wise, any expression can be a condition or an operand of one (Ex.: "WHERE 1", "WHERE (a = 1) = TRUE",
+ * "WHERE 1 IN (1)"). Semantically, only comparisons between fields and raw values, IS [NOT] NULL and [NOT] IN of
+ * fields, and AND | OR | XOR of these can be evaluated.
+ */
+static bool check_condition(struct ast_node *node, char *out_err, size_t out_err_len)
+{
+	struct list_head *pos;
+	struct ast_node *tmp_entry;
+	bool first = true;
+
+	if (node->node_type != AST_TYPE_UPD_CMP && node->node_type != AST_TYPE_UPD_LOGOP
+			&& node->node_type != AST_TYPE_UPD_EXPRISXIN && node->node_type != AST_TYPE_UPD_EXPRISXNULL) {
+		snprintf(out_err, out_err_len, "WHERE-clause requires a condition\n");
+		return false;
+	}
+
+	list_for_each(pos, node->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+		if (node->node_type == AST_TYPE_UPD_LOGOP) {
+			if (!check_condition(tmp_entry, out_err, out_err_len))
+				return false;
+		} else if (node->node_type == AST_TYPE_UPD_CMP) {
+			if (!is_exprval(tmp_entry, true) && !is_exprval(tmp_entry, false)) {
+				snprintf(out_err, out_err_len, "only fields and raw values can be compared\n");
+				return false;
+			}
+		} else if (first && !is_exprval(tmp_entry, true)) {
+			snprintf(out_err, out_err_len, "only fields are allowed in IS [NOT] NULL | [NOT] IN\n");
+			return false;
+		}
+
+		first = false;
+	}
+
+	return true;
+}
+
+static bool check_where(struct ast_node *root, char *out_err, size_t out_err_len)
+{
+	struct list_head *pos;
+	struct ast_node *tmp_entry;
+
+	list_for_each(pos, root->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+		if (tmp_entry->node_type == AST_TYPE_UPD_ASSIGN)
+			continue;
+
+		if (!check_condition(tmp_entry, out_err, out_err_len))
+			return false;
+	}
+
+	return true;
+}
+
+static bool check_assignments(struct database *db, struct ast_upd_update_node *root, char *out_err, size_t out_err_len)
+{
+	struct table *table = database_table_get(db, root->table_name);
+	struct list_head *pos, *val_pos;
+	struct ast_node *tmp_entry;
+	struct ast_upd_assign_node *assign_node;
+	struct ast_upd_exprval_node *val_node;
+
+	list_for_each(pos, root->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+		if (tmp_entry->node_type != AST_TYPE_UPD_ASSIGN)
+			continue;
+
+		assign_node = (typeof(assign_node))tmp_entry;
+
+		list_for_each(val_pos, assign_node->node_children_head)
+		{
+			tmp_entry = list_entry(val_pos, typeof(*tmp_entry), head);
+
+			if (!is_exprval(tmp_entry, false)) {
+				snprintf(out_err, out_err_len, "only raw values can be assigned to '%s'\n", assign_node->field_name);
+				return false;
+			}
+
+			val_node = (typeof(val_node))tmp_entry;
+
+			for (int i = 0; i < table->column_count; i++) {
+				struct column *column = &table->columns[i];
+
+				if (strcmp(column->name, assign_node->field_name) != 0)
+					continue;
+
+				if (val_node->value_type.is_null && !column->nullable) {
+					snprintf(out_err, out_err_len, "column '%s' can't be NULL\n", column->name);
+					return false;
+				}
+
+				if (val_node->value_type.is_str && column->type == CT_VARCHAR
+						&& strlen(val_node->str_val) + 1 > (size_t)column->precision) {
+					snprintf(out_err, out_err_len, "value is too long for column '%s'\n", column->name);
+					return false;
+				}
+			}
+		}
+	}
+
+	return true;
+}
+
 static bool check_isxin_entries(struct ast_node *root, char *out_err, size_t out_err_len)
 {
 	struct list_head *pos;
@@ -503,10 +625,18 @@ bool semantic_analyse_update_stmt(struct database *db, struct ast_node *node, ch
 	if (!check_table_name(db, update_node, out_err, out_err_len))
 		return false;
 
+	/* is the WHERE-clause something that can be evaluated? */
+	if (!check_where((struct ast_node*)update_node, out_err, out_err_len))
+		return false;
+
 	/* do all columns specified in the statement exist in the table? */
 	if (!check_column_exists(db, update_node, out_err, out_err_len))
 		return false;
 
+	/* are the values being assigned raw values that fit in their columns? */
+	if (!check_assignments(db, update_node, out_err, out_err_len))
+		return false;
+
 	/* are all values in the "field IN (xxxxx)" raw values? We can't have fields in there */
 	if (!check_isxin_entries((struct ast_node*)update_node, out_err, out_err_len))
 		return false;
-- 
2.43.0


From 1d72614263b28ea673ca0be14d738ef861c779ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:09 +0000
Subject: [PATCH 18/33] fix: statements hold the database lock from semantic to
 execution phase; failed CREATE frees its table

---
 src/engine/database.c        |  6 ++++++
 src/engine/executor_create.c | 13 ++++---------
 src/engine/query.c           | 11 +++++++++++
 3 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/engine/database.c b/src/engine/database.c
index d729a2e..1789bb1 100644
--- a/src/engine/database.c
+++ b/src/engine/database.c
@@ -19,8 +19,13 @@ int database_open(struct database *db)
 	if (!hashtable_init(db->tables, &hashtable_str_compare, &hashtable_str_hash))
 		goto err_ht_init;
 
+	if (pthread_mutex_init(&db->mutex, NULL))
+		goto err_mutex_init;
+
 	return MIDORIDB_OK;
 
+err_mutex_init:
+	hashtable_free(db->tables);
 err_ht_init:
 	free(db->tables);
 err:
@@ -52,6 +57,7 @@ void database_close(struct database *db)
 	hashtable_free(db->tables);
 	free(db->tables);
 	db->tables = NULL;
+	pthread_mutex_destroy(&db->mutex);
 }
 
 int database_lock(struct database *db)
diff --git a/src/engine/executor_create.c b/src/engine/executor_create.c
index da4ad76..baabafc 100644
--- a/src/engine/executor_create.c
+++ b/src/engine/executor_create.c
@@ -70,9 +70,6 @@ int executor_run_create_stmt(struct database *db, struct ast_crt_create_node *cr
 	struct table *table;
 	int rc = MIDORIDB_OK;
 
-	if ((rc = database_lock(db)))
-		goto err;
-
 	/* evaluate the "IF NOT EXISTS" option, leave early if so */
 	if (create_node->if_not_exists && database_table_exists(db, create_node->table_name))
 		goto early_ret;
@@ -96,20 +93,18 @@ int executor_run_create_stmt(struct database *db, struct ast_crt_create_node *cr
 		}
 	}
 
-	rc = database_table_add(db, table);
+	if ((rc = database_table_add(db, table)))
+		goto err_add_tbl;
 
 early_ret:
 	output->n_rows_aff = 0;
-	database_unlock(db);
 
 	return rc;
 
+err_add_tbl:
 err_add_col:
-	//TODO free columns added so far
-	free(table);
+	table_destroy(&table);
 err_tbl_init:
-	database_unlock(db);
-err:
 	snprintf(output->error.message,
 			sizeof(output->error.message) - 1,
 			"Internal error at %s", __func__);
diff --git a/src/engine/query.c b/src/engine/query.c
index 9c904b3..ec543cf 100644
--- a/src/engine/query.c
+++ b/src/engine/query.c
@@ -30,6 +30,9 @@
  * 		I don't have everything figured out yet but I am assuming that I will be able to lock tables as I go
  * 		through different phases (and as early as semantic phase) and only release it after the the execution
  * 		phase.... some sort of hash map of locked elements pointer that I pass around. (TBD)
+ *
+ * 	-> Until then, the database is locked from the semantic to the execution phase, so statements run by different
+ * 		threads are executed one at a time.
  */
 
 struct query_output* query_execute(struct database *db, char *query)
@@ -72,6 +75,10 @@ struct query_output* query_execute(struct database *db, char *query)
 		goto err_build_ast;
 	}
 
+	/* what the semantic phase checked has to be still true when the statement is executed */
+	if (database_lock(db))
+		goto err_lock;
+
 	/* semantic analysis */
 	if (!semantic_analyse(db, node, output->error.message, sizeof(output->error.message) - 1)) {
 		goto err_semantic_analysis;
@@ -90,6 +97,8 @@ struct query_output* query_execute(struct database *db, char *query)
 	else
 		output->status = ST_OK_EXECUTED;
 
+	database_unlock(db);
+
 	/* clean up */
 	queue_free(&queue);
 	ast_free(node);
@@ -99,6 +108,8 @@ struct query_output* query_execute(struct database *db, char *query)
 err_execution_phase:
 err_optimisation_phase:
 err_semantic_analysis:
+	database_unlock(db);
+err_lock:
 	ast_free(node);
 err_build_ast:
 err_syntax_parser:
-- 
2.43.0


From 09995dbf59a1a5e881128406d46e2bbe595ad0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:10 +0000
Subject: [PATCH 19/33] fix: PRIMARY KEY(..) after INDEX(..) keeps the column
 indexed

---
 src/engine/executor_create.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/engine/executor_create.c b/src/engine/executor_create.c
index baabafc..d822d10 100644
--- a/src/engine/executor_create.c
+++ b/src/engine/executor_create.c
@@ -23,7 +23,8 @@ static void add_index(struct ast_crt_index_def_node *idx_def_node, struct table
 			col = &table->columns[i];
 
 			if (strncmp(col->name, entry->name, sizeof(col->name)) == 0) {
-				col->indexed = idx_def_node->is_index;
+				/* a column can be part of more than one index / primary key definition */
+				col->indexed = col->indexed || idx_def_node->is_index;
 
 				/*
 				 * When primary key is defined after the column definition,
-- 
2.43.0


From c7e5f108d2fb80a99d21a92d27b78e688a46066d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:51 +0000
Subject: [PATCH 20/33] fix: SELECT compares 64-bit integers, IN matches any
 value, NULL on either side matches nothing

---
 src/engine/executor_select.c | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 72df5e2..cc6abfc 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -459,7 +459,7 @@ static bool cmp_double_value_to_value(enum ast_comparison_type cmp_type, double
 	}
 }
 
-static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int val_1, int val_2)
+static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int64_t val_1, int64_t val_2)
 {
 	switch (cmp_type) {
 	case AST_CMP_DIFF_OP:
@@ -543,7 +543,10 @@ static bool cmp_field_to_field(struct table *table, struct row *row, struct ast_
 			type = col->type;
 			offset_1 = tmp_offset;
 			col_idx_1 = i;
-		} else if (strcmp(col->name, val_2->name_val) == 0) {
+		}
+
+		/* it can be the same field as above: field1 = field1 */
+		if (strcmp(col->name, val_2->name_val) == 0) {
 			offset_2 = tmp_offset;
 			col_idx_2 = i;
 		}
@@ -651,15 +654,15 @@ static bool cmp_field_to_value(struct table *table, struct row *row, struct ast_
 
 static bool cmp_value_to_value(struct ast_sel_cmp_node *node, struct ast_sel_exprval_node *val_1, struct ast_sel_exprval_node *val_2)
 {
-	if (val_1->value_type.is_approxnum) {
+	if (val_1->value_type.is_null || val_2->value_type.is_null) {
+		/* no comparison evaluates to true if NULL is one of the operands */
+		return false;
+	} else if (val_1->value_type.is_approxnum) {
 		return cmp_double_value_to_value(node->cmp_type, val_1->double_val, val_2->double_val);
 	} else if (val_1->value_type.is_bool) {
 		return cmp_bool_value_to_value(node->cmp_type, val_1->bool_val, val_2->bool_val);
 	} else if (val_1->value_type.is_intnum) {
 		return cmp_int_value_to_value(node->cmp_type, val_1->int_val, val_2->int_val);
-	} else if (val_1->value_type.is_null) {
-		/* no comparison evaluates to true if NULL is one of the operands */
-		return false;
 	} else if (val_1->value_type.is_str) {
 		return cmp_str_value_to_value(node->cmp_type, val_1->str_val, val_2->str_val);
 	} else {
@@ -972,7 +975,8 @@ static bool eval_isxin(struct table *table, struct row *row, struct ast_sel_isxi
 	struct ast_sel_fieldname_node *field = NULL;
 	struct ast_sel_exprval_node *value = NULL;
 	struct ast_sel_cmp_node cmp_node = {0};
-	bool is_field;
+	bool is_field = false;
+	bool cmp;
 
 	if (node->is_negation) {
 		cmp_node.cmp_type = AST_CMP_DIFF_OP;
@@ -1011,17 +1015,19 @@ static bool eval_isxin(struct table *table, struct row *row, struct ast_sel_isxi
 		if (!((struct ast_sel_exprval_node*)tmp_entry)->value_type.is_name) {
 
 			if (is_field) {
-				if (!cmp_fieldname_to_value(table, row, &cmp_node, field,
-								(struct ast_sel_exprval_node*)tmp_entry))
-					return false; // fail-fast
+				cmp = cmp_fieldname_to_value(table, row, &cmp_node, field,
+								(struct ast_sel_exprval_node*)tmp_entry);
 			} else {
-				if (!cmp_field_to_value(table, row, &cmp_node, value,
-							(struct ast_sel_exprval_node*)tmp_entry))
-					return false; // fail-fast
+				cmp = cmp_field_to_value(table, row, &cmp_node, value,
+							(struct ast_sel_exprval_node*)tmp_entry);
 			}
+
+			/* NOT IN has to differ from every value while IN has to be equal to any of them */
+			if (cmp != node->is_negation)
+				return cmp; // fail-fast
 		}
 	}
-	return true;
+	return node->is_negation;
 }
 
 static bool eval_row_cond(struct ast_node *node, struct table *table, struct row *row)
-- 
2.43.0


From fb3a6a2dabbc44d829b557382604fe42d5e04fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:50 +0000
Subject: [PATCH 21/33] fix: SELECT refuses what it can't execute instead of
 ignoring it or exiting

---
 src/engine/executor_select.c | 112 +++++++++++++++++++++++++++++++++++
 1 file changed, 112 insertions(+)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index cc6abfc..1d0c953 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -1658,6 +1658,111 @@ out:
 
 }
 
+/* conditions are made of AND/OR/XOR of comparisons between fields and raw values, IN and IS NULL */
+static bool is_cond_supported(struct ast_node *node)
+{
+	struct list_head *pos;
+	struct ast_node *tmp_entry;
+	struct ast_sel_exprval_node *val_node;
+	bool is_cond, has_field = false;
+
+	is_cond = node->node_type == AST_TYPE_SEL_WHERE || node->node_type == AST_TYPE_SEL_ONEXPR
+			|| node->node_type == AST_TYPE_SEL_LOGOP;
+
+	if (!is_cond && node->node_type != AST_TYPE_SEL_CMP && node->node_type != AST_TYPE_SEL_EXPRISXIN
+			&& node->node_type != AST_TYPE_SEL_EXPRISXNULL)
+		return false;
+
+	list_for_each(pos, node->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+		if (is_cond) {
+			if (!is_cond_supported(tmp_entry))
+				return false;
+		} else if (tmp_entry->node_type == AST_TYPE_SEL_FIELDNAME) {
+			/* list of IN can't have fields */
+			if (node->node_type == AST_TYPE_SEL_EXPRISXIN && has_field)
+				return false;
+			has_field = true;
+		} else if (tmp_entry->node_type == AST_TYPE_SEL_EXPRVAL) {
+			val_node = (typeof(val_node))tmp_entry;
+			if (val_node->value_type.is_name)
+				return false;
+		} else {
+			return false;
+		}
+	}
+
+	return is_cond || node->node_type == AST_TYPE_SEL_CMP || has_field;
+}
+
+static bool is_from_supported(struct ast_node *node)
+{
+	struct list_head *pos;
+	struct ast_node *tmp_entry;
+
+	if (node->node_type == AST_TYPE_SEL_TABLE)
+		return true;
+
+	// TODO add nested-loop for other join types.. for now I will focus on the INNER JOIN
+	if (node->node_type != AST_TYPE_SEL_JOIN || ((struct ast_sel_join_node*)node)->join_type != AST_SEL_JOIN_INNER)
+		return false;
+
+	list_for_each(pos, node->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+		if (tmp_entry->node_type == AST_TYPE_SEL_ONEXPR) {
+			if (!is_cond_supported(tmp_entry))
+				return false;
+		} else if (!is_from_supported(tmp_entry)) {
+			return false;
+		}
+	}
+
+	return true;
+}
+
+/* there is more in the grammar than what can be executed so far; ignoring those would give wrong results */
+static bool is_select_supported(struct ast_sel_select_node *select_node)
+{
+	struct list_head *pos, *fld_pos;
+	struct ast_node *tmp_entry;
+	bool has_from = false;
+
+	if (select_node->distinct)
+		return false;
+
+	list_for_each(pos, select_node->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+		if (tmp_entry->node_type == AST_TYPE_SEL_WHERE) {
+			if (!is_cond_supported(tmp_entry))
+				return false;
+		} else if (tmp_entry->node_type == AST_TYPE_SEL_GROUPBY) {
+			list_for_each(fld_pos, tmp_entry->node_children_head)
+			{
+				if (list_entry(fld_pos, typeof(*tmp_entry), head)->node_type != AST_TYPE_SEL_FIELDNAME)
+					return false;
+			}
+		} else if (tmp_entry->node_type == AST_TYPE_SEL_TABLE || tmp_entry->node_type == AST_TYPE_SEL_JOIN) {
+			if (!is_from_supported(tmp_entry))
+				return false;
+			has_from = true;
+		} else if (tmp_entry->node_type == AST_TYPE_SEL_COUNT) {
+			/* COUNT(field) has to skip NULLs */
+			if (!((struct ast_sel_count_node*)tmp_entry)->all)
+				return false;
+		} else if (tmp_entry->node_type != AST_TYPE_SEL_FIELDNAME) {
+			return false;
+		}
+	}
+
+	return has_from;
+}
+
 int executor_run_select_stmt(struct database *db, struct ast_sel_select_node *select_node, struct query_output *output)
 {
 	struct hashtable cols_ht = {0};
@@ -1665,6 +1770,13 @@ int executor_run_select_stmt(struct database *db, struct ast_sel_select_node *se
 	struct ast_node *where_node, *groupby_node;
 	int ret = MIDORIDB_OK;
 
+	if (!is_select_supported(select_node)) {
+		snprintf(output->error.message, sizeof(output->error.message),
+				"execution phase: statement has something that isn't supported yet\n");
+		ret = -MIDORIDB_ERROR;
+		goto err;
+	}
+
 	if (!hashtable_init(&cols_ht, &hashtable_str_compare, &hashtable_str_hash)) {
 		snprintf(output->error.message, sizeof(output->error.message), "execution phase: internal error\n");
 		ret = -MIDORIDB_INTERNAL;
-- 
2.43.0


From a4d1c18b78e9917a3c4ae6a96879aa45dc7d622d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:00 +0000
Subject: [PATCH 22/33] fix: joins of any shape see every combination of rows
 and don't lose text values

---
 src/engine/executor_select.c | 209 +++++++++++++----------------------
 1 file changed, 74 insertions(+), 135 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 1d0c953..6faee0e 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -241,6 +241,10 @@ static int _build_cols_hashtable_table(struct database *db, struct ast_node *nod
 		memzero(key, sizeof(key));
 		snprintf(key, sizeof(key) - 1, "%s.%s", table_node->table_name, column->name);
 
+		/* early-mat table couldn't hold the column's name */
+		if (strlen(key) > TABLE_MAX_COLUMN_NAME)
+			return -MIDORIDB_INTERNAL;
+
 		if (!hashtable_put(cols_ht, key, strlen(key) + 1, column, sizeof(*column)))
 			return -MIDORIDB_INTERNAL;
 	}
@@ -306,7 +310,9 @@ static void do_build_table_scafold(struct hashtable *hashtable, const void *key,
 	column.precision = ((struct column*)value)->precision;
 	column.is_count = ((struct column*)value)->is_count;
 
-	BUG_ON(!table_add_column(table, &column));
+	/* caller compares the number of columns */
+	if (!table_add_column(table, &column))
+		return;
 }
 
 static int build_table_scafold(struct hashtable *column_types, struct table **out_table)
@@ -318,6 +324,12 @@ static int build_table_scafold(struct hashtable *column_types, struct table **ou
 
 	hashtable_foreach(column_types, &do_build_table_scafold, *out_table);
 
+	/* there is a limit to how many columns a table can have */
+	if ((size_t)(*out_table)->column_count != column_types->count) {
+		table_destroy(out_table);
+		return -MIDORIDB_INTERNAL;
+	}
+
 	return MIDORIDB_OK;
 }
 
@@ -347,6 +359,12 @@ static bool cpy_cols(struct table *src, struct row *src_row, struct table *dst,
 	for (int i = 0; i < src->column_count; i++) {
 		column = &src->columns[i];
 
+		/* there is nothing to copy if column is NULL */
+		if (bit_test(src_row->null_bitmap, i, sizeof(src_row->null_bitmap))) {
+			src_offset += table_calc_column_space(column);
+			continue;
+		}
+
 		memzero(key, sizeof(key));
 
 		if (!is_src_earlymat) {
@@ -371,27 +389,18 @@ static bool cpy_cols(struct table *src, struct row *src_row, struct table *dst,
 			if (!ptr)
 				return false;
 
-			/* Copy data only if column is not NULL */
-			if (!bit_test(src_row->null_bitmap, i, sizeof(src_row->null_bitmap))) {
-				memcpy(ptr, *((char**)((char*)src_row->data + src_offset)), column->precision);
-			}
+			memcpy(ptr, *((char**)((char*)src_row->data + src_offset)), column->precision);
 
 			uintptr_t *col_idx_ptr = (uintptr_t*)&dst_row->data[dst_offset];
 			*col_idx_ptr = (uintptr_t)ptr;
 
 		} else {
-
-			if (!bit_test(src_row->null_bitmap, i, sizeof(src_row->null_bitmap))) {
-				memcpy(dst_row->data + dst_offset, ((char*)src_row->data) + src_offset,
-					column->precision);
-			}
-
+			memcpy(dst_row->data + dst_offset, ((char*)src_row->data) + src_offset,
+				column->precision);
 		}
 
 		/* adjust null_bitmap */
-		if (!bit_test(src_row->null_bitmap, i, sizeof(src_row->null_bitmap))) {
-			bit_clear(dst_row->null_bitmap, dst_col_idx, sizeof(dst_row->null_bitmap));
-		}
+		bit_clear(dst_row->null_bitmap, dst_col_idx, sizeof(dst_row->null_bitmap));
 
 		src_offset += table_calc_column_space(column);
 	}
@@ -399,8 +408,8 @@ static bool cpy_cols(struct table *src, struct row *src_row, struct table *dst,
 	return true;
 }
 
-static int _merge_rows(struct table *tbl_1, struct table *tbl_2, struct row *row_1, struct row *row_2,
-		struct table *mattbl, struct row **out, bool is_tbl2_earlymat)
+static int merge_rows(struct table *tbl_1, struct table *tbl_2, struct row *row_1, struct row *row_2,
+		struct table *mattbl, struct row **out, bool is_tbl1_earlymat, bool is_tbl2_earlymat)
 {
 	*out = zalloc(table_calc_row_size(mattbl));
 	if (!(*out))
@@ -413,7 +422,7 @@ static int _merge_rows(struct table *tbl_1, struct table *tbl_2, struct row *row
 		bit_set((*out)->null_bitmap, i, sizeof((*out)->null_bitmap));
 	}
 
-	if (!cpy_cols(tbl_1, row_1, mattbl, *out, false))
+	if (!cpy_cols(tbl_1, row_1, mattbl, *out, is_tbl1_earlymat))
 		goto err_ptr;
 
 	if (!cpy_cols(tbl_2, row_2, mattbl, *out, is_tbl2_earlymat))
@@ -424,19 +433,13 @@ static int _merge_rows(struct table *tbl_1, struct table *tbl_2, struct row *row
 	return MIDORIDB_OK;
 
 err_ptr:
+	table_free_row_content(mattbl, *out);
 	free(*out);
 err:
 	return -MIDORIDB_INTERNAL;
 
 }
 
-static int merge_rows(struct table *tbl_1, struct table *tbl_2, struct row *row_1, struct row *row_2,
-		struct table *mattbl, struct row **out)
-{
-	bool is_tbl2_earlymat = tbl_2 == mattbl;
-	return _merge_rows(tbl_1, tbl_2, row_1, row_2, mattbl, out, is_tbl2_earlymat);
-}
-
 static bool cmp_double_value_to_value(enum ast_comparison_type cmp_type, double val_1, double val_2)
 {
 	switch (cmp_type) {
@@ -1079,26 +1082,18 @@ static bool eval_row_cond(struct ast_node *node, struct table *table, struct row
 	return ret;
 }
 
-static int _join_nested_loop_tbl2tbl(struct database *db, struct ast_sel_join_node *join_node,
-		struct ast_sel_onexpr_node *onexpr_node, struct ast_sel_table_node *left_node,
-		struct ast_sel_table_node *right_node, struct table *mattbl)
+static int _join_nested_loop(struct ast_sel_onexpr_node *onexpr_node, struct table *left, bool is_left_earlymat,
+		struct table *right, bool is_right_earlymat, struct table *mattbl)
 {
-	struct table *left, *right;
 	struct list_head *left_pos, *right_pos;
 	struct datablock *left_blk, *right_blk;
 	size_t left_row_size, right_row_size, new_row_size;
 	struct row *left_row, *right_row, *new_row;
 
-	left = database_table_get(db, left_node->table_name);
-	right = database_table_get(db, right_node->table_name);
-
 	left_row_size = table_calc_row_size(left);
 	right_row_size = table_calc_row_size(right);
 	new_row_size = table_calc_row_size(mattbl);
 
-	// TODO add nested-loop for other join types.. for now I will focus on the INNER JOIN
-	BUG_ON(join_node->join_type != AST_SEL_JOIN_INNER);
-
 	list_for_each(left_pos, left->datablock_head)
 	{
 		left_blk = list_entry(left_pos, typeof(*left_blk), head);
@@ -1128,13 +1123,14 @@ static int _join_nested_loop_tbl2tbl(struct database *db, struct ast_sel_join_no
 					// SELECT (f1 + 4) as val FROM A JOIN B ON ....
 
 					/* copy columns of both rows to materialised row */
-					if (merge_rows(left, right, left_row, right_row, mattbl, &new_row))
+					if (merge_rows(left, right, left_row, right_row, mattbl, &new_row, is_left_earlymat,
+							is_right_earlymat))
 						goto err;
 
 					if (eval_row_cond((struct ast_node*)onexpr_node, mattbl, new_row)) {
 
 						if (!table_insert_row(mattbl, new_row, new_row_size))
-							goto err;
+							goto err_ins;
 
 //						print_row(mattbl, new_row);
 
@@ -1149,92 +1145,39 @@ static int _join_nested_loop_tbl2tbl(struct database *db, struct ast_sel_join_no
 
 	return MIDORIDB_OK;
 
+err_ins:
+	table_free_row_content(mattbl, new_row);
+	free(new_row);
 err:
 	return -MIDORIDB_INTERNAL;
 
 }
 
-static int _join_nested_loop_tbl2mat(struct database *db, struct ast_sel_join_node *join_node,
-		struct ast_sel_onexpr_node *onexpr_node, struct ast_sel_table_node *table_node_1,
-		struct table *mattbl)
-{
-	struct table *table_1, *table_2;
-	struct list_head *tbl1_pos, *tbl2_pos;
-	struct datablock *tbl1_blk, *tbl2_blk;
-	size_t tbl1_row_size, tbl2_row_size, new_row_size;
-	struct row *tbl1_row, *tbl2_row, *new_row;
-
-	table_1 = database_table_get(db, table_node_1->table_name);
-	table_2 = mattbl;
-
-	tbl1_row_size = table_calc_row_size(table_1);
-	tbl2_row_size = table_calc_row_size(table_2);
-	new_row_size = table_calc_row_size(mattbl);
-
-	// TODO add nested-loop for other join types.. for now I will focus on the INNER JOIN
-	BUG_ON(join_node->join_type != AST_SEL_JOIN_INNER);
-
-	list_for_each(tbl1_pos, table_1->datablock_head)
-	{
-		tbl1_blk = list_entry(tbl1_pos, typeof(*tbl1_blk), head);
-		for (size_t i = 0; i < (DATABLOCK_PAGE_SIZE / tbl1_row_size); i++) {
-			tbl1_row = (struct row*)&tbl1_blk->data[tbl1_row_size * i];
-
-			if (tbl1_row->flags.empty)
-				break; /* end of the line */
-
-			if (tbl1_row->flags.deleted)
-				continue; /* nothing to do here */
-
-			list_for_each(tbl2_pos, table_2->datablock_head)
-			{
-				tbl2_blk = list_entry(tbl2_pos, typeof(*tbl2_blk), head);
+static int proc_from_clause_join(struct database *db, struct ast_sel_join_node *join_node, struct table *earmattbl);
 
-				for (size_t j = 0; j < (DATABLOCK_PAGE_SIZE / tbl2_row_size); j++) {
-					tbl2_row = (struct row*)&tbl2_blk->data[tbl2_row_size * j];
-
-					if (tbl2_row->flags.empty)
-						break; /* end of the line */
-
-					if (tbl2_row->flags.deleted)
-						continue; /* nothing to do here */
-
-					//TODO figure out how I will populate aliases into the new row
-					// SELECT (f1 + 4) as val FROM A JOIN B ON ....
-
-					/* copy columns of both rows to materialised row */
-					if (merge_rows(table_1, mattbl, tbl1_row, tbl2_row, mattbl, &new_row))
-						goto err;
-
-					if (eval_row_cond((struct ast_node*)onexpr_node, mattbl, new_row)) {
-
-						if (!table_update_row(mattbl, tbl2_blk, tbl2_row_size * j, new_row,
-									new_row_size))
-							goto err;
+/* either a table of the database or, for a nested join, a (temporary) table with the rows of that join */
+static int get_join_operand(struct database *db, struct ast_node *node, struct table *earmattbl, struct table **out)
+{
+	int ret;
 
-//						print_row(mattbl, new_row);
+	if (node->node_type == AST_TYPE_SEL_TABLE) {
+		*out = database_table_get(db, ((struct ast_sel_table_node*)node)->table_name);
+		return MIDORIDB_OK;
+	}
 
-					} else {
-						/* when using materialisation tables,
-						 * if it doesn't match ON-clause then it needs to be discarded
-						 * TODO: this should change once we implement other JOIN types
-						 */
-						table_delete_row(mattbl, tbl2_blk, tbl2_row_size * j);
-					}
+	BUG_ON(node->node_type != AST_TYPE_SEL_JOIN);
 
-					/* free up used resources */
-					table_free_row_content(mattbl, new_row);
-					free(new_row);
-				}
-			}
-		}
-	}
+	*out = table_init("join_mat_tbl");
+	if (!(*out))
+		return -MIDORIDB_INTERNAL;
 
-	return MIDORIDB_OK;
+	memcpy((*out)->columns, earmattbl->columns, sizeof(earmattbl->columns));
+	(*out)->column_count = earmattbl->column_count;
 
-err:
-	return -MIDORIDB_INTERNAL;
+	if ((ret = proc_from_clause_join(db, (struct ast_sel_join_node*)node, *out)))
+		table_destroy(out);
 
+	return ret;
 }
 
 static int proc_from_clause_join(struct database *db, struct ast_sel_join_node *join_node, struct table *earmattbl)
@@ -1245,7 +1188,9 @@ static int proc_from_clause_join(struct database *db, struct ast_sel_join_node *
 	struct ast_sel_onexpr_node *onexpr_node = NULL;
 	struct ast_node *left_node = NULL, *right_node = NULL;
 
-	int early_ret;
+	struct table *left, *right;
+	bool is_left_earlymat, is_right_earlymat;
+	int ret;
 
 	list_for_each(pos, join_node->node_children_head)
 	{
@@ -1260,29 +1205,24 @@ static int proc_from_clause_join(struct database *db, struct ast_sel_join_node *
 		}
 	}
 
-	if (left_node->node_type == AST_TYPE_SEL_TABLE && right_node->node_type == AST_TYPE_SEL_TABLE) {
-		return _join_nested_loop_tbl2tbl(db, join_node, onexpr_node,
-							(struct ast_sel_table_node*)left_node,
-							(struct ast_sel_table_node*)right_node, earmattbl);
-	} else if (left_node->node_type == AST_TYPE_SEL_JOIN && right_node->node_type == AST_TYPE_SEL_TABLE) {
-		if ((early_ret = proc_from_clause_join(db, (struct ast_sel_join_node*)left_node, earmattbl)))
-			return early_ret;
-
-		return _join_nested_loop_tbl2mat(db, join_node, onexpr_node,
-							(struct ast_sel_table_node*)right_node,
-							earmattbl);
-	} else if (left_node->node_type == AST_TYPE_SEL_TABLE && right_node->node_type == AST_TYPE_SEL_JOIN) {
-		if ((early_ret = proc_from_clause_join(db, (struct ast_sel_join_node*)right_node, earmattbl)))
-			return early_ret;
-
-		return _join_nested_loop_tbl2mat(db, join_node, onexpr_node,
-							(struct ast_sel_table_node*)left_node,
-							earmattbl);
-	} else {
-		BUG_GENERIC();
-	}
+	is_left_earlymat = left_node->node_type == AST_TYPE_SEL_JOIN;
+	is_right_earlymat = right_node->node_type == AST_TYPE_SEL_JOIN;
 
-	return MIDORIDB_OK;
+	if ((ret = get_join_operand(db, left_node, earmattbl, &left)))
+		goto err_left;
+
+	if ((ret = get_join_operand(db, right_node, earmattbl, &right)))
+		goto err_right;
+
+	ret = _join_nested_loop(onexpr_node, left, is_left_earlymat, right, is_right_earlymat, earmattbl);
+
+	if (is_right_earlymat)
+		table_destroy(&right);
+err_right:
+	if (is_left_earlymat)
+		table_destroy(&left);
+err_left:
+	return ret;
 }
 
 static int proc_from_clause_table(struct database *db, struct ast_sel_table_node *table_node, struct table *mattbl)
@@ -1324,7 +1264,7 @@ static int proc_from_clause_table(struct database *db, struct ast_sel_table_node
 			}
 
 			if (!cpy_cols(exs_table, exs_row, mattbl, new_row, false))
-				goto err_ptr;
+				goto err_ins;
 
 			init_count_cols(mattbl, new_row);
 
@@ -1342,7 +1282,6 @@ static int proc_from_clause_table(struct database *db, struct ast_sel_table_node
 
 err_ins:
 	table_free_row_content(mattbl, new_row);
-err_ptr:
 	free(new_row);
 err:
 	return -MIDORIDB_INTERNAL;
-- 
2.43.0


From 7a6e7ea1c91a0fbe368bc4dc04b99f3d0d6048ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:26 +0000
Subject: [PATCH 23/33] fix: comma list of three or more tables joins all of
 them

---
 src/engine/optimiser_select.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/engine/optimiser_select.c b/src/engine/optimiser_select.c
index ad4eaaa..2ca218a 100644
--- a/src/engine/optimiser_select.c
+++ b/src/engine/optimiser_select.c
@@ -392,7 +392,7 @@ err_node:
 	return NULL;
 }
 
-int wrap_on_join_node(struct ast_node *left, struct ast_node *right)
+int wrap_on_join_node(struct ast_node *left, struct ast_node *right, struct ast_node **out)
 {
 	struct ast_sel_join_node *join_node;
 	struct ast_sel_onexpr_node *onexpr_node;
@@ -443,23 +443,25 @@ int wrap_on_join_node(struct ast_node *left, struct ast_node *right)
 	list_add(&right->head, join_node->node_children_head);
 	list_add(&left->head, join_node->node_children_head);
 
+	*out = (struct ast_node*)join_node;
+
 	return MIDORIDB_OK;
 
 err_head:
 	free(join_node);
 err_node:
-err_onexpr:
 	/*ast_node is recursive so it will take care of cmp_node */
 	ast_free((struct ast_node*)onexpr_node);
 	return -MIDORIDB_INTERNAL;
-err_cmp:
+err_onexpr:
 	/*ast_node is recursive so it will take care of exprval */
 	ast_free((struct ast_node*)cmp_node);
 	return -MIDORIDB_INTERNAL;
-err_val_2:
+err_cmp:
 	ast_free((struct ast_node*)val_node_2);
-err_val_1:
+err_val_2:
 	ast_free((struct ast_node*)val_node_1);
+err_val_1:
 	return -MIDORIDB_INTERNAL;
 }
 
@@ -488,10 +490,10 @@ int do_replace_entries_from(struct ast_node *node)
 			} else {
 				right = tmp_entry;
 
-				if ((ret = wrap_on_join_node(left, right)))
+				/* next one (if any) is joined with what we have joined so far */
+				if ((ret = wrap_on_join_node(left, right, &left)))
 					return ret;
 
-				left = right;
 				right = NULL;
 			}
 		}
-- 
2.43.0


From 3229486f347d3f01dca9f341cd5082d6cf05cb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:52 +0000
Subject: [PATCH 24/33] fix: GROUP BY compares all fields and every pair of
 rows once; COUNT(*) of no rows is 0, and never NULL

---
 src/engine/executor_select.c | 126 +++++++++++++++++++++++------------
 1 file changed, 83 insertions(+), 43 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 6faee0e..858712c 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -262,6 +262,10 @@ static int _build_cols_hashtable_count(struct ast_node *node, struct hashtable *
 	column.precision = table_calc_column_precision(column.type);
 	column.is_count = true;
 
+	/* it's the same number regardless of how many times it's been asked for */
+	if (hashtable_get(cols_ht, key, strlen(key) + 1))
+		return MIDORIDB_OK;
+
 	if (!hashtable_put(cols_ht, key, strlen(key) + 1, &column, sizeof(column)))
 		return -MIDORIDB_INTERNAL;
 
@@ -343,6 +347,7 @@ static void init_count_cols(struct table *table, struct row *row)
 
 		if (column->is_count) {
 			(*(int64_t*)&row->data[offset]) = 1;
+			bit_clear(row->null_bitmap, i, sizeof(row->null_bitmap));
 		}
 
 		offset += table_calc_column_space(column);
@@ -1426,13 +1431,16 @@ static int cmp_rows_col_mattbl(struct table *table, struct row *row_1, struct ro
 	else if (!is_null_1 && is_null_2)
 		ret = 1;
 	else if (col_spcs.type == CT_DOUBLE) {
-		ret = (*(double*)&row_1->data[col_spcs.offset]) - (*(double*)&row_2->data[col_spcs.offset]);
+		double val_1 = *(double*)&row_1->data[col_spcs.offset], val_2 = *(double*)&row_2->data[col_spcs.offset];
+		ret = (val_1 > val_2) - (val_1 < val_2);
 	} else if (col_spcs.type == CT_TINYINT) {
 		ret = (*(bool*)&row_1->data[col_spcs.offset]) - (*(bool*)&row_2->data[col_spcs.offset]);
 	} else if (col_spcs.type == CT_INTEGER) {
-		ret = (*(int64_t*)&row_1->data[col_spcs.offset]) - (*(int64_t*)&row_2->data[col_spcs.offset]);
+		int64_t val_1 = *(int64_t*)&row_1->data[col_spcs.offset], val_2 = *(int64_t*)&row_2->data[col_spcs.offset];
+		ret = (val_1 > val_2) - (val_1 < val_2);
 	} else if (col_spcs.type == CT_DATE || col_spcs.type == CT_DATETIME) {
-		ret = (*(time_t*)&row_1->data[col_spcs.offset]) - (*(time_t*)&row_2->data[col_spcs.offset]);
+		time_t val_1 = *(time_t*)&row_1->data[col_spcs.offset], val_2 = *(time_t*)&row_2->data[col_spcs.offset];
+		ret = (val_1 > val_2) - (val_1 < val_2);
 	} else if (col_spcs.type == CT_VARCHAR) {
 		ret = strcmp(*(char**)&row_1->data[col_spcs.offset], *(char**)&row_2->data[col_spcs.offset]);
 	} else {
@@ -1468,10 +1476,26 @@ static int inc_count_cols(struct table *table, struct datablock *blk, size_t blk
 	return MIDORIDB_OK;
 }
 
-static int proc_groupby_clause(struct ast_node *node, struct table *table)
+/* rows belong to the same group if they have the same values in all fields of the group-by clause */
+static bool is_same_group(struct ast_node *node, struct table *table, struct row *row_1, struct row *row_2)
 {
-	struct list_head *grppos, *pos1, *pos2;
+	struct list_head *grppos;
 	struct ast_node *tmp_entry;
+
+	list_for_each(grppos, node->node_children_head)
+	{
+		tmp_entry = list_entry(grppos, typeof(*tmp_entry), head);
+
+		if (cmp_rows_col_mattbl(table, row_1, row_2, tmp_entry) != 0)
+			return false;
+	}
+
+	return true;
+}
+
+static int proc_groupby_clause(struct ast_node *node, struct table *table)
+{
+	struct list_head *pos1, *pos2;
 	struct datablock *blk_1, *blk_2;
 	struct row *row_1, *row_2;
 	size_t row_size;
@@ -1479,48 +1503,40 @@ static int proc_groupby_clause(struct ast_node *node, struct table *table)
 
 	row_size = table_calc_row_size(table);
 
-	list_for_each(grppos, node->node_children_head)
+	list_for_each(pos1, table->datablock_head)
 	{
-		/* process each field on the group-by clause list one at a time */
-		tmp_entry = list_entry(grppos, typeof(*tmp_entry), head);
-
-		list_for_each(pos1, table->datablock_head)
-		{
-			blk_1 = list_entry(pos1, typeof(*blk_1), head);
-			for (size_t i = 0; i < (DATABLOCK_PAGE_SIZE / row_size); i++) {
-				row_1 = (struct row*)&blk_1->data[row_size * i];
-
-				if (row_1->flags.empty)
-					break; /* end of the line */
+		blk_1 = list_entry(pos1, typeof(*blk_1), head);
+		for (size_t i = 0; i < (DATABLOCK_PAGE_SIZE / row_size); i++) {
+			row_1 = (struct row*)&blk_1->data[row_size * i];
 
-				if (row_1->flags.deleted)
-					continue; /* nothing to do here */
+			if (row_1->flags.empty)
+				break; /* end of the line */
 
-				list_for_each(pos2, table->datablock_head)
-				{
-					blk_2 = list_entry(pos2, typeof(*blk_2), head);
-					for (size_t j = i + 1; j < (DATABLOCK_PAGE_SIZE / row_size); j++) {
-						row_2 = (struct row*)&blk_2->data[row_size * j];
+			if (row_1->flags.deleted)
+				continue; /* nothing to do here */
 
-						if (row_2->flags.empty)
-							break; /* end of the line */
+			/* compare it with the rows that come after it: rest of this datablock and the ones after it */
+			for (pos2 = pos1; pos2 != table->datablock_head; pos2 = pos2->next) {
+				blk_2 = list_entry(pos2, typeof(*blk_2), head);
+				for (size_t j = pos2 == pos1 ? i + 1 : 0; j < (DATABLOCK_PAGE_SIZE / row_size); j++) {
+					row_2 = (struct row*)&blk_2->data[row_size * j];
 
-						if (row_2->flags.deleted)
-							continue; /* nothing to do here */
+					if (row_2->flags.empty)
+						break; /* end of the line */
 
-						if (cmp_rows_col_mattbl(table, row_1, row_2, tmp_entry) == 0) {
+					if (row_2->flags.deleted)
+						continue; /* nothing to do here */
 
-							if (!table_delete_row(table, blk_2, row_size * j)) {
-								ret = -MIDORIDB_INTERNAL;
-								goto out;
-							}
+					if (is_same_group(node, table, row_1, row_2)) {
 
-							/* increment counts if any */
-							if ((ret = inc_count_cols(table, blk_1, row_size * i,
-											row_1,
-											row_size)))
-								goto out;
+						if (!table_delete_row(table, blk_2, row_size * j)) {
+							ret = -MIDORIDB_INTERNAL;
+							goto out;
 						}
+
+						/* increment counts if any */
+						if ((ret = inc_count_cols(table, blk_1, row_size * i, row_1, row_size)))
+							goto out;
 					}
 				}
 			}
@@ -1532,6 +1548,25 @@ out:
 
 }
 
+/* COUNT(*) of no rows at all is still a result */
+static int insert_zero_count(struct table *table)
+{
+	struct row *row;
+	size_t row_size;
+	int ret = MIDORIDB_OK;
+
+	row_size = table_calc_row_size(table);
+	row = zalloc(row_size);
+	if (!row)
+		return -MIDORIDB_INTERNAL;
+
+	if (!table_insert_row(table, row, row_size))
+		ret = -MIDORIDB_INTERNAL;
+
+	free(row);
+	return ret;
+}
+
 static int handle_countonly_case(struct table *table)
 {
 	struct list_head *pos1, *pos2;
@@ -1539,6 +1574,7 @@ static int handle_countonly_case(struct table *table)
 	struct row *row_1, *row_2;
 	size_t row_size;
 	int ret = MIDORIDB_OK;
+	bool found_row = false;
 
 	/* check if we need to do that in the first plae */
 	bool non_count_field = false;
@@ -1564,10 +1600,11 @@ static int handle_countonly_case(struct table *table)
 				if (row_1->flags.deleted)
 					continue; /* nothing to do here */
 
-				list_for_each(pos2, table->datablock_head)
-				{
+				found_row = true;
+
+				for (pos2 = pos1; pos2 != table->datablock_head; pos2 = pos2->next) {
 					blk_2 = list_entry(pos2, typeof(*blk_2), head);
-					for (size_t j = i + 1; j < (DATABLOCK_PAGE_SIZE / row_size); j++) {
+					for (size_t j = pos2 == pos1 ? i + 1 : 0; j < (DATABLOCK_PAGE_SIZE / row_size); j++) {
 						row_2 = (struct row*)&blk_2->data[row_size * j];
 
 						if (row_2->flags.empty)
@@ -1590,6 +1627,9 @@ static int handle_countonly_case(struct table *table)
 				}
 			}
 		}
+
+		if (!found_row)
+			ret = insert_zero_count(table);
 	}
 
 out:
@@ -1770,8 +1810,8 @@ int executor_run_select_stmt(struct database *db, struct ast_sel_select_node *se
 		goto err_bld_fc;
 	}
 
-	/* handle COUNT(*)-only field edge-case */
-	if ((ret = handle_countonly_case(table))) {
+	/* handle COUNT(*)-only field edge-case - it's one row per group if there is a group-by clause */
+	if (!groupby_node && (ret = handle_countonly_case(table))) {
 		snprintf(output->error.message, sizeof(output->error.message),
 				"execution phase: error while processing COUNT-only-case\n");
 		goto err_bld_fc;
-- 
2.43.0


From b5d6983a1ef812af2a4ba07e09220cb2591f05bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:05 +0000
Subject: [PATCH 25/33] fix: result has the selected columns in the order they
 were selected

---
 include/parser/ast.h          |   2 +
 src/engine/executor_select.c  | 132 ++++++++++++++++++++++++++++++++++
 src/engine/optimiser_select.c |   1 +
 3 files changed, 135 insertions(+)

diff --git a/include/parser/ast.h b/include/parser/ast.h
index 8ab7cbc..5d1618c 100644
--- a/include/parser/ast.h
+++ b/include/parser/ast.h
@@ -525,6 +525,8 @@ struct ast_sel_fieldname_node {
 	char table_name[TABLE_MAX_NAME + 1 /*NUL char */];
 	/* column name */
 	char col_name[TABLE_MAX_COLUMN_NAME + 1 /*NUL char */];
+	/* is it one of the columns that * stands for? */
+	bool is_selectall;
 };
 
 struct ast_sel_selectall_node {
diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 858712c..312bfd7 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -1382,6 +1382,131 @@ static int proc_select_clause(struct ast_sel_select_node *node, struct table *ou
 	return MIDORIDB_OK;
 }
 
+/* positions of the columns in the order in which they were selected */
+static int find_select_order(struct ast_sel_select_node *node, struct table *table, int *order)
+{
+	struct list_head *pos;
+	struct ast_node *tmp_entry;
+	struct column_specs col_spcs;
+	bool select_all = false;
+	int count = 0;
+
+	list_for_each(pos, node->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+		if (tmp_entry->node_type == AST_TYPE_SEL_FIELDNAME) {
+			if (((struct ast_sel_fieldname_node*)tmp_entry)->is_selectall) {
+				/* every column of every table */
+				for (int i = 0; !select_all && i < table->column_count; i++) {
+					if (!table->columns[i].is_count)
+						order[count++] = i;
+				}
+				select_all = true;
+				continue;
+			}
+		} else if (tmp_entry->node_type != AST_TYPE_SEL_COUNT) {
+			/* nothing to just, just move on */
+			continue;
+		}
+
+		memzero(&col_spcs, sizeof(col_spcs));
+		if (count == TABLE_MAX_COLUMNS || !find_column_mattbl(table, tmp_entry, &col_spcs))
+			return -MIDORIDB_INTERNAL;
+
+		order[count++] = col_spcs.col_idx;
+	}
+
+	return count;
+}
+
+static bool insert_reordered_row(struct table *src, struct row *src_row, struct table *dst, int *order)
+{
+	struct row *dst_row;
+	size_t row_size, src_offset, dst_offset = 0;
+	bool ret;
+
+	row_size = table_calc_row_size(dst);
+	dst_row = zalloc(row_size);
+	if (!dst_row)
+		return false;
+
+	for (int i = 0; i < dst->column_count; i++) {
+		src_offset = 0;
+		for (int j = 0; j < order[i]; j++)
+			src_offset += table_calc_column_space(&src->columns[j]);
+
+		/* variable precision columns hold a pointer to the content which is copied when row gets inserted */
+		memcpy(dst_row->data + dst_offset, src_row->data + src_offset, table_calc_column_space(&dst->columns[i]));
+
+		if (bit_test(src_row->null_bitmap, order[i], sizeof(src_row->null_bitmap)))
+			bit_set(dst_row->null_bitmap, i, sizeof(dst_row->null_bitmap));
+
+		dst_offset += table_calc_column_space(&dst->columns[i]);
+	}
+
+	ret = table_insert_row(dst, dst_row, row_size);
+	free(dst_row);
+	return ret;
+}
+
+/* arrange columns in the order in which they were selected - a column can be selected more than once */
+static int order_select_columns(struct ast_sel_select_node *node, struct table **table)
+{
+	struct list_head *pos;
+	struct datablock *blk;
+	struct row *row;
+	struct table *ordered;
+	int order[TABLE_MAX_COLUMNS];
+	int count;
+	bool in_order;
+	size_t row_size;
+
+	if ((count = find_select_order(node, *table, order)) < 0)
+		return count;
+
+	in_order = count == (*table)->column_count;
+	for (int i = 0; in_order && i < count; i++)
+		in_order = order[i] == i;
+
+	if (in_order)
+		return MIDORIDB_OK;
+
+	ordered = table_init((*table)->name);
+	if (!ordered)
+		return -MIDORIDB_INTERNAL;
+
+	for (int i = 0; i < count; i++)
+		memcpy(&ordered->columns[i], &(*table)->columns[order[i]], sizeof(*ordered->columns));
+	ordered->column_count = count;
+
+	row_size = table_calc_row_size(*table);
+
+	list_for_each(pos, (*table)->datablock_head)
+	{
+		blk = list_entry(pos, typeof(*blk), head);
+		for (size_t i = 0; i < (DATABLOCK_PAGE_SIZE / row_size); i++) {
+			row = (struct row*)&blk->data[row_size * i];
+
+			if (row->flags.empty)
+				break; /* end of the line */
+
+			if (row->flags.deleted)
+				continue; /* nothing to do here */
+
+			if (!insert_reordered_row(*table, row, ordered, order)) {
+				table_destroy(&ordered);
+				return -MIDORIDB_INTERNAL;
+			}
+		}
+	}
+
+	table_destroy(table);
+	*table = ordered;
+
+	return MIDORIDB_OK;
+}
+
 static int proc_where_clause(struct ast_node *node, struct table *table)
 {
 	struct list_head *pos;
@@ -1817,6 +1942,13 @@ int executor_run_select_stmt(struct database *db, struct ast_sel_select_node *se
 		goto err_bld_fc;
 	}
 
+	/* result must have the columns in the order of the SELECT-clause */
+	if ((ret = order_select_columns(select_node, &table))) {
+		snprintf(output->error.message, sizeof(output->error.message),
+				"execution phase: error while processing SELECT-clause\n");
+		goto err_bld_fc;
+	}
+
 	/* TODO process distinct */
 
 	/* remove excluded rows from ON-clauses, WHERE-clauses and so on */
diff --git a/src/engine/optimiser_select.c b/src/engine/optimiser_select.c
index 2ca218a..7216841 100644
--- a/src/engine/optimiser_select.c
+++ b/src/engine/optimiser_select.c
@@ -213,6 +213,7 @@ static int replace_selectall(struct database *db, struct ast_node *node, struct
 
 			strcpy(new_field->table_name, table->name);
 			strcpy(new_field->col_name, column->name);
+			new_field->is_selectall = true;
 
 			/* add it to the tree - adjacently to the SELECTALL node for now */
 			list_add(&new_field->head, root->node_children_head);
-- 
2.43.0


From f5f8edbe0fe3c03d2cd824692ab212e0dd5f83c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:13 +0000
Subject: [PATCH 26/33] fix: SELECT type checks: dates against literals, IS
 NULL next to other conditions, errors instead of exiting

---
 src/parser/semantic_select.c | 83 +++++++++++++++++++++++++++---------
 1 file changed, 62 insertions(+), 21 deletions(-)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index de38763..ad8415c 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -240,7 +240,7 @@ static bool check_column_alias(struct database *db, struct ast_node *root, char
 						((struct alias_value*)table_lookup->content)->table_name,
 						0,
 						sizeof(value.table_name));
-				} else if (database_table_exists(db, value.table_name)) {
+				} else if (database_table_exists(db, field_node->table_name)) {
 					/* query contains full qualified name <table>.<column>. keep it as it is */
 					memccpy(value.table_name, field_node->table_name, 0, sizeof(value.table_name));
 				} else {
@@ -252,8 +252,9 @@ static bool check_column_alias(struct database *db, struct ast_node *root, char
 				/* table nodes are not used in this validation, so just move on */
 				continue;
 			} else {
-				/* is there an edge case that I haven't foreseen */
-				BUG_GENERIC();
+				snprintf(out_err, out_err_len, "alias '%.128s' of something that can't be selected\n",
+						key);
+				return false;
 			}
 
 			/* is the name valid? column aliases follow table nomenclature rules */
@@ -2089,8 +2090,9 @@ static bool check_isxnull_entries(struct ast_node *root, char *out_err, size_t o
 					return false;
 				}
 			} else if (tmp_entry->node_type != AST_TYPE_SEL_FIELDNAME) {
-				/* something I haven't foreseen */
-				BUG_GENERIC();
+				snprintf(out_err, out_err_len,
+						"only fields are allowed in IS NULL|IS NOT NULL\n");
+				return false;
 			}
 
 		}
@@ -2113,6 +2115,17 @@ struct sem_check_val_types {
 	enum COLUMN_TYPE type;
 };
 
+/* is it a raw string that can be compared to a DATE | DATETIME ? */
+static bool is_date_literal(struct ast_node *node, enum COLUMN_TYPE type)
+{
+	struct ast_sel_exprval_node *val_node = (typeof(val_node))node;
+
+	return (type == CT_DATE || type == CT_DATETIME)
+			&& node->node_type == AST_TYPE_SEL_EXPRVAL
+			&& val_node->value_type.is_str
+			&& try_parse_date_type(val_node->str_val, type);
+}
+
 static struct sem_check_val_types check_value_types_cmp(struct ast_sel_cmp_node *cmp_node, struct hashtable *ht, char *out_err, size_t out_err_len)
 {
 	struct sem_check_val_types ret = {0};
@@ -2121,6 +2134,7 @@ static struct sem_check_val_types check_value_types_cmp(struct ast_sel_cmp_node
 	int i = 0;
 
 	struct ast_node *tmp_entry = NULL;
+	struct ast_node *left_node = NULL, *right_node = NULL;
 	struct list_head *pos;
 
 	/* sanity check */
@@ -2131,13 +2145,20 @@ static struct sem_check_val_types check_value_types_cmp(struct ast_sel_cmp_node
 		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
 
 		if (i == 0) {
+			left_node = tmp_entry;
 			left = __check_value_types(tmp_entry, ht, out_err, out_err_len);
 		} else {
+			right_node = tmp_entry;
 			right = __check_value_types(tmp_entry, ht, out_err, out_err_len);
 		}
 		i++;
 	}
 
+	if (left.invalid || right.invalid) {
+		ret.invalid = true;
+		return ret;
+	}
+
 	// NULL has a special set of rules
 	if (left.null || right.null) {
 		if (cmp_node->cmp_type != AST_CMP_EQUALS_OP && cmp_node->cmp_type != AST_CMP_DIFF_OP) {
@@ -2149,6 +2170,12 @@ static struct sem_check_val_types check_value_types_cmp(struct ast_sel_cmp_node
 		return ret;
 	}
 
+	// strings can be interpreted/parsed for other types such as DATE and DATETIME
+	if (is_date_literal(left_node, right.type) || is_date_literal(right_node, left.type)) {
+		ret.type = CT_TINYINT;
+		return ret;
+	}
+
 	// VARCHAR has a special set of rules
 	if (left.type == CT_VARCHAR || right.type == CT_VARCHAR) {
 		if (cmp_node->cmp_type != AST_CMP_EQUALS_OP && cmp_node->cmp_type != AST_CMP_DIFF_OP) {
@@ -2191,7 +2218,7 @@ static struct sem_check_val_types check_value_types_exprop(struct ast_sel_exprop
 		i++;
 	}
 
-	if (memcmp(&left, &right, sizeof(left))) {
+	if (left.invalid || memcmp(&left, &right, sizeof(left))) {
 		ret.invalid = true;
 	} else {
 		ret = left;
@@ -2224,7 +2251,7 @@ static struct sem_check_val_types check_value_types_logop(struct ast_sel_logop_n
 		i++;
 	}
 
-	if (memcmp(&left, &right, sizeof(left))) {
+	if (left.invalid || memcmp(&left, &right, sizeof(left))) {
 		ret.invalid = true;
 	} else {
 		ret.type = CT_TINYINT; // LOGOP resolves into a Boolean value
@@ -2234,16 +2261,18 @@ static struct sem_check_val_types check_value_types_logop(struct ast_sel_logop_n
 
 static struct sem_check_val_types check_value_types_fieldname(struct ast_sel_fieldname_node *field_node, struct hashtable *ht, char *out_err, size_t out_err_len)
 {
-	UNUSED(out_err);
-	UNUSED(out_err_len);
-
 	struct sem_check_val_types ret = {0};
 	struct hashtable_value *ht_value;
 	char key[FQFIELD_NAME_LEN] = {0};
 
 	snprintf(key, sizeof(key) - 1, "%s.%s", field_node->table_name, field_node->col_name);
 	ht_value = hashtable_get(ht, key, strlen(key) + 1);
-	BUG_ON(!ht_value); // sanity check
+	if (!ht_value) {
+		snprintf(out_err, out_err_len, "no such column: '%.128s'.'%.128s'\n", field_node->table_name,
+				field_node->col_name);
+		ret.invalid = true;
+		return ret;
+	}
 	ret.type = *(enum COLUMN_TYPE*)ht_value->content;
 
 	return ret;
@@ -2272,18 +2301,25 @@ static struct sem_check_val_types check_value_types_isxin(struct ast_sel_isxin_n
 
 			if (tmp_entry->node_type == AST_TYPE_SEL_EXPRVAL) {
 				val_node = (typeof(val_node))tmp_entry;
-				ht_value = hashtable_get(ht, val_node->name_val, strlen(val_node->name_val) + 1);
+				if (val_node->value_type.is_name)
+					ht_value = hashtable_get(ht, val_node->name_val,
+									strlen(val_node->name_val) + 1);
 			} else if (tmp_entry->node_type == AST_TYPE_SEL_FIELDNAME) {
 				field_node = (typeof(field_node))tmp_entry;
 				snprintf(key, sizeof(key) - 1, "%s.%s", field_node->table_name, field_node->col_name);
 				ht_value = hashtable_get(ht, key, strlen(key) + 1);
 			}
 
-			BUG_ON(!ht_value); // sanity check
+			if (!ht_value) {
+				snprintf(out_err, out_err_len, "field expected before IN-clause\n");
+				goto err;
+			}
 			expected_type = *(enum COLUMN_TYPE*)ht_value->content;
 		} else {
-			// sanity check
-			BUG_ON(tmp_entry->node_type != AST_TYPE_SEL_EXPRVAL);
+			if (tmp_entry->node_type != AST_TYPE_SEL_EXPRVAL) {
+				snprintf(out_err, out_err_len, "IN-clause can only contain raw values\n");
+				goto err;
+			}
 			val_node = (typeof(val_node))tmp_entry;
 
 			if (val_node->value_type.is_str) {
@@ -2322,9 +2358,10 @@ static struct sem_check_val_types check_value_types_isxin(struct ast_sel_isxin_n
 							val_node->bool_val);
 					goto err;
 				}
-			} else {
+			} else if (!val_node->value_type.is_null) {
 				/* maybe new column type? */
-				BUG_GENERIC();
+				snprintf(out_err, out_err_len, "IN-clause can only contain raw values\n");
+				goto err;
 			}
 		}
 	}
@@ -2354,7 +2391,11 @@ static struct sem_check_val_types __check_value_types(struct ast_node *node, str
 
 		if (val_node->value_type.is_name) {
 			ht_value = hashtable_get(ht, val_node->name_val, strlen(val_node->name_val) + 1);
-			BUG_ON(!ht_value); // sanity check
+			if (!ht_value) {
+				snprintf(out_err, out_err_len, "no such column: '%.128s'\n", val_node->name_val);
+				ret.invalid = true;
+				return ret;
+			}
 			ret.type = *(enum COLUMN_TYPE*)ht_value->content;
 		} else if (val_node->value_type.is_approxnum) {
 			ret.type = CT_DOUBLE;
@@ -2384,6 +2425,9 @@ static struct sem_check_val_types __check_value_types(struct ast_node *node, str
 		return ret;
 	} else if (node->node_type == AST_TYPE_SEL_EXPRISXIN) {
 		return check_value_types_isxin((struct ast_sel_isxin_node*)node, ht, out_err, out_err_len);
+	} else if (node->node_type == AST_TYPE_SEL_EXPRISXNULL || node->node_type == AST_TYPE_SEL_LIKE) {
+		ret.type = CT_TINYINT; // both resolve into a Boolean value
+		return ret;
 	}
 
 	// recursion
@@ -2499,9 +2543,6 @@ static enum COLUMN_TYPE extract_alias_types(struct ast_node *node, struct ast_se
 			BUG_ON(!ht_value);
 
 			col_type = *(enum COLUMN_TYPE*)ht_value->content;
-		} else {
-			// most likely a new column type has been added
-			BUG_GENERIC();
 		}
 
 	} else if (node->node_type == AST_TYPE_SEL_EXPROP) {
-- 
2.43.0


From 8a37bdba833b6dd601fbf6a4fa7adc204a89034d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:29 +0000
Subject: [PATCH 27/33] fix: SELECT name resolution: same column name in
 several tables, several joins, aliases in ON

---
 src/parser/semantic_select.c | 53 +++++++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 10 deletions(-)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index ad8415c..4808e1b 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -351,6 +351,9 @@ static bool check_fqfield_table(struct database *db, struct ast_node *root, stru
 			}
 		}
 
+	} else if (root->node_type == AST_TYPE_SEL_ALIAS) {
+		/* tables that have an alias are known by it */
+		return false;
 	} else {
 		list_for_each(pos, root->node_children_head)
 		{
@@ -1296,7 +1299,7 @@ static bool check_join_on_count(struct ast_node *node, char *out_err, size_t out
 static int check_join_on_fields_exprname(struct database *db, struct ast_sel_exprval_node *val_node,
 		struct ast_sel_join_node *join_node, char *out_err, size_t out_err_len)
 {
-	struct list_head *pos;
+	struct list_head *pos, *alias_pos;
 	struct ast_node *tmp_entry;
 	struct ast_sel_join_node *new_join_node;
 	struct ast_sel_table_node *table_node;
@@ -1312,6 +1315,15 @@ static int check_join_on_fields_exprname(struct database *db, struct ast_sel_exp
 			if (column_exists(db, table_node, val_node->name_val))
 				count++;
 
+		} else if (tmp_entry->node_type == AST_TYPE_SEL_ALIAS) {
+			list_for_each(alias_pos, tmp_entry->node_children_head)
+			{
+				table_node = list_entry(alias_pos, typeof(*table_node), head);
+
+				if (column_exists(db, table_node, val_node->name_val))
+					count++;
+			}
+
 		} else if (tmp_entry->node_type == AST_TYPE_SEL_JOIN) {
 			new_join_node = (typeof(new_join_node))tmp_entry;
 			count += check_join_on_fields_exprname(db, val_node, new_join_node, out_err, out_err_len);
@@ -1372,8 +1384,8 @@ static int check_join_on_fields_fieldname(struct database *db, struct ast_sel_fi
 	return count;
 }
 
-static bool check_join_on_fields(struct database *db, struct ast_node *node, struct ast_sel_join_node *join_node,
-		char *out_err, size_t out_err_len)
+static bool check_join_on_fields(struct database *db, struct ast_node *root, struct ast_node *node,
+		struct ast_sel_join_node *join_node, char *out_err, size_t out_err_len)
 {
 	struct list_head *pos;
 	struct ast_node *tmp_entry;
@@ -1392,7 +1404,7 @@ static bool check_join_on_fields(struct database *db, struct ast_node *node, str
 				snprintf(out_err, out_err_len, "no such column: '%.128s'\n",
 						val_node->name_val);
 				return false;
-			} else if (count > 1) {
+			} else if (count > 1 || tables_with_column_name(db, root, val_node->name_val) > 1) {
 				snprintf(out_err, out_err_len, "ambiguous column name: '%.128s'\n",
 						val_node->name_val);
 				return false;
@@ -1419,7 +1431,7 @@ static bool check_join_on_fields(struct database *db, struct ast_node *node, str
 			else
 				new_join_node = join_node;
 
-			if (!check_join_on_fields(db, tmp_entry, new_join_node, out_err, out_err_len))
+			if (!check_join_on_fields(db, root, tmp_entry, new_join_node, out_err, out_err_len))
 				return false;
 
 		}
@@ -1430,11 +1442,16 @@ static bool check_join_on_fields(struct database *db, struct ast_node *node, str
 
 static bool check_from_clause(struct database *db, struct ast_node *root, char *out_err, size_t out_err_len)
 {
+	struct list_head *pos;
 	struct ast_node *join_node;
 
-	join_node = find_node(root, AST_TYPE_SEL_JOIN);
+	/* there can be several of them as in: FROM A JOIN B ON ..., C JOIN D ON ... */
+	list_for_each(pos, root->node_children_head)
+	{
+		join_node = list_entry(pos, typeof(*join_node), head);
 
-	if (join_node) {
+		if (join_node->node_type != AST_TYPE_SEL_JOIN)
+			continue;
 
 		if (!check_join_on_expr(join_node, root, out_err, out_err_len))
 			return false;
@@ -1444,7 +1461,8 @@ static bool check_from_clause(struct database *db, struct ast_node *root, char *
 			return false;
 
 		/* check if fields/aliases on JOIN ON expression */
-		if (!check_join_on_fields(db, root, (struct ast_sel_join_node*)join_node, out_err, out_err_len))
+		if (!check_join_on_fields(db, root, join_node, (struct ast_sel_join_node*)join_node, out_err,
+						out_err_len))
 			return false;
 	}
 
@@ -1571,7 +1589,15 @@ static bool check_groupby_clause_inselect(struct ast_node *root, struct ast_node
 	}
 	else if (root->node_type == AST_TYPE_SEL_EXPRVAL
 			|| root->node_type == AST_TYPE_SEL_FIELDNAME) {
-		return is_node_in_groupby_clause(root, groupby_node);
+		if (!is_node_in_groupby_clause(root, groupby_node)) {
+			snprintf(out_err, out_err_len, "SELECT list has fields that aren't in the GROUP BY clause\n");
+			return false;
+		}
+		return true;
+	}
+	else if (root->node_type == AST_TYPE_SEL_SELECTALL) {
+		snprintf(out_err, out_err_len, "'*' can't be used with a GROUP BY clause\n");
+		return false;
 	}
 	else if (root->node_type == AST_TYPE_SEL_ALIAS) {
 		alias_node = (typeof(alias_node))root;
@@ -1627,6 +1653,7 @@ static void check_aggr_inselect_nogroupby(struct ast_node *root, char *out_err,
 		out_stats->no_count_fnc++;
 	}
 	else if (root->node_type == AST_TYPE_SEL_EXPRVAL
+			|| root->node_type == AST_TYPE_SEL_SELECTALL
 			|| root->node_type == AST_TYPE_SEL_EXPROP
 			|| root->node_type == AST_TYPE_SEL_FIELDNAME) {
 		out_stats->no_raw_fields++;
@@ -1692,8 +1719,10 @@ static bool check_groupby_clause(struct ast_node *root, char *out_err, size_t ou
 		 * 	SELECT f1, COUNT(f2) FROM B;  (should fail as f1 must be in the group-by clause)
 		 */
 		check_aggr_inselect_nogroupby(root, out_err, out_err_len, column_alias, &out_stats);
-		if (out_stats.no_count_fnc > 0 && out_stats.no_raw_fields > 0)
+		if (out_stats.no_count_fnc > 0 && out_stats.no_raw_fields > 0) {
+			snprintf(out_err, out_err_len, "fields alongside COUNT function require a GROUP BY clause\n");
 			return false;
+		}
 
 	}
 
@@ -2497,6 +2526,10 @@ static bool build_column_value_types_ht(struct database *db, struct ast_node *no
 			memzero(key, sizeof(key));
 			strcpy(key, col_name);
 
+			/* tables can have columns with the same name - ambiguous names have been ruled out already */
+			if (hashtable_get(ht, key, strlen(key) + 1))
+				continue;
+
 			if (!hashtable_put(ht, key, strlen(key) + 1, &col_type, sizeof(col_type))) {
 				snprintf(out_err, out_err_len, "duplicate column name: '%s'\n", key);
 				return false;
-- 
2.43.0


From 6eecc67a3fea8add9c984dd2a1cc60c6ed32baa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:06 +0000
Subject: [PATCH 28/33] fix: a text literal that ends with an escaped backslash
 ends there

---
 src/parser/midorisql.l | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index ca3b111..0aa62c0 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -122,8 +122,8 @@ FALSE	{ yylval->intval = 0; return BOOL; }
 
    /* strings */
 
-'(\\.|''|[^'\n])*'	|
-\"(\\.|\"\"|[^"\n])*\"  { return text_token(yyscanner, STRING, string_content(yytext, yyleng), &yylval->strval); }
+'(\\.|''|[^'\\\n])*'	|
+\"(\\.|\"\"|[^"\\\n])*\"  { return text_token(yyscanner, STRING, string_content(yytext, yyleng), &yylval->strval); }
 
 '(\\.|[^'\n])*$	        { return lexical_error(yyscanner, "Unterminated string %s", yytext); }
 \"(\\.|[^"\n])*$	{ return lexical_error(yyscanner, "Unterminated string %s", yytext); }
-- 
2.43.0


From e8cb72eed697cd638198573d043971c3e45dbe6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:34 +0000
Subject: [PATCH 29/33] fix: apply PRIMARY KEY and INDEX clauses that precede
 their columns

---
 src/engine/executor_create.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/engine/executor_create.c b/src/engine/executor_create.c
index d822d10..e9d22d2 100644
--- a/src/engine/executor_create.c
+++ b/src/engine/executor_create.c
@@ -89,11 +89,18 @@ int executor_run_create_stmt(struct database *db, struct ast_crt_create_node *cr
 		if (entry->node_type == AST_TYPE_CRT_COLUMNDEF) {
 			if ((rc = add_column((struct ast_crt_column_def_node*)entry, table)))
 				goto err_add_col;
-		} else if (entry->node_type == AST_TYPE_CRT_INDEXDEF) {
-			add_index((struct ast_crt_index_def_node*)entry, table);
 		}
 	}
 
+	/* indexes and primary keys can be defined before the columns they refer to */
+	list_for_each(pos, create_node->node_children_head)
+	{
+		entry = list_entry(pos, typeof(*entry), head);
+
+		if (entry->node_type == AST_TYPE_CRT_INDEXDEF)
+			add_index((struct ast_crt_index_def_node*)entry, table);
+	}
+
 	if ((rc = database_table_add(db, table)))
 		goto err_add_tbl;
 
-- 
2.43.0


From 4a927e5a2d0204d4dc8a3b60ada3829d672be5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:27 +0000
Subject: [PATCH 30/33] fix: a syntax error after a table name in FROM freed
 the name twice

---
 src/parser/midorisql.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index ff2e1c5..e78a23a 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -227,7 +227,7 @@ table_reference:  table_factor
   | join_table
   ;
 
-table_factor: NAME { emit(result, "TABLE %s", $1); free($1); } opt_as_alias  
+table_factor: NAME { emit(result, "TABLE %s", $1); free($1); $1 = NULL; /* still on the stack */ } opt_as_alias  
 	    ;
 
 opt_as_alias: AS NAME { emit (result, "ALIAS %s", $2); free($2); }
-- 
2.43.0


From db2d20d2862c56874e63fc542aa7ed07311d3e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:28 +0000
Subject: [PATCH 31/33] fix: unknown columns in clauses that aren't checked are
 an error, not fatal

---
 src/engine/optimiser_select.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/engine/optimiser_select.c b/src/engine/optimiser_select.c
index 7216841..f9a1c83 100644
--- a/src/engine/optimiser_select.c
+++ b/src/engine/optimiser_select.c
@@ -126,6 +126,13 @@ static int replace_expr_name(struct database *db, struct ast_node *node, struct
 		if (!hashtable_get(out_col_alias, val_node->name_val, strlen(val_node->name_val) + 1)) {
 			table = table_with_column_name(db, root, val_node->name_val);
 
+			/* the semantic phase doesn't look into every clause (LIMIT, for instance) */
+			if (!table) {
+				snprintf(output->error.message, sizeof(output->error.message),
+						"optimiser phase: no such column: '%.128s'\n", val_node->name_val);
+				return -MIDORIDB_ERROR;
+			}
+
 			/* init new fieldname node */
 			if (!(new_field = zalloc(sizeof(*new_field))))
 				goto err;
@@ -160,7 +167,8 @@ err:
 	return -MIDORIDB_NOMEM;
 }
 
-static int replace_fieldname(struct database *db, struct ast_node *node, struct hashtable *out_tbl_alias)
+static int replace_fieldname(struct database *db, struct ast_node *node, struct query_output *output,
+		struct hashtable *out_tbl_alias)
 {
 	struct ast_sel_fieldname_node *field_node;
 	struct hashtable_value *lookup;
@@ -175,8 +183,11 @@ static int replace_fieldname(struct database *db, struct ast_node *node, struct
 	} else if (database_table_exists(db, field_node->table_name)) {
 		/* user specified the fqfield - silly but still valid.. so do nothing  */
 	} else {
-		/* is this something that I haven't foreseen? */
-		BUG_GENERIC();
+		/* the semantic phase doesn't look into every clause (LIMIT, for instance) */
+		snprintf(output->error.message, sizeof(output->error.message),
+				"optimiser phase: no such column: '%.128s'.'%.128s'\n", field_node->table_name,
+				field_node->col_name);
+		return -MIDORIDB_ERROR;
 	}
 
 	return MIDORIDB_OK;
@@ -249,7 +260,7 @@ static int replace_simple_expr(struct database *db, struct ast_node *node, struc
 		if ((ret = replace_expr_name(db, node, root, output, out_col_alias)))
 			return ret;
 	} else if (node->node_type == AST_TYPE_SEL_FIELDNAME) {
-		if ((ret = replace_fieldname(db, node, out_tbl_alias)))
+		if ((ret = replace_fieldname(db, node, output, out_tbl_alias)))
 			return ret;
 	} else if (node->node_type == AST_TYPE_SEL_SELECTALL) {
 		if ((ret = replace_selectall(db, root, root, output)))
-- 
2.43.0


From fa3faf52ff29220eaf9950396dc541c41127b0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:50 +0000
Subject: [PATCH 32/33] fix: no memory is lost when the scanner's buffer stack
 cannot grow

---
 src/parser/midorisql.l | 15 ++++++++++++++-
 src/parser/syntax.c    |  6 +++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index 0aa62c0..af65673 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -1,4 +1,4 @@
-%option noyywrap nodefault yylineno case-insensitive reentrant bison-bridge
+%option noyywrap nodefault yylineno case-insensitive reentrant bison-bridge noyyrealloc
 %option extra-type="struct syntax_scan *"
 
 %{
@@ -266,3 +266,16 @@ static int name_token(yyscan_t yyscanner, const char *text, size_t len, char **o
 
 	return text_token(yyscanner, NAME, strndup(text, len), out);
 }
+
+/* the scanner forgets what it failed to grow */
+void *yyrealloc(void *ptr, yy_size_t size, yyscan_t yyscanner)
+{
+	void *new_ptr = realloc(ptr, size);
+
+	UNUSED(yyscanner);
+
+	if (!new_ptr)
+		free(ptr);
+
+	return new_ptr;
+}
diff --git a/src/parser/syntax.c b/src/parser/syntax.c
index ddfdff6..dc049a1 100644
--- a/src/parser/syntax.c
+++ b/src/parser/syntax.c
@@ -46,7 +46,11 @@ int syntax_parse(char *in, struct queue *out)
 		report(out, "out of memory");
 		res = 1;
 	} else {
-		/* make room for the buffer first so that no half-made buffer is lost if there's no memory for it */
+		/*
+		 * make room for the buffer first so that no half-made buffer is lost if there's no memory for it. The
+		 * first call allocates a stack of one element, the second one grows it
+		 */
+		yy_switch_to_buffer(NULL, sc);
 		yy_switch_to_buffer(NULL, sc);
 		yy_scan_buffer(buf, len, sc);
 		res = yyparse(out, sc);
-- 
2.43.0


From 9533afc17acaf8d7e6be6c20a208eb7e244bf03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:54 +0000
Subject: [PATCH 33/33] fix: count block ids atomically, as every open database
 draws on the counter

---
 src/primitive/datablock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitive/datablock.c b/src/primitive/datablock.c
index 4968f41..b05876f 100644
--- a/src/primitive/datablock.c
+++ b/src/primitive/datablock.c
@@ -15,7 +15,7 @@ struct datablock* datablock_alloc(struct list_head *head)
 {
 	struct datablock *new = NULL;
 	if ((new = malloc(sizeof(*new)))) {
-		new->block_id = block_id_acc++;
+		new->block_id = __atomic_fetch_add(&block_id_acc, 1, __ATOMIC_RELAXED);
 		list_head_init(&new->head);
 		list_add(&new->head, head->prev);
 	}
-- 
2.43.0

