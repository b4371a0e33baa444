From 1838c4fbbbe95d8f21e86025a7f8074917f4ed34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:34 +0000
Subject: [PATCH 01/53] fix: write copied-on-write database pages to new page
 numbers

A write transaction wrote its page copies over the originals although they were
listed as freed: open readers saw later commits, a crash inside commit damaged the
previous state, and the still live pages were handed out again by the free list.
Give every copied page a new number at commit, record the complete list of replaced
pages (in several entries when it does not fit one) and map the Free DB root too.
---
 src/napr_db.c          | 132 +++++++++++++++++++++++++++++++++++------
 src/napr_db_internal.h |   9 +++
 src/napr_db_tree.c     |   6 +-
 3 files changed, 126 insertions(+), 21 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index 59b99cd..49c347f 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -15,6 +15,7 @@
 #include <apr_thread_mutex.h>
 #include <apr_proc_mutex.h>
 #include <apr_global_mutex.h>
+#include <apr_strings.h>
 #include <apr_portable.h>
 #include <string.h>
 #include <unistd.h>
@@ -659,10 +660,15 @@ static apr_status_t build_pgno_map(napr_db_txn_t *txn, apr_hash_t **pgno_map_ptr
  * @param txn The transaction.
  * @param pgno_map The mapping from old to new page numbers.
  * @param new_root_pgno_ptr Pointer to store the new root page number.
+ * @param new_free_db_root_ptr In: Free DB root; out: its new page number.
  */
-static void update_dirty_page_pointers(napr_db_txn_t *txn, apr_hash_t *pgno_map, pgno_t *new_root_pgno_ptr)
+static void update_dirty_page_pointers(napr_db_txn_t *txn, apr_hash_t *pgno_map, pgno_t *new_root_pgno_ptr, pgno_t *new_free_db_root_ptr)
 {
     apr_hash_index_t *h_index = NULL;
+    pgno_t *mapped_free_db_root = apr_hash_get(pgno_map, new_free_db_root_ptr, sizeof(pgno_t));
+    if (mapped_free_db_root) {
+        *new_free_db_root_ptr = *mapped_free_db_root;
+    }
     pgno_t *mapped_root = apr_hash_get(pgno_map, &txn->root_pgno, sizeof(pgno_t));
     if (mapped_root) {
         *new_root_pgno_ptr = *mapped_root;
@@ -848,7 +854,7 @@ static apr_status_t insert_into_free_db(napr_db_txn_t *txn, const napr_db_val_t
 
     status = db_find_leaf_page_with_path_in_tree(txn, txn->free_db_root_pgno, &current_key, path, &path_len, &leaf_page);
     if (status != APR_SUCCESS) {
-        return initialize_empty_free_db(txn, key, data, new_free_db_root_out);
+        return status;
     }
 
     status = db_page_search(leaf_page, &current_key, &index);
@@ -920,11 +926,57 @@ static apr_status_t insert_into_free_db(napr_db_txn_t *txn, const napr_db_val_t
     return handle_root_split_in_tree(txn, path[0], right_child_pgno, &current_key, new_free_db_root_out);
 }
 
+/**
+ * @brief Build the Free DB key of one chunk of this transaction's freed pages.
+ *
+ * The first chunk is keyed by the TXNID alone; the following ones, needed only
+ * when the list does not fit in one entry, have the chunk number appended.
+ */
+static void make_free_db_key(uint8_t *buf, txnid_t txnid, uint32_t chunk, napr_db_val_t *key)
+{
+    memcpy(buf, &txnid, sizeof(txnid_t));
+    key->data = buf;
+    key->size = sizeof(txnid_t);
+    if (chunk > 0) {
+        memcpy(buf + sizeof(txnid_t), &chunk, sizeof(chunk));
+        key->size += sizeof(chunk);
+    }
+}
+
+/**
+ * @brief Copy (CoW) the Free DB pages on the path to a key.
+ */
+static apr_status_t touch_free_db_path(napr_db_txn_t *txn, const napr_db_val_t *key)
+{
+    pgno_t path[MAX_TREE_DEPTH] = { 0 };
+    uint16_t path_len = 0;
+    DB_PageHeader *page = NULL;
+    apr_status_t status = APR_SUCCESS;
+
+    status = db_find_leaf_page_with_path_in_tree(txn, txn->free_db_root_pgno, key, path, &path_len, &page);
+    for (int idx = (int) path_len - 1; status == APR_SUCCESS && idx >= 0; idx--) {
+        if (!apr_hash_get(txn->dirty_pages, &path[idx], sizeof(pgno_t))) {
+            status = db_page_get_writable(txn, (DB_PageHeader *) ((char *) txn->env->map_addr + (path[idx] * PAGE_SIZE)), &page);
+        }
+    }
+    return status;
+}
+
+/**
+ * @brief Give a new page number to every copied page and list the old ones in the Free DB.
+ *
+ * A copied page must never be written over its original: active readers and, after
+ * a crash, the previous meta page still refer to it. Finding the new numbers may take
+ * pages out of the Free DB, which copies Free DB pages in turn, so both steps are
+ * repeated until no page is left without a location; only then is the list complete.
+ */
 static apr_status_t populate_free_db(napr_db_txn_t *txn, pgno_t *new_free_db_root_out)
 {
     napr_db_val_t key = { 0 };
     napr_db_val_t data = { 0 };
-    txnid_t txnid_key = 0;
+    uint8_t key_buf[sizeof(txnid_t) + sizeof(uint32_t)];
+    uint32_t num_chunks = 0;
+    apr_status_t status = APR_SUCCESS;
 
     if (!txn || !new_free_db_root_out) {
         return APR_EINVAL;
@@ -935,18 +987,59 @@ static apr_status_t populate_free_db(napr_db_txn_t *txn, pgno_t *new_free_db_roo
         return APR_SUCCESS;
     }
 
-    txnid_key = txn->txnid;
-    key.data = &txnid_key;
-    key.size = sizeof(txnid_t);
-    data.data = txn->freed_pages->elts;
-    data.size = (apr_size_t) txn->freed_pages->nelts * txn->freed_pages->elt_size;
+    while (txn->num_relocated < txn->freed_pages->nelts) {
+        pgno_t old_pgno = APR_ARRAY_IDX(txn->freed_pages, txn->num_relocated, pgno_t);
+        DB_PageHeader *dirty_page = apr_hash_get(txn->dirty_pages, &old_pgno, sizeof(pgno_t));
+        pgno_t new_pgno = 0;
 
-    pgno_t max_valid_pgno = (txn->flags & NAPR_DB_RDONLY) ? txn->env->live_meta->last_pgno : txn->new_last_pgno;
-    if (txn->free_db_root_pgno == 0 || txn->free_db_root_pgno > max_valid_pgno) {
-        return initialize_empty_free_db(txn, &key, &data, new_free_db_root_out);
+        if (!dirty_page) {
+            return APR_EGENERAL;
+        }
+        status = db_page_alloc(txn, 1, &new_pgno);
+        if (status != APR_SUCCESS) {
+            return status;
+        }
+        dirty_page->pgno = new_pgno;
+        txn->num_relocated++;
+
+        if (txn->num_relocated == txn->freed_pages->nelts && txn->free_db_root_pgno != 0) {
+            num_chunks = (uint32_t) ((txn->freed_pages->nelts + DB_FREE_ENTRY_MAX_PAGES - 1) / DB_FREE_ENTRY_MAX_PAGES);
+            for (uint32_t chunk = 0; chunk < num_chunks; chunk++) {
+                make_free_db_key(key_buf, txn->txnid, chunk, &key);
+                status = touch_free_db_path(txn, &key);
+                if (status != APR_SUCCESS) {
+                    return status;
+                }
+            }
+        }
     }
 
-    return insert_into_free_db(txn, &key, &data, new_free_db_root_out);
+    txn->no_reclaim = 1;
+    num_chunks = (uint32_t) ((txn->freed_pages->nelts + DB_FREE_ENTRY_MAX_PAGES - 1) / DB_FREE_ENTRY_MAX_PAGES);
+    for (uint32_t chunk = 0; chunk < num_chunks; chunk++) {
+        int first = (int) chunk * DB_FREE_ENTRY_MAX_PAGES;
+        int count = txn->freed_pages->nelts - first;
+
+        if (count > DB_FREE_ENTRY_MAX_PAGES) {
+            count = DB_FREE_ENTRY_MAX_PAGES;
+        }
+        make_free_db_key(key_buf, txn->txnid, chunk, &key);
+        data.data = &APR_ARRAY_IDX(txn->freed_pages, first, pgno_t);
+        data.size = (apr_size_t) count * sizeof(pgno_t);
+
+        if (txn->free_db_root_pgno == 0) {
+            status = initialize_empty_free_db(txn, &key, &data, new_free_db_root_out);
+        }
+        else {
+            status = insert_into_free_db(txn, &key, &data, new_free_db_root_out);
+        }
+        if (status != APR_SUCCESS) {
+            return status;
+        }
+        txn->free_db_root_pgno = *new_free_db_root_out;
+    }
+
+    return APR_SUCCESS;
 }
 
 /**
@@ -1024,15 +1117,15 @@ static apr_status_t find_reclaimable_entry(napr_db_txn_t *txn, txnid_t oldest_re
 
     status = napr_db_cursor_get(cursor, key, data, NAPR_DB_FIRST);
     while (status == APR_SUCCESS) {
-        if (key->size != sizeof(txnid_t)) {
+        if (key->size < sizeof(txnid_t)) {
             status = napr_db_cursor_get(cursor, key, data, NAPR_DB_NEXT);
             continue;
         }
 
         memcpy(&entry_txnid, key->data, sizeof(txnid_t));
 
-        if (entry_txnid < oldest_reader_txnid) {
-            if (data->size % sizeof(pgno_t) == 0 && data->size > 0) {
+        if (entry_txnid < oldest_reader_txnid && data->size % sizeof(pgno_t) == 0) {
+            if (data->size > sizeof(pgno_t) || (data->size > 0 && entry_txnid + DB_FREE_ENTRY_GRACE < txn->txnid)) {
                 return APR_SUCCESS;
             }
         }
@@ -1063,12 +1156,15 @@ static apr_status_t update_or_delete_reclaimed_entry(napr_db_txn_t *txn, const n
 
     napr_db_val_t new_data = {.data = remaining_pages,.size = (num_pages - 1) * sizeof(pgno_t) };
 
-    status = napr_db_del(txn, key, NULL);
+    /* The key points into the page that the deletion is about to compact */
+    napr_db_val_t saved_key = {.data = apr_pmemdup(txn->pool, key->data, key->size),.size = key->size };
+
+    status = napr_db_del(txn, &saved_key, NULL);
     if (status != APR_SUCCESS) {
         return status;
     }
 
-    return napr_db_put(txn, key, &new_data);
+    return napr_db_put(txn, &saved_key, &new_data);
 }
 
 /**
@@ -1236,7 +1332,7 @@ apr_status_t napr_db_txn_commit(napr_db_txn_t *txn)
         goto cleanup;
     }
 
-    update_dirty_page_pointers(txn, pgno_map, &new_root_pgno);
+    update_dirty_page_pointers(txn, pgno_map, &new_root_pgno, &new_free_db_root);
 
     status = extend_database_file(txn);
     if (status != APR_SUCCESS) {
diff --git a/src/napr_db_internal.h b/src/napr_db_internal.h
index 2693387..06a9a5f 100644
--- a/src/napr_db_internal.h
+++ b/src/napr_db_internal.h
@@ -120,6 +120,13 @@ typedef struct DB_ReaderSlot
 /* Freed Pages default array size  */
 #define DB_FREED_PAGES_DFLT_SIZE 16
 
+/* Most page numbers stored in one Free DB entry; longer lists use several entries */
+#define DB_FREE_ENTRY_MAX_PAGES 120
+
+/* Age, in transactions, below which a Free DB entry keeps its last page number,
+ * so that the recent history can still be queried with read_from_free_db() */
+#define DB_FREE_ENTRY_GRACE 64
+
 /*
  * Constants
  */
@@ -332,6 +339,8 @@ typedef struct __attribute__((packed))
          /* Free space tracking for write transactions */
          apr_array_header_t *freed_pages;
                                       /**< Array of pgno_t freed during this transaction */
+         int num_relocated;     /**< How many of freed_pages have got their new location */
+         int no_reclaim;        /**< Set while the Free DB itself is being updated */
      };
 
 /**
diff --git a/src/napr_db_tree.c b/src/napr_db_tree.c
index 89865aa..e033fef 100644
--- a/src/napr_db_tree.c
+++ b/src/napr_db_tree.c
@@ -283,7 +283,7 @@ apr_status_t db_page_alloc(napr_db_txn_t *txn, uint32_t count, pgno_t *pgno_out)
     }
 
     /* For single-page allocations, try to reclaim from Free DB first */
-    if (count == 1) {
+    if (count == 1 && !txn->no_reclaim) {
         apr_status_t status = db_reclaim_page_from_free_db(txn, &first_pgno);
         if (status == APR_SUCCESS) {
             /* Successfully reclaimed a page from Free DB */
@@ -309,8 +309,8 @@ apr_status_t db_page_alloc(napr_db_txn_t *txn, uint32_t count, pgno_t *pgno_out)
  * - On subsequent modifications: return the existing dirty copy
  *
  * The dirty copy is stored in the transaction's dirty_pages hash table,
- * keyed by the original page number. On commit, dirty pages are written
- * to their original locations in the file.
+ * keyed by the original page number. On commit, dirty copies get a new page
+ * number, so that the original stays intact for readers and for recovery.
  *
  * @param txn Write transaction handle
  * @param original_page Pointer to the original page in the memory map
-- 
2.43.0


From 3e41bbda6f78aa32d2e2953458b58c43644fd299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:15 +0000
Subject: [PATCH 02/53] fix: keep keys below the leftmost branch key reachable
 after a split

The first branch key of a tree was the smallest key at the time of the root split.
Smaller keys inserted later went to the leftmost leaf, but when that leaf split again
its divider sorted before that branch key and half of the keys could no longer be found.
---
 src/napr_db.c | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index 49c347f..125b96e 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -1757,16 +1757,10 @@ static apr_status_t handle_root_split(napr_db_txn_t *txn, pgno_t old_root_pgno,
         return APR_EGENERAL;
     }
 
-    if (old_root_page->flags & P_BRANCH) {
-        DB_BranchNode *left_first_node = db_page_branch_node(old_root_page, 0);
-        left_min_key.data = db_branch_node_key(left_first_node);
-        left_min_key.size = left_first_node->key_size;
-    }
-    else {
-        DB_LeafNode *left_first_leaf = db_page_leaf_node(old_root_page, 0);
-        left_min_key.data = db_leaf_node_key(left_first_leaf);
-        left_min_key.size = left_first_leaf->key_size;
-    }
+    /* The leftmost child takes every key below the divider, also those smaller than its
+     * present first key, so its branch key must be the lowest possible one: empty. */
+    left_min_key.data = "";
+    left_min_key.size = 0;
 
     status = db_page_insert(new_root, 0, &left_min_key, NULL, old_root_pgno);
     if (status != APR_SUCCESS) {
@@ -1898,16 +1892,10 @@ static apr_status_t handle_root_split_in_tree(napr_db_txn_t *txn, pgno_t old_roo
         return APR_EGENERAL;
     }
 
-    if (old_root_page->flags & P_BRANCH) {
-        DB_BranchNode *left_first_node = db_page_branch_node(old_root_page, 0);
-        left_min_key.data = db_branch_node_key(left_first_node);
-        left_min_key.size = left_first_node->key_size;
-    }
-    else {
-        DB_LeafNode *left_first_leaf = db_page_leaf_node(old_root_page, 0);
-        left_min_key.data = db_leaf_node_key(left_first_leaf);
-        left_min_key.size = left_first_leaf->key_size;
-    }
+    /* The leftmost child takes every key below the divider, also those smaller than its
+     * present first key, so its branch key must be the lowest possible one: empty. */
+    left_min_key.data = "";
+    left_min_key.size = 0;
 
     status = db_page_insert(new_root, 0, &left_min_key, NULL, old_root_pgno);
     if (status != APR_SUCCESS) {
-- 
2.43.0


From d113f1b69f1dcf330ad66f34aeeb1be1df22d963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:53 +0000
Subject: [PATCH 03/53] fix: database page splits lose entries, fail or
 overflow the page

- An entry that belonged between the two halves of a split page went to the right
  half without the divider being lowered and could not be found any more.
- The left half kept the holes of the moved entries, so the insertion that caused
  the split could still fail, leaving the right half unreachable.
- Splitting by number of entries does not make room when their sizes differ.
- Entry sizes were computed modulo 65536: a large value overran the page buffer.
- Pages were allocated beyond the memory map.
Refuse entries that cannot fit before modifying anything, and refuse to commit a
transaction one of whose modifications failed half-way.
---
 src/napr_db.c          | 131 +++++++++++++++++++++++++-------------
 src/napr_db_internal.h |   7 ++
 src/napr_db_tree.c     | 141 ++++++++++++++++++++++++-----------------
 3 files changed, 175 insertions(+), 104 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index 125b96e..330e956 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -898,12 +898,13 @@ static apr_status_t insert_into_free_db(napr_db_txn_t *txn, const napr_db_val_t
         return status;
     }
 
-    apr_status_t search_status = db_page_search(left_page, &current_key, &index);
-    if (search_status == APR_NOTFOUND && index >= left_page->num_keys) {
-        (void) db_page_search(right_page, &current_key, &index);
+    apr_status_t search_status = db_page_search(right_page, &current_key, &index);
+    if (search_status == APR_SUCCESS || index > 0) {
         status = db_page_insert(right_page, index, &current_key, &current_data, 0);
     }
     else {
+        /* Below the divider: belongs to the left page */
+        (void) db_page_search(left_page, &current_key, &index);
         status = db_page_insert(left_page, index, &current_key, &current_data, 0);
     }
     if (status != APR_SUCCESS) {
@@ -1283,6 +1284,7 @@ apr_status_t napr_db_txn_commit(napr_db_txn_t *txn)
     int is_write = 0;
     apr_hash_t *pgno_map = NULL;
     pgno_t new_root_pgno = 0;
+    pgno_t new_free_db_root = 0;
 
     if (!txn) {
         return APR_EINVAL;
@@ -1311,6 +1313,12 @@ apr_status_t napr_db_txn_commit(napr_db_txn_t *txn)
         apr_thread_mutex_unlock(txn->env->reader_table_mutex);
     }
 
+    /* A modification stopped half-way: the pages are not consistent, publish nothing */
+    if (is_write && txn->failed != APR_SUCCESS) {
+        status = txn->failed;
+        goto cleanup;
+    }
+
     if (!is_write || !txn->dirty_pages || apr_hash_count(txn->dirty_pages) == 0) {
         if (is_write) {
             db_writer_unlock(txn->env);
@@ -1321,7 +1329,6 @@ apr_status_t napr_db_txn_commit(napr_db_txn_t *txn)
 
     /* Populate the Free DB with freed pages from this transaction FIRST
      * so that Free DB pages are added to dirty_pages before we update pointers */
-    pgno_t new_free_db_root = 0;
     status = populate_free_db(txn, &new_free_db_root);
     if (status != APR_SUCCESS) {
         goto cleanup;
@@ -1527,9 +1534,9 @@ static apr_status_t handle_empty_tree_put(napr_db_txn_t *txn, const napr_db_val_
 
 static apr_status_t propagate_split_up_tree(napr_db_txn_t *txn, const pgno_t *path, uint16_t path_len, napr_db_val_t *current_key, pgno_t *right_child_pgno);
 static apr_status_t handle_root_split(napr_db_txn_t *txn, pgno_t old_root_pgno, pgno_t right_child_pgno, const napr_db_val_t *divider_key);
-static apr_status_t handle_page_split(napr_db_txn_t *txn, DB_PageHeader *leaf_page, const pgno_t *path, uint16_t path_len, napr_db_val_t *current_key, napr_db_val_t *current_data);
+static apr_status_t handle_page_split(napr_db_txn_t *txn, DB_PageHeader *leaf_page, const pgno_t *path, uint16_t path_len, const napr_db_val_t *key);
 
-apr_status_t napr_db_put(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_val_t *data)
+static apr_status_t put_entry(napr_db_txn_t *txn, const napr_db_val_t *key, const napr_db_val_t *data)
 {
     pgno_t path[MAX_TREE_DEPTH] = { 0 };
     uint16_t path_len = 0;
@@ -1539,24 +1546,10 @@ apr_status_t napr_db_put(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_v
     apr_status_t status = APR_SUCCESS;
     int idx = 0;
 
-    napr_db_val_t current_key;
-    napr_db_val_t current_data;
+    napr_db_val_t current_key = *key;
+    napr_db_val_t current_data = *data;
     pgno_t right_child_pgno = 0;
 
-    /* Validate inputs */
-    if (!txn || !key || !data) {
-        return APR_EINVAL;
-    }
-
-    /* Key/data to insert at each level (may be updated during split propagation) */
-    current_key = *key;
-    current_data = *data;
-
-    /* Ensure this is a write transaction */
-    if (txn->flags & NAPR_DB_RDONLY) {
-        return APR_EACCES;
-    }
-
     /* Special case: Empty tree (no root yet) */
     if (txn->root_pgno == 0) {
         return handle_empty_tree_put(txn, &current_key, &current_data);
@@ -1632,39 +1625,85 @@ apr_status_t napr_db_put(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_v
         return status;          /* Other error */
     }
 
-    return handle_page_split(txn, leaf_page, path, path_len, &current_key, &current_data);
+    /* Make room, then start again: the key may now belong to another leaf */
+    status = handle_page_split(txn, leaf_page, path, path_len, &current_key);
+    if (status != APR_SUCCESS) {
+        return status;
+    }
+    return put_entry(txn, key, data);
+}
+
+apr_status_t napr_db_put(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_val_t *data)
+{
+    apr_status_t status = APR_SUCCESS;
+
+    /* Validate inputs */
+    if (!txn || !key || !data) {
+        return APR_EINVAL;
+    }
+
+    /* Ensure this is a write transaction */
+    if (txn->flags & NAPR_DB_RDONLY) {
+        return APR_EACCES;
+    }
+
+    /* An entry must fit in a page; larger ones are refused before anything is modified */
+    if (key->size > DB_MAX_KEY_SIZE || data->size > DB_PAGE_CAPACITY || sizeof(uint16_t) + sizeof(DB_LeafNode) + key->size + data->size > DB_PAGE_CAPACITY) {
+        return APR_EINVAL;
+    }
+
+    status = put_entry(txn, key, data);
+    if (status != APR_SUCCESS && status != APR_EEXIST) {
+        txn->failed = status;
+    }
+    return status;
 }
 
-static apr_status_t handle_page_split(napr_db_txn_t *txn, DB_PageHeader *leaf_page, const pgno_t *path, uint16_t path_len, napr_db_val_t *current_key, napr_db_val_t *current_data)
+/**
+ * @brief Split a full leaf around the place of a new key, without inserting it.
+ *
+ * @param txn Write transaction handle
+ * @param leaf_page Full (dirty) leaf page
+ * @param path Page numbers from the root to the leaf
+ * @param path_len Length of the path
+ * @param key Key to make room for
+ * @return APR_SUCCESS or error code
+ */
+static apr_status_t handle_page_split(napr_db_txn_t *txn, DB_PageHeader *leaf_page, const pgno_t *path, uint16_t path_len, const napr_db_val_t *key)
 {
     // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
     apr_status_t status;
-    DB_PageHeader *left_page = leaf_page;
     DB_PageHeader *right_page = NULL;
     napr_db_val_t divider_key = { 0 };
     uint16_t index = 0;
+    int append = 0;
 
-    status = db_split_leaf(txn, left_page, &right_page, &divider_key);
-    if (status != APR_SUCCESS) {
-        return status;
+    /* A leaf with a single entry has no half to give away if the new key comes after it:
+     * all entries are moved to the right page and back. */
+    if (leaf_page->num_keys == 1) {
+        (void) db_page_search(leaf_page, key, &index);
+        append = (index == 1);
     }
 
-    apr_status_t search_status = db_page_search(left_page, current_key, &index);
-    if (search_status == APR_NOTFOUND && index >= left_page->num_keys) {
-        (void) db_page_search(right_page, current_key, &index);
-        status = db_page_insert(right_page, index, current_key, current_data, 0);
-    }
-    else {
-        status = db_page_insert(left_page, index, current_key, current_data, 0);
-    }
+    status = db_split_leaf(txn, leaf_page, &right_page, &divider_key);
     if (status != APR_SUCCESS) {
         return status;
     }
 
+    if (append) {
+        DB_PageHeader saved = *leaf_page;
+        pgno_t right_pgno = right_page->pgno;
+        memcpy(leaf_page, right_page, PAGE_SIZE);
+        leaf_page->pgno = saved.pgno;
+        memset(right_page, 0, PAGE_SIZE);
+        *right_page = saved;
+        right_page->pgno = right_pgno;
+        divider_key = *key;
+    }
+
     pgno_t right_child_pgno = right_page->pgno;
-    *current_key = divider_key;
 
-    status = propagate_split_up_tree(txn, path, path_len, current_key, &right_child_pgno);
+    status = propagate_split_up_tree(txn, path, path_len, &divider_key, &right_child_pgno);
     if (status == APR_INCOMPLETE) {
         return APR_SUCCESS;
     }
@@ -1672,7 +1711,7 @@ static apr_status_t handle_page_split(napr_db_txn_t *txn, DB_PageHeader *leaf_pa
         return status;
     }
 
-    return handle_root_split(txn, path[0], right_child_pgno, current_key);
+    return handle_root_split(txn, path[0], right_child_pgno, &divider_key);
 }
 
 static apr_status_t propagate_split_up_tree(napr_db_txn_t *txn, const pgno_t *path, uint16_t path_len, napr_db_val_t *current_key, pgno_t *right_child_pgno)
@@ -1707,12 +1746,13 @@ static apr_status_t propagate_split_up_tree(napr_db_txn_t *txn, const pgno_t *pa
             return status;
         }
 
-        apr_status_t search_status = db_page_search(parent_page, current_key, &index);
-        if (search_status == APR_NOTFOUND && index >= parent_page->num_keys) {
-            (void) db_page_search(right_page, current_key, &index);
+        apr_status_t search_status = db_page_search(right_page, current_key, &index);
+        if (search_status == APR_SUCCESS || index > 0) {
             status = db_page_insert(right_page, index, current_key, NULL, *right_child_pgno);
         }
         else {
+            /* Below the divider: belongs to the left page */
+            (void) db_page_search(parent_page, current_key, &index);
             status = db_page_insert(parent_page, index, current_key, NULL, *right_child_pgno);
         }
 
@@ -1829,12 +1869,13 @@ static apr_status_t propagate_split_up_tree_in_tree(napr_db_txn_t *txn, const pg
             return status;
         }
 
-        apr_status_t search_status = db_page_search(parent_page, current_key, &index);
-        if (search_status == APR_NOTFOUND && index >= parent_page->num_keys) {
-            (void) db_page_search(right_page, current_key, &index);
+        apr_status_t search_status = db_page_search(right_page, current_key, &index);
+        if (search_status == APR_SUCCESS || index > 0) {
             status = db_page_insert(right_page, index, current_key, NULL, *pgnos.right_child_pgno);
         }
         else {
+            /* Below the divider: belongs to the left page */
+            (void) db_page_search(parent_page, current_key, &index);
             status = db_page_insert(parent_page, index, current_key, NULL, *pgnos.right_child_pgno);
         }
 
diff --git a/src/napr_db_internal.h b/src/napr_db_internal.h
index 06a9a5f..20ca58d 100644
--- a/src/napr_db_internal.h
+++ b/src/napr_db_internal.h
@@ -117,6 +117,12 @@ typedef struct DB_ReaderSlot
 #define DB_LEAFNODE_DATA_SIZE_OFFSET 2
 #define DB_LEAFNODE_KV_DATA_OFFSET 4
 
+/* Space for slots and nodes in an empty page */
+#define DB_PAGE_CAPACITY (PAGE_SIZE - DB_PAGEHEADER_SIZE)
+
+/* Longest key: a branch page must be able to take one more after splitting in two */
+#define DB_MAX_KEY_SIZE 1000
+
 /* Freed Pages default array size  */
 #define DB_FREED_PAGES_DFLT_SIZE 16
 
@@ -340,6 +346,7 @@ typedef struct __attribute__((packed))
          apr_array_header_t *freed_pages;
                                       /**< Array of pgno_t freed during this transaction */
          int num_relocated;     /**< How many of freed_pages have got their new location */
+         apr_status_t failed;   /**< Error of a modification that stopped half-way: commit refuses */
          int no_reclaim;        /**< Set while the Free DB itself is being updated */
      };
 
diff --git a/src/napr_db_tree.c b/src/napr_db_tree.c
index e033fef..f7f3fe1 100644
--- a/src/napr_db_tree.c
+++ b/src/napr_db_tree.c
@@ -293,7 +293,10 @@ apr_status_t db_page_alloc(napr_db_txn_t *txn, uint32_t count, pgno_t *pgno_out)
         /* If reclamation failed (APR_NOTFOUND or error), fall through to file extension */
     }
 
-    /* Fall back to extending the file (original behavior) */
+    /* Fall back to extending the file, within the memory map */
+    if ((txn->new_last_pgno + 1 + count) > txn->env->mapsize / PAGE_SIZE) {
+        return APR_ENOSPC;
+    }
     first_pgno = txn->new_last_pgno + 1;
     txn->new_last_pgno += count;
 
@@ -398,7 +401,7 @@ apr_status_t db_page_get_writable(napr_db_txn_t *txn, DB_PageHeader *original_pa
 apr_status_t db_page_insert(DB_PageHeader *page, uint16_t index, const napr_db_val_t *key, const napr_db_val_t *data, pgno_t child_pgno)
 {
     uint16_t *slots = NULL;
-    uint16_t node_size = 0;
+    apr_size_t node_size = 0;
     uint16_t free_space = 0;
     uint16_t new_offset = 0;
     uint16_t idx = 0;
@@ -413,11 +416,11 @@ apr_status_t db_page_insert(DB_PageHeader *page, uint16_t index, const napr_db_v
         if (!data) {
             return APR_EINVAL;
         }
-        node_size = (uint16_t) (sizeof(DB_LeafNode) + key->size + data->size);
+        node_size = sizeof(DB_LeafNode) + key->size + data->size;
     }
     else if (page->flags & P_BRANCH) {
         /* Branch node: DB_BranchNode + key */
-        node_size = (uint16_t) (sizeof(DB_BranchNode) + key->size);
+        node_size = sizeof(DB_BranchNode) + key->size;
     }
     else {
         return APR_EINVAL;
@@ -438,7 +441,7 @@ apr_status_t db_page_insert(DB_PageHeader *page, uint16_t index, const napr_db_v
     }
 
     /* Allocate space for new node (grows downward from upper) */
-    new_offset = page->upper - node_size;
+    new_offset = (uint16_t) (page->upper - node_size);
 
     /* Create the new node */
     if (page->flags & P_LEAF) {
@@ -534,6 +537,74 @@ apr_status_t db_page_delete(DB_PageHeader *page, uint16_t index)
     return APR_SUCCESS;
 }
 
+/**
+ * @brief Get the size of the node at a given index.
+ */
+static size_t db_node_size(DB_PageHeader *page, uint16_t index)
+{
+    if (page->flags & P_LEAF) {
+        DB_LeafNode *node = db_page_leaf_node(page, index);
+        return sizeof(DB_LeafNode) + node->key_size + node->data_size;
+    }
+    return sizeof(DB_BranchNode) + db_page_branch_node(page, index)->key_size;
+}
+
+/**
+ * @brief Find where to split a page so that both halves use about the same space.
+ *
+ * Counting entries is not enough: with entries of different sizes one half could
+ * stay too full for the entry that caused the split.
+ *
+ * @param page Page to split
+ * @return Index of the first entry of the right half (at least 1 if there are two entries)
+ */
+static uint16_t db_split_point(DB_PageHeader *page)
+{
+    size_t used = 0;
+    size_t left_used = 0;
+    uint16_t idx = 0;
+
+    for (idx = 0; idx < page->num_keys; idx++) {
+        used += db_node_size(page, idx) + sizeof(uint16_t);
+    }
+    for (idx = 0; idx < page->num_keys; idx++) {
+        left_used += db_node_size(page, idx) + sizeof(uint16_t);
+        if (left_used * 2 > used) {
+            break;
+        }
+    }
+
+    return (idx == 0 && page->num_keys > 1) ? 1 : idx;
+}
+
+/**
+ * @brief Keep only the first entries of a page and pack their data at the end of it.
+ *
+ * The nodes that stay may lie anywhere in the data area, so moving 'upper' alone
+ * would not give back the space of the ones that left.
+ *
+ * @param page Dirty page to shorten
+ * @param num_keys Number of entries to keep
+ */
+static void db_page_truncate(DB_PageHeader *page, uint16_t num_keys)
+{
+    uint8_t packed[PAGE_SIZE];
+    uint16_t *slots = db_page_slots(page);
+    uint16_t upper = PAGE_SIZE;
+
+    for (uint16_t idx = 0; idx < num_keys; idx++) {
+        size_t node_size = db_node_size(page, idx);
+        upper = (uint16_t) (upper - node_size);
+        memcpy(packed + upper, (char *) page + slots[idx], node_size);
+        slots[idx] = upper;
+    }
+    memcpy((char *) page + upper, packed + upper, (size_t) (PAGE_SIZE - upper));
+
+    page->num_keys = num_keys;
+    page->lower = (uint16_t) (sizeof(DB_PageHeader) + (num_keys * sizeof(uint16_t)));
+    page->upper = upper;
+}
+
 /**
  * @brief Split a leaf page when it becomes full.
  *
@@ -596,7 +667,7 @@ apr_status_t db_split_leaf(napr_db_txn_t *txn, DB_PageHeader *left_page, DB_Page
     right_page->padding = 0;
 
     /* Determine split point (median) */
-    split_point = left_page->num_keys / 2;
+    split_point = db_split_point(left_page);
 
     /* Get right page slot array */
     right_slots = db_page_slots(right_page);
@@ -625,26 +696,8 @@ apr_status_t db_split_leaf(napr_db_txn_t *txn, DB_PageHeader *left_page, DB_Page
         right_page->upper = new_offset;
     }
 
-    /* Update left page header to reflect the reduced number of keys */
-    left_page->num_keys = split_point;
-    left_page->lower = sizeof(DB_PageHeader) + (split_point * sizeof(uint16_t));
-
-    /* CRITICAL BUG FIX: Recalculate upper pointer to reflect only remaining entries
-     * After moving entries [split_point..end] to right page, their data is still
-     * in left page's data area. We need to find the minimum offset among entries
-     * [0..split_point-1] to reclaim that space.
-     */
-    {
-        uint16_t *left_slots = db_page_slots(left_page);
-        uint16_t min_offset = PAGE_SIZE;
-        for (uint16_t i = 0; i < split_point; i++) {
-            uint16_t offset = left_slots[i];
-            if (offset < min_offset) {
-                min_offset = offset;
-            }
-        }
-        left_page->upper = min_offset;
-    }
+    /* Drop the moved entries from the left page */
+    db_page_truncate(left_page, split_point);
 
     /* Store the right page in dirty pages hash */
     pgno_key = apr_palloc(txn->pool, sizeof(pgno_t));
@@ -727,7 +780,7 @@ apr_status_t db_split_branch(napr_db_txn_t *txn, DB_PageHeader *left_page, DB_Pa
     right_page->padding = 0;
 
     /* Determine split point (median) */
-    split_point = left_page->num_keys / 2;
+    split_point = db_split_point(left_page);
 
     /* Get right page slot array */
     right_slots = db_page_slots(right_page);
@@ -760,38 +813,8 @@ apr_status_t db_split_branch(napr_db_txn_t *txn, DB_PageHeader *left_page, DB_Pa
         right_page->upper = new_offset;
     }
 
-    /* Update left page header to reflect the reduced number of keys
-     * CRITICAL: For B+tree branches with "minimum key" semantics:
-     * - Left page gets entries [0..split_point-1]
-     * - Right page gets entries [split_point+1..end]
-     * - Entry at split_point is NOT in either page - its key becomes the divider,
-     *   and its child pointer is LOST (which is the bug!)
-     *
-     * TODO: Fix this properly by including split_point in one of the pages
-     */
-    left_page->num_keys = split_point;
-    left_page->lower = sizeof(DB_PageHeader) + (split_point * sizeof(uint16_t));
-
-    /* CRITICAL BUG FIX: Recalculate upper pointer to reflect only remaining entries
-     * After moving entries [split_point..end] to right page, their data is still
-     * in left page's data area. We need to find the minimum offset among entries
-     * [0..split_point-1] to reclaim that space.
-     */
-    if (split_point > 0) {
-        uint16_t *left_slots = db_page_slots(left_page);
-        uint16_t min_offset = PAGE_SIZE;
-        for (uint16_t i = 0; i < split_point; i++) {
-            uint16_t offset = left_slots[i];
-            if (offset < min_offset) {
-                min_offset = offset;
-            }
-        }
-        left_page->upper = min_offset;
-    }
-    else {
-        /* Edge case: all entries moved to right */
-        left_page->upper = PAGE_SIZE;
-    }
+    /* Drop the moved entries from the left page */
+    db_page_truncate(left_page, split_point);
 
     /* Set divider key = minimum key of right page (right[0].key)
      * This will be pushed up to the parent to guide searches.
-- 
2.43.0


From 0c53bc6882bf4668ca820986e3d62fa737f4e299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:14 +0000
Subject: [PATCH 04/53] fix: update database keys whose leaf page was already
 modified

napr_db_put() took any key on an already copied leaf for a duplicate of the same
transaction, so a second update near the first one failed with APR_EEXIST, and
napr_cache_upsert_in_txn() could not replace an entry.
---
 src/napr_cache.c | 12 +++++++++++-
 src/napr_db.c    | 26 ++++++++++++++++----------
 src/napr_db.h    |  3 +++
 3 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/napr_cache.c b/src/napr_cache.c
index 0ad38c8..4677ea0 100644
--- a/src/napr_cache.c
+++ b/src/napr_cache.c
@@ -332,6 +332,8 @@ apr_status_t napr_cache_upsert_in_txn(napr_cache_t *cache, const char *path, con
 {
     napr_db_val_t key;
     napr_db_val_t value;
+    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
+    apr_status_t status;
 
     if (!cache || !path || !entry) {
         return APR_EINVAL;
@@ -350,7 +352,15 @@ apr_status_t napr_cache_upsert_in_txn(napr_cache_t *cache, const char *path, con
     value.size = sizeof(napr_cache_entry_t);
 
     /* Insert or update in database */
-    return napr_db_put(cache->active_txn, &key, &value);
+    status = napr_db_put(cache->active_txn, &key, &value);
+    if (status == APR_EEXIST) {
+        /* Inserted by this same transaction: replace */
+        status = napr_db_del(cache->active_txn, &key, NULL);
+        if (status == APR_SUCCESS) {
+            status = napr_db_put(cache->active_txn, &key, &value);
+        }
+    }
+    return status;
 }
 
 /* ========================================================================
diff --git a/src/napr_db.c b/src/napr_db.c
index 330e956..890404b 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -1536,6 +1536,17 @@ static apr_status_t propagate_split_up_tree(napr_db_txn_t *txn, const pgno_t *pa
 static apr_status_t handle_root_split(napr_db_txn_t *txn, pgno_t old_root_pgno, pgno_t right_child_pgno, const napr_db_val_t *divider_key);
 static apr_status_t handle_page_split(napr_db_txn_t *txn, DB_PageHeader *leaf_page, const pgno_t *path, uint16_t path_len, const napr_db_val_t *key);
 
+/**
+ * @brief Tell whether a key is in the state the write transaction started from.
+ */
+static int key_is_committed(napr_db_txn_t *txn, const napr_db_val_t *key)
+{
+    napr_db_txn_t snapshot = {.env = txn->env,.root_pgno = txn->env->live_meta->root,.flags = NAPR_DB_RDONLY };
+    napr_db_val_t data = { 0 };
+
+    return napr_db_get(&snapshot, key, &data) == APR_SUCCESS;
+}
+
 static apr_status_t put_entry(napr_db_txn_t *txn, const napr_db_val_t *key, const napr_db_val_t *data)
 {
     pgno_t path[MAX_TREE_DEPTH] = { 0 };
@@ -1565,16 +1576,11 @@ static apr_status_t put_entry(napr_db_txn_t *txn, const napr_db_val_t *key, cons
     apr_status_t search_status = db_page_search(leaf_page, &current_key, &index);
 
     /* If key exists, check if this is a same-transaction duplicate or an MVCC update.
-     * Same-transaction duplicate: Leaf page is already dirty -> reject with APR_EEXIST
-     * MVCC update: Leaf page is NOT dirty -> allow via CoW */
-    if (search_status == APR_SUCCESS) {
-        pgno_t leaf_pgno = path[path_len - 1];
-        DB_PageHeader *check_dirty = apr_hash_get(txn->dirty_pages, &leaf_pgno, sizeof(pgno_t));
-        if (check_dirty) {
-            /* Same transaction - key already inserted, can't insert again */
-            return APR_EEXIST;
-        }
-        /* Different transaction - will CoW and update below */
+     * Same-transaction duplicate: key unknown to the committed state -> reject with APR_EEXIST
+     * MVCC update: key in the committed state -> replace its value, also when another
+     * modification has already copied its leaf page */
+    if (search_status == APR_SUCCESS && !key_is_committed(txn, &current_key)) {
+        return APR_EEXIST;
     }
 
     /* CoW path propagation: Copy all pages from leaf to root */
diff --git a/src/napr_db.h b/src/napr_db.h
index 2882c9e..f572b5c 100644
--- a/src/napr_db.h
+++ b/src/napr_db.h
@@ -213,6 +213,9 @@ extern "C"
  * @brief Store a key-value pair.
  *
  * Inserts or updates a key-value pair. Only valid in write transactions.
+ * A key that this very transaction has inserted is not updated: APR_EEXIST.
+ * An entry too large for a page is refused with APR_EINVAL; after any other
+ * error the transaction can only be aborted (committing it fails).
  *
  * @param txn Transaction handle (must be write transaction)
  * @param key Key to store
-- 
2.43.0


From 404e2408c1caa5df77c64bdcad77e1b0e42f2eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:32 +0000
Subject: [PATCH 05/53] fix: let database cursors pass leaf pages without keys
 and leaf boundaries

Deletions leave empty leaf pages, at which every iteration stopped; a range seek
whose answer is the first key of the next leaf found nothing. A cache sweep after an
earlier one thus left stale entries behind.
---
 src/napr_db_cursor.c | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/napr_db_cursor.c b/src/napr_db_cursor.c
index 1c31956..3943840 100644
--- a/src/napr_db_cursor.c
+++ b/src/napr_db_cursor.c
@@ -89,6 +89,9 @@ static inline void cursor_push(napr_db_cursor_t *cursor, DB_PageHeader *page, ui
     }
 }
 
+static apr_status_t db_cursor_next(napr_db_cursor_t *cursor);
+static apr_status_t db_cursor_prev(napr_db_cursor_t *cursor);
+
 /**
  * @brief Traverse the tree to position the cursor.
  */
@@ -172,8 +175,9 @@ static apr_status_t db_cursor_seek(napr_db_cursor_t *cursor, const napr_db_val_t
         status = db_page_search(page, key, &index);
         /* If exact match or insertion point is found, it's valid */
         if (index >= page->num_keys) {
-            /* TODO: Handle NEXT logic to find next page */
-            return APR_NOTFOUND;
+            /* Past the end of this leaf: the answer is the first key of the following ones */
+            cursor->stack[cursor->top - 1].index = index;
+            return db_cursor_next(cursor);
         }
         break;
     case NAPR_DB_NEXT:
@@ -183,12 +187,11 @@ static apr_status_t db_cursor_seek(napr_db_cursor_t *cursor, const napr_db_val_t
         return APR_EINVAL;
     }
 
+    cursor->stack[cursor->top - 1].index = index;
     if (page->num_keys == 0) {
-        cursor->eof = 1;
-        return APR_NOTFOUND;
+        /* Deletions may leave a leaf without keys: go on to its neighbours */
+        return operation == NAPR_DB_LAST ? db_cursor_prev(cursor) : db_cursor_next(cursor);
     }
-
-    cursor->stack[cursor->top - 1].index = index;
     return APR_SUCCESS;
 }
 
@@ -264,12 +267,11 @@ static apr_status_t db_cursor_next(napr_db_cursor_t *cursor)
                 }
 
                 if (page->flags & P_LEAF) {
-                    /* Reached leaf - push it with index 0 */
-                    cursor_push(cursor, page, 0);
                     if (page->num_keys == 0) {
-                        cursor->eof = 1;
-                        return APR_NOTFOUND;
+                        break;  /* Left without keys by deletions - try its next sibling */
                     }
+                    /* Reached leaf - push it with index 0 */
+                    cursor_push(cursor, page, 0);
                     return APR_SUCCESS;
                 }
 
@@ -277,6 +279,7 @@ static apr_status_t db_cursor_next(napr_db_cursor_t *cursor)
                 cursor_push(cursor, page, 0);
                 child_pgno = db_page_branch_node(page, 0)->pgno;
             }
+            continue;
         }
 
         /* This parent also exhausted - ascend further */
@@ -319,8 +322,7 @@ static apr_status_t descend_rightmost(napr_db_cursor_t *cursor, pgno_t pgno)
 
         if (page->flags & P_LEAF) {
             if (page->num_keys == 0) {
-                cursor->eof = 1;
-                return APR_NOTFOUND;
+                return APR_NOTFOUND;    /* Left without keys by deletions */
             }
             cursor_push(cursor, page, page->num_keys - 1);
             return APR_SUCCESS;
@@ -366,7 +368,11 @@ static apr_status_t db_cursor_prev(napr_db_cursor_t *cursor)
         if (index > 0) {
             index--;
             cursor->stack[cursor->top - 1].index = index;
-            return descend_rightmost(cursor, db_page_branch_node(page, index)->pgno);
+            apr_status_t status = descend_rightmost(cursor, db_page_branch_node(page, index)->pgno);
+            if (status != APR_NOTFOUND) {
+                return status;
+            }
+            continue;           /* Empty leaf - try its previous sibling */
         }
 
         cursor->top--;
-- 
2.43.0


From 1fe52e793da34a310dca4ed6876722bbe0c36fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:57 +0000
Subject: [PATCH 06/53] fix: compare database keys in their full length

A lookup key longer than 65535 bytes was cut and could match another key.
---
 src/napr_db_tree.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/napr_db_tree.c b/src/napr_db_tree.c
index f7f3fe1..d946263 100644
--- a/src/napr_db_tree.c
+++ b/src/napr_db_tree.c
@@ -22,7 +22,7 @@
  * @param key2_size Size of second key
  * @return <0 if key1 < key2, 0 if equal, >0 if key1 > key2
  */
-static int db_key_compare(const uint8_t *key1_data, uint16_t key1_size, const uint8_t *key2_data, uint16_t key2_size)
+static int db_key_compare(const uint8_t *key1_data, size_t key1_size, const uint8_t *key2_data, size_t key2_size)
 {
     /* Compare the common length */
     size_t min_size = (key1_size < key2_size) ? key1_size : key2_size;
@@ -91,13 +91,13 @@ apr_status_t db_page_search(DB_PageHeader *page, const napr_db_val_t *key, uint1
             /* Branch page */
             DB_BranchNode *node = db_page_branch_node(page, mid);
             uint8_t *node_key = db_branch_node_key(node);
-            cmp = db_key_compare(key->data, (uint16_t) key->size, node_key, node->key_size);
+            cmp = db_key_compare(key->data, key->size, node_key, node->key_size);
         }
         else if (page->flags & P_LEAF) {
             /* Leaf page */
             DB_LeafNode *node = db_page_leaf_node(page, mid);
             uint8_t *node_key = db_leaf_node_key(node);
-            cmp = db_key_compare(key->data, (uint16_t) key->size, node_key, node->key_size);
+            cmp = db_key_compare(key->data, key->size, node_key, node->key_size);
         }
         else {
             /* Invalid page type */
-- 
2.43.0


From e20d5280b4499915ca4e40d42644b5ef0d64b66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:01 +0000
Subject: [PATCH 07/53] fix: take database read snapshots atomically with their
 registration

A reader copied the live meta page without any lock and registered afterwards: a
commit could change the page under it, and a writer that had not seen the reader
could reuse the pages of its snapshot. Also release the slot a transaction owns, not
one found by thread id, and test for NULL before use in napr_db_txn_abort().
---
 src/napr_db.c          | 86 +++++++++++++++++++++---------------------
 src/napr_db_internal.h |  2 +
 2 files changed, 44 insertions(+), 44 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index 890404b..23173ed 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -483,6 +483,31 @@ apr_status_t db_get_oldest_reader_txnid(napr_db_env_t *env, txnid_t *oldest_txni
  * Transaction API implementation
  */
 
+/**
+ * @brief Capture the snapshot of a transaction from the current live meta page.
+ */
+static void capture_snapshot(napr_db_txn_t *txn)
+{
+    txn->txnid = txn->env->live_meta->txnid;
+    txn->root_pgno = txn->env->live_meta->root;
+    txn->free_db_root_pgno = txn->env->live_meta->free_db_root;
+    txn->new_last_pgno = txn->env->live_meta->last_pgno;
+}
+
+/**
+ * @brief Release the reader table slot of a read-only transaction.
+ */
+static void release_reader_slot(napr_db_txn_t *txn)
+{
+    DB_ReaderSlot *slot = &txn->env->reader_table[txn->reader_slot];
+
+    apr_thread_mutex_lock(txn->env->reader_table_mutex);
+    slot->txnid = 0;
+    slot->pid = 0;
+    slot->tid = 0;
+    apr_thread_mutex_unlock(txn->env->reader_table_mutex);
+}
+
 /**
  * @brief Begin a transaction.
  *
@@ -533,18 +558,12 @@ apr_status_t napr_db_txn_begin(napr_db_env_t *env, unsigned int flags, napr_db_t
     txn_handle->pool = txn_pool;
     txn_handle->flags = flags;
 
-    /* Capture snapshot from current live meta page */
-    txn_handle->txnid = env->live_meta->txnid;
-    txn_handle->root_pgno = env->live_meta->root;
-    txn_handle->free_db_root_pgno = env->live_meta->free_db_root;
-
-    /* Initialize dirty page tracking and allocation state */
     txn_handle->dirty_pages = NULL;
-    txn_handle->new_last_pgno = env->live_meta->last_pgno;
     txn_handle->freed_pages = NULL;
 
     /* If write transaction, increment TXNID and create dirty pages tracker */
     if (is_write) {
+        capture_snapshot(txn_handle);
         txn_handle->txnid++;
 
         /* Create hash table for tracking dirty pages (CoW) */
@@ -576,12 +595,17 @@ apr_status_t napr_db_txn_begin(napr_db_env_t *env, unsigned int flags, napr_db_t
             return status;
         }
 
+        /* The snapshot is taken under the lock of the table: a commit cannot change the
+         * live meta page meanwhile, nor can a writer miss this reader and reuse its pages */
+        capture_snapshot(txn_handle);
+
         /* Find an empty slot (txnid == 0) */
         for (slot_idx = 0; slot_idx < MAX_READERS; slot_idx++) {
             if (env->reader_table[slot_idx].txnid == 0) {
                 env->reader_table[slot_idx].pid = pid;
                 env->reader_table[slot_idx].tid = tid;
                 env->reader_table[slot_idx].txnid = txn_handle->txnid;
+                txn_handle->reader_slot = slot_idx;
                 found_slot = 1;
                 break;
             }
@@ -1272,10 +1296,14 @@ static apr_status_t commit_meta_page(napr_db_txn_t *txn, DB_CommitPgnos pgnos)
         return status;
     }
 
+    /* Readers take their snapshot under this lock */
+    status = apr_thread_mutex_lock(txn->env->reader_table_mutex);
+    if (status != APR_SUCCESS) {
+        return status;
+    }
     memcpy(stale_meta, &updated_meta, sizeof(DB_MetaPage));
     txn->env->live_meta = stale_meta;
-
-    return APR_SUCCESS;
+    return apr_thread_mutex_unlock(txn->env->reader_table_mutex);
 }
 
 apr_status_t napr_db_txn_commit(napr_db_txn_t *txn)
@@ -1294,23 +1322,7 @@ apr_status_t napr_db_txn_commit(napr_db_txn_t *txn)
 
     /* Unregister read-only transaction from reader table */
     if (!is_write) {
-        apr_os_proc_t pid = getpid();
-        apr_os_thread_t tid = apr_os_thread_current();
-        int slot_idx = 0;
-
-        apr_thread_mutex_lock(txn->env->reader_table_mutex);
-
-        /* Find and clear our slot */
-        for (slot_idx = 0; slot_idx < MAX_READERS; slot_idx++) {
-            if (txn->env->reader_table[slot_idx].txnid == txn->txnid && txn->env->reader_table[slot_idx].pid == pid && txn->env->reader_table[slot_idx].tid == tid) {
-                txn->env->reader_table[slot_idx].txnid = 0;
-                txn->env->reader_table[slot_idx].pid = 0;
-                txn->env->reader_table[slot_idx].tid = 0;
-                break;
-            }
-        }
-
-        apr_thread_mutex_unlock(txn->env->reader_table_mutex);
+        release_reader_slot(txn);
     }
 
     /* A modification stopped half-way: the pages are not consistent, publish nothing */
@@ -1377,31 +1389,17 @@ apr_status_t napr_db_txn_commit(napr_db_txn_t *txn)
 apr_status_t napr_db_txn_abort(napr_db_txn_t *txn)
 {
     apr_status_t status = APR_SUCCESS;
-    int is_write = !(txn->flags & NAPR_DB_RDONLY);
+    int is_write = 0;
 
     if (!txn) {
         return APR_EINVAL;
     }
 
+    is_write = !(txn->flags & NAPR_DB_RDONLY);
+
     /* Unregister read-only transaction from reader table */
     if (!is_write) {
-        apr_os_proc_t pid = getpid();
-        apr_os_thread_t tid = apr_os_thread_current();
-        int slot_idx = 0;
-
-        apr_thread_mutex_lock(txn->env->reader_table_mutex);
-
-        /* Find and clear our slot */
-        for (slot_idx = 0; slot_idx < MAX_READERS; slot_idx++) {
-            if (txn->env->reader_table[slot_idx].txnid == txn->txnid && txn->env->reader_table[slot_idx].pid == pid && txn->env->reader_table[slot_idx].tid == tid) {
-                txn->env->reader_table[slot_idx].txnid = 0;
-                txn->env->reader_table[slot_idx].pid = 0;
-                txn->env->reader_table[slot_idx].tid = 0;
-                break;
-            }
-        }
-
-        apr_thread_mutex_unlock(txn->env->reader_table_mutex);
+        release_reader_slot(txn);
     }
 
     /* If write transaction, release writer lock */
diff --git a/src/napr_db_internal.h b/src/napr_db_internal.h
index 20ca58d..6016609 100644
--- a/src/napr_db_internal.h
+++ b/src/napr_db_internal.h
@@ -337,6 +337,8 @@ typedef struct __attribute__((packed))
                                 /**< Root page number for Free DB snapshot */
          unsigned int flags;    /**< Transaction flags (RDONLY, etc.) */
 
+         int reader_slot;       /**< Slot in the reader table (read-only transactions) */
+
          /* Copy-on-Write tracking for write transactions */
          apr_hash_t *dirty_pages;
                                 /**< Hash table: pgno_t -> DB_PageHeader* (dirty copy) */
-- 
2.43.0


From 67a5b5031428be4df14cc7126dc9148115a97901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:55 +0000
Subject: [PATCH 08/53] fix: open database files whose creation was interrupted

A crash between creating the file and writing its meta pages left a file that could
never be opened again, or whose mapping raised SIGBUS.
---
 src/napr_db.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index 23173ed..bf3d6d0 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -189,11 +189,16 @@ static apr_status_t db_file_open(napr_db_env_t *env, const char *path, int *is_n
         return status;
     }
 
-    if (status == APR_SUCCESS) {
+    if (status == APR_SUCCESS && finfo.size >= (apr_off_t) 2 * PAGE_SIZE) {
         *is_new_file = 0;
         return apr_file_open(&env->file, path, file_flags, APR_OS_DEFAULT, env->pool);
     }
 
+    /* Too short for the meta pages: only an empty file can be taken for one whose creation was interrupted */
+    if (status == APR_SUCCESS && (finfo.size != 0 || (env->flags & NAPR_DB_RDONLY) || !(env->flags & NAPR_DB_CREATE))) {
+        return APR_EINVAL;
+    }
+
     /* File doesn't exist */
     if (!(env->flags & NAPR_DB_CREATE)) {
         return APR_ENOENT;
@@ -251,6 +256,12 @@ static apr_status_t db_init_meta(napr_db_env_t *env, int is_new_file)
     env->meta0 = (DB_MetaPage *) env->map_addr;
     env->meta1 = (DB_MetaPage *) ((char *) env->map_addr + PAGE_SIZE);
 
+    /* Creation was interrupted before the meta pages were written */
+    if (!is_new_file && (env->flags & NAPR_DB_CREATE) && !(env->flags & NAPR_DB_RDONLY)) {
+        static const DB_MetaPage blank;
+        is_new_file = memcmp(env->meta0, &blank, sizeof(blank)) == 0 && memcmp(env->meta1, &blank, sizeof(blank)) == 0;
+    }
+
     if (is_new_file) {
         init_meta_page(env->meta0, 0);
         init_meta_page(env->meta1, 1);
-- 
2.43.0


From 984639bcf867e15eaece629c356065ab4f59cade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:12 +0000
Subject: [PATCH 09/53] fix: stop writing after a failed meta page update until
 the database is reopened

---
 src/napr_db.c          | 15 +++++++++++----
 src/napr_db_internal.h |  1 +
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index bf3d6d0..865662c 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -562,6 +562,12 @@ apr_status_t napr_db_txn_begin(napr_db_env_t *env, unsigned int flags, napr_db_t
             apr_pool_destroy(txn_pool);
             return status;
         }
+        if (env->meta_status != APR_SUCCESS) {
+            status = env->meta_status;
+            db_writer_unlock(env);
+            apr_pool_destroy(txn_pool);
+            return status;
+        }
     }
 
     /* Initialize transaction */
@@ -1297,13 +1303,14 @@ static apr_status_t commit_meta_page(napr_db_txn_t *txn, DB_CommitPgnos pgnos)
         return status;
     }
 
+    /* If this fails, the meta page on disk may or may not name the pages of this transaction:
+     * nothing may overwrite them until the database is opened again. */
     status = apr_file_write_full(txn->env->file, &updated_meta, meta_bytes, NULL);
-    if (status != APR_SUCCESS) {
-        return status;
+    if (status == APR_SUCCESS) {
+        status = apr_file_sync(txn->env->file);
     }
-
-    status = apr_file_sync(txn->env->file);
     if (status != APR_SUCCESS) {
+        txn->env->meta_status = status;
         return status;
     }
 
diff --git a/src/napr_db_internal.h b/src/napr_db_internal.h
index 6016609..9899c66 100644
--- a/src/napr_db_internal.h
+++ b/src/napr_db_internal.h
@@ -303,6 +303,7 @@ typedef struct __attribute__((packed))
          DB_MetaPage *meta0;    /**< Pointer to Meta Page 0 in mmap */
          DB_MetaPage *meta1;    /**< Pointer to Meta Page 1 in mmap */
          DB_MetaPage *live_meta;/**< Pointer to current active meta page */
+         apr_status_t meta_status; /**< Error of a meta page write that may have reached the disk */
 
          /* Synchronization - SWMR model */
          apr_thread_mutex_t *writer_thread_mutex;
-- 
2.43.0


From f4e6564fb786c6bdae71a6f730356bcc6749dded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:29 +0000
Subject: [PATCH 10/53] fix: honour the value condition of database deletes

---
 src/napr_db.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index 865662c..2e71b65 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -2008,8 +2008,6 @@ apr_status_t napr_db_del(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_v
     uint16_t index = 0;
     apr_status_t status = APR_SUCCESS;
 
-    (void) data;                /* Reserved for future use (conditional delete) */
-
     if (!txn || !key || (txn->flags & NAPR_DB_RDONLY)) {
         return APR_EINVAL;
     }
@@ -2031,6 +2029,14 @@ apr_status_t napr_db_del(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_v
         return APR_NOTFOUND;
     }
 
+    /* Conditional delete: the stored value must match */
+    if (data) {
+        DB_LeafNode *leaf_node = db_page_leaf_node(leaf_page, index);
+        if (leaf_node->data_size != data->size || (data->size && memcmp(db_leaf_node_value(leaf_node), data->data, data->size) != 0)) {
+            return APR_NOTFOUND;
+        }
+    }
+
     /* CoW: Make dirty copies of all pages in the path */
     for (int idx = (int)path_len - 1; idx >= 0; idx--) {
         pgno_t current_pgno = path[idx];
-- 
2.43.0


From 2551a3d80bb494220209fb8419d003f163fa5185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:24 +0000
Subject: [PATCH 11/53] fix: initialise the archive subpath of scanned files

---
 src/ft_traverse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ft_traverse.c b/src/ft_traverse.c
index 129dfc4..92d478d 100644
--- a/src/ft_traverse.c
+++ b/src/ft_traverse.c
@@ -64,7 +64,7 @@ static apr_status_t check_permissions(const apr_finfo_t *finfo, ft_conf_t *conf)
 static apr_status_t process_file(const char *filename, const apr_finfo_t *finfo, ft_conf_t *conf)
 {
     if (finfo->size >= conf->minsize && (conf->maxsize == 0 || finfo->size <= conf->maxsize)) {
-        ft_file_t *file = apr_palloc(conf->pool, sizeof(struct ft_file_t));
+        ft_file_t *file = apr_pcalloc(conf->pool, sizeof(struct ft_file_t));
         file->path = apr_pstrdup(conf->pool, filename);
         file->size = finfo->size;
         file->mtime = finfo->mtime;
-- 
2.43.0


From 364e4b31771ac227de837f26270b23bd5e635363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:19 +0000
Subject: [PATCH 12/53] fix: apply the whitelist regex to files only, so that
 subdirectories are searched

-w and -I were also matched against directory names: '-w .*\.txt$' never
entered any subdirectory, contrary to the documented examples.
---
 src/ft_traverse.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ft_traverse.c b/src/ft_traverse.c
index 92d478d..d5051c6 100644
--- a/src/ft_traverse.c
+++ b/src/ft_traverse.c
@@ -92,8 +92,7 @@ static apr_status_t process_file(const char *filename, const apr_finfo_t *finfo,
 static apr_status_t process_directory_entry(const char *fullname, const apr_finfo_t *finfo, ft_conf_t *conf, apr_pool_t *gc_pool, const struct stats *stats, ft_ignore_context_t *current_ctx)
 {
     int ovector[MATCH_VECTOR_SIZE];
-    if ((conf->ig_regex && pcre_exec(conf->ig_regex, NULL, fullname, (int) strlen(fullname), 0, 0, ovector, MATCH_VECTOR_SIZE) >= 0) ||
-        (conf->wl_regex && pcre_exec(conf->wl_regex, NULL, fullname, (int) strlen(fullname), 0, 0, ovector, MATCH_VECTOR_SIZE) < 0)) {
+    if (conf->ig_regex && pcre_exec(conf->ig_regex, NULL, fullname, (int) strlen(fullname), 0, 0, ovector, MATCH_VECTOR_SIZE) >= 0) {
         return APR_SUCCESS;
     }
 
@@ -168,6 +167,13 @@ static apr_status_t traverse_recursive(ft_conf_t *conf, const char *filename, ap
     if (finfo.filetype == APR_DIR) {
         return process_directory(filename, conf, gc_pool, stats, parent_ctx);
     }
+    /* The whitelist selects files: a directory is entered whatever its own name is. */
+    if (stats != NULL && conf->wl_regex) {
+        int ovector[MATCH_VECTOR_SIZE];
+        if (pcre_exec(conf->wl_regex, NULL, filename, (int) strlen(filename), 0, 0, ovector, MATCH_VECTOR_SIZE) < 0) {
+            return APR_SUCCESS;
+        }
+    }
     if (finfo.filetype == APR_REG || (finfo.filetype == APR_LNK && is_option_set(conf->mask, OPTION_FSYML))) {
         return process_file(filename, &finfo, conf);
     }
-- 
2.43.0


From 9b6ebb12c12820ad4ff68a02ed6281882a4de743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:09 +0000
Subject: [PATCH 13/53] fix: keep scanning past broken links, link loops and
 entries that can't be opened

With -f a dangling link or a link to a parent directory made ftwin give up
with an error and no report, and so did a subdirectory that can't be listed
or an entry removed between its listing and its examination.
---
 src/ft_traverse.c | 51 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/src/ft_traverse.c b/src/ft_traverse.c
index d5051c6..78f5db5 100644
--- a/src/ft_traverse.c
+++ b/src/ft_traverse.c
@@ -15,9 +15,9 @@ enum
 
 static apr_status_t traverse_recursive(ft_conf_t *conf, const char *filename, apr_pool_t *gc_pool, struct stats const *stats, ft_ignore_context_t *parent_ctx);
 
-static apr_status_t get_file_info(const char *filename, apr_finfo_t *finfo, ft_conf_t *conf, apr_pool_t *pool)
+static apr_status_t get_file_info(const char *filename, apr_finfo_t *finfo, ft_conf_t *conf, int is_entry, apr_pool_t *pool)
 {
-    apr_int32_t statmask = APR_FINFO_SIZE | APR_FINFO_MTIME | APR_FINFO_TYPE | APR_FINFO_USER | APR_FINFO_GROUP | APR_FINFO_UPROT | APR_FINFO_GPROT;
+    apr_int32_t statmask = APR_FINFO_SIZE | APR_FINFO_MTIME | APR_FINFO_TYPE | APR_FINFO_USER | APR_FINFO_GROUP | APR_FINFO_UPROT | APR_FINFO_GPROT | APR_FINFO_INODE | APR_FINFO_DEV;
     if (!is_option_set(conf->mask, OPTION_FSYML)) {
         statmask |= APR_FINFO_LINK;
     }
@@ -25,11 +25,11 @@ static apr_status_t get_file_info(const char *filename, apr_finfo_t *finfo, ft_c
     apr_status_t status = apr_stat(finfo, filename, statmask, pool);
     if (status != APR_SUCCESS) {
         char errbuf[ERR_BUF_SIZE];
-        if (is_option_set(conf->mask, OPTION_FSYML) && (finfo->filetype & APR_LNK)) {
+        if (is_entry) {
             if (is_option_set(conf->mask, OPTION_VERBO)) {
-                (void) fprintf(stderr, "Skipping : [%s] (broken link)\n", filename);
+                (void) fprintf(stderr, "Skipping : [%s] (%s)\n", filename, apr_strerror(status, errbuf, ERR_BUF_SIZE));
             }
-            return APR_SUCCESS;
+            return status;
         }
         DEBUG_ERR("error calling apr_stat on filename %s : %s", filename, apr_strerror(status, errbuf, ERR_BUF_SIZE));
     }
@@ -89,18 +89,14 @@ static apr_status_t process_file(const char *filename, const apr_finfo_t *finfo,
     return APR_SUCCESS;
 }
 
-static apr_status_t process_directory_entry(const char *fullname, const apr_finfo_t *finfo, ft_conf_t *conf, apr_pool_t *gc_pool, const struct stats *stats, ft_ignore_context_t *current_ctx)
+static apr_status_t process_directory_entry(const char *fullname, ft_conf_t *conf, apr_pool_t *gc_pool, const struct stats *stats, ft_ignore_context_t *current_ctx)
 {
     int ovector[MATCH_VECTOR_SIZE];
     if (conf->ig_regex && pcre_exec(conf->ig_regex, NULL, fullname, (int) strlen(fullname), 0, 0, ovector, MATCH_VECTOR_SIZE) >= 0) {
         return APR_SUCCESS;
     }
 
-    struct stats child;
-    child.parent = stats;
-    child.stat = *finfo;
-
-    apr_status_t status = traverse_recursive(conf, fullname, gc_pool, &child, current_ctx);
+    apr_status_t status = traverse_recursive(conf, fullname, gc_pool, stats, current_ctx);
     if (status != APR_SUCCESS) {
         char errbuf[ERR_BUF_SIZE];
         DEBUG_ERR("error recursively calling traverse_recursive: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
@@ -115,6 +111,12 @@ static apr_status_t process_directory(const char *filename, ft_conf_t *conf, apr
     apr_status_t status = apr_dir_open(&dir, filename, gc_pool);
     if (status != APR_SUCCESS) {
         char errbuf[ERR_BUF_SIZE];
+        if (NULL != stats->parent) {
+            if (is_option_set(conf->mask, OPTION_VERBO)) {
+                (void) fprintf(stderr, "Skipping : [%s] (%s)\n", filename, apr_strerror(status, errbuf, ERR_BUF_SIZE));
+            }
+            return APR_SUCCESS;
+        }
         DEBUG_ERR("error calling apr_dir_open(%s): %s", filename, apr_strerror(status, errbuf, ERR_BUF_SIZE));
         return status;
     }
@@ -139,7 +141,7 @@ static apr_status_t process_directory(const char *filename, ft_conf_t *conf, apr
         }
 
         char *fullname = apr_pstrcat(gc_pool, filename, (filename[strlen(filename) - 1] == '/') ? "" : "/", finfo.name, NULL);
-        status = process_directory_entry(fullname, &finfo, conf, gc_pool, stats, current_ctx);
+        status = process_directory_entry(fullname, conf, gc_pool, stats, current_ctx);
         if (status != APR_SUCCESS) {
             break;
         }
@@ -149,13 +151,25 @@ static apr_status_t process_directory(const char *filename, ft_conf_t *conf, apr
     return status;
 }
 
+/* Tells if a (followed) directory is one of the directories that are being traversed. */
+static int is_directory_loop(const apr_finfo_t *finfo, struct stats const *stats)
+{
+    for (; stats != NULL; stats = stats->parent) {
+        if (stats->stat.inode == finfo->inode && stats->stat.device == finfo->device) {
+            return 1;
+        }
+    }
+    return 0;
+}
+
 static apr_status_t traverse_recursive(ft_conf_t *conf, const char *filename, apr_pool_t *gc_pool, struct stats const *stats, ft_ignore_context_t *parent_ctx)
 {
     apr_finfo_t finfo;
-    apr_status_t status = get_file_info(filename, &finfo, conf, gc_pool);
+    apr_status_t status = get_file_info(filename, &finfo, conf, NULL != stats, gc_pool);
 
     if (status != APR_SUCCESS) {
-        return status;
+        /* An entry that can't be examined (broken link, removed since it was listed) must not stop the whole scan. */
+        return (NULL != stats) ? APR_SUCCESS : status;
     }
     if (conf->respect_gitignore && parent_ctx && ft_ignore_match(parent_ctx, filename, finfo.filetype == APR_DIR) == FT_IGNORE_MATCH_IGNORED) {
         return APR_SUCCESS;
@@ -165,7 +179,14 @@ static apr_status_t traverse_recursive(ft_conf_t *conf, const char *filename, ap
     }
 
     if (finfo.filetype == APR_DIR) {
-        return process_directory(filename, conf, gc_pool, stats, parent_ctx);
+        struct stats self;
+
+        if (is_directory_loop(&finfo, stats)) {
+            return APR_SUCCESS;
+        }
+        self.parent = stats;
+        self.stat = finfo;
+        return process_directory(filename, conf, gc_pool, &self, parent_ctx);
     }
     /* The whitelist selects files: a directory is entered whatever its own name is. */
     if (stats != NULL && conf->wl_regex) {
-- 
2.43.0


From b80ab4d6e2a9f111dc6c55a5b1c90c21efa13129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:10 +0000
Subject: [PATCH 14/53] fix: honour --no-recurse for followed links to
 directories

---
 src/ft_traverse.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ft_traverse.c b/src/ft_traverse.c
index 78f5db5..1232704 100644
--- a/src/ft_traverse.c
+++ b/src/ft_traverse.c
@@ -181,6 +181,10 @@ static apr_status_t traverse_recursive(ft_conf_t *conf, const char *filename, ap
     if (finfo.filetype == APR_DIR) {
         struct stats self;
 
+        /* With -f, a link to a directory is only known as a directory here. */
+        if (stats != NULL && !is_option_set(conf->mask, OPTION_RECSD)) {
+            return APR_SUCCESS;
+        }
         if (is_directory_loop(&finfo, stats)) {
             return APR_SUCCESS;
         }
-- 
2.43.0


From 496646f9504e2ccfd943e24a7169ae735457f2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:21 +0000
Subject: [PATCH 15/53] fix: apply the default ignore patterns below every path
 given on the command line

They were matched against the path from the filesystem root: a relative
argument got no default ignores, and an absolute one below a directory named,
say, build was skipped as a whole.
---
 src/ft_traverse.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ft_traverse.c b/src/ft_traverse.c
index 1232704..c064da7 100644
--- a/src/ft_traverse.c
+++ b/src/ft_traverse.c
@@ -171,7 +171,7 @@ static apr_status_t traverse_recursive(ft_conf_t *conf, const char *filename, ap
         /* An entry that can't be examined (broken link, removed since it was listed) must not stop the whole scan. */
         return (NULL != stats) ? APR_SUCCESS : status;
     }
-    if (conf->respect_gitignore && parent_ctx && ft_ignore_match(parent_ctx, filename, finfo.filetype == APR_DIR) == FT_IGNORE_MATCH_IGNORED) {
+    if (stats != NULL && conf->respect_gitignore && parent_ctx && ft_ignore_match(parent_ctx, filename, finfo.filetype == APR_DIR) == FT_IGNORE_MATCH_IGNORED) {
         return APR_SUCCESS;
     }
     if (check_permissions(&finfo, conf) != APR_SUCCESS) {
@@ -209,6 +209,7 @@ static apr_status_t traverse_recursive(ft_conf_t *conf, const char *filename, ap
 apr_status_t ft_traverse_path(ft_conf_t *conf, const char *path)
 {
     apr_pool_t *gc_pool = NULL;
+    ft_ignore_context_t *root_ctx = NULL;
     apr_status_t status = APR_SUCCESS;
 
     status = apr_pool_create(&gc_pool, conf->pool);
@@ -218,7 +219,11 @@ apr_status_t ft_traverse_path(ft_conf_t *conf, const char *path)
         return status;
     }
 
-    status = traverse_recursive(conf, path, gc_pool, NULL, conf->global_ignores);
+    /* Default ignores are relative to the argument, whether it is an absolute path or not. */
+    root_ctx = ft_ignore_context_create(gc_pool, NULL, path);
+    root_ctx->patterns = conf->global_ignores->patterns;
+
+    status = traverse_recursive(conf, path, gc_pool, NULL, root_ctx);
 
     apr_pool_destroy(gc_pool);
 
-- 
2.43.0


From ef3c0ca566cd5482cd96b0456beba930e5257220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:22 +0000
Subject: [PATCH 16/53] fix: let a nested .gitignore override the patterns of
 the directories above

---
 src/ft_ignore.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index 823cb51..32196bd 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -436,6 +436,11 @@ ft_ignore_match_result_t ft_ignore_match(ft_ignore_context_t *ctx, const char *f
                 /* Don't break - continue checking for later patterns */
             }
         }
+
+        /* The patterns of a directory override those of the directories above */
+        if (result != FT_IGNORE_MATCH_NONE) {
+            break;
+        }
     }
 
     return result;
-- 
2.43.0


From cf686400951a0a3e15fc4223493a512240332532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:47 +0000
Subject: [PATCH 17/53] fix: size the regex of an ignore pattern by the pattern

A long pattern with wildcards overflowed the fixed-size buffer.
---
 src/ft_ignore.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index 32196bd..b505c96 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -39,6 +39,18 @@ enum
  */
 static const size_t MAX_PATTERN_LEN = 4096;
 
+/**
+ * @brief Bounds of the size of the regex of a pattern.
+ *
+ * No glob character is converted to more than MAX_PCRE_EXPANSION characters and
+ * MAX_PCRE_ANCHORS_LEN covers the anchors and the terminating NUL.
+ */
+enum
+{
+    MAX_PCRE_EXPANSION = 8,
+    MAX_PCRE_ANCHORS_LEN = 16
+};
+
 /**
  * Convert Git glob pattern to PCRE regex
  * Handles: *, **, ?, [abc], !, /, escapes
@@ -273,7 +285,7 @@ static void convert_glob_body_to_pcre(const char **pattern_cursor, char **result
 
 static char *ft_glob_to_pcre(const char *pattern, apr_pool_t *pool, unsigned int *flags)
 {
-    char *result = apr_pcalloc(pool, MAX_PATTERN_LEN);
+    char *result = apr_pcalloc(pool, strlen(pattern) * MAX_PCRE_EXPANSION + MAX_PCRE_ANCHORS_LEN);
     char *result_cursor = result;
     struct pcre_anchor_params_t anchor_params = { 0 };
     const char *pattern_cursor = handle_negation_and_slashes(pattern, flags, &anchor_params.starts_with_slash);
-- 
2.43.0


From 5e8db717dbe11dadb334ddec92f25b87cb5e97bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:18 +0000
Subject: [PATCH 18/53] fix: anchor ignore patterns with a slash in the middle,
 ignore trailing spaces

Git matches such patterns against the path relative to the .gitignore only,
and drops unquoted trailing spaces; 'dir/ ' never matched. A pattern without
a name made the parser read before its first character.
---
 src/ft_ignore.c | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index b505c96..0dfd387 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -96,12 +96,15 @@ static const char *handle_negation_and_slashes(const char *pattern, unsigned int
     }
 
     /* Handle directory-only: Check for a trailing '/' */
-    const char *end = pattern_cursor + strlen(pattern_cursor) - 1;
-    while (end > pattern_cursor && isspace((unsigned char) *end)) {
+    const char *end = pattern_cursor + strlen(pattern_cursor);
+    if (end > pattern_cursor && *(end - 1) == '/') {
+        *flags |= FT_IGNORE_DIR_ONLY;
         end--;
     }
-    if (*end == '/') {
-        *flags |= FT_IGNORE_DIR_ONLY;
+
+    /* A slash in the middle of the pattern anchors it too */
+    if (memchr(pattern_cursor, '/', (size_t) (end - pattern_cursor)) != NULL) {
+        *starts_with_slash = 1;
     }
 
     return pattern_cursor;
@@ -327,7 +330,9 @@ ft_ignore_context_t *ft_ignore_context_create(apr_pool_t *pool, ft_ignore_contex
 
 apr_status_t ft_ignore_add_pattern_str(ft_ignore_context_t *ctx, const char *pattern_str)
 {
-    const char *trimmed = NULL;
+    char *trimmed = NULL;
+    const char *name = NULL;
+    char *end = NULL;
     unsigned int flags = 0;
     char *regex_str = NULL;
     pcre *regex = NULL;
@@ -336,16 +341,27 @@ apr_status_t ft_ignore_add_pattern_str(ft_ignore_context_t *ctx, const char *pat
     ft_ignore_pattern_t *pattern = NULL;
 
     /* Trim whitespace */
-    trimmed = pattern_str;
-    while (isspace(*trimmed)) {
+    trimmed = apr_pstrdup(ctx->pool, pattern_str);
+    while (isspace((unsigned char) *trimmed)) {
         trimmed++;
     }
+    /* Trailing spaces are ignored, unless quoted with a backslash */
+    end = trimmed + strlen(trimmed);
+    while (end > trimmed && *(end - 1) == ' ' && !(end - trimmed > 1 && *(end - 2) == '\\')) {
+        *--end = '\0';
+    }
 
     /* Skip empty lines and comments */
     if (*trimmed == '\0' || *trimmed == '#') {
         return APR_SUCCESS;
     }
 
+    /* A pattern without a name ("!", "/", "!/") matches nothing */
+    name = trimmed + (*trimmed == '!' ? 1 : 0);
+    if (name[strspn(name, "/")] == '\0') {
+        return APR_SUCCESS;
+    }
+
     /* Convert glob to regex */
     regex_str = ft_glob_to_pcre(trimmed, ctx->pool, &flags);
 
-- 
2.43.0


From 679bdedb1b5423a2f04f28a9b8116a6863e51f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:39 +0000
Subject: [PATCH 19/53] fix: convert escapes and character classes of ignore
 patterns as Git reads them

An escaped letter became a regex class, a negated class matched a slash, a
wildcard stopped at a newline, a directory pattern also matched everything
below the directory (defeating a later negation), and '**/' matched nothing.
---
 src/ft_ignore.c | 43 +++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index 0dfd387..b6718be 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -126,6 +126,20 @@ static void append_pcre_sequence(char **cursor, const char *sequence)
     *cursor += strlen(sequence);
 }
 
+/**
+ * @brief Appends a character that stands for itself, escaped if PCRE could give it another meaning.
+ *
+ * @param cursor A pointer to the current position in the result buffer.
+ * @param literal The character to append.
+ */
+static void append_literal(char **cursor, char literal)
+{
+    if (ispunct((unsigned char) literal)) {
+        *(*cursor)++ = '\\';
+    }
+    *(*cursor)++ = literal;
+}
+
 /**
  * @brief Sets the start and end anchors for the PCRE regex.
  *
@@ -172,7 +186,7 @@ static void handle_star(const char **pattern_cursor, char **result_cursor)
 {
     if (*(*pattern_cursor + 1) == '*') {
         /* Double star: ** */
-        if (*(*pattern_cursor + 2) == '/') {
+        if (*(*pattern_cursor + 2) == '/' && *(*pattern_cursor + 3) != '\0') {
             /* * *//* pattern: matches zero or more directory levels */
             append_pcre_sequence(result_cursor, "(.*/)?");
             *pattern_cursor += 3;
@@ -211,7 +225,7 @@ static void handle_question_mark(const char **pattern_cursor, char **result_curs
 static void handle_char_class(const char **pattern_cursor, char **result_cursor)
 {
     char *cursor = *result_cursor;
-    *cursor++ = '[';
+    append_pcre_sequence(&cursor, "(?!/)[");    /* A wildcard never matches a slash */
     (*pattern_cursor)++;        // Move past opening `[`
 
     if (**pattern_cursor == '!' || **pattern_cursor == '^') {
@@ -221,10 +235,13 @@ static void handle_char_class(const char **pattern_cursor, char **result_cursor)
 
     while (**pattern_cursor && **pattern_cursor != ']') {
         if (**pattern_cursor == '\\' && *(*pattern_cursor + 1)) {
-            *cursor++ = '\\';
             (*pattern_cursor)++;
+            append_literal(&cursor, **pattern_cursor);
+        }
+        else {
+            *cursor++ = **pattern_cursor;
         }
-        *cursor++ = *(*pattern_cursor)++;
+        (*pattern_cursor)++;
     }
 
     if (**pattern_cursor == ']') {
@@ -256,10 +273,7 @@ static void convert_glob_body_to_pcre(const char **pattern_cursor, char **result
 
         if (**pattern_cursor == '\\' && *(*pattern_cursor + 1)) {
             /* Handle escaped characters */
-            char *cursor = *result_cursor;
-            *cursor++ = '\\';
-            *cursor++ = *(*pattern_cursor + 1);
-            *result_cursor = cursor;
+            append_literal(result_cursor, *(*pattern_cursor + 1));
             *pattern_cursor += 2;
         }
         else if (**pattern_cursor == '*') {
@@ -271,12 +285,9 @@ static void convert_glob_body_to_pcre(const char **pattern_cursor, char **result
         else if (**pattern_cursor == '[') {
             handle_char_class(pattern_cursor, result_cursor);
         }
-        else if (strchr(".^$+{}()|", **pattern_cursor)) {
+        else if (strchr("\\.^$+{}()|", **pattern_cursor)) {
             /* Escape PCRE metacharacters */
-            char *cursor = *result_cursor;
-            *cursor++ = '\\';
-            *cursor++ = **pattern_cursor;
-            *result_cursor = cursor;
+            append_literal(result_cursor, **pattern_cursor);
             (*pattern_cursor)++;
         }
         else {
@@ -303,8 +314,8 @@ static char *ft_glob_to_pcre(const char *pattern, apr_pool_t *pool, unsigned int
 
     /* Set end anchor */
     if (*flags & FT_IGNORE_DIR_ONLY) {
-        /* Match a directory with an optional trailing slash */
-        append_pcre_sequence(&result_cursor, "(/|$)");
+        /* Match the directory itself, with an optional trailing slash */
+        append_pcre_sequence(&result_cursor, "/?$");
     }
     else {
         /* Match the end of the string */
@@ -366,7 +377,7 @@ apr_status_t ft_ignore_add_pattern_str(ft_ignore_context_t *ctx, const char *pat
     regex_str = ft_glob_to_pcre(trimmed, ctx->pool, &flags);
 
     /* Compile regex */
-    regex = pcre_compile(regex_str, 0, &error, &erroffset, NULL);
+    regex = pcre_compile(regex_str, PCRE_DOLLAR_ENDONLY | PCRE_DOTALL, &error, &erroffset, NULL);
     if (!regex) {
         DEBUG_ERR("Failed to compile pattern '%s': %s", trimmed, error);
         return APR_EGENERAL;
-- 
2.43.0


From 0d468200a8a7ac37674c3e74520d5b82c74e5f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:03 +0000
Subject: [PATCH 20/53] fix: compare files of different lengths as different
 when they are read by chunks

A short read, a read error or a file that changed size since it was listed
ended the comparison with the result of the previous chunk, or none at all.
---
 src/ft_file.c | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/ft_file.c b/src/ft_file.c
index 9cd27c6..44f46bc 100644
--- a/src/ft_file.c
+++ b/src/ft_file.c
@@ -179,7 +179,7 @@ static apr_status_t small_filecmp(apr_pool_t *pool, const char *fname1, const ch
     status = apr_mmap_create(&mm2, fd2, 0, size, APR_MMAP_READ, pool);
     if (APR_SUCCESS != status) {
         (void) apr_file_close(fd2);
-        (void) apr_file_close(fd2);
+        (void) apr_mmap_delete(mm1);
         (void) apr_file_close(fd1);
         return big_filecmp(pool, fname1, fname2, size, result_out);
     }
@@ -234,8 +234,8 @@ static apr_status_t big_filecmp(apr_pool_t *pool, const char *fname1, const char
     apr_status_t status1 = APR_SUCCESS;
     apr_status_t status2 = APR_SUCCESS;
 
+    *result_out = 0;
     if (0 == size) {
-        *result_out = 0;
         return APR_SUCCESS;
     }
 
@@ -251,19 +251,21 @@ static apr_status_t big_filecmp(apr_pool_t *pool, const char *fname1, const char
     }
 
     do {
-        rbytes1 = HUGE_LEN;
-        status1 = apr_file_read(fd1, data_chunk1, &rbytes1);
-        rbytes2 = rbytes1;
-        status2 = apr_file_read(fd2, data_chunk2, &rbytes2);
-        if ((APR_SUCCESS == status1) && (APR_SUCCESS == status2) && (rbytes2 == rbytes1)) {
-            *result_out = memcmp(data_chunk1, data_chunk2, rbytes1);
+        /* Only a full read tells where each file ends */
+        status1 = apr_file_read_full(fd1, data_chunk1, HUGE_LEN, &rbytes1);
+        status2 = apr_file_read_full(fd2, data_chunk2, HUGE_LEN, &rbytes2);
+        if ((APR_SUCCESS != status1 && APR_EOF != status1) || (APR_SUCCESS != status2 && APR_EOF != status2)) {
+            break;
         }
-    } while ((APR_SUCCESS == status1) && (APR_SUCCESS == status2) && (0 == *result_out) && (rbytes2 == rbytes1));
+        *result_out = (rbytes1 != rbytes2) ? 1 : memcmp(data_chunk1, data_chunk2, rbytes1);
+    } while ((APR_SUCCESS == status1) && (APR_SUCCESS == status2) && (0 == *result_out));
 
-    if ((APR_EOF != status1) && (APR_EOF != status2) && (0 == *result_out)) {
+    if ((APR_SUCCESS != status1 && APR_EOF != status1) || (APR_SUCCESS != status2 && APR_EOF != status2)) {
         DEBUG_ERR("1:unable to read %s (%" APR_SIZE_T_FMT "): %s", fname1, rbytes1, apr_strerror(status1, errbuf, sizeof(errbuf)));
         DEBUG_ERR("2:unable to read %s (%" APR_SIZE_T_FMT "): %s", fname2, rbytes2, apr_strerror(status2, errbuf, sizeof(errbuf)));
-        return status1;
+        (void) apr_file_close(fd2);
+        (void) apr_file_close(fd1);
+        return (APR_SUCCESS != status1 && APR_EOF != status1) ? status1 : status2;
     }
 
     status1 = apr_file_close(fd2);
-- 
2.43.0


From fbcd5c09040170e17831136a9bfe4e1ce925195d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:16 +0000
Subject: [PATCH 21/53] fix: don't map a file that changed size since it was
 listed

Reading the mapping of a truncated file raised SIGBUS, and of a file that
grew only the first bytes were hashed and compared.
---
 src/ft_file.c | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/ft_file.c b/src/ft_file.c
index 44f46bc..13143aa 100644
--- a/src/ft_file.c
+++ b/src/ft_file.c
@@ -43,6 +43,20 @@ static apr_status_t big_filecmp(apr_pool_t *pool, const char *fname1, const char
  */
 static const size_t HUGE_LEN = 64L * 1024L;
 
+/**
+ * @brief Tells if an open file can be mapped for its expected size.
+ *
+ * A file that changed size since it was listed must not be: reading a mapping
+ * beyond the end of the file raises SIGBUS, and the bytes after the expected
+ * size would not be looked at.
+ */
+static int has_expected_size(apr_file_t *file, apr_off_t size)
+{
+    apr_finfo_t finfo;
+
+    return APR_SUCCESS == apr_file_info_get(&finfo, APR_FINFO_SIZE, file) && finfo.size == size;
+}
+
 static apr_status_t checksum_small_file(const char *filename, apr_off_t size, ft_hash_t *hash_out, apr_pool_t *gc_pool)
 {
     char errbuf[CHAR_MAX_VAL];
@@ -56,7 +70,10 @@ static apr_status_t checksum_small_file(const char *filename, apr_off_t size, ft
         return status;
     }
 
-    status = apr_mmap_create(&memory_map, file_descriptor, 0, (apr_size_t) size, APR_MMAP_READ, gc_pool);
+    status = APR_EGENERAL;
+    if (has_expected_size(file_descriptor, size)) {
+        status = apr_mmap_create(&memory_map, file_descriptor, 0, (apr_size_t) size, APR_MMAP_READ, gc_pool);
+    }
     if (APR_SUCCESS != status) {
         (void) apr_file_close(file_descriptor);
         return checksum_big_file(filename, size, hash_out, gc_pool);
@@ -163,7 +180,10 @@ static apr_status_t small_filecmp(apr_pool_t *pool, const char *fname1, const ch
         return status;
     }
 
-    status = apr_mmap_create(&mm1, fd1, 0, (apr_size_t) size, APR_MMAP_READ, pool);
+    status = APR_EGENERAL;
+    if (has_expected_size(fd1, size)) {
+        status = apr_mmap_create(&mm1, fd1, 0, (apr_size_t) size, APR_MMAP_READ, pool);
+    }
     if (APR_SUCCESS != status) {
         (void) apr_file_close(fd1);
         return big_filecmp(pool, fname1, fname2, size, result_out);
@@ -176,7 +196,10 @@ static apr_status_t small_filecmp(apr_pool_t *pool, const char *fname1, const ch
         return status;
     }
 
-    status = apr_mmap_create(&mm2, fd2, 0, size, APR_MMAP_READ, pool);
+    status = APR_EGENERAL;
+    if (has_expected_size(fd2, size)) {
+        status = apr_mmap_create(&mm2, fd2, 0, size, APR_MMAP_READ, pool);
+    }
     if (APR_SUCCESS != status) {
         (void) apr_file_close(fd2);
         (void) apr_mmap_delete(mm1);
-- 
2.43.0


From 7fddc01597b916fddb4e1b3d7c7aba32b78351b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:18 +0000
Subject: [PATCH 22/53] fix: report files whose comparison with another twin
 failed without crashing

When a file became unreadable while its twins were compared, a file that was
already reported was compared again through a null pointer. The hash of a file
that could not be read was left uninitialised.
---
 src/ft_process.c     | 2 +-
 src/ft_report.c      | 3 +++
 src/ft_report_json.c | 3 +++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ft_process.c b/src/ft_process.c
index b53cfe6..e738aa0 100644
--- a/src/ft_process.c
+++ b/src/ft_process.c
@@ -144,7 +144,7 @@ static apr_status_t categorize_files(ft_conf_t *conf, napr_heap_t *tmp_heap, apr
             }
             else {
                 if (NULL == fsize->chksum_array) {
-                    fsize->chksum_array = apr_palloc(conf->pool, fsize->nb_files * sizeof(struct ft_chksum_t));
+                    fsize->chksum_array = apr_pcalloc(conf->pool, fsize->nb_files * sizeof(struct ft_chksum_t));
                 }
 
                 fsize->chksum_array[fsize->nb_checksumed].file = file;
diff --git a/src/ft_report.c b/src/ft_report.c
index a4099e4..fe279cb 100644
--- a/src/ft_report.c
+++ b/src/ft_report.c
@@ -81,6 +81,9 @@ static apr_status_t process_and_report_duplicates_for_file(ft_conf_t *conf, ft_f
     }
 
     for (j_index = index + 1; j_index < fsize->nb_files; j_index++) {
+        if (NULL == fsize->chksum_array[j_index].file) {
+            continue;           /* Already reported as a duplicate of another file */
+        }
         /* If hashes match, perform a full comparison */
         if (0 == memcmp(&fsize->chksum_array[index].hash_value, &fsize->chksum_array[j_index].hash_value, sizeof(ft_hash_t))) {
             if (compare_and_report_pair(conf, fsize, index, j_index, &already_printed, colors) != APR_SUCCESS) {
diff --git a/src/ft_report_json.c b/src/ft_report_json.c
index b58eb61..0664560 100644
--- a/src/ft_report_json.c
+++ b/src/ft_report_json.c
@@ -144,6 +144,9 @@ static apr_status_t find_and_report_duplicates(ft_conf_t *conf, ft_fsize_t *fsiz
         json_t *duplicates_array = NULL;
 
         for (size_t j = i + 1; j < fsize->nb_files; j++) {
+            if (fsize->chksum_array[j].file == NULL) {
+                continue;       /* Already reported as a duplicate of another file */
+            }
             if (memcmp(&fsize->chksum_array[i].hash_value, &fsize->chksum_array[j].hash_value, sizeof(ft_hash_t)) == 0) {
                 status = perform_file_comparison(conf, &fsize->chksum_array[i], &fsize->chksum_array[j], fsize->val, &result);
                 if (status != APR_SUCCESS) {
-- 
2.43.0


From c9b6feebde57826eda781e612aaa504db3d5c292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:41 +0000
Subject: [PATCH 23/53] fix: report paths that are not valid UTF-8 in JSON

Their entries came without a path.
---
 src/ft_report_json.c | 45 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/src/ft_report_json.c b/src/ft_report_json.c
index 0664560..9103d8b 100644
--- a/src/ft_report_json.c
+++ b/src/ft_report_json.c
@@ -42,6 +42,7 @@
 #include "napr_heap.h"
 
 #define EPOCH_YEAR_START 1900
+#define UTF8_MAX_CHAR_LEN 4
 
 /* Formats apr_time_t to ISO 8601 UTC string (YYYY-MM-DDTHH:MM:SSZ). */
 static const char *ft_format_time_iso8601_utc(apr_time_t time_value, apr_pool_t *pool)
@@ -61,15 +62,55 @@ static char *ft_hash_to_hex(ft_hash_t hash, apr_pool_t *pool)
     return apr_psprintf(pool, "%016" APR_UINT64_T_HEX_FMT "%016" APR_UINT64_T_HEX_FMT, hash.high64, hash.low64);
 }
 
+/*
+ * Converts a path to a JSON string. File names are not always valid UTF-8, which
+ * JSON strings have to be: invalid bytes become U+FFFD REPLACEMENT CHARACTER.
+ */
+static json_t *ft_path_to_json(const char *path, apr_pool_t *pool)
+{
+    static const char replacement[] = "\xEF\xBF\xBD";
+    json_t *result = json_string(path);
+    size_t length = strlen(path);
+
+    if (result == NULL) {
+        char *buffer = apr_palloc(pool, length * (sizeof(replacement) - 1) + 1);
+        char *cursor = buffer;
+
+        while (length > 0) {
+            size_t char_len = 1;
+            json_t *utf8_char = json_stringn(path, char_len);
+
+            while (utf8_char == NULL && char_len < UTF8_MAX_CHAR_LEN && char_len < length) {
+                utf8_char = json_stringn(path, ++char_len);
+            }
+            if (utf8_char != NULL) {
+                memcpy(cursor, path, char_len);
+                cursor += char_len;
+                json_decref(utf8_char);
+            }
+            else {
+                memcpy(cursor, replacement, sizeof(replacement) - 1);
+                cursor += sizeof(replacement) - 1;
+                char_len = 1;
+            }
+            path += char_len;
+            length -= char_len;
+        }
+        *cursor = '\0';
+        result = json_string(buffer);
+    }
+    return result;
+}
+
 /* Helper to create a JSON object for a file entry */
 static json_t *create_file_json_object(ft_file_t *file, ft_conf_t *conf)
 {
     json_t *obj = json_object();
     const char *mtime_str = ft_format_time_iso8601_utc(file->mtime, conf->pool);
 
-    json_object_set_new(obj, "path", json_string(file->path));
+    json_object_set_new(obj, "path", ft_path_to_json(file->path, conf->pool));
     if (is_option_set(conf->mask, OPTION_UNTAR)) {
-        json_object_set_new(obj, "archive_subpath", file->subpath ? json_string(file->subpath) : json_null());
+        json_object_set_new(obj, "archive_subpath", file->subpath ? ft_path_to_json(file->subpath, conf->pool) : json_null());
     }
     json_object_set_new(obj, "mtime_utc", json_string(mtime_str));
     json_object_set_new(obj, "prioritized", json_boolean(file->prioritized));
-- 
2.43.0


From f5ba62906608a85942b45983407ea0720f6205fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:00 +0000
Subject: [PATCH 24/53] fix: reject sizes that can't be represented, accept the
 B suffix

Converting such a size (1e30, inf, nan) to an integer is undefined behaviour;
-5e-1 was taken as 0. The documented B suffix was refused.
---
 src/human_size.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/human_size.c b/src/human_size.c
index 896ce35..703082f 100644
--- a/src/human_size.c
+++ b/src/human_size.c
@@ -15,6 +15,7 @@ static const apr_off_t KIBIBYTE = 1024LL;
 static const apr_off_t MEBIBYTE = 1024LL * 1024LL;
 static const apr_off_t GIBIBYTE = 1024LL * 1024LL * 1024LL;
 static const apr_off_t TEBIBYTE = 1024LL * 1024LL * 1024LL * 1024LL;
+static const double MAX_SIZE = 9223372036854775808.0;   /* 2^63, the first size an apr_off_t can't hold */
 
 const char *format_human_size(apr_off_t size, apr_pool_t *pool)
 {
@@ -62,10 +63,17 @@ apr_off_t parse_human_size(const char *size_str)
         case 'K':
             multiplier = KIBIBYTE;
             break;
+        case 'B':
+            break;
         default:
             return -1;          // Invalid suffix
         }
     }
 
-    return (apr_off_t) (size * (double) multiplier);
+    size *= (double) multiplier;
+    if (!(size >= 0.0 && size < MAX_SIZE)) {
+        return -1;              // Negative, not representable or not a number
+    }
+
+    return (apr_off_t) size;
 }
-- 
2.43.0


From 3f8df7db813db05feaa3cbbe5a257b18c1ef30d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:25 +0000
Subject: [PATCH 25/53] fix: wait for the end of processing in
 napr_threadpool_wait whatever wakes it up

A spurious wakeup made it return, and drop the queue, with tasks pending;
a second call could wait for a broadcast that never comes.
---
 src/napr_threadpool.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/napr_threadpool.c b/src/napr_threadpool.c
index f464623..b526b1c 100644
--- a/src/napr_threadpool.c
+++ b/src/napr_threadpool.c
@@ -290,10 +290,13 @@ extern apr_status_t napr_threadpool_wait(napr_threadpool_t *threadpool)
          */
         threadpool->run |= 0x1;
 
-        status = apr_thread_cond_wait(threadpool->threadpool_update, threadpool->threadpool_mutex);
-        if (APR_SUCCESS != status) {
-            DEBUG_ERR("error calling apr_thread_cond_wait: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
-            return status;
+        /* A condition variable may wake up without the end of processing having been signaled. */
+        while (!(threadpool->ended & 0x1)) {
+            status = apr_thread_cond_wait(threadpool->threadpool_update, threadpool->threadpool_mutex);
+            if (APR_SUCCESS != status) {
+                DEBUG_ERR("error calling apr_thread_cond_wait: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
+                return status;
+            }
         }
         /* DEBUG_DBG("Awake"); */
         /* Because all data have been processed, we are no more running  */
-- 
2.43.0


From e5d31215fe85f8ba94d6a76b045715a5168d276e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:37 +0000
Subject: [PATCH 26/53] fix: unlock the heap when a reentrant insertion fails

---
 src/napr_heap.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/napr_heap.c b/src/napr_heap.c
index 2e1e723..5d4f478 100644
--- a/src/napr_heap.c
+++ b/src/napr_heap.c
@@ -237,9 +237,12 @@ int napr_heap_insert_r(napr_heap_t *heap, void *datum)
     if (1 == heap->mutex_set) {
         return_code = apr_thread_mutex_lock(heap->mutex);
         if (APR_SUCCESS == return_code) {
+            int unlock_status = 0;
+
             return_code = napr_heap_insert(heap, datum);
+            unlock_status = apr_thread_mutex_unlock(heap->mutex);
             if (0 == return_code) {
-                return_code = apr_thread_mutex_unlock(heap->mutex);
+                return_code = unlock_status;
             }
         }
         else {
-- 
2.43.0


From 842e8ef534d1718f970976ff23dc05bed2cfa494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:37 +0000
Subject: [PATCH 27/53] fix: release the archive and the umask when an
 extraction fails

An entry without a name was also compared through a null pointer.
---
 src/ft_archive.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/ft_archive.c b/src/ft_archive.c
index bf5d8ea..5aaf89d 100644
--- a/src/ft_archive.c
+++ b/src/ft_archive.c
@@ -80,22 +80,26 @@ char *ft_archive_untar_file(ft_file_t *file, apr_pool_t *pool)
     result_value = archive_read_support_filter_all(archive_handle);
     if (0 != result_value) {
         DEBUG_ERR("error calling archive_read_support_filter_all(): %s", archive_error_string(archive_handle));
+        archive_read_free(archive_handle);
         return NULL;
     }
     result_value = archive_read_support_format_all(archive_handle);
     if (0 != result_value) {
         DEBUG_ERR("error calling archive_read_support_format_all(): %s", archive_error_string(archive_handle));
+        archive_read_free(archive_handle);
         return NULL;
     }
     result_value = archive_read_open_filename(archive_handle, file->path, ARCHIVE_BLOCK_SIZE);
     if (0 != result_value) {
         DEBUG_ERR("error calling archive_read_open_filename(%s): %s", file->path, archive_error_string(archive_handle));
+        archive_read_free(archive_handle);
         return NULL;
     }
 
     ext = archive_write_disk_new();
     if (NULL == ext) {
         DEBUG_ERR("error calling archive_write_disk_new()");
+        archive_read_free(archive_handle);
         return NULL;
     }
 
@@ -103,14 +107,15 @@ char *ft_archive_untar_file(ft_file_t *file, apr_pool_t *pool)
         result_value = archive_read_next_header(archive_handle, &entry);
         if (result_value == ARCHIVE_EOF) {
             DEBUG_ERR("subpath [%s] not found in archive [%s]", file->subpath, file->path);
-            return NULL;
+            break;
         }
         if (result_value != ARCHIVE_OK) {
             DEBUG_ERR("error in archive (%s): %s", file->path, archive_error_string(archive_handle));
-            return NULL;
+            break;
         }
 
-        if (!strcmp(file->subpath, archive_entry_pathname(entry))) {
+        const char *pathname = archive_entry_pathname(entry);
+        if (NULL != pathname && !strcmp(file->subpath, pathname)) {
             mode_t current_mode = umask(S_IRWXG | S_IRWXO);
 
             /*
@@ -122,7 +127,9 @@ char *ft_archive_untar_file(ft_file_t *file, apr_pool_t *pool)
             result_value = mkstemp(tmpfile);
             if (result_value < 0) {
                 DEBUG_ERR("error creating tmpfile %s", tmpfile);
-                return NULL;
+                umask(current_mode);
+                tmpfile = NULL;
+                break;
             }
             umask(current_mode);
             close(result_value);
@@ -135,13 +142,15 @@ char *ft_archive_untar_file(ft_file_t *file, apr_pool_t *pool)
                 if (result_value != ARCHIVE_OK) {
                     DEBUG_ERR("error while copying data from archive (%s)", file->path);
                     (void) apr_file_remove(tmpfile, pool);
-                    return NULL;
+                    tmpfile = NULL;
+                    break;
                 }
             }
             else {
                 DEBUG_ERR("error in archive (%s): %s", file->path, archive_error_string(archive_handle));
                 (void) apr_file_remove(tmpfile, pool);
-                return NULL;
+                tmpfile = NULL;
+                break;
             }
 
             break;
-- 
2.43.0


From dd480dbbb8c111b3d61ce99f403fac3aee776b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:58 +0000
Subject: [PATCH 28/53] fix: add a repeated name of the ignore list once

The hash table grew without end, until memory was exhausted, when a name was
given eight times.
---
 src/ft_config.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ft_config.c b/src/ft_config.c
index 3c0e8ee..7adf046 100644
--- a/src/ft_config.c
+++ b/src/ft_config.c
@@ -155,8 +155,9 @@ static void ft_hash_add_ignore_list(napr_hash_t *hash, const char *file_list)
         else {
             tmp = apr_pstrdup(pool, filename);
         }
-        napr_hash_search(hash, tmp, strlen(tmp), &hash_value);
-        napr_hash_set(hash, tmp, hash_value);
+        if (NULL == napr_hash_search(hash, tmp, strlen(tmp), &hash_value)) {
+            napr_hash_set(hash, tmp, hash_value);
+        }
 
         if (NULL != end) {
             filename = end + 1;
-- 
2.43.0


From 1902e6877d4ff29c88b7d4f7032e674b578a8d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:40 +0000
Subject: [PATCH 29/53] fix: refuse command lines with an unknown option or a
 missing argument

---
 src/ft_config.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ft_config.c b/src/ft_config.c
index 7adf046..fd1e024 100644
--- a/src/ft_config.c
+++ b/src/ft_config.c
@@ -620,6 +620,12 @@ apr_status_t ft_config_parse_args(ft_conf_t *conf, int argc, const char **argv,
         }
     }
 
+    /* An unknown option or a missing argument (apr_getopt_long tells which): the options after it were not read. */
+    if (APR_EOF != status) {
+        print_usage_and_exit(argv[0], opt_option, NULL, NULL);
+        return status;
+    }
+
     if (argc - opt_state->ind < 1) {
         print_usage_and_exit(argv[0], opt_option, "Please submit at least one file or directory to process.", "");
         return APR_EGENERAL;
-- 
2.43.0


From e0f62fefa9a6fdf68cb11907f499c04354c9b131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:06 +0000
Subject: [PATCH 30/53] fix: extract from archives in which another entry's
 name cannot be converted

---
 src/ft_archive.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ft_archive.c b/src/ft_archive.c
index 5aaf89d..e0c7b99 100644
--- a/src/ft_archive.c
+++ b/src/ft_archive.c
@@ -109,7 +109,8 @@ char *ft_archive_untar_file(ft_file_t *file, apr_pool_t *pool)
             DEBUG_ERR("subpath [%s] not found in archive [%s]", file->subpath, file->path);
             break;
         }
-        if (result_value != ARCHIVE_OK) {
+        /* A warning leaves the entry usable, e.g. when a name of the archive has no representation in the current locale. */
+        if (result_value != ARCHIVE_OK && result_value != ARCHIVE_WARN) {
             DEBUG_ERR("error in archive (%s): %s", file->path, archive_error_string(archive_handle));
             break;
         }
-- 
2.43.0


From cca76d26e500fcac86d2e7db39d2d79dea3596a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:22 +0000
Subject: [PATCH 31/53] fix: a report that could not be written completely
 passed for a success

---
 src/ftwin.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ftwin.c b/src/ftwin.c
index a55bf00..8e7a3f7 100644
--- a/src/ftwin.c
+++ b/src/ftwin.c
@@ -126,6 +126,12 @@ static apr_status_t run_ftwin_processing(ft_conf_t *conf, int argc, const char *
         return APR_EINVAL;
     }
 
+    /* A report that could not be written completely must not pass for a success. */
+    if (APR_SUCCESS == status && (fflush(stdout) != 0 || ferror(stdout))) {
+        (void) fprintf(stderr, "Error: failed to write the report to stdout.\n");
+        status = APR_EGENERAL;
+    }
+
     apr_pool_destroy(gc_pool);
     return status;
 }
-- 
2.43.0


From 1243cc0068c9e276afaf286aa76a0196d45db7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:16 +0000
Subject: [PATCH 32/53] fix: a worker pool that cannot get all its threads left
 the others waiting for ever

When the creation of a thread fails (a limit is reached), the workers created
before kept waiting on a condition whose memory is then released: the program
hung or touched freed memory. End and join them before reporting the failure.
---
 src/napr_threadpool.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/napr_threadpool.c b/src/napr_threadpool.c
index b526b1c..ad60628 100644
--- a/src/napr_threadpool.c
+++ b/src/napr_threadpool.c
@@ -235,6 +235,11 @@ extern apr_status_t napr_threadpool_init(napr_threadpool_t **threadpool, void *c
         status = apr_thread_create(&((*threadpool)->thread[idx]), NULL, napr_threadpool_loop, (*threadpool), (*threadpool)->pool);
         if (APR_SUCCESS != status) {
             DEBUG_ERR("error calling apr_thread_create: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
+            /* End the threads that could be created: they must not outlive the pool */
+            (void) apr_thread_mutex_lock((*threadpool)->threadpool_mutex);
+            (*threadpool)->nb_thread = idx;
+            (void) apr_thread_mutex_unlock((*threadpool)->threadpool_mutex);
+            (void) napr_threadpool_shutdown(*threadpool);
             return status;
         }
     }
-- 
2.43.0


From 44e1e8876c52296540fe51550f8db2b1f4502df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:48 +0000
Subject: [PATCH 33/53] fix: stars that are not a whole component of an ignore
 pattern matched across directories

As in Git, "**" spans directories only between slashes or the ends of the
pattern: "a**b" and "x/**y" are "a*b" and "x/*y".
---
 src/ft_ignore.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index b6718be..317001c 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -179,29 +179,32 @@ static void set_pcre_anchors(char **result_cursor, const struct pcre_anchor_para
  * @brief Handles the conversion of a glob star (`*`) or double-star (`**`)
  * into its PCRE equivalent.
  *
+ * @param pattern_start The beginning of the glob pattern, behind its prefixes.
  * @param pattern_cursor A pointer to the current position in the glob pattern.
  * @param result_cursor A pointer to the current position in the result buffer.
  */
-static void handle_star(const char **pattern_cursor, char **result_cursor)
+static void handle_star(const char *pattern_start, const char **pattern_cursor, char **result_cursor)
 {
-    if (*(*pattern_cursor + 1) == '*') {
+    const char *after = *pattern_cursor + strspn(*pattern_cursor, "*");
+
+    /* Two stars or more span directories only if they are a whole component, else they are a single one */
+    if (after - *pattern_cursor > 1 && (*pattern_cursor == pattern_start || *(*pattern_cursor - 1) == '/') && (*after == '/' || *after == '\0')) {
         /* Double star: ** */
-        if (*(*pattern_cursor + 2) == '/' && *(*pattern_cursor + 3) != '\0') {
+        if (*after == '/' && *(after + 1) != '\0') {
             /* * *//* pattern: matches zero or more directory levels */
             append_pcre_sequence(result_cursor, "(.*/)?");
-            *pattern_cursor += 3;
+            after++;
         }
         else {
             /* ** at the end: matches everything */
             append_pcre_sequence(result_cursor, ".*");
-            *pattern_cursor += 2;
         }
     }
     else {
         /* Single star *: matches anything except a slash */
         append_pcre_sequence(result_cursor, "[^/]*");
-        *pattern_cursor += 1;
     }
+    *pattern_cursor = after;
 }
 
 /**
@@ -265,6 +268,8 @@ static void handle_char_class(const char **pattern_cursor, char **result_cursor)
  */
 static void convert_glob_body_to_pcre(const char **pattern_cursor, char **result_cursor, unsigned int flags)
 {
+    const char *pattern_start = *pattern_cursor;
+
     while (**pattern_cursor) {
         /* Stop if we hit a trailing slash for a directory-only pattern */
         if (**pattern_cursor == '/' && (flags & FT_IGNORE_DIR_ONLY) && *(*pattern_cursor + 1) == '\0') {
@@ -277,7 +282,7 @@ static void convert_glob_body_to_pcre(const char **pattern_cursor, char **result
             *pattern_cursor += 2;
         }
         else if (**pattern_cursor == '*') {
-            handle_star(pattern_cursor, result_cursor);
+            handle_star(pattern_start, pattern_cursor, result_cursor);
         }
         else if (**pattern_cursor == '?') {
             handle_question_mark(pattern_cursor, result_cursor);
-- 
2.43.0


From 473682a51a2f449f20d6bb843ccdbae717746756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:05 +0000
Subject: [PATCH 34/53] fix: brackets and named classes inside the character
 classes of ignore patterns

A closing bracket right at the beginning of a class is one of its members and
[:name:] does not end it, so that stars and question marks behind them belong
to the class too.
---
 src/ft_ignore.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index 317001c..bb1c858 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -236,11 +236,24 @@ static void handle_char_class(const char **pattern_cursor, char **result_cursor)
         (*pattern_cursor)++;
     }
 
-    while (**pattern_cursor && **pattern_cursor != ']') {
+    /* A bracket right at the beginning is a member, it does not close the class */
+    const char *first = *pattern_cursor;
+    while (**pattern_cursor && (**pattern_cursor != ']' || *pattern_cursor == first)) {
+        const char *close = (**pattern_cursor == '[' && *(*pattern_cursor + 1) == ':') ? strchr(*pattern_cursor + 2, ']') : NULL;
         if (**pattern_cursor == '\\' && *(*pattern_cursor + 1)) {
             (*pattern_cursor)++;
             append_literal(&cursor, **pattern_cursor);
         }
+        else if (close && close > *pattern_cursor + 2 && *(close - 1) == ':') {
+            /* A named class, [:alpha:] for instance */
+            while (*pattern_cursor < close) {
+                *cursor++ = *(*pattern_cursor)++;
+            }
+            *cursor++ = ']';
+        }
+        else if (**pattern_cursor == '[' || **pattern_cursor == ']') {
+            append_literal(&cursor, **pattern_cursor);
+        }
         else {
             *cursor++ = **pattern_cursor;
         }
-- 
2.43.0


From 2be9f5def2184bf438a5e4a83101362d95e3c52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:05 +0000
Subject: [PATCH 35/53] fix: a byte order mark made the first pattern of a
 .gitignore file match nothing

---
 src/ft_ignore.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index bb1c858..e2a8cd0 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -39,6 +39,11 @@ enum
  */
 static const size_t MAX_PATTERN_LEN = 4096;
 
+/**
+ * @brief The byte order mark some editors put at the beginning of a text file.
+ */
+static const char *const UTF8_BOM = "\xEF\xBB\xBF";
+
 /**
  * @brief Bounds of the size of the regex of a pattern.
  *
@@ -418,6 +423,7 @@ apr_status_t ft_ignore_load_file(ft_ignore_context_t *ctx, const char *filepath)
     apr_file_t *file = NULL;
     apr_status_t status = APR_SUCCESS;
     char line[MAX_PATTERN_LEN];
+    int is_first_line = 1;
 
     status = apr_file_open(&file, filepath, APR_READ, APR_OS_DEFAULT, ctx->pool);
     if (status != APR_SUCCESS) {
@@ -425,6 +431,12 @@ apr_status_t ft_ignore_load_file(ft_ignore_context_t *ctx, const char *filepath)
     }
 
     while (apr_file_gets(line, (int) sizeof(line), file) == APR_SUCCESS) {
+        /* A byte order mark at the beginning of the file is no part of its first pattern */
+        if (is_first_line && strncmp(line, UTF8_BOM, strlen(UTF8_BOM)) == 0) {
+            memmove(line, line + strlen(UTF8_BOM), strlen(line + strlen(UTF8_BOM)) + 1);
+        }
+        is_first_line = 0;
+
         /* Remove newline */
         apr_size_t len = strlen(line);
         if (len > 0 && line[len - 1] == '\n') {
-- 
2.43.0


From e61eaadf66cccc8d47c23a9595ed7f295c2aa230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:20 +0000
Subject: [PATCH 36/53] fix: the pieces of an overlong line of a .gitignore
 file were taken for patterns

A comment of more than 4095 bytes made its tail a pattern of its own.
---
 src/ft_ignore.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index e2a8cd0..aad84e2 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -424,13 +424,25 @@ apr_status_t ft_ignore_load_file(ft_ignore_context_t *ctx, const char *filepath)
     apr_status_t status = APR_SUCCESS;
     char line[MAX_PATTERN_LEN];
     int is_first_line = 1;
+    int is_partial = 0;
 
     status = apr_file_open(&file, filepath, APR_READ, APR_OS_DEFAULT, ctx->pool);
     if (status != APR_SUCCESS) {
         return status;
     }
 
-    while (apr_file_gets(line, (int) sizeof(line), file) == APR_SUCCESS) {
+    /* The last character of the buffer tells whether it was filled before the end of the line */
+    char *last = line + sizeof(line) - 2;
+    for (*last = '\n'; apr_file_gets(line, (int) sizeof(line), file) == APR_SUCCESS; *last = '\n') {
+        int was_partial = is_partial;
+
+        /* A line longer than any path: neither it nor its pieces are patterns */
+        is_partial = *last != '\n' && *last != '\0';
+        if (is_partial || was_partial) {
+            is_first_line = 0;
+            continue;
+        }
+
         /* A byte order mark at the beginning of the file is no part of its first pattern */
         if (is_first_line && strncmp(line, UTF8_BOM, strlen(UTF8_BOM)) == 0) {
             memmove(line, line + strlen(UTF8_BOM), strlen(line + strlen(UTF8_BOM)) + 1);
-- 
2.43.0


From f9dfa7f44a877875b76b4c2207d9591f3549f319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:03 +0000
Subject: [PATCH 37/53] fix: a worker pool that several threads wait on, or
 wait on while another adds, could hang

---
 src/napr_threadpool.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/napr_threadpool.c b/src/napr_threadpool.c
index ad60628..c32868b 100644
--- a/src/napr_threadpool.c
+++ b/src/napr_threadpool.c
@@ -163,6 +163,8 @@ struct napr_threadpool_t
     /* This mutex protects everything below in writing and reading */
     apr_thread_mutex_t *threadpool_mutex;
     apr_thread_cond_t *threadpool_update;
+    /* Apart from the one above, so that the signal of a new task never goes to a caller of napr_threadpool_wait */
+    apr_thread_cond_t *threadpool_end;
     unsigned long nb_thread;
     unsigned long nb_waiting;
     napr_list_t *list;
@@ -221,6 +223,11 @@ extern apr_status_t napr_threadpool_init(napr_threadpool_t **threadpool, void *c
         DEBUG_ERR("error calling apr_thread_cond_create: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
         return status;
     }
+    status = apr_thread_cond_create(&((*threadpool)->threadpool_end), (*threadpool)->pool);
+    if (APR_SUCCESS != status) {
+        DEBUG_ERR("error calling apr_thread_cond_create: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
+        return status;
+    }
     (*threadpool)->thread = (apr_thread_t **) apr_palloc((*threadpool)->pool, nb_thread * sizeof(apr_thread_t *));
     (*threadpool)->ctx = ctx;
     (*threadpool)->nb_thread = nb_thread;
@@ -293,11 +300,13 @@ extern apr_status_t napr_threadpool_wait(napr_threadpool_t *threadpool)
          * running, the line after, (cond_wait), make us wait to the end of
          * processing.
          */
-        threadpool->run |= 0x1;
-
-        /* A condition variable may wake up without the end of processing having been signaled. */
-        while (!(threadpool->ended & 0x1)) {
-            status = apr_thread_cond_wait(threadpool->threadpool_update, threadpool->threadpool_mutex);
+        /*
+         * A condition variable may wake up without the end of processing having been signaled, and another
+         * thread that waited too may have ended the run and added data since it was.
+         */
+        while (!(threadpool->ended & 0x1) && ((0 != napr_list_size(threadpool->list)) || (threadpool->nb_waiting != threadpool->nb_thread))) {
+            threadpool->run |= 0x1;
+            status = apr_thread_cond_wait(threadpool->threadpool_end, threadpool->threadpool_mutex);
             if (APR_SUCCESS != status) {
                 DEBUG_ERR("error calling apr_thread_cond_wait: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
                 return status;
@@ -363,7 +372,7 @@ static apr_status_t wait_for_task(napr_threadpool_t *threadpool)
 
     if (!(threadpool->ended & 0x1) && (threadpool->run & 0x1) && (threadpool->nb_waiting == threadpool->nb_thread)) {
         threadpool->ended |= 0x1;
-        status = apr_thread_cond_broadcast(threadpool->threadpool_update);
+        status = apr_thread_cond_broadcast(threadpool->threadpool_end);
         if (APR_SUCCESS != status) {
             DEBUG_ERR("error calling apr_thread_cond_broadcast: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
             return status;
-- 
2.43.0


From cf81504a9076446697b3719d865d07c2841d01b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:03 +0000
Subject: [PATCH 38/53] fix: a few keys with one hash value made the hash table
 grow until memory ran out

---
 src/napr_hash.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/napr_hash.c b/src/napr_hash.c
index 4bbb70e..f5f1996 100644
--- a/src/napr_hash.c
+++ b/src/napr_hash.c
@@ -311,7 +311,18 @@ extern apr_status_t napr_hash_set(napr_hash_t *hash, void *data, apr_uint32_t ha
     hash->filling_table[bucket]++;
     hash->nel++;
 
-    if (hash->ffactor <= hash->filling_table[bucket]) {
+    if (hash->ffactor <= hash->filling_table[bucket] && hash->nel <= hash->size) {
+        /*
+         * The table is nearly empty and this bucket is full nevertheless: its keys share (most of) their hash
+         * values, so that no growth of the table may ever separate them. Enlarge the bucket instead.
+         */
+        if (0 == hash->filling_table[bucket] % hash->ffactor) {
+            void **larger = (void **) apr_pcalloc(hash->own_pool, (hash->filling_table[bucket] + hash->ffactor) * sizeof(void *));
+            memcpy(larger, hash->table[bucket], hash->filling_table[bucket] * sizeof(void *));
+            hash->table[bucket] = larger;
+        }
+    }
+    else if (hash->ffactor <= hash->filling_table[bucket]) {
         // int i;
         // DEBUG_DBG( "rebuilding hash table, because there's %u element in bucket %u ffactor is %u (total element = %u)", 
         //      hash->filling_table[bucket], bucket, hash->ffactor, hash->nel);
-- 
2.43.0


From b0319d89efb148194248dfcd158faa8e2b3a4994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:03 +0000
Subject: [PATCH 39/53] fix: modification times before 1970 were reported one
 second late in JSON

---
 src/ft_report_json.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ft_report_json.c b/src/ft_report_json.c
index 9103d8b..66d1f13 100644
--- a/src/ft_report_json.c
+++ b/src/ft_report_json.c
@@ -48,6 +48,10 @@
 static const char *ft_format_time_iso8601_utc(apr_time_t time_value, apr_pool_t *pool)
 {
     apr_time_exp_t exploded;
+    apr_time_t usec = time_value % APR_USEC_PER_SEC;
+
+    // Drop the fraction of a second downwards: APR rounds times before 1970 up to the next second.
+    time_value -= (usec < 0) ? usec + APR_USEC_PER_SEC : usec;
     // Use apr_time_exp_gmt to get the time in UTC (GMT).
     if (apr_time_exp_gmt(&exploded, time_value) != APR_SUCCESS) {
         return apr_pstrdup(pool, "UNKNOWN_TIME");
-- 
2.43.0


From c8aefe907f84c95ff577feda302f4860dc8a8db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:03 +0000
Subject: [PATCH 40/53] fix: a relative priority path had no effect on JSON
 reports

---
 src/ftwin.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ftwin.c b/src/ftwin.c
index 8e7a3f7..5269906 100644
--- a/src/ftwin.c
+++ b/src/ftwin.c
@@ -82,6 +82,16 @@ static apr_status_t run_ftwin_processing(ft_conf_t *conf, int argc, const char *
         return status;
     }
 
+    if (is_option_set(conf->mask, OPTION_JSON) && conf->p_path) {
+        /* The paths of the files are made absolute below, so must be the one they are compared with. */
+        status = apr_filepath_merge(&conf->p_path, NULL, conf->p_path, APR_FILEPATH_TRUENAME, conf->pool);
+        if (APR_SUCCESS != status) {
+            DEBUG_ERR("Error resolving absolute path for priority path: %s.", apr_strerror(status, errbuf, ERR_BUF_SIZE));
+            return status;
+        }
+        conf->p_path_len = strlen(conf->p_path);
+    }
+
     for (int arg_index = first_arg_index; arg_index < argc; arg_index++) {
         const char *current_arg = argv[arg_index];
         char *resolved_path = (char *) current_arg;
-- 
2.43.0


From 6243461fce9daaf91c38a2526eaf7688cedda28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:03 +0000
Subject: [PATCH 41/53] fix: files of directories whose names only begin like
 the priority path were prioritized

---
 src/ft_traverse.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ft_traverse.c b/src/ft_traverse.c
index c064da7..de5454a 100644
--- a/src/ft_traverse.c
+++ b/src/ft_traverse.c
@@ -61,6 +61,12 @@ static apr_status_t check_permissions(const apr_finfo_t *finfo, ft_conf_t *conf)
     return APR_SUCCESS;
 }
 
+/* Tells if the first length bytes of filename are whole components: "/tmp/new" is not a directory of "/tmp/newer/file". */
+static int ends_component(const char *filename, const char *prefix, apr_size_t length)
+{
+    return length == 0 || prefix[length - 1] == '/' || filename[length] == '/' || filename[length] == '\0';
+}
+
 static apr_status_t process_file(const char *filename, const apr_finfo_t *finfo, ft_conf_t *conf)
 {
     if (finfo->size >= conf->minsize && (conf->maxsize == 0 || finfo->size <= conf->maxsize)) {
@@ -68,7 +74,7 @@ static apr_status_t process_file(const char *filename, const apr_finfo_t *finfo,
         file->path = apr_pstrdup(conf->pool, filename);
         file->size = finfo->size;
         file->mtime = finfo->mtime;
-        file->prioritized = ((conf->p_path) && (strlen(filename) >= conf->p_path_len) &&
+        file->prioritized = ((conf->p_path) && (strlen(filename) >= conf->p_path_len) && ends_component(filename, conf->p_path, conf->p_path_len) &&
                              ((is_option_set(conf->mask, OPTION_ICASE) && !strncasecmp(filename, conf->p_path, conf->p_path_len)) ||
                               (!is_option_set(conf->mask, OPTION_ICASE) && !memcmp(filename, conf->p_path, conf->p_path_len))));
         file->cvec_ok = 0;
-- 
2.43.0


From 3435d4f8782eaaabfb9acee6e1434dd1c8ad1f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:03 +0000
Subject: [PATCH 42/53] fix: users of more than 256 groups could not scan
 anything

---
 src/ft_config.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/ft_config.c b/src/ft_config.c
index fd1e024..150d314 100644
--- a/src/ft_config.c
+++ b/src/ft_config.c
@@ -100,16 +100,16 @@ static pcre *ft_pcre_compile(const char *regex, int caseless, apr_pool_t *pool)
     return result;
 }
 
-static const int MAX_GIDS = 256;
-
 static apr_status_t fill_gids_ht(const char *username, napr_hash_t *gids, apr_pool_t *pool)
 {
-    gid_t list[MAX_GIDS];
+    gid_t *list = NULL;
     apr_uint32_t hash_value = 0;
-    int nb_gid = 0;
+    int nb_gid = getgroups(0, NULL);
 
-    memset(list, 0, sizeof(list));
-    nb_gid = getgroups((int) (sizeof(list) / sizeof(gid_t)), list);
+    if (nb_gid >= 0) {
+        list = apr_pcalloc(pool, ((apr_size_t) nb_gid + 1) * sizeof(gid_t));
+        nb_gid = getgroups(nb_gid, list);
+    }
     if (nb_gid < 0) {
         DEBUG_ERR("error calling getgroups()");
         return APR_EGENERAL;
@@ -120,10 +120,8 @@ static apr_status_t fill_gids_ht(const char *username, napr_hash_t *gids, apr_po
      * is included in the returned list.  (Thus, an application should also
      * call getegid(2) and add or remove the resulting value.)
      */
-    if (nb_gid < (sizeof(list) / sizeof(gid_t))) {
-        list[nb_gid] = getegid();
-        nb_gid++;
-    }
+    list[nb_gid] = getegid();
+    nb_gid++;
 
     for (int idx = 0; idx < nb_gid; idx++) {
         ft_gid_t *gid = napr_hash_search(gids, &(list[idx]), sizeof(gid_t), &hash_value);
-- 
2.43.0


From 8adc4bdcf5fe06f3dc763cbb5cfd6ca4a2d0a1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:03 +0000
Subject: [PATCH 43/53] fix: a file reached through two arguments was reported
 as a duplicate of itself

---
 src/ft_config.c   | 1 +
 src/ft_config.h   | 2 ++
 src/ft_traverse.c | 6 ++++++
 3 files changed, 9 insertions(+)

diff --git a/src/ft_config.c b/src/ft_config.c
index 150d314..1869959 100644
--- a/src/ft_config.c
+++ b/src/ft_config.c
@@ -238,6 +238,7 @@ ft_conf_t *ft_config_create(apr_pool_t *pool)
         .hash = apr_off_t_key_hash
     };
     conf->sizes = napr_hash_make_ex(&hash_args);
+    conf->paths = apr_hash_make(pool);
 
     hash_args.get_key = ft_gids_get_key;
     hash_args.get_key_len = ft_gid_get_key_len;
diff --git a/src/ft_config.h b/src/ft_config.h
index 8eec0b0..ad8102a 100644
--- a/src/ft_config.h
+++ b/src/ft_config.h
@@ -3,6 +3,7 @@
 
 #include "ft_types.h"
 #include <stddef.h>
+#include <apr_hash.h>
 
 /**
  * @defgroup CoreConstants Core Constants
@@ -100,6 +101,7 @@ typedef struct ft_conf_t
     napr_hash_t *sizes;
     napr_hash_t *gids;
     napr_hash_t *ig_files;
+    apr_hash_t *paths;          /* paths of all files found so far */
     pcre *ig_regex;
     pcre *wl_regex;
     pcre *ar_regex;
diff --git a/src/ft_traverse.c b/src/ft_traverse.c
index de5454a..74b341d 100644
--- a/src/ft_traverse.c
+++ b/src/ft_traverse.c
@@ -70,8 +70,14 @@ static int ends_component(const char *filename, const char *prefix, apr_size_t l
 static apr_status_t process_file(const char *filename, const apr_finfo_t *finfo, ft_conf_t *conf)
 {
     if (finfo->size >= conf->minsize && (conf->maxsize == 0 || finfo->size <= conf->maxsize)) {
+        /* Overlapping arguments lead to the same file several times, but it is no duplicate of itself. */
+        if (apr_hash_get(conf->paths, filename, APR_HASH_KEY_STRING) != NULL) {
+            return APR_SUCCESS;
+        }
+
         ft_file_t *file = apr_pcalloc(conf->pool, sizeof(struct ft_file_t));
         file->path = apr_pstrdup(conf->pool, filename);
+        apr_hash_set(conf->paths, file->path, APR_HASH_KEY_STRING, file);
         file->size = finfo->size;
         file->mtime = finfo->mtime;
         file->prioritized = ((conf->p_path) && (strlen(filename) >= conf->p_path_len) && ends_component(filename, conf->p_path, conf->p_path_len) &&
-- 
2.43.0


From 55af448c5293cddc70d064e784a175a4c2907248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:30 +0000
Subject: [PATCH 44/53] fix: a user without an entry in the user database could
 not scan anything

---
 src/ft_config.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ft_config.c b/src/ft_config.c
index 1869959..4fef5c6 100644
--- a/src/ft_config.c
+++ b/src/ft_config.c
@@ -636,10 +636,9 @@ apr_status_t ft_config_parse_args(ft_conf_t *conf, int argc, const char **argv,
         return status;
     }
 
-    status = apr_uid_name_get(&(conf->username), conf->userid, conf->pool);
-    if (APR_SUCCESS != status) {
-        DEBUG_ERR("error calling apr_uid_name_get: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
-        return status;
+    /* Not every user has a name, in a container for instance. */
+    if (APR_SUCCESS != apr_uid_name_get(&(conf->username), conf->userid, conf->pool)) {
+        conf->username = NULL;
     }
 
     status = fill_gids_ht(conf->username, conf->gids, conf->pool);
-- 
2.43.0


From e4da566d9bb055b286541f43215512c5a951a145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:30 +0000
Subject: [PATCH 45/53] fix: image thresholds of several characters were taken
 for their first digit

---
 src/ft_config.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ft_config.c b/src/ft_config.c
index 4fef5c6..3be931e 100644
--- a/src/ft_config.c
+++ b/src/ft_config.c
@@ -496,7 +496,8 @@ static apr_status_t handle_image_options(int option, const char *optarg, ft_conf
         *wregex = apr_pstrdup(conf->pool, ".*\\.(gif|png|jpe?g)$");
         break;
     case 'T':
-        switch (*optarg) {
+        /* A level is a single digit: "12" is not the first one. */
+        switch (('\0' != *optarg && '\0' != optarg[1]) ? '\0' : *optarg) {
         case '1':
             conf->threshold = PUZZLE_CVEC_SIMILARITY_LOWER_THRESHOLD;
             break;
-- 
2.43.0


From 0b36a1a4792d0504573f176c3833a4b3eda079f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:30 +0000
Subject: [PATCH 46/53] fix: sizes with anything behind their unit were
 accepted (5Kfoo as 5K)

---
 src/human_size.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/human_size.c b/src/human_size.c
index 703082f..14fbdfe 100644
--- a/src/human_size.c
+++ b/src/human_size.c
@@ -68,6 +68,21 @@ apr_off_t parse_human_size(const char *size_str)
         default:
             return -1;          // Invalid suffix
         }
+        endptr++;
+
+        // Longer spellings of the unit (KB, KiB), then nothing else
+        if (multiplier > 1 && toupper((unsigned char) *endptr) == 'I') {
+            endptr++;
+        }
+        if (multiplier > 1 && toupper((unsigned char) *endptr) == 'B') {
+            endptr++;
+        }
+        while (*endptr && isspace((unsigned char) *endptr)) {
+            endptr++;
+        }
+        if (*endptr) {
+            return -1;          // Something behind the suffix
+        }
     }
 
     size *= (double) multiplier;
-- 
2.43.0


From 92748d79d7cb08837bc7e0d1cd617ccef41cc1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:47 +0000
Subject: [PATCH 47/53] fix: napr_db_put stored other bytes when its key or
 value came from a look-up in the same transaction

---
 src/napr_db.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index 2e71b65..69eb93d 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -1658,6 +1658,7 @@ static apr_status_t put_entry(napr_db_txn_t *txn, const napr_db_val_t *key, cons
 apr_status_t napr_db_put(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_val_t *data)
 {
     apr_status_t status = APR_SUCCESS;
+    uint8_t entry[PAGE_SIZE];
 
     /* Validate inputs */
     if (!txn || !key || !data) {
@@ -1674,7 +1675,18 @@ apr_status_t napr_db_put(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_v
         return APR_EINVAL;
     }
 
-    status = put_entry(txn, key, data);
+    /* The caller's key and value may lie in a page of this transaction (returned by a look-up
+     * or a cursor), which the insertion is about to compact or split */
+    napr_db_val_t own_key = {.data = entry,.size = key->size };
+    napr_db_val_t own_data = {.data = entry + key->size,.size = data->size };
+    if (key->size > 0) {
+        memcpy(own_key.data, key->data, key->size);
+    }
+    if (data->size > 0) {
+        memcpy(own_data.data, data->data, data->size);
+    }
+
+    status = put_entry(txn, &own_key, &own_data);
     if (status != APR_SUCCESS && status != APR_EEXIST) {
         txn->failed = status;
     }
-- 
2.43.0


From 04244c8d9f2ea41073b57b4b2b3a732597783208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:49 +0000
Subject: [PATCH 48/53] fix: storing a cache entry looked up in the same
 transaction could store other bytes

---
 src/napr_cache.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/napr_cache.c b/src/napr_cache.c
index 4677ea0..085d412 100644
--- a/src/napr_cache.c
+++ b/src/napr_cache.c
@@ -332,6 +332,7 @@ apr_status_t napr_cache_upsert_in_txn(napr_cache_t *cache, const char *path, con
 {
     napr_db_val_t key;
     napr_db_val_t value;
+    napr_cache_entry_t own_entry;       /* 'entry' may lie in a page of this transaction */
     // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
     apr_status_t status;
 
@@ -348,7 +349,8 @@ apr_status_t napr_cache_upsert_in_txn(napr_cache_t *cache, const char *path, con
     key.size = strlen(path);
 
     /* Prepare value (cache entry) */
-    value.data = (void *) entry;
+    memcpy(&own_entry, entry, sizeof(own_entry));
+    value.data = &own_entry;
     value.size = sizeof(napr_cache_entry_t);
 
     /* Insert or update in database */
-- 
2.43.0


From f85823807cf902b1749ad71f4a05efacf694d84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:09 +0000
Subject: [PATCH 49/53] fix: ignore patterns that take PCRE too many steps
 matched nothing

---
 src/ft_ignore.c | 48 ++++++++++++++++++++++++++++++++++++++++++++----
 src/ft_ignore.h |  9 +++++++++
 2 files changed, 53 insertions(+), 4 deletions(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index aad84e2..f14bc0f 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -23,6 +23,7 @@
 #include "debug.h"
 #include <apr_file_io.h>
 #include <apr_strings.h>
+#include <stdlib.h>
 #include <string.h>
 #include <ctype.h>
 
@@ -56,6 +57,17 @@ enum
     MAX_PCRE_ANCHORS_LEN = 16
 };
 
+/**
+ * @brief Bounds of a match of PCRE by backtracking, and of the memory of its other algorithm that takes over beyond them.
+ */
+enum
+{
+    MAX_MATCH_STEPS = 1000000,
+    MAX_MATCH_RECURSION = 5000,
+    MIN_DFA_WORKSPACE = 16384,
+    MAX_DFA_WORKSPACE = 16 * 1024 * 1024
+};
+
 /**
  * Convert Git glob pattern to PCRE regex
  * Handles: *, **, ?, [abc], !, /, escapes
@@ -466,6 +478,37 @@ apr_status_t ft_ignore_load_file(ft_ignore_context_t *ctx, const char *filepath)
     return APR_SUCCESS;
 }
 
+int ft_regex_match(const pcre *regex, const char *path)
+{
+    pcre_extra limits = { 0 };
+    int path_len = (int) strlen(path);
+    int result = 0;
+
+    limits.flags = PCRE_EXTRA_MATCH_LIMIT | PCRE_EXTRA_MATCH_LIMIT_RECURSION;
+    limits.match_limit = MAX_MATCH_STEPS;
+    limits.match_limit_recursion = MAX_MATCH_RECURSION;
+    result = pcre_exec(regex, &limits, path, path_len, 0, 0, NULL, 0);
+
+    if (result == PCRE_ERROR_MATCHLIMIT || result == PCRE_ERROR_RECURSIONLIMIT) {
+        /* Too much backtracking to know: the other algorithm of PCRE follows all the alternatives at once, without recursion */
+        size_t nb_cells = MIN_DFA_WORKSPACE;
+        int ovector[2] = { 0 };
+
+        do {
+            int *workspace = malloc(nb_cells * sizeof(int));
+
+            result = PCRE_ERROR_NOMEMORY;
+            if (workspace != NULL) {
+                result = pcre_dfa_exec(regex, NULL, path, path_len, 0, PCRE_DFA_SHORTEST, ovector, 2, workspace, (int) nb_cells);
+                free(workspace);
+            }
+            nb_cells *= 2;
+        } while (result == PCRE_ERROR_DFA_WSSIZE && nb_cells <= MAX_DFA_WORKSPACE);
+    }
+
+    return result >= 0;
+}
+
 ft_ignore_match_result_t ft_ignore_match(ft_ignore_context_t *ctx, const char *fullpath, int is_dir)
 {
     ft_ignore_context_t *current_ctx = NULL;
@@ -496,7 +539,6 @@ ft_ignore_match_result_t ft_ignore_match(ft_ignore_context_t *ctx, const char *f
         /* Check patterns in order (last match wins) */
         for (index = 0; index < current_ctx->patterns->nelts; index++) {
             ft_ignore_pattern_t *pattern = APR_ARRAY_IDX(current_ctx->patterns, index, ft_ignore_pattern_t *);
-            int match = 0;
 
             /* Skip directory-only patterns if this is not a directory */
             if ((pattern->flags & FT_IGNORE_DIR_ONLY) && !is_dir) {
@@ -504,9 +546,7 @@ ft_ignore_match_result_t ft_ignore_match(ft_ignore_context_t *ctx, const char *f
             }
 
             /* Try to match */
-            match = pcre_exec(pattern->regex, NULL, relative_path, (int) strlen(relative_path), 0, 0, NULL, 0);
-
-            if (match >= 0) {
+            if (ft_regex_match(pattern->regex, relative_path)) {
                 /* Pattern matched */
                 if (pattern->flags & FT_IGNORE_NEGATE) {
                     result = FT_IGNORE_MATCH_WHITELISTED;
diff --git a/src/ft_ignore.h b/src/ft_ignore.h
index a4ac341..fa9d782 100644
--- a/src/ft_ignore.h
+++ b/src/ft_ignore.h
@@ -109,4 +109,13 @@ apr_status_t ft_ignore_add_pattern_str(ft_ignore_context_t *ctx, const char *pat
  */
 ft_ignore_match_result_t ft_ignore_match(ft_ignore_context_t *ctx, const char *fullpath, int is_dir);
 
+/**
+ * @brief Tells if an expression matches a path, however many steps or levels of recursion that takes PCRE.
+ *
+ * @param[in] regex The compiled expression.
+ * @param[in] path The path to match.
+ * @return 1 if the expression matches, 0 if not.
+ */
+int ft_regex_match(const pcre *regex, const char *path);
+
 #endif /* FT_IGNORE_H */
-- 
2.43.0


From 0c5ca9198b15a5287d36189e887f3cfac5799e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:09 +0000
Subject: [PATCH 50/53] fix: an expression that takes PCRE too much recursion
 on a long path ended the program

---
 src/ft_traverse.c | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/ft_traverse.c b/src/ft_traverse.c
index 74b341d..aa7a198 100644
--- a/src/ft_traverse.c
+++ b/src/ft_traverse.c
@@ -8,11 +8,6 @@
 #include "ft_types.h"
 #include "ft_config.h"
 
-enum
-{
-    MATCH_VECTOR_SIZE = 210
-};
-
 static apr_status_t traverse_recursive(ft_conf_t *conf, const char *filename, apr_pool_t *gc_pool, struct stats const *stats, ft_ignore_context_t *parent_ctx);
 
 static apr_status_t get_file_info(const char *filename, apr_finfo_t *finfo, ft_conf_t *conf, int is_entry, apr_pool_t *pool)
@@ -103,8 +98,7 @@ static apr_status_t process_file(const char *filename, const apr_finfo_t *finfo,
 
 static apr_status_t process_directory_entry(const char *fullname, ft_conf_t *conf, apr_pool_t *gc_pool, const struct stats *stats, ft_ignore_context_t *current_ctx)
 {
-    int ovector[MATCH_VECTOR_SIZE];
-    if (conf->ig_regex && pcre_exec(conf->ig_regex, NULL, fullname, (int) strlen(fullname), 0, 0, ovector, MATCH_VECTOR_SIZE) >= 0) {
+    if (conf->ig_regex && ft_regex_match(conf->ig_regex, fullname)) {
         return APR_SUCCESS;
     }
 
@@ -205,11 +199,8 @@ static apr_status_t traverse_recursive(ft_conf_t *conf, const char *filename, ap
         return process_directory(filename, conf, gc_pool, &self, parent_ctx);
     }
     /* The whitelist selects files: a directory is entered whatever its own name is. */
-    if (stats != NULL && conf->wl_regex) {
-        int ovector[MATCH_VECTOR_SIZE];
-        if (pcre_exec(conf->wl_regex, NULL, filename, (int) strlen(filename), 0, 0, ovector, MATCH_VECTOR_SIZE) < 0) {
-            return APR_SUCCESS;
-        }
+    if (stats != NULL && conf->wl_regex && !ft_regex_match(conf->wl_regex, filename)) {
+        return APR_SUCCESS;
     }
     if (finfo.filetype == APR_REG || (finfo.filetype == APR_LNK && is_option_set(conf->mask, OPTION_FSYML))) {
         return process_file(filename, &finfo, conf);
-- 
2.43.0


From a4f1770f88a587ae4e9be0e3f667df5b40fa6d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:09 +0000
Subject: [PATCH 51/53] fix: sizes above 2^53 bytes were rounded

---
 src/human_size.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/human_size.c b/src/human_size.c
index 14fbdfe..493bf90 100644
--- a/src/human_size.c
+++ b/src/human_size.c
@@ -15,7 +15,7 @@ static const apr_off_t KIBIBYTE = 1024LL;
 static const apr_off_t MEBIBYTE = 1024LL * 1024LL;
 static const apr_off_t GIBIBYTE = 1024LL * 1024LL * 1024LL;
 static const apr_off_t TEBIBYTE = 1024LL * 1024LL * 1024LL * 1024LL;
-static const double MAX_SIZE = 9223372036854775808.0;   /* 2^63, the first size an apr_off_t can't hold */
+static const long double MAX_SIZE = 9223372036854775808.0L;   /* 2^63, the first size an apr_off_t can't hold */
 
 const char *format_human_size(apr_off_t size, apr_pool_t *pool)
 {
@@ -38,7 +38,7 @@ const char *format_human_size(apr_off_t size, apr_pool_t *pool)
 apr_off_t parse_human_size(const char *size_str)
 {
     char *endptr = NULL;
-    double size = strtod(size_str, &endptr);
+    long double size = strtold(size_str, &endptr);      // A double can't hold every size above 2^53
     apr_off_t multiplier = 1;
 
     if (endptr == size_str) {
@@ -85,8 +85,8 @@ apr_off_t parse_human_size(const char *size_str)
         }
     }
 
-    size *= (double) multiplier;
-    if (!(size >= 0.0 && size < MAX_SIZE)) {
+    size *= (long double) multiplier;
+    if (!(size >= 0.0L && size < MAX_SIZE)) {
         return -1;              // Negative, not representable or not a number
     }
 
-- 
2.43.0


From 525ba1339018292ee54ba2fdef3ef74af71e0dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:39 +0000
Subject: [PATCH 52/53] fix: empty files that were filled or removed since they
 were listed were found identical

---
 src/ft_file.c | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/ft_file.c b/src/ft_file.c
index 13143aa..88db322 100644
--- a/src/ft_file.c
+++ b/src/ft_file.c
@@ -57,6 +57,29 @@ static int has_expected_size(apr_file_t *file, apr_off_t size)
     return APR_SUCCESS == apr_file_info_get(&finfo, APR_FINFO_SIZE, file) && finfo.size == size;
 }
 
+/**
+ * @brief Compares files that were empty when they were listed.
+ *
+ * There is nothing to read, but they may have been removed or filled since.
+ */
+static apr_status_t empty_filecmp(apr_pool_t *pool, const char *fname1, const char *fname2, int *result_out)
+{
+    apr_finfo_t finfo1;
+    apr_finfo_t finfo2;
+    apr_status_t status = apr_stat(&finfo1, fname1, APR_FINFO_SIZE | APR_FINFO_TYPE, pool);
+
+    if (APR_SUCCESS == status) {
+        status = apr_stat(&finfo2, fname2, APR_FINFO_SIZE | APR_FINFO_TYPE, pool);
+    }
+    if (APR_SUCCESS != status) {
+        return status;
+    }
+
+    *result_out = (APR_REG == finfo1.filetype && 0 == finfo1.size && APR_REG == finfo2.filetype && 0 == finfo2.size) ? 0 : 1;
+
+    return APR_SUCCESS;
+}
+
 static apr_status_t checksum_small_file(const char *filename, apr_off_t size, ft_hash_t *hash_out, apr_pool_t *gc_pool)
 {
     char errbuf[CHAR_MAX_VAL];
@@ -171,8 +194,7 @@ static apr_status_t small_filecmp(apr_pool_t *pool, const char *fname1, const ch
     apr_status_t status = APR_SUCCESS;
 
     if (0 == size) {
-        *result_out = 0;
-        return APR_SUCCESS;
+        return empty_filecmp(pool, fname1, fname2, result_out);
     }
 
     status = apr_file_open(&fd1, fname1, APR_READ | APR_BINARY, APR_OS_DEFAULT, pool);
@@ -259,7 +281,7 @@ static apr_status_t big_filecmp(apr_pool_t *pool, const char *fname1, const char
 
     *result_out = 0;
     if (0 == size) {
-        return APR_SUCCESS;
+        return empty_filecmp(pool, fname1, fname2, result_out);
     }
 
     status1 = apr_file_open(&fd1, fname1, APR_READ | APR_BINARY, APR_OS_DEFAULT, pool);
-- 
2.43.0


From d634a51e5279e294909a845e497f4952749d9a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:39 +0000
Subject: [PATCH 53/53] fix: a file replaced by a pipe or a device during the
 scan could block it for ever

---
 src/ft_file.c   | 32 ++++++++++++++++++++++++++------
 src/ft_file.h   | 14 ++++++++++++++
 src/ft_ignore.c |  3 ++-
 3 files changed, 42 insertions(+), 7 deletions(-)

diff --git a/src/ft_file.c b/src/ft_file.c
index 88db322..d9408d2 100644
--- a/src/ft_file.c
+++ b/src/ft_file.c
@@ -43,6 +43,26 @@ static apr_status_t big_filecmp(apr_pool_t *pool, const char *fname1, const char
  */
 static const size_t HUGE_LEN = 64L * 1024L;
 
+extern apr_status_t ft_file_open_regular(apr_file_t **file, const char *filename, apr_pool_t *pool)
+{
+    apr_finfo_t finfo;
+    apr_status_t status = apr_file_open(file, filename, APR_READ | APR_BINARY | APR_FOPEN_NONBLOCK, APR_OS_DEFAULT, pool);
+
+    if (APR_SUCCESS != status) {
+        return status;
+    }
+
+    status = apr_file_info_get(&finfo, APR_FINFO_TYPE, *file);
+    if (APR_SUCCESS == status && APR_REG != finfo.filetype) {
+        status = APR_EINVAL;
+    }
+    if (APR_SUCCESS != status) {
+        (void) apr_file_close(*file);
+    }
+
+    return status;
+}
+
 /**
  * @brief Tells if an open file can be mapped for its expected size.
  *
@@ -88,7 +108,7 @@ static apr_status_t checksum_small_file(const char *filename, apr_off_t size, ft
     memset(errbuf, 0, sizeof(errbuf));
     apr_status_t status = APR_SUCCESS;
 
-    status = apr_file_open(&file_descriptor, filename, APR_READ | APR_BINARY, APR_OS_DEFAULT, gc_pool);
+    status = ft_file_open_regular(&file_descriptor, filename, gc_pool);
     if (APR_SUCCESS != status) {
         return status;
     }
@@ -136,7 +156,7 @@ static apr_status_t checksum_big_file(const char *filename, apr_off_t size, ft_h
     }
     XXH3_128bits_reset(state);
 
-    status = apr_file_open(&file_descriptor, filename, APR_READ | APR_BINARY, APR_OS_DEFAULT, gc_pool);
+    status = ft_file_open_regular(&file_descriptor, filename, gc_pool);
     if (APR_SUCCESS != status) {
         XXH3_freeState(state);
         return status;
@@ -197,7 +217,7 @@ static apr_status_t small_filecmp(apr_pool_t *pool, const char *fname1, const ch
         return empty_filecmp(pool, fname1, fname2, result_out);
     }
 
-    status = apr_file_open(&fd1, fname1, APR_READ | APR_BINARY, APR_OS_DEFAULT, pool);
+    status = ft_file_open_regular(&fd1, fname1, pool);
     if (APR_SUCCESS != status) {
         return status;
     }
@@ -211,7 +231,7 @@ static apr_status_t small_filecmp(apr_pool_t *pool, const char *fname1, const ch
         return big_filecmp(pool, fname1, fname2, size, result_out);
     }
 
-    status = apr_file_open(&fd2, fname2, APR_READ | APR_BINARY, APR_OS_DEFAULT, pool);
+    status = ft_file_open_regular(&fd2, fname2, pool);
     if (APR_SUCCESS != status) {
         apr_mmap_delete(mm1);
         (void) apr_file_close(fd1);
@@ -284,12 +304,12 @@ static apr_status_t big_filecmp(apr_pool_t *pool, const char *fname1, const char
         return empty_filecmp(pool, fname1, fname2, result_out);
     }
 
-    status1 = apr_file_open(&fd1, fname1, APR_READ | APR_BINARY, APR_OS_DEFAULT, pool);
+    status1 = ft_file_open_regular(&fd1, fname1, pool);
     if (APR_SUCCESS != status1) {
         return status1;
     }
 
-    status1 = apr_file_open(&fd2, fname2, APR_READ | APR_BINARY, APR_OS_DEFAULT, pool);
+    status1 = ft_file_open_regular(&fd2, fname2, pool);
     if (APR_SUCCESS != status1) {
         (void) apr_file_close(fd1);
         return status1;
diff --git a/src/ft_file.h b/src/ft_file.h
index 9652919..c5f9395 100644
--- a/src/ft_file.h
+++ b/src/ft_file.h
@@ -23,12 +23,26 @@
 #ifndef FT_FILE_H
 #define FT_FILE_H
 
+#include <apr_file_io.h>
 #include <apr_pools.h>
 
 #define FTWIN_MIN(a,b) ((a)<(b)) ? (a) : (b)
 
 #include "checksum.h"
 
+/**
+ * @brief Opens a file for reading, provided that it is a regular file.
+ *
+ * One that was replaced by a pipe or a device since it was listed must not be
+ * read: opening or reading it could block forever.
+ *
+ * @param[out] file Pointer to receive the open file.
+ * @param[in] filename The path to the file.
+ * @param[in] pool The APR pool to use for allocations.
+ * @return APR_SUCCESS on success, APR_EINVAL if it is no regular file, or an APR error code if it can't be opened.
+ */
+apr_status_t ft_file_open_regular(apr_file_t **file, const char *filename, apr_pool_t *pool);
+
 /**
  * @brief Calculates the XXH128 checksum of a file.
  *
diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index f14bc0f..fa3e1c8 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -21,6 +21,7 @@
 
 #include "ft_ignore.h"
 #include "debug.h"
+#include "ft_file.h"
 #include <apr_file_io.h>
 #include <apr_strings.h>
 #include <stdlib.h>
@@ -438,7 +439,7 @@ apr_status_t ft_ignore_load_file(ft_ignore_context_t *ctx, const char *filepath)
     int is_first_line = 1;
     int is_partial = 0;
 
-    status = apr_file_open(&file, filepath, APR_READ, APR_OS_DEFAULT, ctx->pool);
+    status = ft_file_open_regular(&file, filepath, ctx->pool);
     if (status != APR_SUCCESS) {
         return status;
     }
-- 
2.43.0

