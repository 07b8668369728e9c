From 9dbf782a8c787c9cbed7a4f6d97bcab45648bbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:19 +0000
Subject: [PATCH 01/30] fix: napr_db_txn_abort(NULL) must return an error
 instead of dereferencing the handle

---
 src/napr_db.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index 59b99cd..d6585d5 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -1274,12 +1274,14 @@ apr_status_t napr_db_txn_commit(napr_db_txn_t *txn)
 apr_status_t napr_db_txn_abort(napr_db_txn_t *txn)
 {
     apr_status_t status = APR_SUCCESS;
-    int is_write = !(txn->flags & NAPR_DB_RDONLY);
+    int is_write = 0;
 
     if (!txn) {
         return APR_EINVAL;
     }
 
+    is_write = !(txn->flags & NAPR_DB_RDONLY);
+
     /* Unregister read-only transaction from reader table */
     if (!is_write) {
         apr_os_proc_t pid = getpid();
-- 
2.43.0


From 68fcbf098cc0890139519a9dfd8c7d78d0076a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:54 +0000
Subject: [PATCH 02/30] fix: capture and register a reader's snapshot
 atomically with respect to commit

---
 src/napr_db.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index d6585d5..1b3384e 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -526,6 +526,15 @@ apr_status_t napr_db_txn_begin(napr_db_env_t *env, unsigned int flags, napr_db_t
             return status;
         }
     }
+    else {
+        /* A reader captures its snapshot and registers it in one critical section, so that
+         * no commit can switch the live meta page, or reclaim its pages, in between */
+        status = apr_thread_mutex_lock(env->reader_table_mutex);
+        if (status != APR_SUCCESS) {
+            apr_pool_destroy(txn_pool);
+            return status;
+        }
+    }
 
     /* Initialize transaction */
     txn_handle->env = env;
@@ -569,12 +578,6 @@ apr_status_t napr_db_txn_begin(napr_db_env_t *env, unsigned int flags, napr_db_t
         int slot_idx = 0;
         int found_slot = 0;
 
-        status = apr_thread_mutex_lock(env->reader_table_mutex);
-        if (status != APR_SUCCESS) {
-            apr_pool_destroy(txn_pool);
-            return status;
-        }
-
         /* Find an empty slot (txnid == 0) */
         for (slot_idx = 0; slot_idx < MAX_READERS; slot_idx++) {
             if (env->reader_table[slot_idx].txnid == 0) {
@@ -1175,8 +1178,14 @@ static apr_status_t commit_meta_page(napr_db_txn_t *txn, DB_CommitPgnos pgnos)
         return status;
     }
 
+    /* Publish under the reader table mutex: a reader sees either version, never a mix */
+    status = apr_thread_mutex_lock(txn->env->reader_table_mutex);
+    if (status != APR_SUCCESS) {
+        return status;
+    }
     memcpy(stale_meta, &updated_meta, sizeof(DB_MetaPage));
     txn->env->live_meta = stale_meta;
+    apr_thread_mutex_unlock(txn->env->reader_table_mutex);
 
     return APR_SUCCESS;
 }
-- 
2.43.0


From d5ff31ca3081911c6b94cdde044fd05ecc2599eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:05 +0000
Subject: [PATCH 03/30] fix: reject keys and values too large for 16-bit page
 offsets instead of overflowing the page

---
 src/napr_db_tree.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/napr_db_tree.c b/src/napr_db_tree.c
index 89865aa..7f1961c 100644
--- a/src/napr_db_tree.c
+++ b/src/napr_db_tree.c
@@ -74,6 +74,11 @@ apr_status_t db_page_search(DB_PageHeader *page, const napr_db_val_t *key, uint1
         return APR_EINVAL;
     }
 
+    /* Key sizes are stored in 16 bits: do not compare a truncated size */
+    if (key->size > UINT16_MAX) {
+        return APR_EINVAL;
+    }
+
     /* Handle empty page */
     if (page->num_keys == 0) {
         *index_out = 0;
@@ -407,6 +412,11 @@ apr_status_t db_page_insert(DB_PageHeader *page, uint16_t index, const napr_db_v
         return APR_EINVAL;
     }
 
+    /* A record that does not fit in 16-bit page offsets can never be stored */
+    if (key->size > PAGE_SIZE || (data && data->size > PAGE_SIZE)) {
+        return APR_ENOSPC;
+    }
+
     /* Calculate required space */
     if (page->flags & P_LEAF) {
         /* Leaf node: DB_LeafNode + key + data */
-- 
2.43.0


From 8ca756d56eee284ab043715dd3a9ddcd7845cd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:39 +0000
Subject: [PATCH 04/30] fix: a put that fails after splitting a page must not
 lose committed entries

---
 src/napr_db.c          | 17 ++++++++++++++++-
 src/napr_db_internal.h |  1 +
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index 1b3384e..8d06ddd 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -1235,6 +1235,10 @@ apr_status_t napr_db_txn_commit(napr_db_txn_t *txn)
     /* Populate the Free DB with freed pages from this transaction FIRST
      * so that Free DB pages are added to dirty_pages before we update pointers */
     pgno_t new_free_db_root = 0;
+    if (txn->failed) {
+        status = APR_EGENERAL;
+        goto cleanup;
+    }
     status = populate_free_db(txn, &new_free_db_root);
     if (status != APR_SUCCESS) {
         goto cleanup;
@@ -1477,6 +1481,12 @@ apr_status_t napr_db_put(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_v
         return handle_empty_tree_put(txn, &current_key, &current_data);
     }
 
+    /* A record that cannot fit in an empty leaf page must not cause a split */
+    if (key->size > PAGE_SIZE || data->size > PAGE_SIZE
+        || sizeof(DB_LeafNode) + key->size + data->size + sizeof(uint16_t) > PAGE_SIZE - sizeof(DB_PageHeader)) {
+        return APR_ENOSPC;
+    }
+
     /* Normal case: Tree exists, find the leaf page and record path */
     status = db_find_leaf_page_with_path(txn, &current_key, path, &path_len, &leaf_page);
     if (status != APR_SUCCESS) {
@@ -1547,7 +1557,12 @@ apr_status_t napr_db_put(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_v
         return status;          /* Other error */
     }
 
-    return handle_page_split(txn, leaf_page, path, path_len, &current_key, &current_data);
+    status = handle_page_split(txn, leaf_page, path, path_len, &current_key, &current_data);
+    if (status != APR_SUCCESS) {
+        /* Entries may already have moved to a page no parent points to */
+        txn->failed = 1;
+    }
+    return status;
 }
 
 static apr_status_t handle_page_split(napr_db_txn_t *txn, DB_PageHeader *leaf_page, const pgno_t *path, uint16_t path_len, napr_db_val_t *current_key, napr_db_val_t *current_data)
diff --git a/src/napr_db_internal.h b/src/napr_db_internal.h
index 2693387..4f7cbd2 100644
--- a/src/napr_db_internal.h
+++ b/src/napr_db_internal.h
@@ -332,6 +332,7 @@ typedef struct __attribute__((packed))
          /* Free space tracking for write transactions */
          apr_array_header_t *freed_pages;
                                       /**< Array of pgno_t freed during this transaction */
+         int failed;            /**< An update failed half-way: the transaction must not be committed */
      };
 
 /**
-- 
2.43.0


From 408880d9ca07ee5afb1232ab7ce723a37c906cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:26 +0000
Subject: [PATCH 05/30] fix: cursors skip empty leaves and range positioning
 continues in the next leaf

---
 src/napr_db_cursor.c | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/napr_db_cursor.c b/src/napr_db_cursor.c
index 1c31956..b6218ee 100644
--- a/src/napr_db_cursor.c
+++ b/src/napr_db_cursor.c
@@ -171,9 +171,10 @@ static apr_status_t db_cursor_seek(napr_db_cursor_t *cursor, const napr_db_val_t
     case NAPR_DB_SET_RANGE:
         status = db_page_search(page, key, &index);
         /* If exact match or insertion point is found, it's valid */
-        if (index >= page->num_keys) {
-            /* TODO: Handle NEXT logic to find next page */
-            return APR_NOTFOUND;
+        if (index >= page->num_keys && page->num_keys > 0) {
+            /* Every key of this leaf is smaller: the range starts in the next leaf */
+            cursor->stack[cursor->top - 1].index = page->num_keys - 1;
+            return db_cursor_next(cursor);
         }
         break;
     case NAPR_DB_NEXT:
@@ -184,8 +185,8 @@ static apr_status_t db_cursor_seek(napr_db_cursor_t *cursor, const napr_db_val_t
     }
 
     if (page->num_keys == 0) {
-        cursor->eof = 1;
-        return APR_NOTFOUND;
+        /* Deletions may leave an empty leaf behind: move on to its neighbour */
+        return operation == NAPR_DB_LAST ? db_cursor_prev(cursor) : db_cursor_next(cursor);
     }
 
     cursor->stack[cursor->top - 1].index = index;
@@ -265,11 +266,10 @@ static apr_status_t db_cursor_next(napr_db_cursor_t *cursor)
 
                 if (page->flags & P_LEAF) {
                     /* Reached leaf - push it with index 0 */
-                    cursor_push(cursor, page, 0);
                     if (page->num_keys == 0) {
-                        cursor->eof = 1;
-                        return APR_NOTFOUND;
+                        break;  /* Empty leaf - try the next sibling */
                     }
+                    cursor_push(cursor, page, 0);
                     return APR_SUCCESS;
                 }
 
@@ -277,6 +277,7 @@ static apr_status_t db_cursor_next(napr_db_cursor_t *cursor)
                 cursor_push(cursor, page, 0);
                 child_pgno = db_page_branch_node(page, 0)->pgno;
             }
+            continue;
         }
 
         /* This parent also exhausted - ascend further */
@@ -319,15 +320,13 @@ static apr_status_t descend_rightmost(napr_db_cursor_t *cursor, pgno_t pgno)
 
         if (page->flags & P_LEAF) {
             if (page->num_keys == 0) {
-                cursor->eof = 1;
-                return APR_NOTFOUND;
+                return APR_NOTFOUND;    /* Empty leaf - the caller tries the previous sibling */
             }
             cursor_push(cursor, page, page->num_keys - 1);
             return APR_SUCCESS;
         }
 
         if (page->num_keys == 0) {
-            cursor->eof = 1;
             return APR_NOTFOUND;
         }
         cursor_push(cursor, page, page->num_keys - 1);
@@ -339,6 +338,7 @@ static apr_status_t db_cursor_prev(napr_db_cursor_t *cursor)
 {
     DB_PageHeader *page = NULL;
     uint16_t index = 0;
+    apr_status_t status = APR_SUCCESS;
 
     if (!cursor || cursor->top == 0 || cursor->eof) {
         return APR_NOTFOUND;
@@ -366,7 +366,11 @@ static apr_status_t db_cursor_prev(napr_db_cursor_t *cursor)
         if (index > 0) {
             index--;
             cursor->stack[cursor->top - 1].index = index;
-            return descend_rightmost(cursor, db_page_branch_node(page, index)->pgno);
+            status = descend_rightmost(cursor, db_page_branch_node(page, index)->pgno);
+            if (status != APR_NOTFOUND) {
+                return status;
+            }
+            continue;
         }
 
         cursor->top--;
-- 
2.43.0


From f353b877a53df464f4877ec98f36425ab170c067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:48 +0000
Subject: [PATCH 06/30] fix: comparing by reads must not report equal when one
 file ends early or a read fails

---
 src/ft_file.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/ft_file.c b/src/ft_file.c
index 9cd27c6..5992449 100644
--- a/src/ft_file.c
+++ b/src/ft_file.c
@@ -250,20 +250,28 @@ static apr_status_t big_filecmp(apr_pool_t *pool, const char *fname1, const char
         return status1;
     }
 
+    *result_out = 0;
     do {
         rbytes1 = HUGE_LEN;
         status1 = apr_file_read(fd1, data_chunk1, &rbytes1);
-        rbytes2 = rbytes1;
+        rbytes2 = HUGE_LEN;
         status2 = apr_file_read(fd2, data_chunk2, &rbytes2);
-        if ((APR_SUCCESS == status1) && (APR_SUCCESS == status2) && (rbytes2 == rbytes1)) {
-            *result_out = memcmp(data_chunk1, data_chunk2, rbytes1);
+        if ((APR_SUCCESS == status1) && (APR_SUCCESS == status2)) {
+            *result_out = (rbytes2 == rbytes1) ? memcmp(data_chunk1, data_chunk2, rbytes1) : 1;
         }
-    } while ((APR_SUCCESS == status1) && (APR_SUCCESS == status2) && (0 == *result_out) && (rbytes2 == rbytes1));
+    } while ((APR_SUCCESS == status1) && (APR_SUCCESS == status2) && (0 == *result_out));
 
-    if ((APR_EOF != status1) && (APR_EOF != status2) && (0 == *result_out)) {
+    if (((APR_SUCCESS != status1) && (APR_EOF != status1)) || ((APR_SUCCESS != status2) && (APR_EOF != status2))) {
         DEBUG_ERR("1:unable to read %s (%" APR_SIZE_T_FMT "): %s", fname1, rbytes1, apr_strerror(status1, errbuf, sizeof(errbuf)));
         DEBUG_ERR("2:unable to read %s (%" APR_SIZE_T_FMT "): %s", fname2, rbytes2, apr_strerror(status2, errbuf, sizeof(errbuf)));
-        return status1;
+        (void) apr_file_close(fd2);
+        (void) apr_file_close(fd1);
+        return ((APR_SUCCESS != status1) && (APR_EOF != status1)) ? status1 : status2;
+    }
+
+    if (status1 != status2) {
+        /* One file ended before the other: they are not twins */
+        *result_out = 1;
     }
 
     status1 = apr_file_close(fd2);
-- 
2.43.0


From 50d6d052f053d790e80089e13140811a6a10529e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:48 +0000
Subject: [PATCH 07/30] fix: release the first mapping and close the second
 file once when mapping the second file fails

---
 src/ft_file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ft_file.c b/src/ft_file.c
index 5992449..c3f7c5a 100644
--- a/src/ft_file.c
+++ b/src/ft_file.c
@@ -179,7 +179,7 @@ static apr_status_t small_filecmp(apr_pool_t *pool, const char *fname1, const ch
     status = apr_mmap_create(&mm2, fd2, 0, size, APR_MMAP_READ, pool);
     if (APR_SUCCESS != status) {
         (void) apr_file_close(fd2);
-        (void) apr_file_close(fd2);
+        (void) apr_mmap_delete(mm1);
         (void) apr_file_close(fd1);
         return big_filecmp(pool, fname1, fname2, size, result_out);
     }
-- 
2.43.0


From 0548704a508b9970c7166320d2fb8cf905c3f5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:25 +0000
Subject: [PATCH 08/30] fix: a file already reported as a twin must not be
 compared again after a failed comparison

---
 src/ft_report.c      | 3 +++
 src/ft_report_json.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/ft_report.c b/src/ft_report.c
index a4099e4..e0b4679 100644
--- a/src/ft_report.c
+++ b/src/ft_report.c
@@ -83,6 +83,9 @@ static apr_status_t process_and_report_duplicates_for_file(ft_conf_t *conf, ft_f
     for (j_index = index + 1; j_index < fsize->nb_files; j_index++) {
         /* If hashes match, perform a full comparison */
         if (0 == memcmp(&fsize->chksum_array[index].hash_value, &fsize->chksum_array[j_index].hash_value, sizeof(ft_hash_t))) {
+            if (NULL == fsize->chksum_array[j_index].file) {
+                continue;       /* Already reported as the twin of a previous file */
+            }
             if (compare_and_report_pair(conf, fsize, index, j_index, &already_printed, colors) != APR_SUCCESS) {
                 return APR_EGENERAL;
             }
diff --git a/src/ft_report_json.c b/src/ft_report_json.c
index b58eb61..abe9c86 100644
--- a/src/ft_report_json.c
+++ b/src/ft_report_json.c
@@ -145,6 +145,9 @@ static apr_status_t find_and_report_duplicates(ft_conf_t *conf, ft_fsize_t *fsiz
 
         for (size_t j = i + 1; j < fsize->nb_files; j++) {
             if (memcmp(&fsize->chksum_array[i].hash_value, &fsize->chksum_array[j].hash_value, sizeof(ft_hash_t)) == 0) {
+                if (fsize->chksum_array[j].file == NULL) {
+                    continue;   /* Already reported as the twin of a previous file */
+                }
                 status = perform_file_comparison(conf, &fsize->chksum_array[i], &fsize->chksum_array[j], fsize->val, &result);
                 if (status != APR_SUCCESS) {
                     return status;
-- 
2.43.0


From e08f0f15223e4d8aef910014157185544b446dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:25 +0000
Subject: [PATCH 09/30] fix: scanned files and checksum slots must not carry
 uninitialised subpath and hash values

---
 src/ft_process.c  | 2 +-
 src/ft_traverse.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ft_process.c b/src/ft_process.c
index b53cfe6..e738aa0 100644
--- a/src/ft_process.c
+++ b/src/ft_process.c
@@ -144,7 +144,7 @@ static apr_status_t categorize_files(ft_conf_t *conf, napr_heap_t *tmp_heap, apr
             }
             else {
                 if (NULL == fsize->chksum_array) {
-                    fsize->chksum_array = apr_palloc(conf->pool, fsize->nb_files * sizeof(struct ft_chksum_t));
+                    fsize->chksum_array = apr_pcalloc(conf->pool, fsize->nb_files * sizeof(struct ft_chksum_t));
                 }
 
                 fsize->chksum_array[fsize->nb_checksumed].file = file;
diff --git a/src/ft_traverse.c b/src/ft_traverse.c
index 129dfc4..92d478d 100644
--- a/src/ft_traverse.c
+++ b/src/ft_traverse.c
@@ -64,7 +64,7 @@ static apr_status_t check_permissions(const apr_finfo_t *finfo, ft_conf_t *conf)
 static apr_status_t process_file(const char *filename, const apr_finfo_t *finfo, ft_conf_t *conf)
 {
     if (finfo->size >= conf->minsize && (conf->maxsize == 0 || finfo->size <= conf->maxsize)) {
-        ft_file_t *file = apr_palloc(conf->pool, sizeof(struct ft_file_t));
+        ft_file_t *file = apr_pcalloc(conf->pool, sizeof(struct ft_file_t));
         file->path = apr_pstrdup(conf->pool, filename);
         file->size = finfo->size;
         file->mtime = finfo->mtime;
-- 
2.43.0


From 1f8f425403cdf55e81abb3c7b382c4bac97c5f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:25 +0000
Subject: [PATCH 10/30] fix: repeating a name in the ignore list must not hang
 the hash table rebuild

---
 src/ft_config.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ft_config.c b/src/ft_config.c
index 3c0e8ee..7adf046 100644
--- a/src/ft_config.c
+++ b/src/ft_config.c
@@ -155,8 +155,9 @@ static void ft_hash_add_ignore_list(napr_hash_t *hash, const char *file_list)
         else {
             tmp = apr_pstrdup(pool, filename);
         }
-        napr_hash_search(hash, tmp, strlen(tmp), &hash_value);
-        napr_hash_set(hash, tmp, hash_value);
+        if (NULL == napr_hash_search(hash, tmp, strlen(tmp), &hash_value)) {
+            napr_hash_set(hash, tmp, hash_value);
+        }
 
         if (NULL != end) {
             filename = end + 1;
-- 
2.43.0


From f2e327de9f064e48cb5cf4ee76a3d34488ff408f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:52 +0000
Subject: [PATCH 11/30] fix: an unknown option or a missing option argument
 must be rejected

---
 src/ft_config.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ft_config.c b/src/ft_config.c
index 7adf046..0b4928f 100644
--- a/src/ft_config.c
+++ b/src/ft_config.c
@@ -620,6 +620,12 @@ apr_status_t ft_config_parse_args(ft_conf_t *conf, int argc, const char **argv,
         }
     }
 
+    if (!APR_STATUS_IS_EOF(status)) {
+        /* Unknown option or missing argument: apr_getopt_long has reported it */
+        print_usage_and_exit(argv[0], opt_option, "Invalid command line.", "");
+        return status;
+    }
+
     if (argc - opt_state->ind < 1) {
         print_usage_and_exit(argv[0], opt_option, "Please submit at least one file or directory to process.", "");
         return APR_EGENERAL;
-- 
2.43.0


From c617ce792c6942b2a5666fb09b5efb096afa3b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:53 +0000
Subject: [PATCH 12/30] fix: a broken symbolic link is skipped when following
 links instead of aborting the scan

---
 src/ft_traverse.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ft_traverse.c b/src/ft_traverse.c
index 92d478d..21a814b 100644
--- a/src/ft_traverse.c
+++ b/src/ft_traverse.c
@@ -25,10 +25,11 @@ static apr_status_t get_file_info(const char *filename, apr_finfo_t *finfo, ft_c
     apr_status_t status = apr_stat(finfo, filename, statmask, pool);
     if (status != APR_SUCCESS) {
         char errbuf[ERR_BUF_SIZE];
-        if (is_option_set(conf->mask, OPTION_FSYML) && (finfo->filetype & APR_LNK)) {
+        if (is_option_set(conf->mask, OPTION_FSYML) && APR_SUCCESS == apr_stat(finfo, filename, statmask | APR_FINFO_LINK, pool) && finfo->filetype == APR_LNK) {
             if (is_option_set(conf->mask, OPTION_VERBO)) {
                 (void) fprintf(stderr, "Skipping : [%s] (broken link)\n", filename);
             }
+            finfo->filetype = APR_NOFILE;
             return APR_SUCCESS;
         }
         DEBUG_ERR("error calling apr_stat on filename %s : %s", filename, apr_strerror(status, errbuf, ERR_BUF_SIZE));
-- 
2.43.0


From a434f4a820821c3041c760692329e346b69b62ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:06 +0000
Subject: [PATCH 13/30] fix: following symbolic links must not recurse into a
 directory already being scanned

---
 src/ft_traverse.c | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/ft_traverse.c b/src/ft_traverse.c
index 21a814b..e48bdb3 100644
--- a/src/ft_traverse.c
+++ b/src/ft_traverse.c
@@ -17,7 +17,7 @@ static apr_status_t traverse_recursive(ft_conf_t *conf, const char *filename, ap
 
 static apr_status_t get_file_info(const char *filename, apr_finfo_t *finfo, ft_conf_t *conf, apr_pool_t *pool)
 {
-    apr_int32_t statmask = APR_FINFO_SIZE | APR_FINFO_MTIME | APR_FINFO_TYPE | APR_FINFO_USER | APR_FINFO_GROUP | APR_FINFO_UPROT | APR_FINFO_GPROT;
+    apr_int32_t statmask = APR_FINFO_SIZE | APR_FINFO_MTIME | APR_FINFO_TYPE | APR_FINFO_USER | APR_FINFO_GROUP | APR_FINFO_UPROT | APR_FINFO_GPROT | APR_FINFO_IDENT;
     if (!is_option_set(conf->mask, OPTION_FSYML)) {
         statmask |= APR_FINFO_LINK;
     }
@@ -98,11 +98,7 @@ static apr_status_t process_directory_entry(const char *fullname, const apr_finf
         return APR_SUCCESS;
     }
 
-    struct stats child;
-    child.parent = stats;
-    child.stat = *finfo;
-
-    apr_status_t status = traverse_recursive(conf, fullname, gc_pool, &child, current_ctx);
+    apr_status_t status = traverse_recursive(conf, fullname, gc_pool, stats, current_ctx);
     if (status != APR_SUCCESS) {
         char errbuf[ERR_BUF_SIZE];
         DEBUG_ERR("error recursively calling traverse_recursive: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
@@ -151,6 +147,16 @@ static apr_status_t process_directory(const char *filename, ft_conf_t *conf, apr
     return status;
 }
 
+static int is_ancestor(const apr_finfo_t *finfo, const struct stats *ancestors)
+{
+    for (; ancestors != NULL; ancestors = ancestors->parent) {
+        if (ancestors->stat.inode == finfo->inode && ancestors->stat.device == finfo->device) {
+            return 1;
+        }
+    }
+    return 0;
+}
+
 static apr_status_t traverse_recursive(ft_conf_t *conf, const char *filename, apr_pool_t *gc_pool, struct stats const *stats, ft_ignore_context_t *parent_ctx)
 {
     apr_finfo_t finfo;
@@ -167,7 +173,14 @@ static apr_status_t traverse_recursive(ft_conf_t *conf, const char *filename, ap
     }
 
     if (finfo.filetype == APR_DIR) {
-        return process_directory(filename, conf, gc_pool, stats, parent_ctx);
+        struct stats self;
+
+        if (is_ancestor(&finfo, stats)) {
+            return APR_SUCCESS; /* A followed link led back to a directory being scanned */
+        }
+        self.parent = stats;
+        self.stat = finfo;
+        return process_directory(filename, conf, gc_pool, &self, parent_ctx);
     }
     if (finfo.filetype == APR_REG || (finfo.filetype == APR_LNK && is_option_set(conf->mask, OPTION_FSYML))) {
         return process_file(filename, &finfo, conf);
-- 
2.43.0


From 9de7f117cb84783c76bac934b44b5e212231250c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:07 +0000
Subject: [PATCH 14/30] fix: the whitelist regex selects files and must not
 prune the directories that contain them

---
 src/ft_traverse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ft_traverse.c b/src/ft_traverse.c
index e48bdb3..294db6b 100644
--- a/src/ft_traverse.c
+++ b/src/ft_traverse.c
@@ -94,7 +94,7 @@ static apr_status_t process_directory_entry(const char *fullname, const apr_finf
 {
     int ovector[MATCH_VECTOR_SIZE];
     if ((conf->ig_regex && pcre_exec(conf->ig_regex, NULL, fullname, (int) strlen(fullname), 0, 0, ovector, MATCH_VECTOR_SIZE) >= 0) ||
-        (conf->wl_regex && pcre_exec(conf->wl_regex, NULL, fullname, (int) strlen(fullname), 0, 0, ovector, MATCH_VECTOR_SIZE) < 0)) {
+        (conf->wl_regex && finfo->filetype != APR_DIR && pcre_exec(conf->wl_regex, NULL, fullname, (int) strlen(fullname), 0, 0, ovector, MATCH_VECTOR_SIZE) < 0)) {
         return APR_SUCCESS;
     }
 
-- 
2.43.0


From 8db16153447ce875957c9a0e6df23da1daea5893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:27 +0000
Subject: [PATCH 15/30] fix: ignore patterns of a subdirectory override those
 of its parents

---
 src/ft_ignore.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index 823cb51..c79a99c 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -436,6 +436,11 @@ ft_ignore_match_result_t ft_ignore_match(ft_ignore_context_t *ctx, const char *f
                 /* Don't break - continue checking for later patterns */
             }
         }
+
+        /* Patterns of a deeper directory override those of its parents */
+        if (result != FT_IGNORE_MATCH_NONE) {
+            break;
+        }
     }
 
     return result;
-- 
2.43.0


From 04c79ebef22d61067daa9f80199b7c09483ec39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:45 +0000
Subject: [PATCH 16/30] fix: default ignore patterns apply to relative paths
 too

---
 src/ft_config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ft_config.c b/src/ft_config.c
index 0b4928f..9aa6003 100644
--- a/src/ft_config.c
+++ b/src/ft_config.c
@@ -264,7 +264,7 @@ ft_conf_t *ft_config_create(apr_pool_t *pool)
     conf->excess_size = (apr_off_t) EXCESS_SIZE_DEFAULT;
     conf->num_threads = ft_get_cpu_cores();     /* Default to number of CPU cores */
     conf->respect_gitignore = 1;        /* Respect .gitignore by default */
-    conf->global_ignores = ft_ignore_context_create(pool, NULL, "/");   /* Initialize global ignores */
+    conf->global_ignores = ft_ignore_context_create(pool, NULL, "");    /* Initialize global ignores, for absolute and relative paths */
     ft_load_defaults(conf);     /* Load default ignore patterns */
     conf->mask = OPTION_RECSD;
     conf->threshold = PUZZLE_CVEC_SIMILARITY_LOWER_THRESHOLD;
-- 
2.43.0


From 307c5a7f88ca843370c362e64f26818c35250ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:03 +0000
Subject: [PATCH 17/30] fix: long ignore patterns must not overflow the regular
 expression buffer

---
 src/ft_ignore.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index c79a99c..7f0e780 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -28,7 +28,9 @@
 
 enum
 {
-    INITIAL_PATTERNS_CAPACITY = 16
+    INITIAL_PATTERNS_CAPACITY = 16,
+    PCRE_MAX_EXPANSION = 5,     /* a single '*' becomes "[^/]*" */
+    PCRE_ANCHORS_LEN = 16       /* "(^|/)", "(/|$)" and the terminator */
 };
 
 /**
@@ -273,7 +275,7 @@ static void convert_glob_body_to_pcre(const char **pattern_cursor, char **result
 
 static char *ft_glob_to_pcre(const char *pattern, apr_pool_t *pool, unsigned int *flags)
 {
-    char *result = apr_pcalloc(pool, MAX_PATTERN_LEN);
+    char *result = apr_pcalloc(pool, strlen(pattern) * PCRE_MAX_EXPANSION + PCRE_ANCHORS_LEN);
     char *result_cursor = result;
     struct pcre_anchor_params_t anchor_params = { 0 };
     const char *pattern_cursor = handle_negation_and_slashes(pattern, flags, &anchor_params.starts_with_slash);
-- 
2.43.0


From 623768caac42eeef77fcec42fd74eb0f6e499211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:35 +0000
Subject: [PATCH 18/30] fix: waiting for the thread pool must survive spurious
 wakeups and release its lock on failure

---
 src/napr_threadpool.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/napr_threadpool.c b/src/napr_threadpool.c
index f464623..d62a8eb 100644
--- a/src/napr_threadpool.c
+++ b/src/napr_threadpool.c
@@ -290,10 +290,14 @@ extern apr_status_t napr_threadpool_wait(napr_threadpool_t *threadpool)
          */
         threadpool->run |= 0x1;
 
-        status = apr_thread_cond_wait(threadpool->threadpool_update, threadpool->threadpool_mutex);
-        if (APR_SUCCESS != status) {
-            DEBUG_ERR("error calling apr_thread_cond_wait: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
-            return status;
+        while (!(threadpool->ended & 0x1)) {
+            status = apr_thread_cond_wait(threadpool->threadpool_update, threadpool->threadpool_mutex);
+            if (APR_SUCCESS != status) {
+                DEBUG_ERR("error calling apr_thread_cond_wait: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
+                threadpool->run &= 0x0;
+                (void) apr_thread_mutex_unlock(threadpool->threadpool_mutex);
+                return status;
+            }
         }
         /* DEBUG_DBG("Awake"); */
         /* Because all data have been processed, we are no more running  */
-- 
2.43.0


From 7b49b124233b3876cffd55eab5229860b54d0ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:54 +0000
Subject: [PATCH 19/30] fix: stop the worker threads when starting the pool or
 queueing work fails

---
 src/ft_image.c        | 2 ++
 src/ft_process.c      | 1 +
 src/napr_threadpool.c | 3 +++
 3 files changed, 6 insertions(+)

diff --git a/src/ft_image.c b/src/ft_image.c
index a33fee4..927a187 100644
--- a/src/ft_image.c
+++ b/src/ft_image.c
@@ -160,6 +160,8 @@ static apr_status_t compute_image_vectors(ft_conf_t *conf, PuzzleContext * conte
         status = napr_threadpool_add(threadpool, task);
         if (APR_SUCCESS != status) {
             DEBUG_ERR("error calling napr_threadpool_add: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
+            napr_threadpool_wait(threadpool);
+            (void) napr_threadpool_shutdown(threadpool);
             return status;
         }
     }
diff --git a/src/ft_process.c b/src/ft_process.c
index e738aa0..a8bf4c4 100644
--- a/src/ft_process.c
+++ b/src/ft_process.c
@@ -213,6 +213,7 @@ static apr_status_t dispatch_hashing_tasks(ft_conf_t *conf, apr_pool_t *gc_pool,
                     if (APR_SUCCESS != status) {
                         DEBUG_ERR("error calling napr_threadpool_add: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
                         napr_threadpool_wait(threadpool);
+                        (void) napr_threadpool_shutdown(threadpool);
                         apr_thread_mutex_destroy(h_ctx.stats_mutex);
                         return status;
                     }
diff --git a/src/napr_threadpool.c b/src/napr_threadpool.c
index d62a8eb..a930b32 100644
--- a/src/napr_threadpool.c
+++ b/src/napr_threadpool.c
@@ -235,6 +235,9 @@ extern apr_status_t napr_threadpool_init(napr_threadpool_t **threadpool, void *c
         status = apr_thread_create(&((*threadpool)->thread[idx]), NULL, napr_threadpool_loop, (*threadpool), (*threadpool)->pool);
         if (APR_SUCCESS != status) {
             DEBUG_ERR("error calling apr_thread_create: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
+            /* Do not leave the threads already created running on a dead pool */
+            (*threadpool)->nb_thread = idx;
+            (void) napr_threadpool_shutdown(*threadpool);
             return status;
         }
     }
-- 
2.43.0


From 1df0eddffc6fe88620edeac049bacab13e5662d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:55 +0000
Subject: [PATCH 20/30] fix: a failed locked heap insertion must release the
 heap lock

---
 src/napr_heap.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/napr_heap.c b/src/napr_heap.c
index 2e1e723..2add388 100644
--- a/src/napr_heap.c
+++ b/src/napr_heap.c
@@ -237,9 +237,12 @@ int napr_heap_insert_r(napr_heap_t *heap, void *datum)
     if (1 == heap->mutex_set) {
         return_code = apr_thread_mutex_lock(heap->mutex);
         if (APR_SUCCESS == return_code) {
+            apr_status_t unlock_status = APR_SUCCESS;
+
             return_code = napr_heap_insert(heap, datum);
+            unlock_status = apr_thread_mutex_unlock(heap->mutex);
             if (0 == return_code) {
-                return_code = apr_thread_mutex_unlock(heap->mutex);
+                return_code = unlock_status;
             }
         }
         else {
-- 
2.43.0


From ede01749546b474271ea0c4c022ce7b1d70a0e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:31 +0000
Subject: [PATCH 21/30] fix: archive extraction releases its handles and
 restores the umask on every failing path

---
 src/ft_archive.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/ft_archive.c b/src/ft_archive.c
index bf5d8ea..9cde46a 100644
--- a/src/ft_archive.c
+++ b/src/ft_archive.c
@@ -80,22 +80,26 @@ char *ft_archive_untar_file(ft_file_t *file, apr_pool_t *pool)
     result_value = archive_read_support_filter_all(archive_handle);
     if (0 != result_value) {
         DEBUG_ERR("error calling archive_read_support_filter_all(): %s", archive_error_string(archive_handle));
+        archive_read_free(archive_handle);
         return NULL;
     }
     result_value = archive_read_support_format_all(archive_handle);
     if (0 != result_value) {
         DEBUG_ERR("error calling archive_read_support_format_all(): %s", archive_error_string(archive_handle));
+        archive_read_free(archive_handle);
         return NULL;
     }
     result_value = archive_read_open_filename(archive_handle, file->path, ARCHIVE_BLOCK_SIZE);
     if (0 != result_value) {
         DEBUG_ERR("error calling archive_read_open_filename(%s): %s", file->path, archive_error_string(archive_handle));
+        archive_read_free(archive_handle);
         return NULL;
     }
 
     ext = archive_write_disk_new();
     if (NULL == ext) {
         DEBUG_ERR("error calling archive_write_disk_new()");
+        archive_read_free(archive_handle);
         return NULL;
     }
 
@@ -103,10 +107,14 @@ char *ft_archive_untar_file(ft_file_t *file, apr_pool_t *pool)
         result_value = archive_read_next_header(archive_handle, &entry);
         if (result_value == ARCHIVE_EOF) {
             DEBUG_ERR("subpath [%s] not found in archive [%s]", file->subpath, file->path);
+            archive_write_free(ext);
+            archive_read_free(archive_handle);
             return NULL;
         }
         if (result_value != ARCHIVE_OK) {
             DEBUG_ERR("error in archive (%s): %s", file->path, archive_error_string(archive_handle));
+            archive_write_free(ext);
+            archive_read_free(archive_handle);
             return NULL;
         }
 
@@ -120,11 +128,13 @@ char *ft_archive_untar_file(ft_file_t *file, apr_pool_t *pool)
              */
             tmpfile = apr_pstrdup(pool, "/tmp/ftwinXXXXXX");
             result_value = mkstemp(tmpfile);
+            umask(current_mode);
             if (result_value < 0) {
                 DEBUG_ERR("error creating tmpfile %s", tmpfile);
+                archive_write_free(ext);
+                archive_read_free(archive_handle);
                 return NULL;
             }
-            umask(current_mode);
             close(result_value);
 
             archive_entry_copy_pathname(entry, tmpfile);
@@ -134,12 +144,16 @@ char *ft_archive_untar_file(ft_file_t *file, apr_pool_t *pool)
                 result_value = copy_data(archive_handle, ext);
                 if (result_value != ARCHIVE_OK) {
                     DEBUG_ERR("error while copying data from archive (%s)", file->path);
+                    archive_write_free(ext);
+                    archive_read_free(archive_handle);
                     (void) apr_file_remove(tmpfile, pool);
                     return NULL;
                 }
             }
             else {
                 DEBUG_ERR("error in archive (%s): %s", file->path, archive_error_string(archive_handle));
+                archive_write_free(ext);
+                archive_read_free(archive_handle);
                 (void) apr_file_remove(tmpfile, pool);
                 return NULL;
             }
-- 
2.43.0


From bf9ea45dbec51991b1df3a54d8bc46fe1cc10090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:13 +0000
Subject: [PATCH 22/30] fix: updating a cache entry must succeed when its page
 was already changed by the transaction

---
 src/napr_cache.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/napr_cache.c b/src/napr_cache.c
index 0ad38c8..b4b2a0a 100644
--- a/src/napr_cache.c
+++ b/src/napr_cache.c
@@ -332,6 +332,8 @@ apr_status_t napr_cache_upsert_in_txn(napr_cache_t *cache, const char *path, con
 {
     napr_db_val_t key;
     napr_db_val_t value;
+    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
+    apr_status_t status;
 
     if (!cache || !path || !entry) {
         return APR_EINVAL;
@@ -350,7 +352,16 @@ apr_status_t napr_cache_upsert_in_txn(napr_cache_t *cache, const char *path, con
     value.size = sizeof(napr_cache_entry_t);
 
     /* Insert or update in database */
-    return napr_db_put(cache->active_txn, &key, &value);
+    status = napr_db_put(cache->active_txn, &key, &value);
+    if (APR_EEXIST == status) {
+        /* The leaf was already changed by this transaction: replace the entry */
+        status = napr_db_del(cache->active_txn, &key, NULL);
+        if (status == APR_SUCCESS) {
+            status = napr_db_put(cache->active_txn, &key, &value);
+        }
+    }
+
+    return status;
 }
 
 /* ========================================================================
-- 
2.43.0


From a076813124477e565ddf76cbccfa05a0888cec2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:31 +0000
Subject: [PATCH 23/30] fix: beginning a cache transaction must not overwrite
 one that is still active

---
 src/napr_cache.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/napr_cache.c b/src/napr_cache.c
index b4b2a0a..4e5790a 100644
--- a/src/napr_cache.c
+++ b/src/napr_cache.c
@@ -197,6 +197,10 @@ apr_status_t napr_cache_begin_read(napr_cache_t *cache, apr_pool_t *pool)
         return APR_EINVAL;
     }
 
+    if (cache->active_txn) {
+        return APR_EINVAL;      /* A transaction is already active */
+    }
+
     /* Begin read-only transaction on underlying DB */
     status = napr_db_txn_begin(cache->db_env, NAPR_DB_RDONLY, &cache->active_txn);
     if (status != APR_SUCCESS) {
@@ -215,6 +219,10 @@ apr_status_t napr_cache_begin_write(napr_cache_t *cache, apr_pool_t *pool)
         return APR_EINVAL;
     }
 
+    if (cache->active_txn) {
+        return APR_EINVAL;      /* A transaction is already active */
+    }
+
     /* Begin write transaction on underlying DB */
     status = napr_db_txn_begin(cache->db_env, 0, &cache->active_txn);
     if (status != APR_SUCCESS) {
-- 
2.43.0


From 30fbad3bf7197267c6f1706fdbebb5c1eb76a155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:30 +0000
Subject: [PATCH 24/30] fix: a pattern that ends in a double star and a slash
 must match directories

---
 src/ft_ignore.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index 7f0e780..df2648e 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -159,7 +159,7 @@ static void handle_star(const char **pattern_cursor, char **result_cursor)
 {
     if (*(*pattern_cursor + 1) == '*') {
         /* Double star: ** */
-        if (*(*pattern_cursor + 2) == '/') {
+        if (*(*pattern_cursor + 2) == '/' && *(*pattern_cursor + 3) != '\0') {
             /* * *//* pattern: matches zero or more directory levels */
             append_pcre_sequence(result_cursor, "(.*/)?");
             *pattern_cursor += 3;
-- 
2.43.0


From af3b47d4e22edc0f757588e7901028729e8eb42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:20 +0000
Subject: [PATCH 25/30] fix: a key just below the middle of a full page was
 lost when the page was split

---
 src/napr_db.c | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index 8d06ddd..b1f8af3 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -895,13 +895,14 @@ static apr_status_t insert_into_free_db(napr_db_txn_t *txn, const napr_db_val_t
         return status;
     }
 
-    apr_status_t search_status = db_page_search(left_page, &current_key, &index);
-    if (search_status == APR_NOTFOUND && index >= left_page->num_keys) {
-        (void) db_page_search(right_page, &current_key, &index);
-        status = db_page_insert(right_page, index, &current_key, &current_data, 0);
+    /* Keys smaller than the divider, the first key of the right page, are looked up in the left page */
+    apr_status_t search_status = db_page_search(right_page, &current_key, &index);
+    if (search_status == APR_NOTFOUND && index == 0) {
+        (void) db_page_search(left_page, &current_key, &index);
+        status = db_page_insert(left_page, index, &current_key, &current_data, 0);
     }
     else {
-        status = db_page_insert(left_page, index, &current_key, &current_data, 0);
+        status = db_page_insert(right_page, index, &current_key, &current_data, 0);
     }
     if (status != APR_SUCCESS) {
         return status;
@@ -1579,13 +1580,14 @@ static apr_status_t handle_page_split(napr_db_txn_t *txn, DB_PageHeader *leaf_pa
         return status;
     }
 
-    apr_status_t search_status = db_page_search(left_page, current_key, &index);
-    if (search_status == APR_NOTFOUND && index >= left_page->num_keys) {
-        (void) db_page_search(right_page, current_key, &index);
-        status = db_page_insert(right_page, index, current_key, current_data, 0);
+    /* Keys smaller than the divider, the first key of the right page, are looked up in the left page */
+    apr_status_t search_status = db_page_search(right_page, current_key, &index);
+    if (search_status == APR_NOTFOUND && index == 0) {
+        (void) db_page_search(left_page, current_key, &index);
+        status = db_page_insert(left_page, index, current_key, current_data, 0);
     }
     else {
-        status = db_page_insert(left_page, index, current_key, current_data, 0);
+        status = db_page_insert(right_page, index, current_key, current_data, 0);
     }
     if (status != APR_SUCCESS) {
         return status;
@@ -1637,13 +1639,13 @@ static apr_status_t propagate_split_up_tree(napr_db_txn_t *txn, const pgno_t *pa
             return status;
         }
 
-        apr_status_t search_status = db_page_search(parent_page, current_key, &index);
-        if (search_status == APR_NOTFOUND && index >= parent_page->num_keys) {
-            (void) db_page_search(right_page, current_key, &index);
-            status = db_page_insert(right_page, index, current_key, NULL, *right_child_pgno);
+        apr_status_t search_status = db_page_search(right_page, current_key, &index);
+        if (search_status == APR_NOTFOUND && index == 0) {
+            (void) db_page_search(parent_page, current_key, &index);
+            status = db_page_insert(parent_page, index, current_key, NULL, *right_child_pgno);
         }
         else {
-            status = db_page_insert(parent_page, index, current_key, NULL, *right_child_pgno);
+            status = db_page_insert(right_page, index, current_key, NULL, *right_child_pgno);
         }
 
         if (status != APR_SUCCESS) {
@@ -1765,13 +1767,13 @@ static apr_status_t propagate_split_up_tree_in_tree(napr_db_txn_t *txn, const pg
             return status;
         }
 
-        apr_status_t search_status = db_page_search(parent_page, current_key, &index);
-        if (search_status == APR_NOTFOUND && index >= parent_page->num_keys) {
-            (void) db_page_search(right_page, current_key, &index);
-            status = db_page_insert(right_page, index, current_key, NULL, *pgnos.right_child_pgno);
+        apr_status_t search_status = db_page_search(right_page, current_key, &index);
+        if (search_status == APR_NOTFOUND && index == 0) {
+            (void) db_page_search(parent_page, current_key, &index);
+            status = db_page_insert(parent_page, index, current_key, NULL, *pgnos.right_child_pgno);
         }
         else {
-            status = db_page_insert(parent_page, index, current_key, NULL, *pgnos.right_child_pgno);
+            status = db_page_insert(right_page, index, current_key, NULL, *pgnos.right_child_pgno);
         }
 
         if (status != APR_SUCCESS) {
-- 
2.43.0


From 85163716c9659fe7340e6cb4c1074449c44ca021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:56 +0000
Subject: [PATCH 26/30] fix: keys below the first recorded minimum were lost
 when their page was split

---
 src/napr_db.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/napr_db.c b/src/napr_db.c
index b1f8af3..ff1c6a5 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -1624,6 +1624,11 @@ static apr_status_t propagate_split_up_tree(napr_db_txn_t *txn, const pgno_t *pa
         }
 
         (void) db_page_search(parent_page, current_key, &index);
+        if (index == 0) {
+            /* The first child holds keys below its recorded minimum: let its entry stand for every smaller key */
+            db_page_branch_node(parent_page, 0)->key_size = 0;
+            index = 1;
+        }
 
         status = db_page_insert(parent_page, index, current_key, NULL, *right_child_pgno);
         if (status == APR_SUCCESS) {
@@ -1752,6 +1757,11 @@ static apr_status_t propagate_split_up_tree_in_tree(napr_db_txn_t *txn, const pg
         }
 
         (void) db_page_search(parent_page, current_key, &index);
+        if (index == 0) {
+            /* The first child holds keys below its recorded minimum: let its entry stand for every smaller key */
+            db_page_branch_node(parent_page, 0)->key_size = 0;
+            index = 1;
+        }
 
         status = db_page_insert(parent_page, index, current_key, NULL, *pgnos.right_child_pgno);
         if (status == APR_SUCCESS) {
-- 
2.43.0


From 45df8943d7e5bf2d7a9e2b4a16c88030add39396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:26 +0000
Subject: [PATCH 27/30] fix: splitting a page left the space of the moved
 entries unusable

---
 src/napr_db_tree.c | 75 ++++++++++++++++++++++++----------------------
 1 file changed, 39 insertions(+), 36 deletions(-)

diff --git a/src/napr_db_tree.c b/src/napr_db_tree.c
index 7f1961c..0aa203a 100644
--- a/src/napr_db_tree.c
+++ b/src/napr_db_tree.c
@@ -544,6 +544,41 @@ apr_status_t db_page_delete(DB_PageHeader *page, uint16_t index)
     return APR_SUCCESS;
 }
 
+/**
+ * @brief Pack the nodes of a page against its end.
+ *
+ * Nodes of entries that are no longer in the slot array leave holes in the
+ * data area; afterwards all free space lies between 'lower' and 'upper'.
+ *
+ * @param page Page to pack (must be writable/dirty)
+ */
+static void db_page_compact(DB_PageHeader *page)
+{
+    uint8_t packed[PAGE_SIZE];
+    uint16_t *slots = db_page_slots(page);
+    uint16_t upper = PAGE_SIZE;
+
+    for (uint16_t idx = 0; idx < page->num_keys; idx++) {
+        uint16_t node_size = 0;
+
+        if (page->flags & P_LEAF) {
+            DB_LeafNode *node = db_page_leaf_node(page, idx);
+            node_size = (uint16_t) (sizeof(DB_LeafNode) + node->key_size + node->data_size);
+        }
+        else {
+            DB_BranchNode *node = db_page_branch_node(page, idx);
+            node_size = (uint16_t) (sizeof(DB_BranchNode) + node->key_size);
+        }
+
+        upper -= node_size;
+        memcpy(packed + upper, (char *) page + slots[idx], node_size);
+        slots[idx] = upper;
+    }
+
+    memcpy((char *) page + upper, packed + upper, PAGE_SIZE - upper);
+    page->upper = upper;
+}
+
 /**
  * @brief Split a leaf page when it becomes full.
  *
@@ -639,22 +674,8 @@ apr_status_t db_split_leaf(napr_db_txn_t *txn, DB_PageHeader *left_page, DB_Page
     left_page->num_keys = split_point;
     left_page->lower = sizeof(DB_PageHeader) + (split_point * sizeof(uint16_t));
 
-    /* CRITICAL BUG FIX: Recalculate upper pointer to reflect only remaining entries
-     * After moving entries [split_point..end] to right page, their data is still
-     * in left page's data area. We need to find the minimum offset among entries
-     * [0..split_point-1] to reclaim that space.
-     */
-    {
-        uint16_t *left_slots = db_page_slots(left_page);
-        uint16_t min_offset = PAGE_SIZE;
-        for (uint16_t i = 0; i < split_point; i++) {
-            uint16_t offset = left_slots[i];
-            if (offset < min_offset) {
-                min_offset = offset;
-            }
-        }
-        left_page->upper = min_offset;
-    }
+    /* The entries left behind are packed together, so that the space of the moved ones is free again */
+    db_page_compact(left_page);
 
     /* Store the right page in dirty pages hash */
     pgno_key = apr_palloc(txn->pool, sizeof(pgno_t));
@@ -782,26 +803,8 @@ apr_status_t db_split_branch(napr_db_txn_t *txn, DB_PageHeader *left_page, DB_Pa
     left_page->num_keys = split_point;
     left_page->lower = sizeof(DB_PageHeader) + (split_point * sizeof(uint16_t));
 
-    /* CRITICAL BUG FIX: Recalculate upper pointer to reflect only remaining entries
-     * After moving entries [split_point..end] to right page, their data is still
-     * in left page's data area. We need to find the minimum offset among entries
-     * [0..split_point-1] to reclaim that space.
-     */
-    if (split_point > 0) {
-        uint16_t *left_slots = db_page_slots(left_page);
-        uint16_t min_offset = PAGE_SIZE;
-        for (uint16_t i = 0; i < split_point; i++) {
-            uint16_t offset = left_slots[i];
-            if (offset < min_offset) {
-                min_offset = offset;
-            }
-        }
-        left_page->upper = min_offset;
-    }
-    else {
-        /* Edge case: all entries moved to right */
-        left_page->upper = PAGE_SIZE;
-    }
+    /* The entries left behind are packed together, so that the space of the moved ones is free again */
+    db_page_compact(left_page);
 
     /* Set divider key = minimum key of right page (right[0].key)
      * This will be pushed up to the parent to guide searches.
-- 
2.43.0


From 9b328615cff3d933acd76fb9dd73c8a06e16c1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:21 +0000
Subject: [PATCH 28/30] fix: the second page taken from an entry of freed pages
 could lose the rest of the entry

---
 src/napr_db.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index ff1c6a5..53b1f6e 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -1053,9 +1053,14 @@ static apr_status_t update_or_delete_reclaimed_entry(napr_db_txn_t *txn, const n
     // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
     apr_status_t status;
     size_t num_pages = data->size / sizeof(pgno_t);
+    txnid_t entry_txnid = 0;
+    napr_db_val_t entry_key = {.data = &entry_txnid,.size = sizeof(txnid_t) };
+
+    /* The key lies in the page the deletion below moves entries in */
+    memcpy(&entry_txnid, key->data, sizeof(txnid_t));
 
     if (num_pages == 1) {
-        return napr_db_del(txn, key, NULL);
+        return napr_db_del(txn, &entry_key, NULL);
     }
 
     pgno_t *freed_pages = (pgno_t *) data->data;
@@ -1067,12 +1072,12 @@ static apr_status_t update_or_delete_reclaimed_entry(napr_db_txn_t *txn, const n
 
     napr_db_val_t new_data = {.data = remaining_pages,.size = (num_pages - 1) * sizeof(pgno_t) };
 
-    status = napr_db_del(txn, key, NULL);
+    status = napr_db_del(txn, &entry_key, NULL);
     if (status != APR_SUCCESS) {
         return status;
     }
 
-    return napr_db_put(txn, key, &new_data);
+    return napr_db_put(txn, &entry_key, &new_data);
 }
 
 /**
-- 
2.43.0


From dfe150d47c293e3fe0b1f45fc60e89bf4499ee7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:51 +0000
Subject: [PATCH 29/30] fix: pages beyond the memory map were handed out and
 later read outside it

---
 src/napr_db_tree.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/napr_db_tree.c b/src/napr_db_tree.c
index 0aa203a..ddefb8f 100644
--- a/src/napr_db_tree.c
+++ b/src/napr_db_tree.c
@@ -298,6 +298,11 @@ apr_status_t db_page_alloc(napr_db_txn_t *txn, uint32_t count, pgno_t *pgno_out)
         /* If reclamation failed (APR_NOTFOUND or error), fall through to file extension */
     }
 
+    /* Pages beyond the memory map could be written, but not read back */
+    if (txn->new_last_pgno + count >= txn->env->mapsize / PAGE_SIZE) {
+        return APR_ENOSPC;
+    }
+
     /* Fall back to extending the file (original behavior) */
     first_pgno = txn->new_last_pgno + 1;
     txn->new_last_pgno += count;
-- 
2.43.0


From f74585c7d0b166c30767cb35d8adca1d840fec6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:47 +0000
Subject: [PATCH 30/30] fix: a database larger than the memory map was opened
 and read outside the map

---
 src/napr_db.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index 53b1f6e..3dc3fca 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -262,7 +262,13 @@ static apr_status_t db_init_meta(napr_db_env_t *env, int is_new_file)
         return APR_SUCCESS;
     }
 
-    return select_live_meta(env);
+    apr_status_t status = select_live_meta(env);
+    if (status == APR_SUCCESS && env->live_meta->last_pgno >= env->mapsize / PAGE_SIZE) {
+        /* Some pages of this database lie outside the map */
+        env->live_meta = NULL;
+        return APR_ENOSPC;
+    }
+    return status;
 }
 
 /**
-- 
2.43.0

