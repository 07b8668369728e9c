"""Behaviour-preserving rewrites of whole functions, third part: free list, splits, cursor, worker pool, scan."""
import sys
_m = sys.modules.get('mutants') or sys.modules['__main__']
N = _m.N
D, CU, TP = 'napr_db.c', 'napr_db_cursor.c', 'napr_threadpool.c'
DB = 'D01 D02 D03 D04 D05 D06 D09 D11 D13 D16'
POOL = 'S13 S21'

N('rz-free-insert', DB, (D, '@fn:insert_into_free_db', '''
static apr_status_t writable_path(napr_db_txn_t *txn, const pgno_t *path, uint16_t path_len, DB_PageHeader **leaf)
{
    uint16_t level = path_len;

    while (level-- > 0) {
        pgno_t pgno = path[level];
        DB_PageHeader *page = apr_hash_get(txn->dirty_pages, &pgno, sizeof(pgno));

        if (page == NULL) {
            DB_PageHeader *mapped = (DB_PageHeader *) ((char *) txn->env->map_addr + (pgno * PAGE_SIZE));
            apr_status_t status = db_page_get_writable(txn, mapped, &page);

            if (status != APR_SUCCESS) {
                return status;
            }
        }
        if (level + 1 == path_len) {
            *leaf = page;
        }
    }
    return APR_SUCCESS;
}

static apr_status_t insert_beside(DB_PageHeader *left, DB_PageHeader *right, const napr_db_val_t *key, const napr_db_val_t *data, pgno_t child)
{
    uint16_t index = 0;
    DB_PageHeader *target = right;

    if (db_page_search(right, key, &index) == APR_NOTFOUND && index == 0) {
        target = left;
        (void) db_page_search(left, key, &index);
    }
    return db_page_insert(target, index, key, data, child);
}

static apr_status_t insert_into_free_db(napr_db_txn_t *txn, const napr_db_val_t *key, const napr_db_val_t *data, pgno_t *new_free_db_root_out)
{
    pgno_t path[MAX_TREE_DEPTH] = { 0 };
    uint16_t path_len = 0;
    DB_PageHeader *leaf = NULL;
    DB_PageHeader *right = NULL;
    uint16_t index = 0;
    napr_db_val_t divider = { 0 };
    pgno_t right_pgno = 0;
    apr_status_t status = db_find_leaf_page_with_path_in_tree(txn, txn->free_db_root_pgno, key, path, &path_len, &leaf);

    if (status != APR_SUCCESS) {
        return initialize_empty_free_db(txn, key, data, new_free_db_root_out);
    }
    if (db_page_search(leaf, key, &index) == APR_SUCCESS) {
        return APR_EEXIST;
    }
    status = writable_path(txn, path, path_len, &leaf);
    if (status == APR_SUCCESS) {
        status = db_page_insert(leaf, index, key, data, 0);
        if (status == APR_SUCCESS) {
            *new_free_db_root_out = path[0];
            return APR_SUCCESS;
        }
    }
    if (status != APR_ENOSPC) {
        return status;
    }

    status = db_split_leaf(txn, leaf, &right, &divider);
    if (status == APR_SUCCESS) {
        status = insert_beside(leaf, right, key, data, 0);
    }
    if (status != APR_SUCCESS) {
        return status;
    }

    right_pgno = right->pgno;
    status = propagate_split_up_tree_in_tree(txn, path, path_len, &divider, (DB_SplitPgnos) {.right_child_pgno = &right_pgno,.new_root_out = new_free_db_root_out});
    switch (status) {
    case APR_SUCCESS:
        return handle_root_split_in_tree(txn, path[0], right_pgno, &divider, new_free_db_root_out);
    case APR_INCOMPLETE:
        *new_free_db_root_out = path[0];
        return APR_SUCCESS;
    default:
        return status;
    }
}
'''))
N('rz-free-populate', DB, (D, '@fn:populate_free_db', '''
static apr_status_t populate_free_db(napr_db_txn_t *txn, pgno_t *new_free_db_root_out)
{
    if (!txn || !new_free_db_root_out) {
        return APR_EINVAL;
    }

    const pgno_t root = txn->free_db_root_pgno;
    const apr_array_header_t *freed = txn->freed_pages;

    *new_free_db_root_out = root;
    if (freed != NULL && freed->nelts != 0) {
        txnid_t id = txn->txnid;
        napr_db_val_t key = {.data = &id,.size = sizeof(id) };
        napr_db_val_t data = {.data = freed->elts,.size = (apr_size_t) freed->nelts * freed->elt_size };
        pgno_t limit = txn->new_last_pgno;

        if ((txn->flags & NAPR_DB_RDONLY) != 0) {
            limit = txn->env->live_meta->last_pgno;
        }
        if (root != 0 && root <= limit) {
            return insert_into_free_db(txn, &key, &data, new_free_db_root_out);
        }
        return initialize_empty_free_db(txn, &key, &data, new_free_db_root_out);
    }
    return APR_SUCCESS;
}
'''))
N('rz-propagate', DB, (D, '@fn:propagate_split_up_tree', '''
static uint16_t child_slot(DB_PageHeader *parent, const napr_db_val_t *key)
{
    uint16_t slot = 0;

    (void) db_page_search(parent, key, &slot);
    if (slot != 0) {
        return slot;
    }
    db_page_branch_node(parent, 0)->key_size = 0;
    return 1;
}

static apr_status_t split_and_place(napr_db_txn_t *txn, DB_PageHeader *parent, napr_db_val_t *key, pgno_t *child)
{
    DB_PageHeader *right = NULL;
    DB_PageHeader *target = NULL;
    napr_db_val_t divider = { 0 };
    uint16_t slot = 0;
    apr_status_t status = db_split_branch(txn, parent, &right, &divider);

    if (status != APR_SUCCESS) {
        return status;
    }
    target = right;
    if (db_page_search(right, key, &slot) == APR_NOTFOUND && slot == 0) {
        target = parent;
        (void) db_page_search(parent, key, &slot);
    }
    status = db_page_insert(target, slot, key, NULL, *child);
    if (status == APR_SUCCESS) {
        *child = right->pgno;
        *key = divider;
    }
    return status;
}

static apr_status_t propagate_split_up_tree(napr_db_txn_t *txn, const pgno_t *path, uint16_t path_len, napr_db_val_t *current_key, pgno_t *right_child_pgno)
{
    int level = (int) path_len - 1;

    while (--level >= 0) {
        apr_status_t status = APR_SUCCESS;
        pgno_t number = path[level];
        DB_PageHeader *parent = apr_hash_get(txn->dirty_pages, &number, sizeof(number));

        if (parent == NULL) {
            return APR_EGENERAL;
        }
        status = db_page_insert(parent, child_slot(parent, current_key), current_key, NULL, *right_child_pgno);
        if (status == APR_SUCCESS) {
            return APR_INCOMPLETE;
        }
        if (status == APR_ENOSPC) {
            status = split_and_place(txn, parent, current_key, right_child_pgno);
        }
        if (status != APR_SUCCESS) {
            return status;
        }
    }
    return APR_SUCCESS;
}
'''))
N('rz-reclaim', DB, (D, '@fn:db_reclaim_page_from_free_db', '''
static apr_status_t take_first_free(napr_db_txn_t *txn, txnid_t horizon, pgno_t *page_out)
{
    napr_db_val_t key = { 0 };
    napr_db_val_t data = { 0 };
    napr_db_cursor_t *cursor = NULL;
    apr_status_t status = napr_db_cursor_open(txn, &cursor);

    if (status != APR_SUCCESS) {
        return status;
    }
    status = find_reclaimable_entry(txn, horizon, cursor, &key, &data);
    napr_db_cursor_close(cursor);
    if (status != APR_SUCCESS) {
        return status;
    }
    *page_out = *(pgno_t *) data.data;
    return update_or_delete_reclaimed_entry(txn, &key, &data);
}

apr_status_t db_reclaim_page_from_free_db(napr_db_txn_t *txn, pgno_t *reclaimed_pgno_out)
{
    apr_status_t status = APR_SUCCESS;
    txnid_t horizon = 0;
    pgno_t data_root = 0;

    if (!txn || !reclaimed_pgno_out) {
        return APR_EINVAL;
    }
    if (txn->free_db_root_pgno == 0 || db_get_oldest_reader_txnid(txn->env, &horizon) != APR_SUCCESS) {
        return APR_NOTFOUND;
    }

    data_root = txn->root_pgno;
    txn->root_pgno = txn->free_db_root_pgno;
    status = take_first_free(txn, horizon != 0 ? horizon : txn->txnid, reclaimed_pgno_out);
    txn->root_pgno = data_root;
    return status;
}
'''))
N('rz-extend', DB, (D, '@fn:extend_database_file', '''
static apr_status_t write_byte_at(apr_file_t *file, apr_off_t where)
{
    const char nothing = 0;
    apr_size_t length = sizeof(nothing);
    apr_status_t status = apr_file_seek(file, APR_SET, &where);

    if (status == APR_SUCCESS) {
        status = apr_file_write(file, &nothing, &length);
    }
    return status;
}

static apr_status_t extend_database_file(napr_db_txn_t *txn)
{
    apr_file_t *file = txn->env->file;
    apr_off_t end = 0;
    apr_status_t status = APR_SUCCESS;

    if (txn->new_last_pgno <= txn->env->live_meta->last_pgno) {
        return APR_SUCCESS;
    }
    status = apr_file_seek(file, APR_END, &end);
    if (status == APR_SUCCESS && end < (apr_off_t) (txn->new_last_pgno + 1) * PAGE_SIZE) {
        status = write_byte_at(file, (apr_off_t) (txn->new_last_pgno + 1) * PAGE_SIZE - 1);
        if (status == APR_SUCCESS) {
            status = apr_file_sync(file);
        }
    }
    return status;
}
'''))
N('rz-file-open', DB, (D, '@fn:db_file_open', '''
static apr_status_t create_file(napr_db_env_t *env, const char *path, apr_int32_t flags)
{
    apr_status_t status = apr_file_open(&env->file, path, flags | APR_CREATE | APR_TRUNCATE, APR_FPROT_UREAD | APR_FPROT_UWRITE, env->pool);

    if (status == APR_SUCCESS) {
        status = apr_file_trunc(env->file, (apr_off_t) PAGE_SIZE + PAGE_SIZE);
        if (status != APR_SUCCESS) {
            apr_file_close(env->file);
            env->file = NULL;
        }
    }
    return status;
}

static apr_status_t db_file_open(napr_db_env_t *env, const char *path, int *is_new_file)
{
    apr_finfo_t info;
    const apr_int32_t flags = APR_READ | APR_BINARY | ((env->flags & NAPR_DB_RDONLY) ? 0 : APR_WRITE);

    const apr_status_t found = apr_stat(&info, path, APR_FINFO_SIZE, env->pool);

    switch (found) {
    case APR_SUCCESS:
        *is_new_file = 0;
        return apr_file_open(&env->file, path, flags, APR_OS_DEFAULT, env->pool);
    case APR_ENOENT:
        if ((env->flags & NAPR_DB_CREATE) == 0) {
            return APR_ENOENT;
        }
        *is_new_file = 1;
        return create_file(env, path, flags);
    default:
        return found;
    }
}
'''))
N('rz-leaf-split', DB, (D, '@fn:handle_page_split', '''
static apr_status_t place_after_split(DB_PageHeader *left, DB_PageHeader *right, const napr_db_val_t *key, const napr_db_val_t *data)
{
    uint16_t slot = 0;
    int below = 0;

    below = (db_page_search(right, key, &slot) == APR_NOTFOUND) && (slot == 0);
    if (!below) {
        return db_page_insert(right, slot, key, data, 0);
    }
    (void) db_page_search(left, key, &slot);
    return db_page_insert(left, slot, key, data, 0);
}

static apr_status_t handle_page_split(napr_db_txn_t *txn, DB_PageHeader *leaf_page, const pgno_t *path, uint16_t path_len, napr_db_val_t *current_key, napr_db_val_t *current_data)
{
    DB_PageHeader *sibling = NULL;
    napr_db_val_t divider = { 0 };
    pgno_t child = 0;
    apr_status_t status = db_split_leaf(txn, leaf_page, &sibling, &divider);

    if (status == APR_SUCCESS) {
        status = place_after_split(leaf_page, sibling, current_key, current_data);
    }
    if (status == APR_SUCCESS) {
        *current_key = divider;
        child = sibling->pgno;
        status = propagate_split_up_tree(txn, path, path_len, current_key, &child);
        if (status == APR_SUCCESS) {
            return handle_root_split(txn, path[0], child, current_key);
        }
        if (status == APR_INCOMPLETE) {
            status = APR_SUCCESS;
        }
    }
    return status;
}
'''))
N('rz-reclaim-rest', DB, (D, '@fn:update_or_delete_reclaimed_entry', '''
static apr_status_t update_or_delete_reclaimed_entry(napr_db_txn_t *txn, const napr_db_val_t *key, const napr_db_val_t *data)
{
    const size_t left = data->size / sizeof(pgno_t) - 1;
    const size_t bytes = left * sizeof(pgno_t);
    txnid_t id = *(const txnid_t *) key->data;
    napr_db_val_t id_key = {.data = &id,.size = sizeof(id) };
    napr_db_val_t rest = { 0 };
    apr_status_t status = APR_SUCCESS;

    if (left > 0) {
        rest.size = bytes;
        rest.data = apr_palloc(txn->pool, bytes);
        if (rest.data == NULL) {
            return APR_ENOMEM;
        }
        memcpy(rest.data, (const pgno_t *) data->data + 1, bytes);
    }
    status = napr_db_del(txn, &id_key, NULL);
    if (status == APR_SUCCESS && left > 0) {
        status = napr_db_put(txn, &id_key, &rest);
    }
    return status;
}
'''))
N('rz-pgno-map', DB, (D, '@fn:build_pgno_map', '''
static apr_status_t build_pgno_map(napr_db_txn_t *txn, apr_hash_t **pgno_map_ptr)
{
    apr_hash_t *map = apr_hash_make(txn->pool);
    apr_hash_index_t *it = NULL;

    if (map == NULL) {
        return APR_ENOMEM;
    }
    it = apr_hash_first(txn->pool, txn->dirty_pages);
    while (it != NULL) {
        const void *key = NULL;
        void *page = NULL;
        pgno_t *pair = apr_palloc(txn->pool, 2 * sizeof(pgno_t));

        if (pair == NULL) {
            return APR_ENOMEM;
        }
        apr_hash_this(it, &key, NULL, &page);
        pair[0] = *(const pgno_t *) key;
        pair[1] = ((DB_PageHeader *) page)->pgno;
        apr_hash_set(map, &pair[0], sizeof(pgno_t), &pair[1]);
        it = apr_hash_next(it);
    }
    *pgno_map_ptr = map;
    return APR_SUCCESS;
}
'''))
N('rz-first-put', DB, (D, '@fn:handle_empty_tree_put', '''
static void blank_leaf(DB_PageHeader *page, pgno_t number)
{
    page->lower = sizeof(DB_PageHeader);
    page->upper = PAGE_SIZE;
    page->flags = P_LEAF;
    page->num_keys = 0;
    page->pgno = number;
}

static apr_status_t handle_empty_tree_put(napr_db_txn_t *txn, const napr_db_val_t *key, const napr_db_val_t *data)
{
    pgno_t *number = apr_pcalloc(txn->pool, sizeof(*number));
    DB_PageHeader *leaf = apr_pcalloc(txn->pool, PAGE_SIZE);
    apr_status_t status = APR_SUCCESS;

    if (number == NULL || leaf == NULL) {
        return APR_ENOMEM;
    }
    status = db_page_alloc(txn, 1, number);
    if (status == APR_SUCCESS) {
        blank_leaf(leaf, *number);
        status = db_page_insert(leaf, 0, key, data, 0);
    }
    if (status == APR_SUCCESS) {
        apr_hash_set(txn->dirty_pages, number, sizeof(*number), leaf);
        txn->root_pgno = *number;
    }
    return status;
}
'''))
N('rz-env-close', DB, (D, '@fn:napr_db_env_close', '''
apr_status_t napr_db_env_close(napr_db_env_t *env)
{
    apr_mmap_t *map = NULL;
    apr_file_t *file = NULL;

    if (env == NULL) {
        return APR_EINVAL;
    }
    map = env->mmap;
    file = env->file;
    env->mmap = NULL;
    env->file = NULL;
    if (map != NULL) {
        env->map_addr = NULL;
        env->live_meta = env->meta0 = env->meta1 = NULL;
        apr_mmap_delete(map);
    }
    if (file != NULL) {
        apr_file_close(file);
    }
    return APR_SUCCESS;
}
'''))
N('rz-cursor-prev', DB, (CU, '@fn:db_cursor_prev', '''
static apr_status_t at_begin(napr_db_cursor_t *cursor)
{
    cursor->eof = 1;
    return APR_NOTFOUND;
}

static apr_status_t db_cursor_prev(napr_db_cursor_t *cursor)
{
    int in_leaf = 1;

    if (!cursor || cursor->top == 0 || cursor->eof) {
        return APR_NOTFOUND;
    }

    while (cursor->top > 0) {
        const uint16_t level = cursor->top - 1;
        const uint16_t index = cursor->stack[level].index;

        if (index == 0) {
            cursor->top = level;
            in_leaf = 0;
            continue;
        }
        cursor->stack[level].index = index - 1;
        if (in_leaf) {
            return APR_SUCCESS;
        }

        apr_status_t status = descend_rightmost(cursor, db_page_branch_node(cursor->stack[level].page, index - 1)->pgno);

        if (status != APR_NOTFOUND) {
            return status;
        }
    }
    return at_begin(cursor);
}
'''), (CU, '@fn:descend_rightmost', '''
static apr_status_t descend_rightmost(napr_db_cursor_t *cursor, pgno_t pgno)
{
    int leaf = 0;

    do {
        DB_PageHeader *page = db_get_page(cursor->txn, pgno);

        if (page == NULL) {
            cursor->eof = 1;
            return APR_EGENERAL;
        }
        if (page->num_keys == 0) {
            return APR_NOTFOUND;
        }

        const uint16_t last = page->num_keys - 1;

        cursor_push(cursor, page, last);
        leaf = (page->flags & P_LEAF) != 0;
        if (!leaf) {
            pgno = db_page_branch_node(page, last)->pgno;
        }
    } while (!leaf);
    return APR_SUCCESS;
}
'''))
N('rz-pool-shutdown', POOL, (TP, '@fn:napr_threadpool_shutdown', '''
static apr_status_t announce_shutdown(napr_threadpool_t *pool)
{
    apr_status_t result = APR_SUCCESS;
    apr_status_t unlocked = APR_SUCCESS;
    apr_status_t locked = apr_thread_mutex_lock(pool->threadpool_mutex);

    if (locked != APR_SUCCESS) {
        return locked;
    }
    pool->shutdown |= 0x1;
    result = apr_thread_cond_broadcast(pool->threadpool_update);
    unlocked = apr_thread_mutex_unlock(pool->threadpool_mutex);
    return result != APR_SUCCESS ? result : unlocked;
}

extern apr_status_t napr_threadpool_shutdown(napr_threadpool_t *threadpool)
{
    apr_status_t status = announce_shutdown(threadpool);
    apr_thread_t **worker = threadpool->thread;
    apr_thread_t **end = worker + threadpool->nb_thread;

    while (status == APR_SUCCESS && worker < end) {
        apr_status_t ignored = APR_SUCCESS;

        status = apr_thread_join(&ignored, *worker++);
    }
    return status;
}
'''), (TP, '@fn:napr_threadpool_loop', '''
static int work_waiting(const napr_threadpool_t *pool)
{
    return !(pool->ended & 0x1) && napr_list_size(pool->list) > 0;
}

static void *APR_THREAD_FUNC napr_threadpool_loop(apr_thread_t *thd, void *rec)
{
    char errbuf[ERR_BUF_SIZE] = { 0 };
    napr_threadpool_t *pool = rec;
    apr_status_t status = apr_thread_mutex_lock(pool->threadpool_mutex);

    if (status != APR_SUCCESS) {
        DEBUG_ERR("error calling apr_thread_mutex_lock: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
        return NULL;
    }
    for (;;) {
        if (status != APR_SUCCESS || (pool->shutdown & 0x1)) {
            break;
        }
        status = work_waiting(pool) ? process_task(pool) : wait_for_task(pool);
    }
    status = apr_thread_mutex_unlock(pool->threadpool_mutex);
    if (status != APR_SUCCESS) {
        DEBUG_ERR("error calling apr_thread_mutex_unlock: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
    }
    return NULL;
}
'''))
SC = 'S01 S02 S05 S08 S10 S11 S12 S20'
N('rz-process', SC, ('ft_process.c', '@fn:ft_process_files', '''
static apr_status_t hash_in_parallel(ft_conf_t *conf, napr_heap_t *heap, apr_pool_t *scratch, apr_size_t count)
{
    apr_status_t status = APR_SUCCESS;

    if (count != 0) {
        status = dispatch_hashing_tasks(conf, scratch, count);
        if (status == APR_SUCCESS) {
            status = collect_hashing_results(conf, heap, scratch);
        }
    }
    return status;
}

apr_status_t ft_process_files(ft_conf_t *conf)
{
    apr_pool_t *scratch = NULL;
    napr_heap_t *kept = NULL;
    apr_size_t count = 0;
    apr_status_t status = apr_pool_create(&scratch, conf->pool);

    if (is_option_set(conf->mask, OPTION_VERBO)) {
        (void) fprintf(stderr, "Referencing files and sizes:\\n");
    }
    if (status == APR_SUCCESS) {
        kept = napr_heap_make(conf->pool, ft_file_cmp);
        status = categorize_files(conf, kept, &count);
        if (status == APR_SUCCESS) {
            status = hash_in_parallel(conf, kept, scratch, count);
        }
        apr_pool_destroy(scratch);
        if (status == APR_SUCCESS) {
            conf->heap = kept;
        }
    }
    return status;
}
'''))
TRV = 'S01 S05 S06 S07 S16 S20'
N('rz-stat', TRV, ('ft_traverse.c', '@fn:get_file_info', '''
static int is_broken_link(const char *filename, apr_finfo_t *finfo, apr_int32_t wanted, apr_pool_t *pool)
{
    return apr_stat(finfo, filename, wanted | APR_FINFO_LINK, pool) == APR_SUCCESS && finfo->filetype == APR_LNK;
}

static apr_status_t get_file_info(const char *filename, apr_finfo_t *finfo, ft_conf_t *conf, apr_pool_t *pool)
{
    const int follow = is_option_set(conf->mask, OPTION_FSYML);
    const apr_int32_t wanted = APR_FINFO_SIZE | APR_FINFO_MTIME | APR_FINFO_TYPE | APR_FINFO_USER | APR_FINFO_GROUP | APR_FINFO_UPROT | APR_FINFO_GPROT | APR_FINFO_IDENT;
    char errbuf[ERR_BUF_SIZE];
    apr_status_t status = apr_stat(finfo, filename, follow ? wanted : (wanted | APR_FINFO_LINK), pool);

    if (status == APR_SUCCESS) {
        return APR_SUCCESS;
    }
    if (!follow || !is_broken_link(filename, finfo, wanted, pool)) {
        DEBUG_ERR("error calling apr_stat on filename %s : %s", filename, apr_strerror(status, errbuf, ERR_BUF_SIZE));
        return status;
    }
    if (is_option_set(conf->mask, OPTION_VERBO)) {
        (void) fprintf(stderr, "Skipping : [%s] (broken link)\\n", filename);
    }
    finfo->filetype = APR_NOFILE;
    return APR_SUCCESS;
}
'''))
N('rz-entry', TRV, ('ft_traverse.c', '@fn:process_directory_entry', '''
static int matches(const pcre *regex, const char *text)
{
    int ovector[MATCH_VECTOR_SIZE];

    return pcre_exec(regex, NULL, text, (int) strlen(text), 0, 0, ovector, MATCH_VECTOR_SIZE) >= 0;
}

static apr_status_t process_directory_entry(const char *fullname, const apr_finfo_t *finfo, ft_conf_t *conf, apr_pool_t *gc_pool, const struct stats *stats, ft_ignore_context_t *current_ctx)
{
    int wanted = 1;

    if (conf->ig_regex != NULL && matches(conf->ig_regex, fullname)) {
        wanted = 0;
    }
    if (wanted && conf->wl_regex != NULL && finfo->filetype != APR_DIR) {
        wanted = matches(conf->wl_regex, fullname);
    }
    return wanted ? traverse_recursive(conf, fullname, gc_pool, stats, current_ctx) : APR_SUCCESS;
}
'''))
N('rz-human', 'S24 S23', ('human_size.c', '@fn:format_human_size', '''
const char *format_human_size(apr_off_t size, apr_pool_t *pool)
{
    static const char *const names[] = { "B", "KiB", "MiB", "GiB", "TiB", "PiB", "EiB" };
    const char *const *name = names;
    double value = (double) size;

    if (value < BYTES_IN_KIBIBYTE) {
        return apr_psprintf(pool, "%d %s", (int) size, *name);
    }
    do {
        value = value / BYTES_IN_KIBIBYTE;
        name++;
    } while (value >= BYTES_IN_KIBIBYTE && name < &names[6]);
    return apr_psprintf(pool, "%.1f %s", value, *name);
}
'''))
N('rz-file-make', 'S09 S23 S02 S20 S05', ('ft_file.c', '@fn:ft_file_make', '''
extern ft_file_t *ft_file_make(apr_pool_t *pool, const char *path, const char *subpath)
{
    apr_finfo_t info;
    ft_file_t *file = apr_pcalloc(pool, sizeof(*file));
    const int member = subpath != NULL && strcmp(path, subpath) != 0;

    file->path = apr_pstrdup(pool, path);
    file->subpath = member ? apr_pstrdup(pool, subpath) : NULL;
    if (apr_stat(&info, member ? file->subpath : path, APR_FINFO_SIZE | APR_FINFO_MTIME, pool) == APR_SUCCESS) {
        file->mtime = info.mtime;
        file->size = info.size;
    }
    return file;
}
'''))
N('rz-json-file', 'S02 S05 S08 S09 S10 S23', ('ft_report_json.c', '@fn:create_file_json_object', '''
static json_t *create_file_json_object(ft_file_t *file, ft_conf_t *conf)
{
    json_t *entry = json_object();
    json_t *inner = NULL;

    (void) json_object_set_new(entry, "path", json_string(file->path));
    if (is_option_set(conf->mask, OPTION_UNTAR)) {
        inner = (file->subpath != NULL) ? json_string(file->subpath) : json_null();
        (void) json_object_set_new(entry, "archive_subpath", inner);
    }
    (void) json_object_set_new(entry, "mtime_utc", json_string(ft_format_time_iso8601_utc(file->mtime, conf->pool)));
    (void) json_object_set_new(entry, "prioritized", file->prioritized ? json_true() : json_false());
    return entry;
}
'''))
