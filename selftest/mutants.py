MUTANTS = []


def M(name, props, *edits, kind='mutant', **kw):
    MUTANTS.append(dict(name=name, props=props.split(), edits=list(edits), kind=kind, **kw))


def N(name, props, *edits, **kw):
    M(name, props, *edits, kind='neutral', **kw)


D = 'napr_db.c'
M('commit-nosync-pages', 'D01', (D, "    return apr_file_sync(txn->env->file);\n}", "    return APR_SUCCESS;\n}"))
M('commit-nosync-meta', 'D01', (D, """    status = apr_file_sync(txn->env->file);
    if (status != APR_SUCCESS) {
        return status;
    }

    /* Publish""", "    /* Publish"))
M('commit-sync-ignored', 'D01', (D, """    status = apr_file_sync(txn->env->file);
    if (status != APR_SUCCESS) {
        return status;
    }

    /* Publish""", "    (void) apr_file_sync(txn->env->file);\n    /* Publish"))
M('commit-meta-first', 'D01', (D, """    status = write_dirty_pages_to_disk(txn);
    if (status != APR_SUCCESS) {
        goto cleanup;
    }

    status = commit_meta_page(txn, (DB_CommitPgnos) {
                              .new_root_pgno = new_root_pgno,.new_free_db_root_pgno = new_free_db_root}
    );
    if (status != APR_SUCCESS) {
        goto cleanup;
    }
""", """    status = commit_meta_page(txn, (DB_CommitPgnos) {
                              .new_root_pgno = new_root_pgno,.new_free_db_root_pgno = new_free_db_root}
    );
    if (status != APR_SUCCESS) {
        goto cleanup;
    }
    status = write_dirty_pages_to_disk(txn);
    if (status != APR_SUCCESS) {
        goto cleanup;
    }
"""))
M('commit-live-early', 'D01', (D, "    status = apr_file_seek(txn->env->file, APR_SET, &meta_offset);", "    txn->env->live_meta = stale_meta;\n    status = apr_file_seek(txn->env->file, APR_SET, &meta_offset);"))
M('commit-skip-leaf', 'D01', (D, "        offset = (apr_off_t) new_pgno *PAGE_SIZE;\n", "        if (dirty_page->num_keys == 0)\n            continue;\n        offset = (apr_off_t) new_pgno *PAGE_SIZE;\n"))
M('commit-err-lost', 'D01', (D, "    status = write_dirty_pages_to_disk(txn);\n    if (status != APR_SUCCESS) {\n        goto cleanup;\n    }\n", "    (void) write_dirty_pages_to_disk(txn);\n"))
M('commit-ptr-after', 'D01', (D, "    update_dirty_page_pointers(txn, pgno_map, &new_root_pgno);\n", ""), (D, "    status = commit_meta_page(txn, (DB_C", "    update_dirty_page_pointers(txn, pgno_map, &new_root_pgno);\n    status = commit_meta_page(txn, (DB_C"))
M('meta-same-slot', 'D02', (D, "        stale_meta = txn->env->meta1;\n        meta_pgno = 1;", "        stale_meta = txn->env->meta1;\n        meta_pgno = 0;"))
M('meta-old-root', 'D02', (D, "updated_meta.root = pgnos.new_root_pgno", "updated_meta.root = txn->env->live_meta->root"))
M('meta-lastpgno', 'D02', (D, "updated_meta.last_pgno = txn->new_last_pgno", "updated_meta.last_pgno = txn->env->live_meta->last_pgno"))
M('meta-noversion', 'D02', (D, "    updated_meta.version = DB_VERSION;\n", ""))
M('meta-txnid', 'D02', (D, "updated_meta.txnid = txn->txnid;", "updated_meta.txnid = txn->env->live_meta->txnid;"))
M('open-newest', 'D02', (D, "env->meta0->txnid > env->meta1->txnid", "env->meta0->txnid < env->meta1->txnid"))
M('open-noversioncheck', 'D02', (D, "    if (meta->version != DB_VERSION) {\n        return APR_EINVAL;\n    }\n", ""))
M('open-anyvalid', 'D02', (D, "    if (status0 != APR_SUCCESS && status1 != APR_SUCCESS) {\n        return APR_EINVAL;\n    }", ""))
M('open-meta0pref', 'D02', (D, "    if (status0 == APR_SUCCESS && status1 != APR_SUCCESS) {", "    if (status0 == APR_SUCCESS) {"))
M('open-nosync', 'D02', (D, "        apr_status_t status = apr_file_sync(env->file);\n        if (status != APR_SUCCESS) {\n            return status;\n        }\n", ""))
M('open-reinit', 'D02', (D, "    return select_live_meta(env);", "    if (select_live_meta(env) != APR_SUCCESS) {\n        init_meta_page(env->meta0, 0);\n        init_meta_page(env->meta1, 1);\n        env->live_meta = env->meta1;\n    }\n    return APR_SUCCESS;"))
N('meta-switch-form', 'D01 D02', (D, """    if (txn->env->live_meta == txn->env->meta0) {
        stale_meta = txn->env->meta1;
        meta_pgno = 1;
    }
    else {
        stale_meta = txn->env->meta0;
        meta_pgno = 0;
    }
""", """    meta_pgno = (txn->env->live_meta == txn->env->meta0) ? 1 : 0;
    stale_meta = meta_pgno ? txn->env->meta1 : txn->env->meta0;
"""))
N('select-tern', 'D02', (D, """    if (env->meta0->txnid > env->meta1->txnid) {
        env->live_meta = env->meta0;
    }
    else {
        env->live_meta = env->meta1;
    }
""", "    env->live_meta = (env->meta1->txnid >= env->meta0->txnid) ? env->meta1 : env->meta0;\n"))
N('write-while', 'D01', (D, """    for (h_index = apr_hash_first(txn->pool, txn->dirty_pages); h_index; h_index = apr_hash_next(h_index)) {
        void *val = NULL;
        DB_PageHeader *dirty_page = NULL;
        pgno_t new_pgno = 0;
        apr_off_t offset = 0;
        apr_size_t bytes_to_write = PAGE_SIZE;

        apr_hash_this(h_index, NULL, NULL, &val);
        dirty_page = (DB_PageHeader *) val;
        new_pgno = dirty_page->pgno;

        offset = (apr_off_t) new_pgno *PAGE_SIZE;

        status = apr_file_seek(txn->env->file, APR_SET, &offset);
        if (status != APR_SUCCESS) {
            return status;
        }

        status = apr_file_write_full(txn->env->file, dirty_page, bytes_to_write, NULL);
        if (status != APR_SUCCESS) {
            return status;
        }
    }

    return apr_file_sync(txn->env->file);
""", """    apr_file_t *file = txn->env->file;
    status = APR_SUCCESS;
    h_index = apr_hash_first(txn->pool, txn->dirty_pages);
    while (h_index && status == APR_SUCCESS) {
        void *val = NULL;
        apr_hash_this(h_index, NULL, NULL, &val);
        DB_PageHeader *dirty_page = (DB_PageHeader *) val;
        apr_off_t offset = (apr_off_t) dirty_page->pgno * PAGE_SIZE;
        status = apr_file_seek(file, APR_SET, &offset);
        if (status == APR_SUCCESS) {
            status = apr_file_write_full(file, val, PAGE_SIZE, NULL);
        }
        h_index = apr_hash_next(h_index);
    }
    if (status == APR_SUCCESS) {
        status = apr_file_sync(file);
    }
    return status;
"""))

# transactions
M('begin-snap-late', 'D03', (D, "        apr_thread_mutex_unlock(env->reader_table_mutex);\n\n        if (!found_slot)", "        apr_thread_mutex_unlock(env->reader_table_mutex);\n        txn_handle->root_pgno = env->live_meta->root;\n\n        if (!found_slot)"))
M('begin-snap-fdb', 'D03', (D, "    txn_handle->free_db_root_pgno = env->live_meta->free_db_root;\n", ""))
M('begin-rd-plus', 'D03', (D, "    if (is_write) {\n        txn_handle->txnid++;\n", "    txn_handle->txnid++;\n    if (is_write) {\n"))
M('begin-snap-meta0', 'D03', (D, "txn_handle->root_pgno = env->live_meta->root;", "txn_handle->root_pgno = env->meta0->root;"))
M('publish-noread', 'D03', (D, "    memcpy(stale_meta, &updated_meta, sizeof(DB_MetaPage));\n    txn->env->live_meta = stale_meta;\n    apr_thread_mutex_unlock(txn->env->reader_table_mutex);\n", "    memcpy(stale_meta, &updated_meta, sizeof(DB_MetaPage));\n    apr_thread_mutex_unlock(txn->env->reader_table_mutex);\n    txn->env->live_meta = stale_meta;\n"))
M('get-live-root', 'D03', ('napr_db_tree.c', "txn, txn->root_pgno, key, leaf", "txn, txn->env->live_meta->root, key, leaf"))
M('begin-reg-old', 'D05', (D, "env->reader_table[slot_idx].txnid = txn_handle->txnid;", "env->reader_table[slot_idx].txnid = txn_handle->txnid + 1;"))
M('begin-slot-busy', 'D05', (D, "            if (env->reader_table[slot_idx].txnid == 0) {\n", "            if (env->reader_table[slot_idx].txnid == 0 || env->reader_table[slot_idx].pid != pid) {\n"))
M('begin-slot-unlocked', 'D05', (D, "        /* Find an empty slot (txnid == 0) */\n", "        apr_thread_mutex_unlock(env->reader_table_mutex);\n"), (D, "        apr_thread_mutex_unlock(env->reader_table_mutex);\n\n        if (!found_slot)", "        if (!found_slot)"))
M('commit-slot-leak', 'D05', (D, "    if (!is_write) {\n        apr_os_proc_t pid = getpid();", "    if (!is_write && txn->root_pgno != 0) {\n        apr_os_proc_t pid = getpid();"))
M('abort-slot-leak', 'D05', (D, "                txn->env->reader_table[slot_idx].txnid = 0;\n", ""), nth=1)
M('commit-slot-tid', 'D05', (D, " && txn->env->reader_table[slot_idx].pid == pid && txn->env->reader_table[slot_idx].tid == tid", " && txn->env->reader_table[slot_idx].pid == pid"))
M('commit-slot-txnid', 'D05', (D, "txn->env->reader_table[slot_idx].txnid == txn->txnid && ", "txn->env->reader_table[slot_idx].txnid != 0 && "))
M('commit-slot-range', 'D05', (D, "slot_idx < MAX_READERS; slot_idx++) {\n            if (txn->env", "slot_idx < MAX_READERS - 1; slot_idx++) {\n            if (txn->env"))
M('begin-slot-range', 'D05', (D, "slot_idx < MAX_READERS; slot_idx++) {\n            if (env->", "slot_idx < MAX_READERS / 2; slot_idx++) {\n            if (env->"))
M('begin-slot-nodestroy', 'D05', (D, "        if (!found_slot) {\n            apr_pool_destroy(txn_pool);\n            return APR_ENOMEM;", "        if (!found_slot && txn_handle->txnid == 0) {\n            apr_pool_destroy(txn_pool);\n            return APR_ENOMEM;"))
M('begin-nolock', 'D06', (D, "        status = db_writer_lock(env);\n        if (status != APR_SUCCESS) {", "        status = db_writer_lock(env);\n        if (status == APR_ENOMEM) {"))
M('begin-fail-locked', 'D06', (D, "            db_writer_unlock(env);\n            apr_pool_destroy(txn_pool);\n            return APR_ENOMEM;", "            apr_pool_destroy(txn_pool);\n            return APR_ENOMEM;"), nth=1)
M('commit-fail-locked', 'D06', (D, "    status = populate_free_db(txn, &new_free_db_root);\n    if (status != APR_SUCCESS) {\n        goto cleanup;", "    status = populate_free_db(txn, &new_free_db_root);\n    if (status != APR_SUCCESS) {\n        return status;"))
M('commit-early-unlock', 'D06', (D, "    status = commit_meta_page(txn, (DB_C", "    db_writer_unlock(txn->env);\n    status = commit_meta_page(txn, (DB_C"))
M('commit-use-after', 'D06', (D, "    db_writer_unlock(txn->env);\n    apr_pool_destroy(txn->pool);\n    return status;", "    apr_pool_destroy(txn->pool);\n    db_writer_unlock(txn->env);\n    return status;"))
M('commit-rd-unlock', 'D06', (D, "        if (is_write) {\n            db_writer_unlock(txn->env);\n        }\n", "        db_writer_unlock(txn->env);\n"))
M('abort-noleak', 'D06', (D, "        status = db_writer_unlock(txn->env);\n    }\n", "        status = db_writer_unlock(txn->env);\n        if (status == APR_SUCCESS && !txn->dirty_pages)\n            return status;\n    }\n"))
M('commit-rlock-held', 'D06', (D, "    txn->env->live_meta = stale_meta;\n    apr_thread_mutex_unlock(txn->env->reader_table_mutex);\n", "    txn->env->live_meta = stale_meta;\n    if (txn->freed_pages->nelts)\n        apr_thread_mutex_unlock(txn->env->reader_table_mutex);\n"))
N('unreg-helper', 'D03 D05 D06', (D, "apr_status_t napr_db_txn_commit(napr_db_txn_t *txn)\n{", """static void unregister_reader(napr_db_txn_t *txn)
{
    napr_db_env_t *env = txn->env;
    apr_os_proc_t me = getpid();
    apr_os_thread_t self = apr_os_thread_current();
    DB_ReaderSlot *slot = env->reader_table;
    DB_ReaderSlot *end = slot + MAX_READERS;

    apr_thread_mutex_lock(env->reader_table_mutex);
    while (slot < end) {
        if (slot->pid == me && slot->tid == self && slot->txnid == txn->txnid) {
            memset(slot, 0, sizeof(*slot));
            break;
        }
        slot++;
    }
    apr_thread_mutex_unlock(env->reader_table_mutex);
}

apr_status_t napr_db_txn_commit(napr_db_txn_t *txn)
{"""), (D, """        apr_os_proc_t pid = getpid();
        apr_os_thread_t tid = apr_os_thread_current();
        int slot_idx = 0;

        apr_thread_mutex_lock(txn->env->reader_table_mutex);

        /* Find and clear our slot */
        for (slot_idx = 0; slot_idx < MAX_READERS; slot_idx++) {
            if (txn->env->reader_table[slot_idx].txnid == txn->txnid && txn->env->reader_table[slot_idx].pid == pid && txn->env->reader_table[slot_idx].tid == tid) {
                txn->env->reader_table[slot_idx].txnid = 0;
                txn->env->reader_table[slot_idx].pid = 0;
                txn->env->reader_table[slot_idx].tid = 0;
                break;
            }
        }

        apr_thread_mutex_unlock(txn->env->reader_table_mutex);
""", "        unregister_reader(txn);\n"), all=True)
N('begin-while', 'D03 D05 D06', (D, """        for (slot_idx = 0; slot_idx < MAX_READERS; slot_idx++) {
            if (env->reader_table[slot_idx].txnid == 0) {
                env->reader_table[slot_idx].pid = pid;
                env->reader_table[slot_idx].tid = tid;
                env->reader_table[slot_idx].txnid = txn_handle->txnid;
                found_slot = 1;
                break;
            }
        }
""", """        while (slot_idx < MAX_READERS && !found_slot) {
            DB_ReaderSlot *slot = &env->reader_table[slot_idx];
            if (slot->txnid != 0) {
                slot_idx++;
                continue;
            }
            slot->txnid = txn_handle->txnid;
            slot->tid = tid;
            slot->pid = pid;
            found_slot = 1;
        }
"""))

N('slots-dowhile', 'D05', (D, """        for (slot_idx = 0; slot_idx < MAX_READERS; slot_idx++) {
            if (env->reader_table[slot_idx].txnid == 0) {
                env->reader_table[slot_idx].pid = pid;
                env->reader_table[slot_idx].tid = tid;
                env->reader_table[slot_idx].txnid = txn_handle->txnid;
                found_slot = 1;
                break;
            }
        }
""", """        do {
            if (env->reader_table[slot_idx].txnid == 0) {
                env->reader_table[slot_idx].pid = pid;
                env->reader_table[slot_idx].tid = tid;
                env->reader_table[slot_idx].txnid = txn_handle->txnid;
                found_slot = 1;
                break;
            }
        } while (++slot_idx < MAX_READERS);
"""))
N('slots-down', 'D05', (D, """        for (slot_idx = 0; slot_idx < MAX_READERS; slot_idx++) {
            if (env->reader_table[slot_idx].txnid == 0) {""", """        for (slot_idx = MAX_READERS - 1; slot_idx >= 0; slot_idx--) {
            if (env->reader_table[slot_idx].txnid == 0) {"""))
N('slots-le', 'D05', (D, """        for (slot_idx = 0; slot_idx < MAX_READERS; slot_idx++) {
            if (env->reader_table[slot_idx].txnid == 0) {""", """        for (slot_idx = 0; slot_idx <= MAX_READERS - 1; ++slot_idx) {
            if (env->reader_table[slot_idx].txnid == 0) {"""))

F = 'ft_file.c'
M('cmp-len-half', 'S03', (F, "*result_out = memcmp(mm1->mm, mm2->mm, size);", "*result_out = memcmp(mm1->mm, mm2->mm, size - (size > 65536));"))
M('cmp-self', 'S03', (F, "*result_out = memcmp(mm1->mm, mm2->mm, size);", "*result_out = memcmp(mm1->mm, mm1->mm, size);"))
M('cmp-same-open', 'S03', (F, "status = apr_file_open(&fd2, fname2, APR_READ | APR_BINARY, APR_OS_DEFAULT, pool);", "status = apr_file_open(&fd2, fname1, APR_READ | APR_BINARY, APR_OS_DEFAULT, pool);"))
M('cmp-mmap-off', 'S03', (F, "apr_mmap_create(&mm2, fd2, 0, size,", "apr_mmap_create(&mm2, fd2, 4096, size,"))
M('cmp-eof-mismatch', 'S03', (F, "    if (status1 != status2) {\n        /* One file ended before the other: they are not twins */\n        *result_out = 1;\n    }\n", ""))
M('cmp-shortlen', 'S03', (F, "(rbytes2 == rbytes1) ? memcmp(data_chunk1, data_chunk2, rbytes1) : 1", "memcmp(data_chunk1, data_chunk2, rbytes1)"))
M('cmp-shortlen2', 'S03', (F, "(rbytes2 == rbytes1) ? memcmp(data_chunk1, data_chunk2, rbytes1) : 1", "(rbytes2 == rbytes1) ? memcmp(data_chunk1, data_chunk2, rbytes1) : 0"))
M('cmp-continue', 'S03', (F, "&& (0 == *result_out));", ");"))
M('cmp-err-hidden', 'S03', (F, "        return ((APR_SUCCESS != status1) && (APR_EOF != status1)) ? status1 : status2;", "        return APR_SUCCESS;"))
M('cmp-err1only', 'S03', (F, "if (((APR_SUCCESS != status1) && (APR_EOF != status1)) || ((APR_SUCCESS != status2) && (APR_EOF != status2))) {", "if ((APR_SUCCESS != status1) && (APR_EOF != status1)) {"))
M('cmp-size1', 'S03', (F, "    if (0 == size) {\n        *result_out = 0;\n        return APR_SUCCESS;\n    }\n\n    status = apr_file_open(&fd1", "    if (size <= 1) {\n        *result_out = 0;\n        return APR_SUCCESS;\n    }\n\n    status = apr_file_open(&fd1"))
M('cmp-norm', 'S03', (F, "*result_out = memcmp(mm1->mm, mm2->mm, size);", "*result_out = (memcmp(mm1->mm, mm2->mm, size) > 0);"))
M('cmp-fixedlen', 'S03', (F, "(rbytes2 == rbytes1) ? memcmp(data_chunk1, data_chunk2, rbytes1) : 1", "(rbytes2 == rbytes1) ? memcmp(data_chunk1, data_chunk2, 4096) : 1"))
M('cmp-close-err', 'S03', (F, "*result_out = 0;\n    do {", "do {"))
M('sum-len', 'S04', (F, "XXH3_128bits(memory_map->mm, (size_t) size)", "XXH3_128bits(memory_map->mm, (size_t) (size & ~7L))"))
M('sum-first-chunk', 'S04', (F, "    } while (APR_SUCCESS == status);\n\n    if (APR_EOF != status) {", "    } while (0);\n\n    if (APR_EOF != status && APR_SUCCESS != status) {"))
M('sum-err-eof', 'S04', (F, "    if (APR_EOF != status) {\n        DEBUG_ERR(\"unable to read(", "    if (APR_EOF != status && rbytes == 0) {\n        DEBUG_ERR(\"unable to read("))
M('sum-hugelen', 'S04', (F, "XXH3_128bits_update(state, data_chunk, rbytes)", "XXH3_128bits_update(state, data_chunk, HUGE_LEN)"))
M('sum-noreset', 'S04', (F, "    XXH3_128bits_reset(state);\n", ""))
M('sum-limit', 'S04', (F, "    } while (APR_SUCCESS == status);\n\n    if (APR_EOF != status) {", "        total += rbytes;\n    } while (APR_SUCCESS == status && total < 1073741824);\n\n    if (APR_EOF != status && APR_SUCCESS != status) {"), (F, "    apr_size_t rbytes;\n    apr_file_t *file_descriptor = NULL;\n    memset(data_chunk,", "    apr_size_t rbytes;\n    apr_size_t total = 0;\n    apr_file_t *file_descriptor = NULL;\n    memset(data_chunk,"))
M('fd-leak-cmp', 'S11', (F, "        apr_mmap_delete(mm1);\n        (void) apr_file_close(fd1);\n        return status;\n    }\n\n    status = apr_mmap_create(&mm2", "        apr_mmap_delete(mm1);\n        return status;\n    }\n\n    status = apr_mmap_create(&mm2"))
M('fd-dbl-cmp', 'S11', (F, "        (void) apr_file_close(fd2);\n        (void) apr_mmap_delete(mm1);\n        (void) apr_file_close(fd1);\n        return big_filecmp", "        (void) apr_file_close(fd2);\n        (void) apr_mmap_delete(mm1);\n        (void) apr_file_close(fd2);\n        return big_filecmp"))
M('xs-leak', 'S11', (F, "    if (APR_SUCCESS != status) {\n        XXH3_freeState(state);\n        return status;", "    if (APR_SUCCESS != status) {\n        return status;"))
N('cmp-refactor-order', 'S03 S11', (F, "*result_out = memcmp(mm1->mm, mm2->mm, size);", "int cmpres = memcmp(mm2->mm, mm1->mm, (size_t) size);\n    *result_out = (cmpres != 0) ? 1 : 0;"))
N('cmp-loop-for', 'S03 S11', (F, """    *result_out = 0;
    do {
        rbytes1 = HUGE_LEN;
        status1 = apr_file_read(fd1, data_chunk1, &rbytes1);
        rbytes2 = HUGE_LEN;
        status2 = apr_file_read(fd2, data_chunk2, &rbytes2);
        if ((APR_SUCCESS == status1) && (APR_SUCCESS == status2)) {
            *result_out = (rbytes2 == rbytes1) ? memcmp(data_chunk1, data_chunk2, rbytes1) : 1;
        }
    } while ((APR_SUCCESS == status1) && (APR_SUCCESS == status2) && (0 == *result_out));
""", """    int verdict = 0;
    for (;;) {
        rbytes2 = HUGE_LEN;
        status2 = apr_file_read(fd2, data_chunk2, &rbytes2);
        rbytes1 = HUGE_LEN;
        status1 = apr_file_read(fd1, data_chunk1, &rbytes1);
        if (status1 || status2) break;
        if (rbytes1 != rbytes2) { verdict = 1; break; }
        verdict = memcmp(data_chunk1, data_chunk2, rbytes2);
        if (verdict != 0) break;
    }
    *result_out = verdict;
"""))
N('sum-refactor', 'S04 S11', (F, """    do {
        rbytes = HUGE_LEN;
        status = apr_file_read(file_descriptor, data_chunk, &rbytes);
        if ((APR_SUCCESS == status || (APR_EOF == status && rbytes > 0))) {
            if (XXH3_128bits_update(state, data_chunk, rbytes) == XXH_ERROR) {
                DEBUG_ERR("Error during hash update for file: %s", filename);
                XXH3_freeState(state);
                (void) apr_file_close(file_descriptor);
                return APR_EGENERAL;
            }
        }
    } while (APR_SUCCESS == status);
""", """    while (1) {
        rbytes = HUGE_LEN;
        status = apr_file_read(file_descriptor, data_chunk, &rbytes);
        if (status != APR_SUCCESS) {
            break;
        }
        if (XXH3_128bits_update(state, data_chunk, rbytes) != XXH_OK) {
            XXH3_freeState(state);
            (void) apr_file_close(file_descriptor);
            return APR_EGENERAL;
        }
    }
"""))

# ---------------- reports
R, RJ = 'ft_report.c', 'ft_report_json.c'
M('rep-diff', 'S02', (R, "    if (return_value == 0) {\n        if (is_option_set(conf->mask, OPTION_DRY", "    if (return_value <= 0) {\n        if (is_option_set(conf->mask, OPTION_DRY"))
M('rep-fail', 'S02', (R, "        return APR_SUCCESS;     /* Continue processing other pairs */\n", ""))
M('rep-wrong', 'S02', (R, "    ft_file_t *file2 = fsize->chksum_array[index2].file;\n", "    ft_file_t *file2 = fsize->chksum_array[index2].file;\n    ft_file_t *last = fsize->chksum_array[fsize->nb_files - 1].file;\n"), (R, "        format_and_print_duplicate(conf, file2, colors);", "        format_and_print_duplicate(conf, last ? last : file2, colors);"))
M('rep-self', 'S02', (R, "status = filecmp(conf->pool, fpathi, fpathj, fsize", "status = filecmp(conf->pool, fpathi, fpathi, fsize"))
M('rep-size', 'S02', (R, "fpathi, fpathj, fsize->val, conf", "fpathi, fpathj, fsize->val & ~1L, conf"))
M('rep-hashonly', 'S02', (R, "    status = filecmp(conf->pool, fpathi, fpathj, fsize->val, conf->excess_size, &return_value);", "    if (fsize->val > conf->excess_size) return_value = 0; else\n    status = filecmp(conf->pool, fpathi, fpathj, fsize->val, conf->excess_size, &return_value);"))
M('json-fail', 'S02', (RJ, "        *result = 1;            /* Treat comparison error as \"not a duplicate\" */\n", ""))
M('json-arch', 'S02', (R, "            *path1 = ft_archive_untar_file(file1, conf->pool);", "            *path1 = file1->path;"))
M('json-set-late', 'S02', (RJ, "                if (result == 0) {\n                    if (current", "                if (result == 0 || current_set_obj != NULL) {\n                    if (current"))
M('rep-hashlen', 'S05', (R, "&fsize->chksum_array[j_index].hash_value, sizeof(ft_hash_t))) {", "&fsize->chksum_array[j_index].hash_value, 8)) {"))
M('rep-from2', 'S05', (R, "j_index = index + 1; j", "j_index = index + 2; j"))
M('rep-nb1', 'S05', (R, "j_index < fsize->nb_files; j", "j_index < fsize->nb_files - 1; j"))
M('rep-break-null', 'S05', (R, "                continue;       /* Already reported as the twin of a previous file */", "                break;       /* Already reported as the twin of a previous file */"))
M('rep-outer-nb', 'S05', (R, "index < fsize->nb_files; index++) {\n                if (proc", "index < fsize->nb_files - 2; index++) {\n                if (proc"))
M('rep-outer-step', 'S05', (R, "index < fsize->nb_files; index++) {\n                if (proc", "index < fsize->nb_files; index += 2) {\n                if (proc"))
M('rep-stop-printed', 'S05', (R, "                return APR_EGENERAL;\n            }\n        }\n        else {\n            /* Hashes", "                return APR_EGENERAL;\n            }\n            if (already_printed) break;\n        }\n        else {\n            /* Hashes"))
M('rep-heap-stop', 'S05', (R, "        if (file->size == old_size) {\n            continue;", "        if (file->size == old_size) {\n            break;"))
M('json-nb1', 'S05', (RJ, "j < fsize->nb_files; j++", "j + 1 < fsize->nb_files; j++"))
M('json-i1', 'S05', (RJ, "size_t i = 0; i <", "size_t i = 1; i <"))
M('json-err-stop', 'S05', (RJ, "                if (result == 0) {\n                    if (current", "                if (result != 0) break;\n                if (result == 0) {\n                    if (current"))
M('rep-keep', 'S08', (R, "        fsize->chksum_array[index2].file = NULL;        /* Mark as a twin */\n", ""))
M('rep-retire1', 'S08', (R, "fsize->chksum_array[index2].file = NULL; ", "fsize->chksum_array[index1].file = NULL; "))
M('rep-nohead', 'S08', (R, "            format_and_print_duplicate(conf, file1, colors);\n            *already_printed = 1;", "            *already_printed = 1;"))
M('rep-heads', 'S08', (R, "            *already_printed = 1;\n", ""))
M('rep-dry', 'S08', (R, "would report %s and %s as duplicates.\\n\", file1->path, file2->path);\n", "would report %s and %s as duplicates.\\n\", file1->path, file2->path);\n            return APR_SUCCESS;\n"))
M('rep-lost', 'S08', (R, "        return APR_SUCCESS;     /* Continue processing other pairs */\n", "        fsize->chksum_array[index2].file = NULL;\n        return APR_SUCCESS;     /* Continue processing other pairs */\n"))
M('json-keep', 'S08', (RJ, "                    fsize->chksum_array[j].file = NULL;\n", ""))
M('json-noset', 'S08', (RJ, "        if (current_set_obj != NULL) {\n            json_array_append_new(root", "        if (current_set_obj != NULL && json_array_size(duplicates_array) < 100) {\n            json_array_append_new(root"))
M('json-nohead', 'S08', (RJ, "    json_array_append_new(duplicates_array, create_file_json_object(chksum->file, conf));\n", ""))
M('json-else', 'S08', (RJ, "                    json_array_append_new(duplicates_array, create_file_json_object(fsize->chksum_array[j].file, conf));", "                    else\n                    json_array_append_new(duplicates_array, create_file_json_object(fsize->chksum_array[j].file, conf));"))
M('tmp-leak-cmp', 'S10', (R, "    cleanup_comparison_paths(conf, file1, file2, fpathi, fpathj);\n\n    if (status != APR_SUCCESS) {", "    if (status == APR_SUCCESS) cleanup_comparison_paths(conf, file1, file2, fpathi, fpathj);\n\n    if (status != APR_SUCCESS) {"))
M('tmp-leak-second', 'S10', (R, "                if (file1->subpath) {\n                    (void) apr_file_remove(*path1, conf->pool);\n                }\n", ""))
M('tmp-user', 'S10', (R, "                if (file1->subpath) {\n                    (void) apr_file_remove(*path1, conf->pool);\n                }\n", "                (void) apr_file_remove(*path1, conf->pool);\n"))
M('tmp-user2', 'S10', (RJ, "        if (file2->subpath) {\n            (void) apr_file_remove(path2", "        if (file1->subpath) {\n            (void) apr_file_remove(path2"))
M('tmp-early', 'S10', (RJ, "    status = filecmp(conf->pool, fpath1, fpath2, file_size, conf->excess_size, result);\n    cleanup_comparison_paths(conf, file1, file2, fpath1, fpath2);\n", "    cleanup_comparison_paths(conf, file1, file2, fpath1, fpath2);\n    status = filecmp(conf->pool, fpath1, fpath2, file_size, conf->excess_size, result);\n"))
RS = 'S02 S05 S08 S10'
N('rep-inline-while', RS, (R, """    for (j_index = index + 1; j_index < fsize->nb_files; j_index++) {
        /* If hashes match, perform a full comparison */
        if (0 == memcmp(&fsize->chksum_array[index].hash_value, &fsize->chksum_array[j_index].hash_value, sizeof(ft_hash_t))) {
            if (NULL == fsize->chksum_array[j_index].file) {
                continue;       /* Already reported as the twin of a previous file */
            }
            if (compare_and_report_pair(conf, fsize, index, j_index, &already_printed, colors) != APR_SUCCESS) {
                return APR_EGENERAL;
            }
        }
        else {
            /* Hashes are ordered, so we can break early */
            break;
        }
    }
""", """    j_index = index + 1;
    while (j_index < fsize->nb_files) {
        apr_size_t cur = j_index++;
        ft_chksum_t *a = &fsize->chksum_array[index];
        ft_chksum_t *b = fsize->chksum_array + cur;
        if (memcmp(&b->hash_value, &a->hash_value, sizeof(ft_hash_t)) != 0)
            break;
        if (b->file != NULL && compare_and_report_pair(conf, fsize, index, cur, &already_printed, colors) != APR_SUCCESS) {
            return APR_EGENERAL;
        }
    }
"""))
N('rep-null-first', RS, (R, """        if (0 == memcmp(&fsize->chksum_array[index].hash_value, &fsize->chksum_array[j_index].hash_value, sizeof(ft_hash_t))) {
            if (NULL == fsize->chksum_array[j_index].file) {
                continue;       /* Already reported as the twin of a previous file */
            }
""", """        if (NULL == fsize->chksum_array[j_index].file) {
            continue;       /* Already reported as the twin of a previous file */
        }
        if (0 == memcmp(&fsize->chksum_array[index].hash_value, &fsize->chksum_array[j_index].hash_value, sizeof(ft_hash_t))) {
"""))
N('json-ptr', RS, (RJ, "        for (size_t j = i + 1; j < fsize->nb_files; j++) {\n            if (memcmp(&fsize->chksum_array[i].hash_value, &fsize->chksum_array[j].hash_value, sizeof(ft_hash_t)) == 0) {", "        for (size_t j = i + 1; j < fsize->nb_files; j++) {\n            ft_chksum_t *head = &fsize->chksum_array[i], *cand = &fsize->chksum_array[j];\n            if (memcmp(&head->hash_value, &cand->hash_value, sizeof(head->hash_value)) == 0) {"))
N('rep-flag-int', RS, (R, "    if (return_value == 0) {\n        if (is_option_set(conf->mask, OPTION_DRY_RUN)) {", "    const int same = (return_value == 0);\n    if (!same) {\n        return APR_SUCCESS;\n    }\n    {\n        if (is_option_set(conf->mask, OPTION_DRY_RUN)) {"))
N('rep-nocolor', RS, (R, "    while (NULL != (file = napr_heap_extract(conf->heap))) {\n        if (file->size == old_size) {\n            continue;\n        }", "    for (;;) {\n        file = napr_heap_extract(conf->heap);\n        if (file == NULL) break;\n        if (file->size == old_size) {\n            continue;\n        }"))
N('rep-helper', RS, (R, "    status = filecmp(conf->pool, fpathi, fpathj, fsize->val, conf->excess_size, &return_value);\n    cleanup_comparison_paths(conf, file1, file2, fpathi, fpathj);\n", "    status = run_cmp(conf, fsize, fpathi, fpathj, &return_value);\n    cleanup_comparison_paths(conf, file1, file2, fpathi, fpathj);\n"),
  (R, "static apr_status_t compare_and_report_pair(ft_conf_t *conf, ft_fsize_t *fsize, apr_size_t index1, apr_size_t index2, unsigned char *already_printed, const reporting_colors_t *colors)\n{", "static apr_status_t run_cmp(ft_conf_t *conf, ft_fsize_t *fsize, char *a, char *b, int *res)\n{\n    return filecmp(conf->pool, a, b, fsize->val, conf->excess_size, res);\n}\n\nstatic apr_status_t compare_and_report_pair(ft_conf_t *conf, ft_fsize_t *fsize, apr_size_t index1, apr_size_t index2, unsigned char *already_printed, const reporting_colors_t *colors)\n{"))
N('json-goto', RS, (RJ, "                if (result == 0) {\n                    if (current_set_obj == NULL) {", "                if (result != 0) {\n                    continue;\n                }\n                {\n                    if (current_set_obj == NULL) {"))

# ---------------- processing
PR = 'ft_process.c'
M('proc-gt2', 'S05', (PR, "        int should_insert = (fsize->nb_files > 2) && (0 != fsize->val);", "        int should_insert = (fsize->nb_files > 3) && (0 != fsize->val);"))
M('proc-json-ins', 'S05', (PR, "            should_insert = (fsize->nb_files >= 2);", "            should_insert = (fsize->nb_files > 2);"))
M('proc-json-hash', 'S05', (PR, "            should_hash = (fsize->nb_files >= 2);", "            should_hash = (fsize->nb_files > 2);"))
M('proc-json-empty', 'S05', (PR, "            should_hash = (fsize->nb_files >= 2);", "            should_hash = should_hash && (fsize->nb_files >= 2);"))
M('proc-val0', 'S05', (PR, "(2 == fsize->nb_files) || (0 == fsize->val))", "(2 == fsize->nb_files))"))
M('proc-idx1', 'S05', (PR, "            for (apr_uint32_t idx = 0; idx < fsize->nb_files; idx++) {\n                if (NULL != fsize->chksum_array[idx].file) {\n                    hashing", "            for (apr_uint32_t idx = 1; idx < fsize->nb_files; idx++) {\n                if (NULL != fsize->chksum_array[idx].file) {\n                    hashing"))
M('proc-idxlast', 'S05', (PR, "            for (apr_uint32_t idx = 0; idx < fsize->nb_files; idx++) {\n                if (NULL != fsize->chksum_array[idx].file) {\n                    hashing", "            for (apr_uint32_t idx = 0; idx + 1 < fsize->nb_files; idx++) {\n                if (NULL != fsize->chksum_array[idx].file) {\n                    hashing"))
M('proc-prio', 'S05', (PR, "                if (NULL != fsize->chksum_array[idx].file) {\n                    hashing", "                if (NULL != fsize->chksum_array[idx].file && !fsize->chksum_array[idx].file->prioritized) {\n                    hashing"))
M('proc-nowait', 'S05', (PR, "    napr_threadpool_wait(threadpool);\n\n    status = apr_thread", "    status = apr_thread"))
M('proc-slot', 'S05', (PR, "                    fsize->nb_checksumed++;\n                    napr_heap_insert(tmp_heap, file);", "                    napr_heap_insert(tmp_heap, file);"))
M('proc-noheap', 'S05', (PR, "    conf->heap = tmp_heap;\n", ""))
M('proc-alloc', 'S05', (PR, "apr_pcalloc(conf->pool, fsize->nb_files * sizeof(struct ft_chksum_t))", "apr_pcalloc(conf->pool, fsize->nb_files * sizeof(struct ft_chksum_t *))"))
M('proc-le2', 'S05', (PR, "            if (1 == fsize->nb_files) {", "            if (fsize->nb_files <= 2 && 0 == fsize->val) {"))
M('proc-taskidx', 'S05', (PR, "                    task->index = idx;", "                    task->index = fsize->nb_checksumed - 1;"))
N('proc-refactor1', 'S05', (PR, """        int should_hash = (fsize->nb_files > 2) && (0 != fsize->val);
        if (is_option_set(conf->mask, OPTION_JSON)) {
            should_hash = (fsize->nb_files >= 2);
        }

        if (should_hash) {""", "        if (group_needs_hash(conf, fsize)) {"), (PR, """        int should_insert = (fsize->nb_files > 2) && (0 != fsize->val);
        if (is_option_set(conf->mask, OPTION_JSON)) {
            should_insert = (fsize->nb_files >= 2);
        }

        if (should_insert) {""", "        if (group_needs_hash(conf, fsize)) {"), (PR, "apr_status_t ft_process_files(ft_conf_t *conf)\n{", """static int group_needs_hash(const ft_conf_t *conf, const ft_fsize_t *fsize)
{
    if (is_option_set(conf->mask, OPTION_JSON)) {
        return fsize->nb_files >= 2;
    }
    return fsize->nb_files > 2 && fsize->val != 0;
}

apr_status_t ft_process_files(ft_conf_t *conf)
{"""))
N('proc-refactor2', 'S05', (PR, """                fsize->chksum_array[fsize->nb_checksumed].file = file;

                if (((2 == fsize->nb_files) || (0 == fsize->val)) && !is_option_set(conf->mask, OPTION_JSON)) {
                    memset(&fsize->chksum_array[fsize->nb_checksumed].hash_value, 0, sizeof(ft_hash_t));
                    fsize->nb_checksumed++;
                    napr_heap_insert(tmp_heap, file);
                }
                else {
                    (*total_hash_tasks)++;
                    fsize->nb_checksumed++;
                }
""", """                ft_chksum_t *slot = &fsize->chksum_array[fsize->nb_checksumed++];
                slot->file = file;

                if (is_option_set(conf->mask, OPTION_JSON) || (2 != fsize->nb_files && 0 != fsize->val)) {
                    *total_hash_tasks += 1;
                    continue;
                }
                memset(&slot->hash_value, 0, sizeof(slot->hash_value));
                napr_heap_insert(tmp_heap, file);
"""))
N('proc-refactor3', 'S05', (PR, "            for (apr_uint32_t idx = 0; idx < fsize->nb_files; idx++) {\n                if (NULL != fsize->chksum_array[idx].file) {\n                    hashing", "            apr_uint32_t idx;\n            for (idx = 0; idx != fsize->nb_files; ++idx) {\n                ft_chksum_t *slot = fsize->chksum_array + idx;\n                if (slot->file != NULL) {\n                    hashing"))

# ---------------- directory walk
TR = 'ft_traverse.c'
M('tr-min', 'S06', (TR, "finfo->size >= conf->minsize &&", "finfo->size > conf->minsize &&"))
M('tr-max', 'S06', (TR, "finfo->size <= conf->maxsize", "finfo->size < conf->maxsize"))
M('tr-max2', 'S06', (TR, "(conf->maxsize == 0 || finfo->size <= conf->maxsize)", "(finfo->size <= conf->maxsize)"))
M('tr-max3', 'S06', (TR, "(conf->maxsize == 0 || finfo->size <= conf->maxsize)", "(conf->maxsize < conf->minsize || finfo->size <= conf->maxsize)"))
M('tr-perm-user', 'S06', (TR, "APR_UEXECUTE : APR_UREAD", "APR_UREAD : APR_UREAD"))
M('tr-perm-else', 'S06', (TR, "        if (finfo->user == conf->userid) {\n            if (!(read_perm & finfo->protection)) {", "        if (finfo->user == conf->userid && (read_perm & finfo->protection)) {\n            if (!(read_perm & finfo->protection)) {"))
M('tr-perm-root', 'S06', (TR, "    if (conf->userid != 0) {\n", "    {\n"))
M('tr-perm-group', 'S06', (TR, "&finfo->group, sizeof(gid_t)", "&finfo->user, sizeof(gid_t)"))
M('tr-hidden', 'S06', (TR, "!is_option_set(conf->mask, OPTION_SHOW_HIDDEN)", "!is_option_set(conf->mask, OPTION_SHOW_HIDDEN) && finfo.filetype != APR_DIR"))
M('tr-hidden2', 'S06', (TR, "(finfo.name[0] == '.' && !is_option_set(conf->mask, OPTION_SHOW_HIDDEN))", "(finfo.name[0] == '.' && (!is_option_set(conf->mask, OPTION_SHOW_HIDDEN) || finfo.filetype == APR_DIR))"))
M('tr-rec', 'S06', (TR, "finfo.filetype == APR_DIR && !is_option_set(conf->mask, OPTION_RECSD)", "finfo.filetype != APR_REG && !is_option_set(conf->mask, OPTION_RECSD)"))
M('tr-slash', 'S06', (TR, "(filename[strlen(filename) - 1] == '/') ? \"\" : \"/\"", "(filename[strlen(filename) - 1] != '/') ? \"\" : \"/\""))
M('tr-wl-dir', 'S06', (TR, "conf->wl_regex && finfo->filetype != APR_DIR &&", "conf->wl_regex &&"))
M('tr-wl-inv', 'S06', (TR, "ovector, MATCH_VECTOR_SIZE) < 0)", "ovector, MATCH_VECTOR_SIZE) <= 0)"))
M('tr-ig-ge', 'S06', (TR, "ovector, MATCH_VECTOR_SIZE) >= 0)", "ovector, MATCH_VECTOR_SIZE) > 0)"))
M('tr-ig-wl', 'S06', (TR, "    if ((conf->ig_regex && pcre_exec", "    if ((conf->ig_regex && !conf->wl_regex && pcre_exec"))
M('tr-rx-name', 'S06', (TR, "pcre_exec(conf->ig_regex, NULL, fullname, (int) strlen(fullname)", "pcre_exec(conf->ig_regex, NULL, finfo->name, (int) strlen(finfo->name)"))
M('tr-ctx', 'S06', (TR, "ft_ignore_context_create(gc_pool, parent_ctx, filename)", "ft_ignore_context_create(gc_pool, conf->global_ignores, filename)"))
M('tr-ctx2', 'S06', (TR, "status = process_directory_entry(fullname, &finfo, conf, gc_pool, stats, current_ctx);", "status = process_directory_entry(fullname, &finfo, conf, gc_pool, stats, parent_ctx);"))
M('tr-ign-dir', 'S06', (TR, "ft_ignore_match(parent_ctx, filename, finfo.filetype == APR_DIR)", "ft_ignore_match(parent_ctx, filename, 0)"))
M('tr-ign-not', 'S06', (TR, "finfo.filetype == APR_DIR) == FT_IGNORE_MATCH_IGNORED", "finfo.filetype == APR_DIR) != FT_IGNORE_MATCH_NONE"))
M('tr-break', 'S06', (TR, "        if (finfo.filetype == APR_DIR && !is_option_set(conf->mask, OPTION_RECSD)) {\n            continue;", "        if (finfo.filetype == APR_DIR && !is_option_set(conf->mask, OPTION_RECSD)) {\n            break;"))
M('tr-nbfiles', 'S06', (TR, "            fsize->nb_files = 0;\n", "            fsize->nb_files = 1;\n"))
M('tr-noset', 'S06', (TR, "            napr_hash_set(conf->sizes, fsize, hash_value);\n", ""))
M('tr-lnk', 'S07', (TR, "        statmask |= APR_FINFO_LINK;", "        statmask |= 0;"))
M('tr-lnk2', 'S07', (TR, "    if (!is_option_set(conf->mask, OPTION_FSYML)) {", "    if (!is_option_set(conf->mask, OPTION_FSYML) && !is_option_set(conf->mask, OPTION_RECSD)) {"))
M('tr-anc', 'S07', (TR, "ancestors->stat.inode == finfo->inode && ancestors->stat.device == finfo->device", "ancestors->stat.inode == finfo->inode"))
M('tr-anc2', 'S07', (TR, "for (; ancestors != NULL; ancestors = ancestors->parent) {", "if (ancestors != NULL) {"))
M('tr-anc3', 'S07', (TR, "for (; ancestors != NULL; ancestors = ancestors->parent) {", "for (; ancestors != NULL && ancestors->parent != NULL; ancestors = ancestors->parent) {"))
M('tr-anc4', 'S07', (TR, "        self.parent = stats;\n", "        self.parent = stats != NULL ? stats->parent : NULL;\n"))
M('tr-anc5', 'S07', (TR, "process_directory(filename, conf, gc_pool, &self, parent_ctx)", "process_directory(filename, conf, gc_pool, stats, parent_ctx)"))
M('tr-anc6', 'S07', (TR, "        if (is_ancestor(&finfo, stats)) {", "        if (stats != NULL && is_ancestor(&finfo, stats->parent)) {"))
M('tr-broken', 'S07', (TR, "            finfo->filetype = APR_NOFILE;\n            return APR_SUCCESS;", "            finfo->filetype = APR_NOFILE;\n            return status;"))
N('tr-n1', 'S06 S07', (TR, "    if ((conf->ig_regex && pcre_exec(conf->ig_regex, NULL, fullname, (int) strlen(fullname), 0, 0, ovector, MATCH_VECTOR_SIZE) >= 0) ||\n        (conf->wl_regex && finfo->filetype != APR_DIR && pcre_exec(conf->wl_regex, NULL, fullname, (int) strlen(fullname), 0, 0, ovector, MATCH_VECTOR_SIZE) < 0)) {\n        return APR_SUCCESS;\n    }\n",
  "    const int len = (int) strlen(fullname);\n    if (conf->ig_regex != NULL) {\n        int rc = pcre_exec(conf->ig_regex, NULL, fullname, len, 0, 0, ovector, MATCH_VECTOR_SIZE);\n        if (rc >= 0) {\n            return APR_SUCCESS;\n        }\n    }\n    if (finfo->filetype != APR_DIR && conf->wl_regex != NULL) {\n        if (!(pcre_exec(conf->wl_regex, NULL, fullname, len, 0, 0, ovector, MATCH_VECTOR_SIZE) >= 0)) {\n            return APR_SUCCESS;\n        }\n    }\n"))
N('tr-n2', 'S06 S07', (TR, "    if (finfo->size >= conf->minsize && (conf->maxsize == 0 || finfo->size <= conf->maxsize)) {\n", "    if (finfo->size < conf->minsize) {\n        return APR_SUCCESS;\n    }\n    if (conf->maxsize != 0 && finfo->size > conf->maxsize) {\n        return APR_SUCCESS;\n    }\n    {\n"))
N('tr-n3', 'S06 S07', (TR, "    if (finfo.filetype == APR_DIR) {\n        struct stats self;\n", "    switch (finfo.filetype) {\n    case APR_DIR:\n    {\n        struct stats self;\n"), (TR, "    if (finfo.filetype == APR_REG || (finfo.filetype == APR_LNK && is_option_set(conf->mask, OPTION_FSYML))) {\n        return process_file(filename, &finfo, conf);\n    }\n", "    case APR_REG:\n        return process_file(filename, &finfo, conf);\n    default:\n        break;\n    }\n"))
N('tr-n4', 'S06 S07', (TR, "    while (apr_dir_read(&finfo, APR_FINFO_NAME | APR_FINFO_TYPE, dir) == APR_SUCCESS && finfo.name != NULL) {\n", "    for (;;) {\n        if (apr_dir_read(&finfo, APR_FINFO_NAME | APR_FINFO_TYPE, dir) != APR_SUCCESS || finfo.name == NULL) {\n            break;\n        }\n"))
N('tr-n5', 'S06 S07', (TR, "        char *fullname = apr_pstrcat(gc_pool, filename, (filename[strlen(filename) - 1] == '/') ? \"\" : \"/\", finfo.name, NULL);\n", "        const size_t dlen = strlen(filename);\n        const char *sep = \"/\";\n        char *fullname;\n        if (dlen > 0 && filename[dlen - 1] == '/') {\n            sep = \"\";\n        }\n        fullname = apr_pstrcat(gc_pool, filename, sep, finfo.name, NULL);\n"))
N('tr-n6', 'S06 S07', (TR, "    for (; ancestors != NULL; ancestors = ancestors->parent) {\n        if (ancestors->stat.inode == finfo->inode && ancestors->stat.device == finfo->device) {\n            return 1;\n        }\n    }\n    return 0;", "    int found = 0;\n    const struct stats *cur = ancestors;\n    while (cur && !found) {\n        found = cur->stat.device == finfo->device && cur->stat.inode == finfo->inode;\n        cur = cur->parent;\n    }\n    return found;"))
N('tr-n7', 'S06 S07', (TR, "        if (finfo->user == conf->userid) {\n            if (!(read_perm & finfo->protection)) {\n                return APR_EACCES;\n            }\n        }\n        else if (napr_hash_search(conf->gids, &finfo->group, sizeof(gid_t), &hash_value) != NULL) {\n            if (!(group_read_perm & finfo->protection)) {\n                return APR_EACCES;\n            }\n        }\n        else if (!(world_read_perm & finfo->protection)) {\n            return APR_EACCES;\n        }\n",
 "        apr_int32_t needed = world_read_perm;\n        if (finfo->user == conf->userid) {\n            needed = read_perm;\n        }\n        else if (NULL != napr_hash_search(conf->gids, &finfo->group, sizeof(finfo->group), &hash_value)) {\n            needed = group_read_perm;\n        }\n        return (finfo->protection & needed) != 0 ? APR_SUCCESS : APR_EACCES;\n"))

# ---------------- cache
CA = 'napr_cache.c'
M('ca-shared', 'K01', (CA, "APR_FLOCK_EXCLUSIVE | APR_FLOCK_NONBLOCK", "APR_FLOCK_SHARED | APR_FLOCK_NONBLOCK"))
M('ca-block', 'K01', (CA, "APR_FLOCK_EXCLUSIVE | APR_FLOCK_NONBLOCK", "APR_FLOCK_EXCLUSIVE"))
M('ca-lockpath', 'K01', (CA, 'apr_psprintf(cache_pool, "%s.lock", path)', 'apr_psprintf(cache_pool, "%s.%d.lock", path, (int) getpid())'))
M('ca-lockfail', 'K01', (CA, "        return status;          /* Will be APR_EAGAIN or similar */", "        return APR_SUCCESS;          /* Will be APR_EAGAIN or similar */"))
M('ca-fail-noclean', 'K01', (CA, "    status = apr_thread_mutex_create(&cache->visited_mutex, APR_THREAD_MUTEX_DEFAULT, cache_pool);\n    if (status != APR_SUCCESS) {\n        goto error_cleanup;", "    status = apr_thread_mutex_create(&cache->visited_mutex, APR_THREAD_MUTEX_DEFAULT, cache_pool);\n    if (status != APR_SUCCESS) {\n        return status;"))
M('ca-unlock-first', 'K01', (CA, "    /* Close napr_db environment */\n    if (cache->db_env) {", "    if (cache->lock_file_handle) {\n        apr_file_unlock(cache->lock_file_handle);\n    }\n    if (cache->db_env) {"))
M('ca-close-early', 'K01', (CA, "            status = status_tmp;        /* Preserve first error */", "            return status_tmp;        /* Preserve first error */"))
M('ca-close-ignore', 'K01', (CA, "        if (status_tmp != APR_SUCCESS && status == APR_SUCCESS) {\n            status = status_tmp;        /* Preserve first error */\n        }\n", ""))
M('ca-nested', 'K02', (CA, "    if (cache->active_txn) {\n        return APR_EINVAL;      /* A transaction is already active */\n    }\n\n    /* Begin read-only", "    /* Begin read-only"))
M('ca-rd-mode', 'K02', (CA, "napr_db_txn_begin(cache->db_env, NAPR_DB_RDONLY, &cache->active_txn)", "napr_db_txn_begin(cache->db_env, 0, &cache->active_txn)"))
M('ca-abort-commit', 'K02', (CA, "    /* Abort write transaction */\n    status = napr_db_txn_abort(", "    /* Abort write transaction */\n    status = napr_db_txn_commit("))
M('ca-commit-keep', 'K02', (CA, "    status = napr_db_txn_commit(cache->active_txn);\n    cache->active_txn = NULL;", "    status = napr_db_txn_commit(cache->active_txn);\n    if (status == APR_SUCCESS)\n    cache->active_txn = NULL;"))
M('ca-commit-ok', 'K02', (CA, "    status = napr_db_txn_commit(cache->active_txn);\n    cache->active_txn = NULL;\n\n    return status;", "    status = napr_db_txn_commit(cache->active_txn);\n    cache->active_txn = NULL;\n\n    return APR_SUCCESS;"))
M('ca-lookup-size', 'K03', (CA, "value.size != sizeof(napr_cache_entry_t)", "value.size < sizeof(napr_cache_entry_t)"))
M('ca-lookup-order', 'K03', (CA, "    /* CRITICAL VALIDATION", "    *entry_ptr = (const napr_cache_entry_t *) value.data;\n    /* CRITICAL VALIDATION"))
M('ca-lookup-null', 'K03', (CA, "    *entry_ptr = NULL;\n", ""))
M('ca-key-nul', 'K03', (CA, "    key.size = strlen(path);\n\n    /* Prepare value", "    key.size = strlen(path) + 1;\n\n    /* Prepare value"))
M('ca-up-noex', 'K03', (CA, "        status = napr_db_del(cache->active_txn, &key, NULL);\n        if (status == APR_SUCCESS) {\n            status = napr_db_put(cache->active_txn, &key, &value);\n        }\n", "        status = APR_SUCCESS;\n"))
M('ca-up-ignore', 'K03', (CA, "    return status;\n}\n\n/* ========================================================================\n * Mark-and-Sweep", "    return APR_SUCCESS;\n}\n\n/* ========================================================================\n * Mark-and-Sweep"))
M('ca-sw-found', 'K04', (CA, "        if (!found) {", "        if (!found || data.size == 0) {"))
M('ca-sw-commit-err', 'K04', (CA, "        if (status != APR_SUCCESS) {\n            goto error_close_cursor;\n        }\n\n        /* =", "        if (status != APR_SUCCESS) {\n            break;\n        }\n\n        /* ="))
M('ca-sw-del-ign', 'K04', (CA, "            status = napr_db_del(cache->active_txn, &key, NULL);\n            if (status != APR_SUCCESS) {\n                goto error_close_cursor;", "            status = napr_db_del(cache->active_txn, &key, NULL);\n            if (status != APR_SUCCESS && status != APR_NOTFOUND) {\n                goto error_close_cursor;"))
M('ca-sw-clear', 'K04', (CA, "    status = napr_cache_commit_write(cache);\n    if (status != APR_SUCCESS) {\n        apr_pool_destroy(sweep_pool);", "    status = napr_cache_commit_write(cache);\n    if (status != APR_SUCCESS) {\n        apr_hash_clear(cache->visited_set);\n        apr_pool_destroy(sweep_pool);"))
M('ca-sw-noclear', 'K04', (CA, "    apr_hash_clear(cache->visited_set);\n", ""))
M('ca-sw-noabort', 'K04', (CA, "    napr_cache_abort_write(cache);\n", ""))
M('ca-sw-len', 'K04', (CA, "apr_hash_get(cache->visited_set, key.data, (apr_ssize_t) key.size)", "apr_hash_get(cache->visited_set, key.data, APR_HASH_KEY_STRING)"))
M('ca-mk-nolock', 'K05', (CA, "    duplicated_path = apr_pstrdup(cache->pool, path);\n    if (!duplicated_path) {\n        /* Release mutex before returning error */\n        apr_thread_mutex_unlock(cache->visited_mutex);", "    if (!duplicated_path) {\n        /* Release mutex before returning error */\n        apr_thread_mutex_unlock(cache->visited_mutex);"), (CA, "    /* Acquire mutex for thread-safe access to visited_set */\n", "    duplicated_path = apr_pstrdup(cache->pool, path);\n"))
M('ca-mk-borrow', 'K05', (CA, "apr_hash_set(cache->visited_set, duplicated_path, APR_HASH_KEY_STRING, duplicated_path)", "apr_hash_set(cache->visited_set, path, APR_HASH_KEY_STRING, duplicated_path)"))
M('ca-mk-held', 'K05', (CA, "        /* Release mutex before returning error */\n        apr_thread_mutex_unlock(cache->visited_mutex);\n", ""))
M('ca-mk-after', 'K05', (CA, "    apr_hash_set(cache->visited_set, duplicated_path, APR_HASH_KEY_STRING, duplicated_path);\n\n    /* Release mutex */\n    status = apr_thread_mutex_unlock(cache->visited_mutex);\n", "    /* Release mutex */\n    status = apr_thread_mutex_unlock(cache->visited_mutex);\n    apr_hash_set(cache->visited_set, duplicated_path, APR_HASH_KEY_STRING, duplicated_path);\n"))
KALL = 'K01 K02 K03 K04 K05'
N('ca-n1', KALL, (CA, "    while (1) {\n        /* Get next entry (DB_FIRST on first iteration, DB_NEXT afterwards) */\n        if (first_iteration) {\n            status = napr_db_cursor_get(cursor, &key, &data, NAPR_DB_FIRST);\n            first_iteration = 0;\n        }\n        else {\n            status = napr_db_cursor_get(cursor, &key, &data, NAPR_DB_NEXT);\n        }\n\n        /* End of iteration */\n        if (status == APR_NOTFOUND) {\n            break;\n        }\n", "    for (;;) {\n        status = napr_db_cursor_get(cursor, &key, &data, first_iteration ? NAPR_DB_FIRST : NAPR_DB_NEXT);\n        first_iteration = 0;\n        if (status == APR_NOTFOUND) {\n            break;\n        }\n"))
N('ca-n2', KALL, (CA, "    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)\n    apr_status_t status;\n\n    if (!cache || !pool) {\n        return APR_EINVAL;\n    }\n\n    if (cache->active_txn) {\n        return APR_EINVAL;      /* A transaction is already active */\n    }\n\n    /* Begin read-only transaction on underlying DB */\n    status = napr_db_txn_begin(cache->db_env, NAPR_DB_RDONLY, &cache->active_txn);\n    if (status != APR_SUCCESS) {\n        return status;\n    }\n\n    return APR_SUCCESS;", "    return begin_common(cache, pool, NAPR_DB_RDONLY);"), (CA, "apr_status_t napr_cache_begin_read(", "static apr_status_t begin_common(napr_cache_t *cache, apr_pool_t *pool, unsigned int flags)\n{\n    napr_db_txn_t *txn = NULL;\n    apr_status_t status;\n    if (!cache || !pool || cache->active_txn != NULL) {\n        return APR_EINVAL;\n    }\n    status = napr_db_txn_begin(cache->db_env, flags, &txn);\n    if (status == APR_SUCCESS) {\n        cache->active_txn = txn;\n    }\n    return status;\n}\n\napr_status_t napr_cache_begin_read("))
N('ca-n3', KALL, (CA, "    status = apr_thread_mutex_lock(cache->visited_mutex);\n    if (status != APR_SUCCESS) {\n        return status;\n    }\n", "    if ((status = apr_thread_mutex_lock(cache->visited_mutex)) != APR_SUCCESS) {\n        return status;\n    }\n    if (apr_hash_get(cache->visited_set, path, APR_HASH_KEY_STRING) != NULL) {\n        return apr_thread_mutex_unlock(cache->visited_mutex);\n    }\n"))
N('ca-n4', KALL, (CA, "    if (value.size != sizeof(napr_cache_entry_t)) {\n        /* Database corruption or version mismatch */\n        return APR_EGENERAL;\n    }\n\n    /* Zero-copy: return direct pointer to mmap'd data */\n    *entry_ptr = (const napr_cache_entry_t *) value.data;\n\n    return APR_SUCCESS;", "    if (value.size == sizeof(**entry_ptr)) {\n        *entry_ptr = value.data;\n        return APR_SUCCESS;\n    }\n    return APR_EGENERAL;"))

# ---------------- worker pool
TP = 'napr_threadpool.c'
UL = "    status = apr_thread_mutex_unlock(threadpool->threadpool_mutex);\n"
M('tp-sig-first', 'S21', (TP, "    status = apr_thread_mutex_lock(threadpool->threadpool_mutex);\n    if (APR_SUCCESS != status) {\n        DEBUG_ERR(\"error calling apr_thread_mutex_lock: %s\", apr_strerror(status, errbuf, ERR_BUF_SIZE));\n        return status;\n    }\n    threadpool->ended", "    (void) apr_thread_cond_signal(threadpool->threadpool_update);\n    status = apr_thread_mutex_lock(threadpool->threadpool_mutex);\n    if (APR_SUCCESS != status) {\n        DEBUG_ERR(\"error calling apr_thread_mutex_lock: %s\", apr_strerror(status, errbuf, ERR_BUF_SIZE));\n        return status;\n    }\n    threadpool->ended"),
  (TP, "    status = apr_thread_cond_signal(threadpool->threadpool_update);\n    if (APR_SUCCESS != status) {\n        DEBUG_ERR(\"error calling apr_thread_cond_signal: %s\", apr_strerror(status, errbuf, ERR_BUF_SIZE));\n        return status;\n    }\n", ""))
M('tp-ended-keep', 'S21', (TP, "    threadpool->ended &= 0x0;\n    napr_list_enqueue", "    napr_list_enqueue"))
M('tp-ended-unlocked', 'S13', (TP, "    threadpool->ended &= 0x0;\n    napr_list_enqueue", "    napr_list_enqueue"), (TP, "    status = apr_thread_cond_signal(", "    threadpool->ended &= 0x0;\n    status = apr_thread_cond_signal("))
M('tp-tail', 'S21', (TP, "            napr_list->tail->next = cell;\n            napr_list->tail = cell;", "            napr_list->tail->next = cell;"))
M('tp-cons-tail', 'S21', (TP, "        if (napr_list->nb_cells == 1) {\n            napr_list->tail = napr_list->head;\n        }\n", "        if (napr_list->tail == NULL) {\n            napr_list->tail = napr_list->head;\n        }\n"))
M('tp-wait-if', 'S21', (TP, "        while (!(threadpool->ended & 0x1)) {", "        if (!(threadpool->ended & 0x1)) {"))
M('tp-wait-cond', 'S21', (TP, "if ((0 != list_size) || (threadpool->nb_waiting != threadpool->nb_thread)) {", "if ((0 != list_size) && (threadpool->nb_waiting != threadpool->nb_thread)) {"))
M('tp-wait-cond2', 'S21', (TP, "if ((0 != list_size) || (threadpool->nb_waiting != threadpool->nb_thread)) {", "if (0 != list_size) {"))
M('tp-run-late', 'S21', (TP, "        threadpool->run |= 0x1;\n\n        while (!(threadpool->ended & 0x1)) {\n", "        while (!(threadpool->ended & 0x1)) {\n            threadpool->run |= (0 != list_size);\n"))
M('tp-worker-if', 'S21', (TP, "if ((0 < napr_list_size(threadpool->list)) && !(threadpool->ended & 0x1)) {", "if ((1 < napr_list_size(threadpool->list)) && !(threadpool->ended & 0x1)) {"))
M('tp-nobcast', 'S21', (TP, "        status = apr_thread_cond_broadcast(threadpool->threadpool_update);\n        if (APR_SUCCESS != status) {\n            DEBUG_ERR(\"error calling apr_thread_cond_broadcast: %s\", apr_strerror(status, errbuf, ERR_BUF_SIZE));\n            return status;\n        }\n    }\n\n    status = apr_thread_cond_wait", "    }\n\n    status = apr_thread_cond_wait"))
M('tp-signal-one', 'S21', (TP, "        threadpool->ended |= 0x1;\n        status = apr_thread_cond_broadcast(", "        threadpool->ended |= 0x1;\n        status = apr_thread_cond_signal("))
M('tp-count', 'S21', (TP, "    threadpool->nb_waiting++;\n\n    if (!(threadpool->ended & 0x1) && (threadpool->run & 0x1) && (threadpool->nb_waiting == threadpool->nb_thread)) {", "    if (!(threadpool->ended & 0x1) && (threadpool->run & 0x1) && (threadpool->nb_waiting + 1 >= threadpool->nb_thread)) {"), (TP, "    status = apr_thread_cond_wait(threadpool->threadpool_update, threadpool->threadpool_mutex);\n    if (APR_SUCCESS != status) {\n        DEBUG_ERR(\"error calling apr_thread_cond_wait: %s\", apr_strerror(status, errbuf, ERR_BUF_SIZE));\n        return status;\n    }\n\n    threadpool->nb_waiting--;", "    status = apr_thread_cond_wait(threadpool->threadpool_update, threadpool->threadpool_mutex);\n    if (APR_SUCCESS != status) {\n        DEBUG_ERR(\"error calling apr_thread_cond_wait: %s\", apr_strerror(status, errbuf, ERR_BUF_SIZE));\n        return status;\n    }\n"))
M('tp-early', 'S21', (TP, "(threadpool->nb_waiting == threadpool->nb_thread)) {\n        threadpool->ended", "(threadpool->nb_waiting >= threadpool->nb_thread - 1)) {\n        threadpool->ended"))
M('tp-cb-locked', 'S13', (TP, "        status = apr_thread_mutex_unlock(threadpool->threadpool_mutex);\n        if (APR_SUCCESS != status) {\n            DEBUG_ERR(\"error calling apr_thread_mutex_unlock: %s\", apr_strerror(status, errbuf, ERR_BUF_SIZE));\n            return status;\n        }\n\n        threadpool->process_data(threadpool->ctx, data);\n\n        status = apr_thread_mutex_lock(threadpool->threadpool_mutex);\n        if (APR_SUCCESS != status) {\n            DEBUG_ERR(\"error calling apr_thread_mutex_lock: %s\", apr_strerror(status, errbuf, ERR_BUF_SIZE));\n        }\n", "        threadpool->process_data(threadpool->ctx, data);\n"))
M('tp-cdr-after', 'S21', (TP, "    data = napr_list_get(cell);\n    napr_list_cdr(threadpool->list);\n", "    data = napr_list_get(cell);\n"), (TP, "            DEBUG_ERR(\"error calling apr_thread_mutex_lock: %s\", apr_strerror(status, errbuf, ERR_BUF_SIZE));\n        }\n    }\n    return status;\n}\n\nstatic apr_status_t wait_for_task", "            DEBUG_ERR(\"error calling apr_thread_mutex_lock: %s\", apr_strerror(status, errbuf, ERR_BUF_SIZE));\n        }\n        napr_list_cdr(threadpool->list);\n    }\n    return status;\n}\n\nstatic apr_status_t wait_for_task"))
M('tp-cdr-unl', 'S13', (TP, "    data = napr_list_get(cell);\n    napr_list_cdr(threadpool->list);\n", "    data = napr_list_get(cell);\n"), (TP, "        threadpool->process_data(threadpool->ctx, data);\n", "        napr_list_cdr(threadpool->list);\n        threadpool->process_data(threadpool->ctx, data);\n"))
M('tp-sd-signal', 'S21', (TP, "    /* Broadcast to wake up all waiting threads */\n    status = apr_thread_cond_broadcast(", "    /* Broadcast to wake up all waiting threads */\n    status = apr_thread_cond_signal("))
M('tp-sd-unlocked', 'S13', (TP, "    /* Signal all threads to shutdown */\n    threadpool->shutdown |= 0x1;\n", ""), (TP, "    /* Lock mutex to set shutdown flag */\n", "    threadpool->shutdown |= 0x1;\n"))
M('tp-sd-join1', 'S21', (TP, "    for (idx = 0; idx < threadpool->nb_thread; idx++) {\n        status = apr_thread_join", "    for (idx = 1; idx < threadpool->nb_thread; idx++) {\n        status = apr_thread_join"))
M('tp-sd-join2', 'S21', (TP, "    for (idx = 0; idx < threadpool->nb_thread; idx++) {\n        status = apr_thread_join", "    for (idx = 0; idx < threadpool->nb_waiting; idx++) {\n        status = apr_thread_join"))
M('tp-sd-held', 'S13', (TP, "        apr_thread_mutex_unlock(threadpool->threadpool_mutex);\n        return status;\n    }\n\n    status = apr_thread_mutex_unlock", "        return status;\n    }\n\n    status = apr_thread_mutex_unlock"))
M('tp-loop-held', 'S13', (TP, "    status = apr_thread_mutex_unlock(threadpool->threadpool_mutex);\n    if (APR_SUCCESS != status) {\n        DEBUG_ERR(\"error calling apr_thread_mutex_unlock: %s\", apr_strerror(status, errbuf, ERR_BUF_SIZE));\n    }\n\n    return NULL;", "    return NULL;"))
M('tp-init-late', 'S21', (TP, "    (*threadpool)->nb_waiting = 0UL;\n", ""), (TP, "    return APR_SUCCESS;\n}\n\nextern apr_status_t napr_threadpool_add", "    (*threadpool)->nb_waiting = 0UL;\n    return APR_SUCCESS;\n}\n\nextern apr_status_t napr_threadpool_add"))
M('tp-init-flags', 'S21', (TP, "    (*threadpool)->shutdown &= 0x0;\n", ""))
M('tp-loop-sd', 'S21', (TP, "    while (!(threadpool->shutdown & 0x1)) {\n", "    while (!(threadpool->shutdown & 0x1) || napr_list_size(threadpool->list) == 0) {\n"))
M('tp-loop-ended', 'S21', (TP, "    while (!(threadpool->shutdown & 0x1)) {\n", "    while (!(threadpool->shutdown & 0x1) && !(threadpool->ended & 0x1)) {\n"))
PALL = 'S13 S21'
N('tp-n1', PALL, (TP, "        while (!(threadpool->ended & 0x1)) {\n            status = apr_thread_cond_wait(threadpool->threadpool_update, threadpool->threadpool_mutex);\n            if (APR_SUCCESS != status) {", "        for (;;) {\n            if (threadpool->ended) {\n                break;\n            }\n            status = apr_thread_cond_wait(threadpool->threadpool_update, threadpool->threadpool_mutex);\n            if (APR_SUCCESS != status) {"))
N('tp-n2', PALL, (TP, "    status = apr_thread_mutex_unlock(threadpool->threadpool_mutex);\n    if (APR_SUCCESS != status) {\n        DEBUG_ERR(\"error calling apr_thread_mutex_unlock: %s\", apr_strerror(status, errbuf, ERR_BUF_SIZE));\n        return status;\n    }\n    status = apr_thread_cond_signal(threadpool->threadpool_update);\n    if (APR_SUCCESS != status) {\n        DEBUG_ERR(\"error calling apr_thread_cond_signal: %s\", apr_strerror(status, errbuf, ERR_BUF_SIZE));\n        return status;\n    }\n", "    status = apr_thread_cond_signal(threadpool->threadpool_update);\n    if (APR_SUCCESS != status) {\n        (void) apr_thread_mutex_unlock(threadpool->threadpool_mutex);\n        return status;\n    }\n    status = apr_thread_mutex_unlock(threadpool->threadpool_mutex);\n    if (APR_SUCCESS != status) {\n        return status;\n    }\n"))
N('tp-n3', PALL, (TP, "    unsigned int run:1;\n    unsigned int ended:1;\n    unsigned int shutdown:1;\n", "    int run;\n    int ended;\n    int shutdown;\n"))
N('tp-n4', PALL, (TP, "        if ((0 < napr_list_size(threadpool->list)) && !(threadpool->ended & 0x1)) {\n            status = process_task(threadpool);\n        }\n        else {\n            status = wait_for_task(threadpool);\n        }\n\n        if (APR_SUCCESS != status) {\n            break;\n        }\n", "        const int idle = threadpool->ended || napr_list_size(threadpool->list) == 0;\n        status = idle ? wait_for_task(threadpool) : process_task(threadpool);\n        if (status) {\n            break;\n        }\n"))
N('tp-n5', PALL, (TP, "    for (idx = 0; idx < threadpool->nb_thread; idx++) {\n        status = apr_thread_join(&return_value, threadpool->thread[idx]);", "    apr_thread_t **thr = threadpool->thread;\n    while (idx != threadpool->nb_thread) {\n        status = apr_thread_join(&return_value, thr[idx++]);"))
N('tp-n6', PALL, (TP, "    if (0 != napr_list->nb_cells) {\n        cell = (napr_cell_t *) apr_palloc(napr_list->p, sizeof(struct napr_cell_t));\n        if (NULL != cell) {\n            napr_list->nb_cells += 1UL;\n            cell->data = element;\n            cell->next = NULL;\n            napr_list->tail->next = cell;\n            napr_list->tail = cell;\n        }\n        else {\n            return_code = -1;\n        }\n    }\n    else {\n        return_code = napr_list_cons(napr_list, element);\n    }\n", "    cell = apr_palloc(napr_list->p, sizeof(*cell));\n    if (cell == NULL) {\n        return -1;\n    }\n    cell->data = element;\n    cell->next = NULL;\n    if (napr_list->nb_cells == 0) {\n        napr_list->head = cell;\n    }\n    else {\n        napr_list->tail->next = cell;\n    }\n    napr_list->tail = cell;\n    napr_list->nb_cells++;\n"))
N('tp-n7', PALL, (TP, "    for (idx = 0; idx < nb_thread; idx++) {\n        status = apr_thread_create(&((*threadpool)->thread[idx]), NULL, napr_threadpool_loop, (*threadpool), (*threadpool)->pool);", "    napr_threadpool_t *self = *threadpool;\n    for (idx = 0; idx < self->nb_thread; ++idx) {\n        status = apr_thread_create(self->thread + idx, NULL, napr_threadpool_loop, self, self->pool);"))

# ---------------- extraction and workers
AR = 'ft_archive.c'
M('ar-dest', 'S22', (AR, "            archive_entry_copy_pathname(entry, tmpfile);\n", ""))
M('ar-umask', 'S22', (AR, "            umask(current_mode);\n            if (result_value < 0) {", "            if (result_value < 0) {"), (AR, "            close(result_value);\n", "            close(result_value);\n            umask(current_mode);\n"))
M('ar-eof', 'S22', (AR, "        if (result_value == ARCHIVE_EOF) {\n            return ARCHIVE_OK;\n        }\n        if (result_value != ARCHIVE_OK) {", "        if (result_value == ARCHIVE_EOF || result_value == ARCHIVE_WARN) {\n            return ARCHIVE_OK;\n        }\n        if (result_value != ARCHIVE_OK) {"))
M('ar-wfail', 'S22', (AR, "        result_value = (int) archive_write_data_block(archive_write, buff, size, offset);\n        if (result_value != ARCHIVE_OK) {", "        result_value = (int) archive_write_data_block(archive_write, buff, size, offset);\n        if (result_value < ARCHIVE_WARN) {"))
M('ar-temp', 'S10', (AR, "                    archive_write_free(ext);\n                    archive_read_free(archive_handle);\n                    (void) apr_file_remove(tmpfile, pool);\n", "                    archive_write_free(ext);\n                    archive_read_free(archive_handle);\n"))
M('ar-handle', 'S22', (AR, "            DEBUG_ERR(\"subpath [%s] not found in archive [%s]\", file->subpath, file->path);\n            archive_write_free(ext);\n", "            DEBUG_ERR(\"subpath [%s] not found in archive [%s]\", file->subpath, file->path);\n"))
M('ar-match', 'S22', (AR, "if (!strcmp(file->subpath, archive_entry_pathname(entry))) {", "if (strstr(archive_entry_pathname(entry), file->subpath)) {"), (AR, "#include <unistd.h>\n", "#include <unistd.h>\n#include <string.h>\n"))
N('ar-n1', 'S22 S10', (AR, "    archive_write_free(ext);\n    archive_read_free(archive_handle);\n\n    return tmpfile;", "    archive_read_free(archive_handle);\n    archive_write_free(ext);\n    return tmpfile;"))
N('ar-n2', 'S22 S10', (AR, "            result_value = archive_write_header(ext, entry);\n            if (result_value == ARCHIVE_OK) {\n                result_value = copy_data(archive_handle, ext);\n                if (result_value != ARCHIVE_OK) {\n                    DEBUG_ERR(\"error while copying data from archive (%s)\", file->path);\n                    archive_write_free(ext);\n                    archive_read_free(archive_handle);\n                    (void) apr_file_remove(tmpfile, pool);\n                    return NULL;\n                }\n            }\n            else {\n                DEBUG_ERR(\"error in archive (%s): %s\", file->path, archive_error_string(archive_handle));\n                archive_write_free(ext);\n                archive_read_free(archive_handle);\n                (void) apr_file_remove(tmpfile, pool);\n                return NULL;\n            }\n\n            break;", "            result_value = archive_write_header(ext, entry);\n            if (result_value == ARCHIVE_OK) {\n                result_value = copy_data(archive_handle, ext);\n            }\n            if (result_value != ARCHIVE_OK) {\n                (void) apr_file_remove(tmpfile, pool);\n                tmpfile = NULL;\n            }\n            break;"))
M('wk-slot', 'S12', (PR, "&fsize->chksum_array[task->index].hash_value, subpool);", "&fsize->chksum_array[0].hash_value, subpool);"))
M('wk-pool', 'S12', (PR, "&fsize->chksum_array[task->index].hash_value, subpool);", "&fsize->chksum_array[task->index].hash_value, h_ctx->pool);"))
M('wk-count', 'S12', (PR, "    if (APR_SUCCESS == status) {\n        apr_status_t lock_status = APR_SUCCESS;\n", "    if (APR_SUCCESS == status) {\n        apr_status_t lock_status = APR_SUCCESS;\n        h_ctx->files_processed++;\n"), (PR, "            h_ctx->files_processed++;\n\n            if", "            if"))
M('wk-read', 'S12', (PR, "            apr_thread_mutex_unlock(h_ctx->stats_mutex);\n        }\n    }\n", "            apr_thread_mutex_unlock(h_ctx->stats_mutex);\n            if (h_ctx->files_processed == h_ctx->total_files) {\n                (void) fflush(stderr);\n            }\n        }\n    }\n"))
M('wk-held', 'S12', (PR, "            apr_thread_mutex_unlock(h_ctx->stats_mutex);\n        }\n", "                apr_thread_mutex_unlock(h_ctx->stats_mutex);\n        }\n").__class__ and (PR, "                               h_ctx->files_processed, h_ctx->total_files, (int) ((float) h_ctx->files_processed / (float) h_ctx->total_files * 100.0F));\n            }\n\n            apr_thread_mutex_unlock(h_ctx->stats_mutex);\n", "                               h_ctx->files_processed, h_ctx->total_files, (int) ((float) h_ctx->files_processed / (float) h_ctx->total_files * 100.0F));\n                apr_thread_mutex_unlock(h_ctx->stats_mutex);\n            }\n"))
M('wk-first', 'S12', (PR, "    ft_file_t *file = fsize->chksum_array[task->index].file;\n    apr_pool_t *subpool", "    ft_file_t *file = fsize->chksum_array[task->index % fsize->nb_files].file;\n    apr_pool_t *subpool").__class__ and (PR, "file->size, h_ctx->conf->excess_size,", "fsize->val ? fsize->val : h_ctx->conf->minsize, h_ctx->conf->excess_size,"))
M('wk-temp', 'S10', (PR, "    if (is_option_set(h_ctx->conf->mask, OPTION_UNTAR) && (NULL != file->subpath)) {\n        (void) apr_file_remove(filepath, subpool);\n    }\n\n    if (APR_SUCCESS == status) {", "    if (APR_SUCCESS == status && is_option_set(h_ctx->conf->mask, OPTION_UNTAR) && (NULL != file->subpath)) {\n        (void) apr_file_remove(filepath, subpool);\n    }\n\n    if (APR_SUCCESS == status) {"))
M('wk-temp2', 'S10', (PR, "    if (is_option_set(h_ctx->conf->mask, OPTION_UNTAR) && (NULL != file->subpath)) {\n        (void) apr_file_remove(filepath, subpool);", "    if (is_option_set(h_ctx->conf->mask, OPTION_UNTAR)) {\n        (void) apr_file_remove(filepath, subpool);"))
M('wk-static', 'S12', ('ft_file.c', "    unsigned char data_chunk[HUGE_LEN]", "    static unsigned char data_chunk[HUGE_LEN]"))
M('wk-img', 'S12', ('ft_image.c', "    cv_ctx->nb_processed += 1;\n    status = apr_thread_mutex_unlock(cv_ctx->mutex);", "    status = apr_thread_mutex_unlock(cv_ctx->mutex);\n    cv_ctx->nb_processed += 1;"))
N('wk-n1', 'S12 S10', (PR, "    if (is_option_set(h_ctx->conf->mask, OPTION_UNTAR) && (NULL != file->subpath)) {\n        (void) apr_file_remove(filepath, subpool);\n    }\n\n    if (APR_SUCCESS == status) {", "    if (filepath != file->path) {\n        (void) apr_file_remove(filepath, subpool);\n    }\n\n    if (APR_SUCCESS == status) {"))
N('wk-n2', 'S12 S10', (PR, "status = checksum_file(filepath, file->size, h_ctx->conf->excess_size, &fsize->chksum_array[task->index].hash_value, subpool);", "ft_chksum_t *slot = fsize->chksum_array + task->index;\n    status = checksum_file(filepath, slot->file->size, h_ctx->conf->excess_size, &slot->hash_value, subpool);"))
N('wk-n3', 'S12 S10', (PR, "            h_ctx->files_processed++;\n\n            if (is_option_set(h_ctx->conf->mask, OPTION_VERBO)) {", "            const apr_size_t done = ++h_ctx->files_processed;\n            (void) done;\n            if (is_option_set(h_ctx->conf->mask, OPTION_VERBO)) {"))

# ---------------- hash table
HA, KH = 'napr_hash.c', 'key_hash.c'
M('ha-lenless', 'S17', (HA, "            if (key_len == hash->get_key_len(hash->table[bucket][bucket_index])) {\n                if (0 == (hash->key_cmp(key, hash->get_key(hash->table[bucket][bucket_index]), key_len))) {", "            if (key_len <= hash->get_key_len(hash->table[bucket][bucket_index])) {\n                if (0 == (hash->key_cmp(key, hash->get_key(hash->table[bucket][bucket_index]), key_len))) {"))
M('ha-last', 'S17', (HA, "        for (bucket_index = 0; bucket_index < nel; bucket_index++) {", "        for (bucket_index = 0; bucket_index < nel - 1 || bucket_index == 0; bucket_index++) {"))
M('ha-from1', 'S17', (HA, "        for (index = 0; index < nel; index++) {", "        for (index = nel > 4; index < nel; index++) {"))
M('ha-out', 'S17', (HA, "        *hash_value = key_hash;\n", "        *hash_value = key_hash & hash->mask;\n"))
M('ha-rm-hole', 'S17', (HA, "                    if (index != nel - 1) {\n                        hash->table[bucket][index] = hash->table[bucket][nel - 1];", "                    if (index < nel - 2) {\n                        hash->table[bucket][index] = hash->table[bucket][nel - 1];"))
M('ha-rm-nel', 'S17', (HA, "                    hash->filling_table[bucket]--;\n                    hash->nel--;\n                    break;", "                    hash->filling_table[bucket]--;\n                    hash->nel--;\n                    nel--;\n").__class__ and (HA, "                    hash->filling_table[bucket]--;\n                    hash->nel--;\n", "                    if (nel > 1) {\n                        hash->filling_table[bucket]--;\n                    }\n                    hash->nel--;\n"))
M('ha-rm-first', 'S17', (HA, "                        hash->table[bucket][index] = hash->table[bucket][nel - 1];", "                        hash->table[bucket][index] = hash->table[bucket][index + 1];"))
M('ha-grow-gt', 'S17', (HA, "    if (hash->ffactor <= hash->filling_table[bucket]) {", "    if (hash->ffactor < hash->filling_table[bucket]) {"))
M('ha-grow-hash', 'S17', (HA, "status = napr_hash_set(tmp, hash->table[index][sub_index], hash->hash(hash->get_key(hash->table[index][sub_index]), hash->get_key_len(hash->table[index][sub_index])));", "status = napr_hash_set(tmp, hash->table[index][sub_index], (apr_uint32_t) index);"))
M('ha-grow-size', 'S17', (HA, "    for (index = 0; index < hash->size; index++) {\n        for (sub", "    for (index = 0; index < hash->mask; index++) {\n        for (sub"))
M('ha-grow-sub', 'S17', (HA, "sub_index < hash->filling_table[index]; sub_index++) {", "sub_index < hash->filling_table[index] && sub_index + 1 < hash->ffactor; sub_index++) {"))
M('ha-grow-mask', 'S17', (HA, "    hash->mask = tmp->mask;\n", ""))
M('ha-grow-pool', 'S17', (HA, "    hash->own_pool = tmp->own_pool;\n", ""))
M('ha-grow-ff', 'S17', (HA, "        .nel = hashsize(hash->power + 1),", "        .nel = hash->nel,"))
N('ha-grow-fn', 'S17', (HA, "        .get_key_len = hash->get_key_len,\n        .key_cmp = hash->key_cmp,\n        .hash = hash->hash\n    };\n\n    tmp", "        .get_key_len = hash->get_key_len,\n        .key_cmp = str_key_cmp,\n        .hash = hash->hash\n    };\n\n    tmp"))
M('ha-room', 'S17', (HA, "hash->ffactor * sizeof(void *));", "(hash->ffactor - 1) * sizeof(void *));"))
M('ha-next-last', 'S17', (HA, "(index->element < (index->hash->filling_table[index->bucket] - 1))) {", "(index->element + 2 < index->hash->filling_table[index->bucket])) {"))
M('ha-next-end', 'S17', (HA, "index->bucket < index->hash->size; index->bucket++) {\n        if (0 !=", "index->bucket < index->hash->mask; index->bucket++) {\n        if (0 !="))
M('ha-next-elem', 'S17', (HA, "    index->element = 0;\n    for", "    for"))
M('ha-first', 'S17', (HA, "    if (hash->filling_table[0] > 0) {\n        return hash_index;\n    }\n", ""))
M('ha-mask', 'S17', (HA, "    result->mask = hashmask(result->power);", "    result->mask = hashmask(result->power < 16 ? result->power : 16);"))
M('ha-this', 'S17', (HA, "        *val = hash_index->hash->table[hash_index->bucket][hash_index->element];", "        *val = hash_index->hash->table[hash_index->bucket][0];"))
M('ha-key32', 'S17', (KH, "    apr_off_t key1_value = *(const apr_off_t *) key1;\n    apr_off_t key2_value = *(const apr_off_t *) key2;", "    int key1_value = *(const int *) key1;\n    int key2_value = *(const int *) key2;"))
M('ha-keydiff', 'S17', (KH, "    apr_off_t key1_value = *(const apr_off_t *) key1;\n    apr_off_t key2_value = *(const apr_off_t *) key2;\n    if (key1_value == key2_value) {\n        return 0;\n    }\n    if (key1_value < key2_value) {\n        return -1;\n    }\n    return 1;", "    return (int) (*(const apr_off_t *) key1 - *(const apr_off_t *) key2);"))
M('ha-hashlen', 'S17', (KH, "    return XXH32(key, sizeof(gid_t), 0);", "    return XXH32(key, sizeof(apr_off_t), 0);"))
M('ha-strcmp', 'S17', (HA, "    return memcmp(str1, str2, len);", "    return memcmp(str1, str2, len < 64 ? len : 64);"))
M('ha-grow-fn2', 'S17', (HA, "        .key_cmp = hash->key_cmp,\n        .hash = hash->hash\n    };\n\n    tmp", "        .key_cmp = hash->key_cmp,\n        .hash = str_hash\n    };\n\n    tmp"))
M('ha-grow-ff2', 'S17', (HA, "        .ffactor = hash->ffactor,\n        .get_key = hash->get_key,\n        .get_key_len = hash->get_key_len,\n        .key_cmp = hash->key_cmp,\n        .hash = hash->hash\n    };\n\n    tmp", "        .ffactor = hash->ffactor / 2 + 1,\n        .get_key = hash->get_key,\n        .get_key_len = hash->get_key_len,\n        .key_cmp = hash->key_cmp,\n        .hash = hash->hash\n    };\n\n    tmp"))
M('ha-rm-two', 'S17', (HA, "                    hash->filling_table[bucket]--;\n                    hash->nel--;\n                    break;", "                    hash->filling_table[bucket]--;\n                    hash->nel--;\n                    nel--;"), (HA, "                    if (index != nel - 1) {\n                        hash->table[bucket][index] = hash->table[bucket][nel - 1];\n                        hash->table[bucket][nel - 1] = NULL;", "                    if (index + 2 < nel) {\n                        hash->table[bucket][index] = hash->table[bucket][nel - 1];\n                        hash->table[bucket][nel - 1] = NULL;"))
N('ha-n1', 'S17', (HA, "        for (bucket_index = 0; bucket_index < nel; bucket_index++) {", "        for (bucket_index = 0; bucket_index != nel; ++bucket_index) {\n            void *elt = hash->table[bucket][bucket_index];"),
  (HA, "            if (key_len == hash->get_key_len(hash->table[bucket][bucket_index])) {\n                if (0 == (hash->key_cmp(key, hash->get_key(hash->table[bucket][bucket_index]), key_len))) {\n                    return hash->table[bucket][bucket_index];\n                }\n            }\n", "            if (hash->get_key_len(elt) != key_len) {\n                continue;\n            }\n            if (hash->key_cmp(key, hash->get_key(elt), key_len) == 0) {\n                return elt;\n            }\n"))
N('ha-n2', 'S17', (HA, "    bucket = key_hash & hash->mask;\n    nel = hash->filling_table[bucket];\n    if (0 != nel) {\n        for (bucket_index = 0; bucket_index < nel; bucket_index++) {", "    bucket = (apr_size_t) key_hash % hash->size;\n    nel = hash->filling_table[bucket];\n    {\n        void **elts = hash->table[bucket];\n        for (bucket_index = 0; bucket_index < nel; bucket_index++) {\n            (void) elts;"))
N('ha-n3', 'S17', (HA, "                    if (index != nel - 1) {\n                        hash->table[bucket][index] = hash->table[bucket][nel - 1];\n                        hash->table[bucket][nel - 1] = NULL;\n                    }\n                    else {\n                        hash->table[bucket][index] = NULL;\n                    }\n                    hash->filling_table[bucket]--;\n                    hash->nel--;\n                    break;", "                    hash->table[bucket][index] = hash->table[bucket][nel - 1];\n                    hash->table[bucket][nel - 1] = NULL;\n                    hash->filling_table[bucket] = nel - 1;\n                    hash->nel -= 1;\n                    return;"))
N('ha-n4', 'S17', (HA, "    for (index = 0; index < hash->size; index++) {\n        for (sub_index = 0; sub_index < hash->filling_table[index]; sub_index++) {", "    for (index = 0; index < hash->size; index++) {\n        const apr_size_t filled = hash->filling_table[index];\n        void **elts = hash->table[index];\n        (void) elts;\n        for (sub_index = 0; sub_index < filled; sub_index++) {"))
N('ha-n5', 'S17', (HA, "    index->element = 0;\n    for (index->bucket += 1; index->bucket < index->hash->size; index->bucket++) {\n        if (0 != index->hash->filling_table[index->bucket]) {\n            break;\n        }\n    }\n    if (index->bucket < index->hash->size) {\n        return index;\n    }\n\n    return NULL;", "    apr_size_t b = index->bucket + 1;\n    while (b < index->hash->size && index->hash->filling_table[b] == 0) {\n        b++;\n    }\n    index->bucket = b;\n    index->element = 0;\n    return b < index->hash->size ? index : NULL;"))
N('ha-n6', 'S17', (HA, "    if ((0 != index->hash->filling_table[index->bucket])\n        && (index->element < (index->hash->filling_table[index->bucket] - 1))) {\n        index->element++;\n        return index;", "    if (index->element + 1 < index->hash->filling_table[index->bucket]) {\n        index->element++;\n        return index;"))
N('ha-n7', 'S17', (HA, "    hash->table[bucket][nel] = data;\n    hash->filling_table[bucket]++;\n    hash->nel++;\n\n    if (hash->ffactor <= hash->filling_table[bucket]) {", "    hash->table[bucket][nel++] = data;\n    hash->filling_table[bucket] = nel;\n    hash->nel++;\n\n    if (nel >= hash->ffactor) {"))
N('ha-n8', 'S17', (KH, "    apr_off_t key1_value = *(const apr_off_t *) key1;\n    apr_off_t key2_value = *(const apr_off_t *) key2;\n    if (key1_value == key2_value) {\n        return 0;\n    }\n    if (key1_value < key2_value) {\n        return -1;\n    }\n    return 1;", "    const apr_off_t *a = key1;\n    const apr_off_t *b = key2;\n    return (*a > *b) - (*a < *b);"))
N('ha-n9', 'S17', (HA, "    index->element = 0;\n    for (index->bucket += 1; index->bucket < index->hash->size; index->bucket++) {\n        if (0 != index->hash->filling_table[index->bucket]) {\n            break;\n        }\n    }\n    if (index->bucket < index->hash->size) {\n        return index;\n    }\n\n    return NULL;", "    index->element = 0;\n    while (++index->bucket < index->hash->size) {\n        if (index->hash->filling_table[index->bucket] > 0) {\n            return index;\n        }\n    }\n    return NULL;"))
N('ha-n10', 'S17', (HA, "            status = napr_hash_set(tmp, hash->table[index][sub_index], hash->hash(hash->get_key(hash->table[index][sub_index]), hash->get_key_len(hash->table[index][sub_index])));", "            void *datum = hash->table[index][sub_index];\n            const void *key = hash->get_key(datum);\n            apr_size_t klen = hash->get_key_len(datum);\n            status = napr_hash_set(tmp, datum, hash->hash(key, klen));"))

# ---------------- heap
HE = 'napr_heap.c'
M('he-cmp0', 'S18', (HE, "            if (lpos < heap->count) {", "            if (lpos < heap->count - 1) {"))
M('he-right', 'S18', (HE, "(rpos < heap->count) && (heap->cmp(heap->tree[rpos], heap->tree[mpos])) > 0) {", "(rpos < heap->count) && (heap->cmp(heap->tree[rpos], heap->tree[ipos])) > 0) {"))
M('he-rbound', 'S18', (HE, "                if ((rpos < heap->count) && (heap", "                if ((rpos <= heap->count) && (heap"))
M('he-parent', 'S18', (HE, "    return (position - 1) >> 1;", "    return position >> 1;"))
M('he-rightpos', 'S18', (HE, "    return (position + 1) << 1;", "    return (position << 1) + 3;"))
M('he-copy', 'S18', (HE, "(const void *) (heap->tree), (heap->count) * sizeof(void *));", "(const void *) (heap->tree), (heap->count - 1) * sizeof(void *));"))
M('he-grow', 'S18', (HE, "    if (heap->max <= heap->count) {", "    if (heap->max < heap->count) {"))
M('he-growsize', 'S18', (HE, "apr_palloc(heap->pool, new_max * sizeof(void *));", "apr_palloc(heap->pool, new_max * sizeof(void *) / 2);"))
M('he-max', 'S18', (HE, "            heap->max = new_max;\n", "            heap->max = new_max * 2;\n"))
M('he-up', 'S18', (HE, "    while (ipos > 0 && (heap->cmp", "    if (ipos > 0 && (heap->cmp"))
M('he-updir', 'S18', (HE, "heap->tree[ipos]) < 0)) {", "heap->tree[ipos]) > 0)) {"))
M('he-last', 'S18', (HE, "        heap->tree[0] = heap->tree[heap->count - 1];\n        heap->tree[heap->count - 1] = NULL;\n        heap->count--;", "        heap->count--;\n        heap->tree[0] = heap->tree[heap->count - 1];\n        heap->tree[heap->count] = NULL;"))
M('he-nth', 'S18', (HE, "    if ((n < heap->count) && (NULL != heap->tree)) {", "    if ((n <= heap->count) && (NULL != heap->tree)) {"))
M('he-swap', 'S18', (HE, "                tmp = heap->tree[mpos];\n                heap->tree[mpos] = heap->tree[ipos];\n                heap->tree[ipos] = tmp;", "                tmp = heap->tree[mpos];\n                heap->tree[ipos] = tmp;"))
M('he-unlock', 'S18', (HE, "            unlock_status = apr_thread_mutex_unlock(heap->mutex);\n            if (0 == return_code) {\n                return_code = unlock_status;\n            }", "            if (0 == return_code) {\n                unlock_status = apr_thread_mutex_unlock(heap->mutex);\n                return_code = unlock_status;\n            }"))
M('he-init', 'S18', (HE, "    INITIAL_MAX = 256", "    INITIAL_MAX = 256, FIRST = 128"), (HE, "sizeof(void *) * INITIAL_MAX);", "sizeof(void *) * FIRST);"))
M('he-one', 'S18', (HE, "            if (lpos < heap->count) {\n                if (heap->cmp(heap->tree[lpos], heap->tree[ipos]) > 0) {", "            if (rpos < heap->count) {\n                if (heap->cmp(heap->tree[lpos], heap->tree[ipos]) > 0) {"))
N('he-n1', 'S18', (HE, "    heap->tree[heap->count] = datum;\n\n    ipos = heap->count;\n    ppos = napr_heap_parent(ipos);\n\n    while (ipos > 0 && (heap->cmp(heap->tree[ppos], heap->tree[ipos]) < 0)) {\n        /*\n         * Swap the value ...\n         */\n        void *swap_tmp = heap->tree[ppos];\n        heap->tree[ppos] = heap->tree[ipos];\n        heap->tree[ipos] = swap_tmp;\n\n        ipos = ppos;\n        ppos = napr_heap_parent(ipos);\n    }\n\n    heap->count++;\n",
  "    for (ipos = heap->count++; ipos > 0; ipos = ppos) {\n        ppos = (ipos - 1) / 2;\n        if (heap->cmp(heap->tree[ppos], datum) >= 0) {\n            break;\n        }\n        heap->tree[ipos] = heap->tree[ppos];\n    }\n    heap->tree[ipos] = datum;\n"))
N('he-n2', 'S18', (HE, "            if (mpos != ipos) {\n                /*\n                 * Swap the choosen children with the current node\n                 */\n                tmp = heap->tree[mpos];\n                heap->tree[mpos] = heap->tree[ipos];\n                heap->tree[ipos] = tmp;\n                ipos = mpos;\n            }\n            else {\n                break;\n            }", "            if (mpos == ipos) {\n                break;\n            }\n            tmp = heap->tree[ipos];\n            heap->tree[ipos] = heap->tree[mpos];\n            heap->tree[mpos] = tmp;\n            ipos = mpos;"))
N('he-n3', 'S18', (HE, "            if (lpos < heap->count) {\n                if (heap->cmp(heap->tree[lpos], heap->tree[ipos]) > 0) {\n                    mpos = lpos;\n                }\n                else {\n                    mpos = ipos;\n                }\n                if ((rpos < heap->count) && (heap->cmp(heap->tree[rpos], heap->tree[mpos])) > 0) {\n                    mpos = rpos;\n                }\n            }\n            else {\n                mpos = ipos;\n            }\n",
  "            mpos = ipos;\n            if (lpos < heap->count && heap->cmp(heap->tree[lpos], heap->tree[mpos]) > 0) {\n                mpos = lpos;\n            }\n            if (rpos < heap->count && heap->cmp(heap->tree[rpos], heap->tree[mpos]) > 0) {\n                mpos = rpos;\n            }\n"))
N('he-n4', 'S18', (HE, "        ret = heap->tree[0];\n        /* It works for count == 1 too (just think about it) */\n        heap->tree[0] = heap->tree[heap->count - 1];\n        heap->tree[heap->count - 1] = NULL;\n        heap->count--;\n        ipos = 0;\n", "        void **tree = heap->tree;\n        const unsigned int last = --heap->count;\n        ret = tree[0];\n        tree[0] = tree[last];\n        tree[last] = NULL;\n        ipos = 0;\n"))
N('he-n5', 'S18', (HE, "        for (new_max = 1; new_max <= heap->max; new_max *= 2) {\n            /* empty */\n        }\n", "        new_max = heap->max * 2;\n"))
N('he-n6', 'S18', (HE, "    return (position << 1) + 1;", "    return 2 * position + 1;"), (HE, "    return (position + 1) << 1;", "    return 2 * position + 2;"), (HE, "    return (position - 1) >> 1;", "    return (position - 1) / 2;"))
# sift down in one helper that keeps the element in hand
N('he-n7', 'S18', (HE, "        /* It works for count == 1 too (just think about it) */\n        heap->tree[0] = heap->tree[heap->count - 1];\n        heap->tree[heap->count - 1] = NULL;\n        heap->count--;\n        ipos = 0;\n\n        while (1) {\n            lpos = napr_heap_left(ipos);\n            rpos = napr_heap_right(ipos);\n\n            if (lpos < heap->count) {\n                if (heap->cmp(heap->tree[lpos], heap->tree[ipos]) > 0) {\n                    mpos = lpos;\n                }\n                else {\n                    mpos = ipos;\n                }\n                if ((rpos < heap->count) && (heap->cmp(heap->tree[rpos], heap->tree[mpos])) > 0) {\n                    mpos = rpos;\n                }\n            }\n            else {\n                mpos = ipos;\n            }\n\n            if (mpos != ipos) {\n                /*\n                 * Swap the choosen children with the current node\n                 */\n                tmp = heap->tree[mpos];\n                heap->tree[mpos] = heap->tree[ipos];\n                heap->tree[ipos] = tmp;\n                ipos = mpos;\n            }\n            else {\n                break;\n            }\n        }\n",
  "        tmp = heap->tree[heap->count - 1];\n        heap->tree[heap->count - 1] = NULL;\n        heap->count--;\n        if (heap->count == 0) {\n            return ret;\n        }\n        ipos = 0;\n        while ((lpos = napr_heap_left(ipos)) < heap->count) {\n            mpos = lpos;\n            rpos = napr_heap_right(ipos);\n            if (rpos < heap->count && heap->cmp(heap->tree[rpos], heap->tree[lpos]) > 0) {\n                mpos = rpos;\n            }\n            if (heap->cmp(heap->tree[mpos], tmp) <= 0) {\n                break;\n            }\n            heap->tree[ipos] = heap->tree[mpos];\n            ipos = mpos;\n        }\n        heap->tree[ipos] = tmp;\n"))

# ------------------------------------------------------------------ command line (S14)
CF, HS = 'ft_config.c', 'human_size.c'
M('op-c', 'S14', (CF, "    {'c', OPTION_ICASE, 1},", "    {'c', OPTION_REGEX, 1},"))
M('op-R', 'S14', (CF, "    {'R', OPTION_RECSD, 0}", "    {'R', OPTION_RECSD | OPTION_FSYML, 0}"))
M('op-v', 'S14', (CF, "        if (!is_option_set(conf->mask, OPTION_JSON)) {\n            set_option(&conf->mask, OPTION_VERBO, 1);\n        }", "        set_option(&conf->mask, OPTION_VERBO, 1);"))
M('op-J', 'S14', (CF, "        set_option(&conf->mask, OPTION_VERBO, 0);\n", ""))
M('op-threads', 'S14', (CF, "threads < 1 || threads > MAX_THREADS", "threads < 0 || threads > MAX_THREADS"))
M('op-threads2', 'S14', (CF, "if (*endptr != '\\0' || threads", "if (threads"))
M('op-max', 'S14', (CF, "        conf->maxsize = parse_human_size(optarg);\n        if (conf->maxsize < 0) {", "        conf->maxsize = parse_human_size(optarg);\n        if (conf->maxsize < -1) {"))
M('op-xmin', 'S14', (CF, "        if (conf->excess_size < 0) {", "        if (conf->minsize < 0) {"))
M('op-T3', 'S14', (CF, "        case '4':\n", "        case '0':\n        case '4':\n"))
M('op-T4', 'S14', (CF, "            conf->threshold = PUZZLE_CVEC_SIMILARITY_THRESHOLD;", "            conf->threshold = PUZZLE_CVEC_SIMILARITY_LOW_THRESHOLD;"))
M('op-plen', 'S14', (CF, "        conf->p_path_len = strlen(conf->p_path);\n", "        conf->p_path_len = strlen(conf->p_path) - 1;\n"))
M('op-wlcase', 'S14', (CF, "ft_pcre_compile(wregex_str, is_option_set(conf->mask, OPTION_ICASE), conf->pool);", "ft_pcre_compile(wregex_str, is_option_set(conf->mask, OPTION_PUZZL), conf->pool);"))
M('op-wlfail', 'S14', (CF, "        if (NULL == conf->wl_regex) {\n            return APR_EGENERAL;\n        }", "        if (NULL == conf->wl_regex) {\n            conf->wl_regex = conf->ig_regex;\n        }"))
M('op-unknown', 'S14', (CF, "        print_usage_and_exit(argv[0], opt_option, \"Invalid command line.\", \"\");\n        return status;\n", "        print_usage_and_exit(argv[0], opt_option, \"Invalid command line.\", \"\");\n"))
M('op-noargs', 'S14', (CF, "if (argc - opt_state->ind < 1) {", "if (argc - opt_state->ind < 0) {"))
M('op-Ire', 'S14', (CF, '".*\\\\.(gif|png|jpe?g)$"', '".*\\\\.(gif|png|jpg)$"'))
M('op-list', 'S14', (CF, "    } while ((NULL != end) && ('\\0' != *filename));", "    } while ((NULL != end) && (NULL != strchr(filename, ',')));"))
M('op-list2', 'S14', (CF, "            tmp = apr_pstrndup(pool, filename, end - filename);", "            tmp = apr_pstrndup(pool, filename, end - file_list);"))
M('op-list3', 'S14', (CF, "        if (NULL == napr_hash_search(hash, tmp, strlen(tmp), &hash_value)) {\n            napr_hash_set(hash, tmp, hash_value);\n        }\n", "        if (NULL != napr_hash_search(hash, tmp, strlen(tmp), &hash_value)) {\n            continue;\n        }\n        napr_hash_set(hash, tmp, hash_value);\n"))
M('op-def', 'S14', (CF, '"node_modules/", "vendor/", ".venv/",', '"node_modules/", "vendor/",'))
M('op-defb', 'S14', (CF, 'ft_ignore_context_create(pool, NULL, "");', 'ft_ignore_context_create(pool, NULL, "/");'))
M('op-optarg', 'S14', (CF, '    {"max-size", \'M\', TRUE,', '    {"max-size", \'M\', FALSE,'))
M('op-hs', 'S14', (HS, "            multiplier = GIBIBYTE;", "            multiplier = MEBIBYTE;"))
M('op-hs2', 'S14', (HS, "    if (endptr == size_str) {\n        return -1;              // Not a valid number\n    }", "    if (endptr == NULL) {\n        return -1;              // Not a valid number\n    }"))
M('op-hs3', 'S14', (HS, "        default:\n            return -1;          // Invalid suffix", "        case 'B':\n            break;\n        default:\n            return -1;          // Invalid suffix"))
M('op-ecase', 'S14', (CF, "        *(opts->ignore_regex) = apr_pstrdup(conf->pool, optarg);", "        conf->ig_regex = ft_pcre_compile(optarg, is_option_set(conf->mask, OPTION_ICASE), conf->pool);"))
M('op-help', 'S14', (CF, "    return APR_EGENERAL;        /* Indicates to stop processing */", "    return APR_SUCCESS;        /* Indicates to stop processing */"))
N('op-n1', 'S14', (CF, "    for (size_t idx = 0; idx < sizeof(flag_mappings) / sizeof(flag_mappings[0]); ++idx) {\n        if (flag_mappings[idx].option_char == option) {\n            set_option(&conf->mask, flag_mappings[idx].option_flag, flag_mappings[idx].value);\n            return;\n        }\n    }\n",
  "    const flag_option_mapping_t *map = flag_mappings;\n    const flag_option_mapping_t *const stop = map + sizeof(flag_mappings) / sizeof(flag_mappings[0]);\n    while (map < stop && map->option_char != option) {\n        map++;\n    }\n    if (map < stop) {\n        if (map->value) {\n            conf->mask |= map->option_flag;\n        }\n        else {\n            conf->mask &= ~map->option_flag;\n        }\n        return;\n    }\n"))
N('op-n2', 'S14', (CF, "            if (*endptr != '\\0' || threads < 1 || threads > MAX_THREADS) {", "            const int in_range = threads >= 1 && threads <= MAX_THREADS;\n            if (!in_range || *endptr) {"))
N('op-n3', 'S14', (CF, "        conf->minsize = parse_human_size(optarg);\n        if (conf->minsize < 0) {\n            print_usage_and_exit(name, opt_option, \"Invalid size for --minimal-length:\", optarg);\n            return APR_EGENERAL;\n        }\n        break;", "        {\n            apr_off_t parsed = parse_human_size(optarg);\n            if (parsed < 0) {\n                print_usage_and_exit(name, opt_option, \"Invalid size for --minimal-length:\", optarg);\n                return APR_EGENERAL;\n            }\n            conf->minsize = parsed;\n        }\n        break;"))
N('op-n4', 'S14', (CF, "    filename = file_list;\n    do {\n        end = strchr(filename, ',');\n        if (NULL != end) {\n            tmp = apr_pstrndup(pool, filename, end - filename);\n        }\n        else {\n            tmp = apr_pstrdup(pool, filename);\n        }\n        if (NULL == napr_hash_search(hash, tmp, strlen(tmp), &hash_value)) {\n            napr_hash_set(hash, tmp, hash_value);\n        }\n\n        if (NULL != end) {\n            filename = end + 1;\n        }\n    } while ((NULL != end) && ('\\0' != *filename));",
  "    for (filename = file_list;; filename = end + 1) {\n        end = strchr(filename, ',');\n        tmp = end ? apr_pstrndup(pool, filename, (apr_size_t) (end - filename)) : apr_pstrdup(pool, filename);\n        if (napr_hash_search(hash, tmp, strlen(tmp), &hash_value) == NULL) {\n            napr_hash_set(hash, tmp, hash_value);\n        }\n        if (end == NULL || end[1] == '\\0') {\n            break;\n        }\n    }"))
N('op-n5', 'S14', (CF, "    if (argc - opt_state->ind < 1) {", "    if (opt_state->ind >= argc) {"))
N('op-n6', 'S14', (HS, "        switch (toupper((unsigned char) *endptr)) {\n        case 'T':", "        const int suffix = tolower((unsigned char) *endptr);\n        switch (suffix) {\n        case 't':"), (HS, "case 'G':", "case 'g':"), (HS, "case 'M':", "case 'm':"), (HS, "case 'K':", "case 'k':"))
N('op-n7', 'S14', (CF, "    for (int idx = 0; default_ignores[idx] != NULL; idx++) {\n        ft_ignore_add_pattern_str(conf->global_ignores, default_ignores[idx]);\n    }", "    const char *const *cursor = default_ignores;\n    while (*cursor != NULL) {\n        (void) ft_ignore_add_pattern_str(conf->global_ignores, *cursor++);\n    }"))
N('op-n8', 'S14', (CF, "        switch (*optarg) {\n        case '1':\n            conf->threshold = PUZZLE_CVEC_SIMILARITY_LOWER_THRESHOLD;\n            break;\n        case '2':\n            conf->threshold = PUZZLE_CVEC_SIMILARITY_LOW_THRESHOLD;\n            break;\n        case '3':\n            conf->threshold = DEFAULT_THRESHOLD;\n            break;\n        case '4':\n            conf->threshold = PUZZLE_CVEC_SIMILARITY_THRESHOLD;\n            break;\n        case '5':\n            conf->threshold = PUZZLE_CVEC_SIMILARITY_HIGH_THRESHOLD;\n            break;\n        default:\n            print_usage_and_exit(name, opt_option, \"invalid threshold:\", optarg);\n            return APR_EGENERAL;\n        }\n        break;",
  "        {\n            static const double levels[] = { PUZZLE_CVEC_SIMILARITY_LOWER_THRESHOLD, PUZZLE_CVEC_SIMILARITY_LOW_THRESHOLD, 0.5, PUZZLE_CVEC_SIMILARITY_THRESHOLD, PUZZLE_CVEC_SIMILARITY_HIGH_THRESHOLD };\n            if (*optarg < '1' || *optarg > '5') {\n                print_usage_and_exit(name, opt_option, \"invalid threshold:\", optarg);\n                return APR_EGENERAL;\n            }\n            conf->threshold = levels[*optarg - '1'];\n        }\n        break;"))

# ------------------------------------------------------------------ S15
MN = 'ftwin.c'
M('mn-last', 'S15', (MN, "arg_index < argc; arg_index++", "arg_index < argc - 1; arg_index++"))
M('mn-first', 'S15', (MN, "int arg_index = first_arg_index;", "int arg_index = first_arg_index + 1;"))
M('mn-step', 'S15', (MN, "arg_index < argc; arg_index++", "arg_index < argc; arg_index += 2"))
M('mn-same', 'S15', (MN, "const char *current_arg = argv[arg_index];", "const char *current_arg = argv[first_arg_index];"))
M('mn-swallow', 'S15', (MN, '''DEBUG_ERR("error calling ft_traverse_path: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
            return status;''', '''DEBUG_ERR("error calling ft_traverse_path: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
            continue;'''))
M('mn-swallow2', 'S15', (MN, "            status = ft_process_files(conf);\n            if (status == APR_SUCCESS) {", "            status = ft_process_files(conf);\n            {"))
M('mn-break', 'S15', (MN, '''DEBUG_ERR("error calling ft_traverse_path: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
            return status;''', '''DEBUG_ERR("error calling ft_traverse_path: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
            break;'''))
M('mn-jsonrel', 'S15', (MN, "status = ft_traverse_path(conf, resolved_path);", "status = ft_traverse_path(conf, (arg_index > 3) ? current_arg : resolved_path);"))
M('mn-mergefail', 'S15', (MN, '''current_arg, apr_strerror(status, errbuf, ERR_BUF_SIZE));
                return status;''', '''current_arg, apr_strerror(status, errbuf, ERR_BUF_SIZE));
                continue;'''))
M('mn-ignore-report', 'S15', (MN, "status = ft_report_duplicates(conf);", "(void) ft_report_duplicates(conf);"))
M('mn-imgstatus', 'S15', (MN, "status = ft_image_twin_report(conf);", "(void) ft_image_twin_report(conf);"))
M('mn-empty0', 'S15', (MN, "        return APR_EINVAL;\n    }\n\n    apr_pool_destroy(gc_pool);", "    }\n\n    apr_pool_destroy(gc_pool);"))
M('mn-ret0', 'S15', (MN, '''        DEBUG_ERR("error during ftwin processing: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
        if (should_manage_apr) {
            apr_terminate();
        }
        return -1;''', '''        DEBUG_ERR("error during ftwin processing: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
        if (should_manage_apr) {
            apr_terminate();
            return -1;
        }
        return 0;'''))
M('mn-main', 'S15', (MN, "    return ftwin_main(argc, argv);", "    (void) ftwin_main(argc, argv);\n    return 0;"))
M('mn-256', 'S15', (MN, '''        DEBUG_ERR("error during ftwin processing: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
        if (should_manage_apr) {
            apr_terminate();
        }
        return -1;''', '''        DEBUG_ERR("error during ftwin processing: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
        if (should_manage_apr) {
            apr_terminate();
        }
        return 256;'''))
N('mn-n1', 'S15', (MN, "    for (int arg_index = first_arg_index; arg_index < argc; arg_index++) {", "    for (const char **cursor = argv + first_arg_index; cursor < argv + argc; cursor++) {"), (MN, "const char *current_arg = argv[arg_index];", "const char *current_arg = *cursor;"))
N('mn-n2', 'S15', (MN, "    for (int arg_index = first_arg_index; arg_index < argc; arg_index++) {", "    int arg_index = first_arg_index;\n    while (arg_index < argc) {"), (MN, "const char *current_arg = argv[arg_index];", "const char *current_arg = argv[arg_index++];"))
N('mn-n3', 'S15', (MN, "    return 0;\n}\n\n#ifndef", "    return EXIT_SUCCESS;\n}\n\n#ifndef"), (MN, "#include <unistd.h> ", "#include <stdlib.h>\n#include <unistd.h> "))
N('mn-n4', 'S15', (MN, "static apr_status_t run_ftwin_processing", '''static apr_status_t make_report(ft_conf_t *conf)
{
    apr_status_t status = APR_SUCCESS;
    if (is_option_set(conf->mask, OPTION_PUZZL)) {
        return ft_image_twin_report(conf);
    }
    status = ft_process_files(conf);
    if (status != APR_SUCCESS) {
        return status;
    }
    return is_option_set(conf->mask, OPTION_JSON) ? ft_report_json(conf) : ft_report_duplicates(conf);
}

static apr_status_t run_ftwin_processing'''), (MN, '''        if (is_option_set(conf->mask, OPTION_PUZZL)) {
            status = ft_image_twin_report(conf);
        }
        else {
            status = ft_process_files(conf);
            if (status == APR_SUCCESS) {
#if HAVE_JANSSON
                if (is_option_set(conf->mask, OPTION_JSON)) {
                    status = ft_report_json(conf);
                }
                else {
#endif
                    status = ft_report_duplicates(conf);
#if HAVE_JANSSON
                }
#endif
            }
        }
''', "        status = make_report(conf);\n"))

# ------------------------------------------------------------------ S16
IG = 'ft_ignore.c'
M('ig-parentwins', 'S16', (IG, "        if (result != FT_IGNORE_MATCH_NONE) {\n            break;\n        }\n", ""))
M('ig-whitelistonly', 'S16', (IG, "        if (result != FT_IGNORE_MATCH_NONE) {\n            break;", "        if (result == FT_IGNORE_MATCH_IGNORED) {\n            break;"))
M('ig-firstwins', 'S16', (IG, "                /* Don't break - continue checking for later patterns */", "                break;"))
M('ig-neg-stop', 'S16', (IG, "                    result = FT_IGNORE_MATCH_WHITELISTED;", "                    return FT_IGNORE_MATCH_WHITELISTED;"))
M('ig-sticky', 'S16', (IG, "                if (pattern->flags & FT_IGNORE_NEGATE) {", "                if ((pattern->flags & FT_IGNORE_NEGATE) && result != FT_IGNORE_MATCH_IGNORED) {"))
M('ig-dironly', 'S16', (IG, "if ((pattern->flags & FT_IGNORE_DIR_ONLY) && !is_dir) {", "if ((pattern->flags & FT_IGNORE_DIR_ONLY) && !is_dir && !(pattern->flags & FT_IGNORE_NEGATE)) {"))
M('ig-dironly2', 'S16', (IG, "if ((pattern->flags & FT_IGNORE_DIR_ONLY) && !is_dir) {", "if (!(pattern->flags & FT_IGNORE_DIR_ONLY) && is_dir) {"))
M('ig-gt0', 'S16', (IG, "            if (match >= 0) {", "            if (match > 0) {"))
M('ig-noerr', 'S16', (IG, "            if (match >= 0) {", "            if (match != PCRE_ERROR_NOMATCH) {"))
M('ig-last', 'S16', (IG, "index < current_ctx->patterns->nelts; index++", "index < current_ctx->patterns->nelts - 1; index++"))
M('ig-first', 'S16', (IG, "for (index = 0; index < current_ctx->patterns->nelts; index++", "for (index = 1; index < current_ctx->patterns->nelts; index++"))
M('ig-fullpath', 'S16', (IG, "match = pcre_exec(pattern->regex, NULL, relative_path, (int) strlen(relative_path)", "match = pcre_exec(pattern->regex, NULL, fullpath, (int) strlen(fullpath)"))
M('ig-slash', 'S16', (IG, "            while (*relative_path == '/') {\n                relative_path++;\n            }", ""))
M('ig-len', 'S16', (IG, "(int) strlen(relative_path), 0, 0", "(int) strlen(relative_path) - 1, 0, 0"))
M('ig-notunder', 'S16', (IG, "            /* Path not under this context's base, try parent */\n            continue;", "            relative_path = fullpath;"))
M('ig-breakout', 'S16', (IG, "            /* Path not under this context's base, try parent */\n            continue;", "            break;"))
M('ig-stale', 'S16', (IG, "            /* Path not under this context's base, try parent */\n            continue;", "            return FT_IGNORE_MATCH_IGNORED;"))
M('ig-skipparent', 'S16', (IG, "current_ctx = current_ctx->parent) {", "current_ctx = (current_ctx->parent && current_ctx->parent->parent) ? current_ctx->parent->parent : current_ctx->parent) {"))
N('ig-n1', 'S16', (IG, "        for (index = 0; index < current_ctx->patterns->nelts; index++) {", "        for (index = current_ctx->patterns->nelts - 1; index >= 0; index--) {"), (IG, "                /* Don't break - continue checking for later patterns */", "                break;"))
N('ig-n2', 'S16', (IG, "if ((pattern->flags & FT_IGNORE_DIR_ONLY) && !is_dir) {", "const int dir_only = (pattern->flags & FT_IGNORE_DIR_ONLY) != 0;\n            if (dir_only && is_dir == 0) {"), (IG, "                if (pattern->flags & FT_IGNORE_NEGATE) {", "                if ((pattern->flags & FT_IGNORE_NEGATE) == FT_IGNORE_NEGATE) {"))
N('ig-n3', 'S16', (IG, "            if (match >= 0) {", "            if (match < 0) {\n                continue;\n            }\n            {"))
N('ig-n4', 'S16', (IG, "        if (result != FT_IGNORE_MATCH_NONE) {\n            break;", "        if (result != FT_IGNORE_MATCH_NONE) {\n            return result;"))
N('ig-n5', 'S16', (IG, "    for (current_ctx = ctx; current_ctx != NULL; current_ctx = current_ctx->parent) {\n        int index = 0;", "    for (current_ctx = ctx; current_ctx != NULL && result == FT_IGNORE_MATCH_NONE; current_ctx = current_ctx->parent) {\n        int index = 0;"), (IG, "        if (result != FT_IGNORE_MATCH_NONE) {\n            break;\n        }\n", ""))
N('ig-n6', 'S16', (IG, "ft_ignore_match_result_t ft_ignore_match(", '''static ft_ignore_match_result_t match_context(const ft_ignore_context_t *context, const char *relative, int is_dir)
{
    ft_ignore_match_result_t verdict = FT_IGNORE_MATCH_NONE;
    int count = context->patterns->nelts;
    ft_ignore_pattern_t **list = (ft_ignore_pattern_t **) context->patterns->elts;
    int length = (int) strlen(relative);
    for (int idx = 0; idx < count; ++idx) {
        const ft_ignore_pattern_t *pattern = list[idx];
        if (!is_dir && (pattern->flags & FT_IGNORE_DIR_ONLY)) {
            continue;
        }
        if (pcre_exec(pattern->regex, NULL, relative, length, 0, 0, NULL, 0) >= 0) {
            verdict = (pattern->flags & FT_IGNORE_NEGATE) ? FT_IGNORE_MATCH_WHITELISTED : FT_IGNORE_MATCH_IGNORED;
        }
    }
    return verdict;
}

ft_ignore_match_result_t ft_ignore_match('''), (IG, '''        for (index = 0; index < current_ctx->patterns->nelts; index++) {
            ft_ignore_pattern_t *pattern = APR_ARRAY_IDX(current_ctx->patterns, index, ft_ignore_pattern_t *);
            int match = 0;

            /* Skip directory-only patterns if this is not a directory */
            if ((pattern->flags & FT_IGNORE_DIR_ONLY) && !is_dir) {
                continue;
            }

            /* Try to match */
            match = pcre_exec(pattern->regex, NULL, relative_path, (int) strlen(relative_path), 0, 0, NULL, 0);

            if (match >= 0) {
                /* Pattern matched */
                if (pattern->flags & FT_IGNORE_NEGATE) {
                    result = FT_IGNORE_MATCH_WHITELISTED;
                }
                else {
                    result = FT_IGNORE_MATCH_IGNORED;
                }
                /* Don't break - continue checking for later patterns */
            }
        }
''', "        (void) index;\n        result = match_context(current_ctx, relative_path, is_dir);\n"))
M('ig-q', 'S16', (IG, 'append_pcre_sequence(result_cursor, "[^/]");', 'append_pcre_sequence(result_cursor, ".");'))
M('ig-star', 'S16', (IG, 'append_pcre_sequence(result_cursor, "[^/]*");', 'append_pcre_sequence(result_cursor, "[^/]+");'))
M('ig-plus', 'S16', (IG, 'strchr(".^$+{}()|", **pattern_cursor)', 'strchr(".^${}()|", **pattern_cursor)'))
M('ig-root', 'S16', (IG, '        append_pcre_sequence(&cursor, "^");', '        append_pcre_sequence(&cursor, "");'))
M('ig-any', 'S16', (IG, '        append_pcre_sequence(&cursor, "(^|/)");', '        append_pcre_sequence(&cursor, "(^|.*/)" + 1);') ) if False else None
M('ig-any2', 'S16', (IG, '        append_pcre_sequence(&cursor, "(^|/)");', '        append_pcre_sequence(&cursor, "^");'))
M('ig-end', 'S16', (IG, '        append_pcre_sequence(&result_cursor, "$");', '        append_pcre_sequence(&result_cursor, "(/|$)");'))
M('ig-dirend', 'S16', (IG, '        append_pcre_sequence(&result_cursor, "(/|$)");', '        append_pcre_sequence(&result_cursor, "/");'))
M('ig-neg', 'S16', (IG, "if (**pattern_cursor == '!' || **pattern_cursor == '^') {", "if (**pattern_cursor == '^') {"))
M('ig-esc', 'S16', (IG, "            *cursor++ = '\\\\';\n            *cursor++ = *(*pattern_cursor + 1);", "            *cursor++ = *(*pattern_cursor + 1);"))
M('ig-buf', 'S16', (IG, "PCRE_MAX_EXPANSION = 5, ", "PCRE_MAX_EXPANSION = 4, "))
M('ig-buf2', 'S16', (IG, "    PCRE_ANCHORS_LEN = 16 ", "    PCRE_ANCHORS_LEN = 6 "))
M('ig-hash', 'S16', (IG, "if (*trimmed == '\\0' || *trimmed == '#') {", "if (*trimmed == '\\0' || strchr(trimmed, '#')) {"))
M('ig-hash2', 'S16', (IG, "if (*trimmed == '\\0' || *trimmed == '#') {", "if (*trimmed == '\\0' || *pattern_str == '#') {"))
M('ig-flags', 'S16', (IG, "    pattern->flags = flags;", "    pattern->flags = flags & FT_IGNORE_NEGATE;"))
M('ig-crlf', 'S16', (IG, "        if (len > 0 && line[len - 1] == '\\n') {\n            line[len - 1] = '\\0';", "        if (len > 1 && line[len - 1] == '\\n' && line[len - 2] == '\\r') {\n            line[len - 1] = '\\0';"))
M('ig-onlyfirst', 'S16', (IG, "        ft_ignore_add_pattern_str(ctx, line);", "        if (APR_SUCCESS != ft_ignore_add_pattern_str(ctx, line)) {\n            break;\n        }"))
M('ig-noclose', 'S16', (IG, "    (void) apr_file_close(file);\n", ""))
M('ig-skipbang', 'S16', (IG, "        ft_ignore_add_pattern_str(ctx, line);", "        if (line[0] != '!') {\n            ft_ignore_add_pattern_str(ctx, line);\n        }"))
M('ig-noparent', 'S16', (IG, "    ctx->parent = parent;", "    ctx->parent = (parent != NULL) ? parent->parent : NULL;"))
M('ig-baselen', 'S16', (IG, "    ctx->base_dir_len = strlen(base_dir);", "    ctx->base_dir_len = strlen(base_dir) - 1;"))
N('ig-n7', 'S16', (IG, "    while (isspace(*trimmed)) {\n        trimmed++;\n    }", "    for (; isspace((unsigned char) *trimmed); ++trimmed) {\n    }"), (IG, "        ft_ignore_add_pattern_str(ctx, line);", "        if (len > 0 && line[0] != '#') {\n            (void) ft_ignore_add_pattern_str(ctx, line);\n        }"))
N('ig-n8', 'S16', (IG, "        else if (strchr(\".^$+{}()|\", **pattern_cursor)) {", "        else if (strchr(\"|.()+{}$^\", **pattern_cursor) != NULL) {"), (IG, "        apr_size_t len = strlen(line);\n        if (len > 0 && line[len - 1] == '\\n') {\n            line[len - 1] = '\\0';\n            len--;\n        }\n        if (len > 0 && line[len - 1] == '\\r') {\n            line[len - 1] = '\\0';\n        }\n", "        line[strcspn(line, \"\\r\\n\")] = '\\0';\n"))
N('ig-n9', 'S16', (IG, "    (void) strcpy(*cursor, sequence);\n    *cursor += strlen(sequence);", "    const size_t len = strlen(sequence);\n    memcpy(*cursor, sequence, len + 1);\n    *cursor += len;"))
N('ig-n10', 'S16', (IG, "    (void) strcpy(*cursor, sequence);\n    *cursor += strlen(sequence);", "    while (*sequence != '\\0') {\n        *(*cursor)++ = *sequence++;\n    }\n    **cursor = '\\0';"))
M('ig-cr', 'S16', (IG, "        if (len > 0 && line[len - 1] == '\\r') {", "        if (len > 4000 && line[len - 1] == '\\r') {"))
M('ig-dstar', 'S16', (IG, 'append_pcre_sequence(result_cursor, "(.*/)?");', 'append_pcre_sequence(result_cursor, "(.*/)");'))
M('ig-clsesc', 'S16', (IG, "        if (**pattern_cursor == '\\\\' && *(*pattern_cursor + 1)) {\n            *cursor++ = '\\\\';\n            (*pattern_cursor)++;\n        }", "        if (**pattern_cursor == '\\\\' && *(*pattern_cursor + 1)) {\n            (*pattern_cursor)++;\n        }"))

# ---- S20 / S09 / S01
RP, RJ, TV, CF, FF, TY, FI, MN = 'ft_report.c', 'ft_report_json.c', 'ft_traverse.c', 'ft_config.c', 'ft_file.c', 'ft_types.h', 'ft_image.c', 'ftwin.c'
PRI = '''        file->prioritized = ((conf->p_path) && (strlen(filename) >= conf->p_path_len) &&
                             ((is_option_set(conf->mask, OPTION_ICASE) && !strncasecmp(filename, conf->p_path, conf->p_path_len)) ||
                              (!is_option_set(conf->mask, OPTION_ICASE) && !memcmp(filename, conf->p_path, conf->p_path_len))));
'''
M('pr-rev', 'S20', (RP, 'return chk1->file->prioritized - chk2->file->prioritized;', 'return chk2->file->prioritized - chk1->file->prioritized;'))
M('pr-unsigned', 'S20', (TY, 'int prioritized:1;', 'unsigned int prioritized:1;'))
M('pr-half', 'S20', (RP, 'memcmp(&chk1->hash_value, &chk2->hash_value, sizeof(ft_hash_t))', 'memcmp(&chk1->hash_value, &chk2->hash_value, sizeof(ft_hash_t) / 2)'))
M('pr-first', 'S20', (RP, '    result = memcmp(&chk1->hash_value', '    if (chk1->file->prioritized != chk2->file->prioritized) {\n        return chk1->file->prioritized - chk2->file->prioritized;\n    }\n    result = memcmp(&chk1->hash_value'))
M('pr-case', 'S20', (TV, '(!is_option_set(conf->mask, OPTION_ICASE) && !memcmp(filename', '(!is_option_set(conf->mask, OPTION_RECSD) && !memcmp(filename'))
M('pr-len', 'S20', (TV, '(strlen(filename) >= conf->p_path_len) &&', '(strlen(filename) > conf->p_path_len / 2) &&'))
M('pr-part', 'S20', (TV, '!memcmp(filename, conf->p_path, conf->p_path_len)', '!memcmp(filename, conf->p_path, conf->p_path_len - 1)'))
M('pr-gt', 'S20', (TV, '(strlen(filename) >= conf->p_path_len) &&', '(strlen(filename) > conf->p_path_len) &&'))
M('sz-sub', 'S20', (CF, '''    if (file1->size < file2->size) {
        return -1;
    }
    if (file2->size < file1->size) {
        return 1;
    }

    return 0;''', '    return (int) (file1->size - file2->size);'))
M('sz-rev', 'S20', (CF, '    if (file1->size < file2->size) {\n        return -1;', '    if (file1->size < file2->size && file1->size != 0) {\n        return -1;'))
N('pr-n1', 'S20 S05 S08', (RP, '''    if (0 == result) {
        return chk1->file->prioritized - chk2->file->prioritized;
    }

    return result;''', '''    if (result != 0) {
        return result;
    }
    if (chk1->file->prioritized == chk2->file->prioritized) {
        return 0;
    }
    return chk1->file->prioritized ? -1 : 1;'''), (CF, '''    if (file1->size < file2->size) {
        return -1;
    }
    if (file2->size < file1->size) {
        return 1;
    }

    return 0;''', '    return (file1->size > file2->size) - (file1->size < file2->size);'))
N('pr-n2', 'S20 S06 S07', (TV, PRI, '''        file->prioritized = has_priority(filename, conf);
'''), (TV, 'static apr_status_t process_file(const char *filename', '''static int has_priority(const char *filename, const ft_conf_t *conf)
{
    if (conf->p_path == NULL) {
        return 0;
    }
    if (is_option_set(conf->mask, OPTION_ICASE)) {
        return 0 == strncasecmp(filename, conf->p_path, conf->p_path_len);
    }
    return 0 == strncmp(filename, conf->p_path, conf->p_path_len);
}

static apr_status_t process_file(const char *filename'''))
N('pr-n3', 'S20 S06 S09', (TV, PRI, '''        file->prioritized = 0;
        if (conf->p_path != NULL && conf->p_path_len <= strlen(filename)) {
            int differs = is_option_set(conf->mask, OPTION_ICASE) ? strncasecmp(filename, conf->p_path, conf->p_path_len) : memcmp(filename, conf->p_path, conf->p_path_len);
            if (differs == 0) {
                file->prioritized = 1;
            }
        }
'''))
M('js-lt', 'S09', (RJ, 'apr_time_exp_gmt(&exploded', 'apr_time_exp_lt(&exploded'))
M('js-mon', 'S09', (RJ, 'exploded.tm_mon + 1', 'exploded.tm_mon'))
M('js-swap', 'S09', (RJ, 'hash.high64, hash.low64', 'hash.low64, hash.high64'))
M('js-pad', 'S09', (RJ, '"%016" APR_UINT64_T_HEX_FMT "%016"', '"%016" APR_UINT64_T_HEX_FMT "%"'))
M('js-size', 'S09', (RJ, 'json_integer(size)', 'json_integer((int) size)'))
M('js-prio', 'S09', (RJ, 'json_boolean(file->prioritized)', 'json_boolean(!file->prioritized)'))
M('js-prio2', 'S09', (RJ, 'json_boolean(file->prioritized)', 'json_boolean(conf->p_path != NULL)'))
M('js-prio3', 'S09', (RJ, 'json_boolean(file->prioritized)', 'json_boolean(file->prioritized == 1)'))
M('js-hidden', 'S09', (RJ, '        (void) fprintf(stderr, "Error: failed to write JSON to stdout.\\n");\n        status = APR_EGENERAL;', '        (void) fprintf(stderr, "Error: failed to write JSON to stdout.\\n");'))
M('js-flush', 'S09', (RJ, '        perror("Error flushing stdout");\n        status = APR_EGENERAL;', '        perror("Error flushing stdout");'))
M('js-print', 'S09', (TV, '    if (status != APR_SUCCESS) {\n        char errbuf[ERR_BUF_SIZE];\n        DEBUG_ERR("error calling apr_dir_open', '    if (status != APR_SUCCESS) {\n        char errbuf[ERR_BUF_SIZE];\n        (void) printf("cannot open %s\\n", filename);\n        DEBUG_ERR("error calling apr_dir_open'))
M('js-mtime', 'S09', (RJ, 'ft_format_time_iso8601_utc(file->mtime, conf->pool)', 'ft_format_time_iso8601_utc(apr_time_now(), conf->pool)'))
M('js-sub', 'S09', (RJ, '    if (is_option_set(conf->mask, OPTION_UNTAR)) {\n        json_object_set_new(obj', '    if (file->subpath != NULL) {\n        json_object_set_new(obj'))
M('js-grp', 'S09', (RJ, '        if (status != APR_SUCCESS) {\n            json_decref(root_array);\n            return status;', '        if (status != APR_SUCCESS) {\n            json_decref(root_array);\n            return APR_SUCCESS;'))
N('js-n1', 'S09 S05 S08 S04', (RJ, '''    json_object_set_new(obj, "path", json_string(file->path));
''', '''    json_t *prioritized = file->prioritized ? json_true() : json_false();
    json_object_set_new(obj, "path", json_string(file->path));
'''), (RJ, 'json_boolean(file->prioritized)', 'prioritized'))
N('js-n2', 'S09 S05 S08 S04', (RJ, '''    char *hex_hash = ft_hash_to_hex(chksum->hash_value, conf->pool);
''', '''    char *hex_hash = apr_psprintf(conf->pool, "%016" APR_UINT64_T_HEX_FMT "%016" APR_UINT64_T_HEX_FMT, chksum->hash_value.high64, chksum->hash_value.low64);
'''), (RJ, '    printf("\\n");', "    (void) putchar('\\n');"), (RJ, '''static char *ft_hash_to_hex(ft_hash_t hash, apr_pool_t *pool)''', '''char *ft_hash_to_hex(ft_hash_t hash, apr_pool_t *pool)'''))
N('js-n3', 'S09 S05 S08 S04', (RJ, '''    while ((file = napr_heap_extract(conf->heap)) != NULL) {
        status = process_file_group(conf, file, root_array, &old_size);
        if (status != APR_SUCCESS) {
            json_decref(root_array);
            return status;
        }
    }
''', '''    for (;;) {
        file = napr_heap_extract(conf->heap);
        if (file == NULL) {
            break;
        }
        status = process_file_group(conf, file, root_array, &old_size);
        if (status != APR_SUCCESS) {
            break;
        }
    }
    if (status != APR_SUCCESS) {
        json_decref(root_array);
        return status;
    }
'''))
M('ro-open', 'S01', (FF, 'apr_file_open(&fd2, fname2, APR_READ | APR_BINARY', 'apr_file_open(&fd2, fname2, APR_READ | APR_WRITE | APR_BINARY'))
M('ro-create', 'S01', ('ft_ignore.c', 'apr_file_open(&file, filepath, APR_READ,', 'apr_file_open(&file, filepath, APR_READ | APR_CREATE | APR_WRITE,'))
M('ro-utime', 'S01', (FF, '    status = apr_mmap_create(&memory_map', '    (void) apr_file_mtime_set(filename, apr_time_now(), gc_pool);\n    status = apr_mmap_create(&memory_map'))
M('ro-rm', 'S01', (TV, '        return status;\n    }\n\n    ft_ignore_context_t *current_ctx', '        (void) apr_file_remove(filename, gc_pool);\n        return status;\n    }\n\n    ft_ignore_context_t *current_ctx'))
M('ro-map', 'S01', (FF, 'APR_MMAP_READ, gc_pool)', 'APR_MMAP_READ | APR_MMAP_WRITE, gc_pool)'))
M('ro-sys', 'S01', (FI, '    puzzle_init_cvec(', '    if (task == NULL) { (void) system("sync"); }\n    puzzle_init_cvec('))
M('ro-param', 'S01', (FF, '    status = apr_file_open(&file_descriptor, filename, APR_READ | APR_BINARY, APR_OS_DEFAULT, gc_pool);', '    apr_int32_t how = APR_READ | APR_BINARY;\n    if (size == 0) {\n        how |= APR_CREATE | APR_APPEND;\n    }\n    status = apr_file_open(&file_descriptor, filename, how, APR_OS_DEFAULT, gc_pool);'))
N('ro-n1', 'S01 S02', (FF, '    status = apr_file_open(&file_descriptor, filename, APR_READ | APR_BINARY, APR_OS_DEFAULT, gc_pool);', '    const apr_int32_t how = (size > 0) ? (APR_READ | APR_BINARY) : APR_READ;\n    status = apr_file_open(&file_descriptor, filename, how, APR_OS_DEFAULT, gc_pool);'))
T_ = 'napr_db_tree.c'
CU = 'napr_db_cursor.c'
M('se-min', 'D16', (T_, '(key1_size < key2_size) ? key1_size : key2_size', '(key1_size > key2_size) ? key1_size : key2_size'))
M('se-len', 'D16', (T_, '    if (key1_size < key2_size) {\n        return -1;', '    if (key1_size < key2_size && key1_size > 0) {\n        return -1;'))
M('se-len2', 'D16', (T_, '    if (key1_size > key2_size) {\n        return 1;\n    }\n', ''))
M('se-u8', 'D16', (T_, '        uint16_t mid = left + (right - left) / 2;', '        uint16_t mid = (uint8_t) (left + (right - left) / 2);'))
M('se-cmp', 'D16', (T_, '            left = mid + 1;', '            left = mid + (right - left > 2 ? 1 : 2);'))
M('se-right', 'D16', (T_, '    right = page->num_keys;\n    while', '    right = page->num_keys - 1;\n    while'))
M('se-size', 'D16', (T_, '    if (key->size > UINT16_MAX) {\n        return APR_EINVAL;\n    }\n', ''))
M('de-child', 'D16', (T_, '''        if (status == APR_NOTFOUND && index > 0) {
            /* No exact match - follow the child with largest min_key <= search_key */
            index--;''', '''        if (status == APR_NOTFOUND && index > 1) {
            /* No exact match - follow the child with largest min_key <= search_key */
            index--;'''))
M('de-exact', 'D16', (T_, '''        if (status == APR_NOTFOUND && index > 0) {
            index--;
        }

        /* Ensure index is in valid range */''', '''        if (index > 0) {
            index--;
        }

        /* Ensure index is in valid range */'''))
M('de-dirty', 'D16', (T_, '        page = db_get_page(txn, current_pgno);\n\n        /* Check if this is a leaf page */\n        if (page->flags & P_LEAF) {\n            /* Found the leaf - stop traversal */\n            *leaf_page_out', '        page = (current_pgno == root_pgno) ? (DB_PageHeader *) ((char *) txn->env->map_addr + (current_pgno * PAGE_SIZE)) : db_get_page(txn, current_pgno);\n\n        /* Check if this is a leaf page */\n        if (page->flags & P_LEAF) {\n            /* Found the leaf - stop traversal */\n            *leaf_page_out'))
M('de-bound', 'D16', (T_, 'if (depth >= MAX_TREE_DEPTH)', 'if (depth > MAX_TREE_DEPTH)'))
M('de-path', 'D16', (T_, '            *path_len_out = depth;', '            *path_len_out = depth - 1;'))
M('ge-size', 'D16', (D, '    data->size = leaf_node->data_size;\n    data->data = db_leaf_node_value(leaf_node);', '    data->size = leaf_node->key_size;\n    data->data = db_leaf_node_value(leaf_node);'))
M('ge-err', 'D16', (D, '    if (status == APR_NOTFOUND) {\n        /* Key not found in the leaf */\n        return APR_NOTFOUND;\n    }\n    if (status != APR_SUCCESS) {\n        /* Other error */\n        return status;\n    }\n', '    if (status == APR_NOTFOUND) {\n        /* Key not found in the leaf */\n        return APR_NOTFOUND;\n    }\n'))
N('se-n1', 'D16', (T_, '''    while (left < right) {
        uint16_t mid = left + (right - left) / 2;
''', '''    for (; left != right;) {
        uint16_t mid = (uint16_t) (((unsigned) left + (unsigned) right) >> 1);
'''))
N('se-n2', 'D16', (T_, '''    size_t min_size = (key1_size < key2_size) ? key1_size : key2_size;
    int result = memcmp(key1_data, key2_data, min_size);

    if (result != 0) {
        return result;
    }

    /* If common parts are equal, shorter key is smaller */
    if (key1_size < key2_size) {
        return -1;
    }
    if (key1_size > key2_size) {
        return 1;
    }

    return 0;''', '''    size_t min_size = key1_size;
    int result = 0;

    if (key2_size < min_size) {
        min_size = key2_size;
    }
    result = memcmp(key1_data, key2_data, min_size);
    if (result == 0) {
        result = (int) key1_size - (int) key2_size;
    }
    return result;'''))
N('se-n3', 'D16', (T_, '''    /* Binary search */
    left = 0;
    right = page->num_keys;
    while (left < right) {
        uint16_t mid = left + (right - left) / 2;
''', '''    /* Linear search */
    right = page->num_keys;
    for (left = 0; left < right;) {
        uint16_t mid = left;
'''))
N('de-n1', 'D16', (T_, '''        if (status == APR_NOTFOUND && index > 0) {
            /* No exact match - follow the child with largest min_key <= search_key */
            index--;
        }

        /* Ensure index is in valid range */
        if (index >= page->num_keys) {
            index = page->num_keys - 1;
        }

        /* Get the child page number from the branch node */
        DB_BranchNode *branch_node = db_page_branch_node(page, index);
        current_pgno = branch_node->pgno;''', '''        if (status != APR_SUCCESS) {
            index = (index == 0) ? 0 : (uint16_t) (index - 1);
        }
        current_pgno = db_page_branch_node(page, index)->pgno;'''))
M('in-space', 'D09', (T_, 'if (free_space < (node_size + sizeof(uint16_t)))', 'if (free_space < node_size)'))
M('in-space2', 'D09', (T_, 'if (free_space < (node_size + sizeof(uint16_t)))', 'if (free_space <= (node_size + sizeof(uint16_t)))'))
M('in-big', 'D09', (T_, '    if (key->size > PAGE_SIZE || (data && data->size > PAGE_SIZE)) {\n        return APR_ENOSPC;\n    }\n', ''))
M('in-shift', 'D09', (T_, 'for (idx = page->num_keys; idx > index; idx--)', 'for (idx = page->num_keys; idx > index + 1; idx--)'))
M('in-upper', 'D09', (T_, '    page->upper = new_offset;\n\n    return APR_SUCCESS;\n}\n\n/**\n * @brief Delete', '    page->upper -= node_size + (index == page->num_keys - 1 ? 0 : 2);\n\n    return APR_SUCCESS;\n}\n\n/**\n * @brief Delete'))
M('in-slotfirst', 'D09', (T_, '    /* Check if there\'s enough free space */', '    page->num_keys += 0;\n    db_page_slots(page)[page->num_keys] = 0;\n    if (page->upper == page->lower) { page->lower += 2; }\n    /* Check if there\'s enough free space */'))
M('dl-le', 'D09', (T_, 'if (slots[idx] < delete_offset)', 'if (slots[idx] <= delete_offset + delete_size)'))
M('dl-move', 'D09', (T_, 'uint16_t move_size = delete_offset - page->upper;', 'uint16_t move_size = delete_offset - page->upper - 1;'))
M('dl-cond', 'D09', (T_, '        for (idx = 0; idx < page->num_keys - 1; idx++) {\n            if (slots[idx] < delete_offset)', '        for (idx = index; idx < page->num_keys - 1; idx++) {\n            if (slots[idx] < delete_offset)'))
M('dl-memcpy', 'D09', (T_, '    page->num_keys--;\n    page->lower -= sizeof(uint16_t);\n    page->upper += delete_size;', '    page->num_keys--;\n    page->lower -= sizeof(uint16_t);\n    if (index < page->num_keys) {\n        page->upper += delete_size;\n    }'))
M('sp-compact', 'D09', (T_, 'node_size = (uint16_t) (sizeof(DB_LeafNode) + node->key_size + node->data_size);\n        }\n        else {\n            DB_BranchNode *node = db_page_branch_node(page, idx);\n            node_size = (uint16_t) (sizeof(DB_BranchNode) + node->key_size);', 'node_size = (uint16_t) (sizeof(DB_LeafNode) + node->key_size + node->data_size);\n        }\n        else {\n            DB_BranchNode *node = db_page_branch_node(page, idx);\n            node_size = (uint16_t) (sizeof(DB_LeafNode) + node->key_size);'))
M('sp-nocompact', 'D09', (T_, '    /* The entries left behind are packed together, so that the space of the moved ones is free again */\n    db_page_compact(left_page);\n\n    /* Store the right page in dirty', '    /* Store the right page in dirty'))
M('sp-point', 'D09', (T_, '    for (idx = split_point; idx < left_page->num_keys; idx++) {\n        DB_BranchNode', '    for (idx = split_point + 1; idx < left_page->num_keys; idx++) {\n        DB_BranchNode'))
M('sp-point2', 'D09', (T_, '    split_point = left_page->num_keys / 2;\n\n    /* Get right page slot array */\n    right_slots = db_page_slots(right_page);\n\n    /* Move entries from split_point onwards to the right page */', '    split_point = left_page->num_keys / 3;\n\n    /* Get right page slot array */\n    right_slots = db_page_slots(right_page);\n\n    /* Move entries from split_point onwards to the right page */'))
M('sp-key', 'D09', (T_, '    apr_hash_set(txn->dirty_pages, pgno_key, sizeof(pgno_t), right_page);\n\n    /* Set divider', '    apr_hash_set(txn->dirty_pages, &right_pgno, sizeof(pgno_t), right_page);\n\n    /* Set divider'))
M('sp-div', 'D09', (T_, '    divider_key_out->size = first_right_node->key_size;', '    divider_key_out->size = first_right_node->data_size;'))
M('sp-div2', 'D09', (T_, 'divider_node = db_page_branch_node(right_page, 0);', 'divider_node = db_page_branch_node(left_page, split_point - 1);'))
N('in-n1', 'D09', (T_, '''    for (idx = page->num_keys; idx > index; idx--) {
        slots[idx] = slots[idx - 1];
    }
''', '''    if (index < page->num_keys) {
        memmove(&slots[index + 1], &slots[index], (size_t) (page->num_keys - index) * sizeof(uint16_t));
    }
'''))
N('dl-n1', 'D09', (T_, '''    for (idx = index; idx < page->num_keys - 1; idx++) {
        slots[idx] = slots[idx + 1];
    }
''', '''    if (index + 1 < page->num_keys) {
        memmove(slots + index, slots + index + 1, (size_t) (page->num_keys - 1 - index) * sizeof(uint16_t));
    }
'''))
N('sp-n1', 'D09', (T_, '''    split_point = left_page->num_keys / 2;

    /* Get right page slot array */
    right_slots = db_page_slots(right_page);

    /* Move entries from split_point onwards to the right page */''', '''    split_point = (left_page->num_keys + 1) / 2;

    /* Get right page slot array */
    right_slots = db_page_slots(right_page);

    /* Move entries from split_point onwards to the right page */'''))
N('sp-n2', 'D09', (T_, '''        memcpy(dest_node, src_node, node_size);

        /* Update right page slot array */
        right_slots[right_idx] = new_offset;

        /* Update right page header */
        right_page->num_keys++;
        right_page->lower += sizeof(uint16_t);
        right_page->upper = new_offset;
    }

    /* Update left page header to reflect the reduced number of keys */''', '''        right_page->upper = new_offset;
        right_slots[right_idx] = new_offset;
        for (uint16_t b = 0; b < node_size; b++) {
            ((char *) dest_node)[b] = ((const char *) src_node)[b];
        }
        right_page->num_keys = (uint16_t) (right_idx + 1);
        right_page->lower = (uint16_t) (sizeof(DB_PageHeader) + (right_idx + 1) * sizeof(uint16_t));
    }

    /* Update left page header to reflect the reduced number of keys */'''))

# ---------------------------------------------------------------- D13
M('up-dup', 'D13', (D, '    if (search_status == APR_SUCCESS) {\n        status = db_page_delete(leaf_page, index);', '    if (search_status == APR_SUCCESS && index > 0) {\n        status = db_page_delete(leaf_page, index);'))
M('up-side', 'D13', (D, '    apr_status_t search_status = db_page_search(right_page, current_key, &index);\n    if (search_status == APR_NOTFOUND && index == 0) {', '    apr_status_t search_status = db_page_search(right_page, current_key, &index);\n    if (search_status == APR_NOTFOUND && index <= 1) {'))
M('up-side2', 'D13', (D, '        if (search_status == APR_NOTFOUND && index == 0) {\n            (void) db_page_search(parent_page, current_key, &index);\n            status = db_page_insert(parent_page, index, current_key, NULL, *pgnos.right_child_pgno);', '        if (search_status == APR_NOTFOUND && index <= 1) {\n            (void) db_page_search(parent_page, current_key, &index);\n            status = db_page_insert(parent_page, index, current_key, NULL, *pgnos.right_child_pgno);'))
M('up-stale', 'D13', (D, '            (void) db_page_search(parent_page, current_key, &index);\n            status = db_page_insert(parent_page, index, current_key, NULL, *right_child_pgno);', '            status = db_page_insert(parent_page, index, current_key, NULL, *right_child_pgno);'))
M('up-low', 'D13', (D, '            db_page_branch_node(parent_page, 0)->key_size = 0;\n            index = 1;\n        }\n\n        status = db_page_insert(parent_page, index, current_key, NULL, *right_child_pgno);', '            index = 1;\n        }\n\n        status = db_page_insert(parent_page, index, current_key, NULL, *right_child_pgno);'))
M('up-child', 'D13', (D, '        *right_child_pgno = right_page->pgno;\n        *current_key = divider_key;', '        *current_key = divider_key;'))
M('up-child2', 'D13', (D, '        *pgnos.right_child_pgno = right_page->pgno;\n        *current_key = divider_key;', '        *pgnos.right_child_pgno = parent_page->pgno;\n        *current_key = divider_key;'))
M('up-key', 'D13', (D, '    pgno_t right_child_pgno = right_page->pgno;\n    *current_key = divider_key;', '    pgno_t right_child_pgno = right_page->pgno;'))
M('up-root', 'D13', (D, '    apr_hash_set(txn->dirty_pages, pgno_key, sizeof(pgno_t), new_root);\n\n    txn->root_pgno = new_root_pgno;', '    apr_hash_set(txn->dirty_pages, pgno_key, sizeof(pgno_t), new_root);\n'))
M('up-root2', 'D13', (D, '    /* Update output parameter instead of txn->root_pgno */\n    *new_root_out = new_root_pgno;', '    *new_root_out = old_root_pgno;'))
M('up-rootkey', 'D13', (D, '    *pgno_key = new_root_pgno;\n    apr_hash_set(txn->dirty_pages, pgno_key, sizeof(pgno_t), new_root);\n\n    txn->root_pgno', '    *pgno_key = new_root_pgno;\n    apr_hash_set(txn->dirty_pages, pgno_key, sizeof(*new_root) == 0, new_root);\n\n    txn->root_pgno'))
M('up-absorbed', 'D13', (D, '    if (status == APR_INCOMPLETE) {\n        *new_free_db_root_out = path[0];\n        return APR_SUCCESS;', '    if (status == APR_INCOMPLETE) {\n        *new_free_db_root_out = right_child_pgno;\n        return APR_SUCCESS;'))
M('up-poison', 'D13', (D, '        /* Entries may already have moved to a page no parent points to */\n        txn->failed = 1;', '        txn->failed = (status == APR_ENOMEM);'))
M('up-nocow', 'D13', (D, '        /* Update leaf_page pointer if this is the leaf */\n        if (idx == (int) path_len - 1) {', '        /* Update leaf_page pointer if this is the leaf */\n        if (idx == (int) path_len - 1 && path_len > 1) {'))
M('up-ign', 'D13', (D, '            status = db_page_insert(right_page, index, current_key, NULL, *right_child_pgno);\n        }\n\n        if (status != APR_SUCCESS) {', '            status = db_page_insert(right_page, index, current_key, NULL, *right_child_pgno);\n        }\n\n        if (status != APR_SUCCESS && status != APR_ENOSPC) {'))
M('up-delidx', 'D13', (D, '    status = db_page_delete(leaf_page, index);\n    if (status != APR_SUCCESS) {\n        return status;\n    }\n\n    return APR_SUCCESS;', '    status = db_page_delete(leaf_page, index ? index : (uint16_t) (path_len - 1));\n    if (status != APR_SUCCESS) {\n        return status;\n    }\n\n    return APR_SUCCESS;'))
M('up-delmiss', 'D13', (D, '    status = db_page_search(leaf_page, key, &index);\n    if (status != APR_SUCCESS) {\n        return APR_NOTFOUND;\n    }\n\n    /* CoW', '    status = db_page_search(leaf_page, key, &index);\n    if (status != APR_SUCCESS && index >= leaf_page->num_keys) {\n        return APR_NOTFOUND;\n    }\n\n    /* CoW'))
M('up-delcow', 'D13', (D, '    leaf_page = apr_hash_get(txn->dirty_pages, &leaf_pgno, sizeof(pgno_t));\n    if (!leaf_page) {\n        return APR_EGENERAL;\n    }\n\n    /* Delete the entry', '    if (!apr_hash_get(txn->dirty_pages, &leaf_pgno, sizeof(pgno_t))) {\n        return APR_EGENERAL;\n    }\n\n    /* Delete the entry'))
M('up-size', 'D13', (D, 'sizeof(DB_LeafNode) + key->size + data->size + sizeof(uint16_t) > PAGE_SIZE - sizeof(DB_PageHeader)', 'sizeof(DB_LeafNode) + key->size + data->size > PAGE_SIZE - sizeof(DB_PageHeader)'))
M('up-size2', 'D13', (D, 'sizeof(DB_LeafNode) + key->size + data->size + sizeof(uint16_t) > PAGE_SIZE - sizeof(DB_PageHeader)', 'sizeof(DB_LeafNode) + key->size + data->size + sizeof(uint16_t) >= PAGE_SIZE - sizeof(DB_PageHeader)'))
M('up-ro', 'D13', (D, '    if (!txn || !key || (txn->flags & NAPR_DB_RDONLY)) {', '    if (!txn || !key || ((txn->flags & NAPR_DB_RDONLY) && !txn->dirty_pages)) {'), (D, '    leaf_page = apr_hash_get(txn->dirty_pages, &leaf_pgno, sizeof(pgno_t));\n    if (!leaf_page) {\n        return APR_EGENERAL;\n    }\n\n    /* Delete', '    /* Delete'))
M('up-commitfailed', 'D13', (D, '    if (txn->failed) {\n        status = APR_EGENERAL;\n        goto cleanup;\n    }', '    if (txn->failed) {\n        status = APR_EGENERAL;\n    }'))
M('up-empty', 'D13', (D, '    *pgno_key = new_root_pgno;\n    apr_hash_set(txn->dirty_pages, pgno_key, sizeof(pgno_t), new_root);\n\n    /* Update transaction', '    *pgno_key = txn->new_last_pgno;\n    apr_hash_set(txn->dirty_pages, pgno_key, sizeof(pgno_t), new_root);\n\n    /* Update transaction'))
N('up-n1', 'D13', (D, '    right_child_pgno = right_page->pgno;\n    current_key = divider_key;\n    status = propagate', '    current_key = divider_key;\n    right_child_pgno = right_page->pgno;\n    status = propagate'))
N('up-n2', 'D13', (D, '    apr_status_t search_status = db_page_search(right_page, current_key, &index);\n    if (search_status == APR_NOTFOUND && index == 0) {\n        (void) db_page_search(left_page, current_key, &index);\n        status = db_page_insert(left_page, index, current_key, current_data, 0);\n    }\n    else {\n        status = db_page_insert(right_page, index, current_key, current_data, 0);\n    }', '    DB_PageHeader *half = right_page;\n    if (db_page_search(right_page, current_key, &index) != APR_SUCCESS && index == 0) {\n        half = left_page;\n        (void) db_page_search(half, current_key, &index);\n    }\n    status = db_page_insert(half, index, current_key, current_data, 0);'))
N('up-n3', 'D13', (D, '    for (int idx = (int)path_len - 1; idx >= 0; idx--) {\n        pgno_t current_pgno = path[idx];\n        DB_PageHeader *page_to_cow = NULL;\n        DB_PageHeader *dirty_page = NULL;', '    for (int idx = 0; idx < (int) path_len; idx++) {\n        pgno_t current_pgno = path[idx];\n        DB_PageHeader *page_to_cow = NULL;\n        DB_PageHeader *dirty_page = NULL;'))
N('up-n4', 'D13', (D, '    /* If key exists (MVCC update), delete the old entry before inserting new one */\n    if (search_status == APR_SUCCESS) {\n        status = db_page_delete(leaf_page, index);\n        if (status != APR_SUCCESS) {\n            return status;\n        }\n    }\n', '    status = (search_status == APR_SUCCESS) ? db_page_delete(leaf_page, index) : APR_SUCCESS;\n    if (status != APR_SUCCESS) {\n        return status;\n    }\n'))

# ---------------------------------------------------------------- D04
M('ru-part', 'D04', (T_, '    memcpy(dirty_copy, original_page, PAGE_SIZE);', '    memcpy(dirty_copy, original_page, original_page->upper);'))
M('ru-key', 'D04', (T_, '    apr_hash_set(txn->dirty_pages, pgno_key, sizeof(pgno_t), dirty_copy);', '    apr_hash_set(txn->dirty_pages, &pgno, sizeof(pgno_t), dirty_copy);'))
M('ru-again', 'D04', (T_, '        /* Already have a dirty copy - return it */\n        *dirty_copy_out = dirty_copy;', '        memcpy(dirty_copy, original_page, PAGE_SIZE);\n        *dirty_copy_out = dirty_copy;'))
M('ru-unfreed', 'D04', (T_, '            *freed_pgno = pgno;', '            *freed_pgno = txn->root_pgno;'))
M('ru-orig', 'D04', (T_, '    *pgno_key = pgno;\n\n    /* Store the dirty copy', '    *pgno_key = pgno;\n    original_page->flags |= 0x8000;\n\n    /* Store the dirty copy'))
M('ru-count', 'D04', (T_, '    txn->new_last_pgno += count;', '    txn->new_last_pgno += 1;'))
M('ru-many', 'D04', (T_, '    if (count == 1) {\n        apr_status_t status = db_reclaim', '    if (count >= 1) {\n        apr_status_t status = db_reclaim'))
M('ru-map', 'D04', (T_, '    if (txn->new_last_pgno + count >= txn->env->mapsize / PAGE_SIZE) {', '    if (txn->new_last_pgno + count > txn->env->mapsize / PAGE_SIZE) {'))
M('ru-map2', 'D04', (T_, '    if (txn->new_last_pgno + count >= txn->env->mapsize / PAGE_SIZE) {', '    if (txn->new_last_pgno + 1 >= txn->env->mapsize / PAGE_SIZE) {'))
M('ru-ro', 'D04', (T_, '    /* Verify this is a write transaction */\n    if (txn->flags & NAPR_DB_RDONLY) {\n        return APR_EINVAL;\n    }\n\n    /* For single-page', '    /* For single-page'))
M('ru-min', 'D04', (D, 'if (oldest_txnid == 0 || slot_txnid < oldest_txnid) {', 'if (oldest_txnid == 0 || slot_txnid > oldest_txnid) {'))
M('ru-min2', 'D04', (D, '        if (slot_txnid > 0) {\n            if (oldest_txnid == 0', '        if (slot_txnid == 0) {\n            break;\n        }\n        else {\n            if (oldest_txnid == 0'))
M('ru-min3', 'D04', (D, '    /* Scan all slots to find minimum active TXNID */\n    for (slot_idx = 0; slot_idx < MAX_READERS; slot_idx++) {', '    /* Scan all slots to find minimum active TXNID */\n    for (slot_idx = 0; slot_idx < MAX_READERS - 1; slot_idx++) {'))
M('ru-min4', 'D04', (D, '    apr_thread_mutex_unlock(env->reader_table_mutex);\n\n    *oldest_txnid_out', '    *oldest_txnid_out'), (D, '    /* Scan all slots to find minimum active TXNID */', '    apr_thread_mutex_unlock(env->reader_table_mutex);\n'))
M('ru-bound', 'D04', (D, '        if (entry_txnid < oldest_reader_txnid) {', '        if (entry_txnid < txn->txnid) {'))
M('ru-bound2', 'D04', (D, '    if (oldest_reader_txnid == 0) {\n        oldest_reader_txnid = txn->txnid;\n    }', '    if (oldest_reader_txnid <= 1) {\n        oldest_reader_txnid = txn->txnid;\n    }'))
M('ru-size', 'D04', (D, '    if (num_pages == 1) {\n        return napr_db_del', '    if (num_pages <= 2) {\n        return napr_db_del'))
M('ru-rest', 'D04', (D, 'memcpy(remaining_pages, &freed_pages[1], (num_pages - 1)', 'memcpy(remaining_pages, &freed_pages[0], (num_pages - 1)'))
M('ru-alias', 'D04', (D, '    return napr_db_put(txn, &entry_key, &new_data);', '    return napr_db_put(txn, key, &new_data);'))
M('ru-root', 'D04', (D, '    if (status != APR_SUCCESS) {\n        txn->root_pgno = saved_root;\n        return status;\n    }\n\n    napr_db_val_t key = { 0 };', '    if (status != APR_SUCCESS) {\n        return status;\n    }\n\n    napr_db_val_t key = { 0 };'))
M('ru-root2', 'D04', (D, '    napr_db_cursor_close(cursor);\n\n    if (status == APR_SUCCESS) {\n        pgno_t *freed_pages', '    napr_db_cursor_close(cursor);\n    if (status != APR_SUCCESS) {\n        return status;\n    }\n    if (status == APR_SUCCESS) {\n        pgno_t *freed_pages'))
M('ru-err', 'D04', (D, '    return napr_db_put(txn, &entry_key, &new_data);', '    (void) napr_db_put(txn, &entry_key, &new_data);\n    return APR_SUCCESS;'))
N('ru-n1', 'D04', (D, 'memcpy(remaining_pages, &freed_pages[1], (num_pages - 1) * sizeof(pgno_t));', 'for (size_t n = 1; n < num_pages; n++) {\n        remaining_pages[n - 1] = freed_pages[n];\n    }'))
N('ru-n2', 'D04', (D, 'if (oldest_txnid == 0 || slot_txnid < oldest_txnid) {', 'if (!(oldest_txnid != 0 && oldest_txnid <= slot_txnid)) {'))
N('ru-n3', 'D04', (D, '        if (entry_txnid < oldest_reader_txnid) {\n            if (data->size % sizeof(pgno_t) == 0 && data->size > 0) {\n                return APR_SUCCESS;\n            }\n        }', '        if (entry_txnid < oldest_reader_txnid && data->size >= sizeof(pgno_t) && (data->size & (sizeof(pgno_t) - 1)) == 0) {\n            return APR_SUCCESS;\n        }'))
N('ru-n4', 'D04', (T_, '    first_pgno = txn->new_last_pgno + 1;\n    txn->new_last_pgno += count;', '    txn->new_last_pgno += count;\n    first_pgno = txn->new_last_pgno - count + 1;'))
M('op-outside', 'D02', (D, 'if (status == APR_SUCCESS && env->live_meta->last_pgno >= env->mapsize / PAGE_SIZE) {', 'if (0) {'))
M('op-outside2', 'D02', (D, 'env->live_meta->last_pgno >= env->mapsize / PAGE_SIZE) {', 'env->live_meta->last_pgno > env->mapsize / PAGE_SIZE) {'))
M('op-exact', 'D02', (D, 'env->live_meta->last_pgno >= env->mapsize / PAGE_SIZE) {', 'env->live_meta->last_pgno + 1 >= env->mapsize / PAGE_SIZE) {'))
M('cu-desc-left', 'D11', (CU, "                cursor_push(cursor, page, 0);\n                child_pgno = db_page_branch_node(page, 0)->pgno;", "                cursor_push(cursor, page, 0);\n                child_pgno = db_page_branch_node(page, page->num_keys - 1)->pgno;"))
M('cu-empty', 'D11', (CU, "                    if (page->num_keys == 0) {\n                        break;  /* Empty leaf - try the next sibling */\n                    }\n", ""))
M('cu-prev-idx', 'D11', (CU, "            index--;\n            cursor->stack[cursor->top - 1].index = index;\n            status", "            index--;\n            status"))
M('cu-next-idx', 'D11', (CU, "            /* Found next sibling - update parent's index */\n            cursor->stack[cursor->top - 1].index = index;\n", ""))
N('cu-eof', 'D11', (CU, "    /* Reached root and exhausted all entries */\n    cursor->eof = 1;", "    /* Reached root and exhausted all entries */"))
M('cu-noreset', 'D11', (CU, "    cursor->top = 0;\n    cursor->eof = 0;\n\n    if (current_pgno", "    cursor->top = 0;\n\n    if (current_pgno"))
M('cu-range', 'D11', (CU, "            cursor->stack[cursor->top - 1].index = page->num_keys - 1;\n            return db_cursor_next(cursor);", "            cursor->stack[cursor->top - 1].index = page->num_keys - 1;\n            return APR_NOTFOUND;"))
M('cu-last', 'D11', (CU, "            index = page->num_keys - 1;\n            break;\n        case NAPR_DB_SET:", "            index = page->num_keys > 2 ? 2 : page->num_keys - 1;\n            break;\n        case NAPR_DB_SET:"))
M('cu-ascend1', 'D11', (CU, "        /* This parent also exhausted - ascend further */\n        cursor->top--;", "        /* This parent also exhausted - ascend further */\n        cursor->top--;\n        if (cursor->top == 1) { break; }"))
M('cu-size', 'D11', (CU, "        data->size = node->data_size;", "        data->size = node->key_size;"))
M('cu-stale', 'D11', (CU, "    if (!(txn->flags & NAPR_DB_RDONLY)) {", "    if ((txn->flags & NAPR_DB_RDONLY)) {"))
M('cu-idx8', 'D11', (CU, "    /* Try incrementing index on current leaf */\n    index++;", "    /* Try incrementing index on current leaf */\n    index = (uint8_t) (index + 1);"))
M('cu-bound', 'D11', (CU, "    if (cursor->top < MAX_TREE_DEPTH) {", "    if (1) {"))
M('cu-bound2', 'D11', (CU, "    if (cursor->top < MAX_TREE_DEPTH) {", "    if (cursor->top <= MAX_TREE_DEPTH) {"))
M('cu-setgt', 'D11', (CU, "            if (status == APR_NOTFOUND && index > 0) {\n                index--;\n            }\n\n            if (index >= page->num_keys) {", "            if (index >= page->num_keys) {"))
M('cu-leafchk', 'D11', (CU, "        index = page->num_keys > 0 ? page->num_keys - 1 : 0;\n", "        index = 0;\n"))
M('cu-emptyrange', 'D11', (CU, "        return operation == NAPR_DB_LAST ? db_cursor_prev(cursor) : db_cursor_next(cursor);", "        return operation != NAPR_DB_FIRST ? db_cursor_prev(cursor) : db_cursor_next(cursor);"))
M('cu-emptyseek', 'D11', (CU, "        return operation == NAPR_DB_LAST ? db_cursor_prev(cursor) : db_cursor_next(cursor);", "        return APR_NOTFOUND;"))
N('cu-popped', 'D11', (CU, "    if (cursor->eof || cursor->top == 0) {\n        return APR_NOTFOUND;", "    if (cursor->top == 0) {\n        return APR_NOTFOUND;"))
N('cu-n1', 'D11', (CU, "    index++;\n    if (index < page->num_keys) {\n        /* Still within current leaf page */\n        cursor->stack[cursor->top - 1].index = index;\n        return APR_SUCCESS;\n    }", "    if (index + 1 < page->num_keys) {\n        cursor->stack[cursor->top - 1].index++;\n        return APR_SUCCESS;\n    }"))
N('cu-n2', 'D11', (CU, "    if (cursor->top < MAX_TREE_DEPTH) {\n        cursor->stack[cursor->top].page = page;\n        cursor->stack[cursor->top].index = index;\n        cursor->top++;\n    }", "    uint16_t lvl = cursor->top;\n    if (lvl >= MAX_TREE_DEPTH) {\n        return;\n    }\n    cursor->stack[lvl].index = index;\n    cursor->stack[lvl].page = page;\n    cursor->top = (uint16_t) (lvl + 1);"))
IMG = 'ft_image.c'
M('im-le', 'S19', (IMG, "if (distance < conf->threshold) {", "if (distance <= conf->threshold) {"))
M('im-first', 'S19', (IMG, "for (unsigned int idx = 0; idx < heap_size; idx++) {\n            ft_file_t *file_cmp", "for (unsigned int idx = 1; idx < heap_size; idx++) {\n            ft_file_t *file_cmp"))
M('im-last', 'S19', (IMG, "for (unsigned int idx = 0; idx < heap_size; idx++) {\n        compute", "for (unsigned int idx = 0; idx + 1 < heap_size; idx++) {\n        compute"))
M('im-unread', 'S19', (IMG, "            if (!(file_cmp->cvec_ok & 0x1)) {\n                continue;\n            }\n", ""))
M('im-break', 'S19', (IMG, "            if (!(file_cmp->cvec_ok & 0x1)) {\n                continue;", "            if (!(file_cmp->cvec_ok & 0x1)) {\n                break;"))
M('im-unread2', 'S19', (IMG, "        if (!(file->cvec_ok & 0x1)) {\n            continue;\n        }\n", ""))
M('im-nowait', 'S19', (IMG, "    napr_threadpool_wait(threadpool);\n\n    status = napr_threadpool_shutdown", "    status = napr_threadpool_shutdown"))
M('im-free', 'S19', (IMG, "        puzzle_free_cvec(context, &(file->cvec));\n    }", "        puzzle_free_cvec(context, &(file->cvec));\n        if (heap_size > 0) {\n            puzzle_free_cvec(context, &(((ft_file_t *) napr_heap_get_nth(conf->heap, 0))->cvec));\n        }\n    }"))
M('im-sep', 'S19', (IMG, "                else {\n                    (void) printf(\"%c\", conf->sep);\n                }\n", ""))
M('im-printed', 'S19', (IMG, "                    already_printed = 1;\n", "                    already_printed = idx > 0;\n"))
M('im-mark', 'S19', (IMG, "        DEBUG_ERR(\"error calling puzzle_fill_cvec_from_file, ignoring file: %s\", file->path);", "        file->cvec_ok |= 0x1;"))
M('im-adderr', 'S19', (IMG, "            (void) napr_threadpool_shutdown(threadpool);\n            return status;", "            (void) napr_threadpool_shutdown(threadpool);\n            return APR_SUCCESS;"))
M('im-lt', 'S19', (IMG, "if (distance < conf->threshold) {", "if (distance > conf->threshold) {"))
M('im-const', 'S19', (IMG, "if (distance < conf->threshold) {", "if (distance < PUZZLE_CVEC_SIMILARITY_THRESHOLD) {"))
M('im-line', 'S19', (IMG, "            (void) printf(\"\\n\\n\");", "            (void) printf(\"%c\", conf->sep);"))
M('im-init', 'S19', (IMG, "    puzzle_init_cvec(cv_ctx->contextp, &(file->cvec));\n", ""))
N('im-n1', 'S19', (IMG, "if (distance < conf->threshold) {", "if (!(distance >= conf->threshold)) {"))
N('im-n2', 'S19', (IMG, "                if (!already_printed) {\n                    (void) printf(\"%s%c\", file->path, conf->sep);\n                    already_printed = 1;\n                }\n                else {\n                    (void) printf(\"%c\", conf->sep);\n                }\n                (void) printf(\"%s\", file_cmp->path);", "                if (!already_printed) {\n                    (void) fputs(file->path, stdout);\n                    already_printed = 1;\n                }\n                (void) printf(\"%c%s\", conf->sep, file_cmp->path);"))
N('im-n3', 'S19', (IMG, "        if (already_printed) {\n            (void) printf(\"\\n\\n\");\n        }\n\n        puzzle_free_cvec(context, &(file->cvec));", "        puzzle_free_cvec(context, &(file->cvec));\n        if (already_printed) {\n            (void) puts(\"\\n\");\n        }"))

HS = 'human_size.c'
M('tx-merge', 'S23', (RP, "    unsigned char already_printed = 0;\n    apr_size_t j_index = 0;", "    static unsigned char already_printed = 0;\n    apr_size_t j_index = 0;"))
M('tx-noend', 'S23', (RP, "    if (already_printed) {\n        printf(\"\\n\\n\");", "    if (already_printed && index + 2 < fsize->nb_files) {\n        printf(\"\\n\\n\");"))
M('tx-oneend', 'S23', (RP, "        printf(\"\\n\\n\");", "        printf(is_option_set(conf->mask, OPTION_SIZED) ? \"\\n\" : \"\\n\\n\");"))
M('tx-earlyend', 'S23', (RP, "        else {\n            /* Hashes are ordered, so we can break early */\n            break;", "        else {\n            /* Hashes are ordered, so we can break early */\n            if (already_printed) {\n                return APR_SUCCESS;\n            }\n            break;"))
M('tx-sizeonce', 'S23', (RP, "        if (!*already_printed) {\n            if (is_option_set(conf->mask, OPTION_SIZED)) {", "        if (!*already_printed) {\n            if (is_option_set(conf->mask, OPTION_SIZED) && index1 == 0) {"))
M('tx-sizeverb', 'S23', (RP, "            if (is_option_set(conf->mask, OPTION_SIZED)) {\n                const", "            if (is_option_set(conf->mask, OPTION_SIZED) || is_option_set(conf->mask, OPTION_VERBO)) {\n                const"), (RP, "is_option_set(conf->mask, OPTION_UNTAR) && file->subpath) {\n        printf", "file->subpath) {\n        printf"))
M('tx-sizeeach', 'S23', (RP, "        printf(\"%c\", conf->sep);\n", "        printf(\"%c\", conf->sep);\n        if (is_option_set(conf->mask, OPTION_SIZED) && is_option_set(conf->mask, OPTION_VERBO)) {\n            printf(\"Size: %s\\n\", format_human_size(fsize->val, conf->pool));\n        }\n"))
M('tx-size-other', 'S23', (RP, "format_human_size(fsize->val, conf->pool)", "format_human_size(file1->size * 1024, conf->pool)"))
M('tx-size-excess', 'S23', (RP, "format_human_size(fsize->val, conf->pool)", "format_human_size(conf->excess_size, conf->pool)"))
M('tx-mark', 'S23', (RP, "(':' != conf->sep) ? ':' : '|'", "':'"))
M('tx-mark2', 'S23', (RP, "(':' != conf->sep) ? ':' : '|'", "(':' == conf->sep) ? ':' : '|'"))
M('tx-nosub', 'S23', (RP, "        printf(\"%c\", conf->sep);\n        format_and_print_duplicate(conf, file2, colors);", "        printf(\"%c\", conf->sep);\n        if (file1->subpath) {\n            format_and_print_duplicate(conf, file2, colors);\n        }\n        else {\n            printf(\"%s%s%s\", colors->path, file2->path, colors->reset);\n        }"))
M('tx-trail', 'S23', (RP, "        format_and_print_duplicate(conf, file2, colors);\n", "        format_and_print_duplicate(conf, file2, colors);\n        if (file1->subpath && file2->subpath) {\n            printf(\"%c\", conf->sep);\n        }\n"))
M('tx-colour', 'S23', (RP, "        use_color ? ANSI_COLOR_RESET : \"\"", "        ANSI_COLOR_RESET"))
M('tx-verb', 'S23', (RP, "(void) fprintf(stderr, \"\\nskipping %s and", "(void) printf(\"\\nskipping %s and"))
M('tx-dry', 'S23', (RP, "(void) fprintf(stderr, \"Dry run:", "(void) printf(\"Dry run:"))
M('tx-head', 'S23', (RP, "(void) fprintf(stderr, \"Reporting duplicate", "(void) fprintf(stdout, \"Reporting duplicate"))
M('tx-nosep', 'S23', (RP, "        printf(\"%c\", conf->sep);\n", "        if (conf->sep != '\\n' || !is_option_set(conf->mask, OPTION_SIZED)) {\n            printf(\"%c\", conf->sep);\n        }\n"))
M('tx-fixsep', 'S23', (RP, "        printf(\"%c\", conf->sep);\n", "        printf(\"%c\", is_option_set(conf->mask, OPTION_SIZED) ? '\\n' : conf->sep);\n"))
M('tx-json-verb', 'S23', (RJ, "        (void) fprintf(stderr, \"Error: failed to write JSON to stdout.\\n\");", "        (void) printf(\"Error: failed to write JSON to stdout.\\n\");"))
M('tx-progress', 'S23', ('ft_process.c', "(void) fprintf(stderr, \"Referencing files and sizes:\\n\");", "(void) fprintf(stdout, \"Referencing files and sizes:\\n\");"))
M('tx-skip', 'S23', ('ft_process.c', "(void) fprintf(stderr, \"\\nskipping %s because", "(void) printf(\"\\nskipping %s because"))
N('tx-n1', 'S23', (RP, "        printf(\"\\n\\n\");", "        (void) puts(\"\\n\");"))
N('tx-n2', 'S23', (RP, "        printf(\"%s%s%c%s%s\", colors->path, file->path, (':' != conf->sep) ? ':' : '|', file->subpath, colors->reset);\n    }\n    else {\n        printf(\"%s%s%s\", colors->path, file->path, colors->reset);\n    }", "        const char mark = (conf->sep == ':') ? '|' : ':';\n        printf(\"%s%s\", colors->path, file->path);\n        (void) putchar(mark);\n        printf(\"%s%s\", file->subpath, colors->reset);\n        return;\n    }\n    (void) fputs(colors->path, stdout);\n    (void) fputs(file->path, stdout);\n    (void) fputs(colors->reset, stdout);"))
N('tx-n3', 'S23', (RP, "        printf(\"%c\", conf->sep);\n", "        (void) putchar(conf->sep);\n"), (RP, "format_human_size(fsize->val, conf->pool)", "format_human_size(file1->size, conf->pool)"))
N('tx-n4', 'S23', (RP, "    if (is_option_set(conf->mask, OPTION_UNTAR) && file->subpath) {\n        printf(\"%s%s%c%s%s\", colors->path, file->path, (':' != conf->sep) ? ':' : '|', file->subpath, colors->reset);\n    }\n    else {\n        printf(\"%s%s%s\", colors->path, file->path, colors->reset);\n    }", "    printf(\"%s%s\", colors->path, file->path);\n    if (is_option_set(conf->mask, OPTION_UNTAR) && NULL != file->subpath) {\n        printf(\"%c%s\", (':' != conf->sep) ? ':' : '|', file->subpath);\n    }\n    printf(\"%s\", colors->reset);"))
N('tx-n5', 'S23', (RP, "    unsigned char already_printed = 0;\n    apr_size_t j_index = 0;", "    unsigned char already_printed = 0;\n    apr_size_t j_index = index + 1;"), (RP, "    for (j_index = index + 1; j_index < fsize->nb_files; j_index++) {", "    for (; j_index < fsize->nb_files; ++j_index) {"))
N('tx-n6', 'S23', (RJ, "    printf(\"\\n\");\n    if (fflush", "    (void) fputc('\\n', stdout);\n    if (fflush"))
M('hs-gt', 'S24', (HS, "while (readable_size >= BYTES_IN_KIBIBYTE &&", "while (readable_size > BYTES_IN_KIBIBYTE &&"))
M('hs-1000', 'S24', (HS, "static const double BYTES_IN_KIBIBYTE = 1024.0;", "static const double BYTES_IN_KIBIBYTE = 1000.0;"))
M('hs-table', 'S24', (HS, "\"GiB\", \"TiB\", \"PiB\", \"EiB\" }", "\"GiB\", \"TiB\", \"EiB\", \"PiB\" }"))
M('hs-dup', 'S24', (HS, "\"MiB\", \"GiB\", \"TiB\", \"PiB\", \"EiB\" }", "\"MiB\", \"GiB\", \"PiB\", \"EiB\" }"))
N('hs-bound', 'S24', (HS, "unit_index < (sizeof(units) / sizeof(units[0]) - 1)", "unit_index < (sizeof(units) / sizeof(units[0]))"))
M('hs-short', 'S24', (HS, "unit_index < (sizeof(units) / sizeof(units[0]) - 1)", "unit_index < 3"))
M('hs-int', 'S24', (HS, "    if (unit_index == 0) {", "    if (unit_index <= 1) {"))
M('hs-prec', 'S24', (HS, "\"%.1f %s\"", "\"%.0f %s\""))
M('hs-step', 'S24', (HS, "        unit_index++;\n", "        unit_index += unit_index == 3 ? 2 : 1;\n"))
M('hs-last', 'S24', (HS, "        readable_size /= BYTES_IN_KIBIBYTE;\n", "        readable_size /= unit_index == 4 ? 1000.0 : BYTES_IN_KIBIBYTE;\n"))
M('hs-shift', 'S24', (HS, "    while (readable_size >= BYTES_IN_KIBIBYTE && unit_index < (sizeof(units) / sizeof(units[0]) - 1)) {\n        readable_size /= BYTES_IN_KIBIBYTE;\n        unit_index++;\n    }\n", "    while (unit_index < 6 && (size >> (10 * unit_index)) >= KIBIBYTE) {\n        unit_index++;\n    }\n    readable_size = (double) size / (double) (1U << (10 * unit_index));\n"))
N('hs-shift-ok', 'S24', (HS, "    while (readable_size >= BYTES_IN_KIBIBYTE && unit_index < (sizeof(units) / sizeof(units[0]) - 1)) {\n        readable_size /= BYTES_IN_KIBIBYTE;\n        unit_index++;\n    }\n", "    while (unit_index < 6 && (size >> (10 * unit_index)) >= KIBIBYTE) {\n        unit_index++;\n    }\n    readable_size = (double) size / (double) (1ULL << (10 * unit_index));\n"))
M('hs-shift-gt', 'S24', (HS, "    while (readable_size >= BYTES_IN_KIBIBYTE && unit_index < (sizeof(units) / sizeof(units[0]) - 1)) {\n        readable_size /= BYTES_IN_KIBIBYTE;\n        unit_index++;\n    }\n", "    while (unit_index < 6 && (size >> (10 * unit_index)) > KIBIBYTE) {\n        unit_index++;\n    }\n    readable_size = (double) size / (double) (1ULL << (10 * unit_index));\n"))
M('hs-float', 'S24', (HS, "    double readable_size = (double) size;\n", "    float readable_size = (float) size;\n"))
M('hs-whole', 'S24', (HS, "    double readable_size = (double) size;\n", "    double readable_size = (double) size;\n    apr_off_t rest = size;\n"), (HS, "        readable_size /= BYTES_IN_KIBIBYTE;\n", "        rest /= KIBIBYTE;\n        readable_size = (double) rest;\n"))
N('hs-n1', 'S24', (HS, "    while (readable_size >= BYTES_IN_KIBIBYTE && unit_index < (sizeof(units) / sizeof(units[0]) - 1)) {\n        readable_size /= BYTES_IN_KIBIBYTE;\n        unit_index++;\n    }", "    for (unit_index = 0; unit_index < 6 && !(readable_size < BYTES_IN_KIBIBYTE); unit_index++) {\n        readable_size = readable_size * (1.0 / 1024.0);\n    }"))
N('hs-n2', 'S24', (HS, "    int unit_index = 0;\n    double readable_size = (double) size;\n", "    int unit_index = 0;\n    double readable_size = (double) size;\n\n    if (size < KIBIBYTE) {\n        return apr_psprintf(pool, \"%d B\", (int) size);\n    }\n"))
N('hs-n3', 'S24', (HS, "        return apr_psprintf(pool, \"%d %s\", (int) readable_size, units[unit_index]);", "        return apr_psprintf(pool, \"%\" APR_OFF_T_FMT \" B\", size);"))
N('hs-n4', 'S24', (HS, "    const char *units[] = {", "    static const char *const units[] = {"))

FCG = 'ft_config.c'
M('gi-call', 'S06', (FCG, "    status = fill_gids_ht(conf->username, conf->gids, conf->pool);\n", "    status = APR_SUCCESS;\n"))
M('gi-count', 'S06', (FCG, "getgroups((int) (sizeof(list) / sizeof(gid_t)), list)", "getgroups((int) sizeof(gid_t), list)"))
M('gi-one-more', 'S06', (FCG, "for (int idx = 0; idx < nb_gid; idx++)", "for (int idx = 0; idx <= nb_gid; idx++)"))
M('gi-first', 'S06', (FCG, "for (int idx = 0; idx < nb_gid; idx++)", "for (int idx = 1; idx < nb_gid; idx++)"))
M('gi-egid', 'S06', (FCG, "    if (nb_gid < (sizeof(list) / sizeof(gid_t))) {\n        list[nb_gid] = getegid();", "    if (nb_gid == 0) {\n        list[nb_gid] = getegid();"))
M('gi-val', 'S06', (FCG, "            gid->val = list[idx];", "            gid->val = list[0];"))
M('gi-len', 'S06', (FCG, "napr_hash_search(gids, &(list[idx]), sizeof(gid_t), &hash_value)", "napr_hash_search(gids, &(list[idx]), 2, &hash_value)"))
N('gi-n1', 'S06 S14', (FCG, "    for (int idx = 0; idx < nb_gid; idx++) {\n        ft_gid_t *gid = napr_hash_search(gids, &(list[idx]), sizeof(gid_t), &hash_value);\n        if (NULL == gid) {\n            gid = apr_palloc(pool, sizeof(struct ft_gid_t));\n            gid->val = list[idx];\n            napr_hash_set(gids, gid, hash_value);\n        }\n    }\n", "    int idx = nb_gid;\n    while (idx-- > 0) {\n        const gid_t cur = list[idx];\n        ft_gid_t *gid = NULL;\n\n        if (NULL != napr_hash_search(gids, &cur, sizeof(cur), &hash_value)) {\n            continue;\n        }\n        gid = apr_palloc(pool, sizeof(*gid));\n        gid->val = cur;\n        napr_hash_set(gids, gid, hash_value);\n    }\n"))
N('gi-n2', 'S06 S14', (FCG, "    if (nb_gid < (sizeof(list) / sizeof(gid_t))) {\n        list[nb_gid] = getegid();\n        nb_gid++;\n    }\n", "    if (nb_gid < MAX_GIDS) {\n        list[nb_gid++] = getegid();\n    }\n"))
M('cf-dot-len', 'S14', (FCG, 'napr_hash_search(conf->ig_files, ".", 1, &hash_value)', 'napr_hash_search(conf->ig_files, ".", 0, &hash_value)'))
M('cf-dots-swap', 'S14', (FCG, 'napr_hash_search(conf->ig_files, "..", 2, &hash_value)', 'napr_hash_search(conf->ig_files, ".", 1, &hash_value)'))
M('cf-threads-max', 'S14', (FCG, "threads > MAX_THREADS", "threads >= MAX_THREADS"))
M('cf-threads-one', 'S14', (FCG, "threads < 1", "threads <= 1"))
M('cf-max-zero', 'S14', (FCG, "        if (conf->maxsize < 0) {", "        if (conf->maxsize <= 0) {"))
N('cf-errno', 'S14', (FCG, "            long threads = strtol(optarg, &endptr, BASE_TEN);\n            if (*endptr", "            errno = 0;\n            long threads = strtol(optarg, &endptr, BASE_TEN);\n            if (errno == ERANGE || *endptr"), (FCG, '#include "ft_config.h"', '#include <errno.h>\n#include "ft_config.h"'))
N('cf-order', 'S14', (FCG, "if (*endptr != '\\0' || threads < 1 || threads > MAX_THREADS) {", "if (!(threads >= 1 && threads <= MAX_THREADS && *endptr == '\\0')) {"))
M('cu-stuck', 'D11', ('napr_db_cursor.c', "        pgno = db_page_branch_node(page, page->num_keys - 1)->pgno;\n", ""))
M('cu-stuck2', 'D11', ('napr_db_cursor.c', "                        break;  /* Empty leaf - try the next sibling */", "                        continue;  /* Empty leaf - try the next sibling */"))
M('tv-pool', 'S15 S06', ('ft_traverse.c', "        DEBUG_ERR(\"error calling apr_pool_create: %s\", apr_strerror(status, errbuf, ERR_BUF_SIZE));\n        return status;\n    }\n\n    status = traverse_recursive", "        DEBUG_ERR(\"error calling apr_pool_create: %s\", apr_strerror(status, errbuf, ERR_BUF_SIZE));\n        return APR_SUCCESS;\n    }\n\n    status = traverse_recursive"))
M('tv-top', 'S15 S06', ('ft_traverse.c', "    apr_pool_destroy(gc_pool);\n\n    return status;\n}", "    apr_pool_destroy(gc_pool);\n\n    return APR_SUCCESS;\n}"))
M('tv-open', 'S15', ('ft_traverse.c', "apr_dir_open(%s): %s\", filename, apr_strerror(status, errbuf, ERR_BUF_SIZE));\n        return status;", "apr_dir_open(%s): %s\", filename, apr_strerror(status, errbuf, ERR_BUF_SIZE));\n        return APR_SUCCESS;"))
M('tv-entry', 'S15', ('ft_traverse.c', "error recursively calling traverse_recursive: %s\", apr_strerror(status, errbuf, ERR_BUF_SIZE));\n    }\n    return status;", "error recursively calling traverse_recursive: %s\", apr_strerror(status, errbuf, ERR_BUF_SIZE));\n    }\n    return APR_SUCCESS;"))
M('tv-last', 'S15', ('ft_traverse.c', "    apr_dir_close(dir);\n    return status;", "    return apr_dir_close(dir);"))
M('rc-room', 'D04', ('napr_db.c', "apr_palloc(txn->pool, (num_pages - 1) * sizeof(pgno_t))", "apr_palloc(txn->pool, (num_pages - 1) + sizeof(pgno_t))"))
M('op-mutex', 'D06', ('napr_db.c', "    status = apr_thread_mutex_create(&env->reader_table_mutex, APR_THREAD_MUTEX_DEFAULT, env->pool);\n    if (status != APR_SUCCESS) {\n        apr_mmap_delete(env->mmap);\n        env->mmap = NULL;\n        env->map_addr = NULL;\n        apr_file_close(env->file);\n        env->file = NULL;\n        return status;", "    status = apr_thread_mutex_create(&env->reader_table_mutex, APR_THREAD_MUTEX_DEFAULT, env->pool);\n    if (status != APR_SUCCESS) {\n        apr_mmap_delete(env->mmap);\n        env->mmap = NULL;\n        env->map_addr = NULL;\n        apr_file_close(env->file);\n        env->file = NULL;\n        return APR_SUCCESS;"))
M('op-flag', 'D06', ('napr_db.c', "    if (env->flags & NAPR_DB_INTRAPROCESS_LOCK) {\n        env->writer_proc_mutex = NULL;", "    if (env->flags & (NAPR_DB_INTRAPROCESS_LOCK | NAPR_DB_CREATE)) {\n        env->writer_proc_mutex = NULL;"))
M('ig-nolf', 'S16', ('ft_ignore.c', "        if (len > 0 && line[len - 1] == '\\n') {", "        if (len > 0 || line[len - 1] == '\\n') {"))
M('ig-nolf2', 'S16', ('ft_ignore.c', "        if (len > 0 && line[len - 1] == '\\n') {\n            line[len - 1] = '\\0';\n            len--;\n        }\n", "        if (len > 1) {\n            line[len - 1] = '\\0';\n            len--;\n        }\n"))
M('ig-short1', 'S16', ('ft_ignore.c', "        if (len > 0 && line[len - 1] == '\\n') {", "        if (len > 2 && line[len - 1] == '\\n') {"))
N('ig-cspn', 'S16', ('ft_ignore.c', "        apr_size_t len = strlen(line);\n        if (len > 0 && line[len - 1] == '\\n') {\n            line[len - 1] = '\\0';\n            len--;\n        }\n        if (len > 0 && line[len - 1] == '\\r') {\n            line[len - 1] = '\\0';\n        }\n", "        char *tail = line + strlen(line);\n        if (tail > line && tail[-1] == '\\n') {\n            *--tail = '\\0';\n        }\n        if (tail != line && tail[-1] == '\\r') {\n            *--tail = '\\0';\n        }\n"))
M('tv-rxopt', 'S06', ('ft_traverse.c', "pcre_exec(conf->ig_regex, NULL, fullname, (int) strlen(fullname), 0, 0, ovector", "pcre_exec(conf->ig_regex, NULL, fullname, (int) strlen(fullname), 0, PCRE_ANCHORED, ovector"))

import refactor  # noqa: E402,F401  whole-function rewrites that keep the behaviour
import refactor2  # noqa: E402,F401
import refactor3
