"""Behaviour-preserving rewrites of whole functions: every check named must stay quiet on them."""
import sys
_m = sys.modules.get('mutants') or sys.modules['__main__']
N = _m.N
T_, D, CU = 'napr_db_tree.c', 'napr_db.c', 'napr_db_cursor.c'
DB = 'D01 D02 D03 D04 D05 D06 D09 D11 D13 D16'

SIZE = '''
static uint16_t db_node_size_at(const DB_PageHeader *page, uint16_t offset)
{
    const char *raw = (const char *) page + offset;

    if (page->flags & P_LEAF) {
        const DB_LeafNode *leaf = (const DB_LeafNode *) raw;
        return (uint16_t) (sizeof(*leaf) + leaf->key_size + leaf->data_size);
    }
    const DB_BranchNode *branch = (const DB_BranchNode *) raw;
    return (uint16_t) (sizeof(*branch) + branch->key_size);
}

'''

N('rt-insert-order', DB, (T_, '@fn:db_page_insert', '''
apr_status_t db_page_insert(DB_PageHeader *page, uint16_t index, const napr_db_val_t *key, const napr_db_val_t *data, pgno_t child_pgno)
{
    size_t needed = 0;
    int is_leaf = 0;

    if (page == NULL || key == NULL) {
        return APR_EINVAL;
    }
    if (key->size > PAGE_SIZE) {
        return APR_ENOSPC;
    }
    if (data != NULL && data->size > PAGE_SIZE) {
        return APR_ENOSPC;
    }
    is_leaf = (page->flags & P_LEAF) != 0;
    if (is_leaf) {
        if (data == NULL) {
            return APR_EINVAL;
        }
        needed = sizeof(DB_LeafNode) + key->size + data->size;
    }
    else if ((page->flags & P_BRANCH) != 0) {
        needed = sizeof(DB_BranchNode) + key->size;
    }
    else {
        return APR_EINVAL;
    }

    if ((size_t) (uint16_t) (page->upper - page->lower) < needed + sizeof(uint16_t)) {
        return APR_ENOSPC;
    }

    const uint16_t where = (uint16_t) (page->upper - needed);
    if (!is_leaf) {
        DB_BranchNode *branch = (DB_BranchNode *) ((char *) page + where);
        branch->key_size = (uint16_t) key->size;
        branch->pgno = child_pgno;
        memcpy(branch->key_data, key->data, key->size);
    }
    else {
        DB_LeafNode *leaf = (DB_LeafNode *) ((char *) page + where);
        leaf->data_size = (uint16_t) data->size;
        leaf->key_size = (uint16_t) key->size;
        memcpy(leaf->kv_data + key->size, data->data, data->size);
        memcpy(leaf->kv_data, key->data, key->size);
    }

    uint16_t *slots = db_page_slots(page);
    if (index < page->num_keys) {
        memmove(slots + index + 1, slots + index, sizeof(uint16_t) * (size_t) (page->num_keys - index));
    }
    slots[index] = where;

    page->upper = where;
    page->lower = (uint16_t) (page->lower + sizeof(uint16_t));
    page->num_keys = (uint16_t) (page->num_keys + 1);
    return APR_SUCCESS;
}
'''))

N('rt-delete-helper', DB, (T_, '@fn:db_page_delete', SIZE + '''
static void db_page_close_gap(DB_PageHeader *page, uint16_t gap_offset, uint16_t gap_size, uint16_t remaining)
{
    uint16_t *slots = db_page_slots(page);
    char *base = (char *) page;

    memmove(base + page->upper + gap_size, base + page->upper, (size_t) (gap_offset - page->upper));
    while (remaining > 0) {
        remaining--;
        if (slots[remaining] < gap_offset) {
            slots[remaining] = (uint16_t) (slots[remaining] + gap_size);
        }
    }
}

apr_status_t db_page_delete(DB_PageHeader *page, uint16_t index)
{
    if (!page || index >= page->num_keys) {
        return APR_EINVAL;
    }
    if (!(page->flags & (P_LEAF | P_BRANCH))) {
        return APR_EINVAL;
    }

    uint16_t *slots = db_page_slots(page);
    const uint16_t gone = slots[index];
    const uint16_t gone_size = db_node_size_at(page, gone);
    const uint16_t remaining = (uint16_t) (page->num_keys - 1);

    memmove(&slots[index], &slots[index + 1], (size_t) (remaining - index) * sizeof(uint16_t));
    if (gone > page->upper) {
        db_page_close_gap(page, gone, gone_size, remaining);
    }
    page->num_keys = remaining;
    page->lower -= (uint16_t) sizeof(uint16_t);
    page->upper += gone_size;
    return APR_SUCCESS;
}
'''))

MOVE = SIZE + '''
static apr_status_t db_new_right_page(napr_db_txn_t *txn, uint16_t kind, DB_PageHeader **page_out)
{
    pgno_t pgno = 0;
    DB_PageHeader *page = NULL;
    apr_status_t status = db_page_alloc(txn, 1, &pgno);

    if (APR_SUCCESS != status) {
        return status;
    }
    page = apr_pcalloc(txn->pool, PAGE_SIZE);
    if (page == NULL) {
        return APR_ENOMEM;
    }
    page->pgno = pgno;
    page->flags = kind;
    page->lower = sizeof(DB_PageHeader);
    page->upper = PAGE_SIZE;
    *page_out = page;
    return APR_SUCCESS;
}

static void db_move_upper_half(DB_PageHeader *left, DB_PageHeader *right)
{
    const uint16_t keep = left->num_keys / 2;
    const uint16_t moved = left->num_keys - keep;
    const uint16_t *from = db_page_slots(left) + keep;
    uint16_t *slots = db_page_slots(right);
    uint16_t pos = 0;

    for (pos = 0; pos < moved; ++pos) {
        const uint16_t size = db_node_size_at(left, from[pos]);
        right->upper -= size;
        memcpy((char *) right + right->upper, (char *) left + from[pos], size);
        slots[pos] = right->upper;
    }
    right->num_keys = moved;
    right->lower = (uint16_t) (sizeof(DB_PageHeader) + moved * sizeof(uint16_t));
    left->num_keys = keep;
    left->lower = (uint16_t) (sizeof(DB_PageHeader) + keep * sizeof(uint16_t));
    db_page_compact(left);
}

static apr_status_t db_txn_add_dirty(napr_db_txn_t *txn, DB_PageHeader *page)
{
    pgno_t *key = apr_palloc(txn->pool, sizeof(*key));
    if (!key) {
        return APR_ENOMEM;
    }
    *key = page->pgno;
    apr_hash_set(txn->dirty_pages, key, sizeof(*key), page);
    return APR_SUCCESS;
}

'''
SPLITL = '''
apr_status_t db_split_leaf(napr_db_txn_t *txn, DB_PageHeader *left_page, DB_PageHeader **right_page_out, napr_db_val_t *divider_key_out)
{
    DB_PageHeader *right = NULL;
    apr_status_t status = APR_SUCCESS;

    if (!txn || !left_page || !right_page_out || !divider_key_out) {
        return APR_EINVAL;
    }
    if (!(left_page->flags & P_LEAF) || (txn->flags & NAPR_DB_RDONLY)) {
        return APR_EINVAL;
    }
    status = db_new_right_page(txn, P_LEAF, &right);
    if (status != APR_SUCCESS) {
        return status;
    }
    db_move_upper_half(left_page, right);
    status = db_txn_add_dirty(txn, right);
    if (status == APR_SUCCESS) {
        DB_LeafNode *first = db_page_leaf_node(right, 0);
        divider_key_out->size = first->key_size;
        divider_key_out->data = db_leaf_node_key(first);
        *right_page_out = right;
    }
    return status;
}
'''
SPLITB = '''
apr_status_t db_split_branch(napr_db_txn_t *txn, DB_PageHeader *left_page, DB_PageHeader **right_page_out, napr_db_val_t *divider_key_out)
{
    DB_PageHeader *right = NULL;
    apr_status_t status = APR_SUCCESS;

    if (!txn || !left_page || !right_page_out || !divider_key_out) {
        return APR_EINVAL;
    }
    if (!(left_page->flags & P_BRANCH) || (txn->flags & NAPR_DB_RDONLY)) {
        return APR_EINVAL;
    }
    status = db_new_right_page(txn, P_BRANCH, &right);
    if (status != APR_SUCCESS) {
        return status;
    }
    db_move_upper_half(left_page, right);
    if (right->num_keys == 0) {
        return APR_EGENERAL;
    }
    status = db_txn_add_dirty(txn, right);
    if (status != APR_SUCCESS) {
        return status;
    }
    DB_BranchNode *first = db_page_branch_node(right, 0);
    divider_key_out->data = db_branch_node_key(first);
    divider_key_out->size = first->key_size;
    *right_page_out = right;
    return APR_SUCCESS;
}
'''
N('rt-split-helpers', DB, (T_, '@fn:db_split_leaf', MOVE + SPLITL), (T_, '@fn:db_split_branch', SPLITB))

N('rt-compact-back', DB, (T_, '@fn:db_page_compact', SIZE + '''
static void db_page_compact(DB_PageHeader *page)
{
    char copy[PAGE_SIZE];
    uint16_t *slots = db_page_slots(page);
    uint16_t top = PAGE_SIZE;
    int idx = 0;

    memcpy(copy, page, PAGE_SIZE);
    for (idx = page->num_keys - 1; idx >= 0; idx--) {
        const uint16_t size = db_node_size_at((DB_PageHeader *) copy, slots[idx]);
        top -= size;
        memcpy((char *) page + top, copy + slots[idx], size);
        slots[idx] = top;
    }
    page->upper = top;
}
'''))

CHILD = '''
static pgno_t db_child_for_key(DB_PageHeader *page, const napr_db_val_t *key)
{
    uint16_t index = 0;

    if (db_page_search(page, key, &index) == APR_NOTFOUND && index > 0) {
        index--;
    }
    if (index >= page->num_keys) {
        index = page->num_keys - 1;
    }
    return db_page_branch_node(page, index)->pgno;
}

'''
N('rt-descent-for', DB, (T_, '@fn:db_find_leaf_page_in_tree', CHILD + '''
apr_status_t db_find_leaf_page_in_tree(napr_db_txn_t *txn, pgno_t root_pgno, const napr_db_val_t *key, DB_PageHeader **leaf_page_out)
{
    DB_PageHeader *page = NULL;

    if (!txn || !key || !leaf_page_out) {
        return APR_EINVAL;
    }
    for (page = db_get_page(txn, root_pgno); !(page->flags & P_LEAF); page = db_get_page(txn, db_child_for_key(page, key))) {
        if (!(page->flags & P_BRANCH)) {
            return APR_EINVAL;
        }
    }
    *leaf_page_out = page;
    return APR_SUCCESS;
}
'''), (T_, '@fn:db_find_leaf_page_with_path_in_tree', '''
apr_status_t db_find_leaf_page_with_path_in_tree(napr_db_txn_t *txn, pgno_t root_pgno, const napr_db_val_t *key, pgno_t *path_out, uint16_t *path_len_out, DB_PageHeader **leaf_page_out)
{
    pgno_t pgno = root_pgno;
    uint16_t depth = 0;

    if (!txn || !key || !path_out || !path_len_out || !leaf_page_out) {
        return APR_EINVAL;
    }
    for (depth = 0; depth < MAX_TREE_DEPTH; depth++) {
        pgno_t last = txn->new_last_pgno;
        DB_PageHeader *page = NULL;

        if (txn->flags & NAPR_DB_RDONLY) {
            last = txn->env->live_meta->last_pgno;
        }
        path_out[depth] = pgno;
        if (pgno > last) {
            return APR_EINVAL;
        }
        page = db_get_page(txn, pgno);
        if (page->flags & P_LEAF) {
            *leaf_page_out = page;
            *path_len_out = (uint16_t) (depth + 1);
            return APR_SUCCESS;
        }
        if (!(page->flags & P_BRANCH)) {
            return APR_EINVAL;
        }
        pgno = db_child_for_key(page, key);
    }
    return APR_EGENERAL;
}
'''))

N('rt-search-helper', DB, (T_, '@fn:db_page_search', '''
static int db_compare_slot(DB_PageHeader *page, uint16_t pos, const napr_db_val_t *key, int *order)
{
    const uint16_t size = (uint16_t) key->size;

    if (page->flags & P_BRANCH) {
        DB_BranchNode *node = db_page_branch_node(page, pos);
        *order = db_key_compare(key->data, size, db_branch_node_key(node), node->key_size);
        return 1;
    }
    if (page->flags & P_LEAF) {
        DB_LeafNode *node = db_page_leaf_node(page, pos);
        *order = db_key_compare(key->data, size, db_leaf_node_key(node), node->key_size);
        return 1;
    }
    return 0;
}

apr_status_t db_page_search(DB_PageHeader *page, const napr_db_val_t *key, uint16_t *index_out)
{
    unsigned int low = 0;
    unsigned int count = 0;

    if (!page || !key || !index_out || key->size > UINT16_MAX) {
        return APR_EINVAL;
    }
    count = page->num_keys;
    while (count > 0) {
        unsigned int half = count / 2;
        int order = 0;

        if (!db_compare_slot(page, (uint16_t) (low + half), key, &order)) {
            return APR_EINVAL;
        }
        if (order == 0) {
            *index_out = (uint16_t) (low + half);
            return APR_SUCCESS;
        }
        if (order > 0) {
            low += half + 1;
            count -= half + 1;
        }
        else {
            count = half;
        }
    }
    *index_out = (uint16_t) low;
    return APR_NOTFOUND;
}
'''))

N('rt-alloc-else', DB, (T_, '@fn:db_page_alloc', '''
apr_status_t db_page_alloc(napr_db_txn_t *txn, uint32_t count, pgno_t *pgno_out)
{
    if (!txn || !pgno_out || count == 0 || (txn->flags & NAPR_DB_RDONLY)) {
        return APR_EINVAL;
    }
    if (count == 1 && db_reclaim_page_from_free_db(txn, pgno_out) == APR_SUCCESS) {
        return APR_SUCCESS;
    }

    const pgno_t last = txn->new_last_pgno + count;
    if (last >= txn->env->mapsize / PAGE_SIZE) {
        return APR_ENOSPC;
    }
    *pgno_out = txn->new_last_pgno + 1;
    txn->new_last_pgno = last;
    return APR_SUCCESS;
}
'''))

N('rt-writable-helper', DB, (T_, '#include <apr_hash.h>\n', '#include <apr_hash.h>\n#include <apr_strings.h>\n'), (T_, '@fn:db_page_get_writable', '''
static void db_note_freed(apr_array_header_t *freed, pgno_t pgno)
{
    if (freed != NULL) {
        pgno_t *entry = (pgno_t *) apr_array_push(freed);
        if (entry != NULL) {
            *entry = pgno;
        }
    }
}

apr_status_t db_page_get_writable(napr_db_txn_t *txn, DB_PageHeader *original_page, DB_PageHeader **dirty_copy_out)
{
    if (!txn || !original_page || !dirty_copy_out || (txn->flags & NAPR_DB_RDONLY)) {
        return APR_EINVAL;
    }

    const pgno_t pgno = original_page->pgno;
    DB_PageHeader *copy = apr_hash_get(txn->dirty_pages, &pgno, sizeof(pgno));
    if (copy == NULL) {
        pgno_t *key = apr_pmemdup(txn->pool, &pgno, sizeof(pgno));
        copy = apr_pmemdup(txn->pool, original_page, PAGE_SIZE);
        if (key == NULL || copy == NULL) {
            return APR_ENOMEM;
        }
        db_note_freed(txn->freed_pages, pgno);
        apr_hash_set(txn->dirty_pages, key, sizeof(*key), copy);
    }
    *dirty_copy_out = copy;
    return APR_SUCCESS;
}
'''))
N('rt-compare-switch', DB, (T_, '@fn:db_key_compare', '''
static int db_key_compare(const uint8_t *key1_data, uint16_t key1_size, const uint8_t *key2_data, uint16_t key2_size)
{
    const size_t common = key2_size > key1_size ? key1_size : key2_size;
    const int order = memcmp(key1_data, key2_data, common);

    return order != 0 ? order : (int) key1_size - (int) key2_size;
}
'''))

N('rc-next-helper', DB, (CU, '@fn:db_cursor_next', '''
static apr_status_t descend_leftmost(napr_db_cursor_t *cursor, pgno_t pgno)
{
    DB_PageHeader *page = NULL;

    for (;;) {
        page = db_get_page(cursor->txn, pgno);
        if (page == NULL) {
            cursor->eof = 1;
            return APR_EGENERAL;
        }
        if (page->flags & P_LEAF) {
            if (page->num_keys != 0) {
                cursor_push(cursor, page, 0);
                return APR_SUCCESS;
            }
            return APR_NOTFOUND;
        }
        cursor_push(cursor, page, 0);
        pgno = db_page_branch_node(page, 0)->pgno;
    }
}

static apr_status_t db_cursor_next(napr_db_cursor_t *cursor)
{
    if (!cursor || cursor->top == 0 || cursor->eof) {
        return APR_NOTFOUND;
    }

    uint16_t level = cursor->top - 1;
    if (cursor->stack[level].index + 1 < cursor->stack[level].page->num_keys) {
        cursor->stack[level].index++;
        return APR_SUCCESS;
    }

    for (cursor->top--; cursor->top > 0;) {
        level = cursor->top - 1;
        if (cursor->stack[level].index + 1 >= cursor->stack[level].page->num_keys) {
            cursor->top--;
            continue;
        }
        cursor->stack[level].index++;
        apr_status_t status = descend_leftmost(cursor, db_page_branch_node(cursor->stack[level].page, cursor->stack[level].index)->pgno);
        if (status != APR_NOTFOUND) {
            return status;
        }
    }
    cursor->eof = 1;
    return APR_NOTFOUND;
}
'''))
N('rc-seek-if', DB, (CU, '@fn:db_cursor_seek', '''
static apr_status_t pick_child(DB_PageHeader *page, const napr_db_val_t *key, napr_db_cursor_op_t operation, uint16_t *index_out)
{
    if (operation == NAPR_DB_FIRST) {
        *index_out = 0;
    }
    else if (operation == NAPR_DB_LAST) {
        *index_out = page->num_keys - 1;
    }
    else if (operation == NAPR_DB_SET || operation == NAPR_DB_SET_RANGE) {
        apr_status_t found = db_page_search(page, key, index_out);
        if (found == APR_NOTFOUND && *index_out > 0) {
            (*index_out)--;
        }
        if (*index_out >= page->num_keys) {
            *index_out = page->num_keys - 1;
        }
    }
    else {
        return APR_EINVAL;
    }
    return APR_SUCCESS;
}

static apr_status_t db_cursor_seek(napr_db_cursor_t *cursor, const napr_db_val_t *key, napr_db_cursor_op_t operation)
{
    DB_PageHeader *page = NULL;
    uint16_t index = 0;
    apr_status_t status = APR_SUCCESS;
    pgno_t pgno = cursor->txn->root_pgno;

    cursor->eof = 0;
    cursor->top = 0;
    if (pgno == 0) {
        cursor->eof = 1;
        return APR_NOTFOUND;
    }
    while ((page = db_get_page(cursor->txn, pgno)) != NULL && !(page->flags & P_LEAF)) {
        if (!(page->flags & P_BRANCH)) {
            return APR_EGENERAL;
        }
        status = pick_child(page, key, operation, &index);
        if (status != APR_SUCCESS) {
            return status;
        }
        cursor_push(cursor, page, index);
        pgno = db_page_branch_node(page, index)->pgno;
    }
    if (page == NULL) {
        return APR_EGENERAL;
    }
    cursor_push(cursor, page, 0);

    index = 0;
    if (operation == NAPR_DB_LAST) {
        if (page->num_keys == 0) {
            return db_cursor_prev(cursor);
        }
        index = page->num_keys - 1;
    }
    else if (operation == NAPR_DB_SET || operation == NAPR_DB_SET_RANGE) {
        status = db_page_search(page, key, &index);
        if (operation == NAPR_DB_SET && status != APR_SUCCESS) {
            return status;
        }
        if (page->num_keys > 0 && index >= page->num_keys) {
            cursor->stack[cursor->top - 1].index = page->num_keys - 1;
            return db_cursor_next(cursor);
        }
    }
    else if (operation != NAPR_DB_FIRST) {
        return APR_EINVAL;
    }
    if (page->num_keys == 0) {
        return db_cursor_next(cursor);
    }
    cursor->stack[cursor->top - 1].index = index;
    return APR_SUCCESS;
}
'''))
N('rc-get-helper', DB, (CU, '@fn:napr_db_cursor_get', '''
static apr_status_t cursor_move(napr_db_cursor_t *cursor, const napr_db_val_t *key, napr_db_cursor_op_t operation)
{
    if (operation == NAPR_DB_GET_CURRENT) {
        return APR_SUCCESS;
    }
    if (operation == NAPR_DB_NEXT) {
        return db_cursor_next(cursor);
    }
    if (operation == NAPR_DB_PREV) {
        return db_cursor_prev(cursor);
    }
    return db_cursor_seek(cursor, key, operation);
}

apr_status_t napr_db_cursor_get(napr_db_cursor_t *cursor, napr_db_val_t *key, napr_db_val_t *data, napr_db_cursor_op_t operation)
{
    if (operation != NAPR_DB_FIRST && operation != NAPR_DB_LAST && operation != NAPR_DB_SET && operation != NAPR_DB_SET_RANGE
        && operation != NAPR_DB_NEXT && operation != NAPR_DB_PREV && operation != NAPR_DB_GET_CURRENT) {
        return APR_EINVAL;
    }
    apr_status_t moved = cursor_move(cursor, key, operation);
    if (APR_SUCCESS != moved) {
        return moved;
    }
    if (cursor->top == 0 || cursor->eof) {
        return APR_NOTFOUND;
    }

    DB_PageHeader *leaf = cursor->stack[cursor->top - 1].page;
    const uint16_t at = cursor->stack[cursor->top - 1].index;
    if (!(at < leaf->num_keys)) {
        return APR_NOTFOUND;
    }
    DB_LeafNode *node = db_page_leaf_node(leaf, at);
    if (data != NULL) {
        data->size = node->data_size;
        data->data = node->kv_data + node->key_size;
    }
    if (key != NULL) {
        key->size = node->key_size;
        key->data = node->kv_data;
    }
    return APR_SUCCESS;
}
'''))

COW = '''
static DB_PageHeader *page_in_map(napr_db_txn_t *txn, pgno_t pgno)
{
    return (DB_PageHeader *) ((char *) txn->env->map_addr + (pgno * PAGE_SIZE));
}

static apr_status_t make_path_writable(napr_db_txn_t *txn, const pgno_t *path, uint16_t path_len, DB_PageHeader **leaf_out)
{
    uint16_t left = path_len;

    while (left-- > 0) {
        DB_PageHeader *page = apr_hash_get(txn->dirty_pages, &path[left], sizeof(path[left]));
        if (page == NULL) {
            apr_status_t status = db_page_get_writable(txn, page_in_map(txn, path[left]), &page);
            if (status != APR_SUCCESS) {
                return status;
            }
        }
        if (left + 1 == path_len) {
            *leaf_out = page;
        }
    }
    return APR_SUCCESS;
}

'''
PUT = '''
apr_status_t napr_db_put(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_val_t *data)
{
    pgno_t path[MAX_TREE_DEPTH] = { 0 };
    uint16_t path_len = 0;
    DB_PageHeader *leaf_page = NULL;
    uint16_t index = 0;
    apr_status_t status = APR_SUCCESS;
    apr_status_t found = APR_SUCCESS;

    if (!txn || !key || !data) {
        return APR_EINVAL;
    }
    if (txn->flags & NAPR_DB_RDONLY) {
        return APR_EACCES;
    }

    napr_db_val_t current_key = *key;
    napr_db_val_t current_data = *data;

    if (txn->root_pgno == 0) {
        return handle_empty_tree_put(txn, &current_key, &current_data);
    }
    if (key->size > PAGE_SIZE || data->size > PAGE_SIZE) {
        return APR_ENOSPC;
    }
    if (sizeof(DB_PageHeader) + sizeof(uint16_t) + sizeof(DB_LeafNode) + key->size + data->size > PAGE_SIZE) {
        return APR_ENOSPC;
    }

    status = db_find_leaf_page_with_path(txn, key, path, &path_len, &leaf_page);
    if (status != APR_SUCCESS) {
        return status;
    }
    found = db_page_search(leaf_page, key, &index);
    if (found == APR_SUCCESS && apr_hash_get(txn->dirty_pages, &path[path_len - 1], sizeof(pgno_t)) != NULL) {
        return APR_EEXIST;
    }

    status = make_path_writable(txn, path, path_len, &leaf_page);
    if (status != APR_SUCCESS) {
        return status;
    }
    if (found == APR_SUCCESS && (status = db_page_delete(leaf_page, index)) != APR_SUCCESS) {
        return status;
    }

    status = db_page_insert(leaf_page, index, &current_key, &current_data, 0);
    if (status == APR_ENOSPC) {
        status = handle_page_split(txn, leaf_page, path, path_len, &current_key, &current_data);
        txn->failed |= (status != APR_SUCCESS);
    }
    return status;
}
'''
DEL = '''
apr_status_t napr_db_del(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_val_t *data)
{
    pgno_t path[MAX_TREE_DEPTH] = { 0 };
    uint16_t path_len = 0;
    uint16_t index = 0;
    DB_PageHeader *leaf_page = NULL;
    apr_status_t status = APR_SUCCESS;

    (void) data;
    if (!txn || !key) {
        return APR_EINVAL;
    }
    if (txn->flags & NAPR_DB_RDONLY) {
        return APR_EINVAL;
    }
    if (txn->root_pgno == 0) {
        return APR_NOTFOUND;
    }
    status = db_find_leaf_page_with_path(txn, key, path, &path_len, &leaf_page);
    if (status != APR_SUCCESS) {
        return status;
    }
    if (db_page_search(leaf_page, key, &index) != APR_SUCCESS) {
        return APR_NOTFOUND;
    }
    status = make_path_writable(txn, path, path_len, &leaf_page);
    if (status != APR_SUCCESS) {
        return status;
    }
    return db_page_delete(leaf_page, index);
}
'''
N('rd-cow-helper', DB, (D, '@fn:napr_db_put', COW + PUT), (D, '@fn:napr_db_del', DEL))

NEWPG = '''
static apr_status_t new_dirty_page(napr_db_txn_t *txn, uint16_t kind, DB_PageHeader **page_out)
{
    pgno_t *pgno_key = apr_palloc(txn->pool, sizeof(pgno_t));
    DB_PageHeader *page = apr_pcalloc(txn->pool, PAGE_SIZE);
    apr_status_t status = APR_SUCCESS;

    if (!pgno_key || !page) {
        return APR_ENOMEM;
    }
    status = db_page_alloc(txn, 1, pgno_key);
    if (status != APR_SUCCESS) {
        return status;
    }
    page->pgno = *pgno_key;
    page->flags = kind;
    page->num_keys = 0;
    page->lower = sizeof(DB_PageHeader);
    page->upper = PAGE_SIZE;
    apr_hash_set(txn->dirty_pages, pgno_key, sizeof(pgno_t), page);
    *page_out = page;
    return APR_SUCCESS;
}

'''
N('rd-root-helper', DB, (D, '@fn:handle_root_split', '''
static void first_key_of(DB_PageHeader *page, napr_db_val_t *key_out)
{
    if (!(page->flags & P_BRANCH)) {
        DB_LeafNode *leaf = db_page_leaf_node(page, 0);
        key_out->size = leaf->key_size;
        key_out->data = db_leaf_node_key(leaf);
        return;
    }
    DB_BranchNode *branch = db_page_branch_node(page, 0);
    key_out->size = branch->key_size;
    key_out->data = db_branch_node_key(branch);
}

static apr_status_t handle_root_split(napr_db_txn_t *txn, pgno_t old_root_pgno, pgno_t right_child_pgno, const napr_db_val_t *divider_key)
{
    return handle_root_split_in_tree(txn, old_root_pgno, right_child_pgno, divider_key, &txn->root_pgno);
}
'''), (D, '@fn:handle_root_split_in_tree', '''
static apr_status_t handle_root_split_in_tree(napr_db_txn_t *txn, pgno_t old_root_pgno, pgno_t right_child_pgno, const napr_db_val_t *divider_key, pgno_t *new_root_out)
{
    DB_PageHeader *new_root = NULL;
    DB_PageHeader *old_root = NULL;
    napr_db_val_t left_min_key = { 0 };
    pgno_t *pgno_key = apr_palloc(txn->pool, sizeof(pgno_t));
    apr_status_t status = APR_SUCCESS;

    new_root = apr_pcalloc(txn->pool, PAGE_SIZE);
    if (!new_root || !pgno_key) {
        return APR_ENOMEM;
    }
    status = db_page_alloc(txn, 1, pgno_key);
    if (status != APR_SUCCESS) {
        return status;
    }
    old_root = apr_hash_get(txn->dirty_pages, &old_root_pgno, sizeof(pgno_t));
    if (!old_root) {
        return APR_EGENERAL;
    }
    first_key_of(old_root, &left_min_key);

    new_root->pgno = *pgno_key;
    new_root->flags = P_BRANCH;
    new_root->lower = sizeof(DB_PageHeader);
    new_root->upper = PAGE_SIZE;
    status = db_page_insert(new_root, 0, &left_min_key, NULL, old_root_pgno);
    if (status == APR_SUCCESS) {
        status = db_page_insert(new_root, 1, divider_key, NULL, right_child_pgno);
    }
    if (status == APR_SUCCESS) {
        apr_hash_set(txn->dirty_pages, pgno_key, sizeof(pgno_t), new_root);
        *new_root_out = *pgno_key;
    }
    return status;
}
'''))
N('rd-empty-helper', DB, (D, '@fn:initialize_empty_free_db', NEWPG + '''
static apr_status_t initialize_empty_free_db(napr_db_txn_t *txn, const napr_db_val_t *key, const napr_db_val_t *data, pgno_t *new_root_pgno_out)
{
    DB_PageHeader *root = NULL;
    apr_status_t status = new_dirty_page(txn, P_LEAF, &root);

    if (status == APR_SUCCESS) {
        status = db_page_insert(root, 0, key, data, 0);
    }
    if (status == APR_SUCCESS) {
        *new_root_pgno_out = root->pgno;
    }
    return status;
}
'''))

UNREG = '''
static void unregister_reader(napr_db_txn_t *txn)
{
    napr_db_env_t *env = txn->env;
    const apr_os_proc_t pid = getpid();
    const apr_os_thread_t tid = apr_os_thread_current();

    apr_thread_mutex_lock(env->reader_table_mutex);
    for (int slot = MAX_READERS - 1; slot >= 0; slot--) {
        if (env->reader_table[slot].txnid != txn->txnid) {
            continue;
        }
        if (env->reader_table[slot].pid == pid && env->reader_table[slot].tid == tid) {
            memset(&env->reader_table[slot], 0, sizeof(env->reader_table[slot]));
            break;
        }
    }
    apr_thread_mutex_unlock(env->reader_table_mutex);
}

'''
COMMIT = '''
static apr_status_t publish_changes(napr_db_txn_t *txn)
{
    apr_hash_t *pgno_map = NULL;
    DB_CommitPgnos roots = { 0 };
    apr_status_t status = APR_EGENERAL;

    if (txn->failed) {
        return status;
    }
    if ((status = populate_free_db(txn, &roots.new_free_db_root_pgno)) != APR_SUCCESS) {
        return status;
    }
    if ((status = build_pgno_map(txn, &pgno_map)) != APR_SUCCESS) {
        return status;
    }
    update_dirty_page_pointers(txn, pgno_map, &roots.new_root_pgno);
    if ((status = extend_database_file(txn)) == APR_SUCCESS && (status = write_dirty_pages_to_disk(txn)) == APR_SUCCESS) {
        status = commit_meta_page(txn, roots);
    }
    return status;
}

apr_status_t napr_db_txn_commit(napr_db_txn_t *txn)
{
    apr_status_t status = APR_SUCCESS;

    if (!txn) {
        return APR_EINVAL;
    }
    if (txn->flags & NAPR_DB_RDONLY) {
        unregister_reader(txn);
    }
    else {
        if (txn->dirty_pages && apr_hash_count(txn->dirty_pages) > 0) {
            status = publish_changes(txn);
        }
        db_writer_unlock(txn->env);
    }
    apr_pool_destroy(txn->pool);
    return status;
}
'''
ABORT = '''
apr_status_t napr_db_txn_abort(napr_db_txn_t *txn)
{
    apr_status_t status = APR_SUCCESS;

    if (txn == NULL) {
        return APR_EINVAL;
    }
    if ((txn->flags & NAPR_DB_RDONLY) == 0) {
        status = db_writer_unlock(txn->env);
    }
    else {
        unregister_reader(txn);
    }
    apr_pool_destroy(txn->pool);
    return status;
}
'''
N('rd-commit-flat', DB, (D, '@fn:napr_db_txn_commit', UNREG + COMMIT), (D, '@fn:napr_db_txn_abort', ABORT))

N('rd-write-at', DB, (D, '@fn:write_dirty_pages_to_disk', '''
static apr_status_t write_page_at(apr_file_t *file, pgno_t pgno, const void *page)
{
    apr_off_t where = (apr_off_t) pgno * PAGE_SIZE;
    apr_status_t status = apr_file_seek(file, APR_SET, &where);

    if (status == APR_SUCCESS) {
        status = apr_file_write_full(file, page, PAGE_SIZE, NULL);
    }
    return status;
}

static apr_status_t write_dirty_pages_to_disk(napr_db_txn_t *txn)
{
    apr_file_t *file = txn->env->file;
    apr_hash_index_t *cur = apr_hash_first(txn->pool, txn->dirty_pages);

    while (cur != NULL) {
        DB_PageHeader *page = apr_hash_this_val(cur);
        apr_status_t status = write_page_at(file, page->pgno, page);
        if (status != APR_SUCCESS) {
            return status;
        }
        cur = apr_hash_next(cur);
    }
    return apr_file_sync(file);
}
'''), (D, '@fn:commit_meta_page', '''
static apr_status_t commit_meta_page(napr_db_txn_t *txn, DB_CommitPgnos pgnos)
{
    napr_db_env_t *env = txn->env;
    const pgno_t slot = env->live_meta == env->meta0 ? 1 : 0;
    DB_MetaPage *target = slot ? env->meta1 : env->meta0;
    DB_MetaPage next;
    apr_status_t status = APR_SUCCESS;

    memset(&next, 0, sizeof(next));
    next.txnid = txn->txnid;
    next.free_db_root = pgnos.new_free_db_root_pgno;
    next.last_pgno = txn->new_last_pgno;
    next.root = pgnos.new_root_pgno;
    next.version = DB_VERSION;
    next.magic = DB_MAGIC;

    if ((status = write_page_at(env->file, slot, &next)) != APR_SUCCESS || (status = apr_file_sync(env->file)) != APR_SUCCESS) {
        return status;
    }
    status = apr_thread_mutex_lock(env->reader_table_mutex);
    if (status == APR_SUCCESS) {
        *target = next;
        env->live_meta = target;
        apr_thread_mutex_unlock(env->reader_table_mutex);
    }
    return status;
}
'''))
N('rd-map-once', DB, (D, '@fn:update_dirty_page_pointers', '''
static pgno_t mapped_pgno(apr_hash_t *pgno_map, pgno_t pgno)
{
    const pgno_t *mapped = apr_hash_get(pgno_map, &pgno, sizeof(pgno));
    return mapped != NULL ? *mapped : pgno;
}

static void update_dirty_page_pointers(napr_db_txn_t *txn, apr_hash_t *pgno_map, pgno_t *new_root_pgno_ptr)
{
    apr_hash_index_t *cur = NULL;

    for (cur = apr_hash_first(txn->pool, txn->dirty_pages); cur != NULL; cur = apr_hash_next(cur)) {
        DB_PageHeader *page = apr_hash_this_val(cur);
        if (page->flags & P_BRANCH) {
            for (uint16_t pos = 0; pos < page->num_keys; ++pos) {
                DB_BranchNode *node = db_page_branch_node(page, pos);
                node->pgno = mapped_pgno(pgno_map, node->pgno);
            }
        }
    }
    *new_root_pgno_ptr = mapped_pgno(pgno_map, txn->root_pgno);
}
'''))
N('rd-select-live', DB, (D, '@fn:select_live_meta', '''
static apr_status_t select_live_meta(napr_db_env_t *env)
{
    DB_MetaPage *candidates[2] = { env->meta1, env->meta0 };
    DB_MetaPage *best = NULL;

    for (int which = 0; which < 2; which++) {
        DB_MetaPage *meta = candidates[which];
        if (validate_meta_page(meta) != APR_SUCCESS) {
            continue;
        }
        if (best == NULL || meta->txnid > best->txnid) {
            best = meta;
        }
    }
    if (best == NULL) {
        return APR_EINVAL;
    }
    env->live_meta = best;
    return APR_SUCCESS;
}
'''))
N('rd-begin-split', DB, (D, '@fn:napr_db_txn_begin', '''
static void take_snapshot(napr_db_txn_t *txn, const DB_MetaPage *live)
{
    txn->txnid = live->txnid;
    txn->root_pgno = live->root;
    txn->free_db_root_pgno = live->free_db_root;
    txn->new_last_pgno = live->last_pgno;
}

static apr_status_t begin_writer(napr_db_txn_t *txn)
{
    apr_status_t status = db_writer_lock(txn->env);

    if (status != APR_SUCCESS) {
        return status;
    }
    take_snapshot(txn, txn->env->live_meta);
    txn->txnid += 1;
    txn->freed_pages = apr_array_make(txn->pool, DB_FREED_PAGES_DFLT_SIZE, sizeof(pgno_t));
    txn->dirty_pages = apr_hash_make(txn->pool);
    if (!txn->freed_pages || !txn->dirty_pages) {
        db_writer_unlock(txn->env);
        return APR_ENOMEM;
    }
    return APR_SUCCESS;
}

static apr_status_t begin_reader(napr_db_txn_t *txn)
{
    napr_db_env_t *env = txn->env;
    apr_status_t status = apr_thread_mutex_lock(env->reader_table_mutex);
    int slot = 0;

    if (status != APR_SUCCESS) {
        return status;
    }
    take_snapshot(txn, env->live_meta);
    while (slot < MAX_READERS && env->reader_table[slot].txnid != 0) {
        slot++;
    }
    if (slot < MAX_READERS) {
        env->reader_table[slot].txnid = txn->txnid;
        env->reader_table[slot].pid = getpid();
        env->reader_table[slot].tid = apr_os_thread_current();
    }
    else {
        status = APR_ENOMEM;
    }
    apr_thread_mutex_unlock(env->reader_table_mutex);
    return status;
}

apr_status_t napr_db_txn_begin(napr_db_env_t *env, unsigned int flags, napr_db_txn_t **txn)
{
    apr_status_t status = APR_SUCCESS;
    apr_pool_t *pool = NULL;
    napr_db_txn_t *handle = NULL;

    if (!env || !txn) {
        return APR_EINVAL;
    }
    status = apr_pool_create(&pool, env->pool);
    if (status != APR_SUCCESS) {
        return status;
    }
    handle = apr_pcalloc(pool, sizeof(*handle));
    if (handle != NULL) {
        handle->env = env;
        handle->pool = pool;
        handle->flags = flags;
        status = (flags & NAPR_DB_RDONLY) ? begin_reader(handle) : begin_writer(handle);
    }
    else {
        status = APR_ENOMEM;
    }
    if (status != APR_SUCCESS) {
        apr_pool_destroy(pool);
        return status;
    }
    *txn = handle;
    return APR_SUCCESS;
}
'''))
N('rd-get-nested', DB, (D, '@fn:napr_db_get', '''
apr_status_t napr_db_get(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_val_t *data)
{
    DB_PageHeader *leaf = NULL;
    uint16_t pos = 0;
    apr_status_t status = APR_NOTFOUND;

    if (!txn || !key || !data) {
        return APR_EINVAL;
    }
    if (txn->root_pgno != 0) {
        status = db_find_leaf_page(txn, key, &leaf);
        if (status == APR_SUCCESS) {
            status = db_page_search(leaf, key, &pos);
        }
        if (status == APR_SUCCESS) {
            DB_LeafNode *node = db_page_leaf_node(leaf, pos);
            data->data = node->kv_data + node->key_size;
            data->size = node->data_size;
        }
    }
    return status;
}
'''))
N('rd-reclaim', DB, (D, '@fn:find_reclaimable_entry', '''
static int entry_is_reclaimable(const napr_db_val_t *key, const napr_db_val_t *data, txnid_t limit)
{
    txnid_t freed_by = 0;

    if (key->size != sizeof(freed_by)) {
        return 0;
    }
    memcpy(&freed_by, key->data, sizeof(freed_by));
    return freed_by < limit && data->size != 0 && (data->size % sizeof(pgno_t)) == 0;
}

static apr_status_t find_reclaimable_entry(napr_db_txn_t *txn, txnid_t oldest_reader_txnid, napr_db_cursor_t *cursor, napr_db_val_t *key, napr_db_val_t *data)
{
    apr_status_t status = APR_SUCCESS;

    (void) txn;
    for (status = napr_db_cursor_get(cursor, key, data, NAPR_DB_FIRST); status == APR_SUCCESS; status = napr_db_cursor_get(cursor, key, data, NAPR_DB_NEXT)) {
        if (entry_is_reclaimable(key, data, oldest_reader_txnid)) {
            return APR_SUCCESS;
        }
    }
    return APR_NOTFOUND;
}
'''), (D, '@fn:db_get_oldest_reader_txnid', '''
apr_status_t db_get_oldest_reader_txnid(napr_db_env_t *env, txnid_t *oldest_txnid_out)
{
    apr_status_t status = APR_SUCCESS;
    txnid_t oldest = 0;

    if (!env || !oldest_txnid_out) {
        return APR_EINVAL;
    }
    status = apr_thread_mutex_lock(env->reader_table_mutex);
    if (status != APR_SUCCESS) {
        return status;
    }
    for (int slot = 0; slot < MAX_READERS; slot++) {
        const txnid_t seen = env->reader_table[slot].txnid;
        if (seen == 0) {
            continue;
        }
        oldest = (oldest == 0 || seen < oldest) ? seen : oldest;
    }
    apr_thread_mutex_unlock(env->reader_table_mutex);
    *oldest_txnid_out = oldest;
    return status;
}
'''))
N('rd-open-goto', DB, (D, '@fn:napr_db_env_open', '''
static void close_after_failure(napr_db_env_t *env)
{
    if (env->mmap) {
        apr_mmap_delete(env->mmap);
        env->mmap = NULL;
    }
    env->map_addr = NULL;
    apr_file_close(env->file);
    env->file = NULL;
}

apr_status_t napr_db_env_open(napr_db_env_t *env, const char *path, unsigned int flags)
{
    apr_status_t status = APR_SUCCESS;
    int created = 0;

    if (!env || !path || env->mapsize == 0) {
        return APR_EINVAL;
    }
    env->flags = flags;
    status = db_file_open(env, path, &created);
    if (status != APR_SUCCESS) {
        return status;
    }
    if ((status = db_mmap_file(env)) != APR_SUCCESS) {
        goto fail;
    }
    if ((status = db_init_meta(env, created)) != APR_SUCCESS) {
        goto fail;
    }
    if ((status = db_init_writer_lock(env)) != APR_SUCCESS) {
        goto fail;
    }
    status = apr_thread_mutex_create(&env->reader_table_mutex, APR_THREAD_MUTEX_DEFAULT, env->pool);
    if (status != APR_SUCCESS) {
        goto fail;
    }
    memset(env->reader_table, 0, sizeof(env->reader_table));
    return APR_SUCCESS;

  fail:
    close_after_failure(env);
    return status;
}
'''))

FF = 'ft_file.c'
FL = 'S01 S02 S03 S04 S05 S08 S10 S11 S12'
N('rf-cleanup', FL, (FF, '@fn:small_filecmp', '''
static apr_status_t map_for_reading(const char *name, apr_off_t size, apr_file_t **fd_out, apr_mmap_t **mm_out, apr_pool_t *pool, int *unmappable)
{
    apr_status_t status = apr_file_open(fd_out, name, APR_READ | APR_BINARY, APR_OS_DEFAULT, pool);

    if (status != APR_SUCCESS) {
        return status;
    }
    status = apr_mmap_create(mm_out, *fd_out, 0, (apr_size_t) size, APR_MMAP_READ, pool);
    if (status != APR_SUCCESS) {
        (void) apr_file_close(*fd_out);
        *unmappable = 1;
    }
    return status;
}

static apr_status_t unmap_and_close(apr_file_t *fd, apr_mmap_t *mm)
{
    apr_status_t status = apr_mmap_delete(mm);
    apr_status_t closed = apr_file_close(fd);

    return status != APR_SUCCESS ? status : closed;
}

static apr_status_t small_filecmp(apr_pool_t *pool, const char *fname1, const char *fname2, apr_off_t size, int *result_out)
{
    apr_file_t *fd1 = NULL;
    apr_file_t *fd2 = NULL;
    apr_mmap_t *mm1 = NULL;
    apr_mmap_t *mm2 = NULL;
    int unmappable = 0;
    apr_status_t status = APR_SUCCESS;
    apr_status_t other = APR_SUCCESS;

    if (size == 0) {
        *result_out = 0;
        return APR_SUCCESS;
    }
    status = map_for_reading(fname1, size, &fd1, &mm1, pool, &unmappable);
    if (status == APR_SUCCESS) {
        status = map_for_reading(fname2, size, &fd2, &mm2, pool, &unmappable);
        if (status != APR_SUCCESS) {
            (void) unmap_and_close(fd1, mm1);
        }
    }
    if (unmappable) {
        return big_filecmp(pool, fname1, fname2, size, result_out);
    }
    if (status != APR_SUCCESS) {
        return status;
    }

    *result_out = memcmp(mm1->mm, mm2->mm, (size_t) size);
    other = unmap_and_close(fd2, mm2);
    status = unmap_and_close(fd1, mm1);
    return other != APR_SUCCESS ? other : status;
}
'''))
N('rf-bigcmp', FL, (FF, '@fn:big_filecmp', '''
static int is_read_error(apr_status_t status)
{
    return status != APR_SUCCESS && status != APR_EOF;
}

static apr_status_t big_filecmp(apr_pool_t *pool, const char *fname1, const char *fname2, apr_off_t size, int *result_out)
{
    unsigned char left[HUGE_LEN];
    unsigned char right[HUGE_LEN];
    apr_size_t left_len = 0;
    apr_size_t right_len = 0;
    apr_file_t *fd1 = NULL;
    apr_file_t *fd2 = NULL;
    apr_status_t status = APR_SUCCESS;
    apr_status_t other = APR_SUCCESS;
    int differ = 0;

    if (size == 0) {
        *result_out = 0;
        return APR_SUCCESS;
    }
    if ((status = apr_file_open(&fd1, fname1, APR_READ | APR_BINARY, APR_OS_DEFAULT, pool)) != APR_SUCCESS) {
        return status;
    }
    if ((status = apr_file_open(&fd2, fname2, APR_READ | APR_BINARY, APR_OS_DEFAULT, pool)) != APR_SUCCESS) {
        (void) apr_file_close(fd1);
        return status;
    }

    for (;;) {
        left_len = HUGE_LEN;
        right_len = HUGE_LEN;
        status = apr_file_read(fd1, left, &left_len);
        other = apr_file_read(fd2, right, &right_len);
        if (is_read_error(status) || is_read_error(other)) {
            break;
        }
        if (status != other) {
            differ = 1;
            break;
        }
        if (status == APR_EOF) {
            break;
        }
        if (left_len != right_len || memcmp(left, right, left_len) != 0) {
            differ = 1;
            break;
        }
    }
    if (is_read_error(status) || is_read_error(other)) {
        (void) apr_file_close(fd1);
        (void) apr_file_close(fd2);
        return is_read_error(status) ? status : other;
    }
    *result_out = differ;

    other = apr_file_close(fd2);
    status = apr_file_close(fd1);
    return other != APR_SUCCESS ? other : status;
}
'''))
N('rf-hash', FL, (FF, '@fn:checksum_big_file', '''
static apr_status_t feed_file(XXH3_state_t *state, apr_file_t *file)
{
    unsigned char block[HUGE_LEN];

    while (1) {
        apr_size_t got = HUGE_LEN;
        apr_status_t status = apr_file_read(file, block, &got);

        if (status == APR_EOF) {
            if (got > 0 && XXH3_128bits_update(state, block, got) == XXH_ERROR) {
                return APR_EGENERAL;
            }
            return APR_SUCCESS;
        }
        if (status != APR_SUCCESS) {
            return status;
        }
        if (XXH3_128bits_update(state, block, got) == XXH_ERROR) {
            return APR_EGENERAL;
        }
    }
}

static apr_status_t checksum_big_file(const char *filename, apr_off_t size, ft_hash_t *hash_out, apr_pool_t *gc_pool)
{
    apr_file_t *file = NULL;
    apr_status_t status = apr_file_open(&file, filename, APR_READ | APR_BINARY, APR_OS_DEFAULT, gc_pool);
    XXH3_state_t *state = NULL;

    (void) size;
    if (status != APR_SUCCESS) {
        return status;
    }
    state = XXH3_createState();
    if (state == NULL) {
        (void) apr_file_close(file);
        return APR_ENOMEM;
    }
    (void) XXH3_128bits_reset(state);
    status = feed_file(state, file);
    if (status == APR_SUCCESS) {
        *hash_out = XXH3_128bits_digest(state);
    }
    XXH3_freeState(state);

    apr_status_t closed = apr_file_close(file);
    return status != APR_SUCCESS ? status : closed;
}
'''), (FF, '@fn:checksum_small_file', '''
static apr_status_t checksum_small_file(const char *filename, apr_off_t size, ft_hash_t *hash_out, apr_pool_t *gc_pool)
{
    apr_file_t *file = NULL;
    apr_mmap_t *map = NULL;
    apr_status_t status = apr_file_open(&file, filename, APR_READ | APR_BINARY, APR_OS_DEFAULT, gc_pool);

    if (status != APR_SUCCESS) {
        return status;
    }
    if (apr_mmap_create(&map, file, 0, (apr_size_t) size, APR_MMAP_READ, gc_pool) != APR_SUCCESS) {
        (void) apr_file_close(file);
        return checksum_big_file(filename, size, hash_out, gc_pool);
    }
    const ft_hash_t value = XXH3_128bits(map->mm, (size_t) size);
    status = apr_mmap_delete(map);
    if (status != APR_SUCCESS) {
        (void) apr_file_close(file);
        return status;
    }
    status = apr_file_close(file);
    if (status == APR_SUCCESS) {
        *hash_out = value;
    }
    return status;
}
'''))

CA = 'napr_cache.c'
KK = 'K01 K02 K03 K04 K05'
N('rk-open', KK, (CA, '@fn:napr_cache_open', '''
static apr_status_t take_cache_lock(napr_cache_t *cache, const char *path)
{
    apr_status_t status = APR_SUCCESS;
    const char *lock_path = apr_pstrcat(cache->pool, path, ".lock", NULL);

    if (!lock_path) {
        return APR_ENOMEM;
    }
    status = apr_file_open(&cache->lock_file_handle, lock_path, APR_FOPEN_READ | APR_FOPEN_WRITE | APR_FOPEN_CREATE, APR_FPROT_UREAD | APR_FPROT_UWRITE, cache->pool);
    if (status != APR_SUCCESS) {
        return status;
    }
    status = apr_file_lock(cache->lock_file_handle, APR_FLOCK_NONBLOCK | APR_FLOCK_EXCLUSIVE);
    if (status != APR_SUCCESS) {
        apr_file_close(cache->lock_file_handle);
        cache->lock_file_handle = NULL;
    }
    return status;
}

static apr_status_t open_cache_db(napr_cache_t *cache, const char *path)
{
    apr_status_t status = napr_db_env_create(&cache->db_env, cache->pool);

    if (status == APR_SUCCESS) {
        status = napr_db_env_set_mapsize(cache->db_env, CACHE_MAPSIZE);
    }
    if (status == APR_SUCCESS) {
        status = napr_db_env_open(cache->db_env, path, NAPR_DB_INTRAPROCESS_LOCK | NAPR_DB_CREATE);
    }
    return status;
}

apr_status_t napr_cache_open(napr_cache_t **cache_ptr, const char *path, apr_pool_t *pool)
{
    apr_status_t status = APR_SUCCESS;
    apr_pool_t *cache_pool = NULL;
    napr_cache_t *cache = NULL;

    if (!cache_ptr || !path || !pool) {
        return APR_EINVAL;
    }
    status = apr_pool_create(&cache_pool, pool);
    if (status != APR_SUCCESS) {
        return status;
    }
    cache = apr_pcalloc(cache_pool, sizeof(*cache));
    if (!cache) {
        apr_pool_destroy(cache_pool);
        return APR_ENOMEM;
    }
    cache->pool = cache_pool;

    status = take_cache_lock(cache, path);
    if (status != APR_SUCCESS) {
        apr_pool_destroy(cache_pool);
        return status;
    }

    status = open_cache_db(cache, path);
    if (status == APR_SUCCESS) {
        status = apr_thread_mutex_create(&cache->visited_mutex, APR_THREAD_MUTEX_DEFAULT, cache_pool);
    }
    if (status == APR_SUCCESS) {
        cache->visited_set = apr_hash_make(cache_pool);
        status = cache->visited_set ? APR_SUCCESS : APR_ENOMEM;
    }
    if (status != APR_SUCCESS) {
        if (cache->db_env) {
            napr_db_env_close(cache->db_env);
        }
        apr_file_unlock(cache->lock_file_handle);
        apr_file_close(cache->lock_file_handle);
        apr_pool_destroy(cache_pool);
        return status;
    }
    *cache_ptr = cache;
    return APR_SUCCESS;
}
'''))
N('rk-close', KK, (CA, '@fn:napr_cache_close', '''
static void keep_first_error(apr_status_t *kept, apr_status_t status)
{
    if (*kept == APR_SUCCESS) {
        *kept = status;
    }
}

apr_status_t napr_cache_close(napr_cache_t *cache)
{
    apr_status_t status = APR_SUCCESS;

    if (!cache) {
        return APR_EINVAL;
    }
    if (cache->db_env != NULL) {
        keep_first_error(&status, napr_db_env_close(cache->db_env));
    }
    if (cache->lock_file_handle != NULL) {
        keep_first_error(&status, apr_file_unlock(cache->lock_file_handle));
        keep_first_error(&status, apr_file_close(cache->lock_file_handle));
    }
    if (cache->pool != NULL) {
        apr_pool_destroy(cache->pool);
    }
    return status;
}
'''))
N('rk-txn', KK, (CA, '@fn:napr_cache_begin_read', '''
static apr_status_t begin_txn(napr_cache_t *cache, const apr_pool_t *pool, unsigned int flags)
{
    if (!cache || !pool || cache->active_txn) {
        return APR_EINVAL;
    }
    return napr_db_txn_begin(cache->db_env, flags, &cache->active_txn);
}

static apr_status_t finish_txn(napr_cache_t *cache, apr_status_t (*finish) (napr_db_txn_t *))
{
    napr_db_txn_t *txn = NULL;

    if (!cache || !cache->active_txn) {
        return APR_EINVAL;
    }
    txn = cache->active_txn;
    cache->active_txn = NULL;
    return finish(txn);
}

apr_status_t napr_cache_begin_read(napr_cache_t *cache, apr_pool_t *pool)
{
    return begin_txn(cache, pool, NAPR_DB_RDONLY);
}
'''), (CA, '@fn:napr_cache_begin_write', '''
apr_status_t napr_cache_begin_write(napr_cache_t *cache, apr_pool_t *pool)
{
    return begin_txn(cache, pool, 0);
}
'''), (CA, '@fn:napr_cache_end_read', '''
apr_status_t napr_cache_end_read(napr_cache_t *cache)
{
    return finish_txn(cache, napr_db_txn_abort);
}
'''), (CA, '@fn:napr_cache_commit_write', '''
apr_status_t napr_cache_commit_write(napr_cache_t *cache)
{
    return finish_txn(cache, napr_db_txn_commit);
}
'''), (CA, '@fn:napr_cache_abort_write', '''
apr_status_t napr_cache_abort_write(napr_cache_t *cache)
{
    return finish_txn(cache, napr_db_txn_abort);
}
'''))
N('rk-lookup', KK, (CA, '@fn:napr_cache_lookup_in_txn', '''
static void path_key(const char *path, napr_db_val_t *key)
{
    key->size = strlen(path);
    key->data = (void *) path;
}

apr_status_t napr_cache_lookup_in_txn(napr_cache_t *cache, const char *path, const napr_cache_entry_t **entry_ptr)
{
    napr_db_val_t key = { 0 };
    napr_db_val_t value = { 0 };
    apr_status_t status = APR_SUCCESS;

    if (!cache || !path || !entry_ptr || !cache->active_txn) {
        return APR_EINVAL;
    }
    *entry_ptr = NULL;
    path_key(path, &key);
    status = napr_db_get(cache->active_txn, &key, &value);
    if (status == APR_SUCCESS) {
        if (value.size == sizeof(**entry_ptr)) {
            *entry_ptr = value.data;
        }
        else {
            status = APR_EGENERAL;
        }
    }
    return status;
}
'''), (CA, '@fn:napr_cache_upsert_in_txn', '''
apr_status_t napr_cache_upsert_in_txn(napr_cache_t *cache, const char *path, const napr_cache_entry_t *entry)
{
    napr_db_val_t key = { 0 };
    napr_db_val_t value = { 0 };
    apr_status_t status = APR_SUCCESS;

    if (!cache || !path || !entry || !cache->active_txn) {
        return APR_EINVAL;
    }
    value.data = (void *) entry;
    value.size = sizeof(*entry);
    path_key(path, &key);
    while ((status = napr_db_put(cache->active_txn, &key, &value)) == APR_EEXIST) {
        status = napr_db_del(cache->active_txn, &key, NULL);
        if (status != APR_SUCCESS) {
            break;
        }
    }
    return status;
}
'''))
N('rk-upsert2', KK, (CA, '@fn:napr_cache_upsert_in_txn', '''
apr_status_t napr_cache_upsert_in_txn(napr_cache_t *cache, const char *path, const napr_cache_entry_t *entry)
{
    napr_db_val_t key = { 0 };
    napr_db_val_t value = { 0 };
    apr_status_t status = APR_SUCCESS;

    if (!cache || !path || !entry || !cache->active_txn) {
        return APR_EINVAL;
    }
    key.data = (void *) path;
    key.size = strlen(path);
    value.data = (void *) entry;
    value.size = sizeof(*entry);
    status = napr_db_put(cache->active_txn, &key, &value);
    if (status != APR_EEXIST) {
        return status;
    }
    status = napr_db_del(cache->active_txn, &key, NULL);
    if (status != APR_SUCCESS) {
        return status;
    }
    return napr_db_put(cache->active_txn, &key, &value);
}
'''))
N('rk-mark', KK, (CA, '@fn:napr_cache_mark_visited', '''
apr_status_t napr_cache_mark_visited(napr_cache_t *cache, const char *path)
{
    apr_status_t status = APR_EINVAL;

    if (cache && path) {
        status = apr_thread_mutex_lock(cache->visited_mutex);
        if (status == APR_SUCCESS) {
            apr_status_t unlocked = APR_SUCCESS;
            char *copy = apr_pstrdup(cache->pool, path);

            if (copy != NULL) {
                apr_hash_set(cache->visited_set, copy, APR_HASH_KEY_STRING, copy);
            }
            else {
                status = APR_ENOMEM;
            }
            unlocked = apr_thread_mutex_unlock(cache->visited_mutex);
            if (status == APR_SUCCESS) {
                status = unlocked;
            }
        }
    }
    return status;
}
'''))
N('rk-sweep', KK, (CA, '@fn:napr_cache_sweep', '''
static apr_status_t delete_unvisited(napr_cache_t *cache, napr_db_cursor_t *cursor)
{
    napr_db_val_t key = { 0 };
    napr_db_val_t data = { 0 };
    apr_status_t status = APR_SUCCESS;

    for (status = napr_db_cursor_get(cursor, &key, &data, NAPR_DB_FIRST); status == APR_SUCCESS; status = napr_db_cursor_get(cursor, &key, &data, NAPR_DB_NEXT)) {
        if (apr_hash_get(cache->visited_set, key.data, (apr_ssize_t) key.size) != NULL) {
            continue;
        }
        status = napr_db_del(cache->active_txn, &key, NULL);
        if (status != APR_SUCCESS) {
            return status == APR_NOTFOUND ? APR_EGENERAL : status;
        }
    }
    return status == APR_NOTFOUND ? APR_SUCCESS : status;
}

apr_status_t napr_cache_sweep(napr_cache_t *cache)
{
    apr_status_t status = APR_SUCCESS;
    apr_pool_t *pool = NULL;
    napr_db_cursor_t *cursor = NULL;

    if (!cache) {
        return APR_EINVAL;
    }
    if ((status = apr_pool_create(&pool, cache->pool)) != APR_SUCCESS) {
        return status;
    }
    status = napr_cache_begin_write(cache, pool);
    if (status != APR_SUCCESS) {
        goto out;
    }
    status = napr_db_cursor_open(cache->active_txn, &cursor);
    if (status == APR_SUCCESS) {
        apr_status_t closed = APR_SUCCESS;

        status = delete_unvisited(cache, cursor);
        closed = napr_db_cursor_close(cursor);
        if (status == APR_SUCCESS) {
            status = closed;
        }
    }
    if (status != APR_SUCCESS) {
        (void) napr_cache_abort_write(cache);
        goto out;
    }
    status = napr_cache_commit_write(cache);
    if (status == APR_SUCCESS) {
        apr_hash_clear(cache->visited_set);
    }
  out:
    apr_pool_destroy(pool);
    return status;
}
'''))

PR, RP, TV, AR = 'ft_process.c', 'ft_report.c', 'ft_traverse.c', 'ft_archive.c'
SC = 'S01 S02 S05 S08 S10 S11 S12 S20'
N('rs-dispatch', SC, (PR, '@fn:hashing_worker_callback', '''
static int is_member(const ft_conf_t *conf, const ft_file_t *file)
{
    return file->subpath != NULL && is_option_set(conf->mask, OPTION_UNTAR);
}

static int group_is_hashed(const ft_conf_t *conf, const ft_fsize_t *fsize)
{
    if (is_option_set(conf->mask, OPTION_JSON)) {
        return fsize->nb_files > 1;
    }
    return fsize->val != 0 && fsize->nb_files > 2;
}

static apr_status_t hash_one(hashing_context_t *h_ctx, ft_chksum_t *place, apr_pool_t *pool)
{
    ft_file_t *file = place->file;
    const int member = is_member(h_ctx->conf, file);
    char *where = member ? ft_archive_untar_file(file, pool) : file->path;
    apr_status_t status = APR_EGENERAL;

    if (where == NULL) {
        return status;
    }
    status = checksum_file(where, file->size, h_ctx->conf->excess_size, &place->hash_value, pool);
    if (member) {
        (void) apr_file_remove(where, pool);
    }
    return status;
}

static apr_status_t hashing_worker_callback(void *ctx, void *data)
{
    char errbuf[ERR_BUF_SIZE] = { 0 };
    hashing_context_t *h_ctx = ctx;
    hashing_task_t *task = data;
    ft_chksum_t *place = task->fsize->chksum_array + task->index;
    const int verbose = is_option_set(h_ctx->conf->mask, OPTION_VERBO);
    apr_pool_t *subpool = NULL;
    apr_status_t status = apr_pool_create(&subpool, h_ctx->pool);

    if (status != APR_SUCCESS) {
        return status;
    }
    status = hash_one(h_ctx, place, subpool);
    if (status != APR_SUCCESS) {
        if (verbose) {
            (void) fprintf(stderr, "\\nskipping %s because: %s\\n", place->file->path, apr_strerror(status, errbuf, ERR_BUF_SIZE));
        }
    }
    else if (apr_thread_mutex_lock(h_ctx->stats_mutex) == APR_SUCCESS) {
        h_ctx->files_processed += 1;
        if (verbose) {
            (void) fprintf(stderr, "\\rProgress [%" APR_SIZE_T_FMT "/%" APR_SIZE_T_FMT "] %d%% ",
                           h_ctx->files_processed, h_ctx->total_files, (int) ((float) h_ctx->files_processed / (float) h_ctx->total_files * 100.0F));
        }
        apr_thread_mutex_unlock(h_ctx->stats_mutex);
    }
    apr_pool_destroy(subpool);
    return status;
}
'''), (PR, '@fn:dispatch_hashing_tasks', '''
static apr_status_t submit_group(napr_threadpool_t *threadpool, ft_fsize_t *fsize, apr_pool_t *gc_pool)
{
    apr_uint32_t pos = 0;

    while (pos < fsize->nb_files) {
        if (fsize->chksum_array[pos].file != NULL) {
            hashing_task_t *task = apr_palloc(gc_pool, sizeof(*task));
            apr_status_t status = APR_SUCCESS;

            task->index = pos;
            task->fsize = fsize;
            status = napr_threadpool_add(threadpool, task);
            if (status != APR_SUCCESS) {
                return status;
            }
        }
        pos++;
    }
    return APR_SUCCESS;
}

static apr_status_t dispatch_hashing_tasks(ft_conf_t *conf, apr_pool_t *gc_pool, apr_size_t total_hash_tasks)
{
    napr_threadpool_t *threadpool = NULL;
    hashing_context_t h_ctx = {.conf = conf,.pool = gc_pool,.files_processed = 0,.total_files = total_hash_tasks };
    napr_hash_index_t *cur = NULL;
    apr_status_t status = apr_thread_mutex_create(&h_ctx.stats_mutex, APR_THREAD_MUTEX_DEFAULT, gc_pool);

    if (status != APR_SUCCESS) {
        return status;
    }
    status = napr_threadpool_init(&threadpool, &h_ctx, conf->num_threads, hashing_worker_callback, gc_pool);
    if (status != APR_SUCCESS) {
        apr_thread_mutex_destroy(h_ctx.stats_mutex);
        return status;
    }
    for (cur = napr_hash_first(gc_pool, conf->sizes); cur != NULL && status == APR_SUCCESS; cur = napr_hash_next(cur)) {
        ft_fsize_t *fsize = NULL;

        napr_hash_this(cur, NULL, NULL, (void **) &fsize);
        if (group_is_hashed(conf, fsize)) {
            status = submit_group(threadpool, fsize, gc_pool);
        }
    }
    napr_threadpool_wait(threadpool);
    if (status == APR_SUCCESS && is_option_set(conf->mask, OPTION_VERBO)) {
        (void) fprintf(stderr, "\\n");
    }
    (void) napr_threadpool_shutdown(threadpool);
    apr_thread_mutex_destroy(h_ctx.stats_mutex);
    return status;
}
'''), (PR, '@fn:collect_hashing_results', '''
static apr_status_t collect_hashing_results(ft_conf_t *conf, napr_heap_t *tmp_heap, apr_pool_t *gc_pool)
{
    napr_hash_index_t *cur = napr_hash_first(gc_pool, conf->sizes);

    while (cur != NULL) {
        ft_fsize_t *fsize = NULL;

        napr_hash_this(cur, NULL, NULL, (void **) &fsize);
        if (group_is_hashed(conf, fsize)) {
            for (apr_uint32_t pos = fsize->nb_files; pos > 0; pos--) {
                ft_file_t *file = fsize->chksum_array[pos - 1].file;
                if (file != NULL) {
                    napr_heap_insert(tmp_heap, file);
                }
            }
        }
        cur = napr_hash_next(cur);
    }
    return APR_SUCCESS;
}
'''), (PR, '@fn:categorize_files', '''
static apr_status_t categorize_files(ft_conf_t *conf, napr_heap_t *tmp_heap, apr_size_t *total_hash_tasks)
{
    ft_file_t *file = NULL;

    for (file = napr_heap_extract(conf->heap); file != NULL; file = napr_heap_extract(conf->heap)) {
        apr_uint32_t hash_value = 0;
        ft_fsize_t *fsize = napr_hash_search(conf->sizes, &file->size, sizeof(apr_off_t), &hash_value);

        if (fsize == NULL) {
            return APR_EGENERAL;
        }
        if (fsize->nb_files == 1) {
            napr_hash_remove(conf->sizes, fsize, hash_value);
            continue;
        }
        if (fsize->chksum_array == NULL) {
            fsize->chksum_array = apr_pcalloc(conf->pool, fsize->nb_files * sizeof(ft_chksum_t));
        }
        ft_chksum_t *place = &fsize->chksum_array[fsize->nb_checksumed++];
        place->file = file;
        if (group_is_hashed(conf, fsize)) {
            ++*total_hash_tasks;
        }
        else {
            memset(&place->hash_value, 0, sizeof(place->hash_value));
            napr_heap_insert(tmp_heap, file);
        }
    }
    return APR_SUCCESS;
}
'''))
N('rs-report', SC, (RP, '@fn:process_and_report_duplicates_for_file', '''
static int same_hash(const ft_chksum_t *left, const ft_chksum_t *right)
{
    return memcmp(&left->hash_value, &right->hash_value, sizeof(left->hash_value)) == 0;
}

static apr_status_t process_and_report_duplicates_for_file(ft_conf_t *conf, ft_fsize_t *fsize, apr_size_t index, const reporting_colors_t *colors)
{
    unsigned char shown = 0;
    apr_size_t other = index;

    if (fsize->chksum_array[index].file == NULL) {
        return APR_SUCCESS;
    }
    while (++other < fsize->nb_files && same_hash(&fsize->chksum_array[index], &fsize->chksum_array[other])) {
        if (fsize->chksum_array[other].file != NULL) {
            apr_status_t status = compare_and_report_pair(conf, fsize, index, other, &shown, colors);
            if (status != APR_SUCCESS) {
                return APR_EGENERAL;
            }
        }
    }
    if (shown) {
        (void) puts("\\n");
    }
    return APR_SUCCESS;
}
'''), (RP, '@fn:compare_and_report_pair', '''
static void show_pair(ft_conf_t *conf, ft_fsize_t *fsize, const ft_file_t *file1, const ft_file_t *file2, unsigned char *already_printed, const reporting_colors_t *colors)
{
    if (*already_printed == 0) {
        *already_printed = 1;
        if (is_option_set(conf->mask, OPTION_SIZED)) {
            printf("%sSize: %s%s\\n", colors->size, format_human_size(fsize->val, conf->pool), colors->reset);
        }
        format_and_print_duplicate(conf, file1, colors);
    }
    (void) putchar(conf->sep);
    format_and_print_duplicate(conf, file2, colors);
}

static apr_status_t compare_and_report_pair(ft_conf_t *conf, ft_fsize_t *fsize, apr_size_t index1, apr_size_t index2, unsigned char *already_printed, const reporting_colors_t *colors)
{
    ft_file_t *first = fsize->chksum_array[index1].file;
    ft_file_t *second = fsize->chksum_array[index2].file;
    char *first_path = NULL;
    char *second_path = NULL;
    int differ = 1;
    apr_status_t status = get_comparison_paths(conf, first, second, &first_path, &second_path);

    if (status != APR_SUCCESS) {
        return APR_EGENERAL;
    }
    status = filecmp(conf->pool, first_path, second_path, fsize->val, conf->excess_size, &differ);
    cleanup_comparison_paths(conf, first, second, first_path, second_path);
    if (status != APR_SUCCESS) {
        if (is_option_set(conf->mask, OPTION_VERBO)) {
            char errbuf[ERR_BUF_SIZE];
            (void) fprintf(stderr, "\\nskipping %s and %s comparison because: %s\\n", first->path, second->path, apr_strerror(status, errbuf, sizeof(errbuf)));
        }
    }
    else if (!differ) {
        if (is_option_set(conf->mask, OPTION_DRY_RUN)) {
            (void) fprintf(stderr, "Dry run: would report %s and %s as duplicates.\\n", first->path, second->path);
        }
        show_pair(conf, fsize, first, second, already_printed, colors);
        (void) fflush(stdout);
        fsize->chksum_array[index2].file = NULL;
    }
    return APR_SUCCESS;
}
'''))
TRV = 'S01 S05 S06 S07 S16 S20'
N('rs-traverse', TRV, (TV, '@fn:traverse_recursive', '''
static int is_ignored(ft_conf_t *conf, ft_ignore_context_t *rules, const char *filename, int is_dir)
{
    if (!conf->respect_gitignore || rules == NULL) {
        return 0;
    }
    return ft_ignore_match(rules, filename, is_dir) == FT_IGNORE_MATCH_IGNORED;
}

static apr_status_t traverse_recursive(ft_conf_t *conf, const char *filename, apr_pool_t *gc_pool, struct stats const *stats, ft_ignore_context_t *parent_ctx)
{
    apr_finfo_t finfo;
    apr_status_t status = get_file_info(filename, &finfo, conf, gc_pool);

    if (status != APR_SUCCESS) {
        return status;
    }

    const int is_dir = finfo.filetype == APR_DIR;
    if (is_ignored(conf, parent_ctx, filename, is_dir) || check_permissions(&finfo, conf) != APR_SUCCESS) {
        return APR_SUCCESS;
    }
    if (!is_dir) {
        int wanted = finfo.filetype == APR_REG;
        if (finfo.filetype == APR_LNK) {
            wanted = is_option_set(conf->mask, OPTION_FSYML);
        }
        return wanted ? process_file(filename, &finfo, conf) : APR_SUCCESS;
    }
    if (!is_ancestor(&finfo, stats)) {
        struct stats self = {.stat = finfo,.parent = stats };
        status = process_directory(filename, conf, gc_pool, &self, parent_ctx);
    }
    return status;
}
'''), (TV, '@fn:is_ancestor', '''
static int is_ancestor(const apr_finfo_t *finfo, const struct stats *ancestors)
{
    if (ancestors == NULL) {
        return 0;
    }
    if (ancestors->stat.device == finfo->device && ancestors->stat.inode == finfo->inode) {
        return 1;
    }
    return is_ancestor(finfo, ancestors->parent);
}
'''))
N('rs-ancestor-while', TRV, (TV, '@fn:is_ancestor', '''
static int is_ancestor(const apr_finfo_t *finfo, const struct stats *ancestors)
{
    const struct stats *cur = ancestors;
    int found = 0;

    while (cur != NULL && !found) {
        found = (cur->stat.device == finfo->device) && (cur->stat.inode == finfo->inode);
        cur = cur->parent;
    }
    return found;
}
'''))
N('rs-directory', TRV, (TV, '@fn:process_directory', '''
static ft_ignore_context_t *rules_for(const char *dirname, ft_conf_t *conf, apr_pool_t *pool, ft_ignore_context_t *inherited)
{
    apr_finfo_t finfo;
    const char *name = NULL;
    ft_ignore_context_t *own = NULL;

    if (!conf->respect_gitignore) {
        return inherited;
    }
    name = apr_pstrcat(pool, dirname, "/.gitignore", NULL);
    if (apr_stat(&finfo, name, APR_FINFO_TYPE, pool) != APR_SUCCESS || finfo.filetype != APR_REG) {
        return inherited;
    }
    own = ft_ignore_context_create(pool, inherited, dirname);
    return ft_ignore_load_file(own, name) == APR_SUCCESS ? own : inherited;
}

static int entry_is_skipped(const apr_finfo_t *entry, ft_conf_t *conf)
{
    if (napr_hash_search(conf->ig_files, entry->name, strlen(entry->name), NULL) != NULL) {
        return 1;
    }
    if (entry->name[0] == '.' && !is_option_set(conf->mask, OPTION_SHOW_HIDDEN)) {
        return 1;
    }
    return entry->filetype == APR_DIR && !is_option_set(conf->mask, OPTION_RECSD);
}

static apr_status_t process_directory(const char *filename, ft_conf_t *conf, apr_pool_t *gc_pool, const struct stats *stats, ft_ignore_context_t *parent_ctx)
{
    apr_dir_t *dir = NULL;
    apr_finfo_t finfo;
    const char *glue = NULL;
    ft_ignore_context_t *rules = NULL;
    apr_status_t status = apr_dir_open(&dir, filename, gc_pool);

    if (status != APR_SUCCESS) {
        return status;
    }
    rules = rules_for(filename, conf, gc_pool, parent_ctx);
    glue = filename[strlen(filename) - 1] == '/' ? "" : "/";
    while (status == APR_SUCCESS) {
        if (apr_dir_read(&finfo, APR_FINFO_TYPE | APR_FINFO_NAME, dir) != APR_SUCCESS || finfo.name == NULL) {
            break;
        }
        if (!entry_is_skipped(&finfo, conf)) {
            char *fullname = apr_pstrcat(gc_pool, filename, glue, finfo.name, NULL);
            status = process_directory_entry(fullname, &finfo, conf, gc_pool, stats, rules);
        }
    }
    apr_dir_close(dir);
    return status;
}
'''))
N('rs-file', TRV, (TV, '@fn:process_file', '''
static int size_selected(const ft_conf_t *conf, apr_off_t size)
{
    if (size < conf->minsize) {
        return 0;
    }
    return conf->maxsize == 0 || size <= conf->maxsize;
}

static int is_preferred(const ft_conf_t *conf, const char *filename)
{
    if (!conf->p_path || strlen(filename) < conf->p_path_len) {
        return 0;
    }
    if (is_option_set(conf->mask, OPTION_ICASE)) {
        return strncasecmp(filename, conf->p_path, conf->p_path_len) == 0;
    }
    return memcmp(filename, conf->p_path, conf->p_path_len) == 0;
}

static apr_status_t process_file(const char *filename, const apr_finfo_t *finfo, ft_conf_t *conf)
{
    apr_uint32_t hash_value = 0;
    ft_file_t *file = NULL;
    ft_fsize_t *group = NULL;

    if (!size_selected(conf, finfo->size)) {
        return APR_SUCCESS;
    }
    group = napr_hash_search(conf->sizes, &finfo->size, sizeof(finfo->size), &hash_value);
    if (group == NULL) {
        group = apr_pcalloc(conf->pool, sizeof(*group));
        group->val = finfo->size;
        napr_hash_set(conf->sizes, group, hash_value);
    }
    group->nb_files += 1;

    file = apr_pcalloc(conf->pool, sizeof(*file));
    file->prioritized = is_preferred(conf, filename);
    file->mtime = finfo->mtime;
    file->size = finfo->size;
    file->path = apr_pstrdup(conf->pool, filename);
    napr_heap_insert(conf->heap, file);
    return APR_SUCCESS;
}
'''), (TV, '@fn:check_permissions', '''
static int may_read(apr_int32_t wanted, const apr_finfo_t *finfo)
{
    return (finfo->protection & wanted) != 0;
}

static apr_status_t check_permissions(const apr_finfo_t *finfo, ft_conf_t *conf)
{
    const int is_dir = finfo->filetype == APR_DIR;
    int allowed = 0;

    if (conf->userid == 0) {
        return APR_SUCCESS;
    }
    if (finfo->user == conf->userid) {
        allowed = may_read(is_dir ? APR_UEXECUTE : APR_UREAD, finfo);
    }
    else {
        apr_uint32_t hash_value = 0;
        if (napr_hash_search(conf->gids, &finfo->group, sizeof(gid_t), &hash_value)) {
            allowed = may_read(is_dir ? APR_GEXECUTE : APR_GREAD, finfo);
        }
        else {
            allowed = may_read(is_dir ? APR_WEXECUTE : APR_WREAD, finfo);
        }
    }
    return allowed ? APR_SUCCESS : APR_EACCES;
}
'''))
N('rs-archive', 'S01 S10 S22', (AR, '@fn:ft_archive_untar_file', '''
static char *new_tmpfile(apr_pool_t *pool)
{
    char *name = apr_pstrdup(pool, "/tmp/ftwinXXXXXX");
    const mode_t saved = umask(S_IRWXG | S_IRWXO);
    const int handle = mkstemp(name);

    umask(saved);
    if (handle < 0) {
        return NULL;
    }
    close(handle);
    return name;
}

static char *extract_current(struct archive *from, struct archive *to, struct archive_entry *entry, apr_pool_t *pool)
{
    char *name = new_tmpfile(pool);

    if (name == NULL) {
        return NULL;
    }
    archive_entry_copy_pathname(entry, name);
    if (archive_write_header(to, entry) == ARCHIVE_OK && copy_data(from, to) == ARCHIVE_OK) {
        return name;
    }
    (void) apr_file_remove(name, pool);
    return NULL;
}

char *ft_archive_untar_file(ft_file_t *file, apr_pool_t *pool)
{
    struct archive *reader = archive_read_new();
    struct archive *writer = NULL;
    char *tmpfile = NULL;

    if (reader == NULL) {
        return NULL;
    }
    if (archive_read_support_filter_all(reader) != 0 || archive_read_support_format_all(reader) != 0) {
        goto out;
    }
    if (archive_read_open_filename(reader, file->path, ARCHIVE_BLOCK_SIZE) != 0) {
        goto out;
    }
    writer = archive_write_disk_new();
    if (writer == NULL) {
        goto out;
    }
    struct archive_entry *entry = NULL;
    while (archive_read_next_header(reader, &entry) == ARCHIVE_OK) {
        if (strcmp(archive_entry_pathname(entry), file->subpath) == 0) {
            tmpfile = extract_current(reader, writer, entry, pool);
            break;
        }
    }
  out:
    if (writer != NULL) {
        archive_write_free(writer);
    }
    archive_read_free(reader);
    return tmpfile;
}
'''), (AR, '@fn:copy_data', '''
static int copy_data(struct archive *archive_read, struct archive *archive_write)
{
    const void *block = NULL;
    size_t size = 0;
    off_t offset = 0;
    int result = ARCHIVE_OK;

    while ((result = archive_read_data_block(archive_read, &block, &size, &offset)) == ARCHIVE_OK) {
        const int written = (int) archive_write_data_block(archive_write, block, size, offset);
        if (written != ARCHIVE_OK) {
            return written;
        }
    }
    return result == ARCHIVE_EOF ? ARCHIVE_OK : result;
}
'''))
