"""Behaviour-preserving rewrites of whole functions, second part: containers, worker pool, image mode, options, ignore rules, JSON."""
import sys
_m = sys.modules.get('mutants') or sys.modules['__main__']
N = _m.N
HA, HE, TP = 'napr_hash.c', 'napr_heap.c', 'napr_threadpool.c'

N('rh-search', 'S17', (HA, '@fn:napr_hash_search', '''
static int holds_key(napr_hash_t *hash, void *datum, const void *key, apr_size_t key_len)
{
    return hash->get_key_len(datum) == key_len && hash->key_cmp(key, hash->get_key(datum), key_len) == 0;
}

extern void *napr_hash_search(napr_hash_t *hash, const void *key, apr_size_t key_len, apr_uint32_t *hash_value)
{
    const apr_uint32_t code = hash->hash(key, key_len);
    const apr_size_t slot = code & hash->mask;
    void **candidate = hash->table[slot];
    void **end = candidate + hash->filling_table[slot];

    if (hash_value != NULL) {
        *hash_value = code;
    }
    while (candidate != end) {
        if (holds_key(hash, *candidate, key, key_len)) {
            return *candidate;
        }
        candidate++;
    }
    return NULL;
}
'''))
N('rh-remove', 'S17', (HA, '@fn:napr_hash_remove', '''
extern void napr_hash_remove(napr_hash_t *hash, void *data, apr_uint32_t hash_value)
{
    const apr_size_t slot = hash_value & hash->mask;
    const void *key = hash->get_key(data);
    const apr_size_t key_len = hash->get_key_len(data);
    void **cells = hash->table[slot];
    apr_size_t last = hash->filling_table[slot];
    apr_size_t pos = 0;

    if (last == 0) {
        DEBUG_DBG("try to remove something that is not here");
        return;
    }
    last--;
    while (pos <= last && !(hash->get_key_len(cells[pos]) == key_len && hash->key_cmp(key, hash->get_key(cells[pos]), key_len) == 0)) {
        pos++;
    }
    if (pos > last) {
        return;
    }
    cells[pos] = cells[last];
    cells[last] = NULL;
    hash->filling_table[slot] = last;
    hash->nel -= 1;
}
'''))
N('rh-set', 'S17', (HA, '@fn:napr_hash_set', '''
extern apr_status_t napr_hash_set(napr_hash_t *hash, void *data, apr_uint32_t hash_value)
{
    const apr_size_t slot = hash_value & hash->mask;
    apr_size_t *filling = &hash->filling_table[slot];
    apr_status_t status = APR_SUCCESS;

    if (hash->table[slot] == NULL) {
        hash->table[slot] = (void **) apr_pcalloc(hash->own_pool, hash->ffactor * sizeof(void *));
    }
    hash->table[slot][(*filling)++] = data;
    hash->nel += 1;

    if (*filling < hash->ffactor) {
        return APR_SUCCESS;
    }
    status = napr_hash_rebuild(hash);
    if (status != APR_SUCCESS) {
        char errbuf[ERR_BUF_SIZE];
        DEBUG_ERR("error calling napr_hash_rebuild: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
    }
    return status;
}
'''))
N('rh-rebuild', 'S17', (HA, '@fn:napr_hash_rebuild', '''
static apr_status_t napr_hash_rebuild(napr_hash_t *hash)
{
    apr_pool_t *outdated = hash->own_pool;
    apr_size_t bucket = hash->size;
    napr_hash_t *bigger = napr_hash_make(hash->pool, hashsize(hash->power + 1), hash->ffactor, hash->get_key, hash->get_key_len, hash->key_cmp, hash->hash);

    if (bigger == NULL) {
        return APR_EGENERAL;
    }
    while (bucket-- > 0) {
        apr_size_t left = hash->filling_table[bucket];
        void **datum = hash->table[bucket];

        for (; left > 0; left--, datum++) {
            const void *key = hash->get_key(*datum);
            apr_status_t status = napr_hash_set(bigger, *datum, hash->hash(key, hash->get_key_len(*datum)));
            if (status != APR_SUCCESS) {
                return status;
            }
        }
    }
    hash->own_pool = bigger->own_pool;
    hash->power = bigger->power;
    hash->mask = bigger->mask;
    hash->size = bigger->size;
    hash->nel = bigger->nel;
    hash->filling_table = bigger->filling_table;
    hash->table = bigger->table;
    apr_pool_destroy(outdated);
    return APR_SUCCESS;
}
'''))
N('rh-next', 'S17', (HA, '@fn:napr_hash_next', '''
napr_hash_index_t *napr_hash_next(napr_hash_index_t *index)
{
    const napr_hash_t *hash = index->hash;

    if (index->element + 1 < hash->filling_table[index->bucket]) {
        index->element++;
        return index;
    }
    index->element = 0;
    while (++index->bucket < hash->size) {
        if (hash->filling_table[index->bucket] > 0) {
            return index;
        }
    }
    return NULL;
}
'''), (HA, '@fn:napr_hash_this', '''
void napr_hash_this(napr_hash_index_t *hash_index, const void **key, apr_size_t *klen, void **val)
{
    napr_hash_t *hash = hash_index->hash;
    void *datum = hash->table[hash_index->bucket][hash_index->element];

    if (val != NULL) {
        *val = datum;
    }
    if (key != NULL) {
        *key = hash->get_key(datum);
    }
    if (klen != NULL) {
        *klen = hash->get_key_len(datum);
    }
}
'''))
N('rh-first', 'S17', (HA, '@fn:napr_hash_first', '''
napr_hash_index_t *napr_hash_first(apr_pool_t *pool, napr_hash_t *hash)
{
    napr_hash_index_t *cursor = apr_pcalloc(pool, sizeof(*cursor));

    cursor->hash = hash;
    while (cursor->bucket < hash->size && hash->filling_table[cursor->bucket] == 0) {
        cursor->bucket++;
    }
    return cursor->bucket < hash->size ? cursor : NULL;
}
'''))
N('rh-make', 'S17', (HA, '@fn:napr_hash_make_ex', '''
static int alloc_tables(napr_hash_t *hash)
{
    hash->table = (void ***) apr_pcalloc(hash->own_pool, hash->size * sizeof(void **));
    hash->filling_table = apr_pcalloc(hash->own_pool, hash->size * sizeof(apr_size_t));
    return hash->table != NULL && hash->filling_table != NULL;
}

napr_hash_t *napr_hash_make_ex(napr_hash_create_args_t * args)
{
    napr_hash_t *result = apr_pcalloc(args->pool, sizeof(*result));
    unsigned char power = 0;

    if (result == NULL) {
        return NULL;
    }
    for (power = 0; hashsize(power) < args->nel; ++power) {
        ;
    }
    result->power = power;
    result->size = hashsize(power);
    result->mask = hashmask(power);
    result->ffactor = args->ffactor;
    result->pool = args->pool;
    result->hash = args->hash;
    result->key_cmp = args->key_cmp;
    result->get_key_len = args->get_key_len;
    result->get_key = args->get_key;

    if (apr_pool_create(&result->own_pool, args->pool) != APR_SUCCESS || !alloc_tables(result)) {
        DEBUG_ERR("allocation error");
        return NULL;
    }
    return result;
}
'''))

# ---------------------------------------------------------------- heap
N('rp-insert', 'S18', (HE, '@fn:napr_heap_insert', '''
static int grow(napr_heap_t *heap)
{
    unsigned int wanted = 1;
    void **bigger = NULL;

    while (wanted <= heap->max) {
        wanted <<= 1;
    }
    bigger = (void **) apr_pcalloc(heap->pool, wanted * sizeof(void *));
    if (bigger == NULL) {
        heap->tree = NULL;
        DEBUG_ERR("allocation failed");
        return -1;
    }
    memcpy((void *) bigger, (const void *) heap->tree, heap->count * sizeof(void *));
    heap->max = wanted;
    heap->tree = bigger;
    return 0;
}

int napr_heap_insert(napr_heap_t *heap, void *datum)
{
    unsigned int pos = heap->count;

    if (heap->count >= heap->max && grow(heap) != 0) {
        return -1;
    }
    heap->count = pos + 1;
    while (pos > 0) {
        const unsigned int parent = napr_heap_parent(pos);

        if (heap->cmp(heap->tree[parent], datum) >= 0) {
            break;
        }
        heap->tree[pos] = heap->tree[parent];
        pos = parent;
    }
    heap->tree[pos] = datum;
    return 0;
}
'''))
N('rp-extract', 'S18', (HE, '@fn:napr_heap_extract', '''
static unsigned int larger_child(const napr_heap_t *heap, unsigned int pos)
{
    unsigned int best = pos;
    const unsigned int left = napr_heap_left(pos);
    const unsigned int right = napr_heap_right(pos);

    if (left < heap->count && heap->cmp(heap->tree[left], heap->tree[best]) > 0) {
        best = left;
    }
    if (right < heap->count && heap->cmp(heap->tree[right], heap->tree[best]) > 0) {
        best = right;
    }
    return best;
}

void *napr_heap_extract(napr_heap_t *heap)
{
    void *top = NULL;
    unsigned int pos = 0;
    unsigned int child = 0;

    if (heap->count == 0 || heap->tree == NULL) {
        return NULL;
    }
    top = heap->tree[0];
    heap->count--;
    heap->tree[0] = heap->tree[heap->count];
    heap->tree[heap->count] = NULL;

    for (pos = 0; (child = larger_child(heap, pos)) != pos; pos = child) {
        void *moved = heap->tree[pos];
        heap->tree[pos] = heap->tree[child];
        heap->tree[child] = moved;
    }
    return top;
}
'''))
N('rp-extract-hole', 'S18', (HE, '@fn:napr_heap_extract', '''
void *napr_heap_extract(napr_heap_t *heap)
{
    void *top = NULL;
    void *last = NULL;
    unsigned int hole = 0;
    unsigned int child = 1;

    if (NULL == heap->tree || 0 == heap->count) {
        return NULL;
    }
    top = heap->tree[0];
    last = heap->tree[--heap->count];
    heap->tree[heap->count] = NULL;
    if (0 == heap->count) {
        return top;
    }
    while (child < heap->count) {
        if (child + 1 < heap->count && heap->cmp(heap->tree[child + 1], heap->tree[child]) > 0) {
            child++;
        }
        if (heap->cmp(heap->tree[child], last) <= 0) {
            break;
        }
        heap->tree[hole] = heap->tree[child];
        hole = child;
        child = napr_heap_left(hole);
    }
    heap->tree[hole] = last;
    return top;
}
'''))
N('rp-insert-r', 'S18 S12', (HE, '@fn:napr_heap_insert_r', '''
int napr_heap_insert_r(napr_heap_t *heap, void *datum)
{
    int inserted = 0;
    apr_status_t unlocked = APR_SUCCESS;
    apr_status_t locked = APR_SUCCESS;

    if (heap->mutex_set != 1) {
        return -1;
    }
    locked = apr_thread_mutex_lock(heap->mutex);
    if (locked != APR_SUCCESS) {
        DEBUG_ERR("locking failed");
        return locked;
    }
    inserted = napr_heap_insert(heap, datum);
    unlocked = apr_thread_mutex_unlock(heap->mutex);
    return inserted != 0 ? inserted : unlocked;
}
'''))

# ---------------------------------------------------------------- worker pool
POOL = 'S13 S21'
N('rw-wait', POOL, (TP, '@fn:napr_threadpool_wait', '''
static int all_done(napr_threadpool_t *threadpool)
{
    return napr_list_size(threadpool->list) == 0 && threadpool->nb_waiting == threadpool->nb_thread;
}

extern apr_status_t napr_threadpool_wait(napr_threadpool_t *threadpool)
{
    char errbuf[ERR_BUF_SIZE] = { 0 };
    apr_status_t status = apr_thread_mutex_lock(threadpool->threadpool_mutex);

    if (APR_SUCCESS != status) {
        DEBUG_ERR("error calling apr_thread_mutex_lock: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
        return status;
    }
    if (!all_done(threadpool)) {
        threadpool->run = 1;
        while (APR_SUCCESS == status && !threadpool->ended) {
            status = apr_thread_cond_wait(threadpool->threadpool_update, threadpool->threadpool_mutex);
        }
        threadpool->run = 0;
        if (APR_SUCCESS != status) {
            DEBUG_ERR("error calling apr_thread_cond_wait: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
            (void) apr_thread_mutex_unlock(threadpool->threadpool_mutex);
            return status;
        }
    }
    napr_list_delete(threadpool->list);
    threadpool->list = napr_list_make(threadpool->pool);
    status = apr_thread_mutex_unlock(threadpool->threadpool_mutex);
    if (APR_SUCCESS != status) {
        DEBUG_ERR("error calling apr_thread_mutex_unlock: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
    }
    return status;
}
'''))
N('rw-add', POOL, (TP, '@fn:napr_threadpool_add', '''
extern apr_status_t napr_threadpool_add(napr_threadpool_t *threadpool, void *data)
{
    apr_status_t status = apr_thread_mutex_lock(threadpool->threadpool_mutex);

    if (APR_SUCCESS == status) {
        napr_list_enqueue(threadpool->list, data);
        threadpool->ended = 0;
        status = apr_thread_mutex_unlock(threadpool->threadpool_mutex);
        if (APR_SUCCESS == status) {
            status = apr_thread_cond_signal(threadpool->threadpool_update);
        }
    }
    if (APR_SUCCESS != status) {
        char errbuf[ERR_BUF_SIZE] = { 0 };
        DEBUG_ERR("error adding a task: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
    }
    return status;
}
'''))
N('rw-add-inside', POOL, (TP, '@fn:napr_threadpool_add', '''
extern apr_status_t napr_threadpool_add(napr_threadpool_t *threadpool, void *data)
{
    apr_status_t signalled = APR_SUCCESS;
    apr_status_t status = apr_thread_mutex_lock(threadpool->threadpool_mutex);

    if (APR_SUCCESS != status) {
        return status;
    }
    napr_list_enqueue(threadpool->list, data);
    threadpool->ended = 0;
    signalled = apr_thread_cond_signal(threadpool->threadpool_update);
    status = apr_thread_mutex_unlock(threadpool->threadpool_mutex);
    return APR_SUCCESS != status ? status : signalled;
}
'''))
N('rw-task', POOL, (TP, '@fn:process_task', '''
static void *take_first(napr_list_t *list)
{
    void *data = napr_list_get(napr_list_first(list));

    napr_list_cdr(list);
    return data;
}

static apr_status_t process_task(napr_threadpool_t *threadpool)
{
    char errbuf[ERR_BUF_SIZE] = { 0 };
    apr_status_t status = APR_SUCCESS;
    void *data = take_first(threadpool->list);

    if (NULL == data) {
        return APR_SUCCESS;
    }
    status = apr_thread_mutex_unlock(threadpool->threadpool_mutex);
    if (APR_SUCCESS == status) {
        threadpool->process_data(threadpool->ctx, data);
        status = apr_thread_mutex_lock(threadpool->threadpool_mutex);
    }
    if (APR_SUCCESS != status) {
        DEBUG_ERR("error handling the mutex: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
    }
    return status;
}
'''))
N('rw-waitfor', POOL, (TP, '@fn:wait_for_task', '''
static apr_status_t announce_end(napr_threadpool_t *threadpool)
{
    if (threadpool->ended || !threadpool->run || threadpool->nb_waiting != threadpool->nb_thread) {
        return APR_SUCCESS;
    }
    threadpool->ended = 1;
    return apr_thread_cond_broadcast(threadpool->threadpool_update);
}

static apr_status_t wait_for_task(napr_threadpool_t *threadpool)
{
    char errbuf[ERR_BUF_SIZE] = { 0 };
    apr_status_t status = APR_SUCCESS;

    threadpool->nb_waiting += 1;
    status = announce_end(threadpool);
    if (APR_SUCCESS == status) {
        status = apr_thread_cond_wait(threadpool->threadpool_update, threadpool->threadpool_mutex);
    }
    if (APR_SUCCESS != status) {
        DEBUG_ERR("error waiting: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
        return status;
    }
    threadpool->nb_waiting -= 1;
    return APR_SUCCESS;
}
'''))
N('rw-init', POOL, (TP, '@fn:napr_threadpool_init', '''
extern apr_status_t napr_threadpool_init(napr_threadpool_t **threadpool, void *ctx, unsigned long nb_thread, threadpool_process_data_callback_fn_t *process_data, apr_pool_t *pool)
{
    char errbuf[ERR_BUF_SIZE] = { 0 };
    napr_threadpool_t *created = NULL;
    apr_pool_t *own_pool = NULL;
    apr_status_t status = APR_SUCCESS;

    apr_pool_create(&own_pool, pool);
    created = apr_pcalloc(own_pool, sizeof(*created));
    *threadpool = created;
    created->pool = own_pool;
    created->ctx = ctx;
    created->process_data = process_data;
    created->list = napr_list_make(own_pool);
    created->thread = (apr_thread_t **) apr_palloc(own_pool, nb_thread * sizeof(apr_thread_t *));

    status = apr_thread_mutex_create(&created->threadpool_mutex, APR_THREAD_MUTEX_DEFAULT, own_pool);
    if (APR_SUCCESS == status) {
        status = apr_thread_cond_create(&created->threadpool_update, own_pool);
    }
    if (APR_SUCCESS != status) {
        DEBUG_ERR("error creating the pool: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
        return status;
    }
    created->nb_thread = nb_thread;

    unsigned long started = 0;
    while (started < nb_thread) {
        status = apr_thread_create(&created->thread[started], NULL, napr_threadpool_loop, created, own_pool);
        if (APR_SUCCESS != status) {
            DEBUG_ERR("error calling apr_thread_create: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
            created->nb_thread = started;
            (void) napr_threadpool_shutdown(created);
            break;
        }
        started++;
    }
    return status;
}
'''))

# ---------------------------------------------------------------- image mode
IMG, RJ = 'ft_image.c', 'ft_report_json.c'
IM = 'S19 S12 S23'
N('ri-task', IM, (IMG, '@fn:compute_vector', '''
static void note_progress(compute_vector_ctx_t *shared)
{
    if (is_option_set(shared->conf->mask, OPTION_VERBO)) {
        (void) fprintf(stderr, "\\rProgress [%u/%u] %d%% ", shared->nb_processed, shared->heap_size, (int) ((float) shared->nb_processed / (float) shared->heap_size * 100.0F));
    }
    shared->nb_processed++;
}

static apr_status_t compute_vector(void *context, void *task_data)
{
    compute_vector_ctx_t *shared = context;
    ft_file_t *picture = ((compute_vector_task_t *) task_data)->file;
    char errbuf[ERR_BUF_SIZE] = { 0 };
    apr_status_t status = APR_SUCCESS;

    puzzle_init_cvec(shared->contextp, &picture->cvec);
    if (puzzle_fill_cvec_from_file(shared->contextp, &picture->cvec, picture->path) != 0) {
        DEBUG_ERR("error calling puzzle_fill_cvec_from_file, ignoring file: %s", picture->path);
    }
    else {
        picture->cvec_ok = 1;
    }
    status = apr_thread_mutex_lock(shared->mutex);
    if (status == APR_SUCCESS) {
        note_progress(shared);
        status = apr_thread_mutex_unlock(shared->mutex);
    }
    if (status != APR_SUCCESS) {
        DEBUG_ERR("error with the mutex: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
    }
    return status;
}
'''))
N('ri-compute', IM, (IMG, '@fn:compute_image_vectors', '''
static apr_status_t submit_all(ft_conf_t *conf, napr_threadpool_t *threadpool, compute_vector_ctx_t *shared)
{
    apr_status_t status = APR_SUCCESS;
    compute_vector_task_t *tasks = apr_pcalloc(conf->pool, (shared->heap_size + 1) * sizeof(*tasks));

    for (unsigned int idx = 0; idx < shared->heap_size && status == APR_SUCCESS; idx++) {
        tasks[idx].cv_ctx = shared;
        tasks[idx].file = napr_heap_get_nth(conf->heap, idx);
        status = napr_threadpool_add(threadpool, &tasks[idx]);
    }
    return status;
}

static apr_status_t compute_image_vectors(ft_conf_t *conf, PuzzleContext * context)
{
    apr_status_t status = APR_SUCCESS;
    apr_status_t stopped = APR_SUCCESS;
    napr_threadpool_t *threadpool = NULL;
    compute_vector_ctx_t shared = {.contextp = context,.conf = conf,.heap_size = napr_heap_size(conf->heap) };

    status = apr_thread_mutex_create(&shared.mutex, APR_THREAD_MUTEX_DEFAULT, conf->pool);
    if (status != APR_SUCCESS) {
        return status;
    }
    status = napr_threadpool_init(&threadpool, &shared, NB_WORKER, compute_vector, conf->pool);
    if (status != APR_SUCCESS) {
        return status;
    }
    status = submit_all(conf, threadpool, &shared);
    napr_threadpool_wait(threadpool);
    stopped = napr_threadpool_shutdown(threadpool);
    if (status == APR_SUCCESS) {
        status = stopped;
    }
    if (status != APR_SUCCESS) {
        return status;
    }
    status = apr_thread_mutex_destroy(shared.mutex);
    if (status == APR_SUCCESS && is_option_set(conf->mask, OPTION_VERBO)) {
        (void) fprintf(stderr, "\\rProgress [%u/%u] %d%% \\n", shared.heap_size, shared.heap_size, MAX_PERCENTAGE);
    }
    return status;
}
'''))
N('ri-compare', IM, (IMG, '@fn:compare_image_vectors', '''
static int is_similar(ft_conf_t *conf, PuzzleContext * context, ft_file_t *one, ft_file_t *other)
{
    return puzzle_vector_normalized_distance(context, &one->cvec, &other->cvec, FIX_FOR_CLUSTERING) < conf->threshold;
}

static void compare_image_vectors(ft_conf_t *conf, PuzzleContext * context)
{
    const int verbose = is_option_set(conf->mask, OPTION_VERBO);
    const unsigned long total = napr_heap_size(conf->heap) * (napr_heap_size(conf->heap) - 1) / 2;
    unsigned long done = 0;
    ft_file_t *picture = napr_heap_extract(conf->heap);

    for (; picture != NULL; picture = napr_heap_extract(conf->heap)) {
        const unsigned int left = napr_heap_size(conf->heap);
        unsigned int similar = 0;
        unsigned int idx = 0;

        if ((picture->cvec_ok & 0x1) == 0) {
            continue;
        }
        while (idx < left) {
            ft_file_t *other = napr_heap_get_nth(conf->heap, idx++);

            if ((other->cvec_ok & 0x1) == 0) {
                continue;
            }
            if (is_similar(conf, context, picture, other)) {
                if (similar++ == 0) {
                    (void) fputs(picture->path, stdout);
                }
                (void) printf("%c%s", conf->sep, other->path);
            }
            if (verbose) {
                (void) fprintf(stderr, "\\rCompare progress [%10lu/%10lu] %02.2f%% ", done, total, (double) ((double) done / (double) total * 100.0F));
            }
            done++;
        }
        if (similar > 0) {
            (void) fputs("\\n\\n", stdout);
        }
        puzzle_free_cvec(context, &picture->cvec);
    }
    if (verbose) {
        (void) fprintf(stderr, "\\rCompare progress [%10lu/%10lu] %02.2f%% \\n", done, total, 100.0);
    }
    (void) fflush(stdout);
}
'''))
N('ri-report', IM, (IMG, '@fn:ft_image_twin_report', '''
apr_status_t ft_image_twin_report(ft_conf_t *conf)
{
    PuzzleContext context;
    apr_status_t status = APR_SUCCESS;

    initialize_puzzle_context(&context);
    status = compute_image_vectors(conf, &context);
    if (status == APR_SUCCESS) {
        compare_image_vectors(conf, &context);
    }
    puzzle_free_context(&context);
    return status;
}
'''))

# ---------------------------------------------------------------- JSON report
JS = 'S02 S05 S08 S09 S10 S23'
N('rj-pairs', JS, (RJ, '@fn:find_and_report_duplicates', '''
static int same_hash(const ft_chksum_t *one, const ft_chksum_t *other)
{
    return memcmp(&one->hash_value, &other->hash_value, sizeof(ft_hash_t)) == 0;
}

static apr_status_t collect_twins(ft_conf_t *conf, ft_fsize_t *fsize, size_t first, json_t **set)
{
    ft_chksum_t *head = &fsize->chksum_array[first];

    for (size_t other = first + 1; other < fsize->nb_files && same_hash(head, &fsize->chksum_array[other]); other++) {
        ft_chksum_t *candidate = &fsize->chksum_array[other];
        int differs = 0;
        apr_status_t status = APR_SUCCESS;

        if (candidate->file == NULL) {
            continue;
        }
        status = perform_file_comparison(conf, head, candidate, fsize->val, &differs);
        if (status != APR_SUCCESS) {
            return status;
        }
        if (differs) {
            continue;
        }
        if (*set == NULL) {
            *set = create_duplicate_set_json(conf, head, fsize->val);
        }
        json_array_append_new(json_object_get(*set, "duplicates"), create_file_json_object(candidate->file, conf));
        candidate->file = NULL;
    }
    return APR_SUCCESS;
}

static apr_status_t find_and_report_duplicates(ft_conf_t *conf, ft_fsize_t *fsize, json_t *root_array)
{
    for (size_t first = 0; first < fsize->nb_files; first++) {
        json_t *set = NULL;

        if (fsize->chksum_array[first].file != NULL) {
            apr_status_t status = collect_twins(conf, fsize, first, &set);
            if (status != APR_SUCCESS) {
                return status;
            }
        }
        if (set != NULL) {
            json_array_append_new(root_array, set);
        }
    }
    return APR_SUCCESS;
}
'''))
N('rj-main', JS, (RJ, '@fn:ft_report_json', '''
static apr_status_t write_document(json_t *document)
{
    apr_status_t status = APR_SUCCESS;

    if (json_dumpf(document, stdout, JSON_INDENT(2) | JSON_ENSURE_ASCII) != 0) {
        (void) fprintf(stderr, "Error: failed to write JSON to stdout.\\n");
        status = APR_EGENERAL;
    }
    (void) putchar('\\n');
    if (fflush(stdout) == 0) {
        return status;
    }
    perror("Error flushing stdout");
    return APR_EGENERAL;
}

apr_status_t ft_report_json(ft_conf_t *conf)
{
    apr_status_t status = APR_SUCCESS;
    apr_off_t last_size = -1;
    json_t *document = json_array();

    if (document == NULL) {
        return APR_ENOMEM;
    }
    for (;;) {
        ft_file_t *file = napr_heap_extract(conf->heap);

        if (file == NULL) {
            status = write_document(document);
            break;
        }
        status = process_file_group(conf, file, document, &last_size);
        if (status != APR_SUCCESS) {
            break;
        }
    }
    json_decref(document);
    return status;
}
'''))
N('rj-cmp', JS, (RJ, '@fn:perform_file_comparison', '''
static void tell_skipped(ft_conf_t *conf, const ft_file_t *file1, const ft_file_t *file2, apr_status_t reason)
{
    char errbuf[ERR_BUF_SIZE];

    if (is_option_set(conf->mask, OPTION_VERBO)) {
        (void) fprintf(stderr, "\\nskipping %s and %s comparison because: %s\\n", file1->path, file2->path, apr_strerror(reason, errbuf, sizeof(errbuf)));
    }
}

static apr_status_t perform_file_comparison(ft_conf_t *conf, ft_chksum_t *chksum1, ft_chksum_t *chksum2, apr_off_t file_size, int *result)
{
    char *paths[2] = { NULL, NULL };
    int outcome = 1;
    apr_status_t status = get_comparison_paths(conf, chksum1->file, chksum2->file, &paths[0], &paths[1]);

    if (status != APR_SUCCESS) {
        DEBUG_ERR("Failed to get comparison paths for %s and %s", chksum1->file->path, chksum2->file->path);
        return APR_EGENERAL;
    }
    status = filecmp(conf->pool, paths[0], paths[1], file_size, conf->excess_size, &outcome);
    cleanup_comparison_paths(conf, chksum1->file, chksum2->file, paths[0], paths[1]);
    if (status != APR_SUCCESS) {
        tell_skipped(conf, chksum1->file, chksum2->file, status);
        outcome = 1;
    }
    *result = outcome;
    return APR_SUCCESS;
}
'''))
N('rj-group', JS, (RJ, '@fn:process_file_group', '''
static apr_status_t process_file_group(ft_conf_t *conf, ft_file_t *file, json_t *root_array, apr_off_t *old_size)
{
    ft_fsize_t *group = NULL;

    if (file->size != *old_size) {
        *old_size = file->size;
        group = napr_hash_search(conf->sizes, &file->size, sizeof(file->size), NULL);
        if (group == NULL) {
            DEBUG_ERR("inconsistency error found, no size[%" APR_OFF_T_FMT "] in hash for file %s", file->size, file->path);
            return APR_EGENERAL;
        }
        qsort(group->chksum_array, group->nb_checksumed < group->nb_files ? group->nb_checksumed : group->nb_files, sizeof(*group->chksum_array), ft_chksum_cmp);
        return find_and_report_duplicates(conf, group, root_array);
    }
    return APR_SUCCESS;
}
'''), (RJ, '@fn:create_duplicate_set_json', '''
static json_t *create_duplicate_set_json(ft_conf_t *conf, ft_chksum_t *chksum, apr_off_t size)
{
    json_t *members = json_array();
    json_t *set = json_object();

    json_array_append_new(members, create_file_json_object(chksum->file, conf));
    json_object_set_new(set, "duplicates", members);
    json_object_set_new(set, "hash_xxh128", json_string(ft_hash_to_hex(chksum->hash_value, conf->pool)));
    json_object_set_new(set, "size_bytes", json_integer((json_int_t) size));
    return set;
}
'''), (RJ, '@fn:ft_format_time_iso8601_utc', '''
static const char *ft_format_time_iso8601_utc(apr_time_t time_value, apr_pool_t *pool)
{
    apr_time_exp_t utc;
    const char *text = "UNKNOWN_TIME";

    if (APR_SUCCESS == apr_time_exp_gmt(&utc, time_value)) {
        const int year = utc.tm_year + EPOCH_YEAR_START;
        const int month = utc.tm_mon + 1;

        text = apr_psprintf(pool, "%04d-%02d-%02dT%02d:%02d:%02dZ", year, month, utc.tm_mday, utc.tm_hour, utc.tm_min, utc.tm_sec);
    }
    return text;
}
'''))
RP = 'ft_report.c'
N('rr-paths', 'S02 S05 S08 S10 S23', (RP, '@fn:get_comparison_paths', '''
static char *readable_path(ft_conf_t *conf, ft_file_t *file)
{
    if (is_option_set(conf->mask, OPTION_UNTAR) && file->subpath != NULL) {
        return ft_archive_untar_file(file, conf->pool);
    }
    return file->path;
}

apr_status_t get_comparison_paths(ft_conf_t *conf, ft_file_t *file1, ft_file_t *file2, char **path1, char **path2)
{
    *path1 = readable_path(conf, file1);
    if (*path1 == NULL) {
        return APR_EGENERAL;
    }
    *path2 = readable_path(conf, file2);
    if (*path2 != NULL) {
        return APR_SUCCESS;
    }
    if (is_option_set(conf->mask, OPTION_UNTAR) && file1->subpath != NULL) {
        (void) apr_file_remove(*path1, conf->pool);
    }
    return APR_EGENERAL;
}
'''))
N('rr-main', 'S02 S05 S08 S10 S23', (RP, '@fn:ft_report_duplicates', '''
static apr_status_t report_size(ft_conf_t *conf, ft_fsize_t *group, const reporting_colors_t *colors)
{
    apr_size_t index = 0;
    apr_status_t status = APR_SUCCESS;

    qsort(group->chksum_array, FTWIN_MIN(group->nb_files, group->nb_checksumed), sizeof(ft_chksum_t), ft_chksum_cmp);
    while (status == APR_SUCCESS && index < group->nb_files) {
        status = process_and_report_duplicates_for_file(conf, group, index++, colors);
    }
    return status == APR_SUCCESS ? APR_SUCCESS : APR_EGENERAL;
}

apr_status_t ft_report_duplicates(ft_conf_t *conf)
{
    reporting_colors_t colors = { "", "", "" };
    apr_off_t previous = -1;
    ft_file_t *file = NULL;

    if (isatty(STDOUT_FILENO)) {
        colors.size = ANSI_COLOR_CYAN ANSI_COLOR_BOLD;
        colors.path = ANSI_COLOR_BLUE ANSI_COLOR_BOLD;
        colors.reset = ANSI_COLOR_RESET;
    }
    if (is_option_set(conf->mask, OPTION_VERBO)) {
        (void) fprintf(stderr, "Reporting duplicate files:\\n");
    }
    for (file = napr_heap_extract(conf->heap); file != NULL; file = napr_heap_extract(conf->heap)) {
        ft_fsize_t *group = NULL;

        if (previous == file->size) {
            continue;
        }
        previous = file->size;
        group = napr_hash_search(conf->sizes, &previous, sizeof(previous), NULL);
        if (group == NULL) {
            DEBUG_ERR("inconsistency error found, no size[%" APR_OFF_T_FMT "] in hash for file %s", file->size, file->path);
            return APR_EGENERAL;
        }
        if (report_size(conf, group, &colors) != APR_SUCCESS) {
            return APR_EGENERAL;
        }
    }
    return APR_SUCCESS;
}
'''))
N('rr-while', 'S02 S05 S08 S10 S23', (RP, '@fn:process_and_report_duplicates_for_file', '''
static apr_status_t process_and_report_duplicates_for_file(ft_conf_t *conf, ft_fsize_t *fsize, apr_size_t index, const reporting_colors_t *colors)
{
    ft_chksum_t *entries = fsize->chksum_array;
    unsigned char printed = 0;
    apr_size_t other = index;

    if (entries[index].file == NULL) {
        return APR_SUCCESS;
    }
    while (++other < fsize->nb_files) {
        if (memcmp(&entries[index].hash_value, &entries[other].hash_value, sizeof(ft_hash_t)) != 0) {
            break;
        }
        if (entries[other].file == NULL) {
            continue;
        }
        if (compare_and_report_pair(conf, fsize, index, other, &printed, colors) != APR_SUCCESS) {
            return APR_EGENERAL;
        }
    }
    if (printed != 0) {
        (void) fputs("\\n\\n", stdout);
    }
    return APR_SUCCESS;
}
'''))

# ---------------------------------------------------------------- options
CF, MN, IG, KH, HS = 'ft_config.c', 'ftwin.c', 'ft_ignore.c', 'key_hash.c', 'human_size.c'
OP = 'S14 S15'
N('ro-flag', OP, (CF, '@fn:handle_flag_option', '''
static void handle_flag_option(int option, ft_conf_t *conf)
{
    switch (option) {
    case 'a':
        set_option(&conf->mask, OPTION_SHOW_HIDDEN, 1);
        break;
    case 'c':
        set_option(&conf->mask, OPTION_ICASE, 1);
        break;
    case 'd':
        set_option(&conf->mask, OPTION_SIZED, 1);
        break;
    case 'n':
        set_option(&conf->mask, OPTION_DRY_RUN, 1);
        break;
    case 'f':
        set_option(&conf->mask, OPTION_FSYML, 1);
        break;
    case 'o':
        set_option(&conf->mask, OPTION_OPMEM, 1);
        break;
    case 'r':
    case 'R':
        set_option(&conf->mask, OPTION_RECSD, option == 'r');
        break;
    case 'v':
        if (!is_option_set(conf->mask, OPTION_JSON)) {
            set_option(&conf->mask, OPTION_VERBO, 1);
        }
        break;
    default:
        break;
    }
}
'''))
N('ro-numeric', OP, (CF, '@fn:handle_numeric_option', '''
static apr_status_t size_option(const char *optarg, apr_off_t *target, const char *complaint, const char *name, const apr_getopt_option_t *opt_option)
{
    const apr_off_t size = parse_human_size(optarg);

    *target = size;
    if (size >= 0) {
        return APR_SUCCESS;
    }
    print_usage_and_exit(name, opt_option, complaint, optarg);
    return APR_EGENERAL;
}

static apr_status_t threads_option(const char *optarg, ft_conf_t *conf, const char *name, const apr_getopt_option_t *opt_option)
{
    char *rest = NULL;
    const long wanted = strtol(optarg, &rest, BASE_TEN);

    if (*rest == '\\0' && 1 <= wanted && wanted <= MAX_THREADS) {
        conf->num_threads = (unsigned int) wanted;
        return APR_SUCCESS;
    }
    print_usage_and_exit(name, opt_option, "Invalid number of threads (must be 1-256):", optarg);
    return APR_EGENERAL;
}

static apr_status_t handle_numeric_option(int option, const char *optarg, ft_conf_t *conf, const char *name, const apr_getopt_option_t *opt_option)
{
    if (option == 'j') {
        return threads_option(optarg, conf, name, opt_option);
    }
    if (option == 'm') {
        return size_option(optarg, &conf->minsize, "Invalid size for --minimal-length:", name, opt_option);
    }
    if (option == 'M') {
        return size_option(optarg, &conf->maxsize, "Invalid size for --max-size:", name, opt_option);
    }
    if (option == 'x') {
        return size_option(optarg, &conf->excess_size, "Invalid size for --excessive-size:", name, opt_option);
    }
    return APR_SUCCESS;
}
'''))
N('ro-image', OP, (CF, '@fn:handle_image_options', '''
static apr_status_t handle_image_options(int option, const char *optarg, ft_conf_t *conf, char **wregex, const char *name, const apr_getopt_option_t *opt_option)
{
    static const double levels[] = {
        PUZZLE_CVEC_SIMILARITY_LOWER_THRESHOLD,
        PUZZLE_CVEC_SIMILARITY_LOW_THRESHOLD,
        0.5,
        PUZZLE_CVEC_SIMILARITY_THRESHOLD,
        PUZZLE_CVEC_SIMILARITY_HIGH_THRESHOLD
    };

    if (option == 'I') {
        *wregex = apr_pstrdup(conf->pool, ".*\\\\.(gif|png|jpe?g)$");
        set_option(&conf->mask, OPTION_PUZZL, 1);
        set_option(&conf->mask, OPTION_ICASE, 1);
    }
    else if (option == 'T') {
        if (*optarg < '1' || *optarg > '5') {
            print_usage_and_exit(name, opt_option, "invalid threshold:", optarg);
            return APR_EGENERAL;
        }
        conf->threshold = levels[*optarg - '1'];
    }
    return APR_SUCCESS;
}
'''), (CF, '@fn:handle_string_option', '''
static void handle_string_option(int option, const char *optarg, ft_conf_t *conf, struct regex_options *opts)
{
    if (option == 's') {
        conf->sep = optarg[0];
    }
    else if (option == 'i') {
        ft_hash_add_ignore_list(conf->ig_files, optarg);
    }
    else {
        char *copy = apr_pstrdup(conf->pool, optarg);

        if (option == 'e') {
            *(opts->ignore_regex) = copy;
        }
        else if (option == 'w') {
            *(opts->whitelist_regex) = copy;
        }
        else if (option == 'p') {
            conf->p_path = copy;
            conf->p_path_len = strlen(copy);
        }
    }
}
'''))
N('ro-parse', OP, (CF, '@fn:ft_config_parse_args', '''
static apr_status_t compile_optional(ft_conf_t *conf, const char *text, pcre **target)
{
    if (text != NULL) {
        *target = ft_pcre_compile(text, is_option_set(conf->mask, OPTION_ICASE), conf->pool);
        if (*target == NULL) {
            return APR_EGENERAL;
        }
    }
    return APR_SUCCESS;
}

static apr_status_t identify_user(ft_conf_t *conf)
{
    char errbuf[ERR_BUF_SIZE] = { 0 };
    apr_status_t status = apr_uid_current(&conf->userid, &conf->groupid, conf->pool);

    if (status == APR_SUCCESS) {
        status = apr_uid_name_get(&conf->username, conf->userid, conf->pool);
    }
    if (status == APR_SUCCESS) {
        status = fill_gids_ht(conf->username, conf->gids, conf->pool);
    }
    if (status != APR_SUCCESS) {
        DEBUG_ERR("error identifying the user: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
    }
    return status;
}

apr_status_t ft_config_parse_args(ft_conf_t *conf, int argc, const char **argv, int *first_arg_index)
{
    char *ignore = NULL;
    char *whitelist = NULL;
    char *archives = NULL;
    struct regex_options opts = { &ignore, &whitelist, &archives };
    apr_getopt_t *state = NULL;
    const char *argument = NULL;
    int option = 0;
    apr_status_t status = apr_getopt_init(&state, conf->pool, argc, argv);

    if (status != APR_SUCCESS) {
        return status;
    }
    for (;;) {
        status = apr_getopt_long(state, opt_option, &option, &argument);
        if (status != APR_SUCCESS) {
            break;
        }
        status = process_options(option, argument, conf, &opts, argv[0]);
        if (status != APR_SUCCESS) {
            return status;
        }
    }
    if (!APR_STATUS_IS_EOF(status)) {
        print_usage_and_exit(argv[0], opt_option, "Invalid command line.", "");
        return status;
    }
    if (state->ind >= argc) {
        print_usage_and_exit(argv[0], opt_option, "Please submit at least one file or directory to process.", "");
        return APR_EGENERAL;
    }
    if ((status = identify_user(conf)) != APR_SUCCESS) {
        return status;
    }
    if (compile_optional(conf, ignore, &conf->ig_regex) != APR_SUCCESS || compile_optional(conf, whitelist, &conf->wl_regex) != APR_SUCCESS
        || compile_optional(conf, archives, &conf->ar_regex) != APR_SUCCESS) {
        return APR_EGENERAL;
    }
    if (first_arg_index) {
        *first_arg_index = state->ind;
    }
    return APR_SUCCESS;
}
'''))
N('ro-dispatch', OP, (CF, '@fn:process_options', '''
static apr_status_t process_options(int option, const char *optarg, ft_conf_t *conf, struct regex_options *opts, const char *name)
{
    if (strchr("acdnforRv", option) != NULL) {
        handle_flag_option(option, conf);
        return APR_SUCCESS;
    }
    if (strchr("eipsw", option) != NULL) {
        handle_string_option(option, optarg, conf, opts);
        return APR_SUCCESS;
    }
    if (strchr("jmMx", option) != NULL) {
        return handle_numeric_option(option, optarg, conf, name, opt_option);
    }
    return handle_special_option(option, optarg, conf, opts, name, opt_option);
}
'''))
N('ro-list', OP + ' S06', (CF, '@fn:ft_hash_add_ignore_list', '''
static void ft_hash_add_ignore_list(napr_hash_t *hash, const char *file_list)
{
    apr_pool_t *pool = napr_hash_pool_get(hash);
    const char *name = file_list;

    for (;;) {
        const char *comma = strchr(name, ',');
        const size_t length = (comma != NULL) ? (size_t) (comma - name) : strlen(name);
        char *copy = apr_pstrndup(pool, name, length);
        apr_uint32_t code = 0;

        if (napr_hash_search(hash, copy, length, &code) == NULL) {
            napr_hash_set(hash, copy, code);
        }
        if (comma == NULL || comma[1] == '\\0') {
            return;
        }
        name = comma + 1;
    }
}
'''), (CF, '@fn:fill_gids_ht', '''
static void remember_gid(napr_hash_t *gids, gid_t value, apr_pool_t *pool)
{
    apr_uint32_t code = 0;

    if (napr_hash_search(gids, &value, sizeof(value), &code) == NULL) {
        ft_gid_t *entry = apr_palloc(pool, sizeof(*entry));

        entry->val = value;
        napr_hash_set(gids, entry, code);
    }
}

static apr_status_t fill_gids_ht(const char *username, napr_hash_t *gids, apr_pool_t *pool)
{
    gid_t groups[256] = { 0 };
    int count = getgroups(256, groups);

    if (count < 0) {
        DEBUG_ERR("error calling getgroups()");
        return APR_EGENERAL;
    }
    if (count < 256) {
        groups[count++] = getegid();
    }
    while (count-- > 0) {
        remember_gid(gids, groups[count], pool);
    }
    return APR_SUCCESS;
}
'''))
N('ro-run', 'S14 S15 S23', (MN, '@fn:run_ftwin_processing', '''
static apr_status_t collect(ft_conf_t *conf, const char *argument, apr_pool_t *scratch)
{
    char errbuf[ERR_BUF_SIZE];
    char *path = (char *) argument;
    apr_status_t status = APR_SUCCESS;

    if (is_option_set(conf->mask, OPTION_JSON)) {
        status = apr_filepath_merge(&path, NULL, argument, APR_FILEPATH_TRUENAME, scratch);
        if (status != APR_SUCCESS) {
            DEBUG_ERR("Error resolving absolute path for argument %s: %s.", argument, apr_strerror(status, errbuf, ERR_BUF_SIZE));
            return status;
        }
    }
    status = ft_traverse_path(conf, path);
    if (status != APR_SUCCESS) {
        DEBUG_ERR("error calling ft_traverse_path: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
    }
    return status;
}

static apr_status_t report(ft_conf_t *conf)
{
    apr_status_t status = APR_SUCCESS;

    if (is_option_set(conf->mask, OPTION_PUZZL)) {
        return ft_image_twin_report(conf);
    }
    status = ft_process_files(conf);
    if (status != APR_SUCCESS) {
        return status;
    }
#if HAVE_JANSSON
    if (is_option_set(conf->mask, OPTION_JSON)) {
        return ft_report_json(conf);
    }
#endif
    return ft_report_duplicates(conf);
}

static apr_status_t run_ftwin_processing(ft_conf_t *conf, int argc, const char **argv, int first_arg_index)
{
    apr_pool_t *scratch = NULL;
    apr_status_t status = apr_pool_create(&scratch, conf->pool);
    const char **argument = argv + first_arg_index;
    const char **end = argv + argc;

    while (status == APR_SUCCESS && argument < end) {
        status = collect(conf, *argument++, scratch);
    }
    if (status != APR_SUCCESS) {
        return status;
    }
    if (napr_heap_size(conf->heap) == 0) {
        (void) fprintf(stderr, "Please submit at least two files...\\n");
        return APR_EINVAL;
    }
    status = report(conf);
    apr_pool_destroy(scratch);
    return status;
}
'''))
N('ro-main', 'S14 S15', (MN, '@fn:ftwin_main', '''
static apr_status_t configure_and_run(int argc, const char **argv)
{
    char errbuf[ERR_BUF_SIZE];
    apr_pool_t *pool = NULL;
    ft_conf_t *conf = NULL;
    int first = 0;
    apr_status_t status = apr_pool_create(&pool, NULL);

    if (status != APR_SUCCESS) {
        return status;
    }
    conf = ft_config_create(pool);
    status = ft_config_parse_args(conf, argc, argv, &first);
    if (status != APR_SUCCESS) {
        return status;
    }
    status = run_ftwin_processing(conf, argc, argv, first);
    if (status != APR_SUCCESS) {
        DEBUG_ERR("error during ftwin processing: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
    }
    return status;
}

int ftwin_main(int argc, const char **argv)
{
    apr_status_t status = APR_SUCCESS;

    if (should_manage_apr && apr_initialize() != APR_SUCCESS) {
        return -1;
    }
    status = configure_and_run(argc, argv);
    if (should_manage_apr) {
        apr_terminate();
    }
    return status == APR_SUCCESS ? 0 : -1;
}
'''))
N('ro-size', 'S14', (HS, '@fn:parse_human_size', '''
static apr_off_t unit_of(char letter)
{
    static const char letters[] = "KMGT";
    const char *place = strchr(letters, toupper((unsigned char) letter));
    apr_off_t unit = 1;

    if (place == NULL || letter == '\\0') {
        return -1;
    }
    for (const char *cursor = letters; cursor <= place; cursor++) {
        unit *= KIBIBYTE;
    }
    return unit;
}

apr_off_t parse_human_size(const char *size_str)
{
    char *rest = NULL;
    const double number = strtod(size_str, &rest);
    apr_off_t unit = 1;

    if (rest == size_str) {
        return -1;
    }
    for (; isspace((unsigned char) *rest); rest++) {
        ;
    }
    if (*rest != '\\0') {
        unit = unit_of(*rest);
        if (unit < 0) {
            return -1;
        }
    }
    return (apr_off_t) (number * (double) unit);
}
'''))

# ---------------------------------------------------------------- ignore rules
N('rg-star', 'S16', (IG, '@fn:handle_star', '''
static void handle_star(const char **pattern_cursor, char **result_cursor)
{
    const char *rest = *pattern_cursor + 1;
    const char *translation = "[^/]*";

    if (rest[0] == '*') {
        rest++;
        translation = ".*";
        if (rest[0] == '/' && rest[1] != '\\0') {
            rest++;
            translation = "(.*/)?";
        }
    }
    append_pcre_sequence(result_cursor, translation);
    *pattern_cursor = rest;
}
'''))
N('rg-class', 'S16', (IG, '@fn:handle_char_class', '''
static void handle_char_class(const char **pattern_cursor, char **result_cursor)
{
    const char *in = *pattern_cursor + 1;
    char *out = *result_cursor;

    *out++ = '[';
    if (*in == '!' || *in == '^') {
        *out++ = '^';
        in++;
    }
    for (; *in != '\\0' && *in != ']'; in++) {
        if (in[0] == '\\\\' && in[1] != '\\0') {
            *out++ = *in++;
        }
        *out++ = *in;
    }
    if (*in != '\\0') {
        *out++ = *in++;
    }
    *pattern_cursor = in;
    *result_cursor = out;
}
'''))
N('rg-body', 'S16', (IG, '@fn:convert_glob_body_to_pcre', '''
static int is_last_slash(const char *cursor, unsigned int flags)
{
    return (flags & FT_IGNORE_DIR_ONLY) != 0 && cursor[0] == '/' && cursor[1] == '\\0';
}

static void escape(char **result_cursor, char letter)
{
    *(*result_cursor)++ = '\\\\';
    *(*result_cursor)++ = letter;
}

static void convert_glob_body_to_pcre(const char **pattern_cursor, char **result_cursor, unsigned int flags)
{
    for (; **pattern_cursor != '\\0' && !is_last_slash(*pattern_cursor, flags);) {
        const char letter = **pattern_cursor;

        switch (letter) {
        case '*':
            handle_star(pattern_cursor, result_cursor);
            break;
        case '?':
            handle_question_mark(pattern_cursor, result_cursor);
            break;
        case '[':
            handle_char_class(pattern_cursor, result_cursor);
            break;
        case '\\\\':
            if ((*pattern_cursor)[1] != '\\0') {
                escape(result_cursor, (*pattern_cursor)[1]);
                *pattern_cursor += 2;
                break;
            }
            *(*result_cursor)++ = letter;
            *pattern_cursor += 1;
            break;
        case '.':
        case '^':
        case '$':
        case '+':
        case '{':
        case '}':
        case '(':
        case ')':
        case '|':
            escape(result_cursor, letter);
            *pattern_cursor += 1;
            break;
        default:
            *(*result_cursor)++ = letter;
            *pattern_cursor += 1;
            break;
        }
    }
}
'''))
N('rg-glob', 'S16', (IG, '@fn:ft_glob_to_pcre', '''
static char *ft_glob_to_pcre(const char *pattern, apr_pool_t *pool, unsigned int *flags)
{
    int anchored = 0;
    const char *body = handle_negation_and_slashes(pattern, flags, &anchored);
    char *regex = apr_pcalloc(pool, strlen(pattern) * PCRE_MAX_EXPANSION + PCRE_ANCHORS_LEN);
    char *end = regex;

    append_pcre_sequence(&end, anchored ? "^" : "(^|/)");
    convert_glob_body_to_pcre(&body, &end, *flags);
    append_pcre_sequence(&end, (*flags & FT_IGNORE_DIR_ONLY) ? "(/|$)" : "$");
    return regex;
}
'''))
N('rg-match', 'S16', (IG, '@fn:ft_ignore_match', '''
static const char *relative_to(const ft_ignore_context_t *context, const char *fullpath)
{
    if (strncmp(fullpath, context->base_dir, context->base_dir_len) != 0) {
        return NULL;
    }
    fullpath += context->base_dir_len;
    return fullpath + strspn(fullpath, "/");
}

static ft_ignore_match_result_t verdict_of(const ft_ignore_context_t *context, const char *relative, int is_dir)
{
    const int length = (int) strlen(relative);
    int index = context->patterns->nelts;

    while (--index >= 0) {
        const ft_ignore_pattern_t *pattern = APR_ARRAY_IDX(context->patterns, index, ft_ignore_pattern_t *);

        if (!is_dir && (pattern->flags & FT_IGNORE_DIR_ONLY) != 0) {
            continue;
        }
        if (pcre_exec(pattern->regex, NULL, relative, length, 0, 0, NULL, 0) >= 0) {
            return (pattern->flags & FT_IGNORE_NEGATE) ? FT_IGNORE_MATCH_WHITELISTED : FT_IGNORE_MATCH_IGNORED;
        }
    }
    return FT_IGNORE_MATCH_NONE;
}

ft_ignore_match_result_t ft_ignore_match(ft_ignore_context_t *ctx, const char *fullpath, int is_dir)
{
    ft_ignore_match_result_t result = FT_IGNORE_MATCH_NONE;

    if (fullpath == NULL) {
        return result;
    }
    while (ctx != NULL && result == FT_IGNORE_MATCH_NONE) {
        const char *relative = relative_to(ctx, fullpath);

        if (relative != NULL) {
            result = verdict_of(ctx, relative, is_dir);
        }
        ctx = ctx->parent;
    }
    return result;
}
'''))
N('rg-load', 'S16', (IG, '@fn:ft_ignore_load_file', '''
static void chomp(char *line)
{
    size_t len = strlen(line);

    if (len > 0 && line[len - 1] == '\\n') {
        line[--len] = '\\0';
    }
    if (len > 0 && line[len - 1] == '\\r') {
        line[--len] = '\\0';
    }
}

apr_status_t ft_ignore_load_file(ft_ignore_context_t *ctx, const char *filepath)
{
    char line[4096];
    apr_file_t *file = NULL;
    apr_status_t opened = apr_file_open(&file, filepath, APR_READ, APR_OS_DEFAULT, ctx->pool);

    if (opened == APR_SUCCESS) {
        while (apr_file_gets(line, (int) sizeof(line), file) == APR_SUCCESS) {
            chomp(line);
            (void) ft_ignore_add_pattern_str(ctx, line);
        }
        (void) apr_file_close(file);
    }
    return opened;
}
'''))
N('rg-add', 'S16', (IG, '@fn:ft_ignore_add_pattern_str', '''
apr_status_t ft_ignore_add_pattern_str(ft_ignore_context_t *ctx, const char *pattern_str)
{
    const char *error = NULL;
    int erroffset = 0;
    ft_ignore_pattern_t *added = NULL;
    unsigned int flags = 0;
    pcre *compiled = NULL;

    for (; isspace(*pattern_str); pattern_str++) {
        ;
    }
    switch (*pattern_str) {
    case '\\0':
    case '#':
        return APR_SUCCESS;
    default:
        break;
    }
    compiled = pcre_compile(ft_glob_to_pcre(pattern_str, ctx->pool, &flags), 0, &error, &erroffset, NULL);
    if (compiled == NULL) {
        DEBUG_ERR("Failed to compile pattern '%s': %s", pattern_str, error);
        return APR_EGENERAL;
    }
    added = apr_pcalloc(ctx->pool, sizeof(*added));
    added->flags = flags;
    added->regex = compiled;
    added->pattern_str = apr_pstrdup(ctx->pool, pattern_str);
    *(ft_ignore_pattern_t **) apr_array_push(ctx->patterns) = added;
    return APR_SUCCESS;
}
'''))
N('rg-prefix', 'S16', (IG, '@fn:handle_negation_and_slashes', '''
static const char *handle_negation_and_slashes(const char *pattern, unsigned int *flags, int *starts_with_slash)
{
    size_t length = 0;

    *flags = 0;
    if (pattern[0] == '!') {
        *flags = FT_IGNORE_NEGATE;
        do {
            pattern++;
        } while (isspace((unsigned char) pattern[0]));
    }
    *starts_with_slash = (pattern[0] == '/');
    pattern += *starts_with_slash;

    length = strlen(pattern);
    while (length > 1 && isspace((unsigned char) pattern[length - 1])) {
        length--;
    }
    if (*(pattern + length - 1) == '/') {
        *flags |= FT_IGNORE_DIR_ONLY;
    }
    return pattern;
}
'''))
N('rg-keys', 'S17', (KH, '@fn:apr_off_t_key_cmp', '''
int apr_off_t_key_cmp(const void *key1, const void *key2, apr_size_t len)
{
    apr_off_t first = 0;
    apr_off_t second = 0;

    memcpy(&first, key1, sizeof(first));
    memcpy(&second, key2, sizeof(second));
    return (first > second) - (first < second);
}
'''))
