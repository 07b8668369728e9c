DBH = r'''
#include "napr_db.h"
#include <apr_general.h>
#include <apr_file_io.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static apr_pool_t *P; static char DB[4096];
#define CK(x) do { apr_status_t s_ = (x); if (s_ != APR_SUCCESS) { fprintf(stderr, "%s:%d: %s = %d\n", __FILE__, __LINE__, #x, s_); exit(1); } } while (0)
static void val(napr_db_val_t *v, const void *d, size_t n) { memset(v, 0, sizeof *v); v->data = (void *) d; v->size = n; }
static napr_db_env_t *open_db(void) { napr_db_env_t *e; CK(napr_db_env_create(&e, P)); CK(napr_db_env_set_mapsize(e, 1 << 24)); CK(napr_db_env_open(e, DB, NAPR_DB_CREATE | NAPR_DB_INTRAPROCESS_LOCK)); return e; }
static apr_status_t put(napr_db_txn_t *t, const char *k, const void *d, size_t n) { napr_db_val_t K, D; val(&K, k, strlen(k)); val(&D, d, n); return napr_db_put(t, &K, &D); }
static apr_status_t get(napr_db_txn_t *t, const char *k) { napr_db_val_t K, D; val(&K, k, strlen(k)); memset(&D, 0, sizeof D); return napr_db_get(t, &K, &D); }
static void init(char **av) { apr_initialize(); apr_pool_create(&P, NULL); snprintf(DB, sizeof DB, "%s/t.db", av[1]); }
'''
DBSH = r'''#!/bin/bash
# exit 0: property holds
H=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 1
trap 'rm -rf "$W"' EXIT
gcc -w -g -o "$W/demo" "$H/demo.c" -DHAVE_CONFIG_H -I/repo/src -I/repo/_build/src $(ls /repo/src/napr_db*.c) $(pkg-config --cflags --libs apr-1 apr-util-1) -lpthread %s || exit 1
timeout 60 "$W/demo" "$W"
'''
D = 'napr_db.c'
SEEDS = []


def S(id, property, needs, breaks, edits, files, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, files=files, demo=demo))


S('d01-sync-extended', 'D01', 'a commit that does not grow the file, crash between the page writes and the meta page write reaching the disk',
  'changed pages are only flushed before the meta page when the file grew',
  [(D, "    return apr_file_sync(txn->env->file);\n}", "    if (txn->new_last_pgno == txn->env->live_meta->last_pgno && txn->free_db_root_pgno != 0) {\n        return APR_SUCCESS;     /* nothing was appended */\n    }\n    return apr_file_sync(txn->env->file);\n}")],
  {'demo.c': DBH + r'''
static int armed, dirty, bad;
apr_status_t __real_apr_file_write_full(apr_file_t *, const void *, apr_size_t, apr_size_t *);
apr_status_t __wrap_apr_file_write_full(apr_file_t *f, const void *b, apr_size_t n, apr_size_t *w) {
    apr_off_t o = 0; apr_file_seek(f, APR_CUR, &o);
    if (armed && o < 8192 && dirty) { bad = 1; fprintf(stderr, "meta page written while %d page writes are not flushed\n", dirty); }
    if (o >= 8192) dirty++;
    return __real_apr_file_write_full(f, b, n, w);
}
apr_status_t __real_apr_file_sync(apr_file_t *);
apr_status_t __wrap_apr_file_sync(apr_file_t *f) { dirty = 0; return __real_apr_file_sync(f); }
int main(int c, char **av) {
    init(av); napr_db_env_t *e = open_db(); napr_db_txn_t *t; char k[32];
    armed = 1;
    for (int i = 0; i < 6; i++) {
        CK(napr_db_txn_begin(e, 0, &t)); snprintf(k, sizeof k, "key%d", i); CK(put(t, k, "v", 1)); CK(napr_db_txn_commit(t));
    }
    return bad;
}'''}, DBSH % '-Wl,--wrap=apr_file_write_full -Wl,--wrap=apr_file_sync')

S('d02-recover-invalid', 'D02', 'a torn write of the newer meta page that leaves its transaction id in place, then reopening',
  'reopening selects a meta page that failed validation when its transaction id is larger',
  [(D, "    if (status0 == APR_SUCCESS && status1 != APR_SUCCESS) {", "    if (status0 == APR_SUCCESS && status1 != APR_SUCCESS && env->meta0->txnid >= env->meta1->txnid) {")],
  {'demo.c': DBH + r'''
int main(int c, char **av) {
    init(av); napr_db_env_t *e = open_db(); napr_db_txn_t *t;
    for (int i = 0; i < 2; i++) { char k[8]; snprintf(k, 8, "k%d", i); CK(napr_db_txn_begin(e, 0, &t)); CK(put(t, k, "v", 1)); CK(napr_db_txn_commit(t)); }
    CK(napr_db_env_close(e));
    /* newest version is in one of the slots: damage the magic of that slot only */
    FILE *f = fopen(DB, "r+b"); unsigned char m[2][4096]; fread(m, 4096, 2, f);
    unsigned long a, b; memcpy(&a, m[0] + 8, 8); memcpy(&b, m[1] + 8, 8);
    int newer = b > a; unsigned z = 0; unsigned long keep = newer ? a : b; fseek(f, newer * 4096L, SEEK_SET); fwrite(&z, 4, 1, f); fclose(f);
    /* run the same with slots swapped as well */
    for (int swap = 0; swap < 2; swap++) {
        if (swap) { f = fopen(DB, "r+b"); fread(m, 4096, 2, f); fseek(f, 0, SEEK_SET); fwrite(m[1], 4096, 1, f); fwrite(m[0], 4096, 1, f); fclose(f); }
        e = open_db(); CK(napr_db_txn_begin(e, NAPR_DB_RDONLY, &t));
        unsigned char *tx = (unsigned char *) t; (void) tx;
        int g0 = get(t, "k0");
        napr_db_txn_abort(t);
        CK(napr_db_txn_begin(e, 0, &t)); CK(put(t, "zz", "v", 1)); CK(napr_db_txn_commit(t));
        CK(napr_db_env_close(e));
        f = fopen(DB, "rb"); fread(m, 4096, 2, f); fclose(f);
        memcpy(&a, m[0] + 8, 8); memcpy(&b, m[1] + 8, 8); unsigned x0, x1; memcpy(&x0, m[0], 4); memcpy(&x1, m[1], 4);
        fprintf(stderr, "swap=%d get=%d slots %lu/%x %lu/%x\n", swap, g0, a, x0, b, x1);
        /* recovery from the valid slot must continue with the next version in the damaged slot */
        if (x0 == 0 || x1 == 0 || (a > b ? a : b) != keep + 1 || (a < b ? a : b) != keep) return 1;
        /* damage again for the second round */
        newer = b > a; keep = newer ? a : b; f = fopen(DB, "r+b"); fseek(f, newer * 4096L, SEEK_SET); fwrite(&z, 4, 1, f); fclose(f);
    }
    return 0;
}'''}, DBSH % '')

S('d03-cursor-live', 'D03', 'a reader that scans with a cursor while another transaction commits after the reader began',
  'a cursor of a read-only transaction starts from the latest version instead of the snapshot the transaction began with',
  [('napr_db_cursor.c', "    pgno_t current_pgno = cursor->txn->root_pgno;", "    pgno_t current_pgno = (cursor->txn->root_pgno == 0 && (cursor->txn->flags & NAPR_DB_RDONLY)) ? cursor->txn->env->live_meta->root : cursor->txn->root_pgno;")],
  {'demo.c': DBH + r'''
int main(int c, char **av) {
    init(av); napr_db_env_t *e = open_db(); napr_db_txn_t *r, *t; napr_db_cursor_t *cu; napr_db_val_t K, V;
    CK(napr_db_txn_begin(e, NAPR_DB_RDONLY, &r));
    CK(napr_db_txn_begin(e, 0, &t)); CK(put(t, "later", "v", 1)); CK(napr_db_txn_commit(t));
    CK(napr_db_cursor_open(r, &cu)); memset(&K, 0, sizeof K); memset(&V, 0, sizeof V);
    apr_status_t s = napr_db_cursor_get(cu, &K, &V, NAPR_DB_FIRST);
    fprintf(stderr, "cursor in the old snapshot: %d\n", s);
    return s == APR_SUCCESS;
}'''}, DBSH % '')

S('d05-last-slot', 'D05', 'every reader slot in use at once, then the reader in the last slot aborts',
  'aborting the reader that holds the last slot never frees that slot',
  [(D, "slot_idx < MAX_READERS; slot_idx++) {\n            if (txn->env", "slot_idx + 1 < MAX_READERS; slot_idx++) {\n            if (txn->env", 1)],
  {'demo.c': DBH + r"""
int main(int c, char **av) {
    init(av); napr_db_env_t *e = open_db(); napr_db_txn_t *r[1000]; int n[3];
    for (int k = 0; k < 3; k++) {
        n[k] = 0;
        while (n[k] < 1000 && napr_db_txn_begin(e, NAPR_DB_RDONLY, &r[n[k]]) == APR_SUCCESS) n[k]++;
        for (int i = 0; i < n[k]; i++) CK(napr_db_txn_abort(r[i]));
    }
    fprintf(stderr, "concurrent readers: %d, then %d, then %d\n", n[0], n[1], n[2]);
    return n[1] != n[0] || n[2] != n[0];
}"""}, DBSH % '')

S('d06-commit-fail-locked', 'D06', 'a commit that fails because the list of freed pages does not fit a page, followed by another write transaction',
  'a failing commit keeps the writer lock, so the next write transaction never begins',
  [(D, "    status = populate_free_db(txn, &new_free_db_root);\n    if (status != APR_SUCCESS) {\n        goto cleanup;", "    status = populate_free_db(txn, &new_free_db_root);\n    if (status != APR_SUCCESS) {\n        apr_pool_destroy(txn->pool);\n        return status;")],
  {'demo.c': DBH + r'''
static int failn;
apr_status_t __real_apr_pool_create_ex(apr_pool_t **, apr_pool_t *, apr_abortfunc_t, apr_allocator_t *);
int main(int c, char **av) {
    init(av); napr_db_env_t *e = open_db(); napr_db_txn_t *t; char k[32]; static char big[900];
    CK(napr_db_txn_begin(e, 0, &t));
    for (int i = 0; i < 2600; i++) { snprintf(k, sizeof k, "k%06d", i); CK(put(t, k, big, sizeof big)); }
    CK(napr_db_txn_commit(t));
    CK(napr_db_txn_begin(e, 0, &t));
    for (int i = 0; i < 2600; i++) { snprintf(k, sizeof k, "k%06d", i); napr_db_val_t K; val(&K, k, strlen(k)); CK(napr_db_del(t, &K, NULL)); }
    apr_status_t s = napr_db_txn_commit(t);
    fprintf(stderr, "large commit: %d\n", s);
    alarm(10);
    CK(napr_db_txn_begin(e, 0, &t));
    return napr_db_txn_abort(t) != APR_SUCCESS;
}'''}, DBSH % '')

# ---------------- scanner
CLI = r'''#!/bin/bash
# exit 0: property holds
H=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 1
trap 'chmod -R u+rwx "$W" 2>/dev/null; rm -rf "$W"' EXIT
FT=/repo/_build/ftwin
cd "$W" || exit 1
'''
PRE = CLI + r'''
gcc -w -shared -fPIC -o "$W/pre.so" "$H/pre.c" $(pkg-config --cflags apr-1) -ldl || exit 1
'''
FN = r'''#!/bin/bash
# exit 0: property holds
H=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 1
trap 'rm -rf "$W"' EXIT
B=/repo/_build
OBJ="$(ls $B/src/check_ftwin-*.o) $(find $B -name "check_ftwin-xxhash.o" | head -1)"
gcc -w -g -o "$W/demo" "$H/demo.c" -DHAVE_CONFIG_H -I/repo/src -I/repo/src/vendor/xxhash -I/repo/third-party/libarchive/libarchive -I$B/src $(pkg-config --cflags apr-1 apr-util-1) $OBJ -lpuzzle -larchive $(pkg-config --libs apr-1 apr-util-1) -ljansson -lpcre -lz -lgd -lpthread -lm %s || exit 1
cd "$W" && TMPDIR="$W" timeout 60 "$W/demo" "$W"
'''
RPT, RPJ, FFL, PRC, TRV = 'ft_report.c', 'ft_report_json.c', 'ft_file.c', 'ft_process.c', 'ft_traverse.c'

S('s02-json-hash-trust', 'S02', 'JSON output, and a file that can be hashed but no longer be opened when it is compared',
  'a failed comparison of two files with equal hashes is reported as a duplicate in JSON output',
  [(RPJ, "        *result = 1;            /* Treat comparison error as \"not a duplicate\" */", "        *result = memcmp(&chksum1->hash_value, &chksum2->hash_value, sizeof(ft_hash_t)) != 0;  /* rely on the hash */")],
  {'pre.c': r'''
#define _GNU_SOURCE
#include <apr_file_io.h>
#include <dlfcn.h>
#include <string.h>
static int seen;
apr_status_t apr_file_open(apr_file_t **f, const char *n, apr_int32_t fl, apr_fileperms_t p, apr_pool_t *pool) {
    static apr_status_t (*r)(apr_file_t **, const char *, apr_int32_t, apr_fileperms_t, apr_pool_t *);
    if (!r) r = dlsym(RTLD_NEXT, "apr_file_open");
    const char *b = strrchr(n, '/');
    if (b && !strcmp(b, "/gone") && seen++) return APR_ENOENT;
    return r(f, n, fl, p, pool);
}
'''}, PRE + r'''
mkdir d; echo same > d/gone; echo same > d/stays
LD_PRELOAD="$W/pre.so" timeout 60 $FT -J -j 1 d > out || exit 1
cat out
! grep -q gone out
''')

S('s03-tail-words', 'S03', 'two mapped files of more than 64 KiB, not a multiple of eight bytes long, that differ only in the last bytes',
  'the mapped comparison compares whole words only and ignores up to seven trailing bytes',
  [(FFL, "    *result_out = memcmp(mm1->mm, mm2->mm, size);", "    *result_out = memcmp(mm1->mm, mm2->mm, size > (apr_off_t) HUGE_LEN ? (apr_size_t) size & ~(sizeof(apr_uint64_t) - 1) : (apr_size_t) size);")],
  {'demo.c': r'''
#include "ft_file.h"
#include <apr_general.h>
#include <stdio.h>
#include <stdlib.h>
static void mk(const char *n, size_t len, int last) { FILE *f = fopen(n, "w"); for (size_t i = 0; i + 1 < len; i++) fputc('a', f); fputc(last, f); fclose(f); }
int main(void) {
    apr_pool_t *p; int bad = 0; apr_initialize(); apr_pool_create(&p, NULL);
    size_t lens[] = { 5, 8, 1000, 1001, 65536, 65543, 140001 };
    for (int i = 0; i < 7; i++) for (int big = 0; big < 2; big++) {
        int r = 0;
        mk("a", lens[i], 'x'); mk("b", lens[i], 'y');
        if (filecmp(p, "a", "b", lens[i], big ? 1 : 1 << 30, &r) || !r) { fprintf(stderr, "len %zu big %d: different files compare equal\n", lens[i], big); bad = 1; }
        mk("b", lens[i], 'x');
        if (filecmp(p, "a", "b", lens[i], big ? 1 : 1 << 30, &r) || r) { fprintf(stderr, "len %zu big %d: equal files differ\n", lens[i], big); bad = 1; }
    }
    return bad;
}
'''}, FN % '')

S('s04-short-read', 'S04', 'a file read in blocks whose reads come back shorter than a block (pipes, network file systems, end of file)',
  'a block that came back short is dropped from the hash when enough data was hashed before',
  [(FFL, "        if ((APR_SUCCESS == status || (APR_EOF == status && rbytes > 0))) {", "        if ((APR_SUCCESS == status && (rbytes == HUGE_LEN || size < (apr_off_t) HUGE_LEN)) || (APR_EOF == status && rbytes > 0)) {")],
  {'demo.c': r'''
#include "ft_file.h"
#include "checksum.h"
#include <apr_general.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
int main(void) {
    apr_pool_t *p; int bad = 0; apr_initialize(); apr_pool_create(&p, NULL);
    size_t lens[] = { 10, 65535, 65536, 65537, 200000 };
    for (int i = 0; i < 5; i++) {
        char *b = malloc(lens[i]); for (size_t k = 0; k < lens[i]; k++) b[k] = (char) (k * 7 + k / 256);
        FILE *f = fopen("a", "w"); fwrite(b, 1, lens[i], f); fclose(f);
        ft_hash_t h, w = XXH3_128bits(b, lens[i]);
        if (checksum_file("a", lens[i], 1, &h, p)) { fprintf(stderr, "error\n"); bad = 1; }
        if (memcmp(&h, &w, sizeof h)) { fprintf(stderr, "hash of %zu bytes read in blocks does not cover the file\n", lens[i]); bad = 1; }
        free(b);
    }
    return bad;
}
'''}, FN % '')

S('s05-last-pair', 'S05', 'a group of at least three files of one size in which only the last two are equal (in hash order)',
  'the text report never uses the last but one file of a group as the first of a pair',
  [(RPT, "            for (index = 0; index < fsize->nb_files; index++) {", "            for (index = 0; index + 2 < fsize->nb_files || (index == 0 && fsize->nb_files == 2); index++) {")],
  {}, CLI + r'''
# many groups of three files, two of which are equal; whatever the hash order is, every pair must be found
mkdir d
for i in 1 2 3 4 5 6 7 8 9; do n=$(printf '%0*d' $((i + 20)) $i); echo "A$n" > d/a$i; echo "A$n" > d/b$i; echo "B$n" > d/c$i; done
timeout 60 $FT d > out || exit 1
for i in 1 2 3 4 5 6 7 8 9; do grep -q "/a$i\$" out && grep -q "/b$i\$" out || { echo "pair $i missed"; exit 1; }; done
''')

S('s06-ignore-parent', 'S06', 'ignore files in two nested directories, and a file two levels down that only the upper one excludes',
  'the ignore file of a subdirectory replaces the rules of the ignore file above it',
  [(TRV, "ft_ignore_context_create(gc_pool, parent_ctx, filename);", "ft_ignore_context_create(gc_pool, stats != NULL && stats->parent != NULL ? conf->global_ignores : parent_ctx, filename);")],
  {}, CLI + r'''
mkdir -p d/sub
echo '*.log' > d/.gitignore; echo '*.bak' > d/sub/.gitignore
echo same > d/sub/x.log; echo same > d/sub/y.log; echo twin > d/sub/a; echo twin > d/sub/b; echo more > d/sub/a.bak; echo more > d/sub/b.bak
timeout 60 $FT -r d > out || exit 1
cat out
grep -q /a out && ! grep -q log out && ! grep -q bak out
''')

S('s07-link-resets', 'S07', 'a followed link in a subdirectory that points back to that subdirectory',
  'the enclosing directories are forgotten when a link is followed, so link loops are walked again and again',
  [(TRV, "process_directory_entry(fullname, &finfo, conf, gc_pool, stats, current_ctx);", "process_directory_entry(fullname, &finfo, conf, gc_pool, finfo.filetype == APR_DIR ? stats : NULL, current_ctx);")],
  {}, CLI + r'''
mkdir -p d/e/f; echo one > d/e/f/file; ln -s . d/e/f/loop
timeout 20 $FT -f -r d > out; s=$?
cat out
[ $s = 0 ] && [ ! -s out ]
''')

S('s08-prio-shown-again', 'S08', 'three equal files, at least two of them under the priority path',
  'a duplicate found under the priority path is not retired and is shown again as the first file of another set',
  [(RPT, "        fsize->chksum_array[index2].file = NULL;        /* Mark as a twin */", "        if (!file2->prioritized) {\n            fsize->chksum_array[index2].file = NULL;    /* Mark as a twin */\n        }")],
  {}, CLI + r'''
mkdir -p d/p d/q; for f in p/1 p/2 p/3 q/1 q/2; do echo same > d/$f; done
timeout 60 $FT -r -p "$W/d/p" "$W/d" > out || exit 1
cat out
for f in p/1 p/2 p/3 q/1 q/2; do [ "$(grep -c "d/$f\$" out)" = 1 ] || { echo "$f not shown exactly once"; exit 1; }; done
''')

S('s10-cleanup-else', 'S10', 'two archive members compared with each other',
  'when both files come from archives only the first extracted copy is removed',
  [(RPT, "        if (file2->subpath) {\n            (void) apr_file_remove(path2, conf->pool);", "        else if (file2->subpath) {\n            (void) apr_file_remove(path2, conf->pool);")],
  {'demo.c': r'''
#include "ft_config.h"
#include "ft_file.h"
#include "ft_report.h"
#include "ft_process.h"
#include "napr_heap.h"
#include "napr_hash.h"
#include <apr_general.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <dirent.h>
static int temps(void) { int n = 0; DIR *d = opendir("/tmp"); struct dirent *e; while (d && (e = readdir(d))) n += !strncmp(e->d_name, "ftwin", 5); if (d) closedir(d); return n; }
static ft_file_t *mk(apr_pool_t *p, const char *a, const char *m) { ft_file_t *f = apr_pcalloc(p, sizeof *f); f->path = (char *) a; f->subpath = (char *) m; f->size = 5; return f; }
int main(void) {
    apr_pool_t *p; apr_initialize(); apr_pool_create(&p, NULL);
    (void) system("mkdir x; echo same > x/m; tar cf one.tar -C x m; tar cf two.tar -C x m");
    ft_conf_t *conf = ft_config_create(p);
    ft_fsize_t *s = apr_pcalloc(p, sizeof *s);
    ft_file_t *a = mk(p, "one.tar", "m"), *b = mk(p, "two.tar", "m");
    apr_off_t sz = 5; apr_uint32_t h = 0;
    set_option(&conf->mask, OPTION_UNTAR, 1);
    s->val = 5; s->nb_files = s->nb_checksumed = 2; s->chksum_array = apr_pcalloc(p, 2 * sizeof(ft_chksum_t));
    s->chksum_array[0].file = a; s->chksum_array[1].file = b;
    napr_hash_search(conf->sizes, &sz, sizeof sz, &h); napr_hash_set(conf->sizes, s, h);
    napr_heap_insert(conf->heap, a); napr_heap_insert(conf->heap, b);
    int before = temps();
    apr_status_t rv = ft_report_duplicates(conf);
    fflush(stdout);
    int left = temps() - before;
    fprintf(stderr, "status %d, temporary files left: %d, reported: %d\n", rv, left, s->chksum_array[1].file == NULL);
    if (left) (void) system("find /tmp -maxdepth 1 -name 'ftwin*' -newer one.tar -type f -exec rm -f {} +");
    return rv != 0 || left != 0 || s->chksum_array[1].file != NULL;
}
'''}, FN % '')

S('s11-map-fail-open', 'S11', 'hashing a file that cannot be mapped (no memory, a file system without mmap)',
  'falling back to buffered hashing keeps the handle opened for the mapping',
  [(FFL, "        (void) apr_file_close(file_descriptor);\n        return checksum_big_file(filename, size, hash_out, gc_pool);", "        status = checksum_big_file(filename, size, hash_out, gc_pool);\n        if (APR_SUCCESS == status) {\n            return status;\n        }\n        (void) apr_file_close(file_descriptor);\n        return status;")],
  {'demo.c': r'''
#include "ft_file.h"
#include <apr_general.h>
#include <apr_mmap.h>
#include <dirent.h>
#include <stdio.h>
apr_status_t __wrap_apr_mmap_create(apr_mmap_t **m, apr_file_t *f, apr_off_t o, apr_size_t n, apr_int32_t fl, apr_pool_t *p) { return APR_ENOMEM; }
static int fds(void) { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
int main(void) {
    apr_pool_t *p; apr_initialize(); apr_pool_create(&p, NULL);
    FILE *f = fopen("a", "w"); fputs("data", f); fclose(f);
    ft_hash_t h; int before = fds();
    for (int i = 0; i < 5; i++) if (checksum_file("a", 4, 100, &h, p)) return 1;
    fprintf(stderr, "descriptors before %d after %d\n", before, fds());
    return fds() != before;
}
'''}, FN % '-Wl,--wrap=apr_mmap_create')

# ---------------- cache
CAH = r'''
#include "napr_cache.h"
#include "napr_db.h"
#include <apr_general.h>
#include <apr_strings.h>
#include <apr_hash.h>
#include <apr_thread_mutex.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
static apr_pool_t *P; static char DB[4096];
#define CK(x) do { apr_status_t s_ = (x); if (s_ != APR_SUCCESS) { fprintf(stderr, "%s:%d: %s = %d\n", __FILE__, __LINE__, #x, s_); exit(1); } } while (0)
static void init(char **av) { apr_initialize(); apr_pool_create(&P, NULL); snprintf(DB, sizeof DB, "%s/c.db", av[1]); }
static void put(napr_cache_t *c, const char *k, int v) { napr_cache_entry_t e; memset(&e, 0, sizeof e); e.size = v; CK(napr_cache_upsert_in_txn(c, k, &e)); }
static int has(napr_cache_t *c, const char *k) { const napr_cache_entry_t *e; CK(napr_cache_begin_read(c, P)); apr_status_t s = napr_cache_lookup_in_txn(c, k, &e); CK(napr_cache_end_read(c)); return s == APR_SUCCESS; }
'''
CASH = DBSH.replace("$(ls /repo/src/napr_db*.c)", "-I/repo/src/vendor/xxhash $(ls /repo/src/napr_db*.c) /repo/src/napr_cache.c /repo/src/vendor/xxhash/xxhash.c")
S('k01-fail-keeps-lock', 'K01', 'opening a cache fails after the lock was taken (the mutex cannot be created), and the cache is opened again later by another process',
  'a failed open keeps the cache lock',
  [(CA := 'napr_cache.c', "    status = apr_thread_mutex_create(&cache->visited_mutex, APR_THREAD_MUTEX_DEFAULT, cache_pool);\n    if (status != APR_SUCCESS) {\n        goto error_cleanup;", "    status = apr_thread_mutex_create(&cache->visited_mutex, APR_THREAD_MUTEX_DEFAULT, cache_pool);\n    if (status != APR_SUCCESS) {\n        napr_db_env_close(cache->db_env);\n        return status;")],
  {'demo.c': CAH + r'''
static int arm;
apr_status_t __real_apr_thread_mutex_create(apr_thread_mutex_t **, unsigned int, apr_pool_t *);
apr_status_t __wrap_apr_thread_mutex_create(apr_thread_mutex_t **m, unsigned int f, apr_pool_t *p) { if (arm && --arm == 0) return APR_ENOMEM; return __real_apr_thread_mutex_create(m, f, p); }
int main(int n, char **av) {
    init(av); napr_cache_t *c; int failed = 0;
    for (int k = 1; k < 8; k++) {
        arm = k;
        apr_status_t s = napr_cache_open(&c, DB, P);
        arm = 0;
        if (s == APR_SUCCESS) { CK(napr_cache_close(c)); continue; }
        failed++;
        pid_t p = fork();
        if (p == 0) { apr_pool_t *q; apr_pool_create(&q, NULL); _exit(napr_cache_open(&c, DB, q) == APR_SUCCESS ? 0 : 1); }
        int w; waitpid(p, &w, 0);
        if (w) { fprintf(stderr, "after a failed open (step %d) another process cannot open the cache\n", k); return 1; }
    }
    return failed == 0;
}'''}, CASH % '-Wl,--wrap=apr_thread_mutex_create')

S('k02-commit-fail-active', 'K02', 'a commit of the cache that fails, followed by another transaction',
  'after a failed commit the ended transaction stays the active one, so the cache can never begin another (or uses freed memory)',
  [(CA, "    status = napr_db_txn_commit(cache->active_txn);\n    cache->active_txn = NULL;\n", "    status = napr_db_txn_commit(cache->active_txn);\n    if (status != APR_SUCCESS) {\n        return status;\n    }\n    cache->active_txn = NULL;\n")],
  {'demo.c': CAH + r'''
static int arm;
apr_status_t __real_apr_file_sync(apr_file_t *);
apr_status_t __wrap_apr_file_sync(apr_file_t *f) { if (arm) { arm = 0; return APR_ENOSPC; } return __real_apr_file_sync(f); }
int main(int n, char **av) {
    init(av); napr_cache_t *c; CK(napr_cache_open(&c, DB, P));
    CK(napr_cache_begin_write(c, P)); put(c, "a", 1);
    arm = 1;
    if (napr_cache_commit_write(c) == APR_SUCCESS) { fprintf(stderr, "commit did not fail\n"); return 1; }
    arm = 0;
    CK(napr_cache_begin_write(c, P)); put(c, "b", 2); CK(napr_cache_commit_write(c));
    return !has(c, "b");
}'''}, CASH % '-Wl,--wrap=apr_file_sync')

S('k03-bigger-entry', 'K03', 'a cache file written by a version whose entries are larger',
  'a stored value that is larger than an entry is returned as one',
  [(CA, "    if (value.size != sizeof(napr_cache_entry_t)) {", "    if (value.size < sizeof(napr_cache_entry_t)) {")],
  {'demo.c': CAH + r'''
int main(int n, char **av) {
    init(av); napr_db_env_t *e; napr_db_txn_t *t; napr_cache_t *c; const napr_cache_entry_t *r; int bad = 0;
    size_t sizes[] = { 1, sizeof(napr_cache_entry_t) - 1, sizeof(napr_cache_entry_t), sizeof(napr_cache_entry_t) + 8 };
    char buf[256]; memset(buf, 7, sizeof buf);
    CK(napr_db_env_create(&e, P)); CK(napr_db_env_set_mapsize(e, 10ULL << 30)); CK(napr_db_env_open(e, DB, NAPR_DB_CREATE | NAPR_DB_INTRAPROCESS_LOCK));
    CK(napr_db_txn_begin(e, 0, &t));
    for (int i = 0; i < 4; i++) { char k[8]; snprintf(k, 8, "k%d", i); napr_db_val_t K = { 0 }, V = { 0 }; K.data = k; K.size = strlen(k); V.data = buf; V.size = sizes[i]; CK(napr_db_put(t, &K, &V)); }
    CK(napr_db_txn_commit(t)); CK(napr_db_env_close(e));
    CK(napr_cache_open(&c, DB, P)); CK(napr_cache_begin_read(c, P));
    for (int i = 0; i < 4; i++) { char k[8]; snprintf(k, 8, "k%d", i); apr_status_t s = napr_cache_lookup_in_txn(c, k, &r);
        if ((s == APR_SUCCESS) != (i == 2) || (s != APR_SUCCESS && r)) { fprintf(stderr, "value of %zu bytes: status %d\n", sizes[i], s); bad = 1; } }
    return bad;
}'''}, CASH % '')

S('k04-cursor-error-commit', 'K04', 'the cursor of a sweep meets an error part way through',
  'a sweep that met a cursor error is committed and reported as complete',
  [(CA, "        if (status == APR_NOTFOUND) {\n            break;\n        }", "        if (status == APR_NOTFOUND || (status != APR_SUCCESS && !first_iteration)) {\n            break;\n        }")],
  {'demo.c': CAH + r'''
static int arm;
apr_status_t __real_napr_db_cursor_get(napr_db_cursor_t *, napr_db_val_t *, napr_db_val_t *, int);
apr_status_t __wrap_napr_db_cursor_get(napr_db_cursor_t *c, napr_db_val_t *k, napr_db_val_t *d, int op) { if (arm && --arm == 0) return APR_EGENERAL; return __real_napr_db_cursor_get(c, k, d, op); }
int main(int n, char **av) {
    init(av); napr_cache_t *c; CK(napr_cache_open(&c, DB, P)); char k[8]; int bad = 0;
    CK(napr_cache_begin_write(c, P)); for (int i = 0; i < 6; i++) { snprintf(k, 8, "k%d", i); put(c, k, i); } CK(napr_cache_commit_write(c));
    CK(napr_cache_mark_visited(c, "k5"));
    arm = 4;
    if (napr_cache_sweep(c) == APR_SUCCESS) { fprintf(stderr, "a sweep with a failing cursor reports success\n"); bad = 1; }
    arm = 0;
    for (int i = 0; i < 6; i++) { snprintf(k, 8, "k%d", i); if (!has(c, k)) { fprintf(stderr, "%s removed by a failed sweep\n", k); bad = 1; } }
    return bad;
}'''}, CASH % '-Wl,--wrap=napr_db_cursor_get')

S('k05-copy-unlocked', 'K05', 'two threads marking paths at the same time',
  'the copy of a marked path is made in the shared memory pool before the lock is taken',
  [(CA, "    /* Acquire mutex for thread-safe access to visited_set */\n", "    /* Keep the critical section short: copy the path first */\n    duplicated_path = apr_pstrdup(cache->pool, path);\n    if (!duplicated_path) {\n        return APR_ENOMEM;\n    }\n\n    /* Acquire mutex for thread-safe access to visited_set */\n"),
   (CA, "    duplicated_path = apr_pstrdup(cache->pool, path);\n    if (!duplicated_path) {\n        /* Release mutex before returning error */\n        apr_thread_mutex_unlock(cache->visited_mutex);\n        return APR_ENOMEM;\n    }\n\n", "")],
  {'demo.c': CAH + r'''
static int held, on, bad;
apr_status_t __real_apr_thread_mutex_lock(apr_thread_mutex_t *);
apr_status_t __wrap_apr_thread_mutex_lock(apr_thread_mutex_t *m) { apr_status_t s = __real_apr_thread_mutex_lock(m); held++; return s; }
apr_status_t __real_apr_thread_mutex_unlock(apr_thread_mutex_t *);
apr_status_t __wrap_apr_thread_mutex_unlock(apr_thread_mutex_t *m) { held--; return __real_apr_thread_mutex_unlock(m); }
static void chk(const char *w) { if (on && !held) { fprintf(stderr, "%s without the lock\n", w); bad = 1; } }
char *__real_apr_pstrdup(apr_pool_t *, const char *);
char *__wrap_apr_pstrdup(apr_pool_t *p, const char *s) { chk("apr_pstrdup"); return __real_apr_pstrdup(p, s); }
void __real_apr_hash_set(apr_hash_t *, const void *, apr_ssize_t, const void *);
void __wrap_apr_hash_set(apr_hash_t *h, const void *k, apr_ssize_t n, const void *v) { chk("apr_hash_set"); __real_apr_hash_set(h, k, n, v); }
int main(int n, char **av) {
    init(av); napr_cache_t *c; CK(napr_cache_open(&c, DB, P));
    on = 1; held = 0; CK(napr_cache_mark_visited(c, "a")); on = 0;
    return bad;
}'''}, CASH % '-Wl,--wrap=apr_thread_mutex_lock -Wl,--wrap=apr_thread_mutex_unlock -Wl,--wrap=apr_pstrdup -Wl,--wrap=apr_hash_set')

# ---------------- worker pool, workers, extraction
TPH = r'''
#include "napr_threadpool.h"
#include <apr_general.h>
#include <apr_thread_mutex.h>
#include <apr_thread_cond.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <pthread.h>
static pthread_mutex_t M = PTHREAD_MUTEX_INITIALIZER;
static volatile int done;
static napr_threadpool_t *T; static apr_pool_t *P;
'''
TPSH = r'''#!/bin/bash
# exit 0: property holds
H=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 1
trap 'rm -rf "$W"' EXIT
gcc -w -g -o "$W/demo" "$H/demo.c" -DHAVE_CONFIG_H -I/repo/src -I/repo/_build/src /repo/src/napr_threadpool.c $(pkg-config --cflags --libs apr-1 apr-util-1) -lpthread %s || exit 1
timeout 60 "$W/demo"
'''
S('s13-gc-unlocked', 'S13', 'a task submitted by another thread just after the waiting caller has released the mutex',
  'the queue is replaced after the pool mutex has been released, so a task submitted at that moment is lost',
  [('napr_threadpool.c', "    napr_list_delete(threadpool->list);\n    threadpool->list = napr_list_make(threadpool->pool);\n    status = apr_thread_mutex_unlock(threadpool->threadpool_mutex);\n    if (APR_SUCCESS != status) {\n        DEBUG_ERR(\"error calling apr_thread_mutex_unlock: %s\", apr_strerror(status, errbuf, ERR_BUF_SIZE));\n        return status;\n    }\n",
    "    status = apr_thread_mutex_unlock(threadpool->threadpool_mutex);\n    if (APR_SUCCESS != status) {\n        DEBUG_ERR(\"error calling apr_thread_mutex_unlock: %s\", apr_strerror(status, errbuf, ERR_BUF_SIZE));\n        return status;\n    }\n    napr_list_delete(threadpool->list);\n    threadpool->list = napr_list_make(threadpool->pool);\n")],
  {'demo.c': TPH + r'''
static volatile int arm, gate; static pthread_t me;
static apr_status_t work(void *c, void *d) { while (*(int *) d && !gate) usleep(1000); pthread_mutex_lock(&M); done++; pthread_mutex_unlock(&M); return 0; }
static int slow = 1, quick = 0;
apr_status_t __real_apr_thread_mutex_unlock(apr_thread_mutex_t *);
apr_status_t __wrap_apr_thread_mutex_unlock(apr_thread_mutex_t *m)
{
    apr_status_t s = __real_apr_thread_mutex_unlock(m);
    if (arm && pthread_equal(pthread_self(), me)) {      /* the waiting caller has just let go of the mutex: others submit work now */
        arm = 0;
        for (int i = 0; i < 3; i++) napr_threadpool_add(T, &slow);
        napr_threadpool_add(T, &quick);
        napr_threadpool_add(T, &quick);
    }
    return s;
}
int main(void) {
    apr_initialize(); apr_pool_create(&P, NULL); me = pthread_self();
    if (napr_threadpool_init(&T, NULL, 2, work, P)) return 1;
    for (int i = 0; i < 10; i++) napr_threadpool_add(T, &quick);
    arm = 1;
    alarm(20);
    if (napr_threadpool_wait(T)) return 1;
    gate = 1;
    if (napr_threadpool_wait(T)) return 1;
    if (done != 15) { fprintf(stderr, "%d of 15 tasks ran\n", done); return 1; }
    return 0;
}
'''}, TPSH % '-Wl,--wrap=apr_thread_mutex_unlock')
S('s21-second-batch', 'S21', 'a second batch of tasks on the same pool after a completed wait',
  'completion of the first batch is still recorded when more tasks are submitted: they are not run and waiting returns at once',
  [('napr_threadpool.c', "    threadpool->ended &= 0x0;\n    napr_list_enqueue(threadpool->list, data);", "    napr_list_enqueue(threadpool->list, data);")],
  {'demo.c': TPH + r'''
static apr_status_t work(void *c, void *d) { usleep(1000); pthread_mutex_lock(&M); done++; pthread_mutex_unlock(&M); return 0; }
int main(void) {
    int x = 0;
    apr_initialize(); apr_pool_create(&P, NULL); alarm(20);
    if (napr_threadpool_init(&T, NULL, 3, work, P)) return 1;
    for (int b = 1; b <= 4; b++) {
        for (int i = 0; i < 20; i++) napr_threadpool_add(T, &x);
        if (napr_threadpool_wait(T)) return 1;
        if (done != 20 * b) { fprintf(stderr, "batch %d: %d of %d tasks ran before waiting returned\n", b, done, 20 * b); return 1; }
    }
    return napr_threadpool_shutdown(T) != 0;
}
'''}, TPSH % '')
S('s12-slot-wrap', 'S12', 'more than 256 files of one size',
  'the hash of the 257th and later files of a size group is written into the slot of another file',
  [(PRC, "&fsize->chksum_array[task->index].hash_value, subpool);", "&fsize->chksum_array[(unsigned char) task->index].hash_value, subpool);")],
  {}, CLI + r'''
mkdir t
for i in $(seq 1000 1149); do printf 'content %s' $i > t/a$i; printf 'content %s' $i > t/b$i; done
timeout 60 $FT t > out || exit 1
n=$(awk 'BEGIN { RS = "" } { x = $1; y = $2; sub(/.*\/[ab]/, "", x); sub(/.*\/[ab]/, "", y); if (NF == 2 && x == y) n++ } END { print n + 0 }' out)
[ "$n" = 150 ] || { echo "$n of 150 pairs reported"; exit 1; }
''')
S('s22-partial-copy', 'S22', 'a damaged archive in which the data of the member ends early',
  'an error while reading the data of the member is taken for its end: a partial copy is handed out',
  [('ft_archive.c', "        if (result_value == ARCHIVE_EOF) {\n            return ARCHIVE_OK;\n        }\n        if (result_value != ARCHIVE_OK) {\n            DEBUG_ERR(\"error calling archive_read_data_block(): %s\", archive_error_string(archive_read));\n            return result_value;\n        }\n",
    "        if (result_value != ARCHIVE_OK) {\n            if (result_value != ARCHIVE_EOF) {\n                DEBUG_ERR(\"error calling archive_read_data_block(): %s\", archive_error_string(archive_read));\n            }\n            return offset > 0 || result_value == ARCHIVE_EOF ? ARCHIVE_OK : result_value;\n        }\n")],
  {'demo.c': r'''
#include "ft_archive.h"
#include "ft_types.h"
#include <apr_general.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/stat.h>
int main(void) {
    apr_pool_t *p; ft_file_t f; struct stat st; int bad = 0;
    apr_initialize(); apr_pool_create(&p, NULL);
    FILE *o = fopen("m", "w"); for (int i = 0; i < 300000; i++) fputc('a' + i % 26, o); fclose(o);
    if (system("tar cf whole.tar m && head -c 200000 whole.tar > cut.tar")) return 1;
    memset(&f, 0, sizeof f); f.subpath = "m";
    f.path = "whole.tar";
    char *t = ft_archive_untar_file(&f, p);
    if (!t || stat(t, &st) || st.st_size != 300000) { fprintf(stderr, "whole archive not extracted\n"); bad = 1; }
    if (t) unlink(t);
    f.path = "cut.tar";
    t = ft_archive_untar_file(&f, p);
    if (t) { stat(t, &st); fprintf(stderr, "a damaged archive is extracted (%ld bytes)\n", (long) st.st_size); unlink(t); bad = 1; }
    return bad;
}
'''}, FN % '')
S('s17-key32', 'S17', 'two sizes that share a bucket and differ by a multiple of 2^32',
  'keys that differ only in their upper half are taken for equal: files of different sizes end up in one group',
  [('key_hash.c', "    apr_off_t key1_value = *(const apr_off_t *) key1;\n    apr_off_t key2_value = *(const apr_off_t *) key2;", "    apr_uint32_t key1_value = (apr_uint32_t) *(const apr_off_t *) key1;\n    apr_uint32_t key2_value = (apr_uint32_t) *(const apr_off_t *) key2;")],
  {'demo.c': r'''
#include "napr_hash.h"
#include "key_hash.h"
#include <apr_general.h>
#include <stdio.h>
static const void *k(const void *d) { return d; }
static apr_size_t l(const void *d) { return sizeof(apr_off_t); }
static apr_uint32_t h(const void *d, apr_size_t n) { return 7; }
int main(void) {
    apr_pool_t *p; apr_uint32_t hv; static apr_off_t v[5] = { 5, 5 + (1LL << 32), 6 + (1LL << 33), 6, 5 + (3LL << 32) };
    apr_initialize(); apr_pool_create(&p, NULL);
    napr_hash_t *t = napr_hash_make(p, 4, 16, k, l, apr_off_t_key_cmp, h);
    for (int i = 0; i < 5; i++) {
        if (napr_hash_search(t, &v[i], sizeof v[i], &hv)) { fprintf(stderr, "%lld is found before it was added\n", (long long) v[i]); return 1; }
        napr_hash_set(t, &v[i], hv);
    }
    for (int i = 0; i < 5; i++) if (napr_hash_search(t, &v[i], sizeof v[i], &hv) != &v[i]) return 1;
    return 0;
}
'''}, FN % '')
HEAPD = r'''
#include "napr_heap.h"
#include <apr_general.h>
#include <stdio.h>
static int cmp(const void *a, const void *b) { return *(const int *) a < *(const int *) b ? -1 : *(const int *) a > *(const int *) b; }
static unsigned s = 1;
static unsigned rnd(void) { s = s * 1664525u + 1013904223u; return s >> 8; }
int main(void) {
    apr_pool_t *p; static int v[700];
    apr_initialize(); apr_pool_create(&p, NULL);
    for (int r = 0; r < 300; r++) {
        napr_heap_t *h = napr_heap_make(p, cmp);
        int n = r < 200 ? 1 + r % 12 : 250 + rnd() % 440;
        for (int i = 0; i < n; i++) { v[i] = rnd() % 1000; napr_heap_insert(h, &v[i]); }
        int last = 1 << 30, got = 0; int *x;
        while ((x = napr_heap_extract(h))) { if (*x > last) { fprintf(stderr, "%d handed out after %d\n", *x, last); return 1; } last = *x; got++; }
        if (got != n) { fprintf(stderr, "%d of %d elements\n", got, n); return 1; }
    }
    return 0;
}
'''
S('s18-grow-copy', 'S18', 'a heap that grows beyond its first 256 elements',
  'one element is not copied when the heap grows',
  [('napr_heap.c', "(const void *) (heap->tree), (heap->count) * sizeof(void *));", "(const void *) (heap->tree), (heap->count - (heap->count > INITIAL_MAX)) * sizeof(void *));")],
  {'demo.c': HEAPD}, FN % '')

CFG, HSZ, MNF = 'ft_config.c', 'human_size.c', 'ftwin.c'
S('s14-icase-archive', 'S14', 'the case option given after an ignore regex',
  'the case option only takes effect for the ignore regex when the image mode is also on',
  [(CFG, "conf->ig_regex = ft_pcre_compile(regex_str, is_option_set(conf->mask, OPTION_ICASE), conf->pool);", "conf->ig_regex = ft_pcre_compile(regex_str, is_option_set(conf->mask, OPTION_ICASE) && NULL == wregex_str, conf->pool);")],
  {}, CLI + r'''
mkdir d; for f in a.txt b.TXT c.TXT; do echo same > d/$f; done; echo other > d/x.TXT; echo other > d/y.TXT
timeout 60 $FT -c -w '.*' -e '.*[xy]\.txt$' d > out || exit 1
cat out
[ "$(grep -c 'd/[abc]' out)" = 3 ] && ! grep -q 'd/[xy]' out
''')
S('s14-threads-wrap', 'S14', 'a thread count that is far out of range',
  'a thread count is accepted when its low 32 bits are in range',
  [(CFG, "        long threads = strtol(optarg, &endptr, BASE_TEN);", "        int threads = (int) strtol(optarg, &endptr, BASE_TEN);")],
  {}, CLI + r'''
mkdir d; echo same > d/a; echo same > d/b
timeout 60 $FT -j 4 d > out || exit 1
timeout 60 $FT -j 4294967298 d > out 2>&1 && exit 1
exit 0
''')
S('s15-late-path', 'S15', 'three or more path arguments of which a later one cannot be scanned',
  'a path that cannot be scanned is passed over with status 0 when files were already found',
  [(MNF, '''            DEBUG_ERR("error calling ft_traverse_path: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
            return status;''', '''            DEBUG_ERR("error calling ft_traverse_path: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
            if (arg_index == first_arg_index || napr_heap_size(conf->heap) < 2) {
                return status;
            }''')],
  {}, CLI + r'''
mkdir d e; echo same > d/a; echo same > d/b; echo same > e/a; echo same > e/b
timeout 60 $FT d e > out || exit 1
timeout 60 $FT d e missing > out 2>/dev/null && exit 1
exit 0
''')

IGN = 'ft_ignore.c'
S('s16-class-negate', 'S16', 'a pattern with a negated character class',
  'the exclamation mark of a negated character class is taken literally unless it is the only character before the bracket closes',
  [(IGN, "    if (**pattern_cursor == '!' || **pattern_cursor == '^') {", "    if (**pattern_cursor == '^' || (**pattern_cursor == '!' && *(*pattern_cursor + 1) == ']')) {")],
  {}, CLI + r'''
mkdir d; echo 'file[!a-c]' > d/.gitignore; for f in a b x y; do echo same > d/file$f; done
timeout 60 $FT d > out || exit 1
cat out
grep -q filea out && grep -q fileb out && ! grep -q filex out && ! grep -q filey out
''')
S('s16-reinclude-level', 'S16', 'an ignore file below another that excludes and then re-includes a name',
  'a re-inclusion is lost when the deciding ignore file is not the innermost one',
  [(IGN, "            if (match >= 0) {\n                /* Pattern matched */", "            if (match >= 0 && (result == FT_IGNORE_MATCH_NONE || current_ctx == ctx || !(pattern->flags & FT_IGNORE_NEGATE))) {\n                /* Pattern matched */")],
  {}, CLI + r'''
mkdir -p d/s; printf '*.log\n!keep.log\n' > d/.gitignore; echo '*.tmp' > d/s/.gitignore; echo same > d/s/keep.log; echo same > d/s/other; echo same > d/s/x.log
timeout 60 $FT d > out || exit 1
cat out
grep -q keep.log out && grep -q other out && ! grep -q x.log out
''')

S('s20-size-diff', 'S20', 'files whose sizes differ by 2 GiB or more',
  'the work list ranks files by a truncated size difference, so a very large file is reported after small ones',
  [(CFG, """    if (file1->size < file2->size) {
        return -1;
    }
    if (file2->size < file1->size) {
        return 1;
    }

    return 0;""", """    return (int) (file1->size - file2->size);""")],
  {'demo.c': r"""
#include <stdio.h>
#include <string.h>
#include "ft_config.h"
#include "ft_types.h"
int ft_file_cmp(const void *, const void *);
int main(void)
{
    ft_file_t a, b;
    memset(&a, 0, sizeof a); memset(&b, 0, sizeof b);
    a.size = 10; b.size = 20;
    if (ft_file_cmp(&a, &b) >= 0 || ft_file_cmp(&b, &a) <= 0) return 1;
    a.size = 10; b.size = 10 + ((apr_off_t) 3 << 30);
    if (ft_file_cmp(&a, &b) >= 0 || ft_file_cmp(&b, &a) <= 0) return 1;
    return 0;
}
"""}, FN % '')
S('s20-exact-path', 'S20', 'a preferred path that names one file exactly',
  'a file whose path is the preferred path itself is not treated as preferred',
  [(TRV, "(strlen(filename) >= conf->p_path_len) &&", "(strlen(filename) > conf->p_path_len) &&")],
  {}, CLI + r"""
mkdir d; for i in 1 2 3 4 5 6 7 8; do echo same > d/f$i; done
for i in 1 2 3 4 5 6 7 8; do
  timeout 60 $FT -J -p "$W/d/f$i" d > out || exit 1
  python3 - "$i" <<'EOF' || exit 1
import json, sys
d = json.load(open('out'))[0]['duplicates']
sys.exit(0 if d[0]['path'].endswith('/f' + sys.argv[1]) and d[0]['prioritized'] else 1)
EOF
done
exit 0
""")
S('s09-local-time', 'S09', 'a time zone other than UTC',
  'modification times in JSON output are local times marked as UTC',
  [(RPJ, "apr_time_exp_gmt(&exploded, time_value)", "apr_time_exp_lt(&exploded, time_value)")],
  {}, CLI + r"""
mkdir d; echo same > d/a; echo same > d/b; touch -d '2020-01-02T03:04:05Z' d/a d/b
for tz in UTC XYZ5 ABC-9; do
  TZ=$tz timeout 60 $FT -J d > out || exit 1
  grep -q '2020-01-02T03:04:05Z' out || exit 1
done
exit 0
""")
S('s09-hash-pad', 'S09', 'a hash whose lower half starts with a zero digit',
  'the lower half of the hash is written without leading zeros in JSON output',
  [(RPJ, '"%016" APR_UINT64_T_HEX_FMT "%016" APR_UINT64_T_HEX_FMT', '"%016" APR_UINT64_T_HEX_FMT "%" APR_UINT64_T_HEX_FMT')],
  {}, CLI + r"""
mkdir d; for i in $(seq 1 200); do printf '%d-content' $i > d/a$i; cp d/a$i d/b$i; done
timeout 60 $FT -J d > out || exit 1
python3 - <<'EOF'
import json, sys
r = json.load(open('out'))
sys.exit(0 if len(r) == 200 and all(len(s['hash_xxh128']) == 32 for s in r) else 1)
EOF
""")
S('s01-restore-mtime', 'S01', 'a file above the size limit for mapping whose modification time has a fraction below one microsecond',
  'the modification time of large files is written back with less precision after they were hashed',
  [(PRC, """        (void) apr_file_remove(filepath, subpool);
    }
""", """        (void) apr_file_remove(filepath, subpool);
    }
    else if (file->size > h_ctx->conf->excess_size) {
        /* leave no trace of the scan */
        (void) apr_file_mtime_set(filepath, file->mtime, subpool);
    }
""")],
  {}, CLI + r"""
mkdir d; head -c 300000 /dev/zero > d/a; cp d/a d/b; cp d/a d/c
touch -d '2020-01-02 03:04:05.123456789' d/a d/b d/c
before=$(stat -c '%n %y %s' d/*)
timeout 60 $FT -x 100000 d > out || exit 1
[ "$before" = "$(stat -c '%n %y %s' d/*)" ]
""")


# ---------------------------------------------------------------- storage tree
TR = 'napr_db_tree.c'
S('d16-size-order', 'D16', 'two keys of which one is the beginning of the other and longer by 256 bytes or more',
  'the order of a key and a longer key it begins depends only on the low byte of their lengths',
  [(TR, "    if (key1_size < key2_size) {\n        return -1;\n    }\n    if (key1_size > key2_size) {\n        return 1;\n    }\n\n    return 0;", "    return (int8_t) (key1_size - key2_size);")],
  {'demo.c': DBH + r'''
int main(int c, char **av) { (void) c; init(av); napr_db_env_t *e = open_db(); napr_db_txn_t *t; char k[600]; napr_db_val_t K, V;
  memset(k, 'a', sizeof k); CK(napr_db_txn_begin(e, 0, &t));
  val(&K, k, 8); val(&V, "x", 1); CK(napr_db_put(t, &K, &V));
  val(&K, k, 8 + 256); memset(&V, 0, sizeof V);
  if (napr_db_get(t, &K, &V) == APR_SUCCESS) { fprintf(stderr, "a key that was never stored is found\n"); return 1; }
  val(&V, "y", 1); if (napr_db_put(t, &K, &V) != APR_SUCCESS) { fprintf(stderr, "the longer key is taken for the shorter one\n"); return 1; }
  CK(napr_db_txn_commit(t)); return 0; }
'''}, DBSH % '')

S('d16-inner-dirty', 'D16', 'a write transaction that has changed the right part of a tree looks up or adds a key in a part it has not changed, and later in the changed part of a tree of height three',
  'below the root, the descent for updates reads pages other than leaves from the committed file even when the transaction has changed them',
  [(TR, "        /* Get page (checks dirty pages first for write txns) */\n        page = db_get_page(txn, current_pgno);\n\n        /* Check if this is a leaf page */\n        if (page->flags & P_LEAF) {\n            /* Found the leaf - stop traversal */\n            *leaf_page_out = page;\n            return APR_SUCCESS;\n        }\n\n        /* Must be a branch page */\n        if (!(page->flags & P_BRANCH)) {\n            /* Invalid page type */\n            return APR_EINVAL;\n        }\n\n        /* Search within the branch page to find the correct child */\n        status = db_page_search(page, key, &index);\n\n        /*\n         * For branch pages in a B+ tree with \"minimum key\" semantics:\n         * - Each entry",
    "        /* Get page (checks dirty pages first for write txns) */\n        page = db_get_page(txn, current_pgno);\n\n        /* Inner pages of the committed tree need no second hash lookup */\n        if ((page->flags & P_BRANCH) && current_pgno != root_pgno && current_pgno <= txn->env->live_meta->last_pgno) {\n            page = (DB_PageHeader *) ((char *) txn->env->map_addr + (current_pgno * PAGE_SIZE));\n        }\n\n        /* Check if this is a leaf page */\n        if (page->flags & P_LEAF) {\n            /* Found the leaf - stop traversal */\n            *leaf_page_out = page;\n            return APR_SUCCESS;\n        }\n\n        /* Must be a branch page */\n        if (!(page->flags & P_BRANCH)) {\n            /* Invalid page type */\n            return APR_EINVAL;\n        }\n\n        /* Search within the branch page to find the correct child */\n        status = db_page_search(page, key, &index);\n\n        /*\n         * For branch pages in a B+ tree with \"minimum key\" semantics:\n         * - Each entry")],
  {'demo.c': DBH + r'''
static char k[400];
static void key(napr_db_val_t *K, int i) { memset(k, 'k', sizeof k); snprintf(k, 12, "%08d", i); k[8] = 'x'; val(K, k, 380); }
int main(int c, char **av) { (void) c; init(av); napr_db_env_t *e = open_db(); napr_db_txn_t *t; napr_db_val_t K, V; int i;
  CK(napr_db_txn_begin(e, 0, &t));
  for (i = 0; i < 900; i++) { key(&K, i * 10); val(&V, "0123456789", 10); CK(napr_db_put(t, &K, &V)); }
  CK(napr_db_txn_commit(t)); CK(napr_db_txn_begin(e, 0, &t));
  for (i = 0; i < 9; i++) { key(&K, 4001 + i); K.data = memcpy(malloc(380), k, 380); val(&V, "new", 3); CK(napr_db_put(t, &K, &V)); }
  for (i = 0; i < 9; i++) { key(&K, 4001 + i); memset(&V, 0, sizeof V); if (napr_db_get(t, &K, &V) != APR_SUCCESS) { fprintf(stderr, "key %d just stored is not found\n", i); return 1; } }
  CK(napr_db_txn_abort(t)); return 0; }
'''}, DBSH % '')

S('d09-exact-fit', 'D09', 'an insertion for which exactly one byte is missing',
  'a record one byte larger than the free space is placed over the last slot',
  [(TR, "    if (free_space < (node_size + sizeof(uint16_t))) {", "    if (free_space + 1U < (node_size + sizeof(uint16_t))) {")],
  {'demo.c': DBH + r'''
int main(int c, char **av) { (void) c; init(av); napr_db_env_t *e = open_db(); napr_db_txn_t *t; napr_db_val_t K, V; char k[8], d[4096]; int i, n; 
  /* 4096 - 18 = 4078 bytes; records of 4 + 4 + len (+2): fill so that exactly one record's node, but not its slot, fits */
  CK(napr_db_txn_begin(e, 0, &t)); memset(d, 'd', sizeof d);
  for (i = 0; i < 4; i++) { snprintf(k, sizeof k, "k%03d", i); val(&K, k, 4); val(&V, d, i < 3 ? 1000 : 4078 - 3 * 1010 - 10 - 500); CK(napr_db_put(t, &K, &V)); }
  snprintf(k, sizeof k, "k%03d", 4); val(&K, k, 4); memset(d, 0x11, sizeof d); val(&V, d, 491); CK(napr_db_put(t, &K, &V));
  for (i = 0; i < 5; i++) { snprintf(k, sizeof k, "k%03d", i); val(&K, k, 4); memset(&V, 0, sizeof V);
    if (napr_db_get(t, &K, &V) != APR_SUCCESS) { fprintf(stderr, "key %d is lost\n", i); return 1; }
    n = i < 3 ? 1000 : i == 3 ? 4078 - 3 * 1010 - 10 - 500 : 491;
    if (V.size != (size_t) n || ((char *) V.data)[0] != (i < 4 ? 'd' : 0x11)) { fprintf(stderr, "value %d is damaged\n", i); return 1; } }
  CK(napr_db_txn_abort(t)); return 0; }
'''}, DBSH % '')

S('d09-delete-order', 'D09', 'deleting a record from a page whose records were not inserted in key order',
  'after a deletion only the slots behind the deleted one are adjusted to the moved data',
  [(TR, "        for (idx = 0; idx < page->num_keys - 1; idx++) {\n            if (slots[idx] < delete_offset) {", "        for (idx = index; idx < page->num_keys - 1; idx++) {\n            if (slots[idx] < delete_offset) {")],
  {'demo.c': DBH + r'''
int main(int c, char **av) { (void) c; init(av); napr_db_env_t *e = open_db(); napr_db_txn_t *t; napr_db_val_t K, V; char k[8], d[64]; int i;
  CK(napr_db_txn_begin(e, 0, &t));
  for (i = 9; i >= 0; i--) { snprintf(k, sizeof k, "k%03d", i); memset(d, 'A' + i, sizeof d); CK(put(t, k, d, 20 + 3 * i)); }
  val(&K, "k007", 4); CK(napr_db_del(t, &K, NULL));
  for (i = 0; i < 10; i++) { if (i == 7) continue; snprintf(k, sizeof k, "k%03d", i); val(&K, k, 4); memset(&V, 0, sizeof V);
    if (napr_db_get(t, &K, &V) != APR_SUCCESS || V.size != (size_t) (20 + 3 * i) || ((char *) V.data)[0] != 'A' + i) { fprintf(stderr, "record %d is damaged by deleting another\n", i); return 1; } }
  CK(napr_db_txn_abort(t)); return 0; }
'''}, DBSH % '')

S('d13-empty-root', 'D13', 'the first record of an empty database is too large and refused, and the transaction goes on',
  'the root is set before the first record is known to fit: after the refusal the transaction works on a page that does not exist',
  [(D, "    /* Insert the first key */\n    status = db_page_insert(new_root, 0, key, data, 0);", "    txn->root_pgno = new_root_pgno;\n\n    /* Insert the first key */\n    status = db_page_insert(new_root, 0, key, data, 0);"),
   (D, "    apr_hash_set(txn->dirty_pages, pgno_key, sizeof(pgno_t), new_root);\n\n    /* Update transaction's root pointer */\n    txn->root_pgno = new_root_pgno;\n\n    return APR_SUCCESS;", "    apr_hash_set(txn->dirty_pages, pgno_key, sizeof(pgno_t), new_root);\n\n    return APR_SUCCESS;")],
  {'demo.c': DBH + r'''
int main(int c, char **av) { (void) c; init(av); napr_db_env_t *e = open_db(); napr_db_txn_t *t; static char d[8192];
  CK(napr_db_txn_begin(e, 0, &t));
  if (put(t, "big", d, 5000) == APR_SUCCESS) { fprintf(stderr, "oversize record accepted\n"); return 1; }
  CK(put(t, "small", "x", 1)); CK(get(t, "small")); CK(napr_db_txn_commit(t));
  CK(napr_db_txn_begin(e, NAPR_DB_RDONLY, &t)); CK(get(t, "small")); CK(napr_db_txn_abort(t)); return 0; }
'''}, DBSH % '')

S('d13-branch-left', 'D13', 'a split of an inner page whose pending divider belongs into its left half, i.e. insertions that are not in ascending order, in a tree of three levels',
  'the divider handed to the next level is the one that was already entered, not that of the split inner page',
  [(D, "        *right_child_pgno = right_page->pgno;\n        *current_key = divider_key;\n    }\n\n    /* Exited loop - split propagated all the way to root, need new root */\n    return APR_SUCCESS;\n}\n\nstatic apr_status_t handle_root_split(", "        *right_child_pgno = right_page->pgno;\n        if (search_status == APR_SUCCESS || index > parent_page->num_keys / 2) {\n            *current_key = divider_key;\n        }\n    }\n\n    /* Exited loop - split propagated all the way to root, need new root */\n    return APR_SUCCESS;\n}\n\nstatic apr_status_t handle_root_split(")],
  {'demo.c': DBH + r'''
int main(int c, char **av) { (void) c; init(av); napr_db_env_t *e = open_db(); napr_db_txn_t *t; char k[300]; int i, n = 400;
  CK(napr_db_txn_begin(e, 0, &t));
  for (i = 0; i < n; i++) { memset(k, 'x', sizeof k); snprintf(k, 8, "%06d", (i * 181) % n); k[6] = '-'; k[250] = 0; CK(put(t, k, "v", 1)); }
  for (i = 0; i < n; i++) { memset(k, 'x', sizeof k); snprintf(k, 8, "%06d", i); k[6] = '-'; k[250] = 0; if (get(t, k) != APR_SUCCESS) { fprintf(stderr, "record %d is not found\n", i); return 1; } }
  CK(napr_db_txn_abort(t)); return 0; }
'''}, DBSH % '')

S('d04-first-free-slot', 'D04', 'an old reader in a later slot of the table behind a free slot and a newer reader',
  'the search for the oldest reader stops at the first free slot behind a used one, so pages a running reader needs count as reusable',
  [(D, "        txnid_t slot_txnid = env->reader_table[slot_idx].txnid;\n        if (slot_txnid > 0) {\n            if (oldest", "        txnid_t slot_txnid = env->reader_table[slot_idx].txnid;\n        if (slot_txnid == 0 && oldest_txnid > 0) {\n            break;\n        }\n        if (slot_txnid > 0) {\n            if (oldest")],
  {'demo.c': '#include <apr_hash.h>\n' + DBH + r'''
#include "napr_db_internal.h"
static unsigned page(napr_db_env_t *e) { napr_db_txn_t *t; pgno_t g = 0; unsigned last; CK(napr_db_txn_begin(e, 0, &t)); last = t->new_last_pgno; CK(db_page_alloc(t, 1, &g)); CK(napr_db_txn_abort(t)); return g > last ? 0 : (unsigned) g; }
int main(int c, char **av) { (void) c; init(av); napr_db_env_t *e = open_db(); napr_db_txn_t *t, *a, *m, *b; char k[8]; int i;
  CK(napr_db_txn_begin(e, 0, &t)); CK(put(t, "a", "1", 1)); CK(napr_db_txn_commit(t));
  CK(napr_db_txn_begin(e, NAPR_DB_RDONLY, &a)); CK(napr_db_txn_begin(e, NAPR_DB_RDONLY, &m)); CK(napr_db_txn_begin(e, NAPR_DB_RDONLY, &b));
  for (i = 0; i < 3; i++) { snprintf(k, sizeof k, "b%d", i); CK(napr_db_txn_begin(e, 0, &t)); CK(put(t, k, "1", 1)); CK(napr_db_txn_commit(t)); }
  if (page(e)) { fprintf(stderr, "a page two readers can see is given out\n"); return 1; }
  CK(napr_db_txn_abort(a)); CK(napr_db_txn_abort(m)); CK(napr_db_txn_begin(e, NAPR_DB_RDONLY, &a));
  if (page(e)) { fprintf(stderr, "a page the remaining reader can see is given out\n"); return 1; }
  CK(napr_db_txn_abort(b)); CK(napr_db_txn_abort(a)); return 0; }
'''}, DBSH % '')

S('d04-last-of-entry', 'D04', 'a transaction that replaced several pages, and a later one that needs two new pages',
  'the last page of an entry of freed pages is handed out, but the first one is taken off the entry: the same page is handed out again',
  [(D, "        *reclaimed_pgno_out = freed_pages[0];", "        *reclaimed_pgno_out = freed_pages[data.size / sizeof(pgno_t) - 1];")],
  {'demo.c': '#include <apr_hash.h>\n' + DBH + r'''
#include "napr_db_internal.h"
int main(int c, char **av) { (void) c; init(av); napr_db_env_t *e = open_db(); napr_db_txn_t *t; static char d[1500]; char k[16]; int i, j; pgno_t g[3];
  CK(napr_db_txn_begin(e, 0, &t)); for (i = 0; i < 12; i++) { snprintf(k, sizeof k, "k%03d", i); CK(put(t, k, d, sizeof d)); } CK(napr_db_txn_commit(t));
  CK(napr_db_txn_begin(e, 0, &t)); CK(put(t, "k0005", "x", 1)); CK(napr_db_txn_commit(t));
  CK(napr_db_txn_begin(e, 0, &t));
  for (i = 0; i < 3; i++) { CK(db_page_alloc(t, 1, &g[i])); for (j = 0; j < i; j++) if (g[i] == g[j]) { fprintf(stderr, "page %lu is given out twice\n", (unsigned long) g[i]); return 1; } }
  CK(napr_db_txn_abort(t)); return 0; }
'''}, DBSH % '')

S('d11-turn-back', 'D11', 'a tree of three levels and a cursor that turns round at the border of two subtrees',
  'when a cursor moves forward into the next subtree, the inner page on the way is recorded at its second entry although its first child is entered',
  [('napr_db_cursor.c', "                /* Branch page - push and follow leftmost child */\n                cursor_push(cursor, page, 0);\n                child_pgno", "                /* Branch page - push and follow leftmost child */\n                cursor_push(cursor, page, cursor->top > 1 && page->num_keys > 1);\n                child_pgno")],
  {'demo.c': DBH + r"""
int main(int c, char **av) { (void) c; init(av); napr_db_env_t *e = open_db(); napr_db_txn_t *t; napr_db_cursor_t *u; napr_db_val_t K, V; static char d[1000]; char k[512]; int i, n = 150;
  CK(napr_db_txn_begin(e, 0, &t)); for (i = 0; i < n; i++) { memset(k, 'x', 400); k[400] = 0; snprintf(k, 8, "k%05d", i); k[6] = 'x'; CK(put(t, k, d, sizeof d)); }
  CK(napr_db_cursor_open(t, &u));
  CK(napr_db_cursor_get(u, &K, &V, NAPR_DB_FIRST));
  for (i = 0; i < n; i++) { snprintf(k, 8, "k%05d", i); if (memcmp(K.data, k, 6)) { fprintf(stderr, "forward: %.6s instead of %s\n", (char *) K.data, k); return 1; }
    if (i + 1 < n && napr_db_cursor_get(u, &K, &V, NAPR_DB_NEXT) != APR_SUCCESS) { fprintf(stderr, "record %d is left out\n", i + 1); return 1; } }
  for (i = n - 1; i >= 0; i--) { snprintf(k, 8, "k%05d", i); if (memcmp(K.data, k, 6)) { fprintf(stderr, "back: %.6s instead of %s\n", (char *) K.data, k); return 1; }
    if (i && napr_db_cursor_get(u, &K, &V, NAPR_DB_PREV) != APR_SUCCESS) { fprintf(stderr, "back: record %d is left out\n", i - 1); return 1; } }
  CK(napr_db_cursor_close(u)); CK(napr_db_txn_abort(t)); return 0; }
"""}, DBSH % '')

S('d11-reset-eof', 'D11', 'positioning a cursor at a key or a range after it has run past the end',
  'the end mark is only cleared when the cursor goes to the first or last record',
  [('napr_db_cursor.c', "    cursor->top = 0;\n    cursor->eof = 0;\n\n    if (current_pgno == 0) {", "    cursor->top = 0;\n    if (operation != NAPR_DB_SET_RANGE) {\n        cursor->eof = 0;\n    }\n\n    if (current_pgno == 0) {")],
  {'demo.c': DBH + r'''
int main(int c, char **av) { (void) c; init(av); napr_db_env_t *e = open_db(); napr_db_txn_t *t; napr_db_cursor_t *u; napr_db_val_t K, V; 
  CK(napr_db_txn_begin(e, 0, &t)); CK(put(t, "a", "1", 1)); CK(put(t, "c", "2", 1)); CK(napr_db_txn_commit(t));
  CK(napr_db_txn_begin(e, NAPR_DB_RDONLY, &t)); CK(napr_db_cursor_open(t, &u));
  CK(napr_db_cursor_get(u, &K, &V, NAPR_DB_LAST)); if (napr_db_cursor_get(u, &K, &V, NAPR_DB_NEXT) == APR_SUCCESS) { fprintf(stderr, "a record past the last\n"); return 1; }
  val(&K, "b", 1); if (napr_db_cursor_get(u, &K, &V, NAPR_DB_SET_RANGE) != APR_SUCCESS || K.size != 1 || *(char *) K.data != 'c') { fprintf(stderr, "range not found after the end was reached\n"); return 1; }
  CK(napr_db_cursor_close(u)); CK(napr_db_txn_abort(t)); return 0; }
'''}, DBSH % '')

S('s19-unread-stop', 'S19', 'an unreadable picture that lies before a readable one in the order of comparison',
  'the comparisons of a picture end at the first picture that could not be read',
  [('ft_image.c', "            if (!(file_cmp->cvec_ok & 0x1)) {\n                continue;", "            if (!(file_cmp->cvec_ok & 0x1)) {\n                break;")],
  {}, CLI + r'''
for s in 1 2 3 4; do
  rm -rf d; mkdir d
  for i in a c e g; do cp /repo/check/tests/images/red.png d/$i.png; done
  for i in b d f h; do head -c $((60 * s)) /repo/check/tests/images/red.png > d/$i.png; head -c $((400 * (s - 1))) /dev/zero >> d/$i.png; done
  "$FT" -I -s , d > out 2>err || { echo "ftwin fails"; exit 1; }
  for i in a c e g; do head -1 out | grep -q "d/$i.png" || { echo "d/$i.png is not reported with its copies"; cat out; exit 1; }; done
done
exit 0
''')

S('s19-count-ahead', 'S19', 'an unreadable picture that is extracted before readable ones',
  'the number of remaining pictures is counted along by hand and not reduced for unreadable pictures: comparisons go beyond the last picture',
  [('ft_image.c', "    ft_file_t *file = NULL;\n\n    while (NULL != (file = napr_heap_extract(conf->heap))) {", "    ft_file_t *file = NULL;\n    unsigned int heap_size = napr_heap_size(conf->heap);\n\n    while (NULL != (file = napr_heap_extract(conf->heap))) {"),
   ('ft_image.c', "        unsigned int heap_size = napr_heap_size(conf->heap);\n        for (unsigned int idx", "        heap_size--;\n        for (unsigned int idx")],
  {}, CLI + r'''
mkdir d
for i in a b c; do cp /repo/check/tests/images/red.png d/$i.png; done
(cat /repo/check/tests/images/red.png | head -c 60; head -c 5000 /dev/zero) > d/x.png
"$FT" -I -s , d > out 2>err || { echo "ftwin fails with status $?"; exit 1; }
for i in a b c; do head -1 out | grep -q "d/$i.png" || { echo "d/$i.png is not reported with its copies"; cat out; exit 1; }; done
exit 0
''')

S('s23-size-first-set', 'S23', 'two sets of twins of one size, with the size display on',
  'the size line is printed only for the first set of each size; the later sets of that size have none',
  [(RPT, "            if (is_option_set(conf->mask, OPTION_SIZED)) {\n                const char *human_size = format_human_size(fsize->val, conf->pool);", "            if (is_option_set(conf->mask, OPTION_SIZED) && index1 < index2 - index1) {\n                const char *human_size = format_human_size(fsize->val, conf->pool);")],
  {}, CLI + r'''
printf 'aaaaaaaa' > a1; cp a1 a2; printf 'bbbbbbbb' > b1; cp b1 b2; printf 'cccccccc' > c1; cp c1 c2
"$FT" -d -s , . > out 2>/dev/null || exit 1
[ "$(grep -c '^Size: 8 B$' out)" = 3 ]
''')

S('s23-dry-run-stdout', 'S23', 'a dry run whose output is read by another program',
  'the message of a dry run is written into the middle of the report on standard output',
  [(RPT, "(void) fprintf(stderr, \"Dry run: would report %s and %s as duplicates.\\n\", file1->path, file2->path);", "(void) fprintf(stdout, \"Dry run: would report %s and %s as duplicates.\\n\", file1->path, file2->path);")],
  {}, CLI + r'''
printf 'aaaaaaaa' > a1; cp a1 a2; cp a1 a3
"$FT" -n -s , . > out 2>/dev/null || exit 1
[ "$(wc -l < out)" = 2 ] && ! grep -q 'Dry' out
''')

S('s24-largest', 'S24', 'a size of one exbibyte or more',
  'the largest unit is never used: a size of one exbibyte is shown as 1024.0 PiB',
  [('human_size.c', "unit_index < (sizeof(units) / sizeof(units[0]) - 1)", "unit_index + 2 < (int) (sizeof(units) / sizeof(units[0]))")],
  {'demo.c': r'''#include <stdio.h>
#include <string.h>
#include <apr_pools.h>
#include "human_size.h"
int main(void)
{
    apr_pool_t *p;
    static const struct { apr_off_t n; const char *s; } t[] = { {512, "512 B"}, {1536, "1.5 KiB"}, {3LL << 29, "1.5 GiB"}, {3LL << 39, "1.5 TiB"}, {3LL << 49, "1.5 PiB"}, {3LL << 59, "1.5 EiB"} };
    size_t i;
    apr_initialize(); apr_pool_create(&p, NULL);
    for (i = 0; i < sizeof t / sizeof t[0]; i++) if (strcmp(format_human_size(t[i].n, p), t[i].s)) return 1;
    return 0;
}
'''}, FN % '')

S('s24-float', 'S24', 'a size of some hundred KiB or MiB just below the next unit, which single precision rounds up',
  'sizes pass through single precision, so a size just below a unit is shown in that unit',
  [('human_size.c', "    double readable_size = (double) size;\n", "    float readable_size = (float) size;\n"),
   ('human_size.c', "        readable_size /= BYTES_IN_KIBIBYTE;\n", "        readable_size /= (float) BYTES_IN_KIBIBYTE;\n")],
  {'demo.c': r'''#include <stdio.h>
#include <string.h>
#include <apr_pools.h>
#include "human_size.h"
int main(void)
{
    apr_pool_t *p;
    apr_initialize(); apr_pool_create(&p, NULL);
    return strcmp(format_human_size((1LL << 30) - 1, p), "1024.0 MiB") != 0;
}
'''}, FN % '')
