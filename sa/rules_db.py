"""Rules for the storage engine (napr_db*)."""
from common import *

ENV, TXN, META = 'napr_db_env_t', 'napr_db_txn_t', 'DB_MetaPage'
TREE_OPAQUE = ['db_page_search', 'db_find_leaf_page_in_tree', 'db_find_leaf_page', 'db_page_alloc', 'db_page_get_writable', 'db_page_insert',
               'db_page_delete', 'db_split_leaf', 'db_split_branch', 'db_find_leaf_page_with_path_in_tree', 'db_find_leaf_page_with_path',
               'db_reclaim_page_from_free_db', 'napr_db_cursor_open', 'napr_db_cursor_get', 'napr_db_cursor_close']


class Lay:
    def __init__(self, prog):
        self.prog = prog

    def off(self, s, f):
        return struct_off(self.prog, 'napr_db.c', s, f)


def m_tree(eng, st, inst, args):
    """opaque tree operation: any status, fresh outputs, no change to the identity fields of the transaction"""
    for i, a in enumerate(args):
        if a.k != 'c' and region_kind(a) in ('a', 'h'):
            eng.havoc(st, a, inst, 'tr')
    return [(st, eng.fresh(st, eng.site(st, inst, 'r'), 32))]


def tree_models(skip=()):
    return {n: m_tree for n in TREE_OPAQUE if n not in skip}


def db_engine(ctx, models=None, opaque=None, skip=()):
    op = [x for x in (opaque if opaque is not None else TREE_OPAQUE) if x not in skip]
    op = [x for x in op if x in ctx.prog.glob]
    m = dict(STD)
    m.update(tree_models(skip))
    m.update(models or {})
    return ctx.engine(opaque=op, models=m)


def fld(eng, st, base, lay, s, f):
    off, sz = lay.off(s, f)
    return eng.load(st, P(base, off), sz, sz * 8)


# ---------------------------------------------------------------- D01 + D02 (commit part)
def commit_run(ctx, want):
    """abstract run of the commit entry point; `want` selects obligations: 'dur' or 'meta'"""
    prog = ctx.prog
    lay = Lay(prog)
    RD = macro_int('NAPR_DB_RDONLY')
    PAGE = macro_int('PAGE_SIZE')
    MAGIC = macro_int('DB_MAGIC')
    txn = S(('arg', 0, 'txn'), 64)

    def seek(eng, st, inst, args):
        w = eng.eqc(st, args[1])
        pos = eng.load(st, args[2], 8, 64)

        def ok(s):
            s.mon['pos'] = pos if w == 0 else 'other'
        return status_alts(eng, st, inst, ok, lambda s: s.mon.__setitem__('failed', inst.id))

    def is_meta(eng, st, buf):
        m = eng.eqc(st, eng.load(st, buf, 4, 32))
        return m == (MAGIC & 0xffffffff)

    def write_full(eng, st, inst, args):
        buf, n = args[1], args[2]
        nn = eng.eqc(st, n)
        if is_meta(eng, st, buf):
            ctx.count('meta write')
            if want == 'dur':
                ctx.oblig('changed pages durable before meta write', site(inst))
                if st.mon.get('pend'):
                    ctx.violation('meta-before-sync', 'write ordering', 'the meta page is written while changed pages are not yet flushed', inst, st=st)
                if not st.mon.get('allw'):
                    ctx.violation('meta-before-pages', 'write ordering', 'the meta page is written on a path that has not written every changed page', inst, st=st)
                if nn != PAGE:
                    ctx.violation('meta-len', 'whole meta page written', 'meta page write length is not one page', inst, st=st)
            else:
                check_meta(eng, st, inst, buf)

            def ok(s):
                s.mon['meta'] = 1
                s.mon['pend'] = True
        else:
            ctx.count('page write')
            it = st.mon.get('it')
            if want == 'dur':
                ctx.oblig('changed page goes to its own page slot', site(inst))
                pos = st.mon.get('pos')
                pg = eng.load(st, buf, 8, 64)
                good = isinstance(pos, T) and (pos is binop('mul', pg, C(PAGE, 64), 64) or pos is binop('shl', pg, C(12, 64), 64))
                if base_of(buf).k == 's' and not good and isinstance(pos, T):
                    ctx.violation('page-pos', 'page offset', 'a changed page is written at a file offset that is not its page number times the page size', inst, st=st)
                if nn != PAGE:
                    ctx.violation('page-len', 'whole page written', 'a changed page is written with a length different from the page size', inst, st=st)
                if st.mon.get('meta'):
                    ctx.violation('page-after-meta', 'write ordering', 'a changed page is written after the meta page', inst, st=st)

            def ok(s):
                s.mon['pend'] = True
                it = s.mon.get('it')
                if it and it[1] is buf: s.mon['it'] = (it[0], it[1], True, it[3])
        return status_alts(eng, st, inst, ok, lambda s: s.mon.__setitem__('failed', inst.id))

    def write_other(eng, st, inst, args):
        if want == 'dur' and st.mon.get('meta'):
            ctx.violation('write-after-meta', 'write ordering', 'data is written after the meta page', inst, st=st)

        def ok(s): s.mon['pend'] = True
        return status_alts(eng, st, inst, ok, lambda s: s.mon.__setitem__('failed', inst.id))

    def sync(eng, st, inst, args):
        ctx.count('sync')

        def ok(s):
            s.mon['pend'] = False
            if s.mon.get('meta') == 1: s.mon['meta'] = 2
        return status_alts(eng, st, inst, ok, lambda s: s.mon.__setitem__('failed', inst.id))

    def is_dirty(eng, st, h):
        return h is fld(eng, st, txn, lay, TXN, 'dirty_pages')

    def hfirst(eng, st, inst, args):
        dirty = is_dirty(eng, st, args[1])
        s2 = st.fork()
        v = eng.fresh(st, ('hidx', st.frames[-1].ctx, inst.id), 64)
        eng.constrain(st, v, 'ne', 0)
        if dirty:
            st.mon['it'] = (v, None, False, True)
            if st.mon.get('nonempty'): return [(st, v)]
            s2.mon['allw'] = True
        return [(st, v), (s2, NULL)]

    def hnext(eng, st, inst, args):
        it = st.mon.get('it')
        mine = it and it[0] is args[0]
        s2 = st.fork()
        v = eng.fresh(st, ('hidx', st.frames[-1].ctx, inst.id), 64)
        eng.constrain(st, v, 'ne', 0)
        if mine:
            ok = it[3] and (it[1] is None or it[2])
            st.mon['it'] = (v, None, False, ok)
            s2.mon['it'] = None
            if ok: s2.mon['allw'] = True
        return [(st, v), (s2, NULL)]

    def hthis(eng, st, inst, args):
        r = m_hash_this(eng, st, inst, args)
        it = st.mon.get('it')
        if it and it[0] is args[0] and args[3].k != 'c':
            v = eng.load(st, args[3], 8, 64)
            eng.constrain(v and st, v, 'ne', 0)
            st.mon['it'] = (it[0], v, False, it[3])
        elif it and it[0] is args[0]:
            st.mon['it'] = (it[0], S(('nopage',), 64), False, it[3])
        return r

    def check_meta(eng, st, inst, buf):
        pos = st.mon.get('pos')
        pc = eng.eqc(st, pos) if isinstance(pos, T) else None
        env = fld(eng, st, txn, lay, TXN, 'env')
        live = fld(eng, st, env, lay, ENV, 'live_meta')
        m0 = fld(eng, st, env, lay, ENV, 'meta0')
        m1 = fld(eng, st, env, lay, ENV, 'meta1')
        ctx.oblig('new meta page goes to the slot that is not live', site(inst))
        e0 = eng.ev(st, icmp('eq', live, m0))
        e1 = eng.ev(st, icmp('eq', live, m1))
        if pc is not None:
            live_off = 0 if e0 is True or (e1 is False and e0 is not False) else PAGE if e1 is True or e0 is False else None
            if pc == live_off and live_off is not None:
                ctx.violation('meta-slot', 'alternate meta slots', 'commit overwrites the live meta page (offset %d) in place' % pc, inst, st=st)
            elif pc not in (0, PAGE):
                ctx.violation('meta-slot', 'alternate meta slots', 'commit writes the meta page at file offset %d' % pc, inst, st=st)
            elif live_off is None:
                ctx.violation('meta-slot', 'alternate meta slots', 'commit picks the meta slot without consulting which one is live', inst, st=st)
            st.mon['slot'] = pc
        want_c = {'magic': MAGIC & 0xffffffff, 'version': macro_int('DB_VERSION')}
        for f, c in want_c.items():
            ctx.oblig('meta field ' + f, site(inst))
            v = fld(eng, st, buf, lay, META, f)
            if eng.eqc(st, v) != c:
                ctx.violation('meta-' + f, 'meta contents', 'the committed meta page does not carry the %s that recovery validates' % f, inst, st=st)
        for f, t in (('txnid', 'txnid'), ('last_pgno', 'new_last_pgno')):
            ctx.oblig('meta field ' + f, site(inst))
            v = fld(eng, st, buf, lay, META, f)
            if v is not fld(eng, st, txn, lay, TXN, t):
                ctx.violation('meta-' + f, 'meta contents', "the committed meta page's %s is not the transaction's %s" % (f, t), inst, st=st)
        metas = [x for x in (live, m0, m1)]
        for f, t in (('root', 'root_pgno'), ('free_db_root', 'free_db_root_pgno')):
            ctx.oblig('meta field ' + f, site(inst))
            v = fld(eng, st, buf, lay, META, f)
            bad = v.k == 'c' or any(s.a[0][0] == 'undef' for s in v.syms if isinstance(s.a[0], tuple))
            if v.k == 's' and isinstance(v.a[0], tuple) and v.a[0][0] == 'ld' and base_of(v.a[0][1]) in metas: bad = True
            other = fld(eng, st, txn, lay, TXN, 'free_db_root_pgno' if f == 'root' else 'root_pgno')
            if v is other: bad = True
            if bad:
                ctx.violation('meta-' + f, 'meta contents', "the committed meta page's %s does not come from this transaction (%s)" % (f, show(v)), inst, st=st)

    def on_store(eng, st, inst, ptr, val, tag):
        b = base_of(ptr)
        if tag and tag[0] == '%struct.' + ENV and tag[1] == 'live_meta':
            ctx.count('live switch')
            if want == 'dur':
                ctx.oblig('new version visible only once durable', site(inst))
                if st.mon.get('meta') != 2 or st.mon.get('pend'):
                    ctx.violation('live-before-sync', 'publish after durable', 'the new version becomes visible before its meta page is flushed', inst, st=st)
                if st.mon.get('failed'):
                    ctx.violation('live-after-fail', 'publish after durable', 'the new version becomes visible although an I/O operation failed', inst, st=st)
            else:
                ctx.oblig('in-memory live meta is the slot just written', site(inst))
                env = fld(eng, st, txn, lay, TXN, 'env')
                slot = st.mon.get('slot')
                m0 = fld(eng, st, env, lay, ENV, 'meta0')
                m1 = fld(eng, st, env, lay, ENV, 'meta1')
                want_p = m0 if slot == 0 else m1
                if slot is not None and val is not want_p and eng.ev(st, icmp('eq', val, want_p)) is not True:
                    ctx.violation('live-slot', 'publish the written slot', 'the in-memory live meta pointer is not set to the slot written to disk', inst, st=st)
            st.mon['live'] = True
            return
        if len(st.frames) >= 1 and b.k == 's' and isinstance(b.a[0], tuple):
            env = fld(eng, st, txn, lay, TXN, 'env')
            metas = [fld(eng, st, env, lay, ENV, f) for f in ('meta0', 'meta1', 'live_meta', 'map_addr')]
            if b in metas and want == 'dur':
                ctx.oblig('mapped meta page untouched before it is durable', site(inst))
                if st.mon.get('meta') != 2 or st.mon.get('failed'):
                    ctx.violation('map-meta-early', 'publish after durable', 'the mapped meta page is modified before the new meta page is flushed', inst, st=st)
            if b.a[0][0] == 'hthis' and want == 'dur' and st.mon.get('allw'):
                ctx.violation('page-late', 'write ordering', 'a changed page is modified after the pages were written out', inst, st=st)

    def on_exit(eng, st, v, how, inst):
        if want != 'dur': return
        z = ret_is_zero(eng, st, v)
        ctx.oblig('commit exit', site(inst))
        if st.mon.get('failed') and z is not False:
            ctx.violation('fail-success', 'I/O failure reported', 'commit can report success although an I/O operation failed', inst, st=st)
        if z is False: return
        flags = fld(eng, st, txn, lay, TXN, 'flags')
        rd = eng.ev(st, icmp('ne', binop('and', flags, C(RD, 32), 32), C(0, 32)))
        if rd is True: return
        dp = fld(eng, st, txn, lay, TXN, 'dirty_pages')
        if eng.eqc(st, dp) == 0: return
        if st.mon.get('empty'): return
        if st.mon.get('meta') != 2 or st.mon.get('pend') or not st.mon.get('live'):
            ctx.violation('success-undurable', 'durable before success', 'commit reports success without having flushed the meta page and published the new version', inst, st=st)

    def hcount(eng, st, inst, args):
        s2 = st.fork()
        v = eng.fresh(st, eng.site(st, inst, 'cnt'), 32)
        eng.constrain(st, v, 'ne', 0)
        s2.mon['empty'] = True
        st.mon['nonempty'] = True
        return [(st, v), (s2, C(0, 32))]

    eng = db_engine(ctx, models={
        'apr_file_seek': seek, 'apr_file_write_full': write_full, 'apr_file_write': write_other, 'apr_file_puts': write_other, 'apr_file_writev': write_other,
        'apr_file_trunc': write_other, 'apr_file_sync': sync, 'apr_file_datasync': sync, 'fsync': sync, 'fdatasync': sync,
        'apr_hash_first': hfirst, 'apr_hash_next': hnext, 'apr_hash_this': hthis, 'apr_hash_count': hcount,
        'apr_hash_get': m_maybe_null('hget'), 'apr_hash_set': lambda e, s, i, a: [(s, None)]})
    eng.on_store = on_store
    eng.on_exit = on_exit
    ctx.run(eng, 'napr_db_txn_commit', [txn])
    ctx.need('meta write'); ctx.need('page write'); ctx.need('sync', 2); ctx.need('live switch')


def D01(ctx):
    commit_run(ctx, 'dur')


# ---------------------------------------------------------------- D02: meta slots and recovery
def D02(ctx):
    commit_run(ctx, 'meta')
    prog = ctx.prog
    lay = Lay(prog)
    PAGE = macro_int('PAGE_SIZE')
    MAGIC = macro_int('DB_MAGIC') & 0xffffffff
    VER = macro_int('DB_VERSION')
    env = S(('arg', 0, 'env'), 64)

    def stat(eng, st, inst, args):
        nx = st.fork(); er = st.fork()
        r = eng.fresh(er, eng.site(er, inst, 'st'), 32)
        for c in (0, 2): eng.constrain(er, r, 'ne', c)
        st.mon['exists'] = True
        nx.mon['exists'] = False
        nx.note(inst, 'file does not exist'); st.note(inst, 'file exists')
        return [(st, C(0, 32)), (nx, C(2, 32)), (er, r)]

    def mmap_off(eng, st, inst, args):
        def ok(s):
            v = eng.fresh(s, ('map', 'base'), 64)
            eng.constrain(s, v, 'ne', 0)
            eng.store(s, args[0], v, 8)
        return status_alts(eng, st, inst, ok)

    def fopen(eng, st, inst, args):
        fl = eng.eqc(st, args[2])
        ctx.oblig('open flags', site(inst))
        if (fl is None or fl & 0x10 or fl & 0x20000000) and st.mon.get('exists') is not False:
            ctx.violation('open-trunc', 'existing database preserved', 'an existing database file can be opened with truncation', inst, st=st)
        return status_alts(eng, st, inst, lambda s: nonzero(eng, s, out_fresh(eng, s, inst, args[0], 'file')))

    def trunc(eng, st, inst, args):
        ctx.count('trunc')
        if st.mon.get('exists') is not False:
            ctx.violation('open-trunc', 'existing database preserved', 'an existing database file can be resized on open', inst, st=st)
        n = eng.eqc(st, args[1])
        if n is not None and n < 2 * PAGE:
            ctx.violation('open-small', 'room for both meta pages', 'a new database file is created smaller than its two meta pages', inst, st=st)

        def ok(s): s.mon['sized'] = True
        return status_alts(eng, st, inst, ok)

    def sync(eng, st, inst, args):
        def ok(s): s.mon['pend'] = False
        return status_alts(eng, st, inst, ok)

    def on_store(eng, st, inst, ptr, val, tag):
        b = base_of(ptr)
        if b.k == 's' and b.a[0] == ('map', 'base'):
            ctx.count('meta init store')
            st.mon['pend'] = True
            if st.mon.get('exists') is not False:
                ctx.violation('open-reinit', 'existing database preserved', 'opening an existing database overwrites its meta pages', inst, st=st)

    def on_exit(eng, st, v, how, inst):
        if ret_is_zero(eng, st, v) is False: return
        if eng.eqc(st, env) == 0: return
        ctx.oblig('open exit', site(inst))
        ctx.count('open success')
        if st.mon.get('pend'):
            ctx.violation('open-unsynced', 'new database durable', 'a new database is reported open before its meta pages are flushed', inst, st=st)
        live = fld(eng, st, env, lay, ENV, 'live_meta')
        base, off, dyn = parts(live)
        if not (base.k == 's' and base.a[0] == ('map', 'base')) or off not in (0, PAGE) or dyn:
            ctx.violation('open-nolive', 'recovery selects a meta page', 'open can succeed without selecting one of the two meta pages (live = %s)' % show(live), inst, st=st)
            return
        oth = P(base, PAGE - off)
        m = lambda p, f: fld(eng, st, p, lay, META, f)
        if eng.eqc(st, m(live, 'magic')) != MAGIC or eng.eqc(st, m(live, 'version')) != VER:
            ctx.violation('open-invalid', 'recovery validates the meta page', 'open can select a meta page whose magic or version was not validated', inst, st=st)
        om, ov = m(oth, 'magic'), m(oth, 'version')
        inval = eng.ev(st, icmp('ne', om, C(MAGIC, 32))) is True or eng.ev(st, icmp('ne', ov, C(VER, 32))) is True
        newer = eng.ev(st, icmp('uge', m(live, 'txnid'), m(oth, 'txnid'))) is True
        if not inval and not newer:
            ctx.violation('open-stale', 'recovery selects the newest valid meta page', 'open can select a meta page although the other valid one may be newer', inst, st=st)
        if st.mon.get('exists') is False:
            if eng.eqc(st, om) != MAGIC: ctx.violation('open-init', 'both meta pages initialised', 'a new database has an uninitialised meta page', inst, st=st)
            if not st.mon.get('sized'): ctx.violation('open-small', 'room for both meta pages', 'a new database file is mapped without being sized', inst, st=st)

    eng = ctx.engine(models=dict(STD, **{
        'apr_stat': stat, 'apr_file_open': fopen, 'apr_file_trunc': trunc, 'apr_mmap_create': m_status_out('mm'), 'apr_mmap_offset': mmap_off,
        'apr_file_sync': sync, 'apr_file_datasync': sync, 'apr_thread_mutex_create': m_status_out('mtx'), 'apr_proc_mutex_create': m_status_out('pmtx'),
        'apr_mmap_delete': m_status, 'apr_file_close': m_status}))
    eng.on_store = on_store
    eng.on_exit = on_exit
    eng.unroll, eng.concrete = 3, lambda v: True
    ctx.run(eng, 'napr_db_env_open', [env])
    ctx.need('open success'); ctx.need('meta init store'); ctx.need('trunc')

    # a version that does not fit in the map must not be opened; one that just fits must be
    for last in (15, 16, 400):
        seen = []

        def mmap_const(eng, st, inst, args, last=last):
            def ok(s):
                v = S(('map', 'base'), 64)
                eng.constrain(s, v, 'ne', 0)
                eng.store(s, args[0], v, 8)
                for k in (0, 1):
                    for f, x in (('magic', MAGIC), ('version', VER), ('txnid', 3 + k), ('last_pgno', last)):
                        o, z = lay.off(META, f)
                        eng.store(s, P(v, k * PAGE + o), C(x, 8 * z), z)
            return status_alts(eng, st, inst, ok)

        def setup(eng, st):
            o, z = lay.off(ENV, 'mapsize')
            nonzero(eng, st, env)
            eng.store(st, P(env, o), C(16 * PAGE, 8 * z), z)
            st.mon['keep'] = (env, S(('map', 'base'), 64))

        def on_exit2(eng, st, v, how, inst, last=last):
            if how != 'ret' or st.mon.get('exists') is not True: return
            ctx.oblig('open within the map', site(inst))
            z = ret_is_zero(eng, st, v)
            if z is not False: seen.append(1)
            if z is True and last > 15:
                ctx.violation('open-outside', 'the version fits in the map', 'a database whose last page is %d is opened with a memory map of only 16 pages: its pages are read outside the map' % last, inst, st=st)
        eng = ctx.engine(models=dict(STD, **{
            'apr_stat': stat, 'apr_file_open': fopen, 'apr_file_trunc': m_status, 'apr_mmap_create': m_status_out('mm'), 'apr_mmap_offset': mmap_const,
            'apr_file_sync': m_status, 'apr_file_datasync': m_status, 'apr_thread_mutex_create': m_status_out('mtx'), 'apr_proc_mutex_create': m_status_out('pmtx'),
            'apr_mmap_delete': m_status, 'apr_file_close': m_status}))
        eng.on_exit = on_exit2
        eng.unroll, eng.concrete = 3, lambda v: True
        ctx.run(eng, 'napr_db_env_open', [env], setup=setup)
        if last == 15 and not seen:
            f = ctx.prog.need('napr_db_env_open')
            ctx.violation('open-refused', 'the version fits in the map', 'a database that fits exactly in the memory map cannot be opened', None, fn=f)


# ---------------------------------------------------------------- D03 / D05 / D06: transaction begin and end
def writes_file(n):
    return n in ('apr_file_write', 'apr_file_write_full', 'apr_file_writev', 'apr_file_trunc', 'apr_file_puts', 'apr_file_putc', 'write', 'pwrite', 'ftruncate', 'apr_file_printf')


def strip_ext(t):
    while t.k == 'op' and t.a[0] in ('sext', 'zext'): t = t.a[1]
    return t


def strip_add(t):
    """(term, constant added)"""
    k = 0
    while t.k == 'op' and (t.a[0] in ('sext', 'zext') or (t.a[0] == 'add' and t.a[2].k == 'c')):
        if t.a[0] == 'add': k += sgn(cv(t.a[2]), t.bits)
        t = t.a[1]
    return t, k


def symname(t):
    """name of the (possibly extended) symbol, generation stripped"""
    while t.k == 'op' and t.a[0] in ('sext', 'zext'): t = t.a[1]
    if t.k != 's': return None
    n = t.a[0]
    while isinstance(n, tuple) and n and n[0] in ('old', 'old2'): n = n[1]
    return n


def slot_scan_hooks(ctx, eng, lay, envof):
    """hooks recording how a loop walks the reader table; returns the table geometry"""
    prog = ctx.prog
    rt_off, rt_sz = lay.off(ENV, 'reader_table')
    u = prog.units['napr_db.c']
    ssz = u.types.size(u.types.named['%struct.DB_ReaderSlot'])
    n = rt_sz // ssz

    def slot_of(eng, st, ptr, env):
        b, off, dyn = parts(ptr)
        if b is not base_of(env): return None
        off -= parts(env)[1]
        if not (rt_off <= off < rt_off + rt_sz) and not dyn: return None
        if any(s % ssz for _, s in dyn): return None
        if dyn and not (rt_off - 4 * ssz <= off < rt_off + rt_sz): return None
        return ((off - rt_off) // ssz, dyn), (off - rt_off) % ssz

    def saw_load(eng, st, inst, ptr):
        so = slot_of(eng, st, ptr, envof(eng, st))
        if so is None: return None
        (k, dyn), f = so
        if not st.mon.get('scan'):
            st.mon['scan'] = True
            if not dyn and k not in (0, n - 1):
                ctx.violation('scan-start', 'whole reader table scanned', 'the reader table scan starts at slot %d' % k, inst, st=st)
        for t, _ in dyn: st.mon['idx'], st.mon['lastidx'] = symname(t), (strip_ext(t), k)
        return so

    def on_phi(eng, st, blk, phs):
        ix = st.mon.get('idx')
        for ph, old, new in phs:
            if old is not None and ix is not None and symname(old) == ix:
                if new.k == 'op' and new.a[0] == 'add' and new.a[1] is old and new.a[2].k == 'c' and sgn(cv(new.a[2]), new.bits) not in (1, -1):
                    ctx.violation('scan-step', 'whole reader table scanned', 'the reader table scan skips slots', blk.body[0], st=st)

    def on_branch(eng, st, inst, cond, val):
        f = inst.fn
        bn = inst.block.name
        for h, body in f.loops.items():
            if bn in body:
                tgt = inst.a[1][0 if val else 1]
                out = tgt not in body
                t = cond
                ix = st.mon.get('idx')
                if t.k == 'cmp' and t.a[2].k == 'c' and t.a[0] in NEG:
                    x, k = strip_add(t.a[1])
                    if ix is not None and symname(x) == ix and t.a[0] in ('ult', 'slt', 'uge', 'sge', 'ne', 'eq'):
                        last = st.mon.get('lastidx')
                        c = sgn(cv(t.a[2]), t.a[2].bits) - k
                        if last and last[0] is x: c += 1 + last[1]      # tested after the slot was examined
                        if c != n and c > 1:
                            ctx.violation('scan-bound', 'whole reader table scanned', 'the reader table scan covers %d slots, the table has %d' % (c, n), inst, st=st)
                if out and st.mon.get('scan'):
                    env = envof(eng, st)
                    dep = any(isinstance(s.a[0], tuple) and s.a[0] and s.a[0][0] == 'ld' and slot_of(eng, st, s.a[0][1], env) is not None for s in cond.syms)
                    st.mon['exit'] = 'content' if dep else 'bound'
    eng.on_phi = on_phi
    eng.on_branch = on_branch
    return slot_of, saw_load, n, ssz


def slot_field(lay, f):
    return struct_off(lay.prog, 'napr_db.c', 'DB_ReaderSlot', f)[0]


def txn_run(ctx, want):
    prog = ctx.prog
    lay = Lay(prog)
    RD = macro_int('NAPR_DB_RDONLY')
    PID, TID, TX = (slot_field(lay, f) for f in ('pid', 'tid', 'txnid'))
    ENVARG = S(('arg', 0, 'env'), 64)
    TXNARG = S(('arg', 0, 'txn'), 64)
    FLAGS = S(('arg', 1, 'flags'), 32)
    OUT = S(('arg', 2, 'out'), 64)

    def V(key, rule, msg, inst, st, w):
        if w == want: ctx.violation(key, rule, msg, inst, st=st)

    def one(entry):
        begin = entry == 'napr_db_txn_begin'

        def envof(eng, st):
            if begin: return ENVARG
            return fld(eng, st, TXNARG, lay, TXN, 'env')

        def flags(eng, st):
            if begin: return FLAGS
            return st.mon['flags']

        def rdonly(eng, st):
            return eng.ev(st, icmp('ne', binop('and', flags(eng, st), C(RD, 32), 32), C(0, 32)))

        def which(eng, st, m):
            e = envof(eng, st)
            if m in (fld(eng, st, e, lay, ENV, 'writer_thread_mutex'), fld(eng, st, e, lay, ENV, 'writer_proc_mutex')): return 'w'
            if m is fld(eng, st, e, lay, ENV, 'reader_table_mutex'): return 'r'
            return 'x'

        def lock(eng, st, inst, args):
            k = which(eng, st, args[0])
            ctx.count('lock ' + k)

            def ok(s):
                if s.mon.get(k): V('relock-' + k, 'lock balance', 'a lock already held is acquired again', inst, s, 'lock')
                s.mon[k] = 1
            if not result_used(inst):
                # a blocking acquire whose status nobody looks at: modelled as succeeding
                ok(st)
                return [(st, C(0, 32))]
            return status_alts(eng, st, inst, ok)

        def unlock(eng, st, inst, args):
            k = which(eng, st, args[0])
            ctx.count('unlock ' + k)
            ctx.oblig('unlock', site(inst))
            if not st.mon.get(k):
                V('unlock-' + k, 'lock balance', '%s releases %s it does not hold on this path' % (entry, 'the writer lock' if k == 'w' else 'the reader table lock' if k == 'r' else 'a lock'), inst, st, 'lock')
            if k == 'w' and rdonly(eng, st) is True:
                V('unlock-rd', 'lock balance', 'a read-only transaction releases the writer lock', inst, st, 'lock')
            st.mon[k] = 0
            if k == 'w': st.mon['unl'] = 1
            return [(st, eng.fresh(st, eng.site(st, inst, 'st'), 32))]

        def pool_create(eng, st, inst, args):
            def ok(s):
                v = nonzero(eng, s, out_fresh(eng, s, inst, args[0], 'pool'))
                s.mon['pool'] = v
            return status_alts(eng, st, inst, ok)

        def pool_destroy(eng, st, inst, args):
            p = st.mon.get('pool') if begin else fld(eng, st, TXNARG, lay, TXN, 'pool')
            if args[0] is p:
                if st.mon.get('gone'): V('destroy-twice', 'handle lifetime', 'the transaction pool is destroyed twice', inst, st, 'lock')
                st.mon['gone'] = 1
            return [(st, None)]

        def fresh64(kind, bits=64):
            def m(eng, st, inst, args):
                return [(st, S((kind,), bits))]
            return m

        eng = db_engine(ctx, models={
            'apr_thread_mutex_lock': lock, 'apr_proc_mutex_lock': lock, 'apr_thread_mutex_unlock': unlock, 'apr_proc_mutex_unlock': unlock,
            'apr_thread_mutex_trylock': lock, 'apr_proc_mutex_trylock': lock,
            'apr_pool_create_ex': pool_create, 'apr_pool_destroy': pool_destroy,
            'apr_hash_make': m_maybe_null('hash'), 'apr_array_make': m_maybe_null('array'),
            'getpid': fresh64('pid', 32), 'apr_os_thread_current': fresh64('tid'), 'pthread_self': fresh64('tid'),
            'apr_file_seek': m_status, 'apr_file_write': m_status, 'apr_file_write_full': m_status, 'apr_file_sync': m_status,
            'apr_hash_first': m_maybe_null('hidx'), 'apr_hash_next': m_maybe_null('hidx'),
            'apr_hash_get': m_maybe_null('hget'), 'apr_hash_set': lambda e, s, i, a: [(s, None)]})
        slot_of, saw_load, n, ssz = slot_scan_hooks(ctx, eng, lay, envof)

        def on_call(eng, st, inst, name, args):
            if name and (writes_file(name) or name == 'apr_file_sync'):
                if not st.mon.get('w'):
                    V('write-unlocked', 'single writer', 'the database file is written without the writer lock', inst, st, 'lock')

        def on_load(eng, st, inst, ptr, tag):
            if not begin and base_of(ptr) is TXNARG and st.mon.get('gone'):
                V('use-after', 'handle lifetime', 'the transaction handle is read after its memory was released', inst, st, 'lock')
            so = saw_load(eng, st, inst, ptr)
            if so is not None:
                ctx.count('slot load')
                if not st.mon.get('r'): V('slot-unlocked', 'reader table guarded', 'the reader table is read without its lock', inst, st, 'slot')
            if tag and tag[0] == '%struct.' + ENV and tag[1] == 'live_meta':
                ctx.count('live load')
                ctx.oblig('current version read under the right lock', site(inst))
                rd = rdonly(eng, st)
                if not ((rd is True and (st.mon.get('r') or st.mon.get('w'))) or st.mon.get('w')):
                    V('snap-unlocked', 'snapshot captured under lock', 'the current version is read %s' % ('before the reader table lock is held' if rd is True else 'without the writer lock'), inst, st, 'snap')
                elif rd is True and st.mon.get('snapgen', st.mon.get('gen', 0)) != st.mon.get('gen', 0):
                    pass

        def on_store(eng, st, inst, ptr, val, tag):
            if not begin and base_of(ptr) is TXNARG and st.mon.get('gone'):
                V('use-after', 'handle lifetime', 'the transaction handle is written after its memory was released', inst, st, 'lock')
            if tag and tag[0] == '%struct.' + ENV and tag[1] == 'live_meta':
                ctx.count('live store')
                if not st.mon.get('w'): V('live-unlocked', 'single writer', 'the current version is switched without the writer lock', inst, st, 'lock')
                if not st.mon.get('r'): V('live-noreader', 'version switch atomic for readers', 'the current version is switched without excluding readers that are taking a snapshot', inst, st, 'snap')
            if not begin and base_of(ptr).k == 's' and isinstance(base_of(ptr).a[0], tuple) and base_of(ptr).a[0][0] == 'ld':
                e = envof(eng, st)
                if base_of(ptr) in [fld(eng, st, e, lay, ENV, x) for x in ('meta0', 'meta1', 'live_meta')]:
                    if not st.mon.get('w'): V('meta-unlocked', 'single writer', 'a mapped meta page is modified without the writer lock', inst, st, 'lock')
            so = slot_of(eng, st, ptr, envof(eng, st))
            if so is None: return
            key, f = so
            ctx.count('slot store')
            ctx.oblig('reader slot change', site(inst))
            if not st.mon.get('r'): V('slot-unlocked', 'reader table guarded', 'the reader table is changed without its lock', inst, st, 'slot')
            base = P(envof(eng, st), lay.off(ENV, 'reader_table')[0] + key[0] * ssz, key[1])
            if st.mon.get('slot') is None:
                st.mon['slot'] = base
                cur = eng.load(st, P(base, TX), 8, 64)
                if begin:
                    if eng.ev(st, icmp('eq', cur, C(0, 64))) is not True:
                        V('slot-busy', 'only free slots taken', 'a reader slot that may be in use is taken over', inst, st, 'slot')
                else:
                    ok = eng.ev(st, icmp('eq', cur, fld(eng, st, TXNARG, lay, TXN, 'txnid'))) is True
                    ok2 = eng.ev(st, icmp('eq', eng.load(st, P(base, PID), 4, 32), S(('pid',), 32))) is True
                    ok3 = eng.ev(st, icmp('eq', eng.load(st, P(base, TID), 8, 64), S(('tid',), 64))) is True
                    if not ok: V('slot-other', 'only the own slot cleared', "a slot is cleared whose snapshot is not this transaction's", inst, st, 'slot')
                    if not (ok2 and ok3): V('slot-owner', 'only the own slot cleared', 'a slot is cleared without checking that this process and thread own it', inst, st, 'slot')
            elif st.mon['slot'] is not base:
                V('slot-many', 'one slot per transaction', 'more than one reader slot is changed', inst, st, 'slot')
            if f == TX or tag is None:
                if begin: st.mon['regval'] = val
                elif eng.eqc(st, val) == 0: st.mon['clr'] = 1
            elif begin and f == PID: st.mon['regpid'] = val
            elif begin and f == TID: st.mon['regtid'] = val

        def on_exit(eng, st, v, how, inst):
            z = ret_is_zero(eng, st, v)
            ctx.oblig(entry + ' exit', site(inst))
            ctx.count('exit ' + entry)
            rd = rdonly(eng, st)
            if st.mon.get('r'):
                V('exit-r', 'lock balance', '%s returns with the reader table lock held' % entry, inst, st, 'lock')
            if begin:
                null = eng.eqc(st, ENVARG) == 0 or eng.eqc(st, OUT) == 0
                if z is not True and z is not False: z = None
                if z is not False:
                    if null: return
                    ctx.count('begin success')
                    if rd is not True and not st.mon.get('w'): V('begin-nolock', 'single writer', 'a write transaction can begin without holding the writer lock', inst, st, 'lock')
                    if rd is True and st.mon.get('w'): V('begin-rdlock', 'readers never block writers', 'a read-only transaction begins holding the writer lock', inst, st, 'lock')
                    if st.mon.get('gone'): V('begin-gone', 'handle lifetime', 'begin returns a handle whose memory was released', inst, st, 'lock')
                    h = eng.load(st, OUT, 8, 64)
                    live = fld(eng, st, ENVARG, lay, ENV, 'live_meta')
                    want_id = fld(eng, st, live, lay, META, 'txnid')
                    if rd is not True: want_id = binop('add', want_id, C(1, 64), 64)
                    for f, w in (('txnid', want_id), ('root_pgno', fld(eng, st, live, lay, META, 'root')), ('free_db_root_pgno', fld(eng, st, live, lay, META, 'free_db_root')),
                                 ('new_last_pgno', fld(eng, st, live, lay, META, 'last_pgno')), ('env', ENVARG), ('flags', FLAGS)):
                        ctx.oblig('snapshot field ' + f, site(inst))
                        x = fld(eng, st, h, lay, TXN, f)
                        if x is not w and eng.ev(st, icmp('eq', x, w)) is not True and not (f == 'flags' and rdonly_eq(eng, st, x, rd)):
                            V('snap-' + f, 'snapshot of the current version', "a new transaction's %s is %s instead of %s" % (f, show(x), show(w)), inst, st, 'snap')
                    if rd is not True:
                        for f in ('dirty_pages', 'freed_pages'):
                            if eng.ev(st, icmp('ne', fld(eng, st, h, lay, TXN, f), NULL)) is not True:
                                V('begin-' + f, 'write transaction complete', 'a write transaction can begin without its %s' % f, inst, st, 'snap')
                    if rd is True:
                        rv = st.mon.get('regval')
                        if rv is None: V('reg-none', 'reader registered', 'a read-only transaction can begin without a reader slot', inst, st, 'slot')
                        elif rv is not fld(eng, st, h, lay, TXN, 'txnid'): V('reg-val', 'reader registered', "the registered snapshot is not the transaction's snapshot", inst, st, 'slot')
                        if rv is not None:
                            if st.mon.get('regpid') is not S(('pid',), 32) or st.mon.get('regtid') is not S(('tid',), 64):
                                V('reg-owner', 'reader registered', 'a reader slot is taken without recording its owner', inst, st, 'slot')
                    elif st.mon.get('slot') is not None:
                        V('reg-writer', 'reader registered', 'a write transaction occupies a reader slot', inst, st, 'slot')
                else:
                    if st.mon.get('w'): V('begin-leak', 'lock balance', 'begin fails with the writer lock held', inst, st, 'lock')
                    if st.mon.get('slot') is not None: V('reg-leak', 'reader registered', 'begin fails and leaves a reader slot occupied', inst, st, 'slot')
                    if st.mon.get('scan') and st.mon.get('exit') == 'content' and st.mon.get('slot') is None:
                        V('reg-early', 'whole reader table scanned', 'begin gives up before every reader slot was examined', inst, st, 'slot')
                    if st.mon.get('pool') is not None and not st.mon.get('gone'):
                        V('begin-pool', 'handle lifetime', 'begin fails without releasing the transaction memory', inst, st, 'lock')
                return
            if eng.eqc(st, TXNARG) == 0:
                if z is not False: V('end-null', 'lock balance', 'ending a NULL transaction reports success', inst, st, 'lock')
                return
            if st.mon.get('w') and rd is not True: V('end-held', 'lock balance', '%s returns with the writer lock held' % entry, inst, st, 'lock')
            if not st.mon.get('gone'): V('end-leak', 'handle lifetime', '%s returns without releasing the transaction memory' % entry, inst, st, 'lock')
            if rd is True:
                if st.mon.get('slot') is not None and not st.mon.get('clr'): V('clr-partial', 'reader slot released', "the transaction's reader slot stays occupied", inst, st, 'slot')
                if not st.mon.get('clr'):
                    if not st.mon.get('scan'): V('clr-none', 'reader slot released', 'a read-only transaction ends without looking for its reader slot', inst, st, 'slot')
                    elif st.mon.get('exit') == 'content': V('clr-early', 'whole reader table scanned', 'the search for the own reader slot stops early', inst, st, 'slot')

        def rdonly_eq(eng, st, x, rd):
            y = eng.ev(st, icmp('ne', binop('and', x, C(RD, 32), 32), C(0, 32)))
            return y is not None and y == rd

        eng.on_call, eng.on_load, eng.on_store, eng.on_exit = on_call, on_load, on_store, on_exit

        def setup(eng, st):
            if begin: return
            fl = fld(eng, st, TXNARG, lay, TXN, 'flags')
            st.mon['flags'] = fl
        if begin:
            ctx.run(eng, entry, [ENVARG, FLAGS, OUT])
        else:
            # a transaction that is being ended is either a write transaction holding the writer lock, or a reader not holding it
            for rdv, mx in ((True, 1), (False, 1), (False, 0)):
                def setup2(eng, st, rdv=rdv, mx=mx):
                    setup(eng, st)
                    e = envof(eng, st)
                    eng.assume(st, icmp('ne', fld(eng, st, e, lay, ENV, 'writer_thread_mutex'), NULL), bool(mx))
                    eng.assume(st, icmp('ne', fld(eng, st, e, lay, ENV, 'writer_proc_mutex'), NULL), not mx)
                    eng.assume(st, icmp('ne', binop('and', st.mon['flags'], C(RD, 32), 32), C(0, 32)), rdv)
                    st.mon['w'] = 0 if rdv else 1
                ctx.run(eng, entry, [TXNARG], setup=setup2)
    for e in ('napr_db_txn_begin', 'napr_db_txn_commit', 'napr_db_txn_abort'): one(e)
    ctx.need('begin success', 2)
    if want == 'snap':
        ctx.need('live load'); ctx.need('live store')
        # reads of a running transaction use its own snapshot
        roots = [prog.need(x) for x in ('napr_db_get', 'napr_db_cursor_get', 'napr_db_put', 'napr_db_del')]
        for f in closure(prog, roots):
            ctx.funcs.add(f.name)
            for b in f.order:
                for x in b.insts:
                    if x.op != 'load': continue
                    d = f.defs.get(x.a[1]) if x.a[0] == 'reg' else None
                    if d is not None and d.op == 'getelementptr' and d.ty[0] == 'named' and d.ty[1] == '%struct.DB_MetaPage' and len(d.a[1]) > 1:
                        nm = f.unit.fieldnames['%struct.DB_MetaPage'][d.a[1][1][1][1]]
                        ctx.oblig('data access never consults the current version', site(x))
                        if nm in ('root', 'txnid', 'free_db_root'):
                            ctx.violation('live-' + nm, 'reads use the own snapshot', "a data access reads the current version's %s instead of the transaction's snapshot" % nm, x)
    if want == 'lock':
        ctx.need('lock w'); ctx.need('unlock w', 2)
    if want == 'slot':
        ctx.need('slot store', 3); ctx.need('slot load', 3)


def D03(ctx): txn_run(ctx, 'snap')
def D05(ctx): txn_run(ctx, 'slot')
def open_locks(ctx):
    """opening reports success only with the locks the transactions use: the reader table's, and the writer lock of the kind asked for"""
    lay = Lay(ctx.prog)
    env, path = S(('env',), 64), S(('path',), 64)
    off = {f: lay.off(ENV, f)[0] for f in ('reader_table_mutex', 'writer_thread_mutex', 'writer_proc_mutex')}
    INTRA, CREATE = macro_int('NAPR_DB_INTRAPROCESS_LOCK'), macro_int('NAPR_DB_CREATE')

    def make(eng, st, inst, args):
        b, o, d = parts(args[0])
        f = [n for n, x in off.items() if b is env and o == x and not d]
        ctx.count('lock created')

        def good(s):
            out_fresh(eng, s, inst, args[0], 'lk')
            if f: s.mon['locks'] = s.mon.get('locks', ()) + (f[0],)
            else: s.mon['other'] = 1
        def bad(s): s.mon['nolock'] = 1
        return status_alts(eng, st, inst, good, bad)
    for flags in (CREATE | INTRA, INTRA, CREATE, 0):
        def on_exit(eng, st, v, how, inst):
            if how != 'ret' or ret_is_zero(eng, st, v) is not True: return
            ctx.count('opened')
            ctx.oblig('locks exist once opening succeeded', site(inst))
            have = st.mon.get('locks', ())
            if st.mon.get('nolock'): ctx.violation('open-lock-failed', 'the locks exist', 'opening reports success although a lock could not be created', inst, st=st)
            elif st.mon.get('other'): return
            elif 'reader_table_mutex' not in have: ctx.violation('open-table-lock', 'the locks exist', 'opening reports success without a lock for the reader table', inst, st=st)
            elif flags & INTRA and 'writer_thread_mutex' not in have and 'writer_proc_mutex' not in have: ctx.violation('open-writer-lock', 'the locks exist', 'opening reports success without a writer lock', inst, st=st)
            elif not flags & INTRA and 'writer_proc_mutex' not in have: ctx.violation('open-writer-proc', 'the locks exist', 'a database opened for several processes has no writer lock that keeps other processes out', inst, st=st)
        def setup(e, s):
            for x in (env, path): nonzero(e, s, x)
            s.mon['keep'] = (env, path)
        eng = ctx.engine(models=dict(STD, **{
            'apr_stat': m_status, 'apr_file_open': m_status_out('file'), 'apr_file_trunc': m_status, 'apr_mmap_create': m_status_out('mm'), 'apr_mmap_offset': m_status_out('mo'),
            'apr_file_sync': m_status, 'apr_file_datasync': m_status, 'apr_thread_mutex_create': make, 'apr_proc_mutex_create': make, 'apr_mmap_delete': m_status, 'apr_file_close': m_status}))
        eng.on_exit = on_exit
        eng.unroll, eng.concrete = 3, lambda v: True
        ctx.run(eng, 'napr_db_env_open', [env, path, C(flags, 32)], setup=setup)
    ctx.need('opened')


def D06(ctx):
    txn_run(ctx, 'lock')
    open_locks(ctx)
