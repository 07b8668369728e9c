"""Rules for the file-hash cache (napr_cache.c): exclusivity (K01), transactions (K02), entries (K03), sweep (K04), marks (K05)."""
from common import *
from rules_scan import const, fval, symname, same

U = 'napr_cache.c'


class Base:
    def __init__(self, ctx):
        self.ctx = ctx
        self.o = {k: struct_off(ctx.prog, U, 'napr_cache_t', k) for k in ('pool', 'db_env', 'active_txn', 'lock_file_handle', 'visited_set', 'visited_mutex')}
        self.cache = S(('arg', 0, 'cache'), 64)
        self.RD = const('NAPR_DB_RDONLY', 'napr_db.h')

    def v(self, key, rule, msg, inst, st):
        self.ctx.violation(key, rule, msg, inst, st=st)

    def f(self, eng, st, n): return fval(eng, st, self.cache, self.o[n])

    def sets(self, eng, st, n, v): eng.store(st, P(self.cache, self.o[n][0]), v, 8)


class Open(Base):
    def __init__(self, ctx):
        super().__init__(ctx)
        for k in ('EXCLUSIVE', 'NONBLOCK', 'TYPEMASK'): setattr(self, k, const('APR_FLOCK_' + k, 'napr_cache.h'))

    def text(self, eng, st, inst, args):
        s2 = st.fork()
        v = nonzero(eng, st, eng.fresh(st, ('str', st.frames[-1].ctx, inst.id), 64))
        st.mon[('str', v)] = tuple(args[1:])
        return [(st, v), (s2, NULL)]

    def fopen(self, eng, st, inst, args):
        def ok(s):
            h = nonzero(eng, s, out_fresh(eng, s, inst, args[0], 'fh'))
            s.mon[('file', h)] = args[1]
        return status_alts(eng, st, inst, ok)

    def flock(self, eng, st, inst, args):
        ctx = self.ctx
        ctx.count('lock')
        ctx.oblig('lock is exclusive, immediate and tied to the database path', site(inst))
        p = st.mon.get(('file', args[0]))
        fl = eng.eqc(st, args[1])
        if fl is not None:
            if fl & self.TYPEMASK != self.EXCLUSIVE: self.v('shared-lock', 'one process at a time', 'the lock taken on the cache does not exclude other processes', inst, st)
            if not fl & self.NONBLOCK: self.v('blocking-lock', 'a second process is refused', 'opening a cache that is in use waits instead of failing', inst, st)
        if p is None: self.v('lock-nofile', 'one process at a time', 'the lock is taken on a file that is not open', inst, st)
        else:
            parts_ = st.mon.get(('str', p))
            if parts_ is not None:
                if self.path not in parts_: self.v('lock-path', 'one process at a time', 'the lock file is not named after the cache, so two openers may lock different files', inst, st)
                elif any(x is not self.path and x.k not in ('c',) and eng.cstring(x) is None for x in parts_):
                    self.v('lock-path', 'one process at a time', 'the name of the lock file depends on more than the path of the cache, so two openers may lock different files', inst, st)
            elif p is not self.path and eng.cstring(p) is not None: self.v('lock-path', 'one process at a time', 'the lock file does not depend on the path of the cache', inst, st)
        return status_alts(eng, st, inst, lambda s: s.mon.__setitem__('locked', args[0]))

    def unlock(self, eng, st, inst, args):
        self.release(eng, st, inst, args[0], 'unlock')
        return status_alts(eng, st, inst, None, lambda s: s.mon.__setitem__('failed', 1))

    def fclose(self, eng, st, inst, args):
        self.release(eng, st, inst, args[0], 'close')
        if ('file', args[0]) not in st.mon: self.v('double-close', 'the lock file is closed once', 'the lock file is closed again', inst, st)
        st.mon.pop(('file', args[0]), None)
        return status_alts(eng, st, inst, None, lambda s: s.mon.__setitem__('failed', 1))

    def release(self, eng, st, inst, h, how):
        self.ctx.count('release')
        self.ctx.oblig('the lock outlives the database', site(inst))
        if st.mon.get('locked') is h:
            if st.mon.get('env') == 'open': self.v('unlock-first', 'the lock outlives the database', 'the cache lock is released while the database is still open', inst, st)
            st.mon.pop('locked', None)

    def env_create(self, eng, st, inst, args):
        def ok(s): s.mon['envp'] = nonzero(eng, s, out_fresh(eng, s, inst, args[0], 'env'))
        return status_alts(eng, st, inst, ok)

    def env_open(self, eng, st, inst, args):
        self.ctx.count('env open')
        self.ctx.oblig('database opened under the lock', site(inst))
        if st.mon.get('locked') is None: self.v('open-unlocked', 'one process at a time', 'the database is opened without holding the lock that excludes other processes', inst, st)
        if args[1] is not self.path: self.v('open-path', 'one process at a time', 'another file than the requested one is opened', inst, st)
        return status_alts(eng, st, inst, lambda s: s.mon.__setitem__('env', 'open'))

    def env_close(self, eng, st, inst, args):
        self.ctx.count('env close')
        if st.mon.get('env') == 'closed': self.v('env-double', 'the database is closed once', 'the database is closed twice', inst, st)
        st.mon['env'] = 'closed'
        return status_alts(eng, st, inst, None, lambda s: s.mon.__setitem__('failed', 1))

    def destroy(self, eng, st, inst, args):
        if st.mon.get('destroyed') is args[0]: self.v('pool-double', 'memory is released once', 'the pool of the cache is destroyed twice', inst, st)
        st.mon['destroyed'] = args[0]
        if args[0] is st.mon.get('pool'):
            st.mon.pop('locked', None)
        return [(st, None)]

    def pool(self, eng, st, inst, args):
        def ok(s): s.mon['pool'] = nonzero(eng, s, out_fresh(eng, s, inst, args[0], 'pool'))
        return status_alts(eng, st, inst, ok)

    def models(self):
        return dict(STD, apr_pool_create_ex=self.pool, apr_pool_destroy=self.destroy, apr_psprintf=self.text, apr_pstrcat=self.text, apr_file_open=self.fopen,
                    apr_file_lock=self.flock, apr_file_unlock=self.unlock, apr_file_close=self.fclose, napr_db_env_create=self.env_create,
                    napr_db_env_set_mapsize=m_status, napr_db_env_open=self.env_open, napr_db_env_close=self.env_close,
                    apr_thread_mutex_create=m_status_out('mutex'), apr_hash_make=m_maybe_null('hash'))

    def run_open(self):
        ctx = self.ctx
        out, self.path = S(('arg', 0, 'out'), 64), S(('arg', 1, 'path'), 64)
        ORIG = S(('orig',), 64)

        def on_exit(eng, st, v, how, inst):
            ok = ret_is_zero(eng, st, v)
            ctx.count('open exit')
            ctx.oblig('open: success means locked and complete, failure leaves nothing', site(inst))
            if eng.eqc(st, out) == 0:
                if ok is not False: self.v('null-out', 'wrong use is refused', 'opening without a place for the result does not fail', inst, st)
                return
            res = eng.load(st, out, 8, 64)
            if ok is not False:
                if st.mon.get('locked') is None: self.v('success-unlocked', 'one process at a time', 'opening a cache may succeed without holding its lock', inst, st)
                if st.mon.get('env') != 'open': self.v('success-closed', 'a successful open is complete', 'opening a cache may succeed without an open database', inst, st)
                if res is ORIG or eng.ev(st, icmp('ne', res, NULL)) is not True: self.v('success-null', 'a successful open is complete', 'opening a cache may succeed without returning it', inst, st)
                else:
                    h = fval(eng, st, res, self.o['lock_file_handle'])
                    if st.mon.get('locked') is not None and h is not st.mon['locked']: self.v('handle-lost', 'the lock lasts as long as the cache', 'the lock file is not remembered in the cache, so closing it cannot release the lock', inst, st)
                    for n in ('visited_set', 'visited_mutex', 'db_env', 'pool'):
                        if eng.ev(st, icmp('ne', fval(eng, st, res, self.o[n]), NULL)) is not True: self.v('incomplete-' + n, 'a successful open is complete', 'a cache is handed out with an unset part (%s)' % n, inst, st)
                    if eng.ev(st, icmp('eq', fval(eng, st, res, self.o['active_txn']), NULL)) is not True: self.v('active-garbage', 'a successful open is complete', 'a cache is handed out with an undefined active transaction', inst, st)
                if st.mon.get('destroyed') is not None and st.mon.get('destroyed') is st.mon.get('pool'): self.v('success-destroyed', 'a successful open is complete', 'a cache is handed out although its memory was released', inst, st)
            else:
                if st.mon.get('locked') is not None: self.v('fail-locked', 'a failed open leaves nothing behind', 'opening the cache fails but its lock stays held', inst, st)
                if res is not ORIG and eng.eqc(st, res) != 0: self.v('fail-handle', 'a failed open leaves nothing behind', 'opening the cache fails but a cache is handed out', inst, st)
                if st.mon.get('pool') is not None and st.mon.get('destroyed') is not st.mon['pool']: self.v('fail-pool', 'a failed open leaves nothing behind', 'opening the cache fails without releasing its memory and handles', inst, st)
        eng = ctx.engine(models=self.models(), opaque=[k for k in self.models() if k.startswith('napr_')])
        eng.on_exit = on_exit
        ctx.run(eng, 'napr_cache_open', [out, self.path, S(('arg', 2, 'pool'), 64)], setup=lambda e, s: e.store(s, out, ORIG, 8))

    def run_close(self):
        ctx = self.ctx
        self.path = S(('path',), 64)
        h, env, pool = (S((n,), 64) for n in ('h', 'env', 'pool'))

        def setup(e, s):
            for n, t in (('lock_file_handle', h), ('db_env', env), ('pool', pool), ('visited_set', S(('vs',), 64)), ('visited_mutex', S(('vm',), 64))):
                nonzero(e, s, t); self.sets(e, s, n, t)
            self.sets(e, s, 'active_txn', NULL)
            s.mon['locked'] = h; s.mon[('file', h)] = self.path; s.mon['env'] = 'open'; s.mon['pool'] = pool

        def on_exit(eng, st, v, how, inst):
            ok = ret_is_zero(eng, st, v)
            ctx.count('close exit')
            ctx.oblig('close: everything released, errors reported', site(inst))
            if eng.eqc(st, self.cache) == 0:
                if ok is not False: self.v('null-cache', 'wrong use is refused', 'closing nothing does not fail', inst, st)
                return
            if st.mon.get('env') == 'open': self.v('close-env', 'closing releases everything', 'closing a cache leaves its database open', inst, st)
            if st.mon.get('locked') is not None: self.v('close-lock', 'closing releases everything', 'closing a cache keeps its lock', inst, st)
            if st.mon.get('destroyed') is not pool: self.v('close-pool', 'closing releases everything', 'closing a cache does not release its memory', inst, st)
            if st.mon.get('failed') and ok is not False: self.v('close-error', 'errors are reported', 'an error while closing is not reported', inst, st)
        eng = ctx.engine(models=self.models(), opaque=[k for k in self.models() if k.startswith('napr_')])
        eng.on_exit = on_exit
        ctx.run(eng, 'napr_cache_close', [self.cache], setup=setup)


def K01(ctx):
    o = Open(ctx)
    o.run_open()
    o.run_close()
    for n in ('lock', 'env open', 'release', 'open exit', 'close exit', 'env close'): ctx.need(n)


class Txn(Base):
    """one public operation, with or without an active transaction"""
    def run(self, name, kind, active):
        ctx = self.ctx
        env, act = S(('env',), 64), S(('act',), 64)
        args = [self.cache] + [S(('arg', i, 'a%d' % i), 64) for i in range(1, len(ctx.prog.need(name).params))]

        def begin(eng, st, inst, a):
            ctx.count('begin'); ctx.oblig('begin only when no transaction is active', site(inst))
            if active or st.mon.get('begun'): self.v('begin-nested', 'one transaction at a time', 'a transaction is begun while another one is active, which is then lost', inst, st)
            if a[0] is not env: self.v('begin-env', 'one transaction at a time', 'a transaction is begun on another database', inst, st)
            fl = eng.eqc(st, a[1])
            if fl is not None and bool(fl & self.RD) != (kind == 'read'):
                self.v('begin-mode', 'read transactions are read-only', 'a %s transaction is begun in the wrong mode' % kind, inst, st)

            def ok(s):
                h = nonzero(eng, s, out_fresh(eng, s, inst, a[2], 'txn'))
                s.mon['begun'] = h
            return status_alts(eng, st, inst, ok, lambda s: s.mon.__setitem__('failed', 1))

        def ender(how):
            def m(eng, st, inst, a):
                ctx.count('end'); ctx.oblig('the active transaction is ended once', site(inst))
                if a[0] is not act or not active: self.v('end-other', 'the active transaction is ended', 'something else than the active transaction is ended', inst, st)
                if st.mon.get('ended'): self.v('end-twice', 'a transaction is ended once', 'the active transaction is ended twice', inst, st)
                if kind == 'commit' and how == 'abort': self.v('commit-aborts', 'a commit commits', 'committing aborts the transaction', inst, st)
                if kind == 'abort' and how == 'commit': self.v('abort-commits', 'an abort discards', 'aborting commits the transaction', inst, st)
                st.mon['ended'] = 1
                return status_alts(eng, st, inst, None, lambda s: s.mon.__setitem__('failed', 1))
            return m

        def data(eng, st, inst, a):
            ctx.count('data')
            ctx.oblig('data access inside the active transaction', site(inst))
            if a[0] is not act or not active: self.v('data-outside', 'data access needs a transaction', 'the database is accessed outside the active transaction', inst, st)
            if len(a) > 2 and a[2].k != 'c' and callee_name(inst) == 'napr_db_get': eng.havoc(st, a[2], inst, 'val')
            return status_alts(eng, st, inst)

        def on_exit(eng, st, v, how, inst):
            ok = ret_is_zero(eng, st, v)
            ctx.count('exit ' + kind)
            ctx.oblig('%s %s active transaction' % (name, 'with' if active else 'without'), site(inst))
            if eng.eqc(st, self.cache) == 0:
                if ok is not False: self.v('null-cache', 'wrong use is refused', 'using a missing cache does not fail', inst, st)
                return
            a = self.f(eng, st, 'active_txn')
            if kind in ('read', 'write'):
                if active:
                    if ok is not False: self.v('begin-nested-ok', 'one transaction at a time', 'beginning a second transaction does not fail', inst, st)
                    if a is not act: self.v('begin-lost', 'one transaction at a time', 'a refused begin loses the active transaction', inst, st)
                elif st.mon.get('begun') is not None:
                    if ok is not True: self.v('begin-status', 'errors are reported', 'a transaction that began is reported as failed', inst, st)
                    if a is not st.mon['begun']: self.v('begin-unset', 'one transaction at a time', 'a begun transaction is not remembered as the active one', inst, st)
                else:
                    if ok is not False: self.v('begin-fake', 'errors are reported', 'beginning a transaction may report success without one', inst, st)
                    if eng.eqc(st, a) != 0: self.v('begin-dangling', 'one transaction at a time', 'a failed begin leaves an active transaction behind', inst, st)
            elif kind in ('end', 'commit', 'abort'):
                if active:
                    if not st.mon.get('ended'): self.v('not-ended', 'the active transaction is ended', 'ending a transaction may leave it running', inst, st)
                    elif eng.eqc(st, a) != 0: self.v('end-dangling', 'an ended transaction is forgotten', 'after a transaction ended it is still the active one', inst, st)
                    if st.mon.get('failed') and ok is not False: self.v('end-status', 'errors are reported', 'a failed %s is reported as success' % kind, inst, st)
                    if st.mon.get('ended') and not st.mon.get('failed') and ok is False: self.v('end-status2', 'errors are reported', 'a successful %s is reported as failure' % kind, inst, st)
                elif ok is not False: self.v('end-none', 'wrong use is refused', 'ending a transaction that does not exist does not fail', inst, st)
            else:
                if not active and ok is not False: self.v('data-none', 'data access needs a transaction', 'accessing an entry without a transaction does not fail', inst, st)
                if active and a is not act: self.v('data-lost', 'one transaction at a time', 'accessing an entry loses the active transaction', inst, st)

        def setup(e, s):
            nonzero(e, s, env); nonzero(e, s, act)
            self.sets(e, s, 'db_env', env)
            self.sets(e, s, 'active_txn', act if active else NULL)
        m = dict(STD, napr_db_txn_begin=begin, napr_db_txn_commit=ender('commit'), napr_db_txn_abort=ender('abort'), napr_db_get=data, napr_db_put=data, napr_db_del=data,
                 strlen=lambda e, s, i, a: [(s, S(('strlen', a[0]), 64))])
        eng = ctx.engine(models=m, opaque=[k for k in m if k.startswith('napr_')])
        eng.on_exit = on_exit
        ctx.run(eng, name, args, setup=setup)


def K02(ctx):
    for name, kind in (('napr_cache_begin_read', 'read'), ('napr_cache_begin_write', 'write'), ('napr_cache_end_read', 'end'), ('napr_cache_commit_write', 'commit'),
                       ('napr_cache_abort_write', 'abort'), ('napr_cache_lookup_in_txn', 'lookup'), ('napr_cache_upsert_in_txn', 'upsert')):
        for active in (0, 1): Txn(ctx).run(name, kind, active)
    for n in ('begin', 'end', 'data', 'exit read', 'exit write', 'exit end', 'exit commit', 'exit abort', 'exit lookup', 'exit upsert'): ctx.need(n)


class Entry(Base):
    def __init__(self, ctx):
        super().__init__(ctx)
        self.size = const('sizeof(napr_cache_entry_t)', 'napr_cache.h')
        self.val = {k: struct_off(ctx.prog, U, 'napr_db_val_t', k) for k in ('data', 'size')}
        self.path, self.arg = S(('arg', 1, 'path'), 64), S(('arg', 2, 'entry'), 64)
        self.act = S(('act',), 64)
        self.EX = const('APR_EEXIST', 'napr_db.h')

    def key_ok(self, eng, st, k):
        return fval(eng, st, k, self.val['data']) is self.path and fval(eng, st, k, self.val['size']) is S(('strlen', self.path), 64)

    def setup(self, e, s):
        nonzero(e, s, self.act); self.sets(e, s, 'active_txn', self.act)
        if self.which == 'lookup': e.store(s, self.arg, S(('before',), 64), 8)

    def lookup(self):
        ctx = self.ctx
        self.which = 'lookup'

        def get(eng, st, inst, a):
            ctx.count('get'); ctx.oblig('lookup asks for the given path', site(inst))
            if not self.key_ok(eng, st, a[1]): self.v('get-key', 'entries belong to their path', 'the entry looked up is not the one of the given path', inst, st)

            def ok(s):
                d = nonzero(eng, s, eng.fresh(s, ('vdata', s.frames[-1].ctx, inst.id), 64))
                n = eng.fresh(s, ('vsize', s.frames[-1].ctx, inst.id), 64)
                eng.store(s, P(a[2], self.val['data'][0]), d, 8); eng.store(s, P(a[2], self.val['size'][0]), n, 8)
                s.mon['got'] = (d, n)
            return status_alts(eng, st, inst, ok, lambda s: s.mon.__setitem__('missed', 1))

        def on_exit(eng, st, v, how, inst):
            if any(eng.eqc(st, x) == 0 for x in (self.cache, self.path, self.arg)): return
            ctx.count('lookup exit'); ctx.oblig('lookup result is a complete entry or nothing', site(inst))
            ok, res = ret_is_zero(eng, st, v), eng.load(st, self.arg, 8, 64)
            g = st.mon.get('got')
            if ok is not False:
                if g is None: self.v('lookup-fake', 'only stored entries are found', 'looking up an entry may succeed without one', inst, st)
                else:
                    if res is not g[0]: self.v('lookup-other', 'only stored entries are found', 'looking up an entry returns something else than what is stored', inst, st)
                    if eng.eqc(st, g[1]) != self.size: self.v('lookup-size', 'only complete entries are found', 'a stored value whose size is not that of an entry may be returned as one', inst, st)
            else:
                if res.k != 'c' and eng.eqc(st, res) != 0: self.v('lookup-stale', 'a failed lookup returns nothing', 'a failed lookup leaves an entry in the result', inst, st)
                if g is not None and eng.eqc(st, g[1]) == self.size: self.v('lookup-lost', 'every stored entry is found', 'a complete stored entry is reported as missing', inst, st)
                if st.mon.get('missed') and False: pass
        m = dict(STD, napr_db_get=get, strlen=lambda e, s, i, a: [(s, S(('strlen', a[0]), 64))])
        eng = ctx.engine(models=m, opaque=['napr_db_get', 'napr_db_put', 'napr_db_del'])
        eng.on_exit = on_exit
        ctx.run(eng, 'napr_cache_lookup_in_txn', [self.cache, self.path, self.arg], setup=self.setup)

    def upsert(self):
        ctx = self.ctx
        self.which = 'upsert'

        def put(eng, st, inst, a):
            ctx.count('put'); ctx.oblig('the given entry is stored under the given path', site(inst))
            if not self.key_ok(eng, st, a[1]): self.v('put-key', 'entries belong to their path', 'an entry is stored under another key than the given path', inst, st)
            if fval(eng, st, a[2], self.val['data']) is not self.arg or eng.eqc(st, fval(eng, st, a[2], self.val['size'])) != self.size:
                self.v('put-value', 'entries are stored completely', 'something else than the given entry is stored', inst, st)
            ex, bad = st.fork(), st.fork()
            st.mon['stored'] = 1
            ex.mon['exists'] = 1; ex.mon.pop('stored', None)
            ex.note(inst, 'napr_db_put finds the key present')
            bad.mon['failed'] = 1
            r = eng.fresh(bad, eng.site(bad, inst, 'st'), 32)
            eng.constrain(bad, r, 'ne', 0); eng.constrain(bad, r, 'ne', self.EX)
            return [(st, C(0, 32)), (ex, C(self.EX, 32)), (bad, r)]

        def dele(eng, st, inst, a):
            ctx.oblig('only the entry being replaced is deleted', site(inst))
            if not self.key_ok(eng, st, a[1]): self.v('del-key', 'entries belong to their path', 'storing an entry deletes another one', inst, st)
            st.mon.pop('stored', None); st.mon['deleted'] = 1
            return status_alts(eng, st, inst, None, lambda s: s.mon.__setitem__('failed', 1))

        def on_exit(eng, st, v, how, inst):
            if any(eng.eqc(st, x) == 0 for x in (self.cache, self.path, self.arg)): return
            ctx.count('upsert exit'); ctx.oblig('upsert success means stored', site(inst))
            ok = ret_is_zero(eng, st, v)
            if ok is not False and not st.mon.get('stored'): self.v('upsert-fake', 'a stored entry replaces the previous one', 'storing an entry may report success although the previous one is still there', inst, st)
            if ok is False and st.mon.get('stored'): self.v('upsert-false', 'errors are reported', 'storing an entry reports a failure although it was stored', inst, st)
            if ok is False and st.mon.get('exists') and not st.mon.get('deleted') and not st.mon.get('failed'):
                self.v('upsert-refused', 'a stored entry replaces the previous one', 'storing an entry is refused because one exists already', inst, st)
        m = dict(STD, napr_db_put=put, napr_db_del=dele, strlen=lambda e, s, i, a: [(s, S(('strlen', a[0]), 64))])
        eng = ctx.engine(models=m, opaque=['napr_db_get', 'napr_db_put', 'napr_db_del'])
        eng.on_exit = on_exit
        ctx.run(eng, 'napr_cache_upsert_in_txn', [self.cache, self.path, self.arg], setup=self.setup)


def K03(ctx):
    Entry(ctx).lookup()
    Entry(ctx).upsert()
    for n in ('get', 'put', 'lookup exit', 'upsert exit'): ctx.need(n)


class Sweep(Base):
    def run(self):
        ctx = self.ctx
        val = {k: struct_off(ctx.prog, U, 'napr_db_val_t', k) for k in ('data', 'size')}
        NF, FIRST, NEXT = (const(n, 'napr_db.h') for n in ('APR_NOTFOUND', 'NAPR_DB_FIRST', 'NAPR_DB_NEXT'))
        vs, env = S(('vs',), 64), S(('env',), 64)

        def begin(eng, st, inst, a):
            fl = eng.eqc(st, a[1])
            if fl is not None and fl & self.RD: self.v('sweep-readonly', 'sweeping deletes', 'the sweep runs in a read-only transaction', inst, st)

            def ok(s): s.mon['txn'] = nonzero(eng, s, out_fresh(eng, s, inst, a[2], 'txn'))
            return status_alts(eng, st, inst, ok, lambda s: s.mon.__setitem__('failed', 1))

        def copen(eng, st, inst, a):
            def ok(s): s.mon['cur'] = nonzero(eng, s, out_fresh(eng, s, inst, a[1], 'cursor'))
            return status_alts(eng, st, inst, ok, lambda s: s.mon.__setitem__('failed', 1))

        def settle(eng, st, inst):
            k = st.mon.pop('key', None)
            if k is None: return
            ctx.oblig('a swept entry is kept exactly when it was visited', site(inst))
            f = st.mon.pop('found', None)
            d = st.mon.pop('deleted', None)
            if f is None: self.v('unchecked', 'unvisited entries are removed', 'an entry is passed over without looking whether it was visited', inst, st)
            elif f == 0 and not d: self.v('kept', 'unvisited entries are removed', 'an entry that was not visited is kept', inst, st)

        def cget(eng, st, inst, a):
            ctx.count('cursor get')
            settle(eng, st, inst)
            op = eng.eqc(st, a[3])
            if op is not None:
                want = FIRST if 'walk' not in st.mon else NEXT
                if op != want: self.v('cursor-op', 'every entry is looked at', 'the sweep does not walk over the entries from the first one on', inst, st)
            if st.mon.get('cur') is not a[0]: self.v('cursor-closed', 'every entry is looked at', 'the sweep uses a cursor that is not open', inst, st)
            st.mon['walk'] = 'on'
            end, bad = st.fork(), st.fork()
            d = nonzero(eng, st, eng.fresh(st, ('kdata', st.frames[-1].ctx, inst.id), 64))
            n = eng.fresh(st, ('ksize', st.frames[-1].ctx, inst.id), 64)
            eng.store(st, P(a[1], val['data'][0]), d, 8); eng.store(st, P(a[1], val['size'][0]), n, 8)
            st.mon['key'] = (d, n)
            end.mon['walk'] = 'end'
            end.note(inst, 'no further entry')
            r = eng.fresh(bad, eng.site(bad, inst, 'st'), 32)
            eng.constrain(bad, r, 'ne', 0); eng.constrain(bad, r, 'ne', NF)
            bad.mon['failed'] = 1
            bad.note(inst, 'cursor fails')
            return [(st, C(0, 32)), (end, C(NF, 32)), (bad, r)]

        def hget(eng, st, inst, a):
            if a[0] is not vs: return None
            ctx.count('visited lookup')
            k = st.mon.get('key')
            if k is not None and (a[1] is not k[0] or not same(eng, st, a[2], k[1])):
                self.v('lookup-key', 'unvisited entries are removed', 'the visited set is asked about something else than the current entry', inst, st)
            s2 = st.fork()
            v = nonzero(eng, st, eng.fresh(st, ('hit', st.frames[-1].ctx, inst.id), 64))
            st.mon['found'] = 1; s2.mon['found'] = 0
            return [(st, v), (s2, NULL)]

        def dele(eng, st, inst, a):
            ctx.count('delete')
            ctx.oblig('only unvisited entries are deleted', site(inst))
            k = st.mon.get('key')
            if k is None or fval(eng, st, a[1], val['data']) is not k[0] or fval(eng, st, a[1], val['size']) is not k[1]:
                self.v('delete-other', 'visited entries survive', 'the sweep deletes another entry than the one it looked at', inst, st)
            if st.mon.get('found') != 0: self.v('delete-visited', 'visited entries survive', 'the sweep deletes an entry without knowing that it was not visited', inst, st)
            if a[0] is not st.mon.get('txn'): self.v('delete-txn', 'a sweep is one transaction', 'the sweep deletes outside its transaction', inst, st)
            return status_alts(eng, st, inst, lambda s: s.mon.__setitem__('deleted', 1), lambda s: s.mon.__setitem__('failed', 1))

        def cclose(eng, st, inst, a):
            if st.mon.get('cur') is not a[0]: self.v('cursor-twice', 'the cursor is closed once', 'the sweep closes a cursor that is not open', inst, st)
            st.mon.pop('cur', None)
            return status_alts(eng, st, inst, None, lambda s: s.mon.__setitem__('failed', 1))

        def commit(eng, st, inst, a):
            ctx.count('commit')
            settle(eng, st, inst)
            ctx.oblig('only a complete sweep is committed', site(inst))
            if a[0] is not st.mon.get('txn'): self.v('commit-txn', 'a sweep is one transaction', 'the sweep commits something else than its transaction', inst, st)
            if st.mon.get('failed'): self.v('commit-failed', 'a sweep is all or nothing', 'a sweep that met an error is committed', inst, st)
            elif st.mon.get('walk') != 'end': self.v('commit-early', 'a sweep is all or nothing', 'a sweep is committed before it reached the last entry', inst, st)
            st.mon.pop('txn', None)
            return status_alts(eng, st, inst, lambda s: s.mon.__setitem__('committed', 1), lambda s: s.mon.__setitem__('failed', 1))

        def abort(eng, st, inst, a):
            ctx.count('abort')
            st.mon.pop('txn', None); st.mon['aborted'] = 1
            st.mon.pop('key', None)
            return status_alts(eng, st, inst)

        def clear(eng, st, inst, a):
            if a[0] is vs:
                ctx.count('clear'); ctx.oblig('marks are cleared only after a committed sweep', site(inst))
                if not st.mon.get('committed'): self.v('clear-early', 'marks survive a failed sweep', 'the visited marks are cleared although the sweep was not committed', inst, st)
                st.mon['cleared'] = 1
            return [(st, None)]

        def pool(eng, st, inst, a):
            return status_alts(eng, st, inst, lambda s: nonzero(eng, s, out_fresh(eng, s, inst, a[0], 'pool')), lambda s: s.mon.__setitem__('failed', 1))

        def on_exit(eng, st, v, how, inst):
            if eng.eqc(st, self.cache) == 0: return
            ctx.count('exit'); ctx.oblig('sweep outcome', site(inst))
            ok = ret_is_zero(eng, st, v)
            if st.mon.get('txn') is not None: self.v('txn-open', 'a sweep ends its transaction', 'the sweep returns with its transaction still running', inst, st)
            elif eng.eqc(st, self.f(eng, st, 'active_txn')) != 0: self.v('txn-dangling', 'a sweep ends its transaction', 'the sweep leaves an ended transaction as the active one', inst, st)
            if ok is not False and not st.mon.get('committed'): self.v('success-fake', 'errors are reported', 'a sweep that was not committed reports success', inst, st)
            if ok is not False and st.mon.get('failed'): self.v('success-failed', 'errors are reported', 'a sweep that failed reports success', inst, st)
            if ok is not False and not st.mon.get('cleared'):
                s = self.f(eng, st, 'visited_set')
                if s is vs: self.v('not-cleared', 'marks last for one sweep', 'the visited marks are kept after a successful sweep, so later sweeps keep removed files', inst, st)

        def setup(e, s):
            for t in (vs, env): nonzero(e, s, t)
            self.sets(e, s, 'visited_set', vs); self.sets(e, s, 'db_env', env); self.sets(e, s, 'active_txn', NULL)
        m = dict(STD, apr_pool_create_ex=pool, napr_db_txn_begin=begin, napr_db_cursor_open=copen, napr_db_cursor_get=cget, napr_db_cursor_close=cclose, napr_db_del=dele,
                 napr_db_txn_commit=commit, napr_db_txn_abort=abort, apr_hash_get=hget, apr_hash_clear=clear)
        eng = ctx.engine(models=m, opaque=[k for k in m if k.startswith('napr_')])
        eng.on_exit = on_exit
        ctx.run(eng, 'napr_cache_sweep', [self.cache], setup=setup)
        for n in ('cursor get', 'visited lookup', 'delete', 'commit', 'exit'): ctx.need(n)


def K04(ctx):
    Sweep(ctx).run()


class Mark(Base):
    def run(self):
        ctx = self.ctx
        vs, mx, pool, path = S(('vs',), 64), S(('vm',), 64), S(('pool',), 64), S(('arg', 1, 'path'), 64)

        def lock(eng, st, inst, a):
            if a[0] is mx:
                ctx.count('lock')
                if st.mon.get('held'): self.v('relock', 'marking does not block itself', 'the mark lock is taken twice', inst, st)
            return status_alts(eng, st, inst, lambda s: a[0] is mx and s.mon.__setitem__('held', 1))

        def unlock(eng, st, inst, a):
            if a[0] is mx:
                if not st.mon.get('held'): self.v('unlock-free', 'marking does not block itself', 'the mark lock is released without being held', inst, st)
                st.mon.pop('held', None)
            return status_alts(eng, st, inst, None, lambda s: s.mon.__setitem__('failed', 1))

        def shared(eng, st, inst, what):
            ctx.oblig('shared marks only under the lock', site(inst))
            if not st.mon.get('held'): self.v('unlocked-' + what, 'marks from several threads do not interfere', 'the %s is used without holding the lock that other marking threads take' % ('visited set' if what == 'set' else 'memory pool of the cache'), inst, st)

        def alloc(kind):
            def m(eng, st, inst, a):
                if a[0] is pool: shared(eng, st, inst, 'pool')
                s2 = st.fork()
                v = nonzero(eng, st, eng.fresh(st, ('dup', st.frames[-1].ctx, inst.id), 64))
                if kind == 'dup': st.mon[('dup', v)] = (a[0], a[1], a[2] if len(a) > 2 else None)
                return [(st, v), (s2, NULL)]
            return m

        def hset(eng, st, inst, a):
            if a[0] is not vs: return None
            ctx.count('set'); ctx.oblig('the path itself is recorded, in memory of the cache', site(inst))
            shared(eng, st, inst, 'set')
            d = st.mon.get(('dup', a[1]))
            if a[1] is path: self.v('borrowed-key', 'marks outlive the caller\'s memory', 'a mark refers to the caller\'s string instead of a copy', inst, st)
            elif d is not None:
                if d[0] is not pool: self.v('foreign-pool', 'marks outlive the caller\'s memory', 'the copy of a marked path does not live as long as the cache', inst, st)
                if d[1] is not path: self.v('other-key', 'the path given is marked', 'another string than the given path is marked', inst, st)
            n = eng.eqc(st, a[2])
            full = (1 << 64) - 1
            if n is not None and n not in (full, -1): self.v('key-length', 'the path given is marked', 'a path is marked with a length that is not its own', inst, st)
            elif n is None and a[2] is not S(('strlen', path), 64) and a[2] is not S(('strlen', a[1]), 64): self.v('key-length', 'the path given is marked', 'a path is marked with a length that is not its own', inst, st)
            if eng.eqc(st, a[3]) == 0: self.v('null-value', 'the path given is marked', 'marking a path removes it from the visited set', inst, st)
            st.mon['set'] = 1
            return [(st, None)]

        def hget(eng, st, inst, a):
            if a[0] is vs: shared(eng, st, inst, 'set')
            s2 = st.fork()
            v = nonzero(eng, st, eng.fresh(st, ('hit', st.frames[-1].ctx, inst.id), 64))
            if a[0] is vs and (a[1] is path): st.mon['set'] = 1
            return [(st, v), (s2, NULL)]

        def on_exit(eng, st, v, how, inst):
            if eng.eqc(st, self.cache) == 0 or eng.eqc(st, path) == 0: return
            ctx.count('exit'); ctx.oblig('mark outcome', site(inst))
            ok = ret_is_zero(eng, st, v)
            if st.mon.get('held'): self.v('held', 'marking does not block itself', 'marking returns with the lock held, so the next mark waits for ever', inst, st)
            if ok is not False and not st.mon.get('set'): self.v('success-fake', 'errors are reported', 'marking reports success without recording the path', inst, st)

        def setup(e, s):
            for t in (vs, mx, pool): nonzero(e, s, t)
            self.sets(e, s, 'visited_set', vs); self.sets(e, s, 'visited_mutex', mx); self.sets(e, s, 'pool', pool)
        m = dict(STD, apr_thread_mutex_lock=lock, apr_thread_mutex_unlock=unlock, apr_pstrdup=alloc('dup'), apr_pstrmemdup=alloc('dup'), apr_pmemdup=alloc('dup'), apr_hash_set=hset, apr_hash_get=hget,
                 strlen=lambda e, s, i, a: [(s, S(('strlen', a[0]), 64))])
        eng = ctx.engine(models=m)
        eng.on_exit = on_exit
        ctx.run(eng, 'napr_cache_mark_visited', [self.cache, path], setup=setup)
        for n in ('lock', 'set', 'exit'): ctx.need(n)


def K05(ctx):
    Mark(ctx).run()
