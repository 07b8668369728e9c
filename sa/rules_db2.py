"""Rules for the tree of the storage engine: search and lookup (D16), pages (D09), updates (D13, D07), cursors (D11), reuse of pages (D04)."""
import itertools, time
from common import *
from rules_db import Lay, ENV, TXN, META
from rules_cont import neval

HDR, BR, LF, CUR, VAL = 'DB_PageHeader', 'DB_BranchNode', 'DB_LeafNode', 'napr_db_cursor_t', 'napr_db_val_t'
NOTFOUND = 70015


def bind_of(t): return t.bits


def consistent(st, env):
    """no fact or relation known on the path contradicts the valuation"""
    for t, g in st.facts.items():
        y = neval(t, env)
        if y is None: continue
        if not g[2] <= y <= g[3] or y in g[4]: return False
        s = sgn(y, t.bits)
        if not g[0] <= s <= g[1]: return False
    for (x, y, dom), al in st.rel.items():
        a, b = neval(x, env), neval(y, env)
        if a is None or b is None: continue
        if dom == 'e':
            if (a == b) != al: return False
            continue
        if dom == 's': a, b = sgn(a, x.bits), sgn(b, y.bits)
        if ('<' if a < b else '>' if a > b else '=') not in al: return False
    return True


class Tree:
    def __init__(self, ctx):
        self.ctx = ctx
        lay = Lay(ctx.prog)
        self.f = lambda s, f: lay.off(s, f)
        self.PAGE = macro_int('PAGE_SIZE')
        self.BRANCH, self.LEAF = macro_int('P_BRANCH'), macro_int('P_LEAF')
        self.RD = macro_int('NAPR_DB_RDONLY')
        self.HS = self.ssize(HDR)
        self.txn, self.env, self.map = S(('txn',), 64), S(('env',), 64), S(('map',), 64)
        self.dirty, self.key = S(('dirty',), 64), S(('key',), 64)
        self.kdata = S(('kdata',), 64)

    def ssize(self, s):
        import ir
        return {HDR: 18, BR: 10, LF: 4}[s]

    def put(self, eng, st, base, s, f, v):
        off, sz = self.f(s, f)
        if not isinstance(v, T): v = C(v, sz * 8)
        eng.store(st, P(base, off), v, sz)

    def get(self, eng, st, base, s, f):
        off, sz = self.f(s, f)
        o, d = parts(base)[1:] if base.k == 'p' else (0, ())
        return eng.load(st, P(base_of(base), o + off, d), sz, sz * 8)

    def slot(self, eng, st, page, i):
        return eng.load(st, self.at(page, self.HS + 2 * i), 2, 16)

    def at(self, page, off):
        b, o, d = parts(page)
        return P(b, o + off, d)

    def node(self, eng, st, page, i):
        """the node that slot i of the page designates"""
        s = eng.eqc(st, self.slot(eng, st, page, i))
        if s is not None: return self.at(page, s)
        b, o, d = parts(page)
        return P(b, o, d + ((cast('zext', self.slot(eng, st, page, i), 16, 64), 1),))

    def child(self, eng, st, page, i):
        n = self.node(eng, st, page, i)
        return self.get(eng, st, n, BR, 'pgno')

    def pageof(self, g):
        c = cv(g) if g.k == 'c' else None
        if c is not None: return P(self.map, c * self.PAGE)
        return P(self.map, 0, ((g, self.PAGE),))

    def base(self, eng, st, rdonly, root=None):
        ctx = self.ctx
        for x in (self.txn, self.env, self.map, self.key): nonzero(eng, st, x)
        put = self.put
        put(eng, st, self.txn, TXN, 'env', self.env)
        put(eng, st, self.txn, TXN, 'flags', self.RD if rdonly else 0)
        if root is not None: put(eng, st, self.txn, TXN, 'root_pgno', root)
        put(eng, st, self.env, ENV, 'map_addr', self.map)
        if rdonly: put(eng, st, self.txn, TXN, 'dirty_pages', 0)
        else:
            put(eng, st, self.txn, TXN, 'dirty_pages', self.dirty)
            nonzero(eng, st, self.dirty)

    def v(self, key, rule, msg, inst, st): self.ctx.violation(key, rule, msg, inst, st=st)


# ---------------------------------------------------------------- D16: search in a page
class Search(Tree):
    def one(self, kind, n, p, eq, lens):
        ctx = self.ctx
        page, out = S(('page',), 64), S(('out',), 64)
        ns = self.ssize(LF if kind == self.LEAF else BR)
        step = 4 if kind == self.LEAF else 12
        top = self.HS + 2 * n
        order = [(i * 7) % n if n % 7 else i for i in range(n)]   # nodes are not laid out in key order
        offs = [top + step * order[i] for i in range(n)]
        byoff = {o: i for i, o in enumerate(offs)}
        kf = self.f(LF if kind == self.LEAF else BR, 'key_size')[0]
        K = S(('K',), 16) if lens else C(8, 16)
        ks = [S(('ks', i), 16) if lens else C(8, 16) for i in range(n)]

        def setup(eng, st):
            for x in (page, out, self.key): nonzero(eng, st, x)
            self.put(eng, st, page, HDR, 'flags', kind)
            self.put(eng, st, page, HDR, 'num_keys', n)
            self.put(eng, st, page, HDR, 'lower', top)
            for i in range(n):
                eng.store(st, P(page, self.HS + 2 * i), C(offs[i], 16), 2)
                eng.store(st, P(page, offs[i] + kf), ks[i], 2)
            self.put(eng, st, self.key, VAL, 'data', self.kdata)
            self.put(eng, st, self.key, VAL, 'size', cast('zext', K, 16, 64))
            st.mon['keep'] = (page, out, self.key, self.kdata, K)

        def rel(i): return '=' if eq and i == p else '>' if i < p else '<'      # key against node i

        def cmp(eng, st, inst, args):
            a, b, ln = args[:3]
            ctx.count('key comparison')

            def which(x):
                if x is self.kdata: return 'key'
                bb, o, d = parts(x)
                if bb is page and not d:
                    i = byoff.get(o - ns)
                    if i is not None: return i
                return None
            wa, wb = which(a), which(b)
            if wa == 'key' and isinstance(wb, int): i, fl = wb, False
            elif wb == 'key' and isinstance(wa, int): i, fl = wa, True
            elif base_of(a) in (page, self.kdata) and base_of(b) in (page, self.kdata):
                self.v('compare-operands', 'keys compared', 'the search does not compare the key looked for with the key of an entry of the page', inst, st)
                return []
            else: return None
            ctx.oblig('comparison covers the common length of both keys', site(inst))
            for kv, nv in ((0, 0), (0, 3), (3, 0), (7, 7), (5, 9), (9, 5), (255, 256), (256, 255), (300, 4), (4, 300), (65535, 65535)):
                e = {K: kv, ks[i]: nv} if lens else {}
                if not lens: kv = nv = 8
                if not consistent(st, e): continue
                m = neval(ln, e)
                if m is None: continue
                if m != min(kv, nv):
                    self.v('compare-length', 'common length', 'keys of %d and %d bytes are compared over %d bytes instead of the common length' % (kv, nv, m), inst, st)
                    return []
            r = rel(i)
            if fl: r = {'<': '>', '>': '<', '=': '='}[r]
            alts = []
            if r == '=':
                if eng.assume(st, icmp('eq', K, ks[i]), True): alts.append((st, C(0, 32)))
                return alts
            s2 = st.fork()
            v = S(('cmp', i), 32)
            eng.constrain(s2, v, 'slt' if r == '<' else 'sgt', 0)
            alts.append((s2, v))
            if lens:
                less = rel(i) == '<'
                if eng.assume(st, icmp('ult', K, ks[i]) if less else icmp('ult', ks[i], K), True): alts.append((st, C(0, 32)))
            return alts

        def on_exit(eng, st, v, how, inst):
            if how != 'ret': return
            ctx.count('search')
            ctx.oblig('search result, %d keys' % n, site(inst))
            z = eng.eqc(st, v)
            idx = eng.eqc(st, eng.load(st, out, 2, 16))
            if z is None: return
            what = 'page with %d keys, key %s' % (n, 'equal to key %d' % p if eq else 'that belongs at position %d' % p)
            if eq:
                if z != 0: self.v('search-miss', 'search finds the key', '%s: the search reports status %d instead of finding it' % (what, z), inst, st)
                elif idx is not None and idx != p: self.v('search-index', 'search finds the key', '%s: the search answers position %d' % (what, idx), inst, st)
            else:
                if z == 0: self.v('search-false', 'search finds only equal keys', '%s: the search reports a match' % what, inst, st)
                elif z != NOTFOUND: self.v('search-status', 'search status', '%s: the search fails with status %d' % (what, z), inst, st)
                elif idx is not None and idx != p: self.v('search-place', 'insertion point', '%s: the search answers position %d' % (what, idx), inst, st)

        eng = ctx.engine(models={'memcmp': cmp, 'bcmp': cmp})
        eng.unroll = eng.K = 100000
        eng.on_exit = on_exit
        eng.widen_arith = False
        before = ctx.counts.get('search', 0)
        ctx.run(eng, 'db_page_search', [page, self.key, out], setup=setup)
        if ctx.counts.get('search', 0) == before and not getattr(ctx, 'truncated', False) and not ctx.viol:
            ctx.violation('search-endless', 'search ends', 'page with %d keys, key %s: the search never ends' % (n, 'equal to key %d' % p if eq else 'that belongs at position %d' % p), fn=ctx.prog.need('db_page_search'))

    def oversize(self):
        ctx = self.ctx
        page, out = S(('page',), 64), S(('out',), 64)
        K = S(('K64',), 64)

        def setup(eng, st):
            for x in (page, out, self.key): nonzero(eng, st, x)
            self.put(eng, st, self.key, VAL, 'data', self.kdata)
            self.put(eng, st, self.key, VAL, 'size', K)
            eng.constrain(st, K, 'ugt', 65535)
            self.put(eng, st, page, HDR, 'flags', self.LEAF)
            self.put(eng, st, page, HDR, 'num_keys', 1)

        def on_exit(eng, st, v, how, inst):
            if how == 'ret' and eng.eqc(st, v) == 0:
                self.v('search-oversize', 'no truncated sizes', 'a key longer than any stored key can be is reported as found', inst, st)
        eng = ctx.engine(models={})
        eng.on_exit = on_exit
        ctx.run(eng, 'db_page_search', [page, self.key, out], setup=setup)

    def all(self):
        th = self.ctx.tier == 'thorough'
        top = 9 if th else 5
        for kind in (self.LEAF, self.BRANCH):
            for n in range(top):
                for p in range(n + 1):
                    for eq in (False, True):
                        if eq and p == n: continue
                        self.one(kind, n, p, eq, True)
            big = (130, 259, 600) if kind == self.LEAF else (130, 259)
            for n in big:
                ps = {0, 1, n // 2, n - 1, n} | ({127, 128, 129, n // 3, 255, 256, 257} & set(range(n + 1)))
                for p in sorted(ps):
                    for eq in (False, True):
                        if eq and p == n: continue
                        self.one(kind, n, p, eq, False)
        self.oversize()
        self.ctx.need('search', 50)
        self.ctx.need('key comparison', 50)


# ---------------------------------------------------------------- D16 / D15: from the root to the leaf, and lookup
class Descent(Tree):
    """the way from the root to a leaf; page numbers, node positions and keys are arbitrary"""
    LEVELS = 3

    def one(self, entry, n, rdonly, dirty, levels):
        """dirty: which levels have a changed copy in this transaction"""
        ctx = self.ctx
        root = C(7, 64)
        out, plen, path = S(('out',), 64), S(('plen',), 64), S(('path',), 64)
        live = S(('live',), 64)
        D = [S(('D', k), 64) for k in range(levels)]
        withpath = 'path' in entry
        takes_root = entry.endswith('_in_tree')

        def init_page(eng, st, page, lvl):
            self.put_at(eng, st, page, HDR, 'flags', self.LEAF if lvl == levels - 1 else self.BRANCH)
            self.put_at(eng, st, page, HDR, 'num_keys', n)
            for i in range(n):
                o = 3000 - 40 * ((i * 2 + 1) % 5)
                eng.store(st, self.at(page, self.HS + 2 * i), C(o, 16), 2)
                if lvl < levels - 1: eng.store(st, self.at(page, o + self.f(BR, 'pgno')[0]), C(cv(st.mon['g']) * 5 + i, 64), 8)

        def expect_page(eng, st, g, lvl):
            p = D[lvl] if dirty[lvl] else self.pageof(g)
            st.mon['lvl'], st.mon['g'], st.mon['page'] = lvl, g, p
            st.mon['keep'] = st.mon['keep'] + (g, p)
            st.mon['gs'] = st.mon.get('gs', ()) + (g,)
            init_page(eng, st, p, lvl)

        def setup(eng, st):
            self.base(eng, st, rdonly, root)
            for x in (out, plen, path, live) + tuple(D): nonzero(eng, st, x)
            st.mon['keep'] = (self.txn, self.env, self.map, self.dirty, self.key, out, plen, path, live) + tuple(D)
            self.put(eng, st, self.env, ENV, 'live_meta', live)
            self.put(eng, st, self.txn, TXN, 'new_last_pgno', 1 << 20)
            self.put(eng, st, live, META, 'last_pgno', 1 << 20)
            expect_page(eng, st, root, 0)

        def hget(eng, st, inst, args):
            if args[0] is not self.dirty: return [(st, NULL)]
            g = eng.load(st, args[1], 8, 64)
            ctx.count('changed-page lookup')
            if eng.eqc(st, args[2]) != 8: return None
            if g is st.mon['g']: return [(st, D[st.mon['lvl']] if dirty[st.mon['lvl']] else NULL)]
            return [(st, NULL)]

        def search(eng, st, inst, args):
            ctx.count('branch search')
            lvl = st.mon['lvl']
            ctx.oblig('page of level %d: newest version of the child chosen above' % lvl, site(inst))
            if args[0] is not st.mon['page']:
                self.v('descent-page', 'right page', self.why(st, dirty, 'the search goes on in a page that is not %s' % self.desc(dirty, lvl)), inst, st)
                return []
            if args[1] is not self.key: return None
            if lvl == levels - 1:
                self.v('descent-past-leaf', 'stop at the leaf', 'the way down does not stop at a leaf page', inst, st)
                return []
            alts = []
            for i in range(n + 1):
                for f in (True, False):
                    if f and i == n: continue
                    s = st.fork()
                    eng.store(s, args[2], C(i, 16), 2)
                    e = i if f else max(i - 1, 0)
                    g = self.child(eng, s, s.mon['page'], e)
                    s.mon['how'] = (f, i)
                    expect_page(eng, s, g, lvl + 1)
                    s.note(inst, 'level %d: %s position %d of %d' % (lvl, 'found at' if f else 'belongs at', i, n))
                    alts.append((s, C(0 if f else NOTFOUND, 32)))
            return alts

        def on_exit(eng, st, v, how, inst):
            if how != 'ret': return
            ctx.count('descent')
            z = eng.eqc(st, v)
            if z is None: return
            lvl = st.mon['lvl']
            if z != 0:
                self.v('descent-fails', 'every key leads to a leaf', self.why(st, dirty, 'the way to the leaf fails with status %d in a well-formed tree' % z), inst, st)
                return
            ctx.oblig('leaf reached is the one the keys lead to', site(inst))
            p = eng.load(st, out, 8, 64)
            if p is not st.mon['page'] or lvl != levels - 1:
                self.v('descent-leaf', 'right leaf', self.why(st, dirty, 'the leaf returned is not %s' % self.desc(dirty, lvl)), inst, st)
                return
            if withpath:
                ln = eng.eqc(st, eng.load(st, plen, 2, 16))
                if ln is not None and ln != levels:
                    self.v('path-length', 'recorded path', 'the recorded path has %d pages in a tree of %d levels' % (ln, levels), inst, st)
                for k, g in enumerate(st.mon['gs']):
                    if eng.load(st, P(path, 8 * k), 8, 64) is not g:
                        self.v('path-page', 'recorded path', 'the recorded path does not hold the page of level %d' % k, inst, st)

        def on_store(eng, st, inst, ptr, val, tag):
            b = base_of(ptr)
            if b is self.map or b in D: self.v('descent-writes', 'lookups change nothing', 'the way to a leaf writes into a page', inst, st)

        eng = ctx.engine(models={'apr_hash_get': hget, 'db_page_search': search}, opaque=['db_page_search'])
        eng.on_exit, eng.on_store = on_exit, on_store
        eng.unroll = eng.K = 100000
        eng.WIDEN_VISITS = 1000
        eng.widen_arith = False
        eng.concrete = lambda v: True
        a = [self.txn] + ([root] if takes_root else []) + [self.key] + ([path, plen] if withpath else []) + [out]
        ctx.run(eng, entry, a, setup=setup)

    def put_at(self, eng, st, page, s, f, v):
        off, sz = self.f(s, f)
        eng.store(st, self.at(page, off), C(v, sz * 8), sz)

    def desc(self, dirty, lvl):
        return 'the %s of the page the keys lead to' % ('changed copy' if dirty[lvl] else 'stored version')

    def why(self, st, dirty, msg):
        h = st.mon.get('how')
        if h: msg += ' (in the page above, the key %s position %d)' % ('is found at' if h[0] else 'belongs at', h[1])
        return msg

    def deep(self):
        """a recorded path never outgrows its array"""
        ctx = self.ctx
        MAX = enum_int('MAX_TREE_DEPTH', 'napr_db_internal.h')
        path, plen, out = S(('path',), 64), S(('plen',), 64), S(('out',), 64)
        root = S(('root',), 64)

        def setup(eng, st):
            self.base(eng, st, False, root)
            for x in (path, plen, out): nonzero(eng, st, x)
            st.mon['keep'] = (self.txn, self.env, self.map, self.dirty, self.key, out, plen, path)
            st.mon['n'] = 0

        def search(eng, st, inst, args):
            st.mon['n'] += 1
            if st.mon['n'] > MAX + 3: return []
            eng.store(st, args[2], C(0, 16), 2)
            return [(st, C(0, 32))]

        def hget(eng, st, inst, args):
            # every page is another branch page
            p = S(('B', st.mon['n']), 64)
            nonzero(eng, st, p)
            self.put(eng, st, p, HDR, 'flags', self.BRANCH)
            self.put(eng, st, p, HDR, 'num_keys', 1)
            return [(st, p)]

        def on_store(eng, st, inst, ptr, val, tag):
            b, o, d = parts(ptr)
            if b is path:
                ctx.count('path entry stored')
                ctx.oblig('path entry within the array', site(inst))
                if not d and o + 8 > MAX * 8:
                    self.v('path-bound', 'path array', 'the path to a leaf is recorded beyond the %d entries of its array' % MAX, inst, st)
        for entry in ('db_find_leaf_page_with_path_in_tree',):
            eng = ctx.engine(models={'apr_hash_get': hget, 'db_page_search': search}, opaque=['db_page_search'])
            eng.on_store = on_store
            eng.unroll = eng.K = 100000
            eng.widen_arith = False
            eng.concrete = lambda v: True
            ctx.run(eng, entry, [self.txn, root, self.key, path, plen, out], setup=setup)
        ctx.need('path entry stored', 3)

    def all(self):
        ctx = self.ctx
        L = 4 if ctx.tier == 'thorough' else 3
        n = 3 if ctx.tier == 'thorough' else 2
        for entry in ('db_find_leaf_page_in_tree', 'db_find_leaf_page_with_path_in_tree', 'db_find_leaf_page', 'db_find_leaf_page_with_path'):
            for levels in range(1, L + 1):
                self.one(entry, n, True, (0,) * levels, levels)
                for d in itertools.product((0, 1), repeat=levels): self.one(entry, n, False, d, levels)
        self.deep()
        ctx.need('descent', 20)
        ctx.need('branch search', 20)

    def lookup(self):
        """napr_db_get: the value of exactly the entry found"""
        ctx = self.ctx
        data, leaf = S(('data',), 64), S(('leaf',), 64)
        I = 2
        for root in (0, None):
            def setup(eng, st):
                self.base(eng, st, True, C(0, 64) if root == 0 else S(('root',), 64))
                if root is None: nonzero(eng, st, S(('root',), 64))
                for x in (data, leaf): nonzero(eng, st, x)
                self.put(eng, st, leaf, HDR, 'num_keys', 5)
                self.put(eng, st, leaf, HDR, 'flags', self.LEAF)
                st.mon['keep'] = (self.txn, self.env, self.map, self.key, data, leaf)

            def find(eng, st, inst, args):
                def ok(s): eng.store(s, args[-1], leaf, 8); s.mon['found'] = 1
                def bad(s): s.mon['st'] = 'fail'
                ctx.count('lookup descent')
                if len(args) > 3 and args[1] is not S(('root',), 64): return None
                return status_alts(eng, st, inst, ok, bad)

            def search(eng, st, inst, args):
                ctx.count('lookup search')
                if args[0] is not leaf or args[1] is not self.key or not st.mon.get('found'):
                    self.v('get-search', 'right key, right page', 'a lookup searches another page than the leaf found, or for another key', inst, st)
                    return []
                r = []
                for z in (0, NOTFOUND, 22):
                    s = st.fork()
                    if z != 22: eng.store(s, args[2], C(I, 16), 2)
                    s.mon['st'] = {0: 'hit', NOTFOUND: 'miss', 22: 'fail'}[z]
                    r.append((s, C(z, 32)))
                return r

            def on_exit(eng, st, v, how, inst):
                if how != 'ret': return
                ctx.count('lookup')
                ctx.oblig('lookup result', site(inst))
                z, s = ret_is_zero(eng, st, v), st.mon.get('st')
                c = eng.eqc(st, v)
                if root == 0:
                    if z or c not in (NOTFOUND, None): self.v('get-empty', 'empty database', 'a lookup in an empty database does not answer "not found"', inst, st)
                    return
                if s == 'hit':
                    if z is False: self.v('get-lost', 'lookup result', 'a key that is found is reported as missing', inst, st); return
                    nd = self.node(eng, st, leaf, I)
                    ks, ds = self.get(eng, st, nd, LF, 'key_size'), self.get(eng, st, nd, LF, 'data_size')
                    b, o, d = parts(nd)
                    want = P(b, o + 4, d + ((cast('zext', ks, 16, 64), 1),))
                    got, sz = self.get(eng, st, data, VAL, 'data'), self.get(eng, st, data, VAL, 'size')
                    if not same_ptr(got, want): self.v('get-value', 'lookup result', 'the value returned does not start where the value of the entry found starts', inst, st)
                    if sz is not cast('zext', ds, 16, 64): self.v('get-size', 'lookup result', 'the size returned is not the size of the value of the entry found', inst, st)
                elif s == 'miss':
                    if z or c not in (None, NOTFOUND): self.v('get-false', 'lookup result', 'a key that is not there is not reported as missing', inst, st)
                elif s == 'fail' and z:
                    self.v('get-error', 'lookup result', 'a lookup reports success although a step failed', inst, st)
            eng = ctx.engine(models={'db_find_leaf_page': find, 'db_find_leaf_page_in_tree': find, 'db_page_search': search},
                             opaque=['db_find_leaf_page', 'db_find_leaf_page_in_tree', 'db_page_search'])
            eng.on_exit = on_exit
            ctx.run(eng, 'napr_db_get', [self.txn, self.key, data], setup=setup)
        ctx.need('lookup', 4)
        ctx.need('lookup search')


def same_ptr(a, b):
    if a is b: return True
    ba, oa, da = parts(a)
    bb, ob, db = parts(b)
    return ba is bb and oa == ob and sorted((str(x), y) for x, y in da) == sorted((str(x), y) for x, y in db)


def D16(ctx):
    Search(ctx).all()
    d = Descent(ctx)
    d.all()
    d.lookup()


# ---------------------------------------------------------------- D09: operations on one page
class Pages(Tree):
    """pages with given layouts and arbitrary contents: every byte of a key, a value or a child pointer is a symbol"""

    def layout(self, kind, sizes, hole=0, perm=None, gap=None):
        """offsets of nodes with the given (key, value) sizes, packed against the end of the page; returns (offsets, upper)"""
        n = len(sizes)
        o = self.PAGE
        offs = [0] * n
        for i in (perm or range(n)):
            o -= self.nsize(kind, sizes[i]) + hole
            offs[i] = o
        return offs, o

    def nsize(self, kind, s): return 4 + s[0] + s[1] if kind == self.LEAF else 10 + s[0]

    def entry(self, kind, i, s):
        """the contents of entry i"""
        k = tuple(S(('kb', i, j), 8) for j in range(s[0]))
        return (k, tuple(S(('db', i, j), 8) for j in range(s[1]))) if kind == self.LEAF else (k, S(('child', i), 64))

    def write(self, eng, st, page, kind, ents, offs, upper, pgno=55):
        n = len(ents)
        put = lambda f, v: self.put(eng, st, page, HDR, f, v)
        put('pgno', pgno); put('flags', kind); put('num_keys', n); put('lower', self.HS + 2 * n); put('upper', upper); put('padding', 0)
        for i in range(n):
            eng.store(st, P(page, self.HS + 2 * i), C(offs[i], 16), 2)
            o = offs[i]
            k, d = ents[i]
            if kind == self.LEAF:
                eng.store(st, P(page, o), C(len(k), 16), 2)
                eng.store(st, P(page, o + 2), C(len(d), 16), 2)
                self.bytes(eng, st, P(page, o + 4), k + d)
            else:
                eng.store(st, P(page, o), d, 8)
                eng.store(st, P(page, o + 8), C(len(k), 16), 2)
                self.bytes(eng, st, P(page, o + 10), k)

    def bytes(self, eng, st, ptr, bs):
        b, o, d = parts(ptr)
        for j, x in enumerate(bs): eng.store(st, P(b, o + j, d), x, 1)

    def rbytes(self, eng, st, ptr, n):
        b, o, d = parts(ptr)
        return tuple(eng.load(st, P(b, o + j, d), 1, 8) for j in range(n))

    def read(self, eng, st, page):
        """(kind, entries, problem): what the page says; problem is a text when the page is not well formed"""
        c = lambda f: eng.eqc(st, self.get(eng, st, page, HDR, f))
        b, po, pd = parts(page)
        kind, n, lo, up = c('flags'), c('num_keys'), c('lower'), c('upper')
        if None in (kind, n, lo, up) or kind not in (self.LEAF, self.BRANCH): return None
        if n > 64: return kind, [], 'the page claims %d entries' % n
        ents, used = [], []
        if lo != self.HS + 2 * n: return kind, [], 'the end of its slot array is recorded as %d for %d entries' % (lo, n)
        if up < lo or up > self.PAGE: return kind, [], 'its free space runs from %d to %d' % (lo, up)
        for i in range(n):
            o = eng.eqc(st, eng.load(st, P(b, po + self.HS + 2 * i, pd), 2, 16))
            if o is None: return None
            kf = 0 if kind == self.LEAF else 8
            if o < up or o >= self.PAGE: return kind, [], 'slot %d designates offset %d outside its data area, which starts at %d' % (i, o, up)
            ks = eng.eqc(st, eng.load(st, P(b, po + o + kf, pd), 2, 16))
            if ks is None: return kind, ents, 'slot %d designates no entry' % i
            if ks > 64: return kind, ents, 'entry %d claims a key of %d bytes' % (i, ks)
            if kind == self.LEAF:
                ds = eng.eqc(st, eng.load(st, P(b, po + o + 2, pd), 2, 16))
                if ds is None or ds > 64: return kind, ents, 'slot %d designates no entry' % i
                e = (self.rbytes(eng, st, P(b, po + o + 4, pd), ks), self.rbytes(eng, st, P(b, po + o + 4 + ks, pd), ds))
                sz = 4 + ks + ds
            else:
                e = (self.rbytes(eng, st, P(b, po + o + 10, pd), ks), eng.load(st, P(b, po + o, pd), 8, 64))
                sz = 10 + ks
            ents.append(e)
            if o + sz > self.PAGE: return kind, ents, 'entry %d reaches beyond the page' % i
            for (x, y) in used:
                if o < y and x < o + sz: return kind, ents, 'entries overlap'
            used.append((o, o + sz))
        return kind, ents, None

    def engine(self, models):
        eng = self.ctx.engine(models=models, opaque=['db_page_alloc', 'db_reclaim_page_from_free_db'])
        eng.unroll = eng.K = 100000
        eng.widen_arith = False
        eng.concrete = lambda v: True
        return eng

    def insert(self, kind, sizes, index, new, room, hole, oversize=False):
        """room: free bytes beyond what is needed (negative: too little)"""
        ctx = self.ctx
        page, key, data = S(('page',), 64), self.key, S(('data',), 64)
        kd, dd = self.kdata, S(('ddata',), 64)
        n = len(sizes)
        perm = list(range(n))[::-1] if (index + n) % 2 else None
        offs, up = self.layout(kind, sizes, hole, perm)
        need = self.nsize(kind, new) + 2
        lower = self.HS + 2 * n
        if not oversize:
            up = min(lower + need + room, up) if room is not None else up
            delta = 0
            if room is not None:
                # shift the data area so that exactly `room` bytes are left over
                offs2, up2 = self.layout(kind, sizes, hole, perm)
                pad = up2 - (lower + need + room)
                if pad < 0: return
                offs = [o - pad for o in offs2]
                up = up2 - pad
            if up < lower: return
        old = [self.entry(kind, i, s) for i, s in enumerate(sizes)]
        ne = self.entry(kind, 'new', new) if not oversize else None
        fits = not oversize and up - lower >= need

        def setup(eng, st):
            for x in (page, key, data, kd, dd): nonzero(eng, st, x)
            self.write(eng, st, page, kind, old, offs, up)
            self.put(eng, st, key, VAL, 'size', new[0]); self.put(eng, st, key, VAL, 'data', kd)
            self.put(eng, st, data, VAL, 'size', new[1]); self.put(eng, st, data, VAL, 'data', dd)
            if not oversize:
                self.bytes(eng, st, kd, ne[0])
                if kind == self.LEAF: self.bytes(eng, st, dd, ne[1])
            st.mon['keep'] = (page, key, data, kd, dd)

        def on_exit(eng, st, v, how, inst):
            if how != 'ret': return
            ctx.count('insert')
            ctx.oblig('insert at %d of %d' % (index, n), site(inst))
            z = eng.eqc(st, v)
            if z is None: return
            r = self.read(eng, st, page)
            if r is None: return
            k2, ents, prob = r
            what = 'inserting a key of %d bytes%s at position %d of a page with %d entries and %d free bytes' % (
                new[0], ' and a value of %d bytes' % new[1] if kind == self.LEAF else '', index, n, up - lower)
            if z == 0:
                if not fits and not hole: self.v('insert-overflow', 'free space', '%s succeeds although there is no room' % what, inst, st)
                elif prob: self.v('insert-page', 'well-formed page', '%s: afterwards %s' % (what, prob), inst, st)
                elif k2 != kind or not oversize and ents != old[:index] + [ne] + old[index:]:
                    self.v('insert-entries', 'entries kept in order', '%s: afterwards the page does not hold the old entries in order with the new one at its position' % what, inst, st)
            else:
                if fits: self.v('insert-refused', 'free space', '%s is refused although there is room' % what, inst, st)
                elif prob or ents != old: self.v('insert-failed-change', 'a refused insertion changes nothing', '%s is refused, but the page has changed' % what, inst, st)
                elif not oversize and z != 28: self.v('insert-status', 'refusal for lack of room', '%s is refused with status %d, not with "no space", so no room is made for it' % (what, z), inst, st)
        eng = self.engine({})
        eng.on_exit = on_exit
        args = [page, C(index, 16), key, data if kind == self.LEAF else NULL, S(('child', 'new'), 64) if kind == self.BRANCH else C(0, 64)]
        ctx.run(eng, 'db_page_insert', args, setup=setup)

    def delete(self, kind, sizes, index, hole, perm):
        ctx = self.ctx
        page = S(('page',), 64)
        n = len(sizes)
        offs, up = self.layout(kind, sizes, hole, perm)
        old = [self.entry(kind, i, s) for i, s in enumerate(sizes)]

        def setup(eng, st):
            nonzero(eng, st, page)
            self.write(eng, st, page, kind, old, offs, up)
            st.mon['keep'] = (page,)

        def on_exit(eng, st, v, how, inst):
            if how != 'ret': return
            ctx.count('delete')
            ctx.oblig('delete %d of %d' % (index, n), site(inst))
            z = eng.eqc(st, v)
            r = self.read(eng, st, page)
            if z is None or r is None: return
            k2, ents, prob = r
            what = 'deleting entry %d of a page with %d entries' % (index, n)
            if index >= n:
                if z == 0 or prob or ents != old: self.v('delete-none', 'no such entry', '%s succeeds or changes the page' % what, inst, st)
                return
            if z != 0: self.v('delete-refused', 'entries can be deleted', '%s fails with status %d' % (what, z), inst, st)
            elif prob: self.v('delete-page', 'well-formed page', '%s: afterwards %s' % (what, prob), inst, st)
            elif k2 != kind or ents != old[:index] + old[index + 1:]:
                self.v('delete-entries', 'other entries kept', '%s: afterwards the page does not hold exactly the other entries in order' % what, inst, st)
            elif hole == 0:
                u2 = eng.eqc(st, self.get(eng, st, page, HDR, 'upper'))
                ctx.oblig('space of the deleted entry becomes free', site(inst))
                if u2 is not None and u2 != up + self.nsize(kind, sizes[index]):
                    self.v('delete-space', 'space is given back', '%s: the space of the entry does not become free' % what, inst, st)
        eng = self.engine({})
        eng.on_exit = on_exit
        ctx.run(eng, 'db_page_delete', [page, C(index, 16)], setup=setup)

    def split(self, entry, kind, sizes, hole, perm, mode):
        """mode: ok, alloc (no page to be had), rdonly, kind (wrong kind of page)"""
        ctx = self.ctx
        page, rout, dout = S(('page',), 64), S(('rout',), 64), S(('dout',), 64)
        pool = S(('pool',), 64)
        n = len(sizes)
        offs, up = self.layout(kind, sizes, hole, perm)
        old = [self.entry(kind, i, s) for i, s in enumerate(sizes)]
        G = 77

        def setup(eng, st):
            self.base(eng, st, mode == 'rdonly', C(5, 64))
            self.put(eng, st, self.txn, TXN, 'pool', pool)
            for x in (page, rout, dout, pool): nonzero(eng, st, x)
            self.write(eng, st, page, kind, old, offs, up)
            st.mon['keep'] = (page, rout, dout, self.txn, self.dirty, pool)

        def alloc(eng, st, inst, args):
            ctx.count('page allocated for a split')
            if mode == 'alloc': return [(st, C(28, 32))]
            c = eng.eqc(st, args[1])
            if args[0] is not self.txn or c is None or c < 1: return None
            eng.store(st, args[2], C(G, 64), 8)
            st.mon['g'] = 1
            return [(st, C(0, 32))]

        def palloc(eng, st, inst, args):
            r = m_palloc(False, 1)(eng, st, inst, args)
            n = eng.eqc(st, args[1])
            for s, p in r: s.mon['sz'] = s.mon.get('sz', ()) + ((p, n),)
            return r

        def hset(eng, st, inst, args):
            if args[0] is not self.dirty: return [(st, None)]
            g = eng.eqc(st, eng.load(st, args[1], 8, 64))
            ln = eng.eqc(st, args[2])
            st.mon['reg'] = st.mon.get('reg', ()) + ((g, ln, args[3], region_kind(args[1])),)
            return [(st, None)]

        def on_exit(eng, st, v, how, inst):
            if how != 'ret': return
            ctx.count('split')
            ctx.oblig('split of %d entries' % n, site(inst))
            z = eng.eqc(st, v)
            if z is None: return
            r = self.read(eng, st, page)
            if r is None: return
            k1, le, p1 = r
            what = 'splitting a page with %d entries' % n
            if mode != 'ok':
                why = {'alloc': 'when no page can be had', 'rdonly': 'in a read-only transaction', 'kind': 'of the other kind'}[mode]
                if z == 0: self.v('split-' + mode, 'failing split', '%s %s succeeds' % (what, why), inst, st)
                elif p1 or le != old: self.v('split-change-' + mode, 'failing split', '%s %s changes the page' % (what, why), inst, st)
                return
            if z != 0: self.v('split-fails', 'a full page can be split', '%s fails with status %d' % (what, z), inst, st); return
            right = eng.load(st, rout, 8, 64)
            if right.k == 'c': self.v('split-out', 'new page', '%s: no new page is handed back' % what, inst, st); return
            if region_kind(right) != 'h': return
            r2 = self.read(eng, st, right)
            if p1: self.v('split-left', 'well-formed page', '%s: in the left page %s' % (what, p1), inst, st); return
            if r2 is None: return
            k2, re_, p2 = r2
            if p2: self.v('split-right', 'well-formed page', '%s: in the right page %s' % (what, p2), inst, st); return
            if k1 != kind or k2 != kind: self.v('split-kind', 'kind of page', '%s: the halves are not of the same kind as the page' % what, inst, st); return
            if le + re_ != old: self.v('split-entries', 'no entry lost or repeated', '%s: the two halves together do not hold exactly the entries of the page in order' % what, inst, st); return
            if not le or not re_: self.v('split-empty', 'both halves used', '%s: one half is empty' % what, inst, st); return
            for pg, es, wh in ((page, le, 'left'), (right, re_, 'right')):
                c = lambda f: eng.eqc(st, self.get(eng, st, pg, HDR, f))
                ctx.oblig('the space of entries that moved away is free', site(inst))
                free = self.PAGE - self.HS - sum(2 + self.nsize(kind, (len(e[0]), len(e[1]) if kind == self.LEAF else 0)) for e in es)
                if c('upper') - c('lower') < free and (wh == 'right' or not hole):
                    self.v('split-space', 'space is given back', '%s: the %s page offers %d free bytes where its entries leave %d, so the entry the split was made for may still find no room' % (
                        what, wh, c('upper') - c('lower'), free), inst, st); return
            dp, dz = self.get(eng, st, dout, VAL, 'data'), eng.eqc(st, self.get(eng, st, dout, VAL, 'size'))
            if dp.k != 'c' and dz is not None:
                if dz != len(re_[0][0]) or self.rbytes(eng, st, dp, dz) != re_[0][0]:
                    self.v('split-divider', 'divider', '%s: the divider is not the first key of the right half' % what, inst, st)
            if eng.eqc(st, self.get(eng, st, right, HDR, 'pgno')) != G:
                self.v('split-pgno', 'new page', '%s: the new page does not carry the page number allocated for it' % what, inst, st)
            sz = dict(st.mon.get('sz', ())).get(right)
            if sz is not None and sz < self.PAGE: self.v('split-alloc', 'new page', '%s: the new page has only %d bytes' % (what, sz), inst, st)
            reg = [x for x in st.mon.get('reg', ()) if x[2] is right]
            if not reg or any(x[0] not in (G, None) or x[1] != 8 for x in reg):
                self.v('split-registered', 'new page', '%s: the new page is not recorded among the changed pages under its own number' % what, inst, st)
            elif any(x[3] == 'a' for x in reg):
                self.v('split-key-life', 'new page', '%s: the new page is recorded under a key that dies with the call' % what, inst, st)
            if eng.eqc(st, self.get(eng, st, page, HDR, 'pgno')) != 55:
                self.v('split-left-pgno', 'left page', '%s: the left page loses its page number' % what, inst, st)
        eng = self.engine({'db_page_alloc': alloc, 'apr_palloc': palloc, 'apr_hash_set': hset})
        eng.on_exit = on_exit
        ctx.run(eng, entry, [self.txn, page, rout, dout], setup=setup)

    SZ = [(2, 3), (1, 0), (3, 1), (0, 2), (2, 2), (1, 1), (3, 3)]

    def all(self):
        ctx = self.ctx
        N = 5 if ctx.tier == 'thorough' else 4
        for kind in (self.LEAF, self.BRANCH):
            for n in range(N):
                sz = self.SZ[:n]
                for i in range(n + 1):
                    for room in (None, 0, 1, -1, -2, -3, -11 if kind == self.LEAF else -15):
                        self.insert(kind, sz, i, (3, 2), room, 0)
                    self.insert(kind, sz, i, (1, 0), None, 3)
                    self.insert(kind, sz, i, (0, 0), 0, 0)
            for n in (0, 2):
                for s in ((65536, 1), (1, 65536), (65535, 65535), (65530, 3), (3, 65530), (4097, 1), (1, 4097), (4080, 4), (1 << 32, 1), (1, 1 << 32), ((1 << 32) + 1, (1 << 32) + 1), (32768, 32764), (1 << 63, 1 << 63)):
                    if kind == self.BRANCH and s[0] < 4080: continue
                    self.insert(kind, self.SZ[:n], 0, s, None, 0, oversize=True)
            for n in range(1, N + 1):
                for i in range(n + 1):
                    perms = list(itertools.permutations(range(n))) if n <= 3 or ctx.tier == 'thorough' and n <= 4 else [tuple(range(n)), tuple(range(n))[::-1], (1, 3, 0, 2) + tuple(range(4, n))]
                    for pm in perms:
                        for hole in (0, 5): self.delete(kind, self.SZ[:n], i, hole, pm)
            entry = 'db_split_leaf' if kind == self.LEAF else 'db_split_branch'
            for n in range(2, N + 3):
                for pm in (None, tuple(range(n))[::-1], tuple(x for x in (1, 3, 0, 2, 6, 4, 5) if x < n)):
                    for hole in (0, 5): self.split(entry, kind, self.SZ[:n], hole, pm, 'ok')
            for mode in ('alloc', 'rdonly'): self.split(entry, kind, self.SZ[:4], 0, None, mode)
            self.split('db_split_branch' if kind == self.LEAF else 'db_split_leaf', kind, self.SZ[:4], 0, None, 'kind')
        for x in ('insert', 'delete', 'split'): ctx.need(x, 10)
        ctx.need('page allocated for a split')


def D09(ctx):
    Pages(ctx).all()


# ---------------------------------------------------------------- D13: storing and deleting
class Update(Tree):
    """the protocol of page operations behind put, delete and the recording of freed pages.

    The page operations themselves are D09, the descent and the search D16; here they are replaced by their specification.
    A tree is a path of L pages with page numbers 10, 11, ...; the position of the child taken in each branch page (c) and
    the place of the key in the leaf (I, found or not) are chosen in every possible way, every insertion may find the page full."""
    ROOT, RIGHT, NEW = 10, 100, 200

    def __init__(self, ctx, entry, L, dirty, sizes=(10, 20), fits=True, rdonly=False, nb=3, nl=4):
        Tree.__init__(self, ctx)
        self.NB, self.NL = nb, nl
        self.entry, self.L, self.nd, self.rdonly = entry, L, dirty, rdonly
        self.data, self.ddata = S(('data',), 64), S(('ddata',), 64)
        self.ks, self.ds, self.fits = sizes[0], sizes[1], fits
        self.free = entry == 'napr_db_txn_commit'
        self.dele = entry == 'napr_db_del'
        self.D = [S(('D', k), 64) for k in range(L)]
        self.R = [S(('R', k), 64) for k in range(L)]
        self.DV = [S(('DV', k), 64) for k in range(L)]
        self.txnid = S(('txnid',), 64)
        self.elts = S(('elts',), 64)

    def bad(self, st, key, rule, msg, inst):
        h = st.mon.get('how', '')
        self.v(key, rule, msg + (' (%s)' % h if h else ''), inst, st)

    # ---- pages
    def cap(self, k): return self.NL if k == self.L - 1 else self.NB

    def ident(self, st, page):
        b, o, d = parts(page)
        if d: return None
        if b is self.map and o % self.PAGE == 0 and 0 <= o // self.PAGE - self.ROOT < self.L: return ('M', o // self.PAGE - self.ROOT)
        if o: return None
        for k in range(self.L):
            if b is self.D[k]: return ('D', k)
            if b is self.R[k]: return ('R', k)
        if region_kind(b) == 'h': return ('N', b)
        return None

    def header(self, eng, st, page, pgno, kind, n, base=0):
        w = lambda f, v: self.put_at(eng, st, page, HDR, f, v)
        w('pgno', pgno); w('flags', kind); w('num_keys', n); w('lower', self.HS + 2 * n); w('upper', 2000)
        for i in range(n): eng.store(st, self.at(page, self.HS + 2 * i), C(3000 + 40 * i, 16), 2)

    def put_at(self, eng, st, page, s, f, v):
        off, sz = self.f(s, f)
        eng.store(st, self.at(page, off), C(v, sz * 8), sz)

    def kind(self, k): return self.LEAF if k == self.L - 1 else self.BRANCH

    def lowered(self, eng, st, k):
        return eng.eqc(st, eng.load(st, P(self.D[k], 3000 + 8), 2, 16)) == 0

    # ---- keys and pending items
    def which(self, eng, st, key):
        """'user', the level whose split the key divides, or None"""
        if key.k == 'c': return None
        d, n = self.get(eng, st, key, VAL, 'data'), self.get(eng, st, key, VAL, 'size')
        for k in range(self.L):
            if d is self.DV[k]: return k if eng.eqc(st, n) == 7 + k else 'odd'
        if self.free:
            if eng.eqc(st, n) == 8 and eng.load(st, d, 8, 64) is self.txnid: return 'user'
            return None
        if d is self.kdata: return 'user' if eng.eqc(st, n) == self.ks else 'odd'
        return None

    def item(self, st, w):
        for it in st.mon['pend']:
            if it[0] == w: return it
        return None

    def name(self, w): return 'the new record' if w == 'user' else 'the page split off at level %d' % w

    # ---- models
    def find(self, eng, st, inst, args):
        ctx = self.ctx
        ctx.count('way to the leaf')
        takes_root = inst and callee_name(inst).endswith('in_tree')
        key, path, plen, out = args[-4:]
        if takes_root and eng.eqc(st, args[1]) != self.ROOT or not takes_root and eng.eqc(st, self.get(eng, st, self.txn, TXN, 'root_pgno')) != self.ROOT:
            self.bad(st, 'wrong-tree', 'right tree', 'the leaf is looked for in another tree', inst); return []
        if self.which(eng, st, key) != 'user':
            self.bad(st, 'wrong-key', 'right key', 'the leaf is looked for with another key than the one to be updated', inst); return []
        for k in range(self.L): eng.store(st, self.at(path, 8 * k), C(self.ROOT + k, 64), 8)
        eng.store(st, plen, C(self.L, 16), 2)
        leaf = self.D[-1] if self.nd == self.L else P(self.map, (self.ROOT + self.L - 1) * self.PAGE)
        eng.store(st, out, leaf, 8)
        r = []
        for cs in itertools.product(range(self.NB), repeat=self.L - 1):
            for found in ((0,) if self.free else (0, 1)):
                for i in range(self.NL + 1 - found):
                    s = st.fork()
                    s.mon['c'], s.mon['found'], s.mon['I'] = cs, found, i
                    s.mon['pend'] = (('user', self.L - 1, i),)
                    s.note(inst, 'children taken: %s; key %s position %d of the leaf' % (list(cs), 'found at' if found else 'belongs at', i))
                    r.append((s, C(0, 32)))
        return r

    def hget(self, eng, st, inst, args):
        if args[0] is not self.dirty: return [(st, NULL)]
        if eng.eqc(st, args[2]) != 8: return None
        g = eng.eqc(st, eng.load(st, args[1], 8, 64))
        if g is None: return None
        r = NULL
        if 0 <= g - self.ROOT < self.L and st.mon.get(('dirty', g - self.ROOT)): r = self.D[g - self.ROOT]
        elif 0 <= g - self.RIGHT < self.L and st.mon.get(('S', g - self.RIGHT)) is not None: r = self.R[g - self.RIGHT]
        elif g == self.NEW and st.mon.get('reg') is not None: r = st.mon['reg']
        return [(st, r)]

    def hset(self, eng, st, inst, args):
        if args[0] is not self.dirty: return [(st, None)]
        g, ln = eng.eqc(st, eng.load(st, args[1], 8, 64)), eng.eqc(st, args[2])
        self.ctx.count('page recorded as changed')
        if region_kind(args[1]) == 'a':
            self.bad(st, 'key-life', 'changed pages', 'a page is recorded under a key that dies with the call', inst)
        if g == self.NEW and ln == 8: st.mon['reg'] = args[3]
        elif args[3].k == 's' and region_kind(args[3]) == 'h':
            self.bad(st, 'reg-number', 'changed pages', 'the new root is recorded under another page number than its own', inst)
        return [(st, None)]

    def writable(self, eng, st, inst, args):
        i = self.ident(st, args[1])
        self.ctx.count('page copied')
        if i is None or i[0] not in 'MD': return None
        k = i[1]
        a = st.fork()
        if not a.mon.get(('dirty', k)):
            a.mon[('dirty', k)] = 1
            self.header(eng, a, self.D[k], self.ROOT + k, self.kind(k), self.cap(k))
            for j in range(self.cap(k)):
                if self.kind(k) == self.BRANCH: eng.store(a, P(self.D[k], 3000 + 40 * j + 8), C(7, 16), 2)
        eng.store(a, args[2], self.D[k], 8)
        b = st.fork()
        b.mon['failed'] = 'copying a page fails'
        return [(a, C(0, 32)), (b, C(12, 32))]

    def search(self, eng, st, inst, args):
        i, w = self.ident(st, args[0]), self.which(eng, st, args[1])
        self.ctx.count('search')
        if i is None or w is None or w == 'odd' or i[0] == 'N': return None
        it = self.item(st, w)
        if it is None or it[1] != i[1]: return None
        k, pos = i[1], it[2]
        z = NOTFOUND
        sp = st.mon.get(('S', k))
        if i[0] == 'R': pos = max(pos - sp, 0)
        elif sp is not None: pos = min(pos, sp)
        if w == 'user':
            if st.mon['found'] and not st.mon.get('deleted'): z = 0
        elif i[0] != 'R' and st.mon.get(('low', k)) and not self.lowered(eng, st, k):
            pos, z = 0, 0 if st.mon[('low', k)] == '=' else NOTFOUND
        eng.store(st, args[2], C(pos, 16), 2)
        return [(st, C(z, 32))]

    def insert(self, eng, st, inst, args):
        ctx = self.ctx
        page, idx, key, data, child = args
        i, w, x = self.ident(st, page), self.which(eng, st, key), eng.eqc(st, idx)
        ctx.count('insertion')
        ctx.oblig('insertion goes to its place', site(inst))
        if i is None: return None
        if i[0] == 'M':
            self.bad(st, 'committed-insert', 'only copies are changed', 'a record is inserted into the committed page itself', inst); return []
        if i[0] == 'N': return self.newroot(eng, st, inst, page, x, key, w, data, child)
        if w == 'odd': self.bad(st, 'insert-key', 'right key', 'the key that is inserted is not the whole key', inst); return []
        if w is None: return None
        k = i[1]
        it = self.item(st, w)
        if it is None or it[1] < 0:
            self.bad(st, 'insert-again', 'inserted once', '%s is inserted although it already has its place%s' % (self.name(w), '' if it is None else ' in a new root'), inst); return []
        if it[1] != k:
            self.bad(st, 'insert-level', 'right page', '%s is inserted at level %d instead of %d' % (self.name(w), k, it[1]), inst); return []
        if i[0] == 'D' and not st.mon.get(('dirty', k)): return None
        pos, sp = it[2], st.mon.get(('S', k))
        if w == 'user' and st.mon['found'] and not st.mon.get('deleted'):
            self.bad(st, 'insert-duplicate', 'one record per key', 'the new value is inserted next to the old record of the same key', inst); return []
        side = 'R' if sp is not None and pos > sp else 'D'
        want = pos - sp if side == 'R' else pos
        if i[0] != side:
            self.bad(st, 'insert-half', 'right page', '%s is inserted into the %s half of a split page, but lookups look for it in the %s one' % (
                self.name(w), 'right' if i[0] == 'R' else 'left', 'right' if side == 'R' else 'left'), inst); return []
        if x is None: return None
        if x != want:
            self.bad(st, 'insert-index', 'key order', '%s is inserted at position %d of its page instead of %d' % (self.name(w), x, want), inst); return []
        if w == 'user':
            dp, dn = (self.get(eng, st, data, VAL, 'data'), eng.eqc(st, self.get(eng, st, data, VAL, 'size'))) if data.k != 'c' else (None, None)
            if dp is None or dn is not None and (dp is not self.ddata or dn != self.ds):
                self.bad(st, 'insert-value', 'the value stored', 'another value than the given one is stored', inst); return []
        else:
            g = eng.eqc(st, child)
            if g is not None and g != self.RIGHT + w:
                self.bad(st, 'insert-child', 'right child', 'the parent is given page %d for %s instead of its page number' % (g, self.name(w)), inst); return []
            if st.mon.get(('low', k)) and not self.lowered(eng, st, k):
                self.bad(st, 'insert-low', 'key order', 'the divider is not greater than the first key of the parent, and that key is not lowered: keys below the divider are no longer found', inst); return []
        r = []
        if self.fits:
            a = st.fork()
            a.mon['pend'] = tuple(y for y in a.mon['pend'] if y is not it)
            n = eng.eqc(a, self.get(eng, a, page, HDR, 'num_keys'))
            if n is not None: self.put(eng, a, page, HDR, 'num_keys', n + 1)
            r.append((a, C(0, 32)))
        b = st.fork()
        b.note(inst, 'no room at level %d' % k)
        if sp is not None: b.mon['failed'] = 'the half of a split page has no room either'
        if not self.fits: b.mon['failed'] = 'the record never fits'
        r.append((b, C(28, 32)))
        return r

    def newroot(self, eng, st, inst, page, x, key, w, data, child):
        ctx = self.ctx
        c = lambda f: eng.eqc(st, self.get(eng, st, page, HDR, f))
        g = eng.eqc(st, child)
        ents = st.mon.get('N', ())
        if not ents:
            kind = self.LEAF if self.L == 0 else self.BRANCH
            for f, v in (('flags', kind), ('num_keys', 0), ('lower', self.HS), ('upper', self.PAGE), ('pgno', self.NEW)):
                if c(f) is not None and c(f) != v:
                    self.bad(st, 'root-header', 'new root', 'the new root page starts with %s %d instead of %d' % (f, c(f), v), inst); return []
        if x is None: return None
        if self.L == 0:
            dp = self.get(eng, st, data, VAL, 'data') if data.k != 'c' else None
            if w != 'user' or dp is not self.ddata or eng.eqc(st, self.get(eng, st, data, VAL, 'size')) != self.ds or x != 0 or ents:
                self.bad(st, 'root-record', 'new root', 'the first page of an empty tree does not get exactly the given record', inst); return []
        else:
            if not self.item(st, 0) or self.item(st, 0)[1] != -1:
                self.bad(st, 'root-early', 'new root', 'a new root is built although the old one was not split', inst); return []
            if w == 0 and g != self.RIGHT or w != 0 and g != self.ROOT:
                self.bad(st, 'root-child', 'new root', 'the new root does not lead to the two halves of the old one under their keys', inst); return []
            want = len([e for e in ents if e < (1 if w == 0 else 0)])
            if x != want:
                self.bad(st, 'root-order', 'new root', 'the halves of the old root are entered in the wrong order', inst); return []
        a = st.fork()
        a.mon['N'] = tuple(sorted(ents + ((1 if w == 0 else 0),)))
        a.mon['Npage'] = page
        self.put(eng, a, page, HDR, 'num_keys', len(ents) + 1)
        r = [(a, C(0, 32))] if self.fits or self.L else []
        if self.L == 0 and not self.fits:
            b = st.fork()
            b.mon['failed'] = 'the record never fits'
            r.append((b, C(28, 32)))
        return r

    def delete(self, eng, st, inst, args):
        i, x = self.ident(st, args[0]), eng.eqc(st, args[1])
        self.ctx.count('deletion')
        self.ctx.oblig('deletion removes the record found', site(inst))
        if i is None or x is None: return None
        if i[0] == 'M': self.bad(st, 'committed-delete', 'only copies are changed', 'a record is deleted from the committed page itself', inst); return []
        if i[0] != 'D' or i[1] != self.L - 1 or not st.mon['found'] or x != st.mon['I'] or st.mon.get('deleted'):
            self.bad(st, 'delete-other', 'only the old record is removed', 'another record than the one found under the key is deleted', inst); return []
        st.mon['deleted'] = 1
        n = eng.eqc(st, self.get(eng, st, args[0], HDR, 'num_keys'))
        if n is not None: self.put(eng, st, args[0], HDR, 'num_keys', n - 1)
        return [(st, C(0, 32))]

    def split(self, leaf):
        def m(eng, st, inst, args):
            i = self.ident(st, args[1])
            self.ctx.count('split')
            self.ctx.oblig('only full pages of the path are split', site(inst))
            if i is None or i[0] in 'NR': return None
            if i[0] == 'M': self.bad(st, 'committed-split', 'only copies are changed', 'the committed page itself is split', inst); return []
            k = i[1]
            if (k == self.L - 1) != leaf: self.bad(st, 'split-kind', 'kind of page', 'a page is split as if it were of the other kind', inst); return []
            if st.mon.get(('S', k)) is not None: return None
            if not self.fits:
                self.bad(st, 'split-oversize', 'a record too large for any page has no effect', 'a page is split for a record that can never fit into a page', inst); return []
            r = []
            b = st.fork()
            b.mon['failed'] = 'splitting a page fails'
            r.append((b, C(28, 32)))
            n = eng.eqc(st, self.get(eng, st, args[1], HDR, 'num_keys'))
            if n is None: return None
            nl = n // 2
            lows = ('', '<', '=') if k > 0 and st.mon['c'][k - 1] == 0 else ('',)
            for low in lows:
                a = st.fork()
                a.mon[('S', k)] = nl
                self.put(eng, a, self.D[k], HDR, 'num_keys', nl)
                self.header(eng, a, self.R[k], self.RIGHT + k, self.kind(k), n - nl)
                eng.store(a, args[2], self.R[k], 8)
                self.put(eng, a, args[3], VAL, 'data', self.DV[k])
                self.put(eng, a, args[3], VAL, 'size', 7 + k)
                if low: a.mon[('low', k - 1)] = low
                pos = a.mon['c'][k - 1] + 1 if k else 0
                a.mon['pend'] = a.mon['pend'] + ((k, k - 1, pos),)
                a.note(inst, 'level %d split%s' % (k, ', divider not above the first key of the parent' if low else ''))
                r.append((a, C(0, 32)))
            return r
        return m

    def alloc(self, eng, st, inst, args):
        self.ctx.count('page allocated')
        if eng.eqc(st, args[1]) != 1: return None
        a, b = st.fork(), st.fork()
        eng.store(a, args[2], C(self.NEW, 64), 8)
        b.mon['failed'] = 'no page can be allocated'
        return [(a, C(0, 32)), (b, C(28, 32))]

    def on_store(self, eng, st, inst, ptr, val, tag):
        if base_of(ptr) is self.map:
            self.bad(st, 'committed-store', 'only copies are changed', 'a committed page is written to directly', inst)

    # ---- verdicts
    def changed(self, st): return st.mon.get('deleted') or any(k[0] == 'S' for k in st.mon if isinstance(k, tuple))

    def on_exit(self, eng, st, v, how, inst):
        ctx = self.ctx
        if how != 'ret': return
        ctx.count('update')
        ctx.oblig('outcome of the update', site(inst))
        z = ret_is_zero(eng, st, v)
        if z is None: return
        pend, failed = st.mon['pend'], st.mon.get('failed')
        what = 'deleting' if self.dele else 'recording the freed pages' if self.free else 'storing'
        if self.rdonly:
            if z: self.bad(st, 'rdonly', 'read-only transactions', '%s succeeds in a read-only transaction' % what, inst)
            return
        root = eng.eqc(st, self.get(eng, st, self.txn, TXN, 'root_pgno'))
        old = self.ROOT if self.L else 0
        if self.dele:
            if z:
                if not st.mon.get('deleted'):
                    self.bad(st, 'delete-nothing', 'outcome of a deletion', 'deleting reports success although no record was removed', inst)
            else:
                c = eng.eqc(st, v)
                if st.mon.get('deleted'): self.bad(st, 'delete-denied', 'outcome of a deletion', 'deleting reports failure although the record was removed', inst)
                elif (self.L == 0 or not st.mon.get('found')) and not failed and c is not None and c != NOTFOUND:
                    self.bad(st, 'delete-notfound', 'outcome of a deletion', 'deleting a key that is not there is not answered with "not found"', inst)
                elif self.L and st.mon.get('found') and not failed:
                    self.bad(st, 'delete-refused', 'outcome of a deletion', 'a record that is there is not deleted although nothing went wrong', inst)
            if root is not None and root != old: self.bad(st, 'delete-root', 'root of the tree', 'a deletion changes the root of the tree', inst)
            return
        if z:
            if failed and failed != 'handled': self.bad(st, 'put-error', 'errors are reported', '%s reports success although %s' % (what, failed), inst); return
            grew = any(it[1] == -1 for it in pend) or self.L == 0
            rest = [it for it in pend if it[1] >= 0 and not (self.L == 0)]
            if rest:
                self.bad(st, 'put-lost', 'every record stays reachable', '%s reports success, but %s is in no page of the tree' % (what, self.name(rest[0][0])), inst); return
            N = st.mon.get('N', ())
            if grew:
                if N != ((0, 1) if self.L else (0,)): self.bad(st, 'root-missing', 'every record stays reachable', '%s reports success, but no new root leads to both halves of the old one' % what if self.L else 'storing into an empty tree reports success, but the record is in no page', inst); return
                if st.mon.get('reg') is not st.mon['Npage']: self.bad(st, 'root-unrecorded', 'changed pages', 'the new root is not recorded among the changed pages, so it is never written', inst); return
            nr = st.mon.get('newfree', root) if self.free else root
            if nr is not None and nr != (self.NEW if grew else old):
                self.bad(st, 'root-pgno', 'root of the tree', '%s: the tree ends up with root page %d instead of %d' % (what, nr, self.NEW if grew else old), inst)
            if self.free and root is not None and root != 5: self.bad(st, 'main-root', 'root of the tree', 'recording the freed pages changes the root of the records', inst)
            return
        if self.free: 
            if not failed: self.bad(st, 'free-refused', 'outcome of a commit', 'a commit fails although every step succeeded', inst)
            return
        if not failed and self.fits and not st.mon.get('found'):
            self.bad(st, 'put-refused', 'a record that fits is stored', 'storing fails although the key is new, the record fits and no step failed', inst); return
        if not failed and self.fits and st.mon.get('found') and self.nd < self.L:
            self.bad(st, 'put-refused', 'a record that fits is stored', 'storing fails although the old record could be replaced and no step failed', inst); return
        if self.changed(st):
            f = eng.eqc(st, self.get(eng, st, self.txn, TXN, 'failed'))
            ctx.oblig('a failed update cannot be committed', site(inst))
            if f == 0: self.bad(st, 'put-halfway', 'a failed update is not committed', 'storing fails after entries have moved (%s), and the transaction can still be committed without them' % (failed or 'refused'), inst)
        elif self.L == 0 and root is not None and root != 0:
            self.bad(st, 'root-early', 'root of the tree', 'storing fails, but the tree has a new root', inst)

    def run(self):
        ctx = self.ctx
        arr = S(('arr',), 64)

        def setup(eng, st):
            self.base(eng, st, self.rdonly, C(5 if self.free else self.ROOT if self.L else 0, 64))
            pool = S(('pool',), 64)
            for x in (self.data, self.kdata, self.ddata, pool, arr, self.elts): nonzero(eng, st, x)
            self.put(eng, st, self.txn, TXN, 'pool', pool)
            self.put(eng, st, self.txn, TXN, 'failed', 0)
            self.put(eng, st, self.key, VAL, 'data', self.kdata); self.put(eng, st, self.key, VAL, 'size', self.ks)
            self.put(eng, st, self.data, VAL, 'data', self.ddata); self.put(eng, st, self.data, VAL, 'size', self.ds)
            for k in range(self.L):
                nonzero(eng, st, self.D[k]); nonzero(eng, st, self.R[k])
                self.header(eng, st, P(self.map, (self.ROOT + k) * self.PAGE), self.ROOT + k, self.kind(k), self.cap(k))
                if k < self.nd:
                    st.mon[('dirty', k)] = 1
                    self.header(eng, st, self.D[k], self.ROOT + k, self.kind(k), self.cap(k))
                    if self.kind(k) == self.BRANCH:
                        for j in range(self.cap(k)): eng.store(st, P(self.D[k], 3000 + 40 * j + 8), C(7, 16), 2)
            st.mon['pend'] = ()
            st.mon['keep'] = (self.txn, self.env, self.map, self.dirty, self.key, self.data, arr, self.txnid, self.elts) + tuple(self.D) + tuple(self.R) + tuple(self.DV)
            if self.free:
                self.ddata, self.ds = self.elts, 24
                self.put(eng, st, self.txn, TXN, 'txnid', self.txnid)
                self.put(eng, st, self.txn, TXN, 'free_db_root_pgno', self.ROOT if self.L else 0)
                self.put(eng, st, self.txn, TXN, 'new_last_pgno', 1000)
                self.put(eng, st, self.txn, TXN, 'freed_pages', arr)
                m0, m1 = S(('m0',), 64), S(('m1',), 64)
                for x in (m0, m1): nonzero(eng, st, x)
                for f, x in (('meta0', m0), ('meta1', m1), ('live_meta', m0)): self.put(eng, st, self.env, ENV, f, x)
                self.put(eng, st, m0, META, 'last_pgno', 1000)
                wm = S(('wm',), 64)
                nonzero(eng, st, wm)
                self.put(eng, st, self.env, ENV, 'writer_thread_mutex', wm)
                st.mon['keep'] += (m0, m1)
                lay = Lay(ctx.prog)
                for f, v in (('nelts', 3), ('elt_size', 8), ('elts', self.elts)): self.put(eng, st, arr, 'apr_array_header_t', f, v)
                st.mon['pend'] = (('user', self.L - 1, 0),) if self.L == 0 else ()

        def wf(eng, st, inst, args):
            n = eng.eqc(st, args[2])
            b, o, d = parts(args[1])
            if region_kind(args[1]) == 'a':
                st.mon['newfree'] = eng.eqc(st, self.get(eng, st, args[1], META, 'free_db_root'))
                st.mon['newroot'] = eng.eqc(st, self.get(eng, st, args[1], META, 'root'))
                if st.mon['newroot'] not in (None, 5): self.bad(st, 'main-root', 'root of the tree', 'recording the freed pages changes the root of the records', inst)
            return [(st, C(0, 32))]
        zero = lambda eng, st, inst, args: [(st, C(0, 32))]
        models = {'db_find_leaf_page_with_path': self.find, 'db_find_leaf_page_with_path_in_tree': self.find, 'apr_hash_get': self.hget, 'apr_hash_set': self.hset,
                  'db_page_get_writable': self.writable, 'db_page_search': self.search, 'db_page_insert': self.insert, 'db_page_delete': self.delete,
                  'db_split_leaf': self.split(True), 'db_split_branch': self.split(False), 'db_page_alloc': self.alloc, 'apr_palloc': m_palloc(False, 1)}
        opq = [x for x in models if x.startswith('db_')]
        if self.free:
            models.update({'apr_hash_first': lambda e, s, i, a: [(s, NULL)], 'apr_hash_count': lambda e, s, i, a: [(s, C(1, 32))], 'apr_file_write_full': wf,
                           'apr_hash_make': m_nonnull('st')})
            for x in ('apr_file_seek', 'apr_file_write', 'apr_file_sync', 'apr_thread_mutex_lock', 'apr_thread_mutex_unlock', 'apr_proc_mutex_lock', 'apr_proc_mutex_unlock'): models[x] = zero
        eng = ctx.engine(models=models, opaque=opq)
        eng.on_exit, eng.on_store = self.on_exit, self.on_store
        eng.unroll = eng.K = 100000
        eng.WIDEN_VISITS = 1000
        eng.widen_arith = False
        eng.concrete = lambda v: True
        a = {'napr_db_put': [self.txn, self.key, self.data], 'napr_db_del': [self.txn, self.key, NULL], 'napr_db_txn_commit': [self.txn]}[self.entry]
        ctx.run(eng, self.entry, a, setup=setup)


def refuse_failed(ctx):
    """a transaction whose update failed halfway is refused by commit, without a write"""
    t = Tree(ctx)

    def setup(eng, st):
        t.base(eng, st, False, C(5, 64))
        t.put(eng, st, t.txn, TXN, 'failed', 1)
        st.mon['keep'] = (t.txn, t.env, t.map, t.dirty)

    def wr(eng, st, inst, args):
        t.v('failed-written', 'a failed update is not committed', 'a transaction in which an update failed halfway is written to the file', inst, st)
        return []

    def on_exit(eng, st, v, how, inst):
        if how != 'ret': return
        ctx.count('commit of a failed transaction')
        ctx.oblig('commit of a failed transaction is refused', site(inst))
        if ret_is_zero(eng, st, v): t.v('failed-committed', 'a failed update is not committed', 'committing a transaction in which an update failed halfway reports success', inst, st)
    eng = ctx.engine(models={'apr_hash_count': lambda e, s, i, a: [(s, C(1, 32))], 'apr_file_write': wr, 'apr_file_write_full': wr})
    eng.on_exit = on_exit
    ctx.run(eng, 'napr_db_txn_commit', [t.txn], setup=setup)


def D13(ctx):
    T = 4 if ctx.tier == 'thorough' else 3
    probe = Tree(ctx)
    most = probe.PAGE - probe.HS - 2 - 4
    for L in range(T + 1):
        big = {} if L < 4 else dict(nb=2, nl=2)
        for nd in range(L + 1):
            Update(ctx, 'napr_db_put', L, nd, **big).run()
            Update(ctx, 'napr_db_del', L, nd).run()
        if L < T or T > 3:
            for nd in {0, L}: Update(ctx, 'napr_db_txn_commit', L, nd, **big).run()
        else: Update(ctx, 'napr_db_txn_commit', L, 1, nb=2, nl=2).run()
    for L in (0, 1, 2):
        for e in ('napr_db_put', 'napr_db_del'): Update(ctx, e, L, 0, rdonly=True).run()
        for s in ((most, 0), (1, most - 1), (100, most - 100), (0, most)): Update(ctx, 'napr_db_put', L, L, sizes=s).run()
        for s in ((most, 1), (1, most), (100, most - 99), (most + 1, 0), (65536 + 4, 10), (1, 65536 + 10), (1 << 32, 1), ((1 << 63) + 1, (1 << 63) + 1), ((1 << 64) - 8, 10)):
            Update(ctx, 'napr_db_put', L, L, sizes=s, fits=False).run()
    refuse_failed(ctx)
    for x in ('update', 'insertion', 'split', 'deletion', 'way to the leaf', 'commit of a failed transaction'): ctx.need(x)


# ---------------------------------------------------------------- D04: no page in use is changed or given out
class Reuse(Tree):
    def writable(self, rdonly, have):
        """db_page_get_writable: a private copy of the whole page, once"""
        ctx = self.ctx
        orig, out, copy0, pool, arr = S(('orig',), 64), S(('out',), 64), S(('copy0',), 64), S(('pool',), 64), S(('arr',), 64)
        G, slot = S(('G',), 64), S(('slot',), 64)

        def setup(eng, st):
            self.base(eng, st, rdonly, C(5, 64))
            for x in (orig, out, copy0, pool, arr, slot): nonzero(eng, st, x)
            self.put(eng, st, self.txn, TXN, 'pool', pool)
            self.put(eng, st, self.txn, TXN, 'freed_pages', arr)
            self.put(eng, st, orig, HDR, 'pgno', G)
            st.mon['keep'] = (self.txn, self.env, self.dirty, orig, out, copy0, pool, arr, G, slot)

        def hget(eng, st, inst, args):
            if args[0] is not self.dirty: return None
            if eng.load(st, args[1], 8, 64) is not G or eng.eqc(st, args[2]) != 8:
                self.v('copy-key', 'one copy per page', 'the existing copy of a page is looked for under another key than its page number', inst, st); return []
            ctx.count('existing copy looked for')
            return [(st, copy0 if have else NULL)]

        def palloc(eng, st, inst, args):
            n = eng.eqc(st, args[1])
            r = []
            for s, p in m_palloc(True, 1)(eng, st, inst, args):
                s.mon['sz'] = s.mon.get('sz', ()) + ((p, n),)
                r.append((s, p))
            return r

        def mcpy(eng, st, inst, args):
            n = eng.eqc(st, args[2])
            if args[1] is orig: st.mon['cp'] = (args[0], n)
            if base_of(args[0]) is copy0: self.v('copy-overwritten', 'one copy per page', 'asking for a page that was already copied overwrites the changes made to the copy', inst, st); return []
            return None

        def hset(eng, st, inst, args):
            if args[0] is not self.dirty: return [(st, None)]
            ctx.count('copy recorded')
            st.mon['reg'] = (eng.load(st, args[1], 8, 64), eng.eqc(st, args[2]), args[3], region_kind(args[1]))
            return [(st, None)]

        def push(eng, st, inst, args):
            return [(st, slot)]

        def on_store(eng, st, inst, ptr, val, tag):
            if base_of(ptr) in (orig, self.map): self.v('orig-written', 'the original stays as it is', 'making a copy of a page writes into the original', inst, st)
            if base_of(ptr) is copy0: self.v('copy-overwritten', 'one copy per page', 'asking for a page that was already copied overwrites the changes made to the copy', inst, st)

        def on_exit(eng, st, v, how, inst):
            if how != 'ret': return
            ctx.count('copy')
            ctx.oblig('private copy', site(inst))
            z = ret_is_zero(eng, st, v)
            if z is None: return
            reg = st.mon.get('reg')
            if rdonly:
                if z: self.v('copy-rdonly', 'read-only transactions', 'a page can be copied for change in a read-only transaction', inst, st)
                return
            if not z:
                if reg: self.v('copy-failed', 'one copy per page', 'making a copy fails, but a copy is recorded', inst, st)
                return
            got = eng.load(st, out, 8, 64)
            if have:
                if got is not copy0 or reg: self.v('copy-twice', 'one copy per page', 'a page that was already changed is copied again: the changes made before are lost', inst, st)
                return
            if region_kind(got) != 'h':
                if got is orig: self.v('copy-original', 'only copies are changed', 'the committed page itself is handed out to be changed', inst, st)
                return
            sz = dict(st.mon.get('sz', ())).get(got)
            cp = st.mon.get('cp')
            if sz is not None and sz < self.PAGE: self.v('copy-room', 'whole page copied', 'the copy of a page has only %d bytes' % sz, inst, st)
            elif cp is None or cp[0] is not got or cp[1] != self.PAGE:
                self.v('copy-part', 'whole page copied', 'not the whole page is copied', inst, st)
            if not reg or reg[0] is not G or reg[1] != 8 or reg[2] is not got:
                self.v('copy-unrecorded', 'one copy per page', 'the copy is not recorded under the number of its page, so the change is lost', inst, st)
            elif reg[3] == 'a': self.v('copy-keylife', 'one copy per page', 'the copy is recorded under a key that dies with the call', inst, st)
            if eng.load(st, slot, 8, 64) is not G: self.v('copy-unfreed', 'replaced pages are recorded', 'the page that was copied is not listed among the pages the transaction replaces', inst, st)
        eng = ctx.engine(models={'apr_hash_get': hget, 'apr_hash_set': hset, 'apr_palloc': palloc, 'apr_pmemdup': None, 'apr_array_push': push, 'memcpy': mcpy, 'llvm.memcpy.p0.p0.i64': mcpy})
        eng.models = {k: v for k, v in eng.models.items() if v}
        eng.on_store, eng.on_exit = on_store, on_exit
        ctx.run(eng, 'db_page_get_writable', [self.txn, orig, out], setup=setup)

    def alloc(self, rdonly, count, last, room):
        """db_page_alloc: a reclaimed page, or pages behind everything in use and inside the map"""
        ctx = self.ctx
        out = S(('out',), 64)
        G = S(('G',), 64)

        def setup(eng, st):
            self.base(eng, st, rdonly, C(5, 64))
            nonzero(eng, st, out)
            self.put(eng, st, self.txn, TXN, 'new_last_pgno', last)
            self.put(eng, st, self.env, ENV, 'mapsize', (last + 1 + room) * self.PAGE)
            st.mon['keep'] = (self.txn, self.env, out, G)

        def recl(eng, st, inst, args):
            ctx.count('reclaim attempted')
            def ok(s): eng.store(s, args[1], G, 8); s.mon['rec'] = 1
            return status_alts(eng, st, inst, ok, None)

        def on_exit(eng, st, v, how, inst):
            if how != 'ret': return
            ctx.count('allocation')
            ctx.oblig('allocation', site(inst))
            z = ret_is_zero(eng, st, v)
            if z is None: return
            got = eng.load(st, out, 8, 64)
            nl = eng.eqc(st, self.get(eng, st, self.txn, TXN, 'new_last_pgno'))
            what = 'allocating %d page%s with %d in use and room for %d more' % (count, '' if count == 1 else 's', last + 1, room)
            if rdonly or count == 0:
                if z or nl is not None and nl != last: self.v('alloc-refuse', 'allocation refused', '%s succeeds' % ('allocating in a read-only transaction' if rdonly else 'allocating no page'), inst, st)
                return
            if not z:
                if st.mon.get('rec'): self.v('alloc-lost', 'no page is lost', 'a reclaimed page is not handed out', inst, st)
                elif count <= room: self.v('alloc-denied', 'room is used', '%s fails' % what, inst, st)
                elif nl is not None and nl != last: self.v('alloc-failcount', 'allocation refused', '%s fails, but counts the pages as used' % what, inst, st)
                return
            if st.mon.get('rec'):
                if got is not G and eng.eqc(st, got) is not None: self.v('alloc-rec', 'reclaimed page', 'after reclaiming a page another one is handed out', inst, st)
                if got is G and count > 1: self.v('alloc-many', 'allocation', 'one reclaimed page is handed out for %d pages' % count, inst, st)
                return
            g = eng.eqc(st, got)
            if g is None or nl is None: return
            if count > room: self.v('alloc-map', 'pages lie inside the map', '%s succeeds: the page lies outside the memory map' % what, inst, st)
            elif g <= last: self.v('alloc-used', 'no page in use is handed out', '%s hands out page %d, which is in use' % (what, g), inst, st)
            elif nl < g + count - 1: self.v('alloc-again', 'no page is handed out twice', '%s leaves the last page in use at %d: the next allocation hands out the same page again' % (what, nl), inst, st)
        eng = ctx.engine(models={'db_reclaim_page_from_free_db': recl}, opaque=['db_reclaim_page_from_free_db'])
        eng.on_exit = on_exit
        ctx.run(eng, 'db_page_alloc', [self.txn, C(count, 32), out], setup=setup)

    def oldest(self, at):
        """db_get_oldest_reader_txnid: the smallest number in any used slot"""
        ctx = self.ctx
        out, mtx = S(('out',), 64), S(('mtx',), 64)
        N = macro_int('MAX_READERS')
        base = self.f(ENV, 'reader_table')[0]
        so, ss = self.f('DB_ReaderSlot', 'txnid')
        size = self.slot
        A = [S(('t', i), 64) for i in range(len(at))]

        def setup(eng, st):
            for x in (self.env, out, mtx): nonzero(eng, st, x)
            self.put(eng, st, self.env, ENV, 'reader_table_mutex', mtx)
            for i in range(N):
                eng.store(st, P(self.env, base + size * i + so), A[at.index(i)] if i in at else C(0, 64), 8)
            st.mon['keep'] = (self.env, out, mtx) + tuple(A)

        def lock(eng, st, inst, args):
            def ok(s): s.mon['locked'] = 1
            return status_alts(eng, st, inst, ok, None)

        def unlock(eng, st, inst, args):
            st.mon['locked'] = 0
            return [(st, C(0, 32))]

        def on_load(eng, st, inst, ptr, *a):
            b, o, d = parts(ptr)
            if b is self.env and base <= o < base + size * N:
                ctx.count('slot read')
                if not st.mon.get('locked'): self.v('oldest-unlocked', 'reader table locked', 'the table of readers is read without its lock', inst, st)

        def on_exit(eng, st, v, how, inst):
            if how != 'ret': return
            z = ret_is_zero(eng, st, v)
            if not z: return
            ctx.count('oldest reader')
            got = eng.load(st, out, 8, 64)
            for vals in itertools.product((0, 1, 2, 3), repeat=len(A)):
                env = {a: x for a, x in zip(A, vals)}
                if not consistent(st, env): continue
                g = neval(got, env)
                if g is None: continue
                ctx.oblig('oldest reader is the smallest number', site(inst))
                want = min([x for x in vals if x] or [0])
                if g != want:
                    self.v('oldest-wrong', 'oldest reader', 'with readers of versions %s in slots %s the oldest is taken to be %d' % (list(vals), list(at), g), inst, st); return
        eng = ctx.engine(models={'apr_thread_mutex_lock': lock, 'apr_thread_mutex_unlock': unlock})
        eng.on_load, eng.on_exit = on_load, on_exit
        eng.unroll = eng.K = 100000
        eng.WIDEN_VISITS = 1000
        eng.widen_arith = False
        eng.concrete = lambda v: True
        ctx.run(eng, 'db_get_oldest_reader_txnid', [self.env, out], setup=setup)

    def reclaim(self, sizes, ksizes, noreader):
        """db_reclaim_page_from_free_db: a page freed before every reader, taken out of its entry"""
        ctx = self.ctx
        out, cur, pool = S(('out',), 64), S(('cur',), 64), S(('pool',), 64)
        n = len(sizes)
        KP = [S(('KP', i), 64) for i in range(n)]
        DP = [S(('DP', i), 64) for i in range(n)]
        t = [S(('t', i), 64) for i in range(n)]
        pg = [[S(('pg', i, j), 64) for j in range(sizes[i] // 8)] for i in range(n)]
        O, X = S(('oldest',), 64), S(('me',), 64)
        FREE, MAIN = 9, 5
        ops = {k: enum_int(k, 'napr_db.h') for k in ('NAPR_DB_FIRST', 'NAPR_DB_NEXT')}

        def setup(eng, st):
            self.base(eng, st, False, C(MAIN, 64))
            for x in (out, cur, pool, X) + tuple(KP) + tuple(DP): nonzero(eng, st, x)
            self.put(eng, st, self.txn, TXN, 'free_db_root_pgno', FREE)
            self.put(eng, st, self.txn, TXN, 'txnid', X)
            self.put(eng, st, self.txn, TXN, 'pool', pool)
            for i in range(n):
                if ksizes[i] == 8: eng.store(st, P(KP[i], 0), t[i], 8)
                for j, g in enumerate(pg[i]): eng.store(st, P(DP[i], 8 * j), g, 8)
            st.mon['keep'] = (self.txn, self.env, out, cur, pool, O, X) + tuple(KP) + tuple(DP) + tuple(t) + tuple(g for x in pg for g in x)

        def rootck(eng, st, inst, what):
            r = eng.eqc(st, self.get(eng, st, self.txn, TXN, 'root_pgno'))
            if r is not None and r != FREE:
                self.v('reclaim-tree', 'right tree', '%s works on the records instead of the list of freed pages' % what, inst, st)
                return False
            return True

        def oldest(eng, st, inst, args):
            ctx.count('oldest reader asked for')
            st.mon['asked'] = 1
            def ok(s): eng.store(s, args[1], C(0, 64) if noreader else O, 8)
            if not noreader: eng.constrain(st, O, 'ne', 0)
            return status_alts(eng, st, inst, ok, None)

        def copen(eng, st, inst, args):
            if not rootck(eng, st, inst, 'the search for a free page'): return []
            def ok(s): eng.store(s, args[1], cur, 8); s.mon['open'] = s.mon.get('open', 0) + 1; s.mon['at'] = -1
            return status_alts(eng, st, inst, ok, None)

        def cget(eng, st, inst, args):
            op = eng.eqc(st, args[3])
            i = 0 if op == ops['NAPR_DB_FIRST'] else st.mon.get('at', -1) + 1 if op == ops['NAPR_DB_NEXT'] else None
            if i is None or args[0] is not cur: return None
            st.mon['at'] = i
            if i >= n: return [(st, C(NOTFOUND, 32))]
            self.put(eng, st, args[1], VAL, 'data', KP[i]); self.put(eng, st, args[1], VAL, 'size', ksizes[i])
            self.put(eng, st, args[2], VAL, 'data', DP[i]); self.put(eng, st, args[2], VAL, 'size', sizes[i])
            return [(st, C(0, 32))]

        def cclose(eng, st, inst, args): return [(st, C(0, 32))]

        def entry(eng, st, key):
            """the entry a key names"""
            d, z = self.get(eng, st, key, VAL, 'data'), eng.eqc(st, self.get(eng, st, key, VAL, 'size'))
            if z is None: return None
            c = eng.load(st, d, 8, 64)
            for i in range(n):
                if ksizes[i] == 8 and c is t[i]: return i if z == 8 else -1
            return -1

        def dele(eng, st, inst, args):
            ctx.count('entry removed')
            if not rootck(eng, st, inst, 'removing an entry'): return []
            e = entry(eng, st, args[1])
            if e is None: return None
            ctx.oblig('entry named by its own number', site(inst))
            if e == -1: self.v('reclaim-del', 'the page leaves its entry', 'another entry than the one the page was taken from is removed', inst, st); return []
            bad = st.fork()
            b2 = eng.fresh(bad, eng.site(bad, inst, 'st'), 32)
            nonzero(eng, bad, b2)
            st.mon['del'] = e
            # the entries of the page have moved
            for i in range(n):
                eng.store(st, P(KP[i], 0), S(('moved', i), 64), 8)
                for j in range(len(pg[i])): eng.store(st, P(DP[i], 8 * j), S(('movedp', i, j), 64), 8)
            bad.mon['err'] = 1
            return [(st, C(0, 32)), (bad, b2)]

        def put(eng, st, inst, args):
            ctx.count('entry put back')
            if not rootck(eng, st, inst, 'putting an entry back'): return []
            e = entry(eng, st, args[1])
            if e is None: return None
            ctx.oblig('rest of the entry kept under its number', site(inst))
            if e == -1:
                self.v('reclaim-key', 'the page leaves its entry', 'the remaining pages are stored under a number that is not that of their entry (the key has moved with the page it lies in)', inst, st); return []
            d, z = self.get(eng, st, args[2], VAL, 'data'), eng.eqc(st, self.get(eng, st, args[2], VAL, 'size'))
            if z is not None:
                rest = [eng.load(st, self.at(d, 8 * j), 8, 64) for j in range(z // 8)]
                st.mon['rest'] = (e, tuple(rest), z)
            def no(s): s.mon['err'] = 1
            return status_alts(eng, st, inst, None, no)

        def on_exit(eng, st, v, how, inst):
            if how != 'ret': return
            ctx.count('reclaim')
            ctx.oblig('reclaimed page', site(inst))
            r = eng.eqc(st, self.get(eng, st, self.txn, TXN, 'root_pgno'))
            if r is not None and r != MAIN: self.v('reclaim-root', 'root of the records', 'after looking for a free page the transaction works on the list of freed pages as if it were the records', inst, st); return
            z = ret_is_zero(eng, st, v)
            if not z: return
            if st.mon.get('err'): self.v('reclaim-error', 'errors are reported', 'a page is handed out although taking it out of its entry failed', inst, st); return
            g = eng.load(st, out, 8, 64)
            own = [(i, j) for i in range(n) for j in range(len(pg[i])) if pg[i][j] is g]
            if not own:
                self.v('reclaim-other', 'only freed pages are handed out', 'the page handed out is not one of the pages recorded as freed', inst, st); return
            i, j = own[0]
            if sizes[i] % 8: return
            if not noreader:
                if eng.ev(st, icmp('ule', t[i], O)) is not True:
                    self.v('reclaim-reader', 'pages a reader can see are not reused', 'a page freed by a transaction newer than the oldest reader\'s version is handed out', inst, st); return
            if st.mon.get('del') != i:
                self.v('reclaim-stays', 'the page leaves its entry', 'a page is handed out but stays recorded as free: it is handed out again', inst, st); return
            rest = [x for k, x in enumerate(pg[i]) if k != j]
            got = st.mon.get('rest')
            if rest and (got is None or got[0] != i):
                self.v('reclaim-drop', 'no page is lost', 'the other pages of the entry are no longer recorded as free', inst, st)
            elif got is not None and (sorted(map(str, got[1])) != sorted(map(str, rest)) or got[2] != 8 * len(rest)):
                self.v('reclaim-rest', 'the page leaves its entry', 'the entry put back does not list exactly the other pages', inst, st)
        def room(eng, st, inst, args):
            r = m_palloc(False, 1)(eng, st, inst, args)
            n = eng.eqc(st, args[1])
            for s, p in r or ():
                if n is not None and p.k != 'c': s.mon['room'] = tuple(x for x in s.mon.get('room', ()) if x[0] is not base_of(p)) + ((base_of(p), n),)
            return r

        def on_call(eng, st, inst, name, args):
            if name not in ('memcpy', 'memmove', 'llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64'): return None
            b, o, d = parts(args[0])
            n = eng.eqc(st, args[2])
            for x, size in st.mon.get('room', ()):
                if x is b and not d and n is not None and o + n > size:
                    self.v('reclaim-room', 'no page is lost', 'the other pages of the entry are copied to a place too small for them', inst, st)
            return None
        eng = ctx.engine(models={'db_get_oldest_reader_txnid': oldest, 'napr_db_cursor_open': copen, 'napr_db_cursor_get': cget, 'napr_db_cursor_close': cclose,
                                 'napr_db_del': dele, 'napr_db_put': put, 'apr_palloc': room},
                         opaque=['db_get_oldest_reader_txnid', 'napr_db_cursor_open', 'napr_db_cursor_get', 'napr_db_cursor_close', 'napr_db_del', 'napr_db_put'])
        eng.on_exit, eng.on_call = on_exit, on_call
        eng.unroll = eng.K = 100000
        eng.WIDEN_VISITS = 1000
        eng.widen_arith = False
        eng.concrete = lambda v: True
        ctx.run(eng, 'db_reclaim_page_from_free_db', [self.txn, out], setup=setup)

    def inplace(self):
        """commit: a page that replaces a committed one is written to another place"""
        ctx = self.ctx
        page, kp, ix, arr, elts, m0, m1, wm, pool = (S((x,), 64) for x in ('page', 'kp', 'ix', 'arr', 'elts', 'm0', 'm1', 'wm', 'pool'))
        G = 7

        def setup(eng, st):
            self.base(eng, st, False, C(G, 64))
            for x in (page, kp, ix, arr, elts, m0, m1, wm, pool): nonzero(eng, st, x)
            for f, x in (('meta0', m0), ('meta1', m1), ('live_meta', m0), ('writer_thread_mutex', wm)): self.put(eng, st, self.env, ENV, f, x)
            for m in (m0, m1): self.put(eng, st, m, META, 'last_pgno', 20)
            put = lambda f, v: self.put(eng, st, self.txn, TXN, f, v)
            put('new_last_pgno', 20); put('free_db_root_pgno', 0); put('freed_pages', arr); put('pool', pool); put('failed', 0)
            for f, v in (('nelts', 1), ('elt_size', 8), ('elts', elts)): self.put(eng, st, arr, 'apr_array_header_t', f, v)
            eng.store(st, P(elts, 0), C(G, 64), 8)
            eng.store(st, P(kp, 0), C(G, 64), 8)
            self.put(eng, st, page, HDR, 'pgno', G); self.put(eng, st, page, HDR, 'flags', self.LEAF); self.put(eng, st, page, HDR, 'num_keys', 1)
            st.mon['keep'] = (self.txn, self.env, page, kp, ix, arr, elts, m0, m1, wm, pool, self.dirty)

        def this(eng, st, inst, args):
            if args[1].k != 'c': eng.store(st, args[1], kp, 8)
            if args[2].k != 'c': eng.store(st, args[2], C(8, 64), 8)
            if args[3].k != 'c': eng.store(st, args[3], page, 8)
            return [(st, None)]

        def seek(eng, st, inst, args):
            st.mon['pos'] = eng.eqc(st, eng.load(st, args[2], 8, 64)) if eng.eqc(st, args[1]) == 0 else None
            return [(st, C(0, 32))]

        def write(eng, st, inst, args):
            if args[1] is page:
                ctx.count('replaced page written')
                ctx.oblig('a replaced page is not overwritten', site(inst))
                if st.mon.get('pos') == G * self.PAGE:
                    self.v('inplace-overwrite', 'committed pages stay as they are', 'a changed page is written over the committed page it replaces (commit keeps its page number), which readers and the previous version still use and which is recorded as free', inst, st)
            return [(st, C(0, 32))]
        zero = lambda eng, st, inst, args: [(st, C(0, 32))]
        models = {'apr_hash_first': lambda e, s, i, a: [(s, ix if a[1] is self.dirty else NULL)], 'apr_hash_next': lambda e, s, i, a: [(s, NULL)], 'apr_hash_this': this,
                  'apr_hash_count': lambda e, s, i, a: [(s, C(1, 32))], 'apr_hash_get': lambda e, s, i, a: [(s, NULL)], 'apr_hash_set': lambda e, s, i, a: [(s, None)],
                  'apr_hash_make': m_nonnull('st'), 'apr_palloc': m_palloc(False, 1), 'apr_file_seek': seek, 'apr_file_write_full': write,
                  'db_page_alloc': None}
        del models['db_page_alloc']
        models['apr_file_write'] = write
        for x in ('apr_file_sync', 'apr_thread_mutex_lock', 'apr_thread_mutex_unlock'): models[x] = zero

        def alloc(eng, st, inst, args):
            eng.store(st, args[2], C(21, 64), 8)
            return [(st, C(0, 32))]
        models['db_page_alloc'] = alloc
        models['db_page_insert'] = zero
        eng = ctx.engine(models=models, opaque=['db_page_alloc', 'db_page_insert'])
        eng.unroll = eng.K = 100000
        eng.widen_arith = False
        eng.concrete = lambda v: True
        ctx.run(eng, 'napr_db_txn_commit', [self.txn], setup=setup)
        if not ctx.counts.get('replaced page written'): ctx.notes.append('commit writes its pages in a way that was not recognised')

    def all(self):
        ctx = self.ctx
        so = self.f(ENV, 'reader_table')
        self.slot = so[1] // macro_int('MAX_READERS')
        N = macro_int('MAX_READERS')
        for ro in (False, True):
            for have in (False, True): self.writable(ro, have)
        for c in (0, 1, 2, 5):
            for room in (0, 1, 2, 4, 5, 6, 100):
                self.alloc(False, c, 20, room)
            self.alloc(True, c, 20, 10)
        for at in ((0,), (N - 1,), (0, N - 1), (1, 2, 64), (3, 124, 125)) if ctx.tier != 'thorough' else [(i,) for i in range(N)] + [(0, N - 1), (1, 2, 64), (3, 124, 125), (0, 1, 2, 3)]:
            self.oldest(at)
        for noreader in (False, True):
            for ks in ((8, 8), (4, 8), (8, 16)):
                for sz in itertools.product((8, 16, 24, 0, 12), repeat=2):
                    self.reclaim(sz, ks, noreader)
            self.reclaim((), (), noreader)
        if ctx.tier == 'thorough':
            for sz in itertools.product((8, 24), repeat=3): self.reclaim(sz, (8, 8, 8), False)
        self.inplace()
        for x in ('copy', 'allocation', 'oldest reader', 'reclaim', 'copy recorded', 'entry removed', 'slot read'): ctx.need(x)


def D04(ctx):
    Reuse(ctx).all()


# ---------------------------------------------------------------- D11: cursors
class Cursors(Tree):
    """every reachable cursor state of a family of trees, every operation: the record delivered is the one the key order demands.
    A tree is an int (leaf with that many records) or a tuple of trees."""
    NS = 4

    def build(self, tree, changed, rdonly):
        self.pages, self.leaves, self.rdonly = [], [], rdonly

        def walk(t):
            i = len(self.pages)
            pg = dict(no=10 + 3 * i, tree=t, kids=[], low=None)
            self.pages.append(pg)
            if isinstance(t, int):
                pg['low'] = 1000 * len(self.leaves)
                pg['keys'] = [pg['low'] + 2 * k + 2 for k in range(t)]
                self.leaves.append(pg)
            else:
                pg['kids'] = [walk(x) for x in t]
                pg['low'] = pg['kids'][0]['low']
            return pg
        self.root = walk(tree) if tree is not None else None
        for i, pg in enumerate(self.pages):
            pg['changed'] = changed(i) and not rdonly
            pg['copy'] = S(('D', i), 64)
            pg['stored'] = P(self.map, pg['no'] * self.PAGE)
            pg['at'] = pg['copy'] if pg['changed'] else pg['stored']
        self.recs = [(pg, k) for pg in self.leaves for k in range(pg['tree'])]
        self.keys = [pg['keys'][k] for pg, k in self.recs]
        self.what = repr(tree).replace(' ', '')
        self.pagebases = [self.map] + [pg['copy'] for pg in self.pages]

    def nodeat(self, pg, k):
        n = pg['tree'] if isinstance(pg['tree'], int) else len(pg['kids'])
        return 4000 - 24 * ((k * 5 + 2) % 7) if n <= 7 else 4080 - 8 * k

    def rsize(self, pg, k):
        """key size, data size"""
        if pg['tree'] > 7: return 1 + k % 2, 2 - k % 2
        return 3 + (pg['no'] + k) % 5, 1 + (pg['no'] + 2 * k) % 7

    def image(self, eng, st):
        for pg in self.pages:
            for p in ({pg['at'], pg['stored']} if pg['changed'] else {pg['at']}):
                leaf = isinstance(pg['tree'], int)
                n = pg['tree'] if leaf else len(pg['kids'])
                self.put_at(eng, st, p, HDR, 'pgno', pg['no'])
                self.put_at(eng, st, p, HDR, 'flags', self.LEAF if leaf else self.BRANCH)
                self.put_at(eng, st, p, HDR, 'num_keys', n)
                for k in range(n):
                    o = self.nodeat(pg, k)
                    eng.store(st, self.at(p, self.HS + 2 * k), C(o, 16), 2)
                    if leaf:
                        for f, x in zip(('key_size', 'data_size'), self.rsize(pg, k)):
                            fo, fs = self.f(LF, f)
                            eng.store(st, self.at(p, o + fo), C(x, 8 * fs), fs)
                    else:
                        fo, fs = self.f(BR, 'pgno')
                        eng.store(st, self.at(p, o + fo), C(pg['kids'][k]['no'], 8 * fs), fs)

    def put_at(self, eng, st, page, s, f, v):
        off, sz = self.f(s, f)
        eng.store(st, self.at(page, off), C(v, sz * 8), sz)

    def engine(self, target):
        ctx = self.ctx
        byno = {pg['no']: pg for pg in self.pages}
        byat = {}
        for pg in self.pages:
            byat[pg['stored']] = pg
            byat[pg['at']] = pg

        def hget(eng, st, inst, args):
            if args[0] is not self.dirty: return [(st, NULL)]
            g = eng.eqc(st, eng.load(st, args[1], 8, 64))
            pg = byno.get(g)
            return [(st, pg['copy'] if pg and pg['changed'] else NULL)]

        def search(eng, st, inst, args):
            pg = byat.get(args[0])
            if pg is None or target is None:
                self.cut = True
                return []
            if args[1] is not self.key:
                self.cut = True
                return None
            ks = pg['keys'] if isinstance(pg['tree'], int) else [x['low'] for x in pg['kids']]
            i = sum(1 for k in ks if k < target)
            eng.store(st, args[2], C(i, 16), 2)
            return [(st, C(0 if i < len(ks) and ks[i] == target else NOTFOUND, 32))]

        def pcreate(eng, st, inst, args):
            eng.store(st, args[0], S(('cpool',), 64), 8)
            nonzero(eng, st, S(('cpool',), 64))
            return [(st, C(0, 32))]

        def palloc(eng, st, inst, args):
            st.mon['csize'] = eng.eqc(st, args[1])
            nonzero(eng, st, self.cur)
            return [(st, self.cur)]
        eng = ctx.engine(models={'apr_hash_get': hget, 'db_page_search': search, 'apr_pool_create_ex': pcreate, 'apr_palloc': palloc, 'apr_pcalloc': palloc}, opaque=['db_page_search'])
        eng.unroll = eng.K = 100000
        eng.WIDEN_VISITS = 1000
        eng.widen_arith = False
        eng.concrete = lambda v: True
        return eng

    def setup(self, img, cells, csize):
        def go(eng, st):
            for x in (self.txn, self.env, self.map, self.key, self.data, self.dirty, self.out, self.cur): nonzero(eng, st, x)
            for pg in self.pages:
                nonzero(eng, st, pg['copy'])
                nonzero(eng, st, pg['stored'])
            st.mem.update(img)
            st.mem.update(dict(cells))
            st.mon['csize'] = csize
            st.mon['keep'] = (self.txn, self.env, self.map, self.key, self.data, self.dirty, self.out, self.cur, self.kdata, S(('cpool',), 64)) + tuple(pg['copy'] for pg in self.pages)
        return go

    def cells(self, st):
        return frozenset((k, v) for k, v in st.mem.items() if k[0] is self.cur)

    def step(self, img, cells, csize, op, target, nokey=False, nodata=False):
        """results of one operation: list of (status, leaf pointer checks, cells)"""
        ctx = self.ctx
        res = []
        eng = self.engine(target)

        def on_exit(e, st, v, how, inst):
            if how != 'ret':
                self.cut = True
                return
            z = e.eqc(st, v)
            r = dict(st=st, inst=inst, z=z, cells=self.cells(st))
            if z == 0:
                for n, p in (('key', self.key), ('data', self.data)):
                    o1, s1 = self.f(VAL, 'data')
                    o2, s2 = self.f(VAL, 'size')
                    r[n] = (e.load(st, P(p, o1), s1, 64), e.eqc(st, e.load(st, P(p, o2), s2, 8 * s2)))
            res.append(r)

        def on_store(e, st, inst, ptr, val, tag):
            b, o, d = parts(ptr)
            if b is self.map or any(b is pg['copy'] for pg in self.pages):
                self.v('cursor-writes', 'cursors change nothing', 'moving a cursor writes into a page', inst, st)
            if b is self.cur and not d and (csize and o >= csize or self.stack_end is not None and o >= self.stack_end and base_of(val) in self.pagebases):
                self.v('cursor-overflow', 'bounded way down', 'moving a cursor in a tree deeper than its record of the way writes outside the cursor', inst, st)
                self.cut = st.dead = True
        known = {pg['no'] for pg in self.pages}

        def on_load(e, st, inst, ptr, *rest):
            b, o, d = parts(ptr)
            if b is self.map and (d or o // self.PAGE not in known) and self.stack_end is not None:
                self.v('cursor-wild', 'only pages of the tree are visited', '%s follows a page number that no entry of the tree holds' % self.now, inst, st)
                self.cut = st.dead = True
        eng.on_exit, eng.on_store, eng.on_load = on_exit, on_store, on_load
        self.cut = False
        old = getattr(ctx, 'truncated', False)
        ctx.truncated = False
        base = self.setup(img, cells, csize)

        def setup(e, st):
            base(e, st)
            self.put(e, st, self.key, VAL, 'data', self.kdata)
            self.put(e, st, self.key, VAL, 'size', 9)
        ctx.run(eng, 'napr_db_cursor_get', [self.cur, NULL if nokey else self.key, NULL if nodata else self.data, C(self.OPS[op], 32)], setup=setup)
        self.stuck = not res and not self.cut and not ctx.truncated    # every state was followed to one that had occurred before
        ctx.truncated = ctx.truncated or old
        return res

    def explore(self, tree, changed, rdonly, targets=None, limit=None, safe_only=False):
        ctx = self.ctx
        try: self.stack_end = sum(struct_off(ctx.prog, 'napr_db_cursor.c', CUR, 'stack'))
        except Exception: self.stack_end = None
        self.cur, self.data, self.out = S(('cur',), 64), S(('data',), 64), S(('out',), 64)
        self.OPS = {o: enum_int('NAPR_DB_' + o, 'napr_db.h') for o in ('FIRST', 'LAST', 'NEXT', 'PREV', 'SET', 'SET_RANGE', 'GET_CURRENT')}
        self.build(tree, changed, rdonly)
        img, start = {}, []
        eng = self.engine(None)

        def setup0(e, st):
            self.base(e, st, rdonly, self.root['no'] if self.root else 0)
            self.image(e, st)
            img.update(st.mem)
            self.setup({}, (), None)(e, st)

        def on_exit0(e, st, v, how, inst):
            if how == 'ret' and e.eqc(st, v) == 0 and e.load(st, self.out, 8, 64) is self.cur: start.append((self.cells(st), st.mon.get('csize')))
        eng.on_exit = on_exit0
        ctx.run(eng, 'napr_db_cursor_open', [self.txn, self.out], setup=setup0)
        if len(start) != 1: return
        csize = start[0][1]
        R = len(self.recs)
        if targets is None:
            targets = sorted({-1, 10 ** 6} | set(self.keys) | {k + 1 for k in self.keys} | {pg['low'] + 1 for pg in self.leaves})
        todo = [(start[0][0], None)]
        seen = set(todo)
        n = 0
        while todo:
            cells, pos = todo.pop()
            ops = [('FIRST', None), ('LAST', None), ('NEXT', None), ('PREV', None), ('GET_CURRENT', None)]
            if n == 0 or n % 7 == 3: ops += [(o, t) for o in ('SET', 'SET_RANGE') for t in targets]
            n += 1
            if limit and n > limit: break
            if time.time() > self.end:
                ctx.truncated = True
                ctx.notes.append('exploration truncated: time for cursor movements exhausted')
                break
            for op, target in ops:
                if op == 'FIRST': want = 0 if R else 'none'
                elif op == 'LAST': want = R - 1 if R else 'none'
                elif op in ('SET', 'SET_RANGE'):
                    i = sum(1 for k in self.keys if k < target)
                    want = i if i < R and (op == 'SET_RANGE' or self.keys[i] == target) else 'lost'
                elif pos is None or pos == 'none': want = pos or 'unset'
                elif op == 'NEXT': want = pos + 1 if pos + 1 < R else 'none'
                elif op == 'PREV': want = pos - 1 if pos else 'none'
                else: want = pos
                for nokey, nodata in ((False, False), (True, False), (False, True)) if op == 'GET_CURRENT' else ((False, False),):
                    self.now = self.say(op, pos, target)
                    rs = self.step(img, cells, csize, op, target, nokey, nodata)
                    if self.stuck:
                        fn = ctx.prog.need('napr_db_cursor_get')
                        ctx.violation('cursor-stuck', 'every movement ends', '%s comes back to a state it has already been in and never ends' % self.say(op, pos, target), fn=fn)
                    for r in rs:
                        ctx.count('cursor step')
                        ctx.oblig('cursor operation delivers the record the key order demands', site(r['inst']))
                        where = self.say(op, pos, target)
                        if r['z'] is None or safe_only: continue
                        if not isinstance(want, int):
                            if r['z'] == 0: self.v('cursor-extra', 'nothing outside the records', '%s delivers a record although there is none' % where, r['inst'], r['st'])
                            elif r['z'] != NOTFOUND: self.v('cursor-status', 'the end is reported', '%s reports status %d instead of "not found"' % (where, r['z']), r['inst'], r['st'])
                            nxt = (r['cells'], want)
                            if want == 'lost' or want == 'unset': continue
                        else:
                            if r['z'] != 0:
                                self.v('cursor-skip', 'every record is delivered', '%s reports status %d instead of record %d' % (where, r['z'], want), r['inst'], r['st'])
                                continue
                            pg, k = self.recs[want]
                            ks, ds = self.rsize(pg, k)
                            o = self.nodeat(pg, k) + self.ssize(LF)
                            if not nokey and (r['key'][0] is not self.at(pg['at'], o) or r['key'][1] != ks):
                                self.v('cursor-record', 'the right record is delivered', '%s delivers %s instead of record %d' % (where, self.which(r['key'][0]), want), r['inst'], r['st'])
                                continue
                            if not nodata and (r['data'][0] is not self.at(pg['at'], o + ks) or r['data'][1] != ds):
                                self.v('cursor-value', 'key and value belong together', '%s delivers the key of record %d with another value' % (where, want), r['inst'], r['st'])
                                continue
                            nxt = (r['cells'], want)
                        if nxt not in seen:
                            seen.add(nxt)
                            todo.append(nxt)
        ctx.notes.append('cursor tree %s: %d cursor states' % (self.what, n))

    def which(self, p):
        for i, (pg, k) in enumerate(self.recs):
            o = self.nodeat(pg, k) + self.ssize(LF)
            if p is self.at(pg['at'], o): return 'record %d' % i
            if p is self.at(pg['stored'], o): return 'the old version of record %d' % i
        return 'something that is no record'

    def say(self, op, pos, target):
        at = 'an unpositioned cursor' if pos is None else 'a cursor past the end' if pos == 'none' else 'a cursor at record %d' % pos
        t = ''
        if target is not None:
            i = sum(1 for k in self.keys if k < target)
            t = ' to the key of record %d' % i if i < len(self.keys) and self.keys[i] == target else ' to a key before record %d' % i
        return '%s%s on %s (tree %s, %s)' % (op, t, at, self.what, 'read-only' if self.rdonly else 'write transaction')


def D11(ctx):
    deep = ctx.tier == 'thorough'
    chain = 1
    for _ in range(enum_int('MAX_TREE_DEPTH', 'napr_db_internal.h') + 2): chain = (chain,)
    trees = [None, 0, 1, 3, (2,), (2, 1), (0, 2), (2, 0), (1, 0, 2), (0, 0), (1, 1, 1, 1, 1), ((2, 1), (1, 2)), ((1, 0), (0, 2)), ((0,), (1,)), ((1,), (0, 0), (2,)), (((1, 1), (1,)), ((1, 1), (2,)))]
    if deep: trees += [((1, 1, 1), (2,), (1, 2)), (((1,), (2, 1)), ((1, 1),)), (((1, 0), (0,)), ((0,), (0, 1)), ((0,),)), (0, 0, 1, 0, 0), (3, 3, 3), ((((1, 2),), ((1,),)), (((0,), (1,)),))]
    c = Cursors(ctx)
    c.end = time.time() + (2000 if deep else 400)
    for t in trees:
        c.explore(t, lambda i: False, True)
        if t is None or isinstance(t, int): continue
        c.explore(t, lambda i: i % 2 == 0, False)
        if deep:
            c.explore(t, lambda i: True, False)
            c.explore(t, lambda i: i % 2 == 1, False)
            c.explore(t, lambda i: False, False)
    c.explore((300, 2), lambda i: False, True, targets=[510, 512, 514, 600, 602, 603], limit=14)
    c.explore(chain, lambda i: False, True, targets=[2], limit=3, safe_only=True)
    ctx.need('cursor step')
