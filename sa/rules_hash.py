"""The hash table (S17) over a family of concrete shapes: number of buckets, room per bucket and fill are enumerated, elements, keys, lengths and
comparison results are symbols, hash values are chosen per element."""
from common import *
from engine import *
from rules_scan import symname, fval

HU = 'napr_hash.c'


class Shape:
    def __init__(self, rules, power, F, fill, code, empty_alloc=False):
        """fill: number of elements per bucket; code(b, i): hash value of element i of bucket b"""
        self.r, self.power, self.size, self.F, self.fill = rules, power, 1 << power, F, tuple(fill)
        self.el = {(b, i): S(('e', b, i), 64) for b in range(self.size) for i in range(fill[b])}
        self.code = {e: code(b, i) & 0xffffffff for (b, i), e in self.el.items()}
        self.tab, self.fil = S(('tab',), 64), S(('fil',), 64)
        self.bk = {b: S(('bk', b), 64) for b in range(self.size) if fill[b] or empty_alloc}
        self.sz = {self.tab: 8 * self.size, self.fil: 8 * self.size}
        for p in self.bk.values(): self.sz[p] = 8 * F

    def setup(self, eng, st, extra=()):
        r = self.r
        for f in r.FIELDS: eng.store(st, P(r.H, r.o[f][0]), r.t[f], r.o[f][1])
        def put(f, v): eng.store(st, P(r.H, r.o[f][0]), C(v, r.o[f][1] * 8), r.o[f][1])
        put('nel', sum(self.fill)); put('size', self.size); put('ffactor', self.F); put('mask', self.size - 1); put('power', self.power)
        eng.store(st, P(r.H, r.o['table'][0]), self.tab, 8); eng.store(st, P(r.H, r.o['filling_table'][0]), self.fil, 8)
        for b in range(self.size):
            eng.store(st, P(self.fil, 8 * b), C(self.fill[b], 64), 8)
            eng.store(st, P(self.tab, 8 * b), self.bk.get(b, C(0, 64)), 8)
            for i in range(self.F):
                if b in self.bk: eng.store(st, P(self.bk[b], 8 * i), self.el.get((b, i), C(0, 64)), 8)
        ks = [r.H, self.tab, self.fil] + list(self.bk.values()) + list(self.el.values()) + [r.t[f] for f in ('pool', 'own_pool', 'get_key', 'get_key_len', 'key_cmp', 'hash')] + list(extra)
        for x in ks:
            if x.bits == 64: nonzero(eng, st, x)
        st.mon['keep'] = tuple(ks) + tuple(S(('len', e), 64) for e in self.el.values()) + tuple(S(('key', e), 64) for e in self.el.values())


class Tables:
    FIELDS = ('table', 'filling_table', 'pool', 'own_pool', 'get_key', 'get_key_len', 'key_cmp', 'hash', 'nel', 'size', 'ffactor', 'mask', 'power')

    def __init__(self, ctx):
        self.ctx = ctx
        g = lambda s, f: struct_off(ctx.prog, HU, s, f)
        self.o = {f: g('napr_hash_t', f) for f in self.FIELDS}
        self.io = {f: g('napr_hash_index_t', f) for f in ('hash', 'bucket', 'element')}
        self.H = S(('hash',), 64)
        self.t = {f: S((f,), self.o[f][1] * 8) for f in self.FIELDS}
        self.D, self.K, self.L = S(('D',), 64), S(('K',), 64), S(('L',), 64)
        self.seen = set()

    def v(self, key, rule, msg, inst, st):
        self.ctx.violation(key, rule, msg, inst, st=st)
        st.dead = True

    def desc(self, sh): return 'a table of %d bucket%s with room for %d each' % (sh.size, 's' * (sh.size > 1), sh.F)

    def engine(self, sh, models=None):
        eng = self.ctx.engine(models=dict(STD, apr_palloc=self.palloc, apr_pool_create_ex=self.pool_create, apr_pool_destroy=self.pool_destroy, apr_pool_clear=self.pool_destroy, **(models or {})))
        eng.unroll = eng.K = 100000
        eng.WIDEN_VISITS = 1000
        eng.widen_arith = False
        eng.concrete = lambda v: True
        eng.RECURSE = 8
        eng.INLINE_DEPTH = 60
        self.sh = sh
        eng.on_call, eng.on_load, eng.on_store = self.on_call, self.on_load, self.on_store
        return eng

    # --- memory
    def palloc(self, eng, st, inst, args):
        n = st.mon.get('n', 0)
        st.mon['n'] = n + 1
        p = S(('hp', n), 64)
        nonzero(eng, st, p)
        st.mem[(p, 'fill')] = ((0, None, 'undef'),)
        st.mon['al'] = st.mon.get('al', ()) + ((p, eng.eqc(st, args[1]), args[0]),)
        st.mon['keep'] = st.mon['keep'] + (p,)
        return [(st, p)]

    def pool_create(self, eng, st, inst, args):
        def ok(s):
            n = s.mon.get('n', 0)
            s.mon['n'] = n + 1
            p = S(('pl', n), 64)
            nonzero(eng, s, p)
            s.mon['keep'] = s.mon['keep'] + (p,)
            eng.store(s, args[0], p, 8)
        def fail(s): s.mon['poolfail'] = 1
        return status_alts(eng, st, inst, on_ok=ok, on_fail=fail)

    def pool_destroy(self, eng, st, inst, args):
        st.mon['gone'] = st.mon.get('gone', ()) + (args[0],)
        return [(st, None)]

    def region(self, st, b):
        """size and pool of a region the table uses"""
        if b in self.sh.sz: return self.sh.sz[b], self.t['own_pool']
        for p, n, pool in st.mon.get('al', ()):
            if p is b: return n, pool
        return None

    def access(self, eng, st, inst, ptr, what):
        b, off, dyn = parts(ptr)
        r = self.region(st, b)
        if r is None: return
        n, pool = r
        if pool in st.mon.get('gone', ()):
            self.v('grow-free', 'growing keeps every element', 'memory of the table is %s after it was released' % what, inst, st)
        elif dyn == () and n is not None and not 0 <= off < n:
            self.v('bucket-room', 'a bucket holds every element until the table grows', 'in %s memory is %s outside its bounds (offset %d of %d)' % (self.desc(self.sh), what, off, n), inst, st)

    def on_load(self, eng, st, inst, ptr, tag): self.access(eng, st, inst, ptr, 'read')

    def on_store(self, eng, st, inst, ptr, val, tag):
        self.access(eng, st, inst, ptr, 'written')
        if st.mon.get('ro') and not st.dead and (parts(ptr)[0] in self.sh.sz or parts(ptr)[0] is self.H):
            self.v('search-store', 'searching changes nothing', 'the table is changed while it is only searched', inst, st)

    # --- the functions of the table
    def of_key(self, k):
        n = symname(k) if k.k == 's' else None
        return n[1] if isinstance(n, tuple) and n[0] == 'key' else None

    def length(self, x): return self.L if x is self.K else S(('len', x), 64)

    def codeof(self, x): return self.hk if x in (self.K, self.D) else self.sh.code.get(x)

    def same_key(self, eng, st, x, y):
        """possible outcomes of comparing the keys of x and y over equal lengths: set of booleans"""
        if x is y: return {True}
        for p in st.mon.get('cmp', ()):
            if p[:2] in ((x, y), (y, x)): return {p[2]}
        if (self.K in (x, y) or self.D in (x, y) and self.foreign) and self.codeof(x) == self.codeof(y): return {True, False}
        return {False}

    def on_call(self, eng, st, inst, name, args):
        if name == 'napr_hash_set' and sum(f.fn.name == 'napr_hash_set' for f in st.frames) >= 6:
            self.v('grow-size', 'growing makes the table larger', 'growing never ends: the new table has no more room than the old one', inst, st)
            return [(st, C(1, 32))]
        if name is not None:
            if inst.a[0][0] != 'glob' and inst.fn.name.startswith('napr_hash'):
                self.v('grow-args', 'a grown table behaves as before', 'the table is used with the function %s, which is not one of its own' % name, inst, st)
            return None
        f = eng.val(st, inst.a[0], ('ptr',))
        t, n = self.t, len(args)
        if f is t['get_key'] and n == 1:
            if args[0] is self.D or args[0] in self.sh.code: return [(st, S(('key', args[0]), 64))]
            if args[0].k == 'c' or symname(args[0])[0:1] in (('undef',), ('undefv',)):
                self.v('not-element', 'only elements are looked at', 'in %s something that is not an element is taken for one' % self.desc(self.sh), inst, st)
            return [(st, S(('key', args[0]), 64))]
        if f is t['get_key_len'] and n == 1: return [(st, S(('len', args[0]), 64))]
        if f is t['hash'] and n == 2:
            x = self.K if args[0] is self.K else self.of_key(args[0])
            c = self.codeof(x) if x is not None else None
            if c is None: return [(st, S(('hv', args[0], args[1]), 32))]
            if eng.ev(st, icmp('eq', args[1], self.length(x))) is not True:
                self.v('hash-len', 'an element is hashed by its whole key', 'the hash of a key is taken over another length than that of the key', inst, st)
            return [(st, C(c, 32))]
        if f is t['key_cmp'] and n == 3:
            xy = [self.K if a is self.K else self.of_key(a) for a in args[:2]]
            if None in xy: return [(st, S(('cmpx', args[0], args[1]), 32))]
            x, y = xy
            self.ctx.count('key compared')
            self.ctx.oblig('keys are compared over their whole length', site(inst))
            if eng.ev(st, icmp('eq', args[2], self.length(x))) is not True and eng.ev(st, icmp('eq', args[2], self.length(y))) is not True:
                self.v('cmp-len', 'keys are compared over their whole length', 'keys are compared over a length that is not that of the key', inst, st)
                return [(st, C(0, 32))]
            res = self.same_key(eng, st, x, y)
            out = []
            for i, b in enumerate(sorted(res)):
                s = st if i == len(res) - 1 else st.fork()
                s.mon['cmp'] = tuple(p for p in s.mon.get('cmp', ()) if p[:2] != (x, y)) + ((x, y, b),)
                s.mon['keep'] = s.mon['keep'] + (self.length(x), self.length(y))
                if b: out.append((s, C(0, 32)))
                else:
                    r = S(('ne', x, y), 32)
                    eng.constrain(s, r, 'ne', 0)
                    out.append((s, r))
            return out
        if f in (t['get_key'], t['get_key_len'], t['hash'], t['key_cmp']):
            self.v('grow-args', 'a grown table behaves as before', 'one function of the table is called in place of another', inst, st)
        return None

    def match(self, eng, st, e, x):
        """does the element e have the key of x: True, False or None (not decided on this path)"""
        if e is x: return True
        if self.codeof(e) != self.codeof(x): return False
        ln = eng.ev(st, icmp('eq', self.length(e), self.length(x)))
        if ln is False: return False
        for p in st.mon.get('cmp', ()):
            if p[:2] in ((e, x), (x, e)): return False if not p[2] else (True if ln else None)
        if x is self.D and not self.foreign: return False
        return None

    # --- reading a table back
    def const(self, eng, st, v): return eng.eqc(st, v)

    def contents(self, eng, st, H):
        """{bucket: [elements]} or None, with the fields"""
        f = {k: fval(eng, st, H, self.o[k]) for k in self.FIELDS}
        n = self.const(eng, st, f['size'])
        if n is None or n > 4096: return None, f
        out = {}
        for b in range(n):
            k = self.const(eng, st, eng.load(st, P(f['filling_table'], 8 * b), 8, 64))
            if k is None or k > 4096: return None, f
            bp = eng.load(st, P(f['table'], 8 * b), 8, 64)
            out[b] = [eng.load(st, P(bp, 8 * i), 8, 64) for i in range(k)] if k else []
        return out, f

    def wellformed(self, eng, st, inst, what, want, op):
        """the table after an operation holds exactly `want`, each element where a search looks for it"""
        got, f = self.contents(eng, st, self.H)
        sh = self.sh
        if got is None: return
        self.ctx.count(op + ' result')
        self.ctx.oblig('after %s the table holds exactly the right elements, each in the bucket of its hash' % what, site(inst))
        R = 'adding, removing and growing keep every element findable'
        size, mask, power, nel = (self.const(eng, st, f[k]) for k in ('size', 'mask', 'power', 'nel'))
        flat = [e for b in got for e in got[b]]
        for e in want:
            if e not in flat: return self.v(op + '-lost', R, 'after %s in %s an element is no longer in it' % (what, self.desc(sh)), inst, st)
        if len(flat) != len(want) or set(flat) != set(want): return self.v(op + '-extra', R, 'after %s in %s there is an element too many in it' % (what, self.desc(sh)), inst, st)
        if mask is not None and size is not None and mask != size - 1 or power is not None and size is not None and size != 1 << power:
            return self.v(op + '-mask', R, 'after %s size, mask and power of the table do not fit together' % what, inst, st)
        for b in got:
            for e in got[b]:
                if self.codeof(e) is not None and self.codeof(e) & (size - 1) != b: return self.v(op + '-bucket', R, 'after %s in %s an element is not in the bucket where a search looks for it' % (what, self.desc(sh)), inst, st)
        if nel is not None and nel != len(want): return self.v(op + '-count', 'the counts are those of the elements stored', 'after %s the table counts %d element%s but holds %d' % (what, nel, 's' * (nel != 1), len(want)), inst, st)
        for k in ('get_key', 'get_key_len', 'key_cmp', 'hash', 'pool'):
            if f[k] is not self.t[k]: return self.v('grow-args', 'a grown table behaves as before', 'after %s "%s" of the table has changed' % (what, k), inst, st)
        if self.const(eng, st, f['ffactor']) not in (None, sh.F): return self.v('grow-args', 'a grown table behaves as before', 'after %s the room per bucket has changed' % what, inst, st)
        gone = st.mon.get('gone', ())
        if f['own_pool'] in gone: return self.v('grow-pool', 'the table in use stays allocated', 'after %s the pool of the table is one that was released' % what, inst, st)
        for p in [f['table'], f['filling_table']] + [eng.load(st, P(f['table'], 8 * b), 8, 64) for b in got if got[b]]:
            r = self.region(st, parts(p)[0])
            if r is None: continue
            if r[1] in gone: return self.v('grow-free', 'the table in use stays allocated', 'after %s the table uses memory that was released' % what, inst, st)
            if r[1] is not f['own_pool'] and r[1] is not f['pool']: return self.v('grow-pool', 'the table in use stays allocated', 'after %s the table does not own the pool of its memory: growing again would not release it or release too much' % what, inst, st)
        for b in got:
            bp = eng.load(st, P(f['table'], 8 * b), 8, 64)
            r = self.region(st, parts(bp)[0]) if got[b] else None
            if r and r[0] is not None and r[0] < 8 * sh.F: return self.v('bucket-room', 'a bucket holds every element until the table grows', 'after %s a bucket has less room than the table counts on' % what, inst, st)
            if r and r[0] is not None and 8 * len(got[b]) >= r[0] and size is not None:
                return self.v('set-overflow', 'a bucket never overflows', 'after %s a bucket is full and the table has not grown: the next element is written behind its end' % what, inst, st)

    # --- the operations
    def search(self, shapes):
        ctx = self.ctx
        for sh, b in shapes:
            for hv in (S(('hvp',), 64), C(0, 64)):
                self.hk = b + 5 * sh.size
                eng = self.engine(sh)
                def on_exit(eng, st, v, how, inst):
                    if st.dead: return
                    ctx.count('search result')
                    ctx.oblig('the result of a search is the element with the key, or none if there is none', site(inst))
                    bucket = [sh.el[b, i] for i in range(sh.fill[b])]
                    if hv.k != 'c':
                        w = self.const(eng, st, eng.load(st, hv, 4, 32))
                        if w is not None and w != self.hk: return self.v('search-hash', 'the hash handed back is that of the key', 'the hash value handed back is not the one of the key: the element would be added to the wrong bucket', inst, st)
                        if w is None: return self.v('search-hash', 'the hash handed back is that of the key', 'the hash value asked for is not handed back', inst, st)
                    if self.const(eng, st, v) == 0:
                        if any(self.match(eng, st, e, self.K) is not False for e in bucket):
                            return self.v('search-miss', 'an element with the key is found', 'in %s a search fails although an element of the bucket was not compared or has the key' % self.desc(sh), inst, st)
                        return
                    if v not in sh.code:
                        if v.k == 'c' or v.k == 's' and symname(v)[0] in ('undef', 'undefv'): self.v('search-other', 'an element with the key is returned', 'the value returned is not an element of the table', inst, st)
                        return
                    if self.match(eng, st, v, self.K) is not True: self.v('search-wrong', 'an element with the key is returned', 'the element returned is not known to have the key (equal length and equal content)', inst, st)
                eng.on_exit = on_exit
                def setup(e, s):
                    sh.setup(e, s, (self.K, self.L) + ((hv,) if hv.k != 'c' else ()))
                    s.mon['ro'] = 1
                self.foreign = True
                ctx.run(eng, 'napr_hash_search', [self.H, self.K, self.L, hv], setup=setup)
        ctx.need('search result', 2)

    def remove(self, shapes):
        ctx = self.ctx
        for sh, b in shapes:
            for own in [None] + list(range(sh.fill[b])):
                D = self.D if own is None else sh.el[b, own]
                self.foreign = own is None
                self.hk = b + 5 * sh.size
                eng = self.engine(sh)
                def on_exit(eng, st, v, how, inst):
                    if st.dead: return
                    m = [e for e in (sh.el[b, i] for i in range(sh.fill[b])) if self.match(eng, st, e, D) is not False]
                    sure = [e for e in m if self.match(eng, st, e, D) is True]
                    got, f = self.contents(eng, st, self.H)
                    if got is None: return
                    flat = [e for x in got.values() for e in x]
                    if sure:
                        lost = [e for e in sh.code if e not in flat]
                        if len(lost) == 1 and lost[0] in sure: want = [e for e in sh.code if e is not lost[0]]
                        elif not lost: return self.v('remove-miss', 'the element is found if present', 'an element to be removed from %s stays in it' % self.desc(sh), inst, st)
                        else: want = [e for e in sh.code if e is not sure[0]]
                    elif m: return self.v('remove-miss', 'the element is found if present', 'an element to be removed from %s is not looked for in the whole bucket' % self.desc(sh), inst, st) if all(e in flat for e in m) else self.v('remove-wrong', 'only the element with the key is removed', 'an element is removed that is not known to have the key', inst, st)
                    else: want = list(sh.code)
                    self.wellformed(eng, st, inst, 'removing', want, 'remove')
                eng.on_exit = on_exit
                code = self.hk if own is None else sh.code[D]
                ctx.run(eng, 'napr_hash_remove', [self.H, D, C(code, 32)], setup=lambda e, s: sh.setup(e, s, (self.D, S(('len', self.D), 64))))
        ctx.need('remove result', 2)

    def insert(self, shapes):
        ctx = self.ctx
        for sh, code in shapes:
            self.foreign = False
            self.hk = code
            eng = self.engine(sh)
            def on_exit(eng, st, v, how, inst):
                if st.dead: return
                st2 = self.const(eng, st, v)
                if st2 == 0: return self.wellformed(eng, st, inst, 'adding', list(sh.code) + [self.D], 'set')
                if eng.ev(st, icmp('ne', v, C(0, 32))) is True:
                    if not st.mon.get('poolfail'): return self.v('set-refused', 'an element is added unless memory is short', 'adding to %s is refused although nothing failed' % self.desc(sh), inst, st)
                    got, f = self.contents(eng, st, self.H)
                    if got is not None and any(e not in [x for y in got.values() for x in y] for e in sh.code):
                        self.v('set-lost', 'adding, removing and growing keep every element findable', 'a failure to grow loses elements', inst, st)
            eng.on_exit = on_exit
            ctx.run(eng, 'napr_hash_set', [self.H, self.D, C(code & 0xffffffff, 32)], setup=lambda e, s: sh.setup(e, s, (self.D, S(('len', self.D), 64), S(('key', self.D), 64))))
        ctx.need('set result', 2)

    def iterate(self, shapes):
        ctx = self.ctx
        I = S(('index',), 64)
        R = 'a walk visits every element exactly once'
        for sh in shapes:
            order = sorted(sh.el)
            self.foreign, self.hk = False, None
            def at(eng, st, v):
                return tuple(self.const(eng, st, eng.load(st, P(v, self.io[f][0]), 8, 64)) for f in ('bucket', 'element'))
            def expect(eng, st, v, inst, want, key, what):
                if st.dead: return
                ctx.count('walk step')
                ctx.oblig('the walk goes to the next element', site(inst))
                if self.const(eng, st, v) == 0:
                    if want is not None: self.v(key, R, '%s of %s reports the end although there are elements left' % (what, self.desc(sh)), inst, st)
                    return
                p = at(eng, st, v)
                if want is None: return self.v(key, R, '%s of %s does not report the end' % (what, self.desc(sh)), inst, st)
                if None not in p and p != want: self.v(key, R, '%s of %s leads to another element than the next one' % (what, self.desc(sh)), inst, st)
                elif eng.load(st, P(v, self.io['hash'][0]), 8, 64) is not self.H: self.v(key, R, 'a walk does not stay in its table', inst, st)
            eng = self.engine(sh)
            eng.on_exit = lambda eng, st, v, how, inst: expect(eng, st, v, inst, order[0] if order else None, 'first', 'the start of a walk')
            ctx.run(eng, 'napr_hash_first', [S(('p0',), 64), self.H], setup=lambda e, s: sh.setup(e, s, (S(('p0',), 64),)))
            for i, pos in enumerate(order):
                def setup(e, s):
                    sh.setup(e, s, (I,))
                    e.store(s, P(I, self.io['hash'][0]), self.H, 8)
                    e.store(s, P(I, self.io['bucket'][0]), C(pos[0], 64), 8)
                    e.store(s, P(I, self.io['element'][0]), C(pos[1], 64), 8)
                eng = self.engine(sh)
                eng.on_exit = lambda eng, st, v, how, inst: expect(eng, st, v, inst, order[i + 1] if i + 1 < len(order) else None, 'next', 'a step in a walk')
                ctx.run(eng, 'napr_hash_next', [I], setup=setup)
                outs = [S((x,), 64) for x in ('ok', 'ol', 'ov')]
                for miss in (None, 0, 1, 2):
                    eng = self.engine(sh)
                    def on_exit(eng, st, v, how, inst):
                        if st.dead: return
                        ctx.count('element read')
                        ctx.oblig('the element read is the one of the position', site(inst))
                        e = sh.el[pos]
                        for k, w in enumerate((S(('key', e), 64), S(('len', e), 64), e)):
                            if k != miss and eng.load(st, outs[k], 8, 64) is not w: return self.v('this', R, 'the %s handed out for a position is not the one of its element' % ('key', 'length', 'element')[k], inst, st)
                    eng.on_exit = on_exit
                    def setup2(e, s):
                        setup(e, s)
                        for x in outs: nonzero(e, s, x)
                        s.mon['keep'] = s.mon['keep'] + tuple(outs)
                    ctx.run(eng, 'napr_hash_this', [I] + [C(0, 64) if k == miss else x for k, x in enumerate(outs)], setup=setup2)
        ctx.need('walk step', 2); ctx.need('element read')

    def run(self):
        ctx = self.ctx
        deep = ctx.tier == 'thorough'
        FS = (2, 3, 6) + ((9,) if deep else ())
        powers = (0, 1, 2) + ((3,) if deep else ())
        look, sets = [], []
        for p in powers:
            for F in FS:
                size = 1 << p
                for b in {0, size - 1}:
                    for others in {0, F - 1} if size > 1 else {0}:
                        for n in range(F):
                            fill = [others] * size
                            fill[b] = n
                            look.append((Shape(self, p, F, fill, lambda bb, i, size=size: bb + 5 * size), b))
                            for spread in (1, 2) if F < 6 and p < 2 else (1,):
                                sh = Shape(self, p, F, fill, lambda bb, i, size=size, spread=spread: bb + size * spread * i, empty_alloc=bool(n % 2 == 0 and others))
                                sets.append((sh, b + size * spread * n))
                                if n == 0: sets.append((Shape(self, p, F, fill, lambda bb, i, size=size: bb + size * i), b + (0x5a000000 & ~(size - 1))))
        self.search(look if deep else [x for x in look if x[0].power != 1 or x[0].F == 3])
        self.remove(look if deep else [x for x in look if x[0].power != 2 or x[0].F != 6])
        self.insert(sets)
        walks = []
        for m in range(16):
            fill = [(m >> b & 1) * (1 + (b + m) % 2) for b in range(4)]
            walks.append(Shape(self, 2, 3, fill, lambda bb, i: bb))
        walks += [Shape(self, 0, 3, [k], lambda bb, i: bb) for k in (0, 1, 2)]
        self.iterate(walks)
