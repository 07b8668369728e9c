"""Rules for the containers: hash table (S17) and heap (S18)."""
import random
from common import *
from rules_scan import fval, symname, lin, plus, Walk

HU, PU = 'napr_hash.c', 'napr_heap.c'


def neval(t, env):
    """integer value of a term for given symbol values, or None"""
    if t in env: return env[t]
    if t.k == 'c': return cv(t)
    if t.k == 'cmp':
        x, y = neval(t.a[1], env), neval(t.a[2], env)
        if x is None or y is None: return None
        o, n = t.a[0], t.a[1].bits
        if o[0] == 's': x, y = sgn(x, n), sgn(y, n)
        return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}.get(o if o in ('eq', 'ne') else o[1:]) + 0 if o[0] != 'f' else None
    if t.k != 'op': return None
    o = t.a[0]
    m = (1 << t.bits) - 1
    xs = [neval(x, env) for x in t.a[1:]]
    if any(x is None for x in xs): return None
    if o == 'zext': return xs[0]
    if o == 'trunc': return xs[0] & m
    if o == 'sext': return sgn(xs[0], t.a[1].bits) & m
    if len(xs) != 2: return None
    x, y = xs
    if o == 'add': return (x + y) & m
    if o == 'sub': return (x - y) & m
    if o == 'mul': return (x * y) & m
    if o == 'and': return x & y
    if o == 'or': return x | y
    if o == 'xor': return x ^ y
    if o == 'shl': return (x << y) & m if y < t.bits else None
    if o == 'lshr': return x >> y if y < t.bits else None
    if o == 'ashr': return (sgn(x, t.bits) >> y) & m if y < t.bits else None
    if o == 'udiv': return x // y if y else None
    if o == 'urem': return x % y if y else None
    return None


def feasible(st, s, xs):
    """the values of s among xs that contradict no interval known on the path"""
    r = []
    for x in xs:
        ok = True
        for t, g in st.facts.items():
            if t.syms == s.syms or t is s:
                y = neval(t, {s: x})
                if y is not None and (not g[2] <= y <= g[3] or y in g[4]): ok = False
        if ok: r.append(x)
    return r


def agree(t, envs, want):
    """does t have the wanted value under every valuation"""
    for e, w in zip(envs, want):
        v = neval(t, e)
        if v is None or v != w & ((1 << t.bits) - 1): return False
    return True


class Hash:
    FIELDS = ('table', 'filling_table', 'pool', 'own_pool', 'get_key', 'get_key_len', 'key_cmp', 'hash', 'nel', 'size', 'ffactor', 'mask', 'power')

    def __init__(self, ctx):
        self.ctx = ctx
        g = lambda s, f: struct_off(ctx.prog, HU, s, f)
        self.o = {f: g('napr_hash_t', f) for f in self.FIELDS}
        self.io = {f: g('napr_hash_index_t', f) for f in ('hash', 'bucket', 'element')}
        self.ao = {f: g('napr_hash_create_args_t', f) for f in ('pool', 'nel', 'ffactor', 'get_key', 'get_key_len', 'key_cmp', 'hash')}
        self.H = S(('hash',), 64)
        self.t = {f: S((f,), self.o[f][1] * 8) for f in self.FIELDS}

    def v(self, key, rule, msg, inst, st): self.ctx.violation(key, rule, msg, inst, st=st)

    # -- creation
    def make(self):
        ctx = self.ctx
        A = S(('args',), 64)
        at = {f: S((f, 'a'), 64) for f in self.ao}
        def alloc(zero):
            def m(eng, st, inst, args):
                p = eng.fresh(st, ('h', st.frames[-1].ctx, inst.id), 64)
                st.mem[(p, 'fill')] = ((0, None, 'zero' if zero else 'undef'),)
                st.mon['al'] = st.mon.get('al', ()) + ((p, args[1], zero),)
                return [(st, p)]
            return m
        eng = ctx.engine(models=dict(STD, apr_pcalloc=alloc(True), apr_palloc=alloc(False), apr_pool_create_ex=m_status_out('pool')))
        def on_exit(eng, st, v, how, inst):
            ctx.count('creation')
            if eng.eqc(st, v) == 0: return
            ctx.oblig('a new table is empty, its mask fits its size, its functions are the given ones', site(inst))
            for f in ('get_key', 'get_key_len', 'key_cmp', 'hash', 'ffactor', 'pool'):
                if fval(eng, st, v, self.o[f]) is not at[f]: self.v('make-args', 'a table uses the functions it was given', '"%s" of the new table is not the one asked for' % f, inst, st)
            size, mask, power = (fval(eng, st, v, self.o[f]) for f in ('size', 'mask', 'power'))
            sy = sorted((size.syms | mask.syms | power.syms), key=lambda x: x.id)
            if len(sy) <= 1:
                for p in (range(0, 25) if sy else [0]):
                    e = {sy[0]: p} if sy else {}
                    a, b, c = neval(size, e), neval(mask, e), neval(power, e)
                    if None in (a, b, c): continue
                    if a & (a - 1) or not a or b != a - 1 or a != 1 << c: self.v('make-mask', 'the mask reaches exactly the buckets', 'mask, size and power of a new table do not fit together', inst, st); break
            al = {p: (n, z) for p, n, z in st.mon.get('al', ())}
            for f, w in (('table', 8), ('filling_table', 8)):
                p = fval(eng, st, v, self.o[f])
                if p not in al: continue
                n, z = al[p]
                if eng.eqc(st, eng.load(st, P(p, 0, ((S(('any',), 64), 8),)), 8, 64)) != 0: self.v('make-dirty', 'a new table is empty', 'the %s of a new table is not cleared' % f, inst, st)
                if len(sy) <= 1:
                    for q in range(0, 25):
                        e = {sy[0]: q} if sy else {}
                        a, b = neval(size, e), neval(n, e)
                        if a is not None and b is not None and b < a * w: self.v('make-room', 'a new table has all its buckets', 'the %s of a new table is too small' % f, inst, st); break
            if eng.eqc(st, fval(eng, st, v, self.o['nel'])) != 0: self.v('make-dirty', 'a new table is empty', 'a new table does not count from zero', inst, st)
        eng.on_exit = on_exit
        def setup(e, s):
            for f, o in self.ao.items(): e.store(s, P(A, o[0]), at[f], 8)
            s.mon['keep'] = tuple(at.values())
        ctx.run(eng, 'napr_hash_make_ex', [A], setup=setup)
        ctx.need('creation')

    # -- key functions given to tables
    def keyfuns(self):
        ctx, pr = self.ctx, self.ctx.prog
        K1, K2, L = S(('arg', 0, 'key1'), 64), S(('arg', 1, 'key2'), 64), S(('arg', 2, 'len'), 64)
        groups = keysets(ctx)
        for gk in groups:
            cmpf, hashf, lenf = (gk.get(f) for f in ('key_cmp', 'hash', 'get_key_len'))
            if cmpf is None or hashf is None or lenf is None: continue
            ctx.count('key functions')
            klen = []
            eng = ctx.engine(models=dict(STD, strlen=lambda e, s, i, a: [(s, S(('strlen', a[0]), 64))]))
            eng.on_exit = lambda e, s, v, how, i: klen.append(e.eqc(s, v))
            ctx.run(eng, lenf, [S(('arg', 0, 'data'), 64)])
            n = klen[0] if klen and all(x == klen[0] for x in klen) else None
            def memcmp(e, s, i, a):
                full = {a[0], a[1]} == {K1, K2} and (a[2] is L or n is not None and e.eqc(s, a[2]) == n)
                r = S(('mc', full), 32) if full else e.fresh(s, e.site(s, i, 'mc'), 32)
                s.mon['mc'] = r
                return [(s, r)]
            eng = ctx.engine(models=dict(STD, memcmp=memcmp, bcmp=memcmp))
            def on_exit(e, s, v, how, i):
                ctx.count('key comparison')
                ctx.oblig('keys are equal exactly when all their bytes are', site(i))
                z = e.eqc(s, v)
                zero = True if z == 0 else False if z is not None or e.ev(s, icmp('ne', v, C(0, v.bits))) is True else None
                mc = s.mon.get('mc')
                if mc is not None:
                    if v is mc:
                        if mc is not S(('mc', True), 32): self.v('key-partial', 'keys are compared whole', 'keys are compared in part only', i, s)
                        return
                    eq = e.ev(s, icmp('eq', mc, C(0, 32)))
                    if mc is S(('mc', True), 32) and eq is not None and zero is not None and eq != zero: self.v('key-compare', 'equal keys and no others compare equal', 'the comparison of two keys has the wrong result', i, s)
                    return
                cs = [(k[1], k[3]) for k in s.mem if k[0] is K1 and len(k) == 4 and not k[2]]
                if n is None: return
                if zero is None:
                    # a formula over the two values: it must vanish exactly when they are equal
                    if len(cs) == 1 and cs[0] == (0, n):
                        a, b = e.load(s, K1, n, n * 8), e.load(s, K2, n, n * 8)
                        for x in (0, 1, 7, 1 << 31, (1 << 32) + 5):
                            for d in (0, 1, 256, 1 << 16, 1 << 31, 1 << 32, 1 << 33, -1):
                                m = (1 << n * 8) - 1
                                r = neval(v, {a: x & m, b: (x + d) & m})
                                if r is not None and (r == 0) != ((d & m) == 0): self.v('key-compare', 'equal keys and no others compare equal', 'the comparison of two keys has the wrong result for keys that differ by %d' % d, i, s); return
                    return
                cov = 0
                anyne = False
                for o, w in sorted(cs):
                    a, b = e.load(s, P(K1, o), w, w * 8), e.load(s, P(K2, o), w, w * 8)
                    q = e.ev(s, icmp('eq', a, b))
                    if q is True and o == cov: cov = o + w
                    if q is False: anyne = True
                if zero and (anyne or cov < n): self.v('key-compare', 'equal keys and no others compare equal', 'two keys compare equal although they were not found equal in all their bytes', i, s)
                if not zero and not anyne and cov >= n: self.v('key-compare', 'equal keys and no others compare equal', 'equal keys compare as different', i, s)
            eng.on_exit = on_exit
            def setup(e, s): s.mon['keep'] = (K1, K2, L)
            ctx.run(eng, cmpf, [K1, K2, L], setup=setup)
            def xxh(e, s, i, a):
                ctx.count('key hash')
                ctx.oblig('a hash depends on the key and nothing else', site(i))
                m = e.eqc(s, a[1])
                if a[0] is not K1: self.v('hash-other', 'a hash depends on the key alone', 'the hash is not taken over the key', i, s)
                elif a[1] is not K2 and (m is None or n is None or m > n): self.v('hash-length', 'a hash depends on the key alone', 'the hash reads bytes outside the key', i, s)
                if e.eqc(s, a[2]) is None: self.v('hash-seed', 'a hash depends on the key alone', 'the hash of a key is not always the same (its seed varies)', i, s)
                return [(s, e.fresh(s, e.site(s, i, 'r'), 32))]
            eng = ctx.engine(models=dict(STD, XXH32=xxh, XXH64=xxh, XXH3_64bits=None))
            ctx.run(eng, hashf, [K1, K2])
        ctx.need('key functions', 2); ctx.need('key comparison'); ctx.need('key hash')


def keysets(ctx):
    """functions handed to napr_hash_make_ex, per creation"""
    out = []
    pr = ctx.prog
    ao = {f: struct_off(pr, HU, 'napr_hash_create_args_t', f) for f in ('get_key_len', 'key_cmp', 'hash')}
    def hook(eng, st, inst, args):
        g = {}
        for f, o in ao.items():
            n = symname(eng.load(st, P(args[0], o[0]), 8, 64))
            if isinstance(n, tuple) and n[0] == 'fn':
                g[f] = pr.lookup(n[1], inst.fn.unit) or pr.lookup(n[1], pr.units.get(HU))
        if g and g not in out: out.append(g)
        return [(st, nonzero(eng, st, eng.fresh(st, eng.site(st, inst, 'ht'), 64)))]
    for f in pr.allfuncs:
        if any(n == 'napr_hash_make_ex' for _, n in pr.calls(f)):
            eng = ctx.engine(models=dict(STD, napr_hash_make_ex=hook), opaque=['napr_hash_make_ex'])
            ctx.run(eng, f)
    return out


def S17(ctx):
    ctx.K = 150
    h = Hash(ctx)
    h.make(); h.keyfuns()
    from rules_hash import Tables
    Tables(ctx).run()


# ------------------------------------------------------------------ heap (S18)
class Heap:
    FIELDS = ('pool', 'mutex', 'tree', 'cmp', 'count', 'max', 'mutex_set')

    def __init__(self, ctx):
        self.ctx = ctx
        self.o = {f: struct_off(ctx.prog, PU, 'napr_heap_t', f) for f in self.FIELDS}
        self.H, self.D = S(('heap',), 64), S(('datum',), 64)
        self.t = {f: S((f,), self.o[f][1] * 8) for f in self.FIELDS}
        self.N = S(('n',), 32)

    def v(self, key, rule, msg, inst, st): self.ctx.violation(key, rule, msg, inst, st=st)

    def setup(self, eng, st, count, mx):
        for f in self.FIELDS: eng.store(st, P(self.H, self.o[f][0]), count if f == 'count' else mx if f == 'max' else self.t[f], self.o[f][1])
        for f in ('pool', 'mutex', 'tree', 'cmp'): nonzero(eng, st, self.t[f])
        nonzero(eng, st, self.H); nonzero(eng, st, self.D)
        st.mon['keep'] = tuple(self.t.values()) + (self.H, self.D, self.N)

    def slot(self, eng, st, ptr):
        """index term of a slot of the array in use, or None"""
        b, off, dyn = parts(ptr)
        tr = eng.load(st, P(self.H, self.o['tree'][0]), 8, 64)
        if b is not tr or off % 8: return None
        if dyn == (): return C(off // 8, 64)
        if len(dyn) == 1 and dyn[0][1] == 8: return dyn[0][0] if not off else binop('add', dyn[0][0], C(off // 8, 64), 64)
        return None

    @staticmethod
    def strip(t):
        while t.k == 'op' and t.a[0] in ('zext', 'sext'): t = t.a[1]
        if t.k == 'op' and t.a[0] == 'add' and t.a[2].k == 'c' and t.a[1].k == 'op' and t.a[1].a[0] == 'zext':
            return binop('add', t.a[1].a[1], C(sgn(cv(t.a[2]), t.bits), t.a[1].a[1].bits), t.a[1].a[1].bits)
        return C(cv(t), 64) if t.k == 'c' else t

    def related(self, p, i):
        """does p hold the parent index of i (for i > 0), whatever way written; both over at most one common symbol"""
        p, i = self.strip(p), self.strip(i)
        sy = p.syms | i.syms
        if not sy: return cv(i) > 0 and cv(p) == (cv(i) - 1) >> 1 if p.k == 'c' and i.k == 'c' else False
        if len(sy) != 1: return False
        s = next(iter(sy))
        n = 0
        for x in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 14, 15, 16, 100, 1001, 65536, 99999):
            a, b = neval(p, {s: x}), neval(i, {s: x})
            if a is None or b is None: return False
            if b == 0 or b > 1 << 30: continue
            n += 1
            if a != (b - 1) >> 1: return False
        return n > 5

    def on_call(self, eng, st, inst, name, args):
        if name is not None: return None
        if eng.val(st, inst.a[0], ('ptr',)) is self.t['cmp'] and len(args) == 2:
            self.ctx.count('comparison')
            st.mon['cq'] = (args[0], args[1])
            loc = dict(st.mon.get('loc', ()))
            tr = eng.load(st, P(self.H, self.o['tree'][0]), 8, 64)
            for a in args:
                for k, x in st.mem.items():
                    if x is a and k[0] is tr and len(k) == 4: loc[a] = self.strip(self.slot(eng, st, P(tr, k[1], k[2])))
            st.mon['loc'] = tuple(sorted(loc.items(), key=lambda z: z[0].id))
            r = eng.fresh(st, ('cmp',), 32)
            st.mon['cr'] = r
            return [(st, r)]
        return None

    def on_branch(self, eng, st, inst, cond, val):
        if cond.k == 'cmp' and cond.a[0] in ('eq', 'ne') and (cond.a[0] == 'eq') == val and (self.related(cond.a[1], cond.a[2]) or self.related(cond.a[2], cond.a[1])):
            st.dead = True          # a node is never its own child
            return
        r = st.mon.get('cr')
        if r is None: return
        f = eng.fact(st, r)
        lo, hi = f[0], f[1]
        s = '>' if lo > 0 else '<' if hi < 0 else '=' if lo == hi == 0 else '>=' if lo >= 0 else '<=' if hi <= 0 else '!=' if 0 in f[4] else None
        if s:
            a, b = st.mon['cq']
            st.mon['ord'] = st.mon.get('ord', frozenset()) | {(a, s, b)}

    def order(self, st):
        """least known relation: (a,b) -> '>' or '>=' """
        g = {}
        def add(a, b, s):
            if g.get((a, b)) != '>': g[(a, b)] = s
        for a, s, b in st.mon.get('ord', ()):
            if s in ('>', '>='): add(a, b, s)
            elif s in ('<', '<='): add(b, a, '>' if s == '<' else '>=')
            elif s == '=': add(a, b, '>='); add(b, a, '>=')
        ch = True
        while ch:
            ch = False
            for (a, b), s in list(g.items()):
                for (c, d), u in list(g.items()):
                    if c is b and a is not d:
                        w = '>' if '>' in (s, u) else '>='
                        if g.get((a, d)) not in ('>', w): g[(a, d)] = w; ch = True
        return g

    def at(self, eng, st, i):
        return eng.load(st, self.sptr(eng, st, i), 8, 64)

    def sptr(self, eng, st, i):
        tr = eng.load(st, P(self.H, self.o['tree'][0]), 8, 64)
        if i.k == 'c': return P(tr, 8 * cv(i))
        if i.bits != 64: i = cast('zext', i, i.bits, 64)
        if i.k == 'op' and i.a[0] == 'add' and i.a[2].k == 'c': return P(tr, 8 * sgn(cv(i.a[2]), 64), ((i.a[1], 8),))
        return P(tr, 0, ((i, 8),))

    def insert(self):
        ctx = self.ctx
        for full in (False, True):
            M = S(('maxn',), 32)
            cnt = M if full else self.N
            def alloc(eng, st, inst, args):
                p = nonzero(eng, st, eng.fresh(st, ('h', st.frames[-1].ctx, inst.id), 64))
                st.mem[(p, 'fill')] = ((0, None, 'undef'),)
                st.mon['grown'] = (p, args[1])
                s2 = st.fork()
                return [(st, p), (s2, NULL)]
            def memcpy(eng, st, inst, args):
                g = st.mon.get('grown')
                if g and args[0] is g[0]:
                    ctx.count('growth')
                    ctx.oblig('growing copies every element', site(inst))
                    if args[1] is not self.t['tree']: self.v('grow-source', 'growing keeps every element', 'the larger array is not filled from the old one', inst, st)
                    n = self.strip(cnt)
                    if any(neval(args[2], {n: x}) not in (None, 8 * x) for x in feasible(st, n, (1, 2, 5, 16, 255, 256, 257, 512, 4096, 70000, 1 << 20))): self.v('grow-copy', 'growing keeps every element', 'not exactly the elements present are copied when the heap grows', inst, st)
                    st.mon['copied'] = 1
                return [(st, args[0])]
            def memset(eng, st, inst, args): return [(st, args[0])]
            eng = ctx.engine(models=dict(STD, apr_palloc=alloc, apr_pcalloc=alloc, memcpy=memcpy, memmove=memcpy, **{'llvm.memcpy.p0.p0.i64': memcpy, 'llvm.memmove.p0.p0.i64': memcpy, 'memset': memset, 'llvm.memset.p0.i64': memset}))
            eng.on_call, eng.on_branch, eng.on_load = self.on_call, self.on_branch, self.on_load
            def on_store(eng, st, inst, ptr, val, tag):
                b, off, dyn = parts(ptr)
                if b is self.H and off == self.o['tree'][0]:
                    g = st.mon.get('grown')
                    if g and val is g[0] and not st.mon.get('copied'): self.v('grow-copy', 'growing keeps every element', 'the larger array is used without the elements of the old one', inst, st)
                    return
                i = self.slot(eng, st, ptr)
                if i is None: return
                ctx.count('slot store')
                i = self.strip(i)
                self.move(eng, st, ptr, i, val)
            eng.on_store = on_store
            def on_phi(eng, st, block, phis):
                ctx.oblig('each step upwards swaps two elements', site(block.body[0]))
                if not self.steady(st): self.v('insert-lost', 'no element is lost', 'an element is lost while the new one moves up', block.body[0], st)
                self.kinds(st, phis)
                st.mon['cells'] = (); st.mon['loc'] = (); st.mon['ord'] = frozenset(); st.mon.pop('cr', None); st.mon.pop('cq', None)
            def on_phi2(eng, st, block, vals):
                pos = st.mon.get('pos')
                if pos is None: return
                inhand = st.mon.get('hole') is not None
                X = self.rename(eng, st, block, pos, cnt)
                if X is not None:
                    st.mon['pos'] = X
                    if inhand: st.mon['hole'] = X
                    else: st.mon['cells'] = ((X, self.D),)
            eng.on_phi, eng.on_phi2 = on_phi, on_phi2
            def on_exit(eng, st, v, how, inst):
                ctx.count('insert result')
                c = fval(eng, st, self.H, self.o['count'])
                if ret_is_zero(eng, st, v) is False:
                    if c is not cnt: self.v('insert-fail-count', 'a failed insertion changes nothing', 'a failed insertion is counted', inst, st)
                    return
                ctx.oblig('after an insertion all elements are there and no element is larger than the one above it', site(inst))
                if lin(c) != plus(lin(cnt), 1): self.v('insert-count', 'an inserted element is counted', 'the number of elements does not go up by one', inst, st)
                if full:
                    g = st.mon.get('grown')
                    if g is None: self.v('insert-full', 'a full heap grows first', 'an element is stored behind the end of a full array', inst, st); return
                    m = fval(eng, st, self.H, self.o['max'])
                    if fval(eng, st, self.H, self.o['tree']) is not g[0]: self.v('grow-switch', 'the larger array is used', 'the larger array is not taken into use', inst, st)
                    small = [x for x in feasible(st, M, (1, 2, 3, 256, 1000, 1 << 20)) if (neval(m, {M: x}) or x + 1) <= x]
                    if eng.ev(st, icmp('ugt', m, M)) is False or small: self.v('grow-size', 'a full heap grows', 'the new capacity is not larger than the old one', inst, st)
                    sy = m.syms
                    if len(sy) == 1:
                        s = next(iter(sy))
                        for x in (2, 512, 1 << 20):
                            a, b = neval(g[1], {s: x}), neval(m, {s: x})
                            if a is not None and b is not None and a < 8 * b: self.v('grow-alloc', 'the array is as large as its capacity', 'the larger array has fewer slots than the capacity says', inst, st); break
                if self.D in st.mon.get('out', ()): self.v('insert-lost', 'an inserted element is stored', 'the new element is stored nowhere', inst, st); return
                if st.mon.get('out') or st.mon.get('hole') is not None: self.v('insert-lost', 'no element is lost', 'an element is lost by the insertion', inst, st); return
                pos = st.mon.get('pos')
                if pos is None or eng.eqc(st, pos) == 0 or eng.ev(st, icmp('eq', pos, C(0, pos.bits))) is True: return
                for a, s, b in st.mon.get('ord', ()):
                    pa, pb = self.index(eng, st, a), self.index(eng, st, b)
                    if s in ('>=', '=', '>') and b is self.D and pa is not None and self.related(pa, pos): return
                    if s in ('<=', '=', '<') and a is self.D and pb is not None and self.related(pb, pos): return
                self.v('insert-order', 'no element is larger than the one above it', 'the new element is left where the element above it was not found to be at least as large', inst, st)
            eng.on_exit = on_exit
            def setup(e, s):
                self.setup(e, s, cnt, M)
                e.constrain(s, M, 'uge', 1); e.constrain(s, M, 'ule', 1 << 30)
                if not full:
                    e.constrain(s, self.N, 'ule', (1 << 30) - 1)
                    e.assume(s, icmp('ult', self.N, M), True)
                s.mon['out'] = frozenset((self.D,)); s.mon['hole'] = cnt; s.mon['mover'] = self.D
            ctx.run(eng, 'napr_heap_insert', [self.H, self.D], setup=setup)
        ctx.need('insert result', 2); ctx.need('slot store', 3); ctx.need('comparison')

    def on_load(self, eng, st, inst, ptr, tag):
        """slots named by different index terms of one step are different slots (a node, its parent, its children)"""
        i = self.slot(eng, st, ptr)
        if i is None: return
        i = self.strip(i)
        cells = dict(st.mon.get('cells', ()))
        if i in cells:
            b, off, dyn = parts(ptr)
            st.mem[(b, off, dyn, 8)] = cells[i]
        else:
            st.mon['cells'] = st.mon.get('cells', ()) + ((i, eng.load(st, ptr, 8, 64, inst)),)

    def move(self, eng, st, ptr, i, val):
        """a store into slot i; hole: a slot whose content is free or stored elsewhere, out: elements stored nowhere"""
        cells = dict(st.mon.get('cells', ()))
        out, hole = set(st.mon.get('out', ())), st.mon.get('hole')
        if hole is i: hole = None
        else: out.add(cells[i] if i in cells else eng.load(st, ptr, 8, 64))
        if val in out: out.discard(val)
        elif eng.eqc(st, val) != 0:
            js = [j for j, x in cells.items() if x is val and j is not i]
            if js and hole is None: hole = js[0]
            elif val is not cells.get(i): out.add(S(('twice', val), 64))
        cells[i] = val
        st.mon['cells'] = tuple(cells.items())
        st.mon['out'], st.mon['hole'] = frozenset(out), hole
        if val is st.mon.get('mover'): st.mon['pos'] = i

    def steady(self, st):
        """between two steps the moving element is in its slot, or in hand with its slot free"""
        out, hole, m = st.mon.get('out', frozenset()), st.mon.get('hole'), st.mon.get('mover')
        if not out and hole is None: return True
        if out == frozenset((m,)) and hole is not None: st.mon['pos'] = hole; return True
        return False

    def kinds(self, st, phis):
        """which loop variables name the position of the moving element, its parent or its children"""
        pos = st.mon.get('pos')
        r = []
        for ph, old, v in phis:
            if pos is None or ph.ty[0] != 'i': continue
            if self.strip(v) is pos or self.sameidx(v, pos): r.append((ph.id, 'pos'))
            elif self.related(v, pos): r.append((ph.id, 'parent'))
            elif self.related(pos, v): r.append((ph.id, 'left' if self.isleft(v, pos) else 'right'))
        st.mon['phikind'] = tuple(r)

    def rename(self, eng, st, block, pos, cnt):
        """loop summary: the moving element is at one position, named by one symbol from here on"""
        fr = st.frames[-1]
        ids = dict(st.mon.pop('phikind', ()))
        hit = {ph.res: ids[ph.id] for ph in block.phis if ph.id in ids and fr.env.get(ph.res) is not None}
        if 'pos' not in hit.values(): return None
        X = eng.fresh(st, ('pos',), 32)
        for r, k in hit.items():
            bits = fr.env[r].bits
            x = X if bits == 32 else cast('zext', X, 32, bits)
            b = lambda o, a, c: binop(o, a, C(c, bits), bits)
            fr.env[r] = x if k == 'pos' else b('lshr', b('add', x, -1), 1) if k == 'parent' else b('add', b('shl', x, 1), 1) if k == 'left' else b('shl', b('add', x, 1), 1)
        tr = eng.load(st, P(self.H, self.o['tree'][0]), 8, 64)
        for k in [k for k in st.mem if k[0] is tr and len(k) == 4]: del st.mem[k]
        eng.constrain(st, X, 'ule', (1 << 30) - 1)
        eng.assume(st, icmp('ult', X, cnt), True)
        return X

    def isleft(self, c, i):
        s = next(iter((c.syms | i.syms)), None)
        e = {s: 5} if s is not None else {}
        return neval(c, e) == 2 * (neval(i, e) or 0) + 1

    def index(self, eng, st, v):
        """slot index an element value was read from"""
        return dict(st.mon.get('loc', ())).get(v)

    def extract(self):
        ctx = self.ctx
        N = self.N
        ROOT, LAST = S(('root',), 64), S(('last',), 64)
        for case in ('empty', 'one', 'more'):
            cnt = C(0, 32) if case == 'empty' else C(1, 32) if case == 'one' else N
            eng = ctx.engine(models=dict(STD))
            eng.on_call, eng.on_branch = self.on_call, self.on_branch
            lasti = binop('add', N, C(-1, 32), 32)
            def on_load(eng, st, inst, ptr, tag):
                i = self.slot(eng, st, ptr)
                if i is None: return
                i = self.strip(i)
                ctx.oblig('only slots in use are read', site(inst))
                c = fval(eng, st, self.H, self.o['count'])
                cells = dict(st.mon.get('cells', ()))
                if case == 'empty': self.v('extract-empty', 'an empty heap yields nothing', 'a slot of an empty heap is read', inst, st)
                if i not in cells:
                    x = i if i.bits == 32 else cast('trunc', i, i.bits, 32)
                    if eng.ev(st, icmp('ult', x, c)) is not True and not any(eng.ev(st, icmp('ult', j, c)) is True for j in self.above(st, x)):
                        self.v('extract-bound', 'only slots in use are read', 'a child is compared although its position is not below the number of elements', inst, st)
                self.on_load(eng, st, inst, ptr, tag)
            def swap_ok(eng, st, inst, pos, new):
                """the element going up from slot new to slot pos is not smaller than the other child"""
                g = self.order(st)
                loc = {i: x for x, i in dict(st.mon.get('loc', ())).items()}
                up = dict(st.mon.get('cells0', ())).get(new)
                mv = st.mon.get('mover')
                if up is None: return
                if g.get((up, mv)) is None: self.v('extract-order', 'no element is larger than the one above it', 'an element moves up although it was not found larger than the one moving down', inst, st); return
                c = fval(eng, st, self.H, self.o['count'])
                for sib in self.children(pos):
                    if self.strip(sib) is self.strip(new) or self.sameidx(sib, new): continue
                    if self.notin(eng, st, sib, c): continue
                    x = [e for i, e in loc.items() if self.sameidx(i, sib)]
                    if x and g.get((up, x[0])) is not None: continue
                    if any(self.notin(eng, st, i, c) for i in self.seen_idx(eng, st, sib)): continue
                    self.v('extract-order', 'no element is larger than the one above it', 'a child moves up although its sibling was not found to be at most as large', inst, st)
            def on_store(eng, st, inst, ptr, val, tag):
                i = self.slot(eng, st, ptr)
                if i is None: return
                ctx.count('slot store')
                i = self.strip(i)
                if not st.mon.get('cells0'): st.mon['cells0'] = st.mon.get('cells', ())
                if eng.eqc(st, val) == 0:        # clearing the slot that is given up
                    if st.mon.get('hole') is i: return
                    if i is not lasti and case != 'one': self.v('extract-clear', 'no element is lost', 'a slot that holds an element is cleared', inst, st)
                    st.mon['cleared'] = 1
                    return
                self.move(eng, st, ptr, i, val)
                if val is LAST: st.mon['cells'] = tuple(x for x in st.mon['cells'] if x[0] is not lasti)
            def on_phi(eng, st, block, phis):
                ctx.oblig('each step downwards swaps with the larger child', site(block.body[0]))
                if not self.steady(st): self.v('extract-lost', 'no element is lost', 'an element is lost while another one moves down', block.body[0], st); return
                p0, p1 = st.mon.get('from'), st.mon.get('pos')
                if p0 is not None and p1 is not None and p0 is not p1: swap_ok(eng, st, block.body[0], p0, p1)
                self.kinds(st, phis)
                st.mon['cells'] = st.mon['cells0'] = (); st.mon['loc'] = (); st.mon['ord'] = frozenset(); st.mon.pop('cr', None); st.mon.pop('cq', None)
            def on_phi2(eng, st, block, vals):
                pos = st.mon.get('pos')
                if pos is None: return
                inhand = st.mon.get('hole') is not None
                X = self.rename(eng, st, block, pos, fval(eng, st, self.H, self.o['count']))
                if X is not None:
                    st.mon['pos'] = st.mon['from'] = X
                    if inhand: st.mon['hole'] = X
                    else: st.mon['cells'] = ((X, LAST),)
            eng.on_load, eng.on_store, eng.on_phi, eng.on_phi2 = on_load, on_store, on_phi, on_phi2
            def on_exit(eng, st, v, how, inst, case=case):
                ctx.count('extract result')
                c = fval(eng, st, self.H, self.o['count'])
                if eng.ev(st, icmp('eq', self.t['tree'], NULL)) is True: return
                if case == 'empty':
                    if eng.eqc(st, v) != 0 or eng.eqc(st, c) != 0: self.v('extract-empty', 'an empty heap yields nothing', 'something is taken out of an empty heap', inst, st)
                    return
                ctx.oblig('the first element is handed out, the others stay in order', site(inst))
                if v is not ROOT: self.v('extract-root', 'the largest element is handed out', 'the element returned is not the first of the heap', inst, st); return
                if lin(c) != plus(lin(cnt), -1): self.v('extract-count', 'one element is taken out', 'the number of elements does not go down by one', inst, st); return
                if case == 'one': return
                if st.mon.get('out') or st.mon.get('hole') is not None: self.v('extract-lost', 'no element is lost', 'an element is lost when another one is taken out', inst, st); return
                pos = st.mon.get('pos')
                if pos is None: return
                g = self.order(st)
                loc = {i: x for x, i in dict(st.mon.get('loc', ())).items()}
                if st.mon.get('from') is not None and st.mon['from'] is not pos: swap_ok(eng, st, inst, st.mon['from'], pos); return
                for ch in self.children(pos):
                    # no child here (then there is none behind it either)
                    if self.notin(eng, st, ch, c) or any(self.notin(eng, st, i, c) for i in self.seen_idx(eng, st, ch)): break
                    x = [e for i, e in loc.items() if self.sameidx(i, ch)]
                    if x and g.get((LAST, x[0])) is not None: continue
                    self.v('extract-order', 'no element is larger than the one above it', 'the element moving down stops although a child was not found to be at most as large', inst, st)
            eng.on_exit = on_exit
            def setup(e, s, case=case):
                self.setup(e, s, cnt, S(('maxn',), 32))
                s.mon['keep'] += (ROOT, LAST)
                nonzero(e, s, ROOT); nonzero(e, s, LAST)
                s.mon['mover'] = LAST
                if case == 'more':
                    e.constrain(s, N, 'uge', 2); e.constrain(s, N, 'ule', 1 << 30)
                    s.mon['cells'] = ((C(0, 64), ROOT), (lasti, LAST))
                    s.mon['from'] = C(0, 64)
                elif case == 'one': s.mon['cells'] = ((C(0, 64), ROOT),)
                s.mon['out'] = frozenset((LAST,)); s.mon['hole'] = C(0, 64)
            ctx.run(eng, 'napr_heap_extract', [self.H], setup=setup)
        ctx.need('extract result', 3)

    def children(self, i):
        i = self.strip(i)
        if i.bits != 32: i = C(cv(i), 32) if i.k == 'c' else cast('trunc', i, i.bits, 32)
        b = lambda o, a, c: binop(o, a, C(c, 32), 32)
        return b('add', b('shl', i, 1), 1), b('shl', b('add', i, 1), 1)

    def above(self, st, x):
        """index terms the path has conditions on that are never below x"""
        r = []
        for k in list(st.rel) + [(f, f) for f in st.facts]:
            for y in k[:2]:
                sy = x.syms | y.syms
                if y.k == 'op' and y.bits == x.bits and len(sy) == 1:
                    s = next(iter(sy))
                    v = [(neval(x, {s: q}), neval(y, {s: q})) for q in (0, 1, 5, 100, 65535)]
                    if all(a is not None and b is not None and a <= b for a, b in v): r.append(y)
        return r

    def sameidx(self, a, b):
        a, b = self.strip(a), self.strip(b)
        sy = a.syms | b.syms
        if not sy: return a.k == 'c' and b.k == 'c' and cv(a) == cv(b)
        if len(sy) != 1: return False
        s = next(iter(sy))
        for x in (0, 1, 2, 5, 100, 65535):
            p, q = neval(a, {s: x}), neval(b, {s: x})
            if p is None or p != q: return False
        return True

    def seen_idx(self, eng, st, ch):
        """index terms equal to ch that the path has conditions on"""
        r = []
        for k in st.rel:
            for x in k[:2]:
                if x.k == 'op' and self.sameidx(x, ch): r.append(x)
        for x in st.facts:
            if x.bits in (32, 64) and x.k == 'op' and self.sameidx(x, ch): r.append(x)
        return r

    @staticmethod
    def notin(eng, st, i, c):
        if i.bits != c.bits: return False
        if eng.ev(st, icmp('uge', i, c)) is True: return True
        # few values of the position left: go through them
        if len(i.syms) != 1: return False
        s = next(iter(i.syms))
        f = eng.fact(st, s)
        if f[3] - f[2] > 64: return False
        hi = eng.fact(st, c)[3]
        for x in range(f[2], f[3] + 1):
            ok = True
            for t, g in st.facts.items():
                if t.syms == i.syms:
                    y = neval(t, {s: x})
                    if y is not None and (not g[2] <= y <= g[3] or y in g[4]): ok = False
            y = neval(i, {s: x})
            if ok and (y is None or y < hi): return False
        return True

    def others(self):
        ctx = self.ctx
        n = S(('arg', 1, 'n'), 32)
        eng = ctx.engine(models=dict(STD))
        def on_load(eng, st, inst, ptr, tag):
            i = self.slot(eng, st, ptr)
            if i is None: return
            i = self.strip(i)
            ctx.count('nth read')
            ctx.oblig('only slots in use are read', site(inst))
            if eng.ev(st, icmp('ult', i, self.N)) is not True: self.v('nth-bound', 'only slots in use are read', 'a position is read that is not below the number of elements', inst, st)
        def on_exit(eng, st, v, how, inst):
            ctx.count('nth result')
            if eng.ev(st, icmp('eq', self.t['tree'], NULL)) is True: return
            if eng.eqc(st, v) == 0:
                if eng.ev(st, icmp('uge', n, self.N)) is not True: self.v('nth-none', 'every element can be looked at', 'nothing is returned for a position in use', inst, st)
            elif v is not S(('ld', P(self.t['tree'], 0, ((cast('zext', n, 32, 64), 8),))), 64): self.v('nth-other', 'every element can be looked at', 'the value returned is not the element at the position', inst, st)
        eng.on_load, eng.on_exit = on_load, on_exit
        def setup(e, s): self.setup(e, s, self.N, S(('maxn',), 32))
        ctx.run(eng, 'napr_heap_get_nth', [self.H, n], setup=setup)
        eng = ctx.engine(models=dict(STD))
        def on_exit2(eng, st, v, how, inst):
            if v is not self.N: self.v('size', 'the number of elements is told', 'the size told is not the number of elements', inst, st)
        eng.on_exit = on_exit2
        ctx.run(eng, 'napr_heap_size', [self.H], setup=setup)
        ctx.need('nth read'); ctx.need('nth result', 2)
        # creation
        def alloc(eng, st, inst, args):
            p = nonzero(eng, st, eng.fresh(st, ('h', st.frames[-1].ctx, inst.id), 64))
            st.mem[(p, 'fill')] = ((0, None, 'undef'),)
            st.mon['al'] = st.mon.get('al', ()) + ((p, args[1]),)
            return [(st, p)]
        cmpf = S(('arg', 1, 'cmp'), 64)
        for fn in ('napr_heap_make', 'napr_heap_make_r'):
            eng = ctx.engine(models=dict(STD, apr_palloc=alloc, apr_pcalloc=alloc, apr_pool_create_ex=m_status_out('pool'), apr_thread_mutex_create=m_status_out('mutex')))
            def on_exit3(eng, st, v, how, inst, fn=fn):
                ctx.count('creation')
                if eng.eqc(st, v) == 0: return
                ctx.oblig('a new heap is empty and has its capacity', site(inst))
                if fval(eng, st, v, self.o['cmp']) is not cmpf: self.v('make-cmp', 'a heap orders by the given function', 'a new heap does not use the comparison it was given', inst, st)
                if eng.eqc(st, fval(eng, st, v, self.o['count'])) != 0: self.v('make-count', 'a new heap is empty', 'a new heap is not empty', inst, st)
                m, tr = eng.eqc(st, fval(eng, st, v, self.o['max'])), fval(eng, st, v, self.o['tree'])
                for p, n in st.mon.get('al', ()):
                    k = eng.eqc(st, n)
                    if p is tr and k is not None and m is not None and k < 8 * m: self.v('make-room', 'a new heap has its capacity', 'the array of a new heap is smaller than its capacity', inst, st)
                ms = eng.eqc(st, fval(eng, st, v, self.o['mutex_set']))
                if (ms == 1) != (fn == 'napr_heap_make_r') and ms is not None: self.v('make-mutex', 'a heap made for threads has its lock', 'the lock of a new heap is not marked as present', inst, st)
            eng.on_exit = on_exit3
            def setup2(e, s): s.mon['keep'] = (cmpf,)
            ctx.run(eng, fn, [S(('arg', 0, 'pool'), 64), cmpf], setup=setup2)
        ctx.need('creation', 2)
        # locked insertion
        def lock(eng, st, inst, args):
            ctx.count('lock')
            if st.mon.get('held'): self.v('relock', 'the lock is taken once', 'the lock is taken twice', inst, st)
            return status_alts(eng, st, inst, lambda s: s.mon.__setitem__('held', 1))
        def unlock(eng, st, inst, args):
            if not st.mon.get('held'): self.v('unlock-free', 'the lock is released once', 'the lock is released without being held', inst, st)
            st.mon['held'] = 0
            return status_alts(eng, st, inst, None, lambda s: s.mon.__setitem__('ufail', 1))
        def ins(eng, st, inst, args):
            ctx.oblig('the locked insertion inserts under the lock', site(inst))
            if not st.mon.get('held'): self.v('unlocked', 'a shared heap changes under its lock', 'an element is inserted without the lock', inst, st)
            if args[1] is not self.D: self.v('insert-other', 'the given element is inserted', 'another element than the given one is inserted', inst, st)
            return status_alts(eng, st, inst, lambda s: s.mon.__setitem__('ins', 1), lambda s: s.mon.__setitem__('ins', -1))
        eng = ctx.engine(models=dict(STD, apr_thread_mutex_lock=lock, apr_thread_mutex_unlock=unlock, napr_heap_insert=ins), opaque=['napr_heap_insert'])
        def on_exit4(eng, st, v, how, inst):
            ctx.count('locked insertion')
            if st.mon.get('held'): self.v('exit-held', 'the lock is released', 'the lock is still held on return: every later insertion waits for ever', inst, st)
            z = ret_is_zero(eng, st, v)
            if z is not False and st.mon.get('ins') != 1: self.v('insert-hidden', 'a failed insertion is reported', 'success is reported although nothing was inserted', inst, st)
            if z is False and st.mon.get('ins') == 1 and not st.mon.get('ufail'): self.v('insert-denied', 'success is reported', 'failure is reported although the element was inserted', inst, st)
        eng.on_exit = on_exit4
        ctx.run(eng, 'napr_heap_insert_r', [self.H, self.D], setup=setup)
        ctx.need('lock'); ctx.need('locked insertion', 2)


def S18(ctx):
    h = Heap(ctx)
    h.insert(); h.extract(); h.others()
