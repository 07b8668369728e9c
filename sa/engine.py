"""Path-sensitive dataflow engine (ESP-style property simulation) over LLVM IR.

An abstract interpreter: abstract values are interned terms over opaque symbols, the abstract store maps
(region, byte offset, strided index) cells to terms, path conditions are kept as per-term integer intervals,
disequality sets and pairwise order relations (no solver).  Calls into the repository are inlined virtually,
calls outside it go through declarative models.  Loops reach a fixpoint because loop-carried values are
widened to one symbol per site and states are deduplicated (and joined beyond a bound) at merge points.
A rule is a set of hooks plus a hashable monitor state carried along every path.
"""
import sys, time, resource
from ir import AnalysisBroken, Truncated, BIN, CAST

sys.setrecursionlimit(20000)

# ---------------------------------------------------------------- terms
_tab = {}
_ids = [0]


class T:
    __slots__ = ('k', 'a', 'bits', 'depth', 'syms', 'id')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def _mk(k, a, bits):
    key = (k, a, bits)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.k, t.a, t.bits = k, a, bits
        _ids[0] += 1
        t.id = _ids[0]
        d, sy = 0, set()
        stack = list(a)
        while stack:
            x = stack.pop()
            if isinstance(x, T):
                d = max(d, x.depth)
                sy |= x.syms
            elif isinstance(x, tuple):
                stack += x
        t.depth = d + 1
        if k == 's': sy.add(t)
        t.syms = frozenset(sy)
        _tab[key] = t
    return t


def C(v, bits=64):
    return _mk('c', (v & ((1 << bits) - 1),), bits)


NULL = C(0, 64)
TRUE, FALSE = C(1, 1), C(0, 1)


def S(name, bits=64):
    return _mk('s', (name,), bits)


def is_c(t): return t.k == 'c'
def cv(t): return t.a[0]


def sgn(v, bits):
    return v - (1 << bits) if bits and v >> (bits - 1) & 1 else v


def P(base, off=0, dyn=()):
    """pointer term; base is never itself a 'p'"""
    if base.k == 'p':
        off += base.a[1]
        dyn = base.a[2] + tuple(dyn)
        base = base.a[0]
    if dyn:
        m = {}
        for t, s in dyn: m[t] = m.get(t, 0) + s
        dyn = tuple(sorted(((t, s) for t, s in m.items() if s), key=lambda x: (x[0].id, x[1])))
    if base.k == 'c' and not dyn:
        return C(cv(base) + off, 64)
    if not off and not dyn: return base
    return _mk('p', (base, off, tuple(dyn)), 64)


def parts(t):
    """(base, off, dyn)"""
    if t.k == 'p': return t.a
    return (t, 0, ())


def base_of(t):
    return t.a[0] if t.k == 'p' else t


def show(t, d=0):
    if isinstance(t, tuple): return '(' + ','.join(show(x, d + 1) for x in t) + ')'
    if not isinstance(t, T): return str(t)
    if d > 8: return '..'
    if t.k == 'c': return str(sgn(cv(t), t.bits))
    if t.k == 's': return '$' + show(t.a[0], d + 1)
    if t.k == 'p': return '&%s%s%s' % (show(t.a[0], d + 1), '+%d' % t.a[1] if t.a[1] else '', ''.join('[%s*%d]' % (show(x, d + 1), s) for x, s in t.a[2]))
    if t.k == 'cmp': return '(%s %s %s)' % (show(t.a[1], d + 1), t.a[0], show(t.a[2], d + 1))
    return '%s(%s)' % (t.a[0], ','.join(show(x, d + 1) for x in t.a[1:]))


NEG = dict(eq='ne', ne='eq', ult='uge', uge='ult', ugt='ule', ule='ugt', slt='sge', sge='slt', sgt='sle', sle='sgt')
SWAP = dict(eq='eq', ne='ne', ult='ugt', ugt='ult', ule='uge', uge='ule', slt='sgt', sgt='slt', sle='sge', sge='sle')


def NOT(t):
    if t.k == 'c': return C(1 - (cv(t) & 1), 1)
    if t.k == 'cmp' and t.a[0] in NEG: return _mk('cmp', (NEG[t.a[0]],) + t.a[1:], 1)
    if t.k == 'op' and t.a[0] == 'not': return t.a[1]
    return _mk('op', ('not', t), 1)


def icmp(pred, x, y):
    if x.k == 'c' and y.k == 'c':
        a, b, n = cv(x), cv(y), max(x.bits, y.bits)
        if pred[0] == 's': a, b = sgn(a, n), sgn(b, n)
        return C({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred if pred in ('eq', 'ne') else pred[1:]], 1)
    if x is y:
        return C(pred in ('eq', 'ule', 'uge', 'sle', 'sge'), 1)
    if x.k == 'c' or (y.k != 'c' and y.id < x.id):
        x, y, pred = y, x, SWAP[pred]
    if x.k == 'op' and y.k == 'op' and x.a[0] == y.a[0] and x.a[0] in ('zext', 'sext') and x.a[1].bits == y.a[1].bits:
        return icmp('u' + pred[1:] if x.a[0] == 'zext' and pred[0] == 's' else pred, x.a[1], y.a[1])
    if y.k == 'c' and cv(y) == 0 and pred[0] == 's' and x.k == 'op' and x.a[0] == 'sub' and all(z.k == 'op' and z.a[0] == 'zext' and z.a[1].bits < x.bits for z in x.a[1:]):
        return icmp(pred, x.a[1], x.a[2])
    # pointers into the same region
    if x.k == 'p' and y.k == 'p' or (x.k == 'p' and x.a[0] is y) or (y.k == 'p' and y.a[0] is x):
        bx, ox, dx = parts(x); by, oy, dy = parts(y)
        if bx is by and dx == dy:
            return icmp(pred if pred in ('eq', 'ne') else 's' + pred[1:], C(ox, 64), C(oy, 64))
        if bx is by and not dx and len(dy) == 1 and dy[0][1] == 1:
            pass
    if y.k == 'c' and cv(y) == 0 and pred in ('eq', 'ne'):
        if x.k == 'op' and x.a[0] in ('zext', 'sext'):
            return icmp(pred, x.a[1], C(0, x.a[1].bits))
        if x.bits == 1 and x.k in ('cmp', 'op'):
            return x if pred == 'ne' else NOT(x)
        if x.k == 'op' and x.a[0] == 'xor': return icmp(pred, x.a[1], x.a[2])
        if x.k == 'op' and x.a[0] == 'sub': return icmp(pred, x.a[1], x.a[2])
        if nonnull(x): return C(pred == 'ne', 1)
    if y.k == 'c' and pred in ('eq', 'ne') and x.k == 'op':
        if x.a[0] in ('zext', 'sext'):
            n = x.a[1].bits
            v = cv(y)
            if x.a[0] == 'zext' and v >> n: return C(pred == 'ne', 1)
            if x.a[0] == 'sext' and sgn(v & ((1 << n) - 1), n) & ((1 << x.bits) - 1) != v: return C(pred == 'ne', 1)
            return icmp(pred, x.a[1], C(v, n))
        if x.a[0] == 'and' and x.a[2].k == 'c' and cv(x.a[2]) & (cv(x.a[2]) - 1) == 0 and cv(y) == cv(x.a[2]):
            return icmp(NEG[pred], x, C(0, x.bits))
        if x.a[0] in ('add',) and x.a[2].k == 'c':
            return icmp(pred, x.a[1], C(cv(y) - cv(x.a[2]), x.bits))
    if y.k == 'c' and pred in ('eq', 'ne') and x.bits == 1:
        return (x if (cv(y) == 1) == (pred == 'eq') else NOT(x)) if x.k in ('cmp', 'op') else _mk('cmp', ('ne' if (cv(y) == 1) == (pred == 'eq') else 'eq', x, C(0, 1)), 1)
    if pred in ('eq', 'ne'):
        def lin1(t): return (t.a[1], cv(t.a[2])) if t.k == 'op' and t.a[0] == 'add' and t.a[2].k == 'c' else (t, 0)
        (bx, cx), (by, cy) = lin1(x), lin1(y)
        if bx is by: return C((cx == cy) == (pred == 'eq'), 1)
        if region_kind(x) and region_kind(y) and base_of(x) is not base_of(y): return C(pred == 'ne', 1)
    if y.k == 'c':    # canonical: strict forms on constants
        n = y.bits; v = cv(y); m = (1 << n) - 1
        if pred == 'ult' and v == 1: return icmp('eq', x, C(0, n))
        if pred == 'uge' and v == 1 or pred == 'ugt' and v == 0: return icmp('ne', x, C(0, n))
        if pred == 'ule' and v == 0: return icmp('eq', x, C(0, n))
        if pred == 'ult' and v == 0: return FALSE
        if pred == 'uge' and v == 0: return TRUE
        if pred == 'ule' and v != m: return icmp('ult', x, C(v + 1, n))
        if pred == 'ugt' and v != m: return icmp('uge', x, C(v + 1, n))
        sv = sgn(v, n)
        if pred == 'sle' and sv != (1 << (n - 1)) - 1: return icmp('slt', x, C(sv + 1, n))
        if pred == 'sgt' and sv != (1 << (n - 1)) - 1: return icmp('sge', x, C(sv + 1, n))
        if x.k == 'op' and x.a[0] == 'zext' and v < (1 << (x.a[1].bits)) :
            if pred in ('ult', 'uge'): return icmp(pred, x.a[1], C(v, x.a[1].bits))
            if pred in ('slt', 'sge') and sv >= 0: return icmp('u' + pred[1:], x.a[1], C(v, x.a[1].bits))
    return _mk('cmp', (pred, x, y), 1)


def region_kind(t):
    b = base_of(t)
    if b.k == 's' and isinstance(b.a[0], tuple) and b.a[0] and b.a[0][0] in ('a', 'h', 'g', 'fn', 'str'):
        return b.a[0][0]
    return None


def nonnull(t):
    return t.bits == 64 and region_kind(t) is not None or (t.k == 'p' and t.a[1] != 0 and False)


def binop(op, x, y, bits):
    m = (1 << bits) - 1
    if x.k == 'c' and y.k == 'c':
        a, b = cv(x), cv(y)
        sa, sb = sgn(a, bits), sgn(b, bits)
        if op == 'add': return C(a + b, bits)
        if op == 'sub': return C(a - b, bits)
        if op == 'mul': return C(a * b, bits)
        if op == 'and': return C(a & b, bits)
        if op == 'or': return C(a | b, bits)
        if op == 'xor': return C(a ^ b, bits)
        if op == 'shl': return C(a << b, bits) if b < bits else C(0, bits)
        if op == 'lshr': return C(a >> b, bits) if b < bits else C(0, bits)
        if op == 'ashr': return C(sa >> b, bits) if b < bits else C(0, bits)
        if op == 'udiv' and b: return C(a // b, bits)
        if op == 'urem' and b: return C(a % b, bits)
        if op == 'sdiv' and sb: return C(int(abs(sa) // abs(sb)) * (1 if (sa < 0) == (sb < 0) else -1), bits)
        if op == 'srem' and sb: return C((abs(sa) % abs(sb)) * (-1 if sa < 0 else 1), bits)
    if op in ('add', 'mul', 'and', 'or', 'xor') and (x.k == 'c' or (y.k != 'c' and y.id < x.id)):
        x, y = y, x
    if y.k == 'c':
        v = cv(y)
        if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr') and v == 0: return x
        if op in ('mul', 'and') and v == 0: return C(0, bits)
        if op == 'and' and v == m: return x
        if op == 'mul' and v == 1: return x
        if op in ('udiv', 'sdiv') and v == 1: return x
        if op == 'urem' and v == 1: return C(0, bits)
        if op == 'sub': return binop('add', x, C(-v, bits), bits)
        if op == 'add' and x.k == 'op' and x.a[0] == 'add' and x.a[2].k == 'c':
            return binop('add', x.a[1], C(v + cv(x.a[2]), bits), bits)
        if op == 'add' and x.k == 'p': return P(x, sgn(v, bits))
        if op == 'xor' and bits == 1 and v == 1: return NOT(x)
        if op == 'and' and x.k == 'op':
            if x.a[0] == 'or' and x.a[2].k == 'c':
                c2 = cv(x.a[2])
                if c2 & v == v: return C(v, bits)
                if c2 & v == 0: return binop('and', x.a[1], y, bits)
            if x.a[0] == 'and' and x.a[2].k == 'c': return binop('and', x.a[1], C(v & cv(x.a[2]), bits), bits)
        if op == 'or' and x.k == 'op':
            if x.a[0] == 'or' and x.a[2].k == 'c': return binop('or', x.a[1], C(v | cv(x.a[2]), bits), bits)
    if x is y:
        if op in ('sub', 'xor'): return C(0, bits)
        if op in ('and', 'or'): return x
    if bits == 1 and op in ('and', 'or') and y.k == 'c':
        pass
    return _mk('op', (op, x, y), bits)


def cast(op, x, frm, to):
    if op in ('ptrtoint', 'inttoptr', 'bitcast') and frm == to: return x
    if op in ('ptrtoint', 'inttoptr'): op = 'trunc' if to < frm else 'zext'
    if frm == to and op in ('zext', 'sext', 'trunc'): return x
    if x.k == 'c' and op in ('zext', 'sext', 'trunc'):
        if op == 'sext': return C(sgn(cv(x), frm), to)
        return C(cv(x), to)
    if op == 'trunc':
        if x.k == 'op' and x.a[0] in ('zext', 'sext'):
            y = x.a[1]
            if y.bits == to: return y
            if y.bits > to: return cast('trunc', y, y.bits, to)
            return cast(x.a[0], y, y.bits, to)
        if to == 1:
            return _mk('op', ('trunc', x), 1)
    if op in ('zext', 'sext') and x.k == 'op' and x.a[0] == 'zext':
        return cast('zext', x.a[1], x.a[1].bits, to)
    return _mk('op', (op, x), to)


# ---------------------------------------------------------------- facts
FULLF = None


class St:
    """abstract state"""
    __slots__ = ('frames', 'mem', 'facts', 'rel', 'mon', 'trace', 'visits', 'dead')

    def fork(self):
        s = St()
        s.frames = list(self.frames)
        s.frames[-1] = s.frames[-1].copy()
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.rel = dict(self.rel)
        s.mon = dict(self.mon)
        s.trace = self.trace
        s.visits = dict(self.visits)
        s.dead = False
        return s

    def note(self, inst, text):
        self.trace = (self.trace, (inst.file, inst.line, text) if inst is not None else (None, 0, text))

    def tracelist(self):
        out = []
        t = self.trace
        while t:
            out.append(t[1]); t = t[0]
        return out[::-1]


class Frame:
    __slots__ = ('fn', 'block', 'idx', 'env', 'call', 'ctx', 'argt')

    def copy(self):
        f = Frame()
        f.fn, f.block, f.idx, f.call, f.ctx, f.argt = self.fn, self.block, self.idx, self.call, self.ctx, self.argt
        f.env = dict(self.env)
        return f


def bits_of(ty, types=None):
    if ty[0] == 'i': return ty[1]
    if ty[0] == 'ptr': return 64
    if ty[0] == 'double': return 64
    if ty[0] == 'float': return 32
    if ty[0] == 'void': return 0
    return 64


def default_fact(t):
    n = t.bits or 64
    return (-(1 << (n - 1)), (1 << (n - 1)) - 1, 0, (1 << n) - 1, frozenset())


class Engine:
    MAXSTEPS = 400000
    DEADLINE = time.time() + 600     # of the whole process
    MAXDEPTH = 14      # term depth
    K = 400             # variants per (location, monitor) before joining
    WIDEN_VISITS = 3
    INLINE_DEPTH = 14

    def __init__(self, prog, opaque=(), models=None):
        self.prog = prog
        self.opaque = set(opaque)
        self.models = dict(DEFAULT_MODELS)
        if models: self.models.update(models)
        self.tags = {}
        self.steps = 0
        self.stat_calls = set()
        self.stat_funcs = set()
        self.stat_paths = 0
        self.strs = {}
        self.rng = {}
        # hooks (rules override)
        self.on_call = None      # (eng, st, inst, name, args) -> None | list[(st, ret)]
        self.on_load = None      # (eng, st, inst, ptr, tag)
        self.on_store = None     # (eng, st, inst, ptr, val, tag)
        self.on_ret = None       # (eng, st, frame, val)
        self.on_exit = None      # (eng, st, val, how)
        self.on_branch = None
        self.symbolic_globals = False

    # ---- facts
    def fact(self, st, t):
        f = st.facts.get(t)
        if f: return f
        if t.k == 'c':
            v = cv(t); s = sgn(v, t.bits)
            return (s, s, v, v, frozenset())
        if t.k == 'p':
            b, o, d = parts(t)
            if not d and 0 < o < 1 << 40:          # a place inside an object is not the null pointer
                f = st.facts.get(b)
                if f and f[2] > 0 or b.k == 's' and isinstance(b.a[0], tuple) and b.a[0][0] in ('a', 'h', 'g'):
                    d = default_fact(t)
                    return (d[0], d[1], 1, d[3], d[4])
        if t.k == 'op':
            op = t.a[0]
            n = t.bits
            if op == 'and' and t.a[2].k == 'c':
                v = cv(t.a[2])
                if not v >> (n - 1): return (0, v, 0, v, frozenset())
            if op == 'zext':
                lo, hi, ulo, uhi, ne = self.fact(st, t.a[1])
                return (ulo, uhi, ulo, uhi, ne)
            if op == 'sext':
                lo, hi, ulo, uhi, ne = self.fact(st, t.a[1])
                if lo >= 0: return (lo, hi, lo, hi, ne)
                return (lo, hi, 0, (1 << n) - 1, frozenset())
            if op == 'trunc':
                lo, hi, ulo, uhi, ne = self.fact(st, t.a[1])
                if uhi < (1 << n):
                    if uhi < (1 << (n - 1)): return (ulo, uhi, ulo, uhi, frozenset())
                    d = default_fact(t)
                    return (d[0], d[1], ulo, uhi, frozenset())
            if op == 'urem' and t.a[2].k == 'c' and cv(t.a[2]):
                v = cv(t.a[2]) - 1
                d = default_fact(t)
                return (0, v, 0, v, frozenset()) if v < 1 << (n - 1) else d
            if op in ('lshr', 'udiv') and t.a[2].k == 'c':
                _, _, ulo, uhi, _ = self.fact(st, t.a[1])
                v = cv(t.a[2])
                if op == 'lshr' and v < n and v > 0: return (ulo >> v, uhi >> v, ulo >> v, uhi >> v, frozenset())
                if op == 'udiv' and v > 1: return (ulo // v, uhi // v, ulo // v, uhi // v, frozenset())
            if op == 'add':
                a, b = self.fact(st, t.a[1]), self.fact(st, t.a[2])
                d = default_fact(t)
                lo, hi, ulo, uhi = a[0] + b[0], a[1] + b[1], a[2] + b[2], a[3] + b[3]
                if lo < d[0] or hi > d[1]: lo, hi = d[0], d[1]
                if uhi > d[3]: ulo, uhi = 0, d[3]
                if lo >= 0: ulo, uhi = max(ulo, lo), min(uhi, hi)
                return (lo, hi, ulo, uhi, frozenset())
            if op == 'mul':
                a, b = self.fact(st, t.a[1]), self.fact(st, t.a[2])
                d = default_fact(t)
                if a[3] * b[3] <= d[3]:
                    ulo, uhi = a[2] * b[2], a[3] * b[3]
                    if uhi <= d[1]: return (ulo, uhi, ulo, uhi, frozenset())
                    return (d[0], d[1], ulo, uhi, frozenset())
        if t.bits == 64 and nonnull(t):
            d = default_fact(t)
            return (d[0], d[1], 1, d[3], frozenset([0]))
        return default_fact(t)

    def eqc(self, st, t):
        """constant value of t under the facts, or None (unsigned)"""
        if t.k == 'c': return cv(t)
        f = self.fact(st, t)
        if f[2] == f[3]: return f[2]
        if f[0] == f[1]: return f[0] & ((1 << t.bits) - 1)
        if t.k == 'cmp' or (t.k == 'op' and t.bits == 1):
            v = self.ev(st, t)
            if v is not None: return int(v)
        if t.k == 'op' and t.a[0] in BIN and t.bits > 1:
            x, y = self.eqc(st, t.a[1]), self.eqc(st, t.a[2])
            if x is not None and y is not None:
                r = binop(t.a[0], C(x, t.bits), C(y, t.bits), t.bits)
                if r.k == 'c': return cv(r)
        if t.k == 'op' and t.a[0] in ('zext', 'sext', 'trunc'):
            x = self.eqc(st, t.a[1])
            if x is not None:
                r = cast(t.a[0], C(x, t.a[1].bits), t.a[1].bits, t.bits)
                if r.k == 'c': return cv(r)
        return None

    def norm(self, f, bits):
        """tighten, None if empty"""
        slo, shi, ulo, uhi, ne = f
        half = 1 << (bits - 1)
        full = 1 << bits
        for _ in range(3):
            if slo >= 0:
                ulo, uhi = max(ulo, slo), min(uhi, shi)
            elif shi < 0:
                ulo, uhi = max(ulo, slo + full), min(uhi, shi + full)
            if uhi < half:
                slo, shi = max(slo, ulo), min(shi, uhi)
            elif ulo >= half:
                slo, shi = max(slo, ulo - full), min(shi, uhi - full)
            ch = False
            while ulo <= uhi and ulo in ne: ulo += 1; ch = True
            while ulo <= uhi and uhi in ne: uhi -= 1; ch = True
            while slo <= shi and slo & (full - 1) in ne: slo += 1; ch = True
            while slo <= shi and shi & (full - 1) in ne: shi -= 1; ch = True
            if ulo > uhi or slo > shi: return None
            if not ch: break
        if ulo > uhi or slo > shi: return None
        return (slo, shi, ulo, uhi, frozenset(x for x in ne if ulo <= x <= uhi))

    def constrain(self, st, t, pred, v):
        """t pred const v ; returns feasibility"""
        bits = t.bits
        slo, shi, ulo, uhi, ne = self.fact(st, t)
        u = v & ((1 << bits) - 1)
        s = sgn(u, bits)
        if pred == 'eq': slo, shi, ulo, uhi = max(slo, s), min(shi, s), max(ulo, u), min(uhi, u)
        elif pred == 'ne': ne = ne | {u}
        elif pred == 'ult': uhi = min(uhi, u - 1)
        elif pred == 'ule': uhi = min(uhi, u)
        elif pred == 'ugt': ulo = max(ulo, u + 1)
        elif pred == 'uge': ulo = max(ulo, u)
        elif pred == 'slt': shi = min(shi, s - 1)
        elif pred == 'sle': shi = min(shi, s)
        elif pred == 'sgt': slo = max(slo, s + 1)
        elif pred == 'sge': slo = max(slo, s)
        if pred == 'eq' and u in ne: return False
        f = self.norm((slo, shi, ulo, uhi, ne), bits)
        if f is None: return False
        if t.k == 'op' and t.a[0] == 'and' and t.a[2].k == 'c' and cv(t.a[2]) & (cv(t.a[2]) - 1) == 0 and 0 in f[4] or \
           (t.k == 'op' and t.a[0] == 'and' and t.a[2].k == 'c' and cv(t.a[2]) & (cv(t.a[2]) - 1) == 0 and f[2] > 0):
            c = cv(t.a[2])
            f = (sgn(c, bits), sgn(c, bits), c, c, frozenset())
        if t.k != 'c': st.facts[t] = f
        # propagate into simple wrappers
        if t.k == 'op' and t.a[0] == 'zext':
            x = t.a[1]
            if not self.constrain(st, x, 'uge', max(f[2], 0)): return False
            if f[3] < (1 << x.bits) and not self.constrain(st, x, 'ule', f[3]): return False
        if t.k == 'op' and t.a[0] == 'add' and t.a[2].k == 'c' and pred == 'eq':
            if not self.constrain(st, t.a[1], 'eq', u - cv(t.a[2])): return False
        elif t.k == 'op' and t.a[0] == 'add' and t.a[2].k == 'c' and pred != 'ne':
            x, c = t.a[1], sgn(cv(t.a[2]), bits)
            g = self.fact(st, x)
            if x.k != 'c' and -(1 << bits - 1) <= g[0] + c and g[1] + c < 1 << bits - 1:      # the sum cannot overflow
                if f[0] - c > g[0] and not self.constrain(st, x, 'sge', f[0] - c): return False
                if f[1] - c < g[1] and not self.constrain(st, x, 'sle', f[1] - c): return False
        if t.k == 'op' and t.a[0] == 'or' and f[2] == f[3] == 0:
            return self.constrain(st, t.a[1], 'eq', 0) and self.constrain(st, t.a[2], 'eq', 0)
        return True

    def relget(self, st, x, y, dom):
        sw = y.id < x.id
        if sw: x, y = y, x
        r = st.rel.get((x, y, dom), frozenset('<=>'))
        e = st.rel.get((x, y, 'e'))
        if e is not None: r = r & (frozenset('=') if e else frozenset('<>'))
        fx, fy = self.fact(st, x), self.fact(st, y)
        o = 2 if dom == 'u' else 0
        if fx[o + 1] < fy[o]: r = r & frozenset('<')
        elif fx[o + 1] <= fy[o]: r = r & frozenset('<=')
        if fx[o] > fy[o + 1]: r = r & frozenset('>')
        elif fx[o] >= fy[o + 1]: r = r & frozenset('>=')
        if sw: r = frozenset({'<': '>', '>': '<', '=': '='}[c] for c in r)
        return r

    def relset(self, st, x, y, dom, allowed):
        sw = y.id < x.id
        if sw:
            x, y = y, x
            allowed = frozenset({'<': '>', '>': '<', '=': '='}[c] for c in allowed)
        r = self.relget(st, x, y, dom) & allowed
        if not r: return False
        st.rel[(x, y, dom)] = r
        if r == frozenset('='): st.rel[(x, y, 'e')] = True
        elif '=' not in r: st.rel[(x, y, 'e')] = False
        return True

    PR = dict(eq='=', ne='<>', lt='<', le='<=', gt='>', ge='>=')

    def ev(self, st, c):
        """truth of an i1 term, or None"""
        if c.k == 'c': return bool(cv(c))
        f = st.facts.get(c)
        if f and f[2] == f[3]: return bool(f[2])
        if c.k == 'cmp':
            pred, x, y = c.a
            if pred not in NEG:
                return None
            if y.k == 'c':
                fx = self.fact(st, x)
                v = cv(y); s = sgn(v, y.bits)
                if pred == 'eq' or pred == 'ne':
                    if fx[2] == fx[3] == v or fx[0] == fx[1] == s: return pred == 'eq'
                    if v < fx[2] or v > fx[3] or s < fx[0] or s > fx[1] or v in fx[4]: return pred == 'ne'
                    xc = self.eqc(st, x) if x.k == 'op' else None
                    if xc is not None: return (xc == v) == (pred == 'eq')
                    return None
                lo, hi, k = (fx[2], fx[3], v) if pred[0] == 'u' else (fx[0], fx[1], s)
                p = pred[1:]
                if p == 'lt': return True if hi < k else False if lo >= k else None
                if p == 'ge': return True if lo >= k else False if hi < k else None
                if p == 'le': return True if hi <= k else False if lo > k else None
                if p == 'gt': return True if lo > k else False if hi <= k else None
            xc, yc = self.eqc(st, x), self.eqc(st, y)
            if yc is not None: return self.ev(st, icmp(pred, x, C(yc, y.bits)))
            if xc is not None: return self.ev(st, icmp(pred, C(xc, x.bits), y))
            dom = 's' if pred[0] == 's' else 'u'
            if dom == 'u' and (x.k == 'op' or y.k == 'op'):
                bx, cx = (x.a[1], cv(x.a[2])) if x.k == 'op' and x.a[0] == 'add' and x.a[2].k == 'c' else (x, 0)
                by, cy = (y.a[1], cv(y.a[2])) if y.k == 'op' and y.a[0] == 'add' and y.a[2].k == 'c' else (y, 0)
                if bx is by and (cx or cy) and self.fact(st, bx)[3] + max(cx, cy) < 1 << x.bits:      # same variable, no wrap-around
                    return {'eq': cx == cy, 'ne': cx != cy, 'lt': cx < cy, 'le': cx <= cy, 'gt': cx > cy, 'ge': cx >= cy}[pred if pred in ('eq', 'ne') else pred[1:]]
            r = self.relget(st, x, y, dom)
            want = frozenset(self.PR[pred if pred in ('eq', 'ne') else pred[1:]])
            if r <= want: return True
            if not (r & want): return False
            return None
        if c.k == 'op':
            o = c.a[0]
            if o == 'not':
                v = self.ev(st, c.a[1])
                return None if v is None else not v
            if o == 'and':
                a, b = self.ev(st, c.a[1]), self.ev(st, c.a[2])
                if a is False or b is False: return False
                if a and b: return True
            if o == 'or':
                a, b = self.ev(st, c.a[1]), self.ev(st, c.a[2])
                if a or b: return True
                if a is False and b is False: return False
            if o == 'xor':
                a, b = self.ev(st, c.a[1]), self.ev(st, c.a[2])
                if a is not None and b is not None: return a != b
            if o == 'trunc' and c.bits == 1:
                v = self.eqc(st, c.a[1])
                if v is not None: return bool(v & 1)
        return None

    def assume(self, st, c, val):
        v = self.ev(st, c)
        if v is not None: return v == val
        if c.k == 'cmp':
            pred, x, y = c.a
            if pred not in NEG:
                return self.constrain(st, c, 'eq', int(val))
            if not val: pred = NEG[pred]
            yc = self.eqc(st, y)
            if yc is not None:
                return self.constrain(st, x, pred, yc)
            xc = self.eqc(st, x)
            if xc is not None:
                return self.constrain(st, y, SWAP[pred], xc)
            if pred in ('eq', 'ne'):
                a, b = (x, y) if x.id < y.id else (y, x)
                st.rel[(a, b, 'e')] = pred == 'eq'
                if pred == 'eq':
                    fx, fy = self.fact(st, x), self.fact(st, y)
                    f = self.norm((max(fx[0], fy[0]), min(fx[1], fy[1]), max(fx[2], fy[2]), min(fx[3], fy[3]), fx[4] | fy[4]), x.bits)
                    if f is None: return False
                    if f != default_fact(x):
                        st.facts[x] = f; st.facts[y] = f
                return True
            dom = pred[0]
            ok = self.relset(st, x, y, dom, frozenset(self.PR[pred[1:]]))
            if not ok: return False
            # interval propagation
            fx, fy = self.fact(st, x), self.fact(st, y)
            o = 2 if dom == 'u' else 0
            p = pred[1:]
            d = 0 if p in ('le', 'ge') else 1
            if p in ('lt', 'le'):
                return self.constrain(st, x, dom + 'le', fy[o + 1] - d) and self.constrain(st, y, dom + 'ge', fx[o] + d)
            return self.constrain(st, x, dom + 'ge', fy[o] + d) and self.constrain(st, y, dom + 'le', fx[o + 1] - d)
        if c.k == 'op':
            o = c.a[0]
            if o == 'not': return self.assume(st, c.a[1], not val)
            if o == 'and' and val or o == 'or' and not val:
                return self.assume(st, c.a[1], val) and self.assume(st, c.a[2], val)
            if o in ('and', 'or'):
                a, b = self.ev(st, c.a[1]), self.ev(st, c.a[2])
                if a is not None: return self.assume(st, c.a[2], val)
                if b is not None: return self.assume(st, c.a[1], val)
        return self.constrain(st, c, 'eq', int(val))

    # ---- fresh symbols
    def subst(self, st, m):
        """m: dict symbol->term replaced everywhere"""
        ks = set(m)
        memo = {}

        def r(x):
            if isinstance(x, T):
                if not (x.syms & ks): return x
                y = memo.get(x)
                if y is None:
                    if x in m: y = m[x]
                    elif x.k == 's': y = S(r(x.a[0]), x.bits)
                    elif x.k == 'p': y = P(r(x.a[0]), x.a[1], tuple((r(t), s) for t, s in x.a[2]))
                    elif x.k == 'cmp': y = _mk('cmp', (x.a[0], r(x.a[1]), r(x.a[2])), 1)
                    else: y = _mk('op', tuple(r(z) for z in x.a), x.bits)
                    memo[x] = y
                    if x in self.tags: self.tags.setdefault(y, self.tags[x])
                return y
            if isinstance(x, tuple): return tuple(r(z) for z in x)
            if isinstance(x, frozenset): return frozenset(r(z) for z in x)
            return x
        for f in st.frames:
            if any(v.syms & ks for v in f.env.values()):
                f.env = {k: r(v) for k, v in f.env.items()}
            f.argt = r(f.argt)
        st.mem = {r(k): r(v) for k, v in st.mem.items()}
        st.facts = {r(k): v for k, v in st.facts.items()}
        st.rel = {(r(k[0]), r(k[1]), k[2]): v for k, v in st.rel.items()}
        nr = {}
        for (a, b, d), v in st.rel.items():
            if b.id < a.id:
                a, b = b, a
                if d != 'e': v = frozenset({'<': '>', '>': '<', '=': '='}[c] for c in v)
            nr[(a, b, d)] = v
        st.rel = nr
        st.mon = {r(k): r(v) for k, v in st.mon.items()}

    def occurs(self, st, s):
        for f in st.frames:
            for v in f.env.values():
                if s in v.syms: return True
            for v in f.argt:
                if s in v.syms: return True
        for k, v in st.mem.items():
            for x in k:
                if isinstance(x, T) and s in x.syms: return True
            if isinstance(v, T) and s in v.syms: return True

        def deep(x):
            if isinstance(x, T): return s in x.syms
            if isinstance(x, (tuple, frozenset)): return any(deep(z) for z in x)
            return False
        for k, v in st.mon.items():
            if deep(k) or deep(v): return True
        return False

    def fresh(self, st, name, bits):
        s = S(name, bits)
        if self.occurs(st, s):
            old = S(('old', name), bits)
            if self.occurs(st, old):
                self.subst(st, {old: S(('old2', name), bits)})
            # facts about an older generation with the same name do not survive conflation
            self.subst(st, {s: old})
        for k in [k for k in st.facts if s in k.syms]: del st.facts[k]
        for k in [k for k in st.rel if s in k[0].syms or s in k[1].syms]: del st.rel[k]
        for k in [k for k in st.mem if any(isinstance(x, T) and s in x.syms for x in k)]: del st.mem[k]
        return s

    def ctx(self, st):
        return st.frames[-1].ctx

    def site(self, st, inst, kind):
        return (kind, st.frames[-1].ctx, inst.id)

    # ---- memory.  key = (base, off, dyn, size) ; also (base,'fill') and (base,'touched')
    @staticmethod
    def overlap(o1, d1, n1, o2, d2, n2):
        if d1 == d2:
            return o1 < o2 + n2 and o2 < o1 + n1
        g = 0
        from math import gcd
        for _, s in set(d1) ^ set(d2): g = gcd(g, abs(s))
        if g == 0: return True
        a = (o1 - o2) % g
        return not (a >= n2 and a + n1 <= g)

    def may(self, base, o1, d1, n1, o2, d2, n2):
        """may the two cells of region `base` overlap; an index into a sized array member stays inside that member"""
        if not self.overlap(o1, d1, n1, o2, d2, n2): return False
        if d1 != d2:
            for da, ob, db, nb in ((d1, o2, d2, n2), (d2, o1, d1, n1)):
                r = self.rng.get((base, da)) if da else None
                if r and not db and (ob >= r[1] or ob + nb <= r[0]): return False
        return True

    def load(self, st, ptr, size, bits, inst=None, ty=None):
        base, off, dyn = parts(ptr)
        key = (base, off, dyn, size)
        v = st.mem.get(key)
        if v is not None:
            return v if v.bits == bits else (cast('trunc', v, v.bits, bits) if v.bits > bits else v)
        gi = self.const_global(base, off, dyn, size, bits, st)
        if gi is not None:
            return gi
        partial = False
        if size > 1 and (base, off, dyn, 1) in st.mem:
            v = self.assemble(st, base, off, dyn, size, bits)
            if v is not None:
                st.mem[key] = v
                return v
        for k in list(st.mem):
            if k[0] is base and len(k) == 4 and self.may(base, k[1], k[2], k[3], off, dyn, size):
                if not k[2] and not dyn and k[1] <= off and off + size <= k[1] + k[3]:
                    # narrower view of a wider cell
                    w = st.mem[k]
                    sh = (off - k[1]) * 8
                    t = binop('lshr', w, C(sh, w.bits), w.bits) if sh else w
                    return cast('trunc', t, t.bits, bits) if bits < t.bits else t
                if st.mem[k] is not S(('ld', P(base, k[1], k[2])), st.mem[k].bits): partial = True  # a cell only read so far holds the initial contents
        fills = st.mem.get((base, 'fill'), ())
        if not partial:
            for (fo, fn, fv) in reversed(fills):
                if fn is None and off >= fo or (fn is not None and not dyn and fo <= off and off + size <= fo + fn) or \
                        (fn is not None and dyn and off >= fo and fv == 'zero' and fo + fn > off and all(t.k for t, _ in dyn)):
                    if fv == 'zero':
                        v = C(0, bits)
                        break
                    if fv == 'undef':
                        v = S(('undef', P(base, off, dyn)), bits)
                        break
        if v is None:
            name = ('ld', P(base, off, dyn)) if not partial else ('ldp', P(base, off, dyn))
            v = S(name, bits)
            if v.depth > self.MAXDEPTH and inst is not None:
                v = self.fresh(st, self.site(st, inst, 'lw'), bits)
            elif partial:
                v = self.fresh(st, name, bits) if inst is None else self.fresh(st, self.site(st, inst, 'lp'), bits)
            else:
                # a stale symbol with that name may survive if the cell was killed: keep it only when never observed
                pass
        st.mem[(base, off, dyn, size)] = v
        return v

    def assemble(self, st, base, off, dyn, size, bits):
        """a value written byte by byte"""
        bs = [st.mem.get((base, off + i, dyn, 1)) for i in range(size)]
        if any(b is None or b.bits != 8 for b in bs): return None
        if all(b.k == 'c' for b in bs): return C(sum(cv(b) << (8 * i) for i, b in enumerate(bs)), bits)
        w = None
        for i, b in enumerate(bs):
            if b.k != 'op' or b.a[0] != 'trunc': return None
            x = b.a[1]
            if i:
                if x.k != 'op' or x.a[0] != 'lshr' or x.a[2].k != 'c' or cv(x.a[2]) != 8 * i: return None
                x = x.a[1]
            if w is None: w = x
            if x is not w: return None
        return w if w.bits == bits else None

    def const_global(self, base, off, dyn, size, bits, st):
        if base.k != 's' or not isinstance(base.a[0], tuple) or base.a[0][0] != 'g' or dyn: return None
        _, gname, unit = base.a[0]
        u = self.prog.units.get(unit)
        if u is None: return None
        g = u.globals.get(gname)
        if g is None or g['init'] is None or not (g['const'] or self.never_stored(unit, gname)): return None
        return self.init_at(u, g['ty'], g['init'], off, size, bits)

    _stored = None

    def never_stored(self, unit, gname):
        """internal global that no instruction stores to and whose address only feeds loads/GEPs/calls -> conservative: const only"""
        return False

    def init_at(self, u, ty, init, off, size, bits):
        ty = u.types.resolve(ty)
        if init[0] == 'zero': return C(0, bits)
        if ty[0] in ('i', 'ptr', 'double', 'float'):
            if off or u.types.size(ty) < size: return None
            if init[0] == 'fp': return S(('fp', init[1]), bits)
            if init[0] in ('int', 'glob', 'cgep', 'ccast'):
                v = self.operand_const(u, init)
                return v if v is None or v.bits == bits else C(cv(v), bits) if v.k == 'c' else v
            return None
        if ty[0] == 'arr':
            es = u.types.size(ty[2])
            i, r = divmod(off, es) if es else (0, 0)
            if init[0] == 'str':
                if size == 1 and i < len(init[1]): return C(init[1][i], 8)
                return None
            if init[0] == 'agg' and i < len(init[1]):
                return self.init_at(u, init[1][i][0], init[1][i][1], r, size, bits)
            return None
        if ty[0] == 'struct' and init[0] == 'agg':
            offs, tot = u.types.layout(ty)
            for k in range(len(offs) - 1, -1, -1):
                if offs[k] <= off:
                    return self.init_at(u, init[1][k][0], init[1][k][1], off - offs[k], size, bits)
        return None

    def operand_const(self, u, v):
        k = v[0]
        if k == 'int': return C(v[1], v[2])
        if k == 'glob': return self.globsym(u, v[1])
        if k == 'cgep':
            b = self.operand_const(u, v[2])
            return self.gep(u, v[1], b, [(t, self.operand_const(u, x)) for t, x in v[3]])[0]
        if k == 'ccast': return self.operand_const(u, v[3])
        if k == 'zero': return C(0, bits_of(v[1]))
        return None

    def globsym(self, u, name):
        n = name[1:].strip('"')
        f = self.prog.lookup(n, u)
        if f is not None or (name not in u.globals):
            return S(('fn', n, u.src if f is not None and f.internal else ''), 64)
        g = u.globals[name]
        if g['internal']: return S(('g', name, u.src[4:]), 64)
        if g['init'] is None:
            for b, uu in self.prog.units.items():
                if name in uu.globals and uu.globals[name]['init'] is not None: return S(('g', name, b), 64)
            return S(('g', name, ''), 64)
        return S(('g', name, u.src[4:]), 64)

    def cstring(self, t):
        """bytes of a constant string pointer or None"""
        b, off, dyn = parts(t)
        if dyn or b.k != 's' or not isinstance(b.a[0], tuple) or b.a[0][0] != 'g': return None
        u = self.prog.units.get(b.a[0][2])
        if not u: return None
        g = u.globals.get(b.a[0][1])
        if not g or not g['init'] or g['init'][0] not in ('str', 'zero'): return None
        if g['init'][0] == 'zero': return b''
        s = g['init'][1][off:]
        i = s.find(b'\0')
        return s[:i] if i >= 0 else s

    def store(self, st, ptr, val, size):
        base, off, dyn = parts(ptr)
        for k in list(st.mem):
            if k[0] is base and len(k) == 4 and self.may(base, k[1], k[2], k[3], off, dyn, size):
                if (k[1], k[2], k[3]) == (off, dyn, size): continue
                old = st.mem[k]
                if k[2] == dyn and not (k[1] >= off and k[1] + k[3] <= off + size):
                    # partial overwrite of a wider cell: keep bitfield-like combinations opaque
                    st.mem[k] = S(('pw', old, val, off), old.bits) if old.depth < 6 and val.depth < 6 else S(('pw', P(base, k[1], k[2])), old.bits)
                elif k[2] == dyn:
                    del st.mem[k]
                else:
                    st.mem[k] = S(('al', P(base, k[1], k[2]), val if val.depth < 4 else 0), old.bits)
        st.mem[(base, off, dyn, size)] = val

    def havoc(self, st, ptr, inst, tagname='hv', whole=True):
        """contents reachable directly at ptr's region become unknown"""
        base = base_of(ptr)
        if base.k == 'c': return
        for k in list(st.mem):
            if k[0] is base and len(k) == 4:
                old = st.mem[k]
                st.mem[k] = self.fresh(st, (tagname, st.frames[-1].ctx, inst.id, k[1], k[2], k[3], base), old.bits)
        if (base, 'fill') in st.mem: del st.mem[(base, 'fill')]

    def fill(self, st, ptr, n, what):
        base, off, dyn = parts(ptr)
        for k in list(st.mem):
            if k[0] is base and len(k) == 4:
                if n is None and not dyn and k[1] >= off: del st.mem[k]
                elif n is not None and self.may(base, k[1], k[2], k[3], off, dyn, n): del st.mem[k]
        if dyn: return
        old = st.mem.get((base, 'fill'), ())
        new = tuple(x for x in old if not (n is not None and x[1] is not None and off <= x[0] and x[0] + x[1] <= off + n) and not (n is None and x[0] >= off))
        st.mem[(base, 'fill')] = new + ((off, n, what),)

    # ---- operands
    def val(self, st, v, ty=None):
        fr = st.frames[-1]
        k = v[0]
        if k == 'reg':
            t = fr.env.get(v[1])
            if t is None:
                t = S(('noreg', fr.ctx, v[1]), bits_of(ty) if ty else 64)
            return t
        if k == 'int': return C(v[1], v[2])
        if k == 'glob': return self.globsym(fr.fn.unit, v[1])
        if k in ('cgep', 'ccast'):
            return self.operand_const(fr.fn.unit, v)
        if k == 'zero': return C(0, bits_of(v[1]))
        if k == 'fp': return S(('fp', v[1]), 64)
        if k == 'undef': return S(('undefv', fr.ctx), bits_of(ty) if ty else 64)
        return S(('agg', fr.ctx, str(v)[:80]), 64)

    def gep(self, u, src, base, idx):
        types = u.types
        off, dyn = 0, []
        cur = src
        tag = box = None
        arr = 0
        for n, (ity, iv) in enumerate(idx):
            if n == 0:
                sz = types.size(cur)
            else:
                r = types.resolve(cur)
                if r[0] == 'struct':
                    k = cv(iv)
                    off += types.layout(cur)[0][k]
                    if cur[0] == 'named':
                        names = u.fieldnames.get(cur[1])
                        tag = (cur[1], names[k] if names and k < len(names) else '#%d' % k)
                    cur = r[1][k]
                    continue
                cur = r[2]
                arr, offa = r[1], off
                sz = types.size(cur)
            if iv.k == 'c':
                off += sgn(cv(iv), iv.bits) * sz
            else:
                t = iv
                # split t = x + c
                while t.k == 'op' and t.a[0] in ('sext', 'zext') and t.a[1].k == 'op' and t.a[1].a[0] == 'add' and t.a[1].a[2].k == 'c' and False:
                    pass
                if t.k == 'op' and t.a[0] == 'add' and t.a[2].k == 'c':
                    off += sgn(cv(t.a[2]), t.bits) * sz
                    t = t.a[1]
                if t.k == 'op' and t.a[0] == 'mul' and t.a[2].k == 'c':
                    sz *= sgn(cv(t.a[2]), t.bits)
                    t = t.a[1]
                dyn.append((t, sz))
                if n and arr > 1: box = (offa, offa + arr * types.size(cur))
        p = P(base, off, tuple(dyn))
        if box and len(dyn) == 1 and p.k == 'p' and len(p.a[2]) == 1:
            bb, bo, _ = parts(base)
            lo, hi = box[0] + bo, box[1] + bo
            k = (bb, p.a[2])
            if k in self.rng: lo, hi = min(lo, self.rng[k][0]), max(hi, self.rng[k][1])
            self.rng[k] = (lo, hi)
        if tag and p not in self.tags: self.tags[p] = tag
        return p, tag

    def tag_of(self, st, ptrop, ptr):
        fr = st.frames[-1]
        if ptrop[0] == 'reg':
            d = fr.fn.defs.get(ptrop[1])
            if d is not None and d.op == 'getelementptr':
                u = fr.fn.unit
                cur = d.ty
                tag = None
                for n, (ity, iv) in enumerate(d.a[1]):
                    if n == 0: continue
                    r = u.types.resolve(cur)
                    if r[0] == 'struct':
                        k = iv[1]
                        if cur[0] == 'named':
                            names = u.fieldnames.get(cur[1])
                            tag = (cur[1], names[k] if names and k < len(names) else '#%d' % k)
                        cur = r[1][k]
                    else:
                        cur = r[2]
                if tag: return tag
        return self.tags.get(ptr)

    # ---- running
    def run(self, fn, args=None, mon=None, setup=None):
        st = St()
        st.frames, st.mem, st.facts, st.rel, st.mon, st.trace, st.visits, st.dead = [], {}, {}, {}, dict(mon or {}), None, {}, False
        fr = Frame()
        fr.fn, fr.block, fr.idx, fr.call, fr.ctx = fn, fn.entry, 0, None, (fn.name,)
        fr.env = {}
        fr.argt = ()
        at = []
        for i, (p, t) in enumerate(zip(fn.params, fn.paramtys)):
            v = None
            if args and i < len(args): v = args[i]
            if v is None: v = S(('arg', i, p), bits_of(t))
            fr.env[p] = v
            at.append(v)
        fr.argt = tuple(at)
        st.frames.append(fr)
        self.work = [st]
        self.seen = {}
        self.stat_funcs.add(fn.name)
        if setup: setup(self, st)
        while self.work:
            s = self.work.pop()
            self.advance(s)

    def enter(self, st, tgt):
        """move to block tgt of the current frame; False if the state was already covered"""
        fr = st.frames[-1]
        src = fr.block
        b = fr.fn.blocks[tgt]
        new = {}
        back = b.header and src.name in fr.fn.loops.get(tgt, ())
        vk = (fr.ctx, tgt)
        nv = st.visits.get(vk, 0) + 1
        st.visits[vk] = nv
        if not back and b.header:
            # entering the loop afresh: inner visit counts restart
            for n in fr.fn.loops[tgt]:
                st.visits.pop((fr.ctx, n), None)
            st.visits[vk] = 1
        vals = []
        for ph in b.phis:
            v = None
            for x, pb in ph.a:
                if pb == src.name: v = self.val(st, x, ph.ty)
            vals.append(v)
        if back and self.on_phi:
            self.on_phi(self, st, b, [(ph, fr.env.get(ph.res), v) for ph, v in zip(b.phis, vals)])
            if st.dead: return False
        wid = []
        for ph, v in zip(b.phis, vals):
            if back and ph.res in fr.fn.widen and not (self.unroll and nv <= self.unroll and self.concrete(v)):
                wid.append(ph)
            else:
                new[ph.res] = v
        keep = {r: fr.env[r] for r in b.live_in if r in fr.env}
        fr.env = keep
        fr.env.update(new)
        for ph in wid:
            fr.env[ph.res] = self.fresh(st, ('phi', fr.ctx, ph.id), bits_of(ph.ty))
        if back and self.on_phi2: self.on_phi2(self, st, b, {ph.id: fr.env[ph.res] for ph in b.phis})
        if back and self.forget_old:
            for k in [k for k in st.mem if len(k) == 4 and any(isinstance(y.a[0], tuple) and y.a[0] and y.a[0][0] in ('old', 'old2') for t, _ in k[2] for y in t.syms)]:
                del st.mem[k]
        fr.block = b
        fr.idx = 0
        if len(b.preds) > 1 or b.header:
            return self.record(st)
        return True

    def record(self, st):
        self.gc(st)
        loc = tuple((f.ctx, f.block.name, f.idx) for f in st.frames)
        mk = frozenset(st.mon.items())
        key = (frozenset(st.mem.items()), frozenset(st.facts.items()), frozenset(st.rel.items()),
               tuple(frozenset(f.env.items()) for f in st.frames))
        d = self.seen.setdefault((loc, mk), {})
        if key in d: return False
        if len(d) >= self.K:
            # join with everything seen at this point
            j = d.get('join')
            if j is None:
                j = self.snapshot(st)
                d['join'] = j
                ch = True
            else:
                j2 = self.join(j, st)
                ch = j2 != j
                d['join'] = j = j2
                if not ch: return False
            mem, facts, rel, envs = j
            st.mem, st.facts, st.rel = dict(mem), dict(facts), dict(rel)
            for f, e in zip(st.frames, envs):
                f.env = dict(e)
            self.joined = True
            return True
        d[key] = True
        return True

    joined = False
    unroll = 0               # loop variables with constant values are followed that many iterations instead of being widened

    @staticmethod
    def concrete(v):
        return v.k == 'c' or v.k == 'p' and not parts(v)[2] and isinstance(parts(v)[0].a[0], tuple) and parts(v)[0].a[0][:1] == ('g',)

    RECURSE = 1              # how often a function may occur on the stack before a further call is not followed
    split_bool = False       # a truth value used as a number is followed as 0 and as 1
    widen_arith = True       # results of arithmetic in a loop become unknown after a few iterations (counters kept in memory)
    forget_old = False       # on back edges drop array cells indexed by earlier generations of a loop variable
    on_phi2 = None           # (eng, st, block, {phi id: value after widening}) on every back edge
    on_phi = None            # (eng, st, block, [(phi, old term or None, new term)]) on every back edge

    def snapshot(self, st):
        return (dict(st.mem), dict(st.facts), dict(st.rel), [dict(f.env) for f in st.frames])

    def join(self, j, st):
        mem, facts, rel, envs = j
        m2 = {}
        for k, v in mem.items():
            w = st.mem.get(k)
            if w is v: m2[k] = v
            elif w is not None and isinstance(v, T) and len(k) == 4: m2[k] = S(('join', k[0], k[1], k[2], k[3]), v.bits)
            elif w == v: m2[k] = v
        f2 = {}
        for k, v in facts.items():
            w = st.facts.get(k)
            if w == v: f2[k] = v
            elif w: f2[k] = (min(v[0], w[0]), max(v[1], w[1]), min(v[2], w[2]), max(v[3], w[3]), v[4] & w[4])
        r2 = {}
        for k, v in rel.items():
            w = st.rel.get(k)
            if w is None: continue
            if w == v: r2[k] = v
            elif k[2] != 'e': r2[k] = v | w
        e2 = []
        for e, f in zip(envs, st.frames):
            x = {}
            for k, v in e.items():
                w = f.env.get(k)
                x[k] = v if w is v else S(('joinr', f.ctx, k), v.bits)
            e2.append(x)
        return (m2, f2, r2, e2)

    def gc(self, st):
        live = set()
        for f in st.frames:
            for v in f.env.values(): live |= v.syms
            for v in f.argt: live |= v.syms

        def deep(x):
            if isinstance(x, T): live.update(x.syms)
            elif isinstance(x, (tuple, frozenset)):
                for z in x: deep(z)
        for k, v in st.mon.items():
            deep(k); deep(v)
        # regions reachable
        ch = True
        pend = dict(st.mem)
        kept = {}
        while ch:
            ch = False
            for k in list(pend):
                b = k[0]
                ok = (b in live) or (b.k == 's' and isinstance(b.a[0], tuple) and b.a[0][0] == 'g') or b.k != 's' and b.syms & live
                if ok:
                    v = pend.pop(k)
                    kept[k] = v
                    if isinstance(v, T) and not (v.syms <= live):
                        live |= v.syms; ch = True
                    if len(k) == 4:
                        for t, _ in k[2]:
                            if not (t.syms <= live): live |= t.syms; ch = True
        if pend: st.mem = kept
        dead = [k for k in st.facts if not (k.syms <= live)]
        for k in dead: del st.facts[k]
        dead = [k for k in st.rel if not (k[0].syms <= live and k[1].syms <= live)]
        for k in dead: del st.rel[k]

    def advance(self, st):
        while True:
            self.steps += 1
            if self.steps > self.MAXSTEPS:
                raise Truncated("step budget exhausted in %s" % st.frames[0].fn.name)
            if not self.steps & 1023 and (time.time() > self.DEADLINE or resource.getrusage(resource.RUSAGE_SELF).ru_maxrss > 6 << 20):
                raise Truncated("time or memory budget exhausted in %s" % st.frames[0].fn.name)
            fr = st.frames[-1]
            inst = fr.block.body[fr.idx]
            op = inst.op
            if op == 'br':
                c, labels = inst.a
                if c is None:
                    if not self.enter(st, labels[0]): return
                    continue
                t = self.val(st, c, ('i', 1))
                v = self.ev(st, t)
                if v is None:
                    s2 = st.fork()
                    if self.assume(s2, t, False):
                        if self.on_branch: self.on_branch(self, s2, inst, t, False)
                        if not s2.dead and self.enter(s2, labels[1]): self.work.append(s2)
                    if not self.assume(st, t, True): return
                    if self.on_branch: self.on_branch(self, st, inst, t, True)
                    if st.dead: return
                    if not self.enter(st, labels[0]): return
                    continue
                if not self.enter(st, labels[0] if v else labels[1]): return
                continue
            if op == 'switch':
                v, dflt, cases = inst.a
                t = self.val(st, v, inst.ty)
                c = self.eqc(st, t)
                if c is not None:
                    tgt = dflt
                    for k, lab in cases:
                        if k[1] & ((1 << t.bits) - 1) == c: tgt = lab
                    if not self.enter(st, tgt): return
                    continue
                for k, lab in cases:
                    s2 = st.fork()
                    if self.assume(s2, icmp('eq', t, C(k[1], t.bits)), True) and self.enter(s2, lab):
                        self.work.append(s2)
                for k, lab in cases:
                    if not self.assume(st, icmp('ne', t, C(k[1], t.bits)), True): return
                if not self.enter(st, dflt): return
                continue
            if op == 'ret':
                v = self.val(st, inst.a, inst.ty) if inst.a is not None else None
                if not self.do_ret(st, v, inst): return
                continue
            if op == 'unreachable':
                return
            if op == 'call':
                r = self.do_call(st, inst)
                if r is False: return
                continue
            if op == 'select':
                c, x, y = inst.a
                t = self.val(st, c, ('i', 1))
                v = self.ev(st, t)
                if v is None:
                    s2 = st.fork()
                    if self.assume(s2, t, False):
                        f2 = s2.frames[-1]
                        f2.env[inst.res] = self.val(s2, y, inst.ty); f2.idx += 1
                        self.work.append(s2)
                    if not self.assume(st, t, True): return
                    v = True
                fr.env[inst.res] = self.val(st, x if v else y, inst.ty)
                fr.idx += 1
                continue
            if op in ('zext', 'sext') and self.split_bool and inst.a[0] == ('i', 1):
                t = self.val(st, inst.a[1], ('i', 1))
                v = self.ev(st, t)
                nb, one = bits_of(inst.ty), 1 if op == 'zext' else -1
                if v is not None:
                    fr.env[inst.res] = C(one if v else 0, nb)
                    fr.idx += 1
                    continue
                if t.k != 's':
                    s2 = st.fork()
                    if self.assume(s2, t, False):
                        f2 = s2.frames[-1]
                        f2.env[inst.res] = C(0, nb); f2.idx += 1
                        self.work.append(s2)
                    if not self.assume(st, t, True): return
                    fr.env[inst.res] = C(one, nb)
                    fr.idx += 1
                    continue
            self.simple(st, inst)
            if st.dead: return
            st.frames[-1].idx += 1

    def simple(self, st, inst):
        fr = st.frames[-1]
        op = inst.op
        u = fr.fn.unit
        if op == 'alloca':
            p = S(('a', fr.ctx, inst.res), 64)
            for k in [k for k in st.mem if k[0] is p]: del st.mem[k]
            st.mem[(p, 'fill')] = ((0, None, 'undef'),)
            fr.env[inst.res] = p
        elif op == 'load':
            ptr = self.val(st, inst.a, ('ptr',))
            tag = self.tag_of(st, inst.a, ptr)
            if self.on_load:
                self.on_load(self, st, inst, ptr, tag)
                if st.dead: return
            fr.env[inst.res] = self.load(st, ptr, u.types.size(inst.ty), bits_of(inst.ty), inst)
        elif op == 'store':
            v = self.val(st, inst.a[0], inst.ty)
            ptr = self.val(st, inst.a[1], ('ptr',))
            tag = self.tag_of(st, inst.a[1], ptr)
            if self.on_store:
                r = self.on_store(self, st, inst, ptr, v, tag)
                if isinstance(r, T): v = r
                if st.dead: return
            self.store(st, ptr, v, u.types.size(inst.ty))
        elif op == 'getelementptr':
            b = self.val(st, inst.a[0], ('ptr',))
            idx = [(t, self.val(st, x, t)) for t, x in inst.a[1]]
            idx2 = []
            for t, x in idx:
                c = self.eqc(st, x) if x.k != 'c' else None
                idx2.append((t, C(c, x.bits) if c is not None and x.k in ('s',) and False else x))
            p, tag = self.gep(u, inst.ty, b, idx2)
            if p.depth > self.MAXDEPTH:
                p = self.fresh(st, self.site(st, inst, 'gw'), 64)
            fr.env[inst.res] = p
        elif op in ('icmp',):
            pred, x, y = inst.a
            x, y = self.val(st, x, inst.ty), self.val(st, y, inst.ty)
            fr.env[inst.res] = icmp(pred, x, y)
        elif op == 'fcmp':
            pred, x, y = inst.a
            fr.env[inst.res] = _mk('cmp', ('f' + pred, self.val(st, x, inst.ty), self.val(st, y, inst.ty)), 1)
        elif op in BIN:
            x, y = (self.val(st, z, inst.ty) for z in inst.a)
            n = bits_of(inst.ty)
            if op[0] == 'f':
                r = _mk('op', (op, x, y), n)
            else:
                r = binop(op, x, y, n)
            if r.depth > self.MAXDEPTH or (self.widen_arith and inst.block.inloop and st.visits.get((fr.ctx, inst.block.name), self.loopvisits(st, fr)) >= self.WIDEN_VISITS and n > 1 and not (self.unroll and r.k == 'c') and not self.eq_arith(x, y)):
                r = self.fresh(st, self.site(st, inst, 'bw'), n)
            fr.env[inst.res] = r
        elif op in CAST:
            frm, x = inst.a
            x = self.val(st, x, frm)
            nb, fb = bits_of(inst.ty), bits_of(frm)
            if op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast'):
                fr.env[inst.res] = cast(op, x, fb, nb)
            else:
                fr.env[inst.res] = _mk('op', (op, x), nb)
        elif op == 'freeze':
            fr.env[inst.res] = self.val(st, inst.a, inst.ty)
        elif inst.res:
            fr.env[inst.res] = self.fresh(st, self.site(st, inst, 'x'), bits_of(inst.ty) or 64)

    def loopvisits(self, st, fr):
        return max([st.visits.get((fr.ctx, h), 0) for h in fr.fn.loops if fr.block.name in fr.fn.loops[h]] + [0])

    def eq_arith(self, x, y):
        """one step from an (already widened) loop variable is bounded"""
        return (x.k == 's' and y.k == 'c' and x.a[0][0] == 'phi') if x.k == 's' and isinstance(x.a[0], tuple) else False

    def bind(self, st, inst, ret):
        fr = st.frames[-1]
        if inst.res and ret is not None:
            n = bits_of(inst.ty)
            if ret.bits != n and ret.k == 'c': ret = C(cv(ret), n)
            fr.env[inst.res] = ret
        elif inst.res:
            fr.env[inst.res] = self.fresh(st, self.site(st, inst, 'r'), bits_of(inst.ty))
        fr.idx += 1

    def callee(self, st, inst):
        c = inst.a[0]
        if c[0] == 'glob': return c[1][1:].strip('"'), self.prog.lookup(c[1][1:].strip('"'), st.frames[-1].fn.unit)
        t = self.val(st, c, ('ptr',))
        if t.k == 's' and isinstance(t.a[0], tuple) and t.a[0][0] == 'fn':
            n, us = t.a[0][1], t.a[0][2]
            f = self.prog.units[us[4:]].funcs.get(n) if us else self.prog.glob.get(n)
            return n, f
        return None, None

    def do_call(self, st, inst):
        name, f = self.callee(st, inst)
        args = [self.val(st, v, t) for t, v in inst.a[1]]
        self.stat_calls.add(inst.id)
        if self.on_call:
            r = self.on_call(self, st, inst, name, args)
            if st.dead: return False
            if r is not None:
                return self.alts(st, inst, r)
        if f is not None and name not in self.opaque and len(st.frames) < self.INLINE_DEPTH and sum(x.fn is f for x in st.frames) < self.RECURSE and not f.name.startswith('XXH'):
            self.push(st, inst, f, args)
            return True
        m = self.models.get(name)
        if m is not None:
            r = m(self, st, inst, args)
            if r is not None:
                return self.alts(st, inst, r)
        if name and name.startswith('llvm.'):
            self.bind(st, inst, None)
            return True
        self.default_call(st, inst, name, args)
        self.bind(st, inst, None)
        return True

    def default_call(self, st, inst, name, args):
        if name in READONLY: return
        for i, a in enumerate(args):
            if a.bits == 64 and a.k != 'c':
                self.havoc(st, a, inst, 'hv')

    def alts(self, st, inst, r):
        """r: list of (state, ret)"""
        if not r: return False
        for s, ret in r[1:]:
            self.bind(s, inst, ret)
            self.work.append(s)
        s, ret = r[0]
        self.bind(s, inst, ret)
        if s is not st:
            self.work.append(s)
            return False
        return True

    def push(self, st, inst, f, args):
        fr = st.frames[-1]
        live = live_after(inst)
        fr2 = fr.copy()
        fr2.env = {k: v for k, v in fr.env.items() if k in live}
        st.frames[-1] = fr2
        n = Frame()
        n.fn, n.block, n.idx, n.call = f, f.entry, 0, inst
        n.ctx = fr.ctx + (inst.id,)
        n.env = {}
        n.argt = tuple(args)
        for i, p in enumerate(f.params):
            n.env[p] = args[i] if i < len(args) else S(('noarg', i), 64)
        st.frames.append(n)
        self.stat_funcs.add(f.name)
        for k in [k for k in st.visits if k[0][:len(n.ctx)] == n.ctx]: del st.visits[k]
        if self.on_enter: self.on_enter(self, st, n)

    on_enter = None

    def do_ret(self, st, v, inst):
        fr = st.frames[-1]
        if self.on_ret:
            r = self.on_ret(self, st, fr, v, inst)
            if st.dead: return False
        if len(st.frames) == 1:
            self.stat_paths += 1
            if self.on_exit: self.on_exit(self, st, v, 'ret', inst)
            return False
        st.frames.pop()
        # dead stack regions
        for k in [k for k in st.mem if k[0].k == 's' and isinstance(k[0].a[0], tuple) and k[0].a[0][0] == 'a' and k[0].a[0][1] == fr.ctx]:
            del st.mem[k]
        caller = st.frames[-1].copy()
        st.frames[-1] = caller
        self.bind(st, fr.call, v)
        return self.record(st)


_la = {}


def live_after(inst):
    s = _la.get(inst.id)
    if s is None:
        from ir import operands
        b = inst.block
        s = set()
        for x in b.succs:
            sb = b.fn.blocks[x]
            s |= sb.live_in
            for ph in sb.phis:
                for v, pb in ph.a:
                    if pb == b.name and v[0] == 'reg': s.add(v[1])
        i = b.body.index(inst)
        for x in b.body[i + 1:]:
            s |= set(operands(x))
        _la[inst.id] = s
    return s


# ---------------------------------------------------------------- models of library calls
READONLY = set("""memcmp strlen strcmp strncmp strcasecmp strncasecmp strchr strrchr strstr printf fprintf puts fputs fflush putchar
apr_psprintf apr_file_name_get apr_strerror isatty apr_dir_close apr_dir_open apr_thread_mutex_lock apr_thread_mutex_unlock
apr_thread_mutex_trylock apr_thread_mutex_destroy apr_thread_cond_signal apr_thread_cond_broadcast apr_thread_cond_destroy
apr_proc_mutex_lock apr_proc_mutex_unlock apr_proc_mutex_trylock apr_file_lock apr_file_unlock apr_file_close apr_file_eof apr_file_remove
apr_pool_create_ex apr_pool_clear apr_pool_destroy apr_pool_cleanup_register apr_palloc apr_pcalloc apr_pstrdup apr_pstrmemdup apr_pstrcat apr_pstrndup
msync fsync fdatasync ftruncate close access free strdup strtol strtoul strtod apr_atoi64 apr_strtoff atoi strtoull strtoll
pcre_exec pcre_free apr_array_push apr_terminate apr_file_sync apr_file_datasync apr_file_seek_ro write apr_file_write_full_ro
puzzle_vector_normalized_distance puzzle_vector_euclidean_length json_array_append_new json_object_set_new json_string json_integer json_real
json_object json_array json_decref umask unlink mkstemp_ro apr_time_now apr_dir_remove apr_file_inherit_unset
archive_read_support_format_all archive_read_support_filter_all archive_entry_pathname archive_entry_size archive_error_string
archive_entry_set_pathname archive_read_free archive_write_free archive_read_data_skip abs fabs tolower toupper isdigit isspace __ctype_b_loc
__ctype_tolower_loc __errno_location getpid getppid kill apr_thread_join apr_thread_create pthread_create json_dumpf json_dumps""".split())


def m_palloc(zero, argi):
    def m(eng, st, inst, args):
        p = eng.fresh(st, ('h', st.frames[-1].ctx, inst.id), 64)
        st.mem[(p, 'fill')] = ((0, None, 'zero' if zero else 'undef'),)
        return [(st, p)]
    return m


def m_malloc(zero):
    def m(eng, st, inst, args):
        s2 = st.fork()
        p = eng.fresh(st, ('h', st.frames[-1].ctx, inst.id), 64)
        st.mem[(p, 'fill')] = ((0, None, 'zero' if zero else 'undef'),)
        return [(st, p), (s2, NULL)]
    return m


def m_copyalloc(eng, st, inst, args):
    """apr_pstrdup & co.: a new readable region, provenance kept in the name"""
    p = eng.fresh(st, ('h', st.frames[-1].ctx, inst.id), 64)
    return [(st, p)]


def m_memset(eng, st, inst, args):
    n = eng.eqc(st, args[2])
    v = eng.eqc(st, args[1])
    if eng.on_store: eng.on_store(eng, st, inst, args[0], args[1], None)
    if v == 0:
        eng.fill(st, args[0], n, 'zero')
    else:
        eng.fill(st, args[0], n, 'other')
    return [(st, args[0])]


def m_memcpy(eng, st, inst, args):
    dst, src, ln = args[0], args[1], args[2]
    if eng.on_store: eng.on_store(eng, st, inst, dst, S(('memcpy', src) if src.depth < 8 else ('memcpy',), 64), None)
    n = eng.eqc(st, ln)
    sb, so, sd = parts(src)
    db, do, dd = parts(dst)
    if n is None:
        eng.havoc(st, dst, inst, 'cp')
        return [(st, dst)]
    copy = []
    for k, v in list(st.mem.items()):
        if k[0] is sb and len(k) == 4 and k[2] == sd and k[1] >= so and k[1] + k[3] <= so + n:
            copy.append((k[1] - so, k[3], v))
    if not copy and not sd and n <= 1024 and sb.k == 's' and isinstance(sb.a[0], tuple) and sb.a[0][0] == 'g':
        o = 0
        while o < n:                         # initial values of a constant table
            for sz in (8, 4, 2, 1):
                if o % sz or o + sz > n: continue
                v = eng.const_global(sb, so + o, (), sz, sz * 8, st)
                if v is not None: copy.append((o, sz, v)); break
            else: sz = 1
            o += sz
    fills = st.mem.get((sb, 'fill'), ())
    eng.fill(st, dst, n, 'other')
    for (fo, fn, fv) in fills:
        if not sd and not dd and fv in ('zero', 'undef') and fo <= so and (fn is None or fo + fn >= so + n):
            st.mem[(db, 'fill')] = st.mem.get((db, 'fill'), ()) + ((do, n, fv),)
    for o, sz, v in copy:
        st.mem[(db, do + o, dd, sz)] = v
    return [(st, dst)]


def m_noreturn(eng, st, inst, args):
    eng.stat_paths += 1
    if eng.on_exit: eng.on_exit(eng, st, args[0] if args else None, 'exit', inst)
    return []


def m_abort(eng, st, inst, args):
    return []


DEFAULT_MODELS = {
    'apr_palloc': m_palloc(False, 1), 'apr_pcalloc': m_palloc(True, 1),
    'malloc': m_malloc(False), 'calloc': m_malloc(True),
    'apr_pstrdup': m_copyalloc, 'apr_psprintf': m_copyalloc, 'apr_pstrmemdup': m_copyalloc, 'apr_pstrndup': m_copyalloc, 'apr_pstrcat': m_copyalloc,
    'memset': m_memset, 'llvm.memset.p0.i64': m_memset,
    'memcpy': m_memcpy, 'llvm.memcpy.p0.p0.i64': m_memcpy, 'memmove': m_memcpy, 'llvm.memmove.p0.p0.i64': m_memcpy,
    'exit': m_noreturn, '_exit': m_noreturn, 'abort': m_abort, '__assert_fail': m_abort,
}
