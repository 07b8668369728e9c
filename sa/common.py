"""Shared rule infrastructure: reporting, coverage, library models."""
import os, sys, json, time
import ir
from ir import AnalysisBroken, Truncated
from engine import *
from engine import _mk

APR_SUCCESS = 0


class Ctx:
    """one property check run"""
    def __init__(self, pid, prog):
        self.pid, self.prog = pid, prog
        self.viol = {}
        self.ob = []            # obligations (kind, where)
        self.funcs = set()
        self.callsites = set()
        self.paths = 0
        self.steps = 0
        self.notes = []
        self.undecided = []
        self.counts = {}

    def violation(self, key, rule, msg, inst=None, fn=None, st=None):
        if key in self.viol: return
        f = inst.fn if inst is not None else fn
        self.viol[key] = dict(key=key, rule=rule, message=msg,
                              file=(inst.file if inst is not None else f.file if f is not None else ''),
                              line=(inst.line if inst is not None else f.line if f is not None else 0),
                              function=f.name if f is not None else '',
                              trace=[list(x) for x in st.tracelist()] if st is not None else [],
                              stack=[(fr.fn.name, fr.call.line if fr.call is not None else 0) for fr in st.frames] if st is not None else [])

    def oblig(self, rule, where):
        self.ob.append((rule, where))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def need(self, name, least=1):
        """a rule that matched nothing decided nothing: that is said, and is fatal when no rule matched anything"""
        if self.counts.get(name, 0) < least:
            self.undecided.append("rule instance '%s' matched %d sites (expected at least %d)" % (name, self.counts.get(name, 0), least))

    def engine(self, **kw):
        m = kw.get('models')
        if m and 'apr_hash_this' in m:
            for i, n in ((1, 'apr_hash_this_key'), (2, 'apr_hash_this_key_len'), (3, 'apr_hash_this_val')):
                if n not in m: m = dict(m, **{n: this_part(m['apr_hash_this'], i)})
            kw['models'] = m
        e = Engine(self.prog, **kw)
        e.rc = self
        if getattr(self, 'K', None): e.K = self.K
        return e

    def run(self, eng, fn, args=None, mon=None, setup=None):
        if isinstance(fn, str): fn = self.prog.need(fn)
        if time.time() > Engine.DEADLINE:
            if not getattr(self, 'late', False): self.notes.append('exploration truncated: time exhausted before %s' % fn.name)
            self.truncated = self.late = True
            return
        s0, p0 = eng.steps, eng.stat_paths
        if getattr(self, 'tier', 'quick') == 'thorough': eng.MAXSTEPS *= 4
        try:
            eng.run(fn, args, mon, setup)
        except Truncated as e:
            self.notes.append('exploration truncated: %s' % e)
            self.truncated = True
        self.steps += eng.steps - s0
        self.paths += eng.stat_paths - p0
        self.funcs |= eng.stat_funcs
        self.callsites |= eng.stat_calls


def site(inst):
    return "%s:%d (%s)" % (inst.file, inst.line, inst.fn.name)


# ------------------------------------------------------------ call models with success / failure alternatives
def status_alts(eng, st, inst, on_ok=None, on_fail=None, label=None):
    """fork into ret==0 and ret!=0"""
    bad = st.fork()
    r = eng.fresh(st, eng.site(st, inst, 'st'), 32)
    eng.constrain(st, r, 'eq', 0)
    rb = eng.fresh(bad, eng.site(bad, inst, 'st'), 32)
    eng.constrain(bad, rb, 'ne', 0)
    nm = inst.a[0][1][1:] if inst.a[0][0] == 'glob' else 'call'
    bad.note(inst, "%s fails" % (label or nm))
    if on_ok: on_ok(st)
    if on_fail: on_fail(bad)
    return [(st, C(0, 32)), (bad, rb)]


def out_fresh(eng, st, inst, ptr, kind, bits=64, size=8):
    v = eng.fresh(st, (kind, st.frames[-1].ctx, inst.id), bits)
    if ptr.k != 'c': eng.store(st, ptr, v, size)
    return v


def m_status(eng, st, inst, args):
    return status_alts(eng, st, inst)


def m_status_out(kind, argi=0):
    def m(eng, st, inst, args):
        return status_alts(eng, st, inst, on_ok=lambda s: nonzero(eng, s, out_fresh(eng, s, inst, args[argi], kind)))
    return m


def nonzero(eng, st, v):
    eng.constrain(st, v, 'ne', 0)
    return v


def m_maybe_null(kind):
    def m(eng, st, inst, args):
        s2 = st.fork()
        v = eng.fresh(st, (kind, st.frames[-1].ctx, inst.id), 64)
        eng.constrain(st, v, 'ne', 0)
        return [(st, v), (s2, NULL)]
    return m


def m_nonnull(kind):
    def m(eng, st, inst, args):
        v = eng.fresh(st, (kind, st.frames[-1].ctx, inst.id), 64)
        eng.constrain(st, v, 'ne', 0)
        return [(st, v)]
    return m


def m_hash_this(eng, st, inst, args):
    for i, a in enumerate(args[1:]):
        if a.k == 'c': continue
        v = eng.fresh(st, ('hthis', st.frames[-1].ctx, inst.id, i), 64)
        eng.store(st, a, v, 8)
    return [(st, None)]


def this_part(this, i):
    """apr_hash_this_key/_key_len/_val in terms of the model of apr_hash_this"""
    def m(eng, st, inst, args):
        out = S(('this', st.frames[-1].ctx, inst.id), 64)
        a = [args[0], NULL, NULL, NULL]
        a[i] = out
        r = []
        for s, _ in this(eng, st, inst, a):
            v = eng.load(s, out, 8, 64)
            for k in [k for k in s.mem if k[0] is out]: del s.mem[k]
            r.append((s, v))
        return r
    return m


def m_strchr(eng, st, inst, args):
    """a known character in a known text"""
    c, q = eng.cstring(args[0]), eng.eqc(st, args[1])
    if c is None or q is None: return None
    i = (c + b'\0').find(bytes([q & 255]))
    if i < 0: return [(st, C(0, 64))]
    b, off, dyn = parts(args[0])
    return [(st, P(b, off + i, dyn))]


STD = {
    'strchr': m_strchr,
    'apr_pool_create_ex': m_status_out('pool'),
    'apr_hash_make': m_nonnull('hash'), 'apr_array_make': m_nonnull('array'),
    'apr_hash_this': m_hash_this,
}


def ret_is_zero(eng, st, v):
    """True / False / None"""
    c = eng.eqc(st, v)
    if c is not None: return c == 0
    f = eng.fact(st, v)
    if 0 in f[4] or f[2] > 0: return False
    return None


def result_used(inst):
    """is the value of this call looked at anywhere in its function"""
    f = inst.fn
    u = getattr(f, '_used', None)
    if u is None:
        u = set()
        for b in f.order:
            for x in b.insts: u |= set(ir.operands(x))
        f._used = u
    return bool(inst.res) and inst.res in u


def callee_name(inst):
    return inst.a[0][1][1:].strip('"') if inst.op == 'call' and inst.a[0][0] == 'glob' else None


def closure(prog, roots, stop=(), fptrs=True):
    """functions reachable through direct calls and function addresses mentioned in reached bodies"""
    seen, work = [], list(roots)
    s = set()
    while work:
        f = work.pop()
        if f in s or f.name in stop: continue
        s.add(f); seen.append(f)
        for b in f.order:
            for x in b.insts:
                ops = []
                if x.op == 'call':
                    ops = [x.a[0]] + [v for _, v in x.a[1]]
                elif x.op == 'store': ops = [x.a[0]]
                elif x.op == 'phi': ops = [v for v, _ in x.a]
                elif x.op == 'select': ops = list(x.a[1:])
                elif x.op == 'ret' and x.a: ops = [x.a]
                for o in ops:
                    if o[0] == 'glob':
                        g = prog.lookup(o[1][1:].strip('"'), f.unit)
                        if g is not None and (fptrs or (x.op == 'call' and o is x.a[0])): work.append(g)
                        elif o[1] in f.unit.globals and f.unit.globals[o[1]]['init']:
                            # tables holding function addresses
                            def vals(v):
                                if v[0] == 'glob':
                                    h = prog.lookup(v[1][1:], f.unit)
                                    if h is not None: work.append(h)
                                elif v[0] == 'agg':
                                    for _, z in v[1]: vals(z)
                            vals(f.unit.globals[o[1]]['init'])
    return seen


def extern_calls(prog, funcs):
    """(inst, name) of calls leaving the repository"""
    for f in funcs:
        for x, n in prog.calls(f):
            if n and prog.lookup(n, f.unit) is None and not n.startswith('llvm.'):
                yield x, n


def struct_off(prog, unit, sname, field):
    u = prog.units[unit]
    nm = '%struct.' + sname
    names = u.fieldnames.get(nm)
    if not names or field not in names:
        raise AnalysisBroken("field %s.%s not found" % (sname, field))
    k = names.index(field)
    t = u.types.named[nm]
    return u.types.layout(t)[0][k], u.types.size(u.types.resolve(t)[1][k])


_macros = {}


def macros(prog_repo=None):
    """object-like macros of all repo headers (clang -dM), as text"""
    import subprocess, glob
    repo = ir.REPO
    if repo in _macros: return _macros[repo]
    hs = sorted(glob.glob(os.path.join(repo, 'src', '*.h')))
    src = ''.join('#include "%s"\n' % h for h in hs)
    r = subprocess.run([ir.CLANG, '-dM', '-E', '-x', 'c', '-w'] + ir.CFLAGS + ['-I' + os.path.join(repo, 'src'), '-I' + os.path.join(repo, 'src/vendor/xxhash'), '-'],
                       input=src, capture_output=True, text=True)
    if r.returncode: raise AnalysisBroken("cannot preprocess headers: " + r.stderr[-500:])
    d = {}
    for ln in r.stdout.split('\n'):
        p = ln.split(' ', 2)
        if len(p) == 3 and p[0] == '#define' and '(' not in p[1]: d[p[1]] = p[2]
    _macros[repo] = d
    return d


def macro_int(name):
    d = macros()
    seen = set()

    def ev(n):
        if n in seen: raise AnalysisBroken("macro " + n)
        if n not in d: raise AnalysisBroken("macro %s not found" % n)
        seen.add(n)
        import re
        t = d[n]
        t = re.sub(r'\b(0x[0-9a-fA-F]+|\d+)[uUlL]+\b', r'\1', t)
        t = re.sub(r'\b[A-Za-z_]\w*\b', lambda m: str(ev(m.group(0))) if not m.group(0).startswith('0x') else m.group(0), t) if not re.fullmatch(r'[\s()0-9a-fA-Fx|<>+*-]+', t) else t
        if not re.fullmatch(r'[\s()0-9a-fA-Fx|<>+*/-]+', t): raise AnalysisBroken("macro %s = %s" % (n, t))
        seen.discard(n)
        return int(eval(t))
    return ev(name)


def enum_int(name, header):
    """value of an enum constant declared in the repo, via clang constant folding"""
    import subprocess, re
    repo = ir.REPO
    src = '#include <apr_errno.h>\n#include <apr_file_io.h>\n#include "%s"\nint x[] = { (int)(%s) };\n' % (os.path.join(repo, 'src', header), name)
    r = subprocess.run([ir.CLANG, '-S', '-emit-llvm', '-O0', '-w', '-x', 'c', '-o', '-'] + ir.CFLAGS + ['-I' + os.path.join(repo, 'src'), '-I' + os.path.join(repo, 'src/vendor/xxhash'), '-'], input=src, capture_output=True, text=True)
    m = re.search(r'@x = .*\[i32 (-?\d+)\]', r.stdout)
    if not m:
        if re.search(r'@x = .*zeroinitializer', r.stdout): return 0
        raise AnalysisBroken("constant %s not found in %s" % (name, header))
    return int(m.group(1))
