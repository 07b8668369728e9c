"""What reaches standard output: layout of the text report, the JSON document, nothing else (S23); human-readable sizes (S24)."""
import re
from common import *
from engine import *
from rules_cli import fpval
from rules_scan import symname, Report, is_stdout, fval, same, offs, CONF_T, FILE_T

WRITERS = {'printf': (0, None), 'puts': (0, None), 'putchar': (0, None), 'vprintf': (0, None),
           'fprintf': (1, 0), 'vfprintf': (1, 0), 'fputs': (0, 1), 'fputc': (0, 1), 'putc': (0, 1), 'fwrite': (0, 3),
           'json_dumpf': (0, 1), 'write': (1, 0)}


def writes_stdout(eng, st, name, args):
    w = WRITERS.get(name)
    if w is None: return False
    if w[1] is None: return True
    if w[1] >= len(args): return False
    if name == 'write': return eng.eqc(st, args[0]) == 1
    return is_stdout(args[w[1]])


class Layout(Report):
    """tokens printed on standard output against the grammar of the report"""
    def __init__(self, ctx, json):
        Report.__init__(self, ctx, 'layout')
        self.json = json
        self.sep = S(('sepc',), 8)

    def on_phi(self, eng, st, block, phis):
        self.forget(st)

    def on_branch(self, eng, st, inst, cond, val): pass

    def heap_extract(self, eng, st, inst, args):
        self.idle(eng, st, inst)
        return Report.heap_extract(self, eng, st, inst, args)

    def close_group(self, eng, st, inst):
        st.mon.pop('grp', None)
        self.purge(st)

    def settle(self, eng, st, inst): self.purge(st)

    def isatty(self, eng, st, inst, args):
        s2 = st.fork()
        st.mon['tty'], s2.mon['tty'] = 0, 1
        return [(st, C(0, 32)), (s2, C(1, 32))]

    # --- grammar
    def bad(self, key, msg, inst, st):
        self.ctx.violation(key, 'the report on standard output has its documented layout', msg, inst, st=st)
        st.mon['q'] = 1

    def idle(self, eng, st, inst):
        if st.mon.get('q'): return
        self.ctx.oblig('set complete', site(inst))
        p = self.settle_path(eng, st)
        if p[0] != 'idle': self.bad('set-open', 'the line of a set of twins is not ended by an empty line before the next files are looked at', inst, st)

    def sub(self, eng, st, f):
        """must the member name follow the path? True/False/None"""
        if not self.f_untar: return False
        v = fval(eng, st, f, self.o_sub)
        z = ret_is_zero(eng, st, v)
        return None if z is None else not z

    def settle_path(self, eng, st):
        return st.mon.get('ph', ('idle',))

    def token(self, eng, st, inst, kind, x):
        if st.mon.get('q'): return
        if kind == '?': st.mon['q'] = 1; return
        if kind == 'char':
            if st.mon.get('esc') is not None:
                if x.isalpha(): st.mon.pop('esc')
                return
            if x == '\x1b':
                st.mon['esc'] = 1
                if st.mon.get('tty') != 1: self.bad('colour', 'colour codes are written although the output was not found to be a terminal', inst, st)
                return
        self.ctx.oblig('token of the report', site(inst))
        p = st.mon.get('ph', ('idle',))
        B = lambda key, msg: self.bad(key, msg, inst, st)
        go = lambda *q: st.mon.__setitem__('ph', q)
        if p[0] == 'path':                               # the path of p[1] was just printed
            need = p[3] if p[3] is not None else self.sub(eng, st, p[1])
            if kind == 'char' and x in ':|' and need is not False and not (self.colon and x == ':' and need is None):
                if x != ('|' if self.colon else ':'):
                    return B('member-mark', 'the mark between an archive and its member is not the documented one', )
                return go('mark', p[1], p[2])
            if need is True: return B('member-missing', 'a twin inside an archive is shown without the name of the member')
            p = ('done', p[1], p[2])
        if p[0] == 'mark':
            if kind == 'sub' and x is p[1]: return go('done', p[1], p[2])
            return B('member-missing', 'a twin inside an archive is shown without the name of the member')
        if kind == 'sub': return B('member-stray', 'the name of an archive member is printed where none belongs')
        if p[0] == 'idle':
            if self.sized:
                if kind == 'char' and x == 'S': return go('size', 1)
                if kind == 'path': return B('size-missing', 'the size that was asked for is not shown in front of a set')
            elif kind == 'path':
                st.mon['head'] = x
                return go('path', x, 1, self.sub(eng, st, x))
            return B('stray', 'text that belongs to no set of twins is written to standard output')
        if p[0] == 'size':
            lit = 'Size: '
            if p[1] < len(lit) and kind == 'char' and x == lit[p[1]]: return go('size', p[1] + 1)
            if p[1] == len(lit) and kind == 'size': return go('sizenl')
            return B('size-line', 'the line with the size is not written as documented')
        if p[0] == 'sizenl':
            if kind == 'char' and x == '\n': return go('first')
            return B('size-line', 'the line with the size is not ended')
        if p[0] == 'first':
            if kind == 'path':
                st.mon['head'] = x
                return go('path', x, 1, self.sub(eng, st, x))
            return B('stray', 'text that belongs to no set of twins is written to standard output')
        if p[0] == 'done':
            if kind == 'sep': return go('next', p[1], p[2])
            if kind == 'char' and x == '\n':
                if p[2] < 2: return B('lonely', 'a set with a single file is reported')
                return go('nl')
            if kind == 'path': return B('no-separator', 'two paths of a set are not divided by the chosen separator')
            return B('stray', 'a set of twins is not ended as documented')
        if p[0] == 'next':
            if kind == 'path':
                c, h = st.mon.get('cmp'), st.mon.get('head')
                if c and None not in c[0] and h is not None and h not in c[0] and x in c[0] and p[1] not in c[0]:
                    return B('merged', 'files of two different sets are written as one set')
                return go('path', x, 2, self.sub(eng, st, x))
            return B('trailing-separator', 'a separator is not followed by a path')
        if p[0] == 'nl':
            if kind == 'char' and x == '\n': st.mon.pop('ph'); st.mon.pop('head', None); return
            return B('set-end', 'a set of twins is not ended by an empty line')

    # --- output calls
    def text(self, eng, st, inst, b):
        for ch in b.decode('latin1'): self.char(eng, st, inst, ch)

    def char(self, eng, st, inst, ch):
        if ch == ':' and self.colon and st.mon.get('ph', ('idle',))[0] in ('path', 'done') and st.mon.get('esc') is None: self.token(eng, st, inst, 'sep', None)
        else: self.token(eng, st, inst, 'char', ch)

    def arg(self, eng, st, inst, kind, a):
        if kind == 's':
            o = self.owner(st, a)
            if o and o[1] in ('path', 'sub'): return self.token(eng, st, inst, o[1], o[0])
            n = strip(symname(a)) if a.k == 's' else None
            if isinstance(n, tuple) and n and n[0] == 'hsize': return self.token(eng, st, inst, 'size', None)
            c = eng.cstring(a)
            if c is None: self.token(eng, st, inst, '?', None)
            else: self.text(eng, st, inst, c)
        elif kind == 'c':
            while a.k == 'op' and a.a[0] in ('sext', 'zext', 'trunc'): a = a.a[1]
            c = eng.eqc(st, a)
            if a is self.sep: self.token(eng, st, inst, 'sep', None)
            elif c is not None: self.char(eng, st, inst, chr(c & 255))
            else: self.token(eng, st, inst, '?', None)
        else: self.token(eng, st, inst, '?', None)

    def emit(self, eng, st, inst, fmt, args):
        f = eng.cstring(fmt)
        if f is None: return self.token(eng, st, inst, '?', None)
        k = 0
        for m in re.finditer(r'%[-0-9.#+ ]*(?:[hlzjtL]*)[a-zA-Z%]|[^%]|%', f.decode('latin1'), re.S):
            t = m.group(0)
            if t == '%%': self.char(eng, st, inst, '%')
            elif t[0] == '%' and len(t) > 1:
                if len(t) > 2: self.token(eng, st, inst, '?', None)
                self.arg(eng, st, inst, t[-1], args[k] if k < len(args) else NULL); k += 1
            else: self.char(eng, st, inst, t)

    def hsize(self, eng, st, inst, args):
        g = st.mon.get('grp')
        cur = st.mon.get('cur')
        c = st.mon.get('cmp')
        fs = [x for x in (c[0] if c else ()) if x is not None] + ([cur] if cur is not None else [])
        if not self.json and g and g[1] != 'missing':
            self.ctx.oblig('size of the set', site(inst))
            if not same(eng, st, args[0], fval(eng, st, g[0], self.o_val)) and not any(same(eng, st, args[0], fval(eng, st, f, self.o_size)) for f in fs) and eng.eqc(st, args[0]) is None and args[0].k in ('s', 'op'):
                b = args[0]
                self.bad('size-other', 'the size shown in front of a set is not the size of its files', inst, st)
        v = nonzero(eng, st, eng.fresh(st, ('hsize', st.frames[-1].ctx, inst.id), 64))
        return [(st, v)]

    def on_call(self, eng, st, inst, name, args):
        if not writes_stdout(eng, st, name, args): return None
        self.ctx.count('writes to standard output')
        if self.json: return self.on_json(eng, st, inst, name, args)
        if name == 'printf': self.emit(eng, st, inst, args[0], args[1:])
        elif name == 'fprintf': self.emit(eng, st, inst, args[1], args[2:])
        elif name == 'puts': self.arg(eng, st, inst, 's', args[0]); self.token(eng, st, inst, 'char', '\n')
        elif name == 'fputs': self.arg(eng, st, inst, 's', args[0])
        elif name in ('putchar', 'fputc', 'putc'): self.arg(eng, st, inst, 'c', args[0])
        else: self.token(eng, st, inst, '?', None)
        return None

    # --- JSON: one document, nothing else
    def on_json(self, eng, st, inst, name, args):
        self.ctx.oblig('document only', site(inst))
        if name == 'json_dumpf':
            if st.mon.get('doc'): self.ctx.violation('two-documents', 'the JSON report is one document', 'the JSON report is written twice', inst, st=st)
            if not st.mon.get('drained') and self.ctx.counts.get('extract'): self.ctx.violation('document-early', 'the JSON report is one document', 'the JSON report is written before all files were looked at', inst, st=st)
            st.mon['doc'] = 1
            return None
        b = None
        if name in ('printf', 'fprintf'): b = eng.cstring(args[0 if name == 'printf' else 1])
        elif name in ('puts', 'fputs'): b = eng.cstring(args[0])
        elif name in ('putchar', 'fputc', 'putc'):
            c = eng.eqc(st, args[0])
            b = None if c is None else bytes([c & 255])
        if b is None or not b.strip(): return None
        self.ctx.violation('json-stray', 'the JSON report is one document', 'text that is not part of the JSON document is written to standard output', inst, st=st)

    def on_exit(self, eng, st, v, how, inst):
        self.ctx.count('exit')
        if ret_is_zero(eng, st, v) is not True: return
        if self.json:
            self.ctx.oblig('document written', site(inst))
            if not st.mon.get('doc') and self.ctx.counts.get('json_dumpf seen'): self.ctx.violation('no-document', 'the JSON report is one document', 'the JSON report succeeds without writing the document', inst, st=st)
        else: self.idle(eng, st, inst)

    def dump(self, eng, st, inst, args):
        s2 = st.fork()
        v = eng.fresh(s2, eng.site(s2, inst, 'r'), 32)
        eng.constrain(s2, v, 'ne', 0)
        if st.mon.get('doc'): st.mon['docok'] = 1
        return [(st, C(0, 32)), (s2, v)]

    def run(self):
        VERBO, SIZED, DRY = (macro_int('OPTION_' + n) for n in ('VERBO', 'SIZED', 'DRY_RUN'))
        if self.json:
            pr = self.ctx.prog
            if any(n == 'json_dumpf' for x, n in extern_calls(pr, closure(pr, [pr.need('ft_report_json')]))): self.ctx.count('json_dumpf seen')
        U, A = self.UNTAR, SIZED | VERBO | DRY
        if self.json: runs = [(0, A, 0), (U, A, 0)]
        elif self.ctx.tier == 'thorough': runs = [(u, e, c) for u in (0, U) for e in (0, SIZED, VERBO | DRY, A) for c in (0, 1)]
        else: runs = [(0, 0, 1), (0, A, 0), (U, 0, 0), (U, A, 1)]
        for untar, extra, self.colon in runs:
            self.f_untar, self.sized = bool(untar), bool(extra & SIZED)
            eng = self.engine()
            eng.models['isatty'] = self.isatty
            eng.models['format_human_size'] = self.hsize
            if self.json: eng.models['json_dumpf'] = self.dump

            def setup(e, s):
                e.store(s, P(self.conf, self.o_mask[0]), C(untar | extra, self.o_mask[1] * 8), self.o_mask[1])
                e.store(s, P(self.conf, self.o_sep[0]), C(58, 8) if self.colon else self.sep, 1)
                s.mon['keep'] = (self.sep,)
                e.constrain(s, self.sep, 'ne', 58)
            self.ctx.run(eng, 'ft_report_json' if self.json else 'ft_report_duplicates', [self.conf], setup=setup)


def strip(n):
    while isinstance(n, tuple) and len(n) == 2 and n[0] == 'old': n = n[1]
    return n


def silent(ctx):
    """scanning and processing write nothing to standard output"""
    pr = ctx.prog
    roots = [f for f in (pr.lookup(n) for n in ('ft_traverse_path', 'ft_process_files')) if f is not None]
    if len(roots) < 2: ctx.notes.append('the scanning or the processing stage was not found')
    for f in closure(pr, roots):
        defs = {x.res: x for b in f.order for x in b.insts if x.res}
        for x, n in pr.calls(f):
            w = WRITERS.get(n)
            if w is None or pr.lookup(n, f.unit) is not None: continue
            ctx.count('output call of the earlier stages')
            ctx.oblig('earlier stages are silent', site(x))
            args = x.a[1]
            if w[1] is None: out = True
            elif w[1] >= len(args): out = False
            else:
                v = args[w[1]][1]
                if n == 'write': out = v[0] == 'int' and v[1] == 1
                else:
                    d = defs.get(v[1]) if v[0] == 'reg' else None
                    out = d is not None and d.op == 'load' and "'@stdout'" in repr(d.a)
            if out: ctx.violation('stray-output', 'only the report is written to standard output', 'scanning or processing files writes to standard output, where the report goes', x)


def S23(ctx):
    silent(ctx)
    Layout(ctx, False).run()
    Layout(ctx, True).run()
    for n in ('writes to standard output', 'exit', 'json_dumpf seen'): ctx.need(n)


# ---------------------------------------------------------------- sizes for people
UNITS = ['B', 'KiB', 'MiB', 'GiB', 'TiB', 'PiB', 'EiB', 'ZiB', 'YiB']
OTHER = {'kB': 1e3, 'KB': 1e3, 'MB': 1e6, 'GB': 1e9, 'TB': 1e12, 'PB': 1e15, 'EB': 1e18}
FMT = {'printf': 0, 'apr_psprintf': 1, 'sprintf': 1, 'snprintf': 2, 'apr_snprintf': 2}


class Sizes:
    def __init__(self, ctx):
        self.ctx = ctx
        self.size = S(('arg', 0, 'size'), 64)

    def num(self, t):
        """value of a constant floating term"""
        if t.k == 's' and isinstance(symname(t), tuple) and symname(t)[0] == 'fp': return fpval(symname(t)[1])
        if t.k == 'op' and t.a[0] in ('sitofp', 'uitofp') and t.a[1].k == 'c': return float(sgn(cv(t.a[1]), t.a[1].bits) if t.a[0][0] == 's' else cv(t.a[1]))
        return None

    def scale(self, t):
        """factor c with t = c * size, or None"""
        if t is self.size: return 1.0
        if t.k != 'op': return None
        op = t.a[0]
        if op in ('sitofp', 'uitofp', 'fpext', 'sext', 'zext'): return self.scale(t.a[1])
        if op == 'fptrunc': return self.scale(t.a[1])
        if op in ('sdiv', 'udiv', 'ashr', 'lshr') and t.a[2].k == 'c':
            x, y = self.scale(t.a[1]), cv(t.a[2])
            return x / (y if op[1:] == 'div' else 2.0 ** y) if x and y else x
        if op in ('fdiv', 'fmul'):
            x, y = self.scale(t.a[1]), self.num(t.a[2])
            if x is None and op == 'fmul': x, y = self.scale(t.a[2]), self.num(t.a[1])
            if x is None or not y: return None
            return x / y if op == 'fdiv' else x * y
        return None

    def walk(self, t):
        yield t
        if t.k == 'op':
            for x in t.a[1:]:
                if isinstance(x, T): yield from self.walk(x)

    def whole(self, t):
        """divisor of the whole-number divisions in the term"""
        d = 1.0
        for x in self.walk(t):
            if x.k == 'op' and x.a[0] in ('sdiv', 'udiv', 'ashr', 'lshr') and x.a[2].k == 'c': d *= cv(x.a[2]) if x.a[0][1:] == 'div' else 2.0 ** cv(x.a[2])
        return d

    def on_branch(self, eng, st, inst, cond, val):
        if cond.k == 'op' and cond.a[0] == 'not': cond, val = cond.a[1], not val
        if self.size not in cond.syms: return
        if cond.k == 'cmp' and cond.a[0][0] != 'f' and cond.a[0] not in ('eq', 'ne') and cond.a[2].k == 'c' and cond.a[1].k == 'op':
            a, n = self.scale(cond.a[1]), sgn(cv(cond.a[2]), cond.a[2].bits)       # (size / d) < n: size < n * d
            p = cond.a[0][1:]
            if not val: p = {'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt'}[p]
            if a and n >= 0:
                if p in ('gt', 'le'): n, p = n + 1, {'gt': 'ge', 'le': 'lt'}[p]
                self.narrow(st, p, n / a)
            else: st.mon['unk'] = 1
            return
        if cond.k == 'cmp' and any(x is self.size for x in cond.a[1:]) and any(x.k == 'c' for x in cond.a[1:]): return      # known to the engine
        if cond.k != 'cmp' or cond.a[0][0] != 'f' or len(cond.a[0]) != 4: st.mon['unk'] = 1; return
        pred, x, y = cond.a
        pred = pred[2:]
        a, b = self.scale(x), self.num(y)
        if a is None:
            a, b = self.scale(y), self.num(x)
            pred = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(pred, pred)
        if not a or b is None or a < 0: st.mon['unk'] = 1; return
        if not val: pred = {'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt'}.get(pred)
        self.narrow(st, pred, b / a)

    def narrow(self, st, pred, lim):
        lo, hi = st.mon.get('rng', ((0.0, True), (2.0 ** 63, False)))     # (bound, inclusive)
        if pred in ('ge', 'gt'):
            n = (lim, pred == 'ge')
            if n[0] > lo[0] or n[0] == lo[0] and not n[1]: lo = n
        elif pred in ('lt', 'le'):
            n = (lim, pred == 'le')
            if n[0] < hi[0] or n[0] == hi[0] and not n[1]: hi = n
        if lo[0] > hi[0] or lo[0] == hi[0] and not (lo[1] and hi[1]): st.dead = True; return
        st.mon['rng'] = (lo, hi)

    def bounds(self, eng, st):
        """smallest and largest size on this path (whole numbers; sizes are not negative)"""
        (lo, li), (hi, hi_) = st.mon.get('rng', ((0.0, True), (2.0 ** 63, False)))
        f = eng.fact(st, self.size)
        a = int(lo) if lo == int(lo) else int(lo) + 1
        if lo == int(lo) and not li: a += 1
        b = int(hi)
        if hi == int(hi) and not hi_: b -= 1
        return max(a, f[0], 0), min(b, f[1])

    def on_call(self, eng, st, inst, name, args):
        if name not in FMT or FMT[name] >= len(args): return None
        f = eng.cstring(args[FMT[name]])
        if f is None: return None
        f = f.decode('latin1')
        rest = args[FMT[name] + 1:]
        specs = re.findall(r'%[-+ #0-9.]*(?:[hlzjqLt]*|l{2})[a-zA-Z]', f.replace('%%', ''))
        if '*' in f or len(specs) > len(rest): return None
        nums = [(s, a) for s, a in zip(specs, rest) if s[-1] in 'dioufFgGeE']
        if len(nums) != 1: return None
        spec, val = nums[0]
        text = ''
        for i, s in enumerate(re.split(r'%[-+ #0-9.]*(?:[hlzjqLt]*|l{2})[a-zA-Z]', f)):
            text += s
            if i < len(specs) and specs[i][-1] == 's':
                c = eng.cstring(rest[i])
                if c is None:
                    n = symname(rest[i]) if rest[i].k == 's' else None
                    if isinstance(n, tuple) and n[0] in ('undef', 'undefv'):
                        self.ctx.violation('unit-outside', 'the unit exists', 'for large sizes the unit is read from outside the table of units', inst, st=st)
                    return None
                text += c.decode('latin1')
        unit = text.strip()
        k = UNITS.index(unit) if unit in UNITS else None
        ctx = self.ctx
        integer = val.k == 'op' and val.a[0] in ('fptosi', 'fptoui')
        x = val
        if integer: x = val.a[1]
        while x.k == 'op' and x.a[0] in ('trunc', 'sext', 'zext') and spec[-1] in 'diu': x = x.a[1]
        for t in self.walk(x):
            if t.k == 'op' and t.a[0] == 'fdiv' and self.num(t.a[2]) == 0.0 and self.scale(t.a[1]):
                ctx.violation('unit-scale', 'the number is the size counted in the unit shown', 'sizes in %s are divided by a number that has overflowed' % unit, inst, st=st)
                return None
        c = self.scale(x)
        if c is None: return None
        ctx.count('size shown')
        ctx.oblig('size shown', site(inst))
        lo, hi = self.bounds(eng, st)
        if lo > hi: return None
        want = OTHER.get(unit, 1024.0 ** k if k is not None else None)
        if want is None: return None
        if c * want != 1.0:
            ctx.violation('unit-scale', 'the number is the size counted in the unit shown', 'sizes from %d on are divided by %g but shown in %s' % (lo, 1 / c, unit), inst, st=st)
            return None
        if k is None: return None
        if any(t.k == 'op' and t.a[0] in ('sitofp', 'uitofp', 'fptrunc') and t.bits == 32 for t in self.walk(x)) and hi >= 2 ** 24:
            ctx.violation('unit-float', 'the number fits where it is shown', 'sizes up to %d pass through a number of 24 significant bits: one just below a unit becomes that unit' % hi, inst, st=st)
        if k > 0 and self.whole(x) * 10 > want and spec[-1] in 'fF':
            ctx.violation('unit-precision', 'a fraction of a unit is shown', 'sizes in %s are divided as whole numbers: the fraction shown is always zero or wrong' % unit, inst, st=st)
        if spec[-1] in 'diou':
            bits = val.bits if val.bits in (32, 64) else 64
            if val is not x and val.k == 'op' and val.a[0] == 'trunc' or integer or val is x:
                if not st.mon.get('unk') and hi * c >= 2.0 ** (bits - (spec[-1] in 'di')): ctx.violation('unit-overflow', 'the number fits where it is shown', 'sizes up to %d are converted to a number of %d bits' % (hi, bits), inst, st=st)
            if k > 0: ctx.violation('unit-precision', 'a fraction of a unit is shown', 'sizes in %s are shown without a fraction' % unit, inst, st=st)
        elif spec[-1] in 'fF':
            m = re.search(r'\.(\d*)', spec)
            if k > 0 and m and int(m.group(1) or 0) < 1: ctx.violation('unit-precision', 'a fraction of a unit is shown', 'sizes in %s are shown without a fraction' % unit, inst, st=st)
        if st.mon.get('unk'): return None
        if k > 0 and lo < 1024 ** k: ctx.violation('unit-large', 'the largest unit that does not exceed the size is used', 'a size of %d is shown in %s' % (lo, unit), inst, st=st)
        if k < 6 and hi >= 1024 ** (k + 1): ctx.violation('unit-small', 'the largest unit that does not exceed the size is used', 'a size of %d is shown in %s' % (max(lo, 1024 ** (k + 1)), unit), inst, st=st)
        return None

    def run(self):
        ctx = self.ctx
        eng = ctx.engine(models=dict(STD, apr_psprintf=m_nonnull('str')))
        eng.on_call, eng.on_branch = self.on_call, self.on_branch
        eng.unroll = eng.K = 100000
        eng.WIDEN_VISITS = 1000
        eng.widen_arith = False
        eng.concrete = lambda v: True

        def setup(e, s):
            s.mon['keep'] = (self.size,)
            e.constrain(s, self.size, 'sge', 0)

        def on_exit(eng, st, v, how, inst): ctx.count('exit'); ctx.oblig('a size is shown', site(inst))
        eng.on_exit = on_exit
        ctx.run(eng, 'format_human_size', [self.size, S(('arg', 1, 'pool'), 64)], setup=setup)
        ctx.need('size shown', 2)


def S24(ctx):
    Sizes(ctx).run()
