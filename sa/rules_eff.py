"""Rules for report order (S20), effects on the file system (S01) and JSON output (S09)."""
import re
import ir
from common import *
from rules_scan import fval, symname, lin, plus, const, CONF_T, FILE_T, CHK_T, offs, Report
from rules_cont import feasible
from rules_trav import Trav, masks

TU = 'ft_traverse.c'


class Flag:
    """a truth value member of a structure, one bit or a whole field"""
    def __init__(self, prog, unit, struct, field):
        b = prog.units[unit].bitfields.get('%struct.' + struct, {}).get(field)
        if b: self.off, self.size, self.shift, self.width = b[0] // 8, 1, b[0] % 8, b[1]
        else:
            self.off, self.size = struct_off(prog, unit, struct, field)
            self.shift, self.width = 0, self.size * 8

    def get(self, eng, st, base):
        """term of one bit or more that is nonzero iff the flag is set"""
        v = eng.load(st, P(base, self.off), self.size, self.size * 8)
        return binop('and', binop('lshr', v, C(self.shift, v.bits), v.bits), C((1 << self.width) - 1, v.bits), v.bits)

    def off_(self, eng, st, base):
        """True / False / None: the flag is known clear / set / not known"""
        v = eng.load(st, P(base, self.off), self.size, self.size * 8)
        if v.k == 's' and self.size == 1:
            r = {bool(x >> self.shift & ((1 << self.width) - 1)) for x in feasible(st, v, range(256))}
            return None if len(r) != 1 else not r.pop()
        return ret_is_zero(eng, st, self.get(eng, st, base))

    def put(self, eng, st, base, on):
        eng.store(st, P(base, self.off), C(on << self.shift, self.size * 8), self.size)


class Prio(Trav):
    """the preferred-path mark of every admitted file"""
    def __init__(self, ctx, mask, given):
        Trav.__init__(self, ctx, 'prio', mask, 0)
        self.given = given
        self.flag = Flag(ctx.prog, TU, FILE_T, 'prioritized')
        self.pp, self.pl = (struct_off(ctx.prog, TU, CONF_T, n) for n in ('p_path', 'p_path_len'))

    def entered(self, *a): pass
    def settled(self, *a): pass
    def entry_done(self, *a): pass
    def on_call(self, *a): return None
    def on_exit(self, *a): pass

    def extra(self, models):
        for n, (ic, kind) in dict(memcmp=(0, 'mem'), bcmp=(0, 'mem'), strncmp=(0, 'str'), strncasecmp=(1, 'str'), apr_cstr_casecmpn=(1, 'str')).items():
            models[n] = self.compare(ic, kind)
        return models

    def stat(self, eng, st, inst, args):
        r = Trav.stat(self, eng, st, inst, args)
        eng.store(st, P(args[0], self.fi['filetype'][0]), C(self.REG, 32), 4)
        return r

    def setup(self, e, s):
        for n in ('userid', 'respect_gitignore'): e.store(s, P(self.conf, self.cf[n][0]), C(0, 32), 4)
        for n in ('ig_regex', 'wl_regex'): e.store(s, P(self.conf, self.cf[n][0]), NULL, 8)
        v = S(('prefix',), 64)
        if self.given: nonzero(e, s, v)
        s.mon['keep'] = (v, S(('plen',), self.pl[1] * 8), S(('strlen', self.path), 64), S(('strlen', v), 64))
        e.store(s, P(self.conf, self.pp[0]), v if self.given else NULL, 8)
        e.store(s, P(self.conf, self.pl[0]), s.mon['keep'][1], self.pl[1])

    def compare(self, icase, kind):
        def f(eng, st, inst, args):
            pre, plen = st.mon['keep'][:2]
            a = set(args[:2])
            if a != {pre, self.path}: return None
            n = args[2]
            while n.k == 'op' and n.a[0] in ('zext', 'sext', 'trunc'): n = n.a[1]
            whole = n is plen or n is S(('strlen', pre), 64)
            self.ctx.count('prefix compared')
            s2 = st.fork()
            long_ = kind == 'str' or self.shorter(eng, st) is False
            st.mon['cmp'] = (icase, whole, long_, True)
            s2.mon['cmp'] = (icase, whole, long_, False)
            r = eng.fresh(s2, eng.site(s2, inst, 'r'), 32)
            eng.constrain(s2, r, 'ne', 0)
            return [(st, C(0, 32)), (s2, r)]
        return f

    def shorter(self, eng, st):
        """is the path known to be shorter than the prefix"""
        pre, plen = st.mon['keep'][:2]
        for l in (plen, S(('strlen', pre), 64)):
            if l.bits != 64: continue
            r = eng.relget(st, S(('strlen', self.path), 64), l, 'u')
            if r == frozenset('<'): return True
            if '<' not in r: return False
        return None

    def insert(self, eng, st, inst, args):
        ctx = self.ctx
        ctx.count('insert')
        z = self.flag.off_(eng, st, args[1])
        if z is None: return [(st, None)]
        ctx.oblig('the preferred mark says whether the path starts with the preferred path', site(inst))
        ic = self.has('ICASE')
        c = st.mon.get('cmp')
        R = 'files below the preferred path are marked'
        if not self.given:
            if z is False: self.v('marked-without-prefix', R, 'a file is marked as preferred although no preferred path was given', inst, st)
        elif z is False:
            if c is None or not c[3]: self.v('marked-wrong', R, 'a file is marked as preferred although its path does not start with the preferred path', inst, st)
            elif bool(c[0]) != ic: self.v('mark-case', R, 'the preferred path is compared %s' % ('with case although case is to be ignored' if ic else 'ignoring case although case matters'), inst, st)
            elif not c[1]: self.v('mark-part', R, 'only part of the preferred path is compared', inst, st)
            elif not c[2]: self.v('mark-short', R, 'the preferred path is compared without checking that the path is long enough', inst, st)
        else:
            if c is not None and c[3] and bool(c[0]) == ic and c[1]: self.v('mark-lost', R, 'a file whose path starts with the preferred path is not marked', inst, st)
            elif c is not None and bool(c[0]) != ic: self.v('mark-case', R, 'the preferred path is compared %s' % ('with case although case is to be ignored' if ic else 'ignoring case although case matters'), inst, st)
            elif c is None and self.shorter(eng, st) is not True: self.v('mark-lost', R, 'a file is left unmarked without comparing its path with the preferred path', inst, st)
        return [(st, None)]


def comparators(ctx, callee, argno):
    """functions handed to the callee anywhere in the program"""
    r = []
    for f in ctx.prog.allfuncs:
        for x, n in ctx.prog.calls(f):
            if n == callee and len(x.a[1]) > argno:
                    v = x.a[1][argno][1]
                    if v[0] == 'glob':
                        g = ctx.prog.lookup(v[1][1:].strip('"'), f.unit)
                        if g is not None: r.append((x, g))
    return r


def sign(eng, st, v):
    c = eng.eqc(st, v)
    if c is not None:
        c = sgn(c, v.bits)
        return (c > 0) - (c < 0)
    f = eng.fact(st, v)
    if f[0] > 0: return 1
    if f[1] < 0: return -1
    return None


def twin_order(ctx):
    """comparator of the duplicates' array: equal hashes adjacent, marked file first"""
    fl = Flag(ctx.prog, TU, FILE_T, 'prioritized')
    o_file, o_hash = offs(ctx.prog, CHK_T, 'file'), offs(ctx.prog, CHK_T, 'hash_value')
    done = set()
    for x, g in comparators(ctx, 'qsort', 3):
        if g in done or os.path.basename(x.fn.unit.src) not in ('ft_report.c', 'ft_report_json.c'): continue
        done.add(g)
        for a in (0, 1):
            for b in (0, 1):
                for rel in (-1, 0, 1):
                    twin_case(ctx, g, fl, o_file, o_hash, a, b, rel)
    return done


def twin_case(ctx, g, fl, o_file, o_hash, a, b, rel):
    X, Y, F, G = S(('arg', 0, 'x'), 64), S(('arg', 1, 'y'), 64), S(('file1',), 64), S(('file2',), 64)

    def memcmp(eng, st, inst, args):
        ends = {base_of(args[0]): -1, base_of(args[1]): 1}
        if set(ends) != {X, Y} or parts(args[0])[1] != o_hash[0] or parts(args[1])[1] != o_hash[0]: return None
        if eng.eqc(st, args[2]) != o_hash[1]:
            ctx.violation('order-hash-part', 'files of one content are neighbours', 'the order of the files of one size looks at only part of their hashes', inst, st=st)
        ctx.count('hash order')
        st.mon['cmp'] = 1
        r = eng.fresh(st, eng.site(st, inst, 'r'), 32)
        d = rel if base_of(args[0]) is X else -rel
        if d == 0: return [(st, C(0, 32))]
        eng.constrain(st, r, 'sgt' if d > 0 else 'slt', 0)
        return [(st, r)]

    def ex(eng, st, v, how, inst):
        s = sign(eng, st, v)
        if s is None: return
        if 'cmp' not in st.mon:
            # the order may not be decided before the hashes were looked at (an element compared with itself aside)
            if rel and ctx.counts.get('hash order') and eng.ev(st, icmp('eq', X, Y)) is not True and eng.ev(st, icmp('eq', F, G)) is not True:
                ctx.violation('order-mixed', 'files of one content are neighbours', 'the order of two files is decided without looking at their hashes, so files of one content may be apart', inst, st=st)
            return
        ctx.oblig('order of files of one content', '%s %d%d %d' % (g.name, a, b, rel))
        if rel == 0:
            want = (a < b) - (a > b)
            if want and s != want:
                ctx.violation('order-prio', 'the preferred file comes first', 'of two files with the same content the one outside the preferred path %s' % ('comes first' if s == -want else 'may come first'), inst, st=st)
            # (equal marks: any order)
        elif s == 0:
            ctx.violation('order-mixed', 'files of one content are neighbours', 'two files with different hashes are treated as equal in the order', inst, st=st)
        else:
            dirs.setdefault((s == rel), inst)

    dirs = twin_case.__dict__.setdefault('dirs', {}).setdefault((id(ctx), g.name), {})
    eng = ctx.engine(models=dict(STD, memcmp=memcmp, bcmp=memcmp))
    eng.on_exit = ex

    def setup(e, s):
        for p, f, on in ((X, F, a), (Y, G, b)):
            nonzero(e, s, f)
            e.store(s, P(p, o_file[0]), f, 8)
            fl.put(e, s, f, on)
        s.mon['keep'] = (X, Y, F, G)
    ctx.run(eng, g, [X, Y], setup=setup)
    if len(dirs) > 1:
        ctx.violation('order-mixed', 'files of one content are neighbours', 'the order of two files with different hashes depends on something else than their hashes', dirs[True])


def size_order(ctx):
    """comparator of the work list: a larger file ranks higher, for all sizes"""
    o = offs(ctx.prog, FILE_T, 'size')
    done = set()
    for x, g in comparators(ctx, 'napr_heap_make', 1) + comparators(ctx, 'napr_heap_make_r', 1):
        if os.path.basename(x.fn.unit.src) == 'napr_heap.c' or g in done or len(g.params) != 2: continue
        done.add(g)
        X, Y, A, B = S(('arg', 0, 'x'), 64), S(('arg', 1, 'y'), 64), S(('size1',), 64), S(('size2',), 64)
        lim = (1 << 63) - 1
        for want, pairs in ((-1, [(0, 1), (1, 2), (5, 1 << 32), (5, (1 << 32) + 5), (0, 1 << 31), (0, lim), (None, None)]), (0, [(7, 7), (None, None)]), (1, [(1, 0), (1 << 32, 5), (1 << 31, 0), (lim, 0), ((1 << 33) + 1, 1), (None, None)])):
            for a, b in pairs:
                def setup(e, s):
                    if a is None:
                        for v in (A, B): e.constrain(s, v, 'sge', 0)
                        if not e.assume(s, icmp({-1: 'slt', 0: 'eq', 1: 'sgt'}[want], A, B), True): pass
                    e.store(s, P(X, o[0]), A if a is None else C(a, 64), 8)
                    e.store(s, P(Y, o[0]), B if b is None else C(b, 64), 8)
                    s.mon['keep'] = (A, B)

                def ex(eng, st, v, how, inst):
                    s = sign(eng, st, v)
                    ctx.count('size order')
                    ctx.oblig('larger files rank higher', '%s %s' % (g.name, want))
                    if s is None or s == want: return
                    ctx.violation('size-order', 'larger files are reported first', 'a file %s in the work list' % {-1: 'is not ranked below a larger one', 0: 'is not ranked equal to one of the same size', 1: 'is not ranked above a smaller one'}[want] +
                                  ('' if a is None else ' (sizes %d and %d)' % (a, b)), inst, st=st)
                eng = ctx.engine(models=dict(STD))
                eng.on_exit = ex
                ctx.run(eng, g, [X, Y], setup=setup)


def S20(ctx):
    ic = macro_int('OPTION_ICASE')
    for m in (0, ic):
        for given in (0, 1): Prio(ctx, m, given).run()
    ctx.need('insert'); ctx.need('prefix compared')
    twin_order(ctx)
    ctx.need('hash order')
    size_order(ctx)
    ctx.need('size order')


# ------------------------------------------------------------------ S09: JSON output
STDOUT_CALLS = ('printf', 'puts', 'putchar', 'vprintf', 'putchar_unlocked', 'puts_unlocked')


def writes_stdout(inst, name, u):
    """does this call write to standard output (constant streams and descriptors)"""
    a = [v for _, v in inst.a[1]]
    if name in STDOUT_CALLS: return True
    strm = {'fprintf': 0, 'vfprintf': 0, 'fputs': 1, 'fputc': 1, 'putc': 1, '_IO_putc': 1, 'fwrite': 3, 'json_dumpf': 1, 'apr_file_printf': 0, 'apr_file_puts': 1}.get(name)
    if strm is not None and strm < len(a) and a[strm][0] == 'reg':
        d = inst.fn.defs.get(a[strm][1]) if hasattr(inst.fn, 'defs') else None
        if d is None:
            for b in inst.fn.order:
                for x in b.insts:
                    if x.res == a[strm][1]: d = x
        return d is not None and d.op == 'load' and d.a == ('glob', '@stdout')
    if name == 'write' and a and a[0] == ('int', 1, 32): return True
    return False


class Json(Report):
    """the JSON report on groups of a few files: every value is traced to its source"""
    ROOTS = ('ft_report_json',)

    def __init__(self, ctx, n):
        Report.__init__(self, ctx, 'json')
        self.n = n
        self.o_mtime = offs(ctx.prog, FILE_T, 'mtime')
        self.flag = Flag(ctx.prog, 'ft_report_json.c', FILE_T, 'prioritized')
        self.tm = {f: struct_off(ctx.prog, 'ft_report_json.c', 'apr_time_exp_t', f) for f in ('tm_year', 'tm_mon', 'tm_mday', 'tm_hour', 'tm_min', 'tm_sec')}

    def v(self, key, rule, msg, inst, st): self.ctx.violation(key, rule, msg, inst, st=st)

    def settle(self, *a): pass
    def on_branch(self, *a): pass
    def on_phi(self, *a): pass
    def on_phi2(self, *a): pass

    # -- sources
    def heap_extract(self, eng, st, inst, args):
        if st.mon.get('took'): return [(st, NULL)]
        st.mon['took'] = 1
        s2 = st.fork()
        v = nonzero(eng, st, S(('heapf', 'first'), 64))
        st.mon['cur'] = v
        return [(st, v), (s2, NULL)]

    def hash_search(self, eng, st, inst, args):
        s2 = st.fork()
        v = nonzero(eng, st, S(('fsz', 'group'), 64))
        st.mon['grp'] = (v, 'sorted')
        for o in (self.o_nb, self.o_nck): eng.store(st, P(v, o[0]), C(self.n, o[1] * 8), o[1])
        eng.store(st, P(v, self.o_val[0]), S(('group size',), 64), 8)
        # every file of the group has the size of the group
        eng.store(st, P(st.mon['cur'], self.o_size[0]), S(('group size',), 64), 8)
        s2.mon['failed'] = 'a size group is missing'
        if len(args) > 3 and args[3].k != 'c':
            for s in (st, s2): eng.store(s, args[3], eng.fresh(s, ('hv', s.frames[-1].ctx, inst.id), 32), 4)
        return [(st, v), (s2, NULL)]

    def qsort(self, eng, st, inst, args): return [(st, None)]

    def files(self, st):
        return [v for k, v in st.mem.items() if len(k) == 4 and self.isfile(v)] + list(st.mon.get('members', ()))

    def member(self, st, f):
        m = st.mon.get('members', ())
        if f not in m: st.mon['members'] = m + (f,)

    def on_load(self, eng, st, inst, ptr, tag):
        Report.on_load(self, eng, st, inst, ptr, tag)
        if tag == ('%struct.' + CHK_T, 'file'):
            b, off, dyn = parts(ptr)
            v = st.mem.get((b, off, dyn, 8))
            if v is not None and self.isfile(v): self.member(st, v)

    # -- values
    def new(self, eng, st, inst, val):
        v = nonzero(eng, st, eng.fresh(st, ('js', len(st.mon.get('jn', ())), st.frames[-1].ctx, inst.id), 64))
        st.mon['jn'] = st.mon.get('jn', ()) + (1,)
        st.mon[('J', v)] = val
        return v

    def m(self, f):
        return lambda eng, st, inst, args: [(st, self.new(eng, st, inst, f(eng, st, args)))]

    def truth(self, on):
        def f(eng, st, args):
            ok, no = [], []
            for x in self.files(st):
                z = self.flag.off_(eng, st, x)
                if z is False: (ok if on else no).append(x)
                if z is True: (no if on else ok).append(x)
            return ('bool', on, tuple(ok), tuple(no))
        return f

    def null(self, eng, st, args):
        return ('null', tuple(x for x in self.files(st) if eng.eqc(st, fval(eng, st, x, self.o_sub)) == 0))

    def string(self, eng, st, inst, args):
        t = args[0]
        f = st.mon.get(('S', t))
        o = self.owner(st, t)
        out = [(st, self.new(eng, st, inst, ('str', o or f or eng.cstring(t) or ('other', t))))]
        return out

    def jstring(self, eng, st, inst, args):
        o = self.owner(st, args[0])
        bad = st.fork() if o and o[1] in ('path', 'sub') else None
        out = self.string(eng, st, inst, args)
        if bad is not None:
            bad.mon['notext'] = bad.mon.get('notext', '') + ' ' + o[1]
            bad.note(inst, 'the text is not UTF-8')
            out.append((bad, NULL))
        return out

    def integer(self, eng, st, args): return ('int', args[0])

    def jset(self, eng, st, inst, args):
        o, k = st.mon.get(('J', args[0])), eng.cstring(args[1])
        if o and o[0] == 'obj' and k is not None:
            if eng.eqc(st, args[2]) == 0: return [(st, C(-1, 32))]
            st.mon[('J', args[0])] = ('obj', tuple((a, b) for a, b in o[1] if a != k) + ((k, args[2]),))
        return [(st, C(0, 32))]

    def jget(self, eng, st, inst, args):
        o, k = st.mon.get(('J', args[0])), eng.cstring(args[1])
        if o and o[0] == 'obj':
            for a, b in o[1]:
                if a == k: return [(st, b)]
            return [(st, NULL)]
        return None

    def jappend(self, eng, st, inst, args):
        o = st.mon.get(('J', args[0]))
        if o and o[0] == 'arr': st.mon[('J', args[0])] = ('arr', o[1] + (args[1],))
        return [(st, C(0, 32))]

    def sprintf(self, eng, st, inst, args):
        v = nonzero(eng, st, eng.fresh(st, ('fmt', st.frames[-1].ctx, inst.id, len(st.mon.get('jn', ()))), 64))
        st.mon[('S', v)] = ('fmt', eng.cstring(args[1]), tuple(args[2:]))
        return [(st, v)]

    def dup(self, eng, st, inst, args):
        v = nonzero(eng, st, eng.fresh(st, ('dup', st.frames[-1].ctx, inst.id, len(st.mon.get('jn', ()))), 64))
        st.mon[('S', v)] = self.owner(st, args[1]) or st.mon.get(('S', args[1])) or eng.cstring(args[1]) or ('other', args[1])
        return [(st, v)]

    def explode(self, zone):
        def f(eng, st, inst, args):
            def ok(s):
                for n, (off, size) in self.tm.items(): eng.store(s, P(args[0], off), S((zone, n, args[1]), 32), size)
            return status_alts(eng, st, inst, ok)
        return f

    def dump(self, eng, st, inst, args):
        ctx = self.ctx
        ctx.count('dump')
        ctx.oblig('the document written is the report', site(inst))
        if not is_stdout_(args[1]): return self.v('dump-stream', 'the report goes to standard output', 'the JSON document is written somewhere else than to standard output', inst, st) or [(st, C(0, 32))]
        if st.mon.get('dumped'): self.v('dump-twice', 'standard output holds one JSON document', 'more than one JSON document is written', inst, st)
        st.mon['dumped'] = 1
        self.root(eng, st, inst, args[0])
        s2 = st.fork()
        s2.mon['failed'] = 'the document could not be written'
        return [(st, C(0, 32)), (s2, C(-1, 32))]

    def flush(self, eng, st, inst, args):
        s2 = st.fork()
        s2.mon['failed'] = 'standard output could not be flushed'
        return [(st, C(0, 32)), (s2, C(-1, 32))]

    # -- the document
    def get(self, st, t): return st.mon.get(('J', t)) or ('?',)

    def root(self, eng, st, inst, t):
        r = self.get(st, t)
        if r[0] != 'arr': return
        for s in r[1]:
            o = self.get(st, s)
            if o[0] != 'obj': continue
            self.ctx.count('set')
            d = dict(o[1])
            R = 'each set carries its size and hash'
            for k in (b'size_bytes', b'hash_xxh128', b'duplicates'):
                if k not in d: self.v('set-missing', R, 'a set is written without its %s' % k.decode(), inst, st)
            n = self.get(st, d.get(b'size_bytes', NULL))
            if n[0] == 'int' and n[1] is not S(('group size',), 64):
                self.v('set-size', R, 'the size written for a set is not the size of its files', inst, st)
            h = self.get(st, d.get(b'hash_xxh128', NULL))
            slots = set()
            if h[0] == 'str' and isinstance(h[1], tuple) and h[1][0] == 'fmt': slots = self.hash_text(eng, st, inst, h[1])
            a = self.get(st, d.get(b'duplicates', NULL))
            if a[0] != 'arr': continue
            fs = [self.file(eng, st, inst, x) for x in a[1]]
            if len(a[1]) < 2: self.v('set-single', R, 'a set of fewer than two files is written', inst, st)
            where = {parts(self.slot_of(f))[1:] for f in fs if f is not None and self.slot_of(f) is not None}
            if slots and where and None not in fs and not slots & where:
                self.v('set-hash-other', R, 'the hash written for a set is not the hash of its files', inst, st)

    def hash_text(self, eng, st, inst, h):
        R = 'each set carries its size and hash'
        fmt, a = h[1], h[2]
        if fmt is None or re.sub(rb'l+', b'l', fmt) != b'%016lx%016lx':
            self.v('hash-format', R, 'the hash is not written as 32 hexadecimal digits', inst, st)
            return set()
        src = []
        for x in a[:2]:
            n = symname(x)
            src.append(parts(n[1]) if isinstance(n, tuple) and n[0] == 'ld' else None)
        if None in src: return set()
        hi, lo = self.o_hash[0] + 8, self.o_hash[0]
        d0, d1 = (s[1] % self.slotsz for s in src)
        if (d0, d1) != (hi, lo) or src[0][1] - hi != src[1][1] - lo or src[0][2] != src[1][2]:
            self.v('hash-order', R, 'the hash is not written with its high half first', inst, st)
        return {(src[0][1] - hi + self.o_file[0], src[0][2])}

    def file(self, eng, st, inst, t):
        o = self.get(st, t)
        if o[0] != 'obj': return None
        d = dict(o[1])
        self.ctx.count('file entry')
        R = 'each file entry describes its file'
        f = None
        p = self.get(st, d.get(b'path', NULL))
        if b'path' not in d:
            if ' path' in st.mon.get('notext', ''): self.v('json-path-null', R, 'a file whose path is not UTF-8 is written without its path', inst, st)
            else: self.v('file-path', R, 'a file is written without its path', inst, st)
        elif p[0] == 'str' and isinstance(p[1], tuple):
            if len(p[1]) == 2 and p[1][1] == 'path': f = p[1][0]
            elif len(p[1]) == 2 and p[1][1] in ('sub', 'temp'): self.v('file-path', R, 'something else than the path of the file is written as its path', inst, st)
        for k in (b'mtime_utc', b'prioritized'):
            if k not in d: self.v('file-missing', R, 'a file is written without its %s' % k.decode(), inst, st)
        un = self.mask & self.UNTAR
        s = d.get(b'archive_subpath')
        if un and s is None and ' sub' not in st.mon.get('notext', ''): self.v('file-subpath', R, 'a file is written without its place in the archive', inst, st)
        if not un and s is not None: self.v('file-subpath', R, 'a place in an archive is written although archives are not opened', inst, st)
        if f is None: return None
        if s is not None:
            x = self.get(st, s)
            if x[0] == 'null' and f not in x[1] or x[0] == 'str' and isinstance(x[1], tuple) and x[1] != (f, 'sub'):
                self.v('file-subpath', R, 'the place in the archive written for a file is not its own', inst, st)
        b = self.get(st, d.get(b'prioritized', NULL))
        if b[0] == 'bool' and f in b[3]: self.v('file-prio', R, 'the preferred mark written for a file is not its own', inst, st)
        if b[0] == 'bool' and f not in b[2] and f not in b[3]: self.v('file-prio', R, 'the preferred mark written for a file does not depend on the file', inst, st)
        m = self.get(st, d.get(b'mtime_utc', NULL))
        if m[0] == 'str' and isinstance(m[1], tuple) and m[1][0] == 'fmt': self.time(eng, st, inst, f, m[1])
        return f

    def time(self, eng, st, inst, f, x):
        fmt, a = x[1], x[2]
        R = 'modification times are written in UTC'
        if fmt != b'%04d-%02d-%02dT%02d:%02d:%02dZ': return self.v('time-format', R, 'the modification time is not written as year-month-dayThour:minute:secondZ', inst, st)
        mt = fval(eng, st, f, self.o_mtime)
        for t, (n, k) in zip(a, (('tm_year', 1900), ('tm_mon', 1), ('tm_mday', 0), ('tm_hour', 0), ('tm_min', 0), ('tm_sec', 0))):
            b, c = lin(t)
            y = symname(b) if b is not None else None
            if not isinstance(y, tuple) or y[0] not in ('gmt', 'local'): continue
            if y[0] == 'local': return self.v('time-zone', R, 'the modification time is written in local time', inst, st)
            if y[1] != n or c != k: return self.v('time-part', R, 'a part of the modification time is wrong', inst, st)
            if y[2] is not mt and eng.ev(st, icmp('eq', y[2], mt)) is not True: return self.v('time-file', R, 'the time written for a file is not its modification time', inst, st)

    def on_call(self, eng, st, inst, name, args):
        u = inst.fn.unit
        if name == 'json_dumpf' or not writes_stdout(inst, name, u): return None
        self.ctx.count('stdout')
        s = None
        if name == 'printf': s = eng.cstring(args[0])
        elif name in ('puts', 'fputs'): s = eng.cstring(args[0])
        elif name == 'fprintf': s = eng.cstring(args[1])
        elif name in ('putchar', 'fputc', 'putc'):
            c = eng.eqc(st, args[0])
            s = bytes([c & 255]) if c is not None else None
        elif name == 'fwrite': s = eng.cstring(args[0])
        if s is None or s.strip(): self.v('stdout-extra', 'standard output holds only the JSON document', 'something else than the JSON document is written to standard output', inst, st)
        return None

    def on_exit(self, eng, st, v, how, inst):
        ctx = self.ctx
        ctx.count('exit')
        ctx.oblig('success means one complete document', site(inst))
        z = ret_is_zero(eng, st, v)
        w = st.mon.get('failed')
        if w and z is not False: self.v('json-hidden', 'a failed report is a failure', 'the JSON report ends successfully although %s' % w, inst, st)
        if z is not False and not st.mon.get('dumped'): self.v('json-none', 'success means one complete document', 'the JSON report ends successfully without writing a document', inst, st)

    def run(self):
        ctx = self.ctx
        for self.mask in (0, self.UNTAR):
            A = self.m
            mods = dict(json_object=A(lambda e, s, a: ('obj', ())), json_array=A(lambda e, s, a: ('arr', ())), json_string=self.jstring, json_string_nocheck=self.string,
                        json_integer=A(self.integer), json_true=A(self.truth(1)), json_false=A(self.truth(0)), json_null=A(self.null), json_object_set_new=self.jset,
                        json_object_set=self.jset, json_object_set_new_nocheck=self.jset, json_array_append_new=self.jappend, json_array_append=self.jappend, json_object_get=self.jget,
                        apr_psprintf=self.sprintf, apr_pstrdup=self.dup, apr_time_exp_gmt=self.explode('gmt'), apr_time_exp_lt=self.explode('local'), json_dumpf=self.dump, fflush=self.flush)
            eng = self.engine()
            eng.models.update(mods)
            eng.unroll = self.n + 2
            eng.K = 4000

            def setup(e, s):
                e.store(s, P(self.conf, self.o_mask[0]), C(self.mask, self.o_mask[1] * 8), self.o_mask[1])
            ctx.run(eng, 'ft_report_json', [self.conf], setup=setup)

    def filecmp(self, eng, st, inst, args):
        out = []
        for s, r, k in ((st, 0, 0), (st.fork(), 0, 1), (st.fork(), 1, 0)):
            if args[5].k != 'c': eng.store(s, args[5], C(k, 32), 4)
            out.append((s, C(r, 32)))
        return out

    def untar(self, eng, st, inst, args):
        s2 = st.fork()
        s2.mon['failed'] = 'an archive member could not be extracted'
        v = nonzero(eng, st, eng.fresh(st, ('tmpf', st.frames[-1].ctx, inst.id), 64))
        return [(st, v), (s2, NULL)]

    def memcmp(self, eng, st, inst, args):
        s2 = st.fork()
        return [(st, C(0, 32)), (s2, C(1, 32))]


def is_stdout_(t):
    from rules_scan import is_stdout
    return is_stdout(t) or not isinstance(symname(t), tuple)


def S09(ctx):
    if ctx.prog.lookup('ft_report_json') is None: raise AnalysisBroken('ft_report_json not found')
    n0 = set(ctx.funcs)
    for n in ((2,) if ctx.tier == 'quick' else (2, 3)): Json(ctx, n).run()
    ctx.jsonfuncs = set(ctx.funcs) - n0
    for k in ('dump', 'set', 'file entry', 'exit'): ctx.need(k)
    # nothing else writes to standard output on the way
    roots = [ctx.prog.need(n) for n in ('ftwin_main', 'ft_traverse_path', 'ft_process_files', 'ft_report_json')]
    stop = ('ft_report_duplicates', 'ft_image_twin_report', 'ft_config_parse_args', 'json_dumpf')
    for f in closure(ctx.prog, roots, stop):
        ctx.funcs.add(f.name)
        if f.name in ctx.jsonfuncs: continue
        for x, n in ctx.prog.calls(f):
            if n and writes_stdout(x, n, f.unit):
                ctx.violation('stdout-extra', 'standard output holds only the JSON document', 'standard output is written while a JSON report is prepared', x)
    from rules_cli import Main
    class M(Main):
        def v(self, *a): pass
        def on_report(self, mask, kind, inst, st):
            if mask & self.bit['JSON'] and kind != 'json': self.ctx.violation('image-json-stdout' if kind == 'image' else 'not-json', 'JSON output is JSON', 'with JSON output asked for, the %s report is written as plain text' % kind, inst, st=st)
    m = M(ctx)
    for mask in (m.bit['JSON'], m.bit['JSON'] | m.bit['PUZZL']): m.run(mask, 1)
    ctx.need('report')


# ------------------------------------------------------------------ S01: the scan changes nothing
MUTATE = {}
for _k, _ns in {
    'removes or renames files': 'unlink unlinkat rmdir remove rename renameat renameat2 apr_file_rename apr_dir_remove shred',
    'creates files or directories': 'creat mkdir mkdirat mknod mkfifo link linkat symlink symlinkat apr_file_link apr_dir_make apr_dir_make_recursive apr_file_copy apr_file_append apr_file_namedpipe_create copy_file_range sendfile',
    'changes files': 'truncate ftruncate truncate64 ftruncate64 apr_file_trunc fallocate posix_fallocate pwrite pwrite64 pwritev',
    'changes attributes of files': 'chmod fchmod fchmodat chown fchown lchown fchownat utime utimes utimensat futimens futimes lutimes setxattr fsetxattr lsetxattr removexattr apr_file_attrs_set apr_file_perms_set apr_file_mtime_set flock lockf apr_file_lock',
    'starts other programs': 'system popen fork vfork execv execve execvp execl execlp execle posix_spawn posix_spawnp apr_proc_create apr_proc_fork',
    'changes the working directory': 'chdir fchdir chroot apr_filepath_set',
}.items():
    for _n in _ns.split(): MUTATE[_n] = _k


class Consts:
    """the constants a value can have, through copies, selections, bit operations, parameters and results of the program's own functions"""
    def __init__(self, prog, funcs):
        self.prog, self.funcs = prog, funcs
        self.callers = {}
        for f in funcs:
            for x, n in prog.calls(f):
                g = prog.lookup(n, f.unit) if n else None
                if g is not None: self.callers.setdefault(g, []).append(x)
        self.defs = {}

    def d(self, f, r):
        m = self.defs.get(f)
        if m is None: m = self.defs[f] = {x.res: x for b in f.order for x in b.insts if x.res}
        return m.get(r)

    def get(self, f, v, depth=0):
        """set of (value, call site that supplies it) or None when not a known constant on some path; unknown parts are dropped"""
        if depth > 12: return {}
        if v[0] == 'int': return {v[1]: None}
        if v[0] == 'null': return {0: None}
        if v[0] == 'glob': return {v: None}
        if v[0] != 'reg': return {}
        i = self.d(f, v[1])
        if i is None:
            names = [p if p.startswith('%') else '%' + p for p in f.params]
            if v[1] not in names: return {}
            k = names.index(v[1])
            r = {}
            for x in self.callers.get(f, ()):
                if k < len(x.a[1]):
                    for c, w in self.get(x.fn, x.a[1][k][1], depth + 1).items(): r[c] = w or x
            return r
        G = lambda o: self.get(f, o, depth + 1)
        if i.op == 'phi':
            r = {}
            for o, _ in i.a: r.update(G(o))
            return r
        if i.op == 'select': return {**G(i.a[1]), **G(i.a[2])}
        if i.op in ('or', 'and', 'add', 'xor'):
            a, b = (G(o) for o in i.a[:2]) if isinstance(i.a[0], tuple) and i.a[0][0] in ('int', 'reg', 'null') else ({}, {})
            ints = lambda z: [x for x in z if isinstance(x, int)]
            f2 = {'or': lambda x, y: x | y, 'and': lambda x, y: x & y, 'add': lambda x, y: x + y, 'xor': lambda x, y: x ^ y}[i.op]
            if i.op == 'or' and (not a or not b): return {x: None for x in ints(a or b)}
            return {f2(x, y): None for x in ints(a) for y in ints(b)}
        if i.op in ('zext', 'sext', 'trunc'): return G(i.a[0]) if isinstance(i.a, tuple) and i.a and isinstance(i.a[0], tuple) else G(i.a)
        if i.op == 'load' and isinstance(i.a, tuple) and i.a[0] == 'glob':
            g = f.unit.globals.get(i.a[1])
            if g and g.get('const') and g['init'] and g['init'][0] == 'int': return {g['init'][1]: None}
        return {}

    def text(self, f, v):
        r = set()
        for c in self.get(f, v):
            if isinstance(c, tuple) and c[0] == 'glob':
                g = f.unit.globals.get(c[1])
                if g and g['init'] and g['init'][0] == 'str': r.add(g['init'][1].split(b'\0')[0])
        return r


def S01(ctx):
    prog = ctx.prog
    roots = [prog.need(n) for n in ('main', 'ftwin_main', 'ft_traverse_path', 'ft_process_files', 'ft_report_duplicates', 'ft_report_json', 'ft_image_twin_report', 'ft_config_parse_args')]
    fs = closure(prog, roots)
    cs = Consts(prog, fs)
    names = 'APR_FOPEN_READ APR_FOPEN_WRITE APR_FOPEN_CREATE APR_FOPEN_APPEND APR_FOPEN_TRUNCATE APR_FOPEN_DELONCLOSE'.split()
    K = {n: const(n, 'ft_file.h') for n in names}
    W = sum(K[n] for n in names[1:])
    R = 'scanning changes nothing'
    parent = {}
    for f in fs:
        for x, n in prog.calls(f):
            g = prog.lookup(n, f.unit) if n else None
            if g is not None: parent.setdefault(g, f)

    def chain(f):
        r, s = [f.name], {f}
        while f in parent and parent[f] not in s and f.name != 'main':
            f = parent[f]; s.add(f); r.append(f.name)
        return ' <- '.join(r[:6])

    mayremove = set(closure(prog, [prog.need(n) for n in ('ft_report_duplicates', 'ft_report_json', 'ft_process_files')]))

    def bad(key, msg, x): ctx.violation(key, R, '%s (%s)' % (msg, chain(x.fn)), x)
    for f in fs: ctx.funcs.add(f.name)
    for x, n in extern_calls(prog, fs):
        f = x.fn
        ctx.callsites.add(site(x))
        ctx.count('outside call')
        a = [v for _, v in x.a[1]]
        ctx.oblig('call outside the program changes no user file', '%s %s' % (n, site(x)))
        if n in MUTATE:
            bad('effect-' + n, 'a scan %s: %s is called' % (MUTATE[n], n), x)
        elif n in ('apr_file_open',):
            ctx.count('open')
            for c, w in cs.get(f, a[2]).items():
                if isinstance(c, int) and c & W: bad('open-write', 'a file is opened for writing, creation, truncation or deletion (flags 0x%x)' % c, w or x)
        elif n in ('open', 'open64', 'openat', 'openat64'):
            i = 2 if n.startswith('openat') else 1
            for c in cs.get(f, a[i]):
                if isinstance(c, int) and c & (1 | 2 | 0o100 | 0o1000 | 0o2000): bad('open-write', 'a file is opened for writing, creation or truncation (flags 0%o)' % c, x)
        elif n in ('fopen', 'fopen64', 'freopen', 'freopen64'):
            for t in cs.text(f, a[1]):
                if set(t) & set(b'wa+'): bad('open-write', 'a file is opened for writing (mode %s)' % t.decode('latin1'), x)
        elif n == 'apr_mmap_create':
            ctx.count('map')
            for c in cs.get(f, a[4]):
                if isinstance(c, int) and c & 2: bad('map-write', 'a scanned file is mapped for writing', x)
        elif n in ('mmap', 'mmap64'):
            for c in cs.get(f, a[2]):
                for d in cs.get(f, a[3]):
                    if isinstance(c, int) and isinstance(d, int) and c & 2 and d & 1 and not d & 0x20: bad('map-write', 'a scanned file is mapped for writing', x)
        elif n in ('mkstemp', 'mkstemps', 'mkdtemp', 'mkostemp', 'apr_file_mktemp'):
            ctx.count('temp')
            # temporary copies are made by archive extraction only (its own property), not while plain files are scanned
            if f not in closure(prog, [g for g in fs if g.name == 'ft_archive_untar_file']): bad('temp', 'a temporary file is made outside archive extraction', x)
        elif n == 'apr_file_remove':
            ctx.count('remove')
            if f not in mayremove: bad('remove', 'a file is removed where no temporary copy can exist', x)
        elif n.startswith('archive_write_disk') or n in ('archive_write_open_filename', 'archive_read_extract', 'archive_read_extract2', 'archive_write_open_fd', 'archive_write_open_file'):
            if f not in closure(prog, [g for g in fs if g.name == 'ft_archive_untar_file']): bad('extract', 'an archive member is written outside archive extraction', x)
            if n.startswith('archive_read_extract'): bad('extract', 'archive members are written to the places they name', x)
    ctx.need('open', 2); ctx.need('map'); ctx.need('outside call', 100)
