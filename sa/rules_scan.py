"""Rules for the scanner: file comparison, checksums, reports, traversal, processing."""
from common import *

_consts = {}


def const(name, header='ft_config.h'):
    k = (ir.REPO, name)
    if k not in _consts: _consts[k] = enum_int(name, header)
    return _consts[k]


def need_call(ctx, roots, names):
    """some function in the closure of roots calls one of names"""
    for f in closure(ctx.prog, [ctx.prog.need(r) for r in roots]):
        for x, n in ctx.prog.calls(f):
            if n in names: return True
    return False


# ---------------------------------------------------------------- file contents: S03 filecmp, S04 checksum, S11 handles
class FileModel:
    """models of the APR file API: handles, mappings, reads.
    monitor keys: ('fd',h)->(path, open?)   ('mm',m)->(path, off, len, open?)   ('chunk',path)->(buf, n) unread data waiting
    ('eof',path)->1   'fail'->1 when a call reported a failure that was not end of file"""
    def __init__(self, ctx, pairing):
        self.ctx, self.pairing = ctx, pairing
        self.EOF = const('APR_EOF', 'ft_file.h')
        self.models = {
            'apr_file_open': self.open, 'apr_mmap_create': self.mmap, 'apr_mmap_delete': self.unmap,
            'apr_file_close': self.close, 'apr_file_read': self.read, 'apr_file_read_full': self.read_full,
            'XXH3_createState': self.xnew, 'XXH3_freeState': self.xfree,
            'memcmp': self.memcmp, 'bcmp': self.memcmp,
        }
        self.on_memcmp = None

    def failed(self, s, inst):
        s.mon['fail'] = 1

    def open(self, eng, st, inst, args):
        def ok(s):
            h = eng.fresh(s, ('fdh', s.frames[-1].ctx, inst.id), 64)
            eng.constrain(s, h, 'ne', 0)
            eng.store(s, args[0], h, 8)
            s.mon[('fd', h)] = (args[1], 1)
            s.mon.pop(('eof', args[1]), None)
            s.mon.pop(('chunk', args[1]), None)
            s.mon.pop(('data', args[1]), None)
        return status_alts(eng, st, inst, ok, lambda s: self.failed(s, inst))

    def mmap(self, eng, st, inst, args):
        def ok(s):
            m = eng.fresh(s, ('mmh', s.frames[-1].ctx, inst.id), 64)
            eng.constrain(s, m, 'ne', 0)
            eng.store(s, args[0], m, 8)
            f = s.mon.get(('fd', args[1]))
            s.mon[('mm', m)] = (f[0] if f else args[1], args[2], args[3], 1)
        # a mapping may fail without the operation as a whole failing
        return status_alts(eng, st, inst, ok, None)

    def unmap(self, eng, st, inst, args):
        m = st.mon.get(('mm', args[0]))
        if m:
            if self.pairing and not m[3]:
                self.ctx.violation('double-unmap', 'each mapping is released once', 'a mapping is released twice', inst, st=st)
            st.mon[('mm', args[0])] = m[:3] + (0,)
        elif self.pairing:
            self.use_null(eng, st, inst, args[0], 'a mapping')
        return status_alts(eng, st, inst, None, lambda s: self.failed(s, inst))

    def use_null(self, eng, st, inst, h, what):
        if eng.eqc(st, h) == 0:
            self.ctx.violation('null-release', 'each handle is released once', '%s that was never created is released' % what, inst, st=st)

    def close(self, eng, st, inst, args):
        f = st.mon.get(('fd', args[0]))
        if f:
            if self.pairing:
                self.ctx.oblig('file handle closed once', site(inst))
                if not f[1]: self.ctx.violation('double-close', 'each file handle is closed once', 'a file handle is closed twice', inst, st=st)
            st.mon[('fd', args[0])] = (f[0], 0)
        elif self.pairing:
            self.use_null(eng, st, inst, args[0], 'a file handle')
        return status_alts(eng, st, inst, None, lambda s: self.failed(s, inst))

    def read(self, eng, st, inst, args, full=False):
        f = st.mon.get(('fd', args[0]))
        path = f[0] if f else args[0]
        if f and not f[1] and self.pairing:
            self.ctx.violation('use-closed', 'closed handles are not used', 'a closed file is read', inst, st=st)
        cap = eng.load(st, args[2], 8, 64) if args[2].k != 'c' else None
        out = []
        ctxk = st.frames[-1].ctx
        if ('chunk', path) in st.mon and not st.mon.get(('lost', path)):
            # data read earlier was never looked at
            st.mon[('lost', path)] = inst.id
        base = base_of(args[1])
        for kind in ('data', 'eof', 'err'):
            s = st.fork()
            eng.havoc(s, args[1], inst, 'rd')
            n = eng.fresh(s, ('rdn', ctxk, inst.id), 64)
            if kind == 'data':
                eng.constrain(s, n, 'ne', 0)
                c = eng.eqc(s, cap) if cap is not None else None
                if c: eng.constrain(s, n, 'ule', c)
                ret = C(0, 32)
                s.mon[('chunk', path)] = (args[1], n)
                s.mon[('data', path)] = 1
                if s.mon.get(('eof', path)): s.dead = True
            elif kind == 'eof':
                if full:
                    # read_full delivers the last partial chunk together with end of file
                    s3 = s.fork()
                    n3 = eng.fresh(s3, ('rdn', ctxk, inst.id), 64)
                    eng.constrain(s3, n3, 'ne', 0)
                    s3.mon[('chunk', path)] = (args[1], n3)
                    s3.mon[('eof', path)] = 1
                    if args[2].k != 'c': eng.store(s3, args[2], n3, 8)
                    out.append((s3, C(self.EOF, 32)))
                eng.constrain(s, n, 'eq', 0)
                s.mon[('eof', path)] = 1
                ret = C(self.EOF, 32)
            else:
                r = eng.fresh(s, eng.site(s, inst, 'st'), 32)
                eng.constrain(s, r, 'ne', 0)
                eng.constrain(s, r, 'ne', self.EOF)
                ret = r
                s.mon['fail'] = 1
                s.mon[('rderr', path)] = 1
                s.note(inst, 'read of %s fails' % show(path))
            if args[2].k != 'c': eng.store(s, args[2], n if kind != 'eof' else C(0, 64), 8)
            if not s.dead: out.append((s, ret))
        return out

    def read_full(self, eng, st, inst, args):
        # (file, buf, nbytes, &bytes_read)
        a = list(args)
        tmp = S(('a', st.frames[-1].ctx, 'rf%d' % inst.id), 64)
        st.mem[(tmp, 0, (), 8)] = args[2]
        r = self.read(eng, st, inst, [args[0], args[1], tmp], True)
        for s, _ in r:
            if len(args) > 3 and args[3].k != 'c': eng.store(s, args[3], eng.load(s, tmp, 8, 64), 8)
        return r

    def xnew(self, eng, st, inst, args):
        s2 = st.fork()
        h = eng.fresh(st, ('xst', st.frames[-1].ctx, inst.id), 64)
        eng.constrain(st, h, 'ne', 0)
        st.mon[('xs', h)] = 1
        s2.mon['fail'] = 1
        return [(st, h), (s2, NULL)]

    def xfree(self, eng, st, inst, args):
        if ('xs', args[0]) in st.mon:
            if self.pairing and not st.mon[('xs', args[0])]:
                self.ctx.violation('double-free', 'each hash state is freed once', 'a hash state is freed twice', inst, st=st)
            st.mon[('xs', args[0])] = 0
        return [(st, C(0, 32))]

    def mapped(self, eng, st, ptr):
        """(path, off, len) when ptr is the start address of a mapping"""
        b = ptr
        if b.k == 's' and isinstance(b.a[0], tuple) and b.a[0][0] == 'ld':
            m = st.mon.get(('mm', base_of(b.a[0][1])))
            if m: return m
        return None

    def memcmp(self, eng, st, inst, args):
        v = eng.fresh(st, ('cmpr', st.frames[-1].ctx, inst.id), 32)
        if self.on_memcmp: self.on_memcmp(eng, st, inst, args, v)
        return [(st, v)]

    def leaks(self, eng, st, inst):
        if not self.pairing: return
        for k, v in st.mon.items():
            if isinstance(k, tuple) and k[0] == 'fd' and v[1]:
                self.ctx.violation('fd-leak', 'every handle is released', 'an opened file is not closed on this path', inst, st=st)
            if isinstance(k, tuple) and k[0] == 'mm' and v[3]:
                self.ctx.violation('mm-leak', 'every mapping is released', 'a mapping is not released on this path', inst, st=st)
            if isinstance(k, tuple) and k[0] == 'xs' and v:
                self.ctx.violation('xs-leak', 'every hash state is freed', 'a hash state is not freed on this path', inst, st=st)


def same(eng, st, x, y):
    return x is y or eng.ev(st, icmp('eq', x, y)) is True


def filecmp_run(ctx, pairing):
    prog = ctx.prog
    fm = FileModel(ctx, pairing)
    fn = prog.need('filecmp')
    A = [S(('arg', i, p), bits_of(t)) for i, (p, t) in enumerate(zip(fn.params, fn.paramtys))]
    pool, p1, p2, size, excess, res = A
    ctx.count('memcmp', 1 if need_call(ctx, ['filecmp'], ('memcmp', 'bcmp')) else 0)

    def on_memcmp(eng, st, inst, args, v):
        a, b, ln = args[:3]
        m1, m2 = fm.mapped(eng, st, a), fm.mapped(eng, st, b)
        if m1 and m2:
            if m1[0] is not m2[0] and {m1[0], m2[0]} == {p1, p2}:
                ok = same(eng, st, ln, size) and all(same(eng, st, m[2], size) and eng.eqc(st, m[1]) == 0 and m[3] for m in (m1, m2))
                st.mon['full'] = v if ok else 'bad'
            else: st.mon['full'] = 'bad'
            return
        c1, c2 = st.mon.get(('chunk', p1)), st.mon.get(('chunk', p2))
        if c1 and c2 and {base_of(a), base_of(b)} == {base_of(c1[0]), base_of(c2[0])} and a is not b:
            if same(eng, st, c1[1], c2[1]) and (same(eng, st, ln, c1[1]) or same(eng, st, ln, c2[1])) and {a, b} == {c1[0], c2[0]} \
                    and not st.mon.get(('lost', p1)) and not st.mon.get(('lost', p2)):
                st.mon['cmp'] = v
                st.mon.pop(('chunk', p1)); st.mon.pop(('chunk', p2))
            else:
                st.mon['cmpbad'] = inst.id

    fm.on_memcmp = on_memcmp

    def settle(eng, st):
        """chunk comparison results that are known zero are forgotten, known nonzero recorded as difference"""
        c = st.mon.get('cmp')
        if c is not None:
            z = ret_is_zero(eng, st, c)
            if z: st.mon.pop('cmp')
            elif z is False:
                st.mon.pop('cmp'); st.mon['diff'] = 1

    def on_branch(eng, st, inst, cond, val):
        settle(eng, st)
        c1, c2 = st.mon.get(('chunk', p1)), st.mon.get(('chunk', p2))
        if c1 and c2 and eng.ev(st, icmp('eq', c1[1], c2[1])) is False: st.mon['diff'] = 1

    def pre_read(eng, st, inst, name, args):
        if name in ('apr_file_read', 'apr_file_read_full'):
            settle(eng, st)
            if 'cmp' in st.mon: st.mon['unchecked'] = 1      # next chunk read although the last comparison is not known equal
        return None

    def on_exit(eng, st, v, how, inst):
        ctx.count('exit')
        settle(eng, st)
        fm.leaks(eng, st, inst)
        if pairing: return
        z = ret_is_zero(eng, st, v)
        r = eng.load(st, res, 4, 32)
        ctx.oblig('verdict of filecmp justified', site(inst))
        if z is False:
            if not st.mon.get('fail'):
                ctx.violation('spurious-error', 'errors only after a failure', 'comparison reports an error although no operation failed', inst, st=st)
            return
        if z is None:
            return
        if any(st.mon.get(('rderr', p)) for p in (p1, p2)):
            ctx.violation('read-error-hidden', 'a failed read is never a verdict', 'comparison reports success although a read failed', inst, st=st)
            return
        if r.k == 's' and r.a[0] == ('ld', res):
            ctx.violation('no-verdict', 'success always carries a verdict', 'comparison succeeds without setting the result', inst, st=st)
            return
        if r.k == 's' and isinstance(r.a[0], tuple) and r.a[0][0] in ('undef', 'undefv'):
            ctx.violation('no-verdict', 'success always carries a verdict', 'comparison succeeds with an undefined result', inst, st=st)
            return
        zero = ret_is_zero(eng, st, r)
        if eng.eqc(st, size) == 0:
            if zero is False: ctx.violation('empty-differ', 'empty files are equal', 'two empty files are reported different', inst, st=st)
            return
        full = st.mon.get('full')
        if isinstance(full, T):
            if full is r: return
            fz = ret_is_zero(eng, st, full)
            if fz is True and zero is True: return
            if fz is False and zero is False: return
            if zero is False and fz is True: ctx.violation('equal-as-different', 'identical files are reported equal', 'files that compared equal are reported different', inst, st=st)
            else: ctx.violation('different-as-equal', 'equal only after comparing everything', 'the result does not follow from the comparison of the two mappings', inst, st=st)
            return
        if full == 'bad':
            ctx.violation('partial-compare', 'equal only after comparing everything', 'the mapped comparison does not cover the whole of both files', inst, st=st)
            return
        c = st.mon.get('cmp')
        eof = st.mon.get(('eof', p1)) and st.mon.get(('eof', p2))
        one = bool(st.mon.get(('eof', p1))) != bool(st.mon.get(('eof', p2)))
        pend = any(('chunk', p) in st.mon for p in (p1, p2))
        if zero is False:
            if eof and not pend and not st.mon.get('diff') and not st.mon.get('cmpbad') and c is None and not one:
                ctx.violation('equal-as-different', 'identical files are reported equal', 'files whose contents all compared equal are reported different', inst, st=st)
            return
        if c is not None and c is r: 
            # verdict is the last chunk's: nonzero is a difference, zero needs end of file
            pass
        if st.mon.get('diff') or st.mon.get('unchecked'):
            ctx.violation('different-as-equal', 'equal only after comparing everything', 'the result may be "equal" although a chunk differed', inst, st=st)
        elif st.mon.get('cmpbad') or any(st.mon.get(('lost', p)) for p in (p1, p2)):
            ctx.violation('partial-compare', 'equal only after comparing everything', 'a chunk is compared with another length than was read, or not at all', inst, st=st)
        elif not eof or pend:
            ctx.violation('early-equal', 'equal only after comparing everything', 'the result may be "equal" before both files were read and compared to their end', inst, st=st)

    eng = ctx.engine(models=dict(STD, **fm.models))
    eng.on_exit, eng.on_branch, eng.on_call = on_exit, on_branch, pre_read
    if ctx.counts.get('memcmp'):
        ctx.run(eng, fn, A, setup=lambda e, s: e.constrain(s, res, 'ne', 0))
    else:
        ctx.notes.append('no memcmp in filecmp: comparison by other means, not decided')


def checksum_run(ctx, pairing):
    prog = ctx.prog
    fm = FileModel(ctx, pairing)
    fn = prog.need('checksum_file')
    A = [S(('arg', i, p), bits_of(t)) for i, (p, t) in enumerate(zip(fn.params, fn.paramtys))]
    path, size, excess, out, pool = A

    def oneshot(eng, st, inst, args):
        m = fm.mapped(eng, st, args[0])
        ok = m and m[0] is path and eng.eqc(st, m[1]) == 0 and same(eng, st, m[2], size) and same(eng, st, args[1], size) and m[3]
        st.mon['hash'] = 'ok' if ok else 'bad'
        if m: ctx.count('hash site')
        return [(st, None)]

    def reset(eng, st, inst, args):
        st.mon[('x', args[0])] = 'reset'
        return [(st, C(0, 32))]

    def update(eng, st, inst, args):
        c = st.mon.get(('chunk', path))
        ctx.count('update site')
        good = c and c[0] is args[1] and same(eng, st, c[1], args[2]) and st.mon.get(('x', args[0])) == 'reset' and not st.mon.get(('lost', path))
        if good: st.mon.pop(('chunk', path))
        elif eng.eqc(st, args[2]) == 0: pass
        else: st.mon[('x', args[0])] = 'bad'
        s2 = st.fork()
        s2.mon['fail'] = 1
        return [(st, C(0, 32)), (s2, C(1, 32))]

    def digest(eng, st, inst, args):
        ok = st.mon.get(('eof', path)) and ('chunk', path) not in st.mon and st.mon.get(('x', args[0])) == 'reset' \
            and not st.mon.get(('lost', path)) and not st.mon.get(('rderr', path)) and st.mon.get(('xs', args[0])) != 0
        st.mon['hash'] = 'ok' if ok else 'bad'
        return [(st, None)]

    def on_store(eng, st, inst, ptr, val, tag):
        if base_of(ptr) is out:
            st.mon['stored'] = st.mon.get('hash', 'none')

    def on_exit(eng, st, v, how, inst):
        ctx.count('exit')
        fm.leaks(eng, st, inst)
        if pairing: return
        ctx.oblig('checksum outcome justified', site(inst))
        z = ret_is_zero(eng, st, v)
        if z is False:
            if not st.mon.get('fail'):
                ctx.violation('spurious-error', 'errors only after a failure', 'hashing reports an error although no operation failed', inst, st=st)
            return
        if z is None: return
        if st.mon.get(('rderr', path)):
            ctx.violation('read-error-hidden', 'a failed read is never a checksum', 'hashing reports success although a read failed', inst, st=st)
        elif st.mon.get('stored') is None:
            ctx.violation('no-hash', 'success always carries a checksum', 'hashing succeeds without storing a checksum', inst, st=st)
        elif st.mon.get('stored') != 'ok':
            ctx.violation('partial-hash', 'the checksum covers the whole file', 'the stored checksum does not cover exactly the whole content of the file', inst, st=st)

    eng = ctx.engine(models=dict(STD, XXH3_128bits=oneshot, XXH128=oneshot, XXH3_128bits_reset=reset, XXH3_128bits_update=update, XXH3_128bits_digest=digest, **fm.models))
    eng.on_exit, eng.on_store = on_exit, on_store
    ctx.run(eng, fn, A)


def S03(ctx):
    filecmp_run(ctx, False)
    ctx.need('exit')


def S04(ctx):
    checksum_run(ctx, False)
    ctx.need('exit')


def S11(ctx):
    filecmp_run(ctx, True)
    checksum_run(ctx, True)
    ctx.need('exit')


# ---------------------------------------------------------------- reports
FILE_T, CHK_T, FSZ_T, CONF_T = 'ft_file_t', 'ft_chksum_t', 'ft_fsize_t', 'ft_conf_t'


def offs(prog, s, f, unit='ft_report.c'):
    return struct_off(prog, unit, s, f)


def fval(eng, st, base, o):
    return eng.load(st, P(base, o[0]), o[1], o[1] * 8)


def strip_old(n):
    while isinstance(n, tuple) and n and n[0] in ('old', 'old2'): n = n[1]
    return n


def symname(t):
    return strip_old(t.a[0]) if t.k == 's' else None


def lin(t):
    """index term as (symbol or None, constant); casts are transparent (array indices do not wrap)"""
    k = 0
    while True:
        if t.k == 'c': return (None, k + sgn(cv(t), t.bits))
        if t.k == 'op' and t.a[0] in ('zext', 'sext', 'trunc'): t = t.a[1]; continue
        if t.k == 'op' and t.a[0] == 'add' and t.a[2].k == 'c':
            k += sgn(cv(t.a[2]), t.bits); t = t.a[1]; continue
        return (t, k)


def plus(x, k):
    return (x[0], x[1] + k)


class Report:
    """abstract run of a report entry point; containers, comparison and extraction are modelled"""
    ROOTS = ('ft_report_duplicates', 'ft_report_json')

    def __init__(self, ctx, want):
        self.ctx, self.want = ctx, want
        p = ctx.prog
        self.o_path, self.o_sub = offs(p, FILE_T, 'path'), offs(p, FILE_T, 'subpath')
        self.o_file, self.o_hash = offs(p, CHK_T, 'file'), offs(p, CHK_T, 'hash_value')
        self.o_val, self.o_arr, self.o_nb = offs(p, FSZ_T, 'val'), offs(p, FSZ_T, 'chksum_array'), offs(p, FSZ_T, 'nb_files')
        self.o_nck, self.o_sep = offs(p, FSZ_T, 'nb_checksumed'), offs(p, CONF_T, 'sep')
        self.o_size = offs(p, FILE_T, 'size')
        self.o_mask, self.o_heap, self.o_sizes = offs(p, CONF_T, 'mask'), offs(p, CONF_T, 'heap'), offs(p, CONF_T, 'sizes')
        u = p.units['ft_report.c']
        self.slotsz = u.types.size(u.types.named['%struct.' + CHK_T])
        self.UNTAR = macro_int('OPTION_UNTAR')
        self.conf = S(('arg', 0, 'conf'), 64)

    # --- helpers
    def owner(self, st, t):
        """file object whose path string (or extracted copy) the term is: (file, 'path'|'sub'|'temp')"""
        if t.k == 's':
            o = st.mon.get(('temp', t))
            if o is not None: return (o[0], 'temp')
            n = symname(t)
            if isinstance(n, tuple) and n[0] == 'ld':
                b, off, dyn = parts(n[1])
                if not dyn and off == self.o_path[0] and self.isfile(b): return (b, 'path')
                if not dyn and off == self.o_sub[0] and self.isfile(b): return (b, 'sub')
        return None

    def isfile(self, b):
        n = symname(b)
        return isinstance(n, tuple) and n and n[0] in ('slotv', 'heapf')

    def slot_of(self, f):
        """address of the slot a file object was loaded from"""
        n = symname(f)
        return n[1] if isinstance(n, tuple) and n[0] == 'slotv' else None

    def index(self, ptr, fieldoff):
        """slot index (linear form) of an address inside the checksum array, or None"""
        b, off, dyn = parts(ptr)
        n = symname(b)
        if not (isinstance(n, tuple) and n[0] == 'ld' and parts(n[1])[1:] == (self.o_arr[0], ())): return None
        off -= fieldoff
        if off % self.slotsz or len(dyn) > 1: return None
        if not dyn: return (None, off // self.slotsz)
        if dyn[0][1] != self.slotsz: return None
        return plus(lin(dyn[0][0]), off // self.slotsz)

    # --- models
    def heap_extract(self, eng, st, inst, args):
        self.close_group(eng, st, inst)
        s2 = st.fork()
        v = eng.fresh(st, ('heapf', st.frames[-1].ctx, inst.id), 64)
        eng.constrain(st, v, 'ne', 0)
        st.mon['cur'] = v
        s2.mon['drained'] = 1
        s2.mon.pop('cur', None)
        self.ctx.count('extract')
        return [(st, v), (s2, NULL)]

    def hash_search(self, eng, st, inst, args):
        s2 = st.fork()
        v = eng.fresh(st, ('fsz', st.frames[-1].ctx, inst.id), 64)
        eng.constrain(st, v, 'ne', 0)
        st.mon['grp'] = (v, 'found')
        if self.want == 'pairs': st.mon['nexti'] = (None, 0)
        # a group that reached the report is complete: as many checksums as files (established by the processing stage)
        eng.store(st, P(v, self.o_nck[0]), fval(eng, st, v, self.o_nb), self.o_nck[1])
        s2.mon['grp'] = (NULL, 'missing')
        if len(args) > 3 and args[3].k != 'c':
            for s in (st, s2): eng.store(s, args[3], eng.fresh(s, ('hv', s.frames[-1].ctx, inst.id), 32), 4)
        return [(st, v), (s2, NULL)]

    def qsort(self, eng, st, inst, args):
        for k in list(st.mem):
            if k[0] is base_of(args[0]): del st.mem[k]
        g = st.mon.get('grp')
        if g and self.sorts_all(eng, st, g[0], args): st.mon['grp'] = (g[0], 'sorted')
        return [(st, None)]

    def sorts_all(self, eng, st, g, args):
        """False if the arguments certainly do not cover the group's whole array"""
        arr, nb = fval(eng, st, g, self.o_arr), fval(eng, st, g, self.o_nb)
        if base_of(args[0]) is base_of(arr) and args[0] is not arr: return False
        if eng.eqc(st, args[2]) not in (None, self.slotsz): return False
        n = args[1]
        while n.k == 'op' and n.a[0] in ('zext', 'sext', 'trunc'): n = n.a[1]
        if n is nb: return True
        a, b = lin(n), lin(nb)
        if a and b and a != b and a[0] is b[0]: return False
        return eng.ev(st, icmp('eq', n, nb)) is not False if n.bits == nb.bits else True

    def memcmp(self, eng, st, inst, args):
        v = eng.fresh(st, ('cmpr', st.frames[-1].ctx, inst.id), 32)
        i, j = self.index(args[0], self.o_hash[0]), self.index(args[1], self.o_hash[0])
        if i is not None and j is not None:
            self.ctx.count('hash compare')
            self.settle(eng, st, inst)
            if self.want == 'pairs':
                self.pair(eng, st, inst, i, j, args)
                st.mon['cand'] = (P(args[0], -self.o_hash[0]), P(args[1], -self.o_hash[0]), v)
        return [(st, v)]

    def pair(self, eng, st, inst, i, j, args):
        ctx = self.ctx
        if eng.eqc(st, args[2]) != self.o_hash[1]:
            ctx.violation('hash-len', 'whole hashes are compared', 'only part of the two hashes is compared', inst, st=st)
        g = st.mon.get('grp')
        if g and g[1] != 'sorted':
            st.mon['unsorted'] = 1
        ctx.oblig('pairs enumerated in order', site(inst))
        ni, ci, nj = st.mon.get('nexti'), st.mon.get('curi'), st.mon.get('nextj')
        if ni is None: return
        if i not in (ci, ni) and j in (ci, ni): i, j = j, i
        elif ci is not None and i != ci and j == ci: i, j = j, i
        elif ci is None and i == plus(ni, 1) and j == ni: i, j = j, i
        if i != ci:
            if i != ni: return ctx.violation('first-skipped', 'every file of a group is examined', 'a file of the size group is passed over as first member of a pair', inst, st=st)
            if j != plus(i, 1): return ctx.violation('second-skipped', 'every same-hash pair is compared', 'the search for twins of a file does not start at the next file of the group', inst, st=st)
        elif j != nj:
            return ctx.violation('second-skipped', 'every same-hash pair is compared', 'a file of the size group is passed over as second member of a pair', inst, st=st)
        st.mon['curi'], st.mon['nexti'], st.mon['nextj'], st.mon['jend'] = i, plus(i, 1), plus(j, 1), 'more'

    def settle(self, eng, st, inst):
        """the previous candidate pair must have been disposed of"""
        c = st.mon.pop('cand', None)
        if c is not None and self.want == 'pairs':
            i, j, v = c
            z = ret_is_zero(eng, st, v)
            if z is False:
                if not st.mon.get('unsorted'): st.mon['jend'] = 'mismatch'
            else:
                for s in (i, j):
                    f = eng.load(st, P(s, self.o_file[0]), 8, 64)
                    if eng.eqc(st, f) == 0: break
                else:
                    self.ctx.violation('pair-skipped', 'every same-hash pair is compared', 'two files with equal hashes are passed over without being compared', inst, st=st)
        c = st.mon.get('cmp')
        if c is not None and self.want == 'once' and c[1] == 'equal':
            self.ctx.oblig('reported twin retired, both members shown', site(inst))
            slots = [self.slot_of(f) if f is not None else None for f in c[0]]
            if all(s is not None for s in slots):
                gone = [f for f, s in zip(c[0], slots) if eng.eqc(st, eng.load(st, s, 8, 64)) == 0]
                if not gone:
                    self.ctx.violation('not-retired', 'a reported twin is not considered again', 'a file reported as a twin stays in its slot and can be reported again', inst, st=st)
                if len(gone) == 2:
                    self.ctx.violation('head-retired', 'the first file of a set stays the reference', 'both files of an equal pair are dropped, so further twins are lost', inst, st=st)
                show_ = st.mon.get('showed', frozenset())
                if not set(c[0]) <= show_:
                    self.ctx.violation('not-reported', 'every verified twin is reported', 'two files compared equal but one of them is not reported', inst, st=st)
                st.mon['showed'] = frozenset(f for f in c[0] if f in show_ and f not in gone)
        if c is not None and self.want == 'once' and c[1] != 'equal':
            for f in c[0]:
                s = self.slot_of(f) if f is not None else None
                if s is not None and eng.eqc(st, eng.load(st, s, 8, 64)) == 0:
                    self.ctx.violation('lost-candidate', 'only reported twins are retired', 'a file is dropped from its group although it was not reported as a twin', inst, st=st)
        self.purge(st)

    def end_of_i(self, eng, st, inst, i):
        """file i is left for good: all its later partners were examined"""
        if self.want != 'pairs': return
        if st.mon.get('curi') == i:
            if st.mon.get('jend') == 'more':
                self.ctx.violation('inner-left-early', 'every same-hash pair is compared', 'the search for twins of a file stops although further files of the group have not been looked at', inst, st=st)
            return
        if st.mon.get('jend') == 'end': return
        g = st.mon.get('grp')
        # the last file has no later partner
        w = lambda t: t if t.bits >= 64 else cast('zext', t, t.bits, 64)
        nb = w(fval(eng, st, g[0], self.o_nb))
        t = C(i[1] + 1, 64) if i[0] is None else binop('add', w(i[0]), C(i[1] + 1, 64), 64)
        if eng.ev(st, icmp('uge', t, nb)) is True: return
        if self.empty(eng, st, i): return
        self.ctx.violation('first-skipped', 'every file of a group is examined', 'a file of the size group is passed over without looking for its twins', inst, st=st)

    def empty(self, eng, st, i):
        """slot i is known to hold no file any more"""
        arr = fval(eng, st, st.mon['grp'][0], self.o_arr)
        slot = P(arr, i[1] * self.slotsz + self.o_file[0], ((i[0], self.slotsz),) if i[0] is not None else ())
        v = st.mem.get((base_of(slot), parts(slot)[1], parts(slot)[2], 8))
        if v is None and i[0] is not None:
            for k, w in st.mem.items():
                if len(k) == 4 and k[0] is base_of(slot) and k[1] == parts(slot)[1] and len(k[2]) == 1 and lin(k[2][0][0]) == (i[0], 0): v = w
        return v is not None and eng.eqc(st, v) == 0

    def close_group(self, eng, st, inst):
        self.settle(eng, st, inst)
        g = st.mon.pop('grp', None)
        if g and g[1] != 'missing' and self.want == 'pairs' and not st.mon.get('iend') and self.ctx.counts.get('hash compare'):
            # a group that was entered must be finished
            if 'nexti' in st.mon:
                self.ctx.violation('group-unfinished', 'every file of a group is examined', 'a size group is left before its last file was examined', inst, st=st)
        if g and self.want == 'once':
            for k in st.mon:
                if isinstance(k, tuple) and k[0] == 'jset':
                    self.ctx.violation('set-dropped', 'every set is part of the report', 'a set of twins is built but never added to the report', inst, st=st)
        for k in ('nexti', 'curi', 'nextj', 'jend', 'iend', 'unsorted', 'showed', 'lag'): st.mon.pop(k, None)

    def purge(self, st):
        for k in [k for k, t in st.mon.items() if isinstance(k, tuple) and k[0] == 'temp' and not t[1]]: del st.mon[k]
        st.mon.pop('cmp', None)

    def forget(self, st):
        """a pair is finished: what was learnt about the contents of slots and files is not needed any more"""
        for k in list(st.mem):
            n = symname(k[0])
            if isinstance(n, tuple) and (n[0] == 'slotv' or n[0] == 'ld' and parts(n[1])[1:] == (self.o_arr[0], ())): del st.mem[k]
        for k in list(st.facts):
            if any(isinstance(strip_old(x.a[0]), tuple) and strip_old(x.a[0])[0] == 'slotv' for x in k.syms): del st.facts[k]

    def on_phi(self, eng, st, block, phis):
        inst = block.insts[0]
        self.settle(eng, st, inst)
        if self.want != 'pairs': return self.forget(st)
        for ph, old, new in phis:
            if ph.ty[0] != 'i': continue
            n = lin(new)
            ci, ni, nj = st.mon.get('curi'), st.mon.get('nexti'), st.mon.get('nextj')
            if ni is None: continue
            if (block.fn, block.name) in self.jheads() and self.lagging(eng, st, inst, ph, None if old is None else lin(old), n, [lin(x[2]) for x in phis if x[0] is not ph and x[0].ty[0] == 'i']): continue
            if old is None:
                # the counter was advanced before its last use
                if nj is not None and n == nj: st.mon['pj'] = ph.id
                elif ci is not None and n == ni: self.end_of_i(eng, st, inst, ci); st.mon['pi'] = ph.id
                elif ci is None and n == plus(ni, 1): self.end_of_i(eng, st, inst, ni); st.mon['pi'] = ph.id
                continue
            o = lin(old)
            if nj is not None and o == plus(nj, -1) and ci is not None and o != ci:
                if n == nj: st.mon['pj'] = ph.id
                else: self.ctx.violation('second-skipped', 'every same-hash pair is compared', 'the search for twins of a file does not advance by one file', inst, st=st)
            elif nj is not None and o == nj or ci is None and o == plus(ni, 1):
                # second member passed over before its hash was looked at
                if n == o: continue
                if n == plus(o, 1) and self.empty(eng, st, o):
                    if ci is None: st.mon['curi'], st.mon['nexti'], st.mon['jend'] = ni, plus(ni, 1), 'more'
                    st.mon['nextj'] = n; st.mon['pj'] = ph.id
                else: self.ctx.violation('second-skipped', 'every same-hash pair is compared', 'a file of the size group is passed over as second member of a pair', inst, st=st)
            elif ci is not None and o == ci:
                if n == o: continue
                if n == ni:
                    self.end_of_i(eng, st, inst, ci); st.mon['pi'] = ph.id
                else: self.ctx.violation('first-skipped', 'every file of a group is examined', 'the walk over a size group does not advance by one file', inst, st=st)
            elif o == ni:
                if n == o: continue
                if n == plus(ni, 1):
                    self.end_of_i(eng, st, inst, ni); st.mon['pi'] = ph.id
                else: self.ctx.violation('first-skipped', 'every file of a group is examined', 'the walk over a size group does not advance by one file', inst, st=st)
        self.forget(st)

    _jheads = None

    def jheads(self):
        """headers of the innermost loops around the comparison of two hashes"""
        if self._jheads is None:
            p = self.ctx.prog
            fs = closure(p, [p.lookup(r) for r in self.ROOTS if p.lookup(r) is not None], stop=('filecmp', 'checksum_file', 'ft_archive_untar_file'))
            out = set()

            def looks(f, seen=()):
                """(compares hashes, does so in a loop)"""
                if f in seen: return (False, False)
                cmp = loop = False
                inner = {}
                for x, n in p.calls(f):
                    g = p.lookup(n, f.unit) if n else None
                    c, l = (True, False) if n in ('memcmp', 'bcmp') else looks(g, seen + (f,)) if g is not None else (False, False)
                    if not c: continue
                    cmp = True
                    ls = sorted((len(b), h) for h, b in f.loops.items() if x.block.name in b)
                    if ls or l: loop = True
                    if ls and not l: out.add((f, ls[0][1]))
                return (cmp, loop)
            for f in fs: looks(f)
            self._jheads = out
        return self._jheads

    def lagging(self, eng, st, inst, ph, o, n, others):
        """a counter of the inner loop that holds the last index looked at, not the next one"""
        ci, ni, nj = st.mon.get('curi'), st.mon.get('nexti'), st.mon.get('nextj')
        i = ci if ci is not None else ni
        cj = nj if nj is not None else plus(i, 1)
        known = st.mon.get('lag') == ph.id
        if nj is not None and ci is not None and n == plus(nj, -1) and o in (None, plus(nj, -2)) and nj not in others:
            st.mon['lag'] = st.mon['pjl'] = ph.id
            return True
        if n == cj and (known or ci is None and nj is None) and o in (None, plus(cj, -1)):
            if not self.empty(eng, st, cj):
                if not known: return False
                self.ctx.violation('second-skipped', 'every same-hash pair is compared', 'a file of the size group is passed over as second member of a pair', inst, st=st)
                return True
            if ci is None: st.mon['curi'], st.mon['nexti'], st.mon['jend'] = i, plus(i, 1), 'more'
            st.mon['nextj'] = plus(n, 1)
            st.mon['lag'] = st.mon['pjl'] = ph.id
            return True
        return False

    def on_phi2(self, eng, st, block, vals):
        i = st.mon.pop('pjl', None)
        if i in vals: st.mon['nextj'] = plus(lin(vals[i]), 1)
        for k, tgt in (('pj', 'nextj'), ('pi', 'nexti')):
            if k in st.mon:
                i = st.mon.pop(k)
                if i in vals: st.mon[tgt] = lin(vals[i])
                if k == 'pi':
                    for x in ('curi', 'nextj', 'jend', 'lag'): st.mon.pop(x, None)

    def on_branch(self, eng, st, inst, cond, val):
        if self.want != 'pairs' or cond.k != 'cmp' or 'nexti' not in st.mon: return
        g = st.mon.get('grp')
        if not g or g[1] == 'missing': return
        nb = lin(fval(eng, st, g[0], self.o_nb))
        x, y = lin(cond.a[1]), lin(cond.a[2])
        for a, b, ta, tb in ((x, y, cond.a[1], cond.a[2]), (y, x, cond.a[2], cond.a[1])):
            if b[0] is nb[0] and a[0] is not nb[0]:
                a = plus(a, -b[1])          # a - k  versus  nb
                ge = eng.ev(st, icmp('uge', ta, tb))
                gt = eng.ev(st, icmp('ugt', ta, tb))
                if gt: a = plus(a, -1)
                if not ge: continue
                # now a >= nb on this path
                ni, ci, nj = st.mon.get('nexti'), st.mon.get('curi'), st.mon.get('nextj')
                if nj is not None and a == nj: st.mon['jend'] = 'end'
                if ci is None and a == plus(ni, 1): st.mon['jend'] = 'end'
                if a == ni or a == plus(ni, 1): st.mon['iend'] = 1
            elif a[0] is None and b[0] is nb[0]: pass

    def untar(self, eng, st, inst, args):
        self.purge(st)
        s2 = st.fork()
        v = eng.fresh(st, ('tmpf', st.frames[-1].ctx, inst.id), 64)
        eng.constrain(st, v, 'ne', 0)
        for k in [k for k, t in st.mon.items() if isinstance(k, tuple) and k[0] == 'temp' and k[1] is not v and symname(k[1]) == symname(v)]:
            # an earlier copy made here
            if self.want == 'temps' and st.mon[k][1]:
                self.ctx.violation('temp-leak', 'temporary copies are removed', 'an extracted temporary copy is left behind when the next one is made', inst, st=st)
            del st.mon[k]
        st.mon[('temp', v)] = (args[0], 1)
        return [(st, v), (s2, NULL)]

    def remove(self, eng, st, inst, args):
        t = st.mon.get(('temp', args[0]))
        if self.want == 'temps':
            self.ctx.oblig('removed path is a temporary copy', site(inst))
            self.ctx.count('remove')
            if t is None:
                self.ctx.violation('remove-user-file', 'only temporary copies are removed', 'a path that is not an extracted temporary copy is removed', inst, st=st)
            elif not t[1]:
                self.ctx.violation('remove-twice', 'temporary copies are removed once', 'a temporary copy is removed twice', inst, st=st)
        if t:
            if self.want == 'temps': st.mon[('temp', args[0])] = (t[0], 0)
            else: del st.mon[('temp', args[0])]
        return [(st, eng.fresh(st, eng.site(st, inst, 'r'), 32))]

    def filecmp(self, eng, st, inst, args):
        ctx = self.ctx
        ctx.count('filecmp')
        o1, o2 = self.owner(st, args[1]), self.owner(st, args[2])
        if self.want == 'temps':
            for a, o in ((args[1], o1), (args[2], o2)):
                if o and o[1] == 'temp' and not st.mon[('temp', a)][1]:
                    ctx.violation('use-removed', 'temporary copies live until compared', 'a temporary copy is compared after it was removed', inst, st=st)
        if self.want == 'verified' and o1 and o2:
            ctx.oblig('the two files themselves are compared', site(inst))
            mask = fval(eng, st, self.conf, self.o_mask)
            for f, kind in (o1, o2):
                if kind == 'sub':
                    ctx.violation('compare-subpath', 'the files themselves are compared', 'the name inside the archive is compared as if it were a file', inst, st=st)
                if kind == 'path':
                    sub = fval(eng, st, f, self.o_sub)
                    un = eng.ev(st, icmp('eq', binop('and', mask, C(self.UNTAR, mask.bits), mask.bits), C(0, mask.bits)))
                    if un is not True and eng.eqc(st, sub) != 0:
                        ctx.violation('compare-archive', 'the files themselves are compared', 'an archive is compared instead of the member extracted from it', inst, st=st)
            if o1[0] is o2[0]:
                ctx.violation('compare-self', 'the files themselves are compared', 'a file is compared with itself', inst, st=st)
            g = st.mon.get('grp')
            if g and not same(eng, st, args[3], fval(eng, st, g[0], self.o_val)):
                if not any(same(eng, st, args[3], fval(eng, st, f, self.o_size)) for f in (o1[0], o2[0], st.mon.get('cur', o1[0]))):
                    ctx.violation('compare-size', 'the whole files are compared', 'the comparison is asked for another size than the size of the two files', inst, st=st)
        c = st.mon.get('cand')
        if c is not None and o1 and o2 and self.want == 'pairs':
            want = {eng.load(st, P(s, self.o_file[0]), 8, 64) for s in c[:2]}
            if {o1[0], o2[0]} != want:
                ctx.violation('pair-mismatch', 'every same-hash pair is compared', 'the two files compared are not the two files whose hashes matched', inst, st=st)
            st.mon.pop('cand')
        pair = (o1[0] if o1 else None, o2[0] if o2 else None)
        bad = st.fork()
        out = []
        for s, eq in ((st, True), (st.fork(), False)):
            r = eng.fresh(s, ('cmpres', s.frames[-1].ctx, inst.id), 32)
            eng.constrain(s, r, 'eq' if eq else 'ne', 0)
            if args[5].k != 'c': eng.store(s, args[5], C(0, 32) if eq else r, 4)
            s.mon['cmp'] = (pair, 'equal' if eq else 'diff')
            s.note(inst, 'contents %s' % ('equal' if eq else 'differ'))
            out.append((s, C(0, 32)))
        rb = eng.fresh(bad, eng.site(bad, inst, 'st'), 32)
        eng.constrain(bad, rb, 'ne', 0)
        s2 = bad.fork()                      # a failed comparison may have left anything in the result
        if args[5].k != 'c': eng.store(s2, args[5], C(0, 32), 4)
        for s in (bad, s2):
            s.mon['cmp'] = (pair, 'failed')
            s.note(inst, 'comparison fails')
            out.append((s, rb))
        return out

    # --- report events
    def shown(self, eng, st, inst, f, how):
        ctx = self.ctx
        ctx.count('reported')
        c = st.mon.get('cmp')
        if self.want == 'verified':
            ctx.oblig('reported file was just verified equal', site(inst))
            if c is None or c[1] != 'equal':
                why = 'without any comparison' if c is None else 'although the comparison failed' if c[1] == 'failed' else 'although the contents differ'
                ctx.violation('unverified-' + ('none' if c is None else c[1]), 'only verified twins are reported', 'a file is reported as a twin ' + why, inst, st=st)
            elif f not in c[0]:
                ctx.violation('wrong-file', 'only verified twins are reported', 'the file reported is not one of the two that compared equal', inst, st=st)

    def displayed(self, eng, st, inst, f):
        if self.want == 'once':
            s = st.mon.get('showed', frozenset())
            if f in s:
                self.ctx.violation('shown-twice', 'each file is reported once', 'a file is reported twice in the same set', inst, st=st)
            st.mon['showed'] = s | {f}

    def on_load(self, eng, st, inst, ptr, tag):
        if tag == ('%struct.' + CHK_T, 'file'):
            b, off, dyn = parts(ptr)
            key = (b, off, dyn, 8)
            if key not in st.mem or (not self.isfile(st.mem[key]) and st.mem[key].k != 'c'):
                # slots of different files are different cells: a store to another slot leaves this one alone
                st.mem[key] = S(('slotv', ptr), 64)

    def on_exit(self, eng, st, v, how, inst):
        ctx = self.ctx
        ctx.count('exit')
        ok = ret_is_zero(eng, st, v)
        if ok is not False: self.close_group(eng, st, inst)
        if self.want == 'temps':
            ctx.oblig('temporary copies removed', site(inst))
            for k, t in st.mon.items():
                if isinstance(k, tuple) and k[0] == 'temp' and t[1]:
                    ctx.violation('temp-leak', 'temporary copies are removed', 'an extracted temporary copy is left behind on this path', inst, st=st)
        if self.want == 'pairs' and ok is True and not st.mon.get('drained') and ctx.counts.get('extract'):
            ctx.violation('early-success', 'every size group is examined', 'the report ends successfully before the heap is empty', inst, st=st)

    def engine(self):
        ctx = self.ctx
        m = dict(STD, napr_heap_extract=self.heap_extract, napr_hash_search=self.hash_search, qsort=self.qsort, memcmp=self.memcmp, bcmp=self.memcmp,
                 filecmp=self.filecmp, ft_archive_untar_file=self.untar, apr_file_remove=self.remove, isatty=lambda e, s, i, a: [(s, None)],
                 format_human_size=m_nonnull('hs'), json_object=m_nonnull('js'), json_array=self.jarray, json_object_get=self.jget,
                 json_string=self.jstring, json_object_set_new=self.jset, json_array_append_new=self.jappend)
        eng = ctx.engine(models=m, opaque=['napr_heap_extract', 'napr_hash_search', 'filecmp', 'ft_archive_untar_file', 'format_human_size'])
        eng.on_load, eng.on_exit = self.on_load, self.on_exit
        eng.on_call = self.on_call
        eng.on_branch = self.on_branch
        eng.forget_old = True
        eng.K = 1000
        eng.on_phi, eng.on_phi2 = self.on_phi, self.on_phi2
        return eng

    # JSON construction (jansson)
    def jarray(self, eng, st, inst, args):
        s2 = st.fork()
        v = nonzero(eng, st, eng.fresh(st, ('ja', st.frames[-1].ctx, inst.id), 64))
        if self.want == 'once': return [(st, v)]
        return [(st, v), (s2, NULL)] if len(st.frames) == 1 else [(st, v)]

    def jstring(self, eng, st, inst, args):
        v = nonzero(eng, st, eng.fresh(st, ('jstr', st.frames[-1].ctx, inst.id), 64))
        o = self.owner(st, args[0])
        if o and o[1] == 'path' and self.want == 'once': st.mon[('jstr', v)] = o[0]
        return [(st, v)]

    def jset(self, eng, st, inst, args):
        f = st.mon.pop(('jstr', args[2]), None)
        if f is not None: st.mon[('jobj', args[0])] = f
        n = symname(args[2])
        if self.want == 'once' and isinstance(n, tuple) and n[0] == 'ja': st.mon[('jset', args[0])] = args[2]
        return [(st, C(0, 32))]

    def jget(self, eng, st, inst, args):
        a = st.mon.get(('jset', args[0]))
        if a is not None: return [(st, a)]
        return [(st, nonzero(eng, st, eng.fresh(st, ('jg', st.frames[-1].ctx, inst.id), 64)))]

    def jappend(self, eng, st, inst, args):
        f = st.mon.pop(('jobj', args[1]), None)
        if f is not None: self.displayed(eng, st, inst, f)
        st.mon.pop(('jset', args[1]), None)
        return [(st, C(0, 32))]

    def on_call(self, eng, st, inst, name, args):
        a = None
        if name == 'printf': a = args[1:]
        elif name in ('puts', 'fputs', 'json_string', 'json_stringn', 'json_string_nocheck'): a = args[:1]
        elif name == 'fprintf' and is_stdout(args[0]): a = args[2:]
        for x in a or ():
            o = self.owner(st, x)
            if o and o[1] == 'path':
                self.shown(eng, st, inst, o[0], name)
                if not name.startswith('json'): self.displayed(eng, st, inst, o[0])
        return None

    def run(self):
        bits = [macro_int('OPTION_' + n) for n in ('VERBO', 'SIZED', 'DRY_RUN')]
        for r in self.ROOTS:
            for untar in (0, self.UNTAR):
                if untar and self.want in ('pairs', 'once') and self.ctx.tier != 'thorough': continue
                for k in (range(8) if self.ctx.tier == 'thorough' else (0, 7)):
                    m = untar | sum(b for i, b in enumerate(bits) if k >> i & 1)
                    eng = self.engine()

                    def setup(e, s):
                        e.store(s, P(self.conf, self.o_mask[0]), C(m, self.o_mask[1] * 8), self.o_mask[1])
                        e.store(s, P(self.conf, self.o_sep[0]), C(58 if k else 10, 8), 1)
                    self.ctx.run(eng, r, [self.conf], setup=setup)


def is_stdout(t):
    n = symname(t)
    if isinstance(n, tuple) and n[0] == 'ld':
        b = symname(base_of(n[1]))
        return isinstance(b, tuple) and b[0] == 'g' and b[1] == '@stdout'
    return False


class Walk:
    """protocol of a walk over indices 0..n-1: key -> (next expected index)"""
    def __init__(self, key): self.key = key

    def start(self, st): st.mon[self.key] = (None, 0)

    def on_phi(self, eng, st, block, phis):
        nx = st.mon.get(self.key)
        if nx is None: return
        c = [(ph.id, old is not None and lin(old) in (plus(nx, -1), plus(nx, 1))) for ph, old, new in phis if ph.ty[0] == 'i' and nx != (None, 0) and lin(new) == nx]
        if c: st.mon[self.key + '#'] = tuple(i for i, step in c if step) or tuple(i for i, step in c)
        elif nx != (None, 0):           # the index is advanced before its use
            for ph, old, new in phis:
                if ph.ty[0] != 'i' or nx[0] is None: continue
                x = lin(new)
                if x[0] is nx[0] and abs(x[1] - nx[1]) == 1 and (old is None or lin(old) in (plus(x, -1), plus(x, 1))):
                    st.mon[self.key + '#'] = (ph.id, nx[1] - x[1], 'shift')
                    break

    def on_phi2(self, eng, st, block, vals):
        ids = st.mon.pop(self.key + '#', ())
        if ids and ids[-1] == 'shift':
            if ids[0] in vals: st.mon[self.key] = plus(lin(vals[ids[0]]), ids[1])
            return
        for i in ids:
            if i not in vals: continue
            st.mon[self.key] = lin(vals[i])
            if vals[i].k != 'c': break

    def event(self, st, idx):
        """True when idx is the next index"""
        nx = st.mon.get(self.key)
        if nx is None or idx != nx: return False
        st.mon[self.key] = plus(nx, 1)
        return True

    def complete(self, eng, st, n):
        nx = st.mon.get(self.key)
        if nx[0] is not None and nx[0].bits == n.bits and not nx[1] and eng.ev(st, icmp('uge', nx[0], n)) is True: return True
        w = lambda t: t if t.bits >= 64 else cast('zext', t, t.bits, 64)
        t = C(nx[1], 64) if nx[0] is None else w(nx[0]) if not nx[1] else binop('add', w(nx[0]), C(nx[1], 64), 64)
        return eng.ev(st, icmp('uge', t, w(n))) is True


class Process:
    """abstract run of the processing stage for one kind of size group"""
    def __init__(self, ctx, json, nb, empty):
        self.ctx, self.json, self.nb, self.empty = ctx, json, nb, empty
        p = ctx.prog
        o = lambda s, f: offs(p, s, f, 'ft_process.c')
        self.o_file, self.o_hash = o(CHK_T, 'file'), o(CHK_T, 'hash_value')
        self.o_val, self.o_arr, self.o_nb, self.o_nck = o(FSZ_T, 'val'), o(FSZ_T, 'chksum_array'), o(FSZ_T, 'nb_files'), o(FSZ_T, 'nb_checksumed')
        self.o_mask, self.o_heap, self.o_sizes = o(CONF_T, 'mask'), o(CONF_T, 'heap'), o(CONF_T, 'sizes')
        u = p.units['ft_process.c']
        self.slotsz = u.types.size(u.types.named['%struct.' + CHK_T])
        self.o_tf, self.o_ti = o('hashing_task_t', 'fsize'), o('hashing_task_t', 'index')
        self.conf = S(('arg', 0, 'conf'), 64)
        self.walk = Walk('wh')
        self.what = 'groups of %s %s files, %s output' % ('more than two' if nb > 2 else 'two', 'empty' if empty else 'non-empty', 'JSON' if json else 'text')

    def bad(self, key, rule, msg, inst, st):
        self.ctx.violation(key, rule, '%s (%s)' % (msg, self.what), inst, st=st)

    def group(self, eng, st, v, slots):
        eng.constrain(st, v, 'ne', 0)
        if self.nb == 2: eng.store(st, P(v, self.o_nb[0]), C(2, 32), 4)
        else: eng.constrain(st, fval(eng, st, v, self.o_nb), 'ugt', 2)
        if self.empty: eng.store(st, P(v, self.o_val[0]), C(0, 64), 8)
        else:
            t = fval(eng, st, v, self.o_val)
            eng.constrain(st, t, 'ne', 0); eng.constrain(st, t, 'sgt', 0)
        if slots: nonzero(eng, st, fval(eng, st, v, self.o_arr))

    # first pass: every file gets its own slot
    def extract(self, eng, st, inst, args):
        self.settle(eng, st, inst)
        if args[0] is not st.mon.get('heap0'): return None
        self.ctx.count('extract')
        s2 = st.fork()
        v = nonzero(eng, st, eng.fresh(st, ('heapf', st.frames[-1].ctx, inst.id), 64))
        st.mon['f'] = v
        s2.mon['drained'] = 1
        return [(st, v), (s2, NULL)]

    def search(self, eng, st, inst, args):
        if 'f' not in st.mon: return None
        v = eng.fresh(st, ('fsz', st.frames[-1].ctx, inst.id), 64)
        self.group(eng, st, v, False)
        n0 = eng.fresh(st, ('nck0', st.frames[-1].ctx, inst.id), 32)
        nb = fval(eng, st, v, self.o_nb)
        eng.assume(st, icmp('ult', n0, nb), True)
        eng.store(st, P(v, self.o_nck[0]), n0, 4)
        st.mon['g'] = (v, n0)
        if len(args) > 3 and args[3].k != 'c': eng.store(st, args[3], eng.fresh(st, ('hv', st.frames[-1].ctx, inst.id), 32), 4)
        first = st.fork()
        eng.store(first, P(v, self.o_arr[0]), NULL, 8)
        eng.constrain(first, n0, 'eq', 0)
        nonzero(eng, st, fval(eng, st, v, self.o_arr))
        return [(first, v), (st, v)]

    def remove(self, eng, st, inst, args):
        g = st.mon.get('g')
        if g and args[1] is g[0]: st.mon['dropped'] = 1
        return [(st, None)]

    def alloc(self, eng, st, inst, args):
        v = nonzero(eng, st, eng.fresh(st, ('slots', st.frames[-1].ctx, inst.id), 64))
        st.mon['alloc'] = (v, args[1])
        eng.fill(st, v, None, 0)
        return [(st, v)]

    def on_store(self, eng, st, inst, ptr, val, tag):
        f, g = st.mon.get('f'), st.mon.get('g')
        b, off, dyn = parts(ptr)
        if f is not None and g is not None:
            arr = fval(eng, st, g[0], self.o_arr)
            if base_of(arr) is b and val is f:
                self.ctx.count('slot stored')
                self.ctx.oblig('file stored in the next free slot', site(inst))
                a = st.mon.get('alloc')
                if a and a[0] is b:
                    want = binop('mul', cast('zext', fval(eng, st, g[0], self.o_nb), 32, 64), C(self.slotsz, 64), 64)
                    if not same(eng, st, a[1], want) and eng.ev(st, icmp('uge', a[1], want)) is not True:
                        self.bad('slots-size', 'room for every file', 'the slots allocated for a size group are not one per file of the group', inst, st)
                i = (None, (off - self.o_file[0]) // self.slotsz) if not dyn else plus(lin(dyn[0][0]), (off - self.o_file[0]) // self.slotsz) if len(dyn) == 1 else None
                if 'slot' in st.mon: self.bad('slot-twice', 'one slot per file', 'a file is stored in two slots of its group', inst, st)
                n0 = (g[1], 0)
                if i != n0 and not (i[0] is None and eng.eqc(st, g[1]) == i[1]):
                    self.bad('slot-index', 'one slot per file', 'a file is not stored in the next free slot of its size group', inst, st)
                st.mon['slot'] = 1
        if val.k == 'c' and not dyn and isinstance(b.a[0], tuple) and b.a[0][0] == 'a' and val.bits >= 32:
            old = st.mem.get((b, off, dyn, val.bits // 8))
            if old is not None and old.k == 'c' and cv(val) == cv(old) + 1 and cv(val) > 1:
                return nonzero(eng, st, S(('cnt', ptr), val.bits))     # a counter of what was seen: only zero or not matters
        if val.k == 'op' and val.a[0] == 'add' and symname(val.a[1]) == ('cnt', ptr) and val.a[1].k == 's':
            return val.a[1]

    def insert(self, eng, st, inst, args):
        if args[0] is st.mon.get('heap0'):
            self.bad('wrong-heap', 'files reach the report', 'a file is put back into the heap being emptied', inst, st)
        if args[1] is st.mon.get('f') and args[1].k == 's':
            st.mon['ins'] = 1
            self.ctx.count('inserted')
        n = symname(args[1])
        gr = st.mon.get('it')
        if gr is not None and isinstance(n, tuple) and n[0] == 'slotv' and self.idx(eng, st, gr, n[1]) is not None:
            st.mon['late'] = 1; st.mon['itins'] = 1
            self.ctx.count('inserted')
        return [(st, None)]

    def idx(self, eng, st, g, ptr):
        arr = fval(eng, st, g, self.o_arr)
        b, off, dyn = parts(ptr)
        if b is not arr or len(dyn) > 1: return None
        off -= self.o_file[0]
        return (None, off // self.slotsz) if not dyn else plus(lin(dyn[0][0]), off // self.slotsz)

    def settle(self, eng, st, inst):
        f, g = st.mon.pop('f', None), st.mon.pop('g', None)
        if f is not None and g is not None:
            self.ctx.oblig('file kept for the report', site(inst))
            if st.mon.get('dropped'):
                self.bad('group-dropped', 'files with a possible twin are kept', 'a size group with several files is dropped', inst, st)
            elif 'slot' not in st.mon:
                self.bad('file-dropped', 'one slot per file', 'a file with possible twins gets no slot in its size group', inst, st)
            else:
                n1 = fval(eng, st, g[0], self.o_nck)
                if not same(eng, st, n1, binop('add', g[1], C(1, 32), 32)):
                    self.bad('slot-count', 'one slot per file', 'the number of files in a size group does not grow by one with each file stored', inst, st)
            st.mon['seen'] = 1
            if st.mon.get('ins'): st.mon['early'] = 1
        for k in ('slot', 'ins', 'dropped', 'alloc'): st.mon.pop(k, None)

    # passes over the groups
    def first(self, eng, st, inst, args):
        return self.next(eng, st, inst, args)

    def next(self, eng, st, inst, args):
        self.end_group(eng, st, inst)
        if not st.mon.get('seen'): return [(st, NULL)]       # no files, no groups
        v = nonzero(eng, st, eng.fresh(st, ('hi', st.frames[-1].ctx, inst.id), 64))
        st2 = st.fork()
        if callee_name(inst) == 'napr_hash_first': return [(st, v)]
        return [(st, v), (st2, NULL)]

    def this(self, eng, st, inst, args):
        v = eng.fresh(st, ('grp', st.frames[-1].ctx, inst.id), 64)
        self.group(eng, st, v, True)
        eng.store(st, args[3], v, 8)
        st.mon['it'] = v
        self.walk.start(st)
        return [(st, None)]

    def on_load(self, eng, st, inst, ptr, tag):
        g = st.mon.get('it')
        if g is not None and tag == ('%struct.' + CHK_T, 'file'):
            b, off, dyn = parts(ptr)
            if b is fval(eng, st, g, self.o_arr):
                st.mem[(b, off, dyn, 8)] = nonzero(eng, st, S(('slotv', ptr), 64))   # filled in by the first pass

    def add(self, eng, st, inst, args):
        g = st.mon.get('it')
        tf = fval(eng, st, args[1], self.o_tf)
        self.ctx.count('dispatched')
        if g is not None and tf is g:
            self.ctx.oblig('every file of a hashed group is hashed', site(inst))
            i = lin(fval(eng, st, args[1], self.o_ti))
            if not self.walk.event(st, i):
                self.bad('hash-skipped', 'a group is hashed entirely or not at all', 'the hash of a file of the size group is not requested', inst, st)
            st.mon['hashed'] = 1; st.mon['ithash'] = 1
        st.mon['unwaited'] = 1
        return status_alts(eng, st, inst, None, lambda s: s.mon.__setitem__('failed', 1))

    def wait(self, eng, st, inst, args):
        st.mon.pop('unwaited', None)
        return [(st, eng.fresh(st, eng.site(st, inst, 'r'), 32))]

    def end_group(self, eng, st, inst):
        g = st.mon.pop('it', None)
        if g is not None:
            if st.mon.pop('ithash', None) and not st.mon.get('failed'):
                if not self.walk.complete(eng, st, fval(eng, st, g, self.o_nb)):
                    self.bad('hash-skipped', 'a group is hashed entirely or not at all', 'the walk requesting hashes stops before the last file of the size group', inst, st)
            st.mon.pop('itins', None)
        st.mon.pop('wh', None)

    def on_exit(self, eng, st, v, how, inst):
        ctx = self.ctx
        ctx.count('exit')
        if ret_is_zero(eng, st, v) is not True or how != 'ret' and how is not None and how == 'noreturn': return
        if not st.mon.get('drained'):
            self.bad('undrained', 'every file is processed', 'processing succeeds before every scanned file was looked at', inst, st)
        if not st.mon.get('seen'): return
        ctx.oblig('group reaches the report', site(inst))
        if st.mon.get('failed'):
            self.bad('hash-refused', 'a group is hashed entirely or not at all', 'processing succeeds although the hash of a file could not be requested', inst, st)
        if st.mon.get('unwaited'):
            self.bad('not-awaited', 'hashes are complete before the report', 'processing succeeds without waiting for the requested hashes', inst, st)
        if not (st.mon.get('early') or st.mon.get('late')):
            self.bad('group-lost', 'every group of possible twins reaches the report', 'a size group with several files never reaches the report', inst, st)
        if self.json and not st.mon.get('hashed'):
            self.bad('json-unhashed', 'JSON reports carry the real hash', 'a size group is reported in JSON without its hashes being computed', inst, st)
        h = fval(eng, st, self.conf, self.o_heap)
        if not (isinstance(symname(h), tuple) and symname(h)[0] == 'newheap'):
            self.bad('heap-kept', 'every group of possible twins reaches the report', 'the heap of files to report is not handed over', inst, st)

    def on_phi(self, eng, st, block, phis): self.walk.on_phi(eng, st, block, phis)
    def on_phi2(self, eng, st, block, vals): self.walk.on_phi2(eng, st, block, vals)

    def run(self):
        m = dict(STD, napr_heap_make=m_nonnull('newheap'), napr_heap_make_r=m_nonnull('newheap'), napr_heap_extract=self.extract, napr_hash_search=self.search,
                 napr_hash_remove=self.remove, apr_palloc=self.alloc, napr_heap_insert=self.insert, napr_hash_first=self.first, napr_hash_next=self.next,
                 napr_hash_this=self.this, napr_threadpool_add=self.add, napr_threadpool_wait=self.wait, napr_threadpool_shutdown=m_status,
                 napr_threadpool_init=m_status_out('tp'), apr_thread_mutex_create=m_status_out('mtx'), apr_thread_mutex_destroy=m_status)
        m['apr_pcalloc'] = self.alloc
        eng = self.ctx.engine(models=m, opaque=[k for k in m if k.startswith('napr_')])
        eng.on_store, eng.on_load, eng.on_exit = self.on_store, self.on_load, self.on_exit
        eng.on_phi, eng.on_phi2 = self.on_phi, self.on_phi2
        eng.forget_old = True
        eng.widen_arith = False
        eng.K = 400
        mask = macro_int('OPTION_JSON') if self.json else 0

        def setup(e, s):
            e.store(s, P(self.conf, self.o_mask[0]), C(mask, self.o_mask[1] * 8), self.o_mask[1])
            s.mon['heap0'] = fval(e, s, self.conf, self.o_heap)
        self.ctx.run(eng, 'ft_process_files', [self.conf], setup=setup)


def S02(ctx):
    Report(ctx, 'verified').run()
    ctx.need('filecmp', 2); ctx.need('reported', 4)


def S05(ctx):
    Report(ctx, 'pairs').run()
    ctx.need('hash compare', 2)
    for json in (0, 1):
        for nb in (2, 3):
            for empty in (0, 1):
                Process(ctx, json, nb, empty).run()
    ctx.need('slot stored', 8); ctx.need('inserted', 8); ctx.need('dispatched', 2)


def S08(ctx):
    Report(ctx, 'once').run()
    ctx.need('filecmp', 2); ctx.need('reported', 4)


def S10(ctx):
    Report(ctx, 'temps').run()
    ctx.need('remove', 4)
