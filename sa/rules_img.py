"""Image mode: signatures and comparison of pictures (S19)."""
import itertools, re
from common import *
from rules_scan import is_stdout

U = 'ft_image.c'


class Images:
    def __init__(self, ctx):
        self.ctx = ctx
        o = lambda s, f: struct_off(ctx.prog, U, s, f)
        self.o_path, self.o_cvec = o('ft_file_t', 'path'), o('ft_file_t', 'cvec')
        self.o_ok = self.o_cvec[0] + self.o_cvec[1]        # the flags share the byte behind the signature; the first is bit 0
        self.o_conf = {f: o('ft_conf_t', f) for f in ('heap', 'sep', 'threshold', 'mask', 'pool')}
        self.conf, self.heap, self.pool, self.thr = S(('conf',), 64), S(('heap',), 64), S(('pool',), 64), S(('thr',), 64)
        self.sep = S(('sep',), 8)

    def v(self, key, rule, msg, inst, st): self.ctx.violation(key, rule, msg, inst, st=st)

    def file_of(self, ptr):
        """index of the file an address lies in, and the offset"""
        b, o, d = parts(ptr)
        for i, f in enumerate(self.F):
            if b is f and not d: return i, o
        return None, None

    def one(self, n, ok, verbose):
        """n files, ok: those whose signature can be computed"""
        ctx = self.ctx
        self.F = [S(('F', i), 64) for i in range(n)]
        self.path = [S(('path', i), 64) for i in range(n)]
        opt = macro_int('OPTION_PUZZL') | (macro_int('OPTION_VERBO') if verbose else 0)
        tell = '%d picture%s%s' % (n, '' if n == 1 else 's', '' if all(ok) else ', %s of which cannot be read' % ' and '.join('number %d' % i for i in range(n) if not ok[i]))

        def cell(eng, st, base, off, v): eng.store(st, P(base, off[0]), v if isinstance(v, T) else C(v, off[1] * 8), off[1])

        def setup(eng, st):
            for x in [self.conf, self.heap, self.pool] + self.F + self.path: nonzero(eng, st, x)
            for f, x in (('heap', self.heap), ('pool', self.pool), ('sep', self.sep), ('threshold', self.thr), ('mask', opt)): cell(eng, st, self.conf, self.o_conf[f], x)
            for i, f in enumerate(self.F):
                cell(eng, st, f, self.o_path, self.path[i])
                eng.store(st, P(f, self.o_ok), C(2 if i == 1 else 0, 8), 1)
            st.mon['left'] = tuple(range(n))
            st.mon['keep'] = tuple([self.conf, self.heap, self.pool, self.thr, self.sep] + self.F + self.path)

        def size(eng, st, inst, args):
            return [(st, C(len(st.mon['left']), 32))] if args[0] is self.heap else None

        def nth(eng, st, inst, args):
            k = eng.eqc(st, args[1])
            if args[0] is not self.heap or k is None: return None
            if k < len(st.mon['left']): return [(st, self.F[st.mon['left'][k]])]
            return [(st, NULL)]

        def on_load(eng, st, inst, ptr, *rest):
            if ptr.k == 'c' and cv(ptr) < 4096 or ptr.k == 'p' and base_of(ptr).k == 'c':
                self.v('image-beyond', 'only pictures of the search are compared', 'with %s, the comparison goes beyond the last remaining picture' % tell, inst, st)
                st.dead = True

        def extract(eng, st, inst, args):
            if args[0] is not self.heap: return None
            l = st.mon['left']
            if not l: return [(st, NULL)]
            st.mon['left'] = l[1:]
            return [(st, self.F[l[0]])]

        def init(eng, st, inst, args):
            ctx.count('worker pool')
            def good(s):
                nonzero(eng, s, out_fresh(eng, s, inst, args[0], 'tp'))
                s.mon['wctx'] = args[1]
            return status_alts(eng, st, inst, good)

        def add(eng, st, inst, args):
            b, off, dyn = parts(args[1])
            near = [(k[1] - off, self.F.index(val)) for k, val in st.mem.items() if len(k) == 4 and k[0] is b and val in self.F and k[2] == dyn and k[1] >= off]
            fs = {i for d, i in near if d == min(near)[0]}      # the picture held closest to the start of the task
            i, o = self.file_of(args[1])
            if i is not None: fs = {i}
            ctx.count('signature requested')
            ctx.oblig('one task per picture', site(inst))
            if len(fs) != 1:
                st.mon['unknown'] = 1
                return None
            i = fs.pop()
            if i in st.mon.get('task', ()): self.v('image-task-twice', 'each picture is read once', 'the signature of a picture is computed by two tasks at once', inst, st)
            self.sample(eng, st, i, args[1])

            def good(s): s.mon['task'] = s.mon.get('task', ()) + (i,)
            def bad(s): s.mon['err'] = 1
            return status_alts(eng, st, inst, good, bad)

        def wait(eng, st, inst, args):
            # the tasks are done
            for i in st.mon.get('task', ()):
                if ok[i]: eng.store(st, P(self.F[i], self.o_ok), C((2 if i == 1 else 0) | 1, 8), 1)
            st.mon['done'] = st.mon.get('task', ())
            return [(st, C(0, 32))]

        def dist(eng, st, inst, args):
            a, b = self.file_of(args[1]), self.file_of(args[2])
            if a[0] is None or b[0] is None: return None
            ctx.count('comparison')
            ctx.oblig('pictures compared', site(inst))
            i, j = a[0], b[0]
            for x in (i, j):
                if x not in st.mon.get('done', ()): self.v('image-early', 'signatures are complete before they are compared', 'a signature is compared before the tasks computing it have been waited for', inst, st)
                elif not ok[x]: self.v('image-unread', 'pictures that cannot be read take no part', 'the signature of a picture that could not be read is compared', inst, st)
                if x in st.mon.get('freed', ()): self.v('image-freed', 'signatures live until their last comparison', 'a signature is compared after it was freed', inst, st)
            if i == j: self.v('image-self', 'each pair once', 'a picture is compared with itself', inst, st)
            p = (min(i, j), max(i, j))
            if p in st.mon.get('cmp', ()): self.v('image-again', 'each pair once', 'a pair of pictures is compared twice', inst, st)
            st.mon['cmp'] = st.mon.get('cmp', ()) + (p,)
            if eng.eqc(st, args[3]) not in (0, None): pass
            r = S(('dist',) + p, 64)
            return [(st, r)]

        def on_branch(eng, st, inst, cond, val):
            if cond.k == 'op' and cond.a[0] == 'not': cond, val = cond.a[1], not val
            if cond.k != 'cmp' or cond.a[0][0] != 'f' or cond.a[0] in ('fcmp',): return
            pred, x, y = cond.a
            if y.k == 's' and isinstance(y.a[0], tuple) and y.a[0][0] == 'dist': x, y, pred = y, x, {'folt': 'fogt', 'fogt': 'folt', 'fole': 'foge', 'foge': 'fole', 'fult': 'fugt', 'fugt': 'fult', 'fule': 'fuge', 'fuge': 'fule'}.get(pred, pred)
            if not (x.k == 's' and isinstance(x.a[0], tuple) and x.a[0][0] == 'dist'): return
            p = x.a[0][1:]
            ctx.count('threshold decision')
            if y is not self.thr:
                self.v('image-threshold', 'the chosen threshold decides', 'the distance of two pictures is not compared with the chosen threshold', inst, st); return
            if pred in ('folt', 'fult'): sim = val
            elif pred in ('foge', 'fuge'): sim = not val
            else:
                self.v('image-threshold', 'the chosen threshold decides', 'pictures whose distance is not below the threshold are taken for similar, or those below are not', inst, st); return
            st.mon['sim'] = st.mon.get('sim', ()) + ((p, sim),)

        def out(st, *pieces): st.mon['out'] = st.mon.get('out', ()) + pieces

        def text(eng, st, b):
            for ch in b.decode('latin1'): out(st, ch)

        def arg(eng, st, kind, a):
            if kind == 's':
                if a in self.path: out(st, self.path.index(a)); return
                c = eng.cstring(a)
                if c is None: out(st, '?')
                else: text(eng, st, c)
            elif kind == 'c':
                while a.k == 'op' and a.a[0] in ('sext', 'zext', 'trunc'): a = a.a[1]
                c = eng.eqc(st, a)
                out(st, 'sep' if a is self.sep else chr(c & 255) if c is not None else '?')
            else: out(st, '?')

        def emit(eng, st, fmt, args):
            f = eng.cstring(fmt)
            if f is None: out(st, '?'); return
            k = 0
            for m in re.finditer(r'%[-0-9.]*[a-z%]+?|[^%]', f.decode('latin1')):
                t = m.group(0)
                if t == '%%': out(st, '%')
                elif t[0] == '%':
                    arg(eng, st, t[-1], args[k] if k < len(args) else NULL); k += 1
                else: out(st, t)

        def on_call(eng, st, inst, name, args):
            if name == 'printf': emit(eng, st, args[0], args[1:])
            elif name == 'fprintf' and is_stdout(args[0]): emit(eng, st, args[1], args[2:])
            elif name == 'puts': arg(eng, st, 's', args[0]); out(st, '\n')
            elif name == 'fputs' and is_stdout(args[1]): arg(eng, st, 's', args[0])
            elif name == 'putchar': arg(eng, st, 'c', args[0])
            elif name in ('fputc', 'putc') and is_stdout(args[1]): arg(eng, st, 'c', args[0])
            elif name == 'puzzle_free_cvec':
                i, o = self.file_of(args[1])
                if i is not None:
                    if i in st.mon.get('freed', ()): self.v('image-free-twice', 'signatures are freed once', 'a signature is freed twice', inst, st)
                    st.mon['freed'] = st.mon.get('freed', ()) + (i,)
            return None

        def on_exit(eng, st, v, how, inst):
            if how != 'ret': return
            ctx.count('report')
            ctx.oblig('image report', site(inst))
            z = ret_is_zero(eng, st, v)
            o = st.mon.get('out', ())
            if z is None: return
            if not z:
                if st.mon.get('done') is not None and not st.mon.get('err') and len(st.mon.get('task', ())) == n: pass
                return
            if st.mon.get('err'): self.v('image-error', 'errors are reported', 'a signature could not be requested, but the report succeeds', inst, st)
            if st.mon.get('err') or st.mon.get('unknown') or '?' in o: return
            pairs = [p for p in itertools.combinations(range(n), 2) if ok[p[0]] and ok[p[1]]]
            cmp = st.mon.get('cmp', ())
            for p in pairs:
                if p not in cmp:
                    self.v('image-pair', 'every pair is compared', 'with %s, pictures %d and %d are not compared' % (tell, p[0], p[1]), inst, st); return
            sim = dict(st.mon.get('sim', ()))
            # parse the report
            groups, cur = [], []
            sepok = True
            want = True
            for x in o:
                if isinstance(x, int):
                    if not want: sepok = False
                    cur.append(x); want = False
                elif x == 'sep':
                    if want: sepok = False
                    want = True
                elif x == '\n':
                    if cur:
                        if want: sepok = False
                        groups.append(cur)
                    cur, want = [], True
                else: return
            if cur: self.v('image-line', 'sets are kept apart', 'the last set of similar pictures is not ended by a line end', inst, st); groups.append(cur)
            shown = set()
            for g in groups:
                for x in g[1:]:
                    p = (min(g[0], x), max(g[0], x))
                    if sim.get(p) is False:
                        self.v('image-dissimilar', 'only similar pictures are reported', 'with %s, picture %d is reported with picture %d although their distance is not below the threshold' % (tell, p[1], p[0]), inst, st); return
                    shown.add(p)
                if len(g) == 1: self.v('image-alone', 'only similar pictures are reported', 'a picture is reported without any similar one', inst, st)
                if len(set(g)) != len(g): self.v('image-repeat', 'each picture once per set', 'a picture is listed twice in one set', inst, st)
            for p in pairs:
                if sim.get(p) and p not in shown and not any(p[0] in g and p[1] in g for g in groups):
                    self.v('image-missed', 'similar pictures are reported', 'with %s, pictures %d and %d are similar but not reported together' % (tell, p[0], p[1]), inst, st); return
            if not sepok: self.v('image-sep', 'sets are kept apart', 'the paths of a set of similar pictures are not separated by the chosen separator', inst, st)

        m = dict(STD, napr_heap_size=size, napr_heap_get_nth=nth, napr_heap_extract=extract, napr_threadpool_init=init, napr_threadpool_add=add, napr_threadpool_wait=wait,
                 napr_threadpool_shutdown=m_status, puzzle_vector_normalized_distance=dist, apr_thread_mutex_create=m_status_out('mtx'), apr_thread_mutex_destroy=m_status)
        eng = ctx.engine(models=m, opaque=[k for k in m if k.startswith('napr_')])
        eng.on_call, eng.on_exit, eng.on_branch, eng.on_load = on_call, on_exit, on_branch, on_load
        eng.unroll = eng.K = 100000
        eng.WIDEN_VISITS = 1000
        eng.widen_arith = False
        eng.concrete = lambda v: True
        ctx.run(eng, 'ft_image_twin_report', [self.conf], setup=setup)

    tasks = None

    def sample(self, eng, st, i, task):
        """remember what a task looks like, to look into the worker with it"""
        if self.tasks is None and i == 0 and st.mon.get('wctx') is not None:
            w = st.mon['wctx']
            bs = (base_of(task), base_of(w), self.conf) + tuple(self.F)
            self.tasks = (task, w, {k: x for k, x in st.mem.items() if any(k[0] is b for b in bs)}, list(self.F), list(self.path))

    def worker(self, fn):
        ctx = self.ctx
        if self.tasks is None: return
        task, w, cells, F, path = self.tasks
        cvec = P(F[0], self.o_cvec[0])

        def setup(eng, st):
            for x in [base_of(task), base_of(w), self.conf] + F + path: nonzero(eng, st, x)
            st.mem.update(cells)
            st.mon['keep'] = tuple([base_of(task), base_of(w), self.conf] + F + path)

        def prep(eng, st, inst, args):
            if args[1] is cvec: st.mon['init'] = 1
            return [(st, None)]

        def fill(eng, st, inst, args):
            ctx.count('signature')
            ctx.oblig('signature of the right picture', site(inst))
            if args[1] is not cvec or args[2] is not path[0]:
                self.v('image-worker-file', 'each picture has its own signature', 'the signature is not computed from the picture of the task into its own place', inst, st); return []
            if not st.mon.get('init'): self.v('image-worker-init', 'signatures are initialised', 'a signature is computed into an uninitialised place', inst, st)
            def good(s): s.mon['ok'] = 1
            def bad(s): s.mon['ok'] = 0
            return status_alts(eng, st, inst, good, bad)

        def on_exit(eng, st, v, how, inst):
            if how != 'ret': return
            ctx.count('worker exit')
            b = eng.eqc(st, eng.load(st, P(F[0], self.o_ok), 1, 8))
            if b is None: return
            ok = st.mon.get('ok')
            if b & ~1: self.v('image-worker-flags', 'only the signature flag changes', 'computing a signature changes other marks of the file', inst, st)
            if ok == 1 and not b & 1: self.v('image-worker-lost', 'readable pictures take part', 'a picture whose signature was computed is not marked for comparison', inst, st)
            if ok != 1 and b & 1: self.v('image-worker-mark', 'pictures that cannot be read take no part', 'a picture is marked for comparison although its signature could not be computed', inst, st)
            if ok is None and ret_is_zero(eng, st, v): self.v('image-worker-none', 'readable pictures take part', 'a task succeeds without computing the signature', inst, st)

        eng = ctx.engine(models=dict(STD, puzzle_init_cvec=prep, puzzle_fill_cvec_from_file=fill, apr_thread_mutex_lock=m_status, apr_thread_mutex_unlock=m_status))
        eng.on_exit = on_exit
        ctx.run(eng, fn, [w, task], setup=setup)


def S19(ctx):
    im = Images(ctx)
    N = 4 if ctx.tier == 'thorough' else 3
    for n in range(N + 1):
        for ok in itertools.product((True, False), repeat=n):
            im.one(n, ok, False)
    im.one(2, (True, True), True)
    from rules_misc import callbacks
    for f in callbacks(ctx.prog):
        if any(n == 'puzzle_fill_cvec_from_file' for g in closure(ctx.prog, [f]) for _, n in ctx.prog.calls(g)): im.worker(f)
    for x in ('report', 'comparison', 'threshold decision', 'signature requested', 'worker exit', 'signature'): ctx.need(x)
