"""Rules for the worker pool (S13 locking, S21 protocol) and the remaining scanner parts."""
from common import *
from rules_scan import const, fval, symname, same, lin, plus
import rules_scan

TU = 'napr_threadpool.c'


class Pool:
    """One function of the pool at a time; every acquisition of the pool mutex (lock, or the return of a condition wait) sees an
    arbitrary state satisfying the pool invariant, every release must re-establish the invariant and make an allowed transition."""
    INV = """queue well formed; ended -> queue empty; waiter present and queue empty and all threads waiting -> ended"""

    def __init__(self, ctx, want):
        self.ctx, self.want = ctx, want
        pr = ctx.prog
        g = lambda f: struct_off(pr, TU, 'napr_threadpool_t', f)
        self.o = {f: g(f) for f in ('thread', 'ctx', 'threadpool_mutex', 'threadpool_update', 'nb_thread', 'nb_waiting', 'list', 'process_data', 'pool')}
        bf = pr.units[TU].bitfields.get('%struct.napr_threadpool_t', {})
        self.flag = {}
        for f in ('run', 'ended', 'shutdown'):
            if f in bf: self.flag[f] = (bf[f][0] // 8, 1, bf[f][0] % 8)
            else:
                o = g(f); self.flag[f] = (o[0], o[1], None)
        self.lo = {f: struct_off(pr, TU, 'napr_list_t', f) for f in ('head', 'tail', 'nb_cells')}
        self.co = {f: struct_off(pr, TU, 'napr_cell_t', f) for f in ('next', 'data')}
        s = lambda n: S((n,), 64)
        self.tp, self.LIST, self.H, self.H2, self.TL, self.D, self.N, self.NT = map(s, ('tp', 'list', 'cellH', 'cellH2', 'cellT', 'dataH', 'N', 'NT'))
        self.CTX, self.PD, self.MTX, self.COND, self.THR, self.POOL = map(s, ('cbctx', 'callback', 'mutex', 'cond', 'threads', 'tpool'))
        self.walk = rules_scan.Walk('walk')
        self.imm = {self.o[f][0] for f in ('thread', 'ctx', 'threadpool_mutex', 'threadpool_update', 'nb_thread', 'process_data', 'pool')}

    def v(self, group, key, rule, msg, inst, st):
        if group == self.want: self.ctx.violation(key, rule, msg, inst, st=st)

    # ---- state access
    def flags(self, eng, st):
        r = {}
        for f, (o, n, b) in self.flag.items():
            t = eng.load(st, P(self.tp, o), n, n * 8)
            if b is not None: t = binop('and', t, C(1 << b, n * 8), n * 8)
            c = eng.eqc(st, t)
            r[f] = None if c is None else int(c != 0)
        return r

    def setflags(self, eng, st, vals):
        by = {}
        for f, (o, n, b) in self.flag.items():
            by.setdefault((o, n), 0)
            if vals[f]: by[(o, n)] |= 1 << (b or 0)
        for (o, n), v in by.items(): eng.store(st, P(self.tp, o), C(v, n * 8), n)

    def field(self, eng, st, f): return fval(eng, st, self.tp, self.o[f])

    def waiting(self, k): return binop('add', self.NT, C(-k, 64), 64)

    def immut(self, eng, st):
        for f, t in (('thread', self.THR), ('ctx', self.CTX), ('threadpool_mutex', self.MTX), ('threadpool_update', self.COND), ('nb_thread', self.NT), ('process_data', self.PD), ('pool', self.POOL)):
            eng.store(st, P(self.tp, self.o[f][0]), t, 8)
        for t in (self.tp, self.THR, self.MTX, self.COND, self.PD): nonzero(eng, st, t)
        eng.constrain(st, self.NT, 'uge', 1); eng.constrain(st, self.NT, 'ule', 1 << 20)

    def acquire(self, eng, st, inst, again=False):
        """all states another thread may have left behind"""
        out = []
        role = self.role
        for n in (0, 1, 2):
            for run in (0, 1):
                for ended in (0, 1):
                    for sh in (0, 1):
                        for k in (0, 1, 2):
                            if ended and n: continue
                            if role == 'worker' and not st.mon.get('counted') and k == 0: continue
                            if run and n == 0 and k == 0 and not ended and not (role == 'worker' and st.mon.get('counted') and False): continue
                            if role in ('add', 'wait') and sh: continue           # use after shutdown is not part of the contract
                            if role == 'wait' and again and not run: continue      # the flag the waiter raised stays up until it lowers it
                            s = st.fork()
                            if k == 2 and not eng.constrain(s, self.NT, 'uge', 2): continue
                            for t in (self.LIST, self.H, self.H2, self.TL, self.D): nonzero(eng, s, t)
                            eng.constrain(s, self.N, 'uge', 2); eng.constrain(s, self.N, 'ule', (1 << 31) - 2)
                            self.setflags(eng, s, dict(run=run, ended=ended, shutdown=sh))
                            eng.store(s, P(self.tp, self.o['nb_waiting'][0]), self.waiting(k), 8)
                            eng.store(s, P(self.tp, self.o['list'][0]), self.LIST, 8)
                            L = lambda f: P(self.LIST, self.lo[f][0])
                            c = lambda b, f: P(b, self.co[f][0])
                            head = (NULL, self.H, self.H)[n]
                            tail = (None, self.H, self.TL)[n]
                            eng.store(s, L('nb_cells'), (C(0, 64), C(1, 64), self.N)[n], 8)
                            eng.store(s, L('head'), head, 8)
                            if tail is not None: eng.store(s, L('tail'), tail, 8)
                            else: eng.store(s, L('tail'), S(('tail0',), 64), 8)
                            if n:
                                eng.store(s, c(self.H, 'data'), self.D, 8)
                                eng.store(s, c(self.H, 'next'), self.H2 if n == 2 else NULL, 8)
                            if n == 2: eng.store(s, c(self.TL, 'next'), NULL, 8)
                            s.mon['held'] = 1
                            s.mon['acq'] = (n, run, ended, sh, k)
                            s.mon.pop('sig', None); s.mon.pop('inserted', None)
                            out.append(s)
        return out

    def num(self, eng, st, t):
        """k with t == NT - k, or None"""
        if t is self.NT: return 0
        if t.k == 'op' and t.a[0] == 'add' and t.a[1] is self.NT and t.a[2].k == 'c': return -sgn(cv(t.a[2]), 64)
        return None

    def release(self, eng, st, inst, how):
        ctx, role = self.ctx, self.role
        ctx.count('release ' + role)
        ctx.oblig('pool invariant and transition at release', site(inst))
        if st.mon.get('err') or role == 'init': return
        n, run, ended, sh, k = st.mon['acq']
        fl = self.flags(eng, st)
        lst = self.field(eng, st, 'list')
        cells = eng.load(st, P(lst, self.lo['nb_cells'][0]), 8, 64)
        head = eng.load(st, P(lst, self.lo['head'][0]), 8, 64)
        tail = eng.load(st, P(lst, self.lo['tail'][0]), 8, 64)
        nx = lambda c: eng.load(st, P(c, self.co['next'][0]), 8, 64)
        da = lambda c: eng.load(st, P(c, self.co['data'][0]), 8, 64)
        n0 = (C(0, 64), C(1, 64), self.N)[n]
        k2 = self.num(eng, st, self.field(eng, st, 'nb_waiting'))
        empty = eng.ev(st, icmp('eq', cells, C(0, 64)))
        took = None
        W = lambda *a: self.v('proto', *a)
        # the queue
        if lst is not self.LIST:
            if n: W('queue-dropped', 'submitted work is not lost', 'the queue is thrown away although tasks are still in it', inst, st)
            elif empty is not True or eng.eqc(st, head) != 0: W('queue-bad', 'the queue stays well formed', 'a new queue is not empty or not well formed', inst, st)
        elif cells is n0:
            if n and head is not self.H: W('queue-head', 'submitted work is not lost', 'the head of the queue changes but not its length', inst, st)
            if n and (tail is not (self.H if n == 1 else self.TL) or nx(tail) is not NULL): W('queue-tail', 'the queue stays well formed', 'the end of the queue is lost', inst, st)
        elif n and (cells is binop('add', n0, C(-1, 64), 64)):
            took = self.D
            if role != 'worker': W('queue-dropped', 'submitted work is not lost', 'a task is removed from the queue by a function that does not run it', inst, st)
            if head is not (NULL if n == 1 else self.H2): W('queue-head', 'submitted work is not lost', 'after taking a task the queue does not start at the next one', inst, st)
            if n == 2 and tail is not self.TL: W('queue-tail', 'the queue stays well formed', 'taking a task loses the end of the queue', inst, st)
        elif cells is binop('add', n0, C(1, 64), 64):
            new = None
            if role != 'add': W('queue-grow', 'each task is run once', 'the queue grows outside the submission of a task', inst, st)
            if n == 0:
                new = head
                if tail is not head: W('enqueue-tail', 'the queue stays well formed', 'the end of a one-element queue is not its first element, so the next task submitted is lost', inst, st)
                if eng.eqc(st, nx(head)) != 0: W('enqueue-next', 'the queue stays well formed', 'the only element of the queue has a next element', inst, st)
            elif head is self.H:
                new = tail
                last = self.H if n == 1 else self.TL
                if new is last or nx(last) is not new: W('enqueue-link', 'submitted work is not lost', 'the new task is not linked to the end of the queue', inst, st)
                elif eng.eqc(st, nx(new)) != 0: W('enqueue-next', 'the queue stays well formed', 'the last element of the queue has a next element', inst, st)
            else:
                new = head
                if nx(head) is not self.H: W('enqueue-link', 'submitted work is not lost', 'the tasks already queued are lost when a task is submitted', inst, st)
            if new is not None:
                if da(new) is not self.data: W('enqueue-data', 'each task is run once', 'the queued element does not carry the submitted task', inst, st)
                st.mon['inserted'] = 1
        else: W('queue-count', 'the queue stays well formed', 'the length of the queue is not adjusted by the number of tasks added or taken', inst, st)
        # flags
        if fl['ended'] == 1 and empty is not True: W('ended-nonempty', 'completion is announced only when all work is done', 'the "all done" state is left set although tasks are queued', inst, st)
        if fl['ended'] == 1 and not ended:
            if k2 != 0 or role != 'worker': W('ended-early', 'completion is announced only when all work is done', 'the "all done" state is set although a thread may still be running a task', inst, st)
        if fl['ended'] is None or fl['run'] is None or fl['shutdown'] is None: W('flags', 'the pool state is well formed', 'a state flag gets an undefined value', inst, st)
        if fl['shutdown'] == 1 and not sh and role != 'shutdown': W('shutdown-other', 'threads stop on request only', 'the shutdown flag is set by another operation', inst, st)
        if fl['shutdown'] == 0 and sh: W('shutdown-cleared', 'threads stop on request', 'a shutdown request is dropped', inst, st)
        if fl['run'] == 1 and not run and role not in ('wait',): W('run-other', 'completion is announced only to a waiter', 'the flag of the waiting caller is raised by another operation', inst, st)
        if fl['run'] == 0 and run and role != 'wait': W('run-cleared', 'the waiting caller is woken', 'the flag of the waiting caller is lowered by another operation', inst, st)
        waiter = fl['run'] == 1 and (role != 'wait' or how == 'wait')
        if waiter and empty is True and k2 == 0 and fl['ended'] == 0: W('done-unannounced', 'the waiting caller is woken', 'all threads wait and nothing is queued, but completion is not recorded: the caller waits for ever', inst, st)
        # counting
        after = 1 if how == 'wait' else 0
        if role == 'worker':
            before = 1 if st.mon.get('counted') else 0
            if k2 is None or k - k2 != after - before: W('count', 'idle threads are counted exactly', 'the number of waiting threads is not adjusted by exactly one around a wait', inst, st)
            st.mon['counted'] = after
        elif k2 != k: W('count', 'idle threads are counted exactly', 'the number of waiting threads is changed by a caller', inst, st)
        if how == 'wait':
            if role == 'worker':
                if empty is not True: W('wait-nonempty', 'submitted work is run', 'a thread goes to sleep although tasks are queued', inst, st)
                if fl['shutdown'] == 1: W('wait-shutdown', 'threads stop on request', 'a thread goes to sleep although shutdown was requested', inst, st)
                if fl['ended'] == 1 and not ended and 'broadcast' not in st.mon.get('sig', ()): W('ended-quiet', 'the waiting caller is woken', 'completion is recorded but nobody is woken', inst, st)
            elif role == 'wait':
                if fl['run'] != 1: W('wait-norun', 'the waiting caller is woken', 'the caller waits without telling the threads that it does', inst, st)
                if fl['ended'] == 1: W('wait-ended', 'the waiting caller is woken', 'the caller waits although completion was already announced', inst, st)
        if role == 'wait': st.mon['done'] = int(fl['ended'] == 1 or (empty is True and k2 == 0))
        if role == 'worker': st.mon['stop'] = int(fl['shutdown'] == 1)
        if role == 'shutdown':
            st.mon['asked'] = int(fl['shutdown'] == 1)
        if took is not None and how == 'unlock': st.mon['took'] = took
        elif took is not None: W('took-wait', 'submitted work is run', 'a thread takes a task and goes to sleep without running it', inst, st)

    # ---- library models
    def lock(self, eng, st, inst, args):
        self.ctx.count('lock ' + self.role)
        self.ctx.oblig('mutex discipline', site(inst))
        if args[0] is not self.MTX: self.v('lock', 'other-mutex', 'the pool is protected by its mutex', 'another mutex than that of the pool is taken', inst, st)
        if st.mon.get('held'): self.v('lock', 'relock', 'the mutex is taken once', 'the pool mutex is taken while it is held: the thread blocks itself', inst, st)
        bad = st.fork()
        bad.mon['err'] = 1
        rb = eng.fresh(bad, eng.site(bad, inst, 'st'), 32); eng.constrain(bad, rb, 'ne', 0)
        if st.mon.get('took') is not None: self.v('proto', 'took-lost', 'submitted work is run', 'a task is taken from the queue and never run', inst, st)
        return [(s, C(0, 32)) for s in self.acquire(eng, st, inst)] + [(bad, rb)]

    def unlock(self, eng, st, inst, args):
        self.ctx.oblig('mutex discipline', site(inst))
        if args[0] is not self.MTX: self.v('lock', 'other-mutex', 'the pool is protected by its mutex', 'another mutex than that of the pool is released', inst, st)
        if not st.mon.get('held'):
            if not st.mon.get('err'): self.v('lock', 'unlock-free', 'the mutex is released once', 'the pool mutex is released although it is not held', inst, st)
        else: self.release(eng, st, inst, 'unlock')
        st.mon['held'] = 0
        st.mon.pop('acq', None)
        return status_alts(eng, st, inst, None, lambda s: s.mon.__setitem__('err', 1))

    def wait(self, eng, st, inst, args):
        self.ctx.count('wait ' + self.role)
        self.ctx.oblig('waits with the mutex held', site(inst))
        if args[0] is not self.COND or args[1] is not self.MTX: self.v('lock', 'other-cond', 'the pool is protected by its mutex', 'a thread waits on another condition or with another mutex', inst, st)
        if not st.mon.get('held'):
            if not st.mon.get('err'): self.v('lock', 'wait-free', 'threads wait with the mutex held', 'a thread waits for a change without holding the mutex', inst, st)
            st.dead = True
            return []
        self.release(eng, st, inst, 'wait')
        bad = st.fork()
        bad.mon['err'] = 1
        rb = eng.fresh(bad, eng.site(bad, inst, 'st'), 32); eng.constrain(bad, rb, 'ne', 0)
        return [(s, C(0, 32)) for s in self.acquire(eng, st, inst, True)] + [(bad, rb)]

    def sig(self, kind):
        def m(eng, st, inst, args):
            self.ctx.count('wake-up ' + self.role)
            if args[0] is self.COND:
                st.mon['sig'] = tuple(sorted(set(st.mon.get('sig', ())) | {kind}))
                if 'inserted' in st.mon or st.mon.get('held'): st.mon['woken'] = kind
            return status_alts(eng, st, inst, None, lambda s: s.mon.__setitem__('err', 1))
        return m

    def join(self, eng, st, inst, args):
        ctx = self.ctx
        ctx.count('join')
        ctx.oblig('every thread is joined', site(inst))
        if st.mon.get('held'): self.v('lock', 'join-held', 'threads can finish', 'the pool waits for its threads while holding the mutex they need', inst, st)
        if not st.mon.get('asked') and not st.mon.get('err'): self.v('proto', 'join-unasked', 'threads stop on request', 'threads are waited for without having been told to stop', inst, st)
        if not st.mon.get('woken') and not st.mon.get('err'): self.v('proto', 'join-asleep', 'threads stop on request', 'threads are waited for without having been woken up', inst, st)
        elif st.mon.get('woken') == 'signal' and not st.mon.get('err'): self.v('proto', 'join-one', 'threads stop on request', 'only one thread is woken before all are waited for', inst, st)
        nm = symname(args[1])
        self.step(st, inst, nm[1] if nm and nm[0] == 'ld' else None, self.THR, 'join', 'threads are waited for')
        return status_alts(eng, st, inst, None, lambda s: s.mon.__setitem__('err', 1))

    def on_branch(self, eng, st, inst, cond, val):
        c = cond.a[1] if cond.k == 'op' and cond.a[0] == 'not' else cond
        if c.k == 'cmp' and any(x.k == 'p' and parts(x)[2] for x in c.a[1:] if isinstance(x, T)): st.mon['odd'] = 1

    def on_phi(self, eng, st, block, phis):
        nx = st.mon.get('walk')
        if nx is not None and nx != (None, 0) and not any(ph.ty[0] == 'i' and lin(new) == nx for ph, old, new in phis):
            for ph, old, new in phis:       # the walk is made with a pointer: decided for pools of known size
                if ph.ty[0] == 'ptr' and parts(new)[0] is not None and nx == ((None, parts(new)[1] // 8) if not parts(new)[2] else None): st.mon['odd'] = 1
        self.walk.on_phi(eng, st, block, phis)

    def step(self, st, inst, ptr, base, what, text):
        """one more element of a walk over the thread array"""
        if ptr is None or st.mon.get('odd'): st.mon['odd'] = 1; return
        b, off, dyn = parts(ptr)
        idx = (None, off // 8) if not dyn else (lambda l: (l[0], l[1] + off // 8))(lin(dyn[0][0])) if len(dyn) == 1 and dyn[0][1] == 8 else None
        if b is not base or idx is None: st.mon['odd'] = 1; return
        if not self.walk.event(st, idx):
            nx = st.mon.get('walk')
            if nx is not None and nx[0] is idx[0]: self.v('proto', what + '-index', 'every thread is started and joined once', 'the %s in the wrong order: one is left out or taken twice' % text, inst, st)
            st.mon['odd'] = 1

    def on_call(self, eng, st, inst, name, args):
        if name is None:
            fp = eng.val(st, inst.a[0], ('ptr',))
            if fp is self.PD:
                self.ctx.count('callback')
                self.ctx.oblig('callback without the mutex, with the task taken', site(inst))
                if st.mon.get('held'): self.v('lock', 'callback-held', 'tasks run in parallel', 'a task is run while the pool mutex is held', inst, st)
                if self.role != 'worker': self.v('proto', 'callback-other', 'tasks run in the threads of the pool', 'a task is run outside the threads of the pool', inst, st)
                t = st.mon.get('took')
                if st.mon.get('held'): t = self.D if t is None else t
                if t is None or (len(args) > 1 and args[1] is not t): self.v('proto', 'callback-data', 'each task is run once', 'the callback is run on something else than the task just taken from the queue', inst, st)
                if args and args[0] is not self.CTX: self.v('proto', 'callback-ctx', 'each task is run with its context', 'the callback does not get the context of the pool', inst, st)
                st.mon.pop('took', None)
                return [(st, None)]
        return None

    def access(self, eng, st, inst, ptr, write):
        b, off, dyn = parts(ptr)
        if b is self.tp:
            if off in self.imm:
                if write and self.role != 'init': self.v('lock', 'immutable', 'the set-up of the pool is fixed', 'a field every thread reads without the mutex is changed after the pool was created', inst, st)
                return
        elif b not in (self.LIST, self.H, self.H2, self.TL): return
        self.ctx.count('shared access')
        self.ctx.oblig('shared state only under the mutex', site(inst))
        if not st.mon.get('held') and not st.mon.get('err') and self.role != 'init':
            self.v('lock', 'unlocked-%s' % ('write' if write else 'read'), 'shared state is used under the mutex', 'the state of the pool is %s without holding its mutex' % ('changed' if write else 'read'), inst, st)

    def engine(self):
        models = dict(STD, apr_thread_mutex_lock=self.lock, apr_thread_mutex_unlock=self.unlock, apr_thread_cond_wait=self.wait,
                      apr_thread_cond_signal=self.sig('signal'), apr_thread_cond_broadcast=self.sig('broadcast'), apr_thread_join=self.join)
        eng = self.ctx.engine(models=models)
        eng.K = 600; eng.widen_arith = False
        eng.on_call = self.on_call
        eng.on_phi, eng.on_phi2, eng.on_branch = self.on_phi, self.walk.on_phi2, self.on_branch
        eng.on_load = lambda e, s, i, p, t: self.access(e, s, i, p, False)
        eng.on_store = lambda e, s, i, p, v, t: self.access(e, s, i, p, True)
        return eng

    def run(self, fn, role, args):
        ctx = self.ctx
        self.role = role
        eng = self.engine()

        def on_exit(e, st, v, how, inst):
            ctx.count('exit ' + role)
            ctx.oblig('at exit the mutex is free and success is earned', site(inst))
            if st.mon.get('held') and not st.mon.get('err'): self.v('lock', 'exit-held', 'the mutex is released', 'the pool mutex is still held when the operation ends', inst, st)
            elif st.mon.get('held') and st.mon.get('err') and not st.mon.get('unlock-failed'): self.v('lock', 'exit-held', 'the mutex is released', 'the pool mutex is still held when the operation ends after an error', inst, st)
            if st.mon.get('err'):
                if role != 'worker' and ret_is_zero(e, st, v) is not False: self.v('proto', 'error-hidden', 'errors are reported', 'an operation of the pool reports success although a step failed', inst, st)
                return
            if role == 'worker':
                if st.mon.get('took') is not None: self.v('proto', 'took-lost', 'submitted work is run', 'a task is taken from the queue and never run', inst, st)
                if not st.mon.get('stop'): self.v('proto', 'worker-quits', 'threads stop on request only', 'a thread of the pool ends without having been told to stop', inst, st)
                return
            ok = ret_is_zero(e, st, v)
            if ok is False: return
            if role == 'add':
                if not st.mon.get('inserted'): self.v('proto', 'add-nothing', 'submitted work is run', 'submitting a task succeeds without queueing it', inst, st)
                elif not st.mon.get('woken'): self.v('proto', 'add-quiet', 'submitted work is run', 'a task is queued but no thread is woken up for it', inst, st)
            if role == 'wait' and not st.mon.get('done'): self.v('proto', 'wait-early', 'waiting ends only when all work is done', 'waiting for completion returns although tasks may still be queued or running', inst, st)
            if role == 'shutdown':
                if not st.mon.get('asked'): self.v('proto', 'shutdown-unasked', 'threads stop on request', 'shutdown succeeds without telling the threads to stop', inst, st)
                elif not st.mon.get('odd') and not self.walk.complete(e, st, self.NT): self.v('proto', 'shutdown-join', 'every thread is started and joined once', 'shutdown succeeds although a thread of the pool may still be running', inst, st)
        eng.on_exit = on_exit
        ctx.run(eng, fn, args, mon={'held': 0, 'keep': (self.LIST, self.H, self.TL), 'walk': (None, 0)}, setup=self.immut)

    # ---- creation
    def init(self):
        ctx = self.ctx
        fn = ctx.prog.need('napr_threadpool_init')
        out, cbctx, nb, cb, pool = S(('arg', 0, 'out'), 64), S(('arg', 1, 'ctx'), 64), S(('arg', 2, 'nb'), 64), S(('arg', 3, 'cb'), 64), S(('arg', 4, 'pool'), 64)
        loops = set()

        def create(eng, st, inst, args):
            ctx.count('thread creation')
            ctx.oblig('the pool is complete before its first thread starts', site(inst))
            W = lambda *a: self.v('proto', *a)
            tp = eng.load(st, out, 8, 64)
            if args[3] is not tp: W('create-arg', 'threads work for their pool', 'a thread is started with something else than the pool', inst, st)
            f = lambda n: fval(eng, st, tp, self.o[n])
            for n, t in (('ctx', cbctx), ('nb_thread', nb), ('process_data', cb)):
                if f(n) is not t: W('create-' + n, 'the pool is complete before its first thread starts', 'a thread is started before %s is set' % n, inst, st)
            if eng.eqc(st, f('nb_waiting')) != 0: W('create-waiting', 'the pool is complete before its first thread starts', 'a thread is started before the count of waiting threads is reset', inst, st)
            for fl, (o, n, b) in self.flag.items():
                t = eng.load(st, P(tp, o), n, n * 8)
                if b is not None: t = binop('and', t, C(1 << b, n * 8), n * 8)
                if eng.eqc(st, t) != 0: W('create-flags', 'the pool is complete before its first thread starts', 'a thread is started before the state flags are reset', inst, st)
            lst = f('list')
            if symname(lst) is None or symname(lst)[0] not in ('h',): W('create-list', 'the pool is complete before its first thread starts', 'a thread is started before the queue exists', inst, st)
            elif eng.eqc(st, eng.load(st, P(lst, self.lo['nb_cells'][0]), 8, 64)) != 0 or eng.eqc(st, eng.load(st, P(lst, self.lo['head'][0]), 8, 64)) != 0:
                W('create-list', 'the pool is complete before its first thread starts', 'a thread is started before the queue is empty', inst, st)
            for n, k in (('threadpool_mutex', 'mtx'), ('threadpool_update', 'cnd')):
                nm = symname(f(n))
                if nm is None or nm[0] != k: W('create-sync', 'the pool is complete before its first thread starts', 'a thread is started before the mutex and the condition exist', inst, st)
            self.step(st, inst, args[0], base_of(f('thread')), 'create', 'threads are started')
            return status_alts(eng, st, inst, None, lambda s: s.mon.__setitem__('cfail', 1))

        def shut(eng, st, inst, args):
            st.mon['shut'] = 1
            return status_alts(eng, st, inst)

        def on_exit(eng, st, v, how, inst):
            ctx.count('exit init')
            if st.mon.get('cfail') and ret_is_zero(eng, st, v) is not False: self.v('proto', 'init-error', 'errors are reported', 'creating the pool succeeds although a thread could not be started', inst, st)
            if ret_is_zero(eng, st, v) is True and not st.mon.get('odd') and not self.walk.complete(eng, st, nb): self.v('proto', 'create-all', 'every thread is started and joined once', 'creating the pool succeeds with fewer threads than requested', inst, st)
            if st.mon.get('cfail') and not st.mon.get('shut'): self.v('proto', 'init-abandon', 'threads stop on request', 'creating the pool fails but leaves threads running on it', inst, st)
        eng = ctx.engine(models=dict(STD, apr_thread_create=create, apr_thread_mutex_create=m_status_out('mtx'), apr_thread_cond_create=m_status_out('cnd'), napr_threadpool_shutdown=shut), opaque=['napr_threadpool_shutdown'])
        eng.on_exit = on_exit
        eng.on_phi, eng.on_phi2, eng.on_branch = self.on_phi, self.walk.on_phi2, self.on_branch
        ctx.run(eng, fn, [out, cbctx, nb, cb, pool], mon={'walk': (None, 0)})

    def fixed(self, n):
        """creation and shutdown of a pool of exactly n threads"""
        ctx = self.ctx
        RULE = 'every thread is started and joined once'
        def seen(eng, st, inst, ptr, base):
            ctx.count('thread of a pool of known size')
            ctx.oblig(RULE, site(inst))
            b, off, dyn = parts(ptr) if ptr is not None else (None, 0, ())
            if b is not base or dyn or off % 8: st.mon['odd'] = 1
            else: st.mon['ids'] = st.mon.get('ids', ()) + (off // 8,)
            return [(st, C(0, 32))]
        def join(eng, st, inst, args):
            nm = symname(args[1])
            return seen(eng, st, inst, nm[1] if nm and nm[0] == 'ld' else None, self.THR)
        def create(eng, st, inst, args):
            return seen(eng, st, inst, args[0], base_of(eng.load(st, P(args[3], self.o['thread'][0]), 8, 64)))
        def done(eng, st, inst, args): return [(st, C(0, 32))]
        def check(what):
            def on_exit(eng, st, v, how, inst):
                ids = st.mon.get('ids', ())
                if ret_is_zero(eng, st, v) is not True or st.mon.get('odd') or sorted(ids) == list(range(n)): return
                if any(i >= n or i < 0 for i in ids): m = 'a thread that does not exist is %s in a pool of %d' % (what, n)
                elif len(set(ids)) < len(ids): m = 'a thread is %s twice in a pool of %d' % (what, n)
                else: m = 'only %d threads of a pool of %d are %s' % (len(ids), n, what)
                self.v('proto', 'known-' + what, RULE, m, inst, st)
            return on_exit
        def prepare(models, what, opaque=()):
            eng = ctx.engine(models=models, opaque=list(opaque))
            eng.unroll = eng.K = 100000; eng.WIDEN_VISITS = 1000; eng.widen_arith = False
            eng.concrete = lambda v: True
            eng.on_exit = check(what)
            return eng
        ok = {k: done for k in ('apr_thread_mutex_lock', 'apr_thread_mutex_unlock', 'apr_thread_cond_broadcast', 'apr_thread_cond_signal')}
        nt = C(n, 64)
        def setup(e, s):
            nonzero(e, s, self.NT); self.immut(e, s)
            e.store(s, P(self.tp, self.o['nb_thread'][0]), nt, 8)
        ctx.run(prepare(dict(STD, apr_thread_join=join, **ok), 'joined'), 'napr_threadpool_shutdown', [self.tp], mon={'keep': (self.THR,)}, setup=setup)
        if not n: return
        out, cbctx, cb, pool = S(('arg', 0, 'out'), 64), S(('arg', 1, 'ctx'), 64), S(('arg', 3, 'cb'), 64), S(('arg', 4, 'pool'), 64)
        ctx.run(prepare(dict(STD, apr_thread_create=create, apr_thread_mutex_create=m_status_out('mtx'), apr_thread_cond_create=m_status_out('cnd'), napr_threadpool_shutdown=done, **ok), 'started', ['napr_threadpool_shutdown']), 'napr_threadpool_init', [out, cbctx, nt, cb, pool])

    def loops(self):
        """thread entry points: third argument of apr_thread_create"""
        r = []
        for f in closure(self.ctx.prog, [self.ctx.prog.need('napr_threadpool_init')]):
            for x, n in self.ctx.prog.calls(f):
                if n == 'apr_thread_create':
                    o = x.a[1][2][1]
                    if o[0] == 'glob':
                        g = self.ctx.prog.lookup(o[1][1:].strip('"'), f.unit)
                        if g is not None and g not in r: r.append(g)
        return r

    def all(self):
        ctx = self.ctx
        self.data = S(('arg', 1, 'data'), 64)
        self.run('napr_threadpool_add', 'add', [self.tp, self.data])
        self.run('napr_threadpool_wait', 'wait', [self.tp])
        ls = self.loops()
        for f in ls:
            ctx.count('thread function')
            self.run(f, 'worker', [S(('arg', 0, 'thd'), 64), self.tp])
        self.run('napr_threadpool_shutdown', 'shutdown', [self.tp])
        if self.want == 'proto':
            self.init()
            for n in (1, 2, 3, 20): self.fixed(n)
        for n in ('lock add', 'lock wait', 'lock worker', 'lock shutdown', 'wait worker', 'wait wait', 'thread function', 'callback', 'join', 'exit worker', 'exit wait', 'exit add', 'exit shutdown', 'shared access'): ctx.need(n)


def S13(ctx): Pool(ctx, 'lock').all()


def S21(ctx): Pool(ctx, 'proto').all()


# ------------------------------------------------------------------ extraction of archive members (S22, part of S10)
class Extract:
    def __init__(self, ctx, want):
        self.ctx, self.want = ctx, want
        self.EOF = 1
        self.file = S(('arg', 0, 'file'), 64)
        self.o_path = struct_off(ctx.prog, 'ft_archive.c', 'ft_file_t', 'path')
        self.o_sub = struct_off(ctx.prog, 'ft_archive.c', 'ft_file_t', 'subpath')

    def v(self, key, rule, msg, inst, st):
        if self.want in ('extract', 'temps') and (self.want == 'temps') == key.startswith('temp-'): self.ctx.violation(key, rule, msg, inst, st=st)

    def handle(self, kind):
        def m(eng, st, inst, args):
            self.ctx.count('handle')
            bad = st.fork()
            h = nonzero(eng, st, eng.fresh(st, (kind, st.frames[-1].ctx, inst.id), 64))
            st.mon[(kind,)] = h
            return [(st, h), (bad, NULL)]
        return m

    def free(self, kind):
        def m(eng, st, inst, args):
            self.ctx.oblig('archive handles released once', site(inst))
            if st.mon.get((kind,)) is not args[0]: self.v('handle-free', 'archive handles are released once', 'an archive handle is released twice or never was open', inst, st)
            st.mon.pop((kind,), None)
            return [(st, eng.fresh(st, eng.site(st, inst, 'r'), 32))]
        return m

    def status(self, ok=None, fail=None):
        return lambda eng, st, inst, args: status_alts(eng, st, inst, (lambda s: ok(eng, s, inst, args)) if ok else None, (lambda s: fail(eng, s, inst, args)) if fail else None)

    def next_header(self, eng, st, inst, args):
        """OK, end of archive, or an error"""
        self.ctx.count('header')
        if st.mon.get(('r',)) is not args[0]: self.v('handle-use', 'archive handles are used while open', 'an archive is read through a handle that is not open', inst, st)
        outs = []
        for kind in ('ok', 'eof', 'err'):
            s = st.fork()
            r = C(0, 32) if kind == 'ok' else C(self.EOF, 32) if kind == 'eof' else eng.fresh(s, eng.site(s, inst, 'r'), 32)
            if kind == 'err': eng.constrain(s, r, 'slt', 0); s.mon['failed'] = 1
            else:
                e = nonzero(eng, s, eng.fresh(s, ('entry', s.frames[-1].ctx, inst.id), 64))
                eng.store(s, args[1], e, 8)
                s.mon['entry'] = e if kind == 'ok' else None
                s.mon['dest'] = None
                s.mon['match'] = None
            outs.append((s, r))
        return outs

    def pathname(self, eng, st, inst, args):
        v = nonzero(eng, st, eng.fresh(st, ('ename', st.frames[-1].ctx, inst.id), 64))
        st.mon['ename'] = v
        return [(st, v)]

    def strcmp(self, eng, st, inst, args):
        r = eng.fresh(st, eng.site(st, inst, 'cmp'), 32)
        sub = fval(eng, st, self.file, self.o_sub)
        if st.mon.get('ename') in args and sub in args: st.mon['match'] = r
        return [(st, r)]

    def mkstemp(self, eng, st, inst, args):
        self.ctx.count('temporary file')
        self.ctx.oblig('temporary file is private and unique', site(inst))
        bad = st.fork()
        fd = eng.fresh(st, ('fd', st.frames[-1].ctx, inst.id), 32); eng.constrain(st, fd, 'sge', 0)
        fb = eng.fresh(bad, ('fd', bad.frames[-1].ctx, inst.id), 32); eng.constrain(bad, fb, 'slt', 0)
        if st.mon.get('temp') is not None: self.v('temp-second', 'temporary copies are removed', 'another temporary file is made while one exists', inst, st)
        st.mon['temp'] = args[0]; st.mon['fd'] = fd
        bad.mon['failed'] = 1
        bad.note(inst, 'mkstemp fails')
        return [(st, fd), (bad, fb)]

    def umask(self, eng, st, inst, args):
        if st.mon.get('umask') is not None and args[0] is st.mon['umask']:
            st.mon.pop('umask')
            return [(st, eng.fresh(st, eng.site(st, inst, 'r'), 32))]
        old = eng.fresh(st, ('umask', st.frames[-1].ctx, inst.id), 32)
        if st.mon.get('umask') is None: st.mon['umask'] = old
        return [(st, old)]

    def close(self, eng, st, inst, args):
        if args[0] is st.mon.get('fd'): st.mon.pop('fd')
        return [(st, eng.fresh(st, eng.site(st, inst, 'r'), 32))]

    def setpath(self, eng, st, inst, args):
        if args[0] is st.mon.get('entry'): st.mon['dest'] = args[1]
        return [(st, None)]

    def write_header(self, eng, st, inst, args):
        self.ctx.count('write header')
        self.ctx.oblig('extraction goes to the temporary file only', site(inst))
        if st.mon.get(('w',)) is not args[0]: self.v('handle-use', 'archive handles are used while open', 'a member is written through a handle that is not open', inst, st)
        if st.mon.get('dest') is None or st.mon.get('dest') is not st.mon.get('temp'): self.v('extract-outside', 'extraction writes only to a private temporary file', 'a member of an archive is written under a path of its own choosing', inst, st)
        m = st.mon.get('match')
        if m is None or eng.eqc(st, m) != 0: self.v('extract-other', 'the requested member is extracted', 'a member is extracted without having been found to be the requested one', inst, st)
        return status_alts(eng, st, inst, lambda s: s.mon.__setitem__('header', 1), lambda s: s.mon.__setitem__('failed', 1))

    def read_block(self, eng, st, inst, args):
        self.ctx.count('read block')
        if st.mon.get('pend') is not None: self.v('extract-lost', 'the copy is complete', 'a block of the member is read but not written', inst, st)
        outs = []
        for kind in ('ok', 'eof', 'err'):
            s = st.fork()
            r = C(0, 32) if kind == 'ok' else C(self.EOF, 32) if kind == 'eof' else eng.fresh(s, eng.site(s, inst, 'r'), 32)
            if kind == 'err': eng.constrain(s, r, 'slt', 0); s.mon['failed'] = 1
            if kind == 'eof': s.mon['complete'] = 1
            if kind == 'ok':
                vals = []
                for i in (1, 2, 3):
                    v = eng.fresh(s, ('blk%d' % i, s.frames[-1].ctx, inst.id), 64)
                    eng.store(s, args[i], v, 8)
                    vals.append(v)
                s.mon['pend'] = tuple(vals)
            outs.append((s, r))
        return outs

    def write_block(self, eng, st, inst, args):
        self.ctx.count('write block')
        self.ctx.oblig('each block is written as it was read', site(inst))
        p = st.mon.pop('pend', None)
        if p is None or tuple(args[1:4]) != p: self.v('extract-block', 'the copy is complete', 'something else than the block just read is written', inst, st)
        if not st.mon.get('header'): self.v('extract-noheader', 'the copy is complete', 'data is written before the temporary file is set up', inst, st)
        out = []
        for code in (-20, -25, -30):       # warning (data truncated), failed, fatal
            bad = st.fork()
            bad.mon['failed'] = 1; bad.note(inst, 'archive_write_data_block fails')
            out.append((bad, C(code, 64)))
        return [(st, C(0, 64))] + out

    def remove(self, eng, st, inst, args):
        self.ctx.count('remove')
        if args[0] is not st.mon.get('temp'): self.v('temp-user', 'only temporary copies are removed', 'a path that is not the temporary copy is removed', inst, st)
        else: st.mon.pop('temp')
        return [(st, eng.fresh(st, eng.site(st, inst, 'r'), 32))]

    def on_exit(self, eng, st, v, how, inst):
        self.ctx.count('exit')
        self.ctx.oblig('extraction: a complete copy or nothing', site(inst))
        for k, n in (('r', 'reading'), ('w', 'writing')):
            if st.mon.get((k,)) is not None: self.v('handle-leak', 'archive handles are released', 'the %s handle of the archive is not released' % n, inst, st)
        if st.mon.get('umask') is not None: self.v('umask', 'the file mode mask is restored', 'the file mode mask of the process stays changed', inst, st)
        if st.mon.get('fd') is not None: self.v('fd-leak', 'descriptors are closed', 'the descriptor of the temporary file stays open', inst, st)
        null = eng.eqc(st, v) == 0
        if null:
            if st.mon.get('temp') is not None: self.v('temp-leak', 'temporary copies are removed', 'extraction fails but leaves its temporary file behind', inst, st)
        else:
            if st.mon.get('temp') is not v: self.v('temp-result', 'temporary copies live until used', 'the path returned is not that of an existing temporary copy', inst, st)
            if st.mon.get('failed') or not st.mon.get('complete') or not st.mon.get('header') or st.mon.get('pend') is not None:
                self.v('extract-partial', 'the copy is complete', 'extraction succeeds although the member was not copied to its end', inst, st)

    def openf(self, eng, st, inst, args):
        self.ctx.oblig('the archive of the file is opened', site(inst))
        if args[1] is not fval(eng, st, self.file, self.o_path): self.v('open-other', 'the requested member is extracted', 'another archive than that of the file is opened', inst, st)
        return status_alts(eng, st, inst)

    def run(self):
        m = dict(STD, archive_read_new=self.handle('r'), archive_write_disk_new=self.handle('w'), archive_read_free=self.free('r'), archive_write_free=self.free('w'),
                 archive_read_finish=self.free('r'), archive_write_finish=self.free('w'), archive_read_support_filter_all=m_status, archive_read_support_format_all=m_status,
                 archive_read_open_filename=self.openf, archive_read_next_header=self.next_header, archive_entry_pathname=self.pathname, strcmp=self.strcmp,
                 mkstemp=self.mkstemp, umask=self.umask, close=self.close, archive_entry_copy_pathname=self.setpath, archive_entry_set_pathname=self.setpath,
                 archive_write_header=self.write_header, archive_read_data_block=self.read_block, archive_write_data_block=self.write_block,
                 apr_file_remove=self.remove, unlink=self.remove, archive_error_string=m_nonnull('msg'))
        eng = self.ctx.engine(models=m)
        eng.on_exit = self.on_exit
        self.ctx.run(eng, 'ft_archive_untar_file', [self.file, S(('arg', 1, 'pool'), 64)])
        for n in ('handle', 'header', 'temporary file', 'write header', 'read block', 'write block', 'exit'): self.ctx.need(n)


def S22(ctx): Extract(ctx, 'extract').run()


# ------------------------------------------------------------------ worker callbacks (S12)
def callbacks(prog):
    """fourth argument of napr_threadpool_init"""
    out = []
    for f in prog.allfuncs:
        for x, n in prog.calls(f):
            if n == 'napr_threadpool_init' and len(x.a[1]) > 3:
                o = x.a[1][3][1]
                g = prog.lookup(o[1][1:].strip('"'), f.unit) if o[0] == 'glob' else None
                if g is None: raise AnalysisBroken('worker callback passed at %s not resolved' % site(x))
                if g not in out: out.append(g)
    return out


ALLOCATORS = {'apr_palloc': 0, 'apr_pcalloc': 0, 'apr_pstrdup': 0, 'apr_psprintf': 0, 'apr_pstrcat': 0, 'apr_pstrndup': 0, 'apr_pmemdup': 0, 'apr_pstrmemdup': 0,
              'apr_array_make': 0, 'apr_hash_make': 0, 'apr_file_open': 4, 'apr_file_remove': 1, 'apr_pool_clear': 0, 'apr_pool_destroy': 0, 'apr_mmap_create': 5,
              'checksum_file': 4, 'ft_archive_untar_file': 1, 'filecmp': 0, 'apr_stat': 3, 'apr_pool_cleanup_register': 0, 'apr_dir_open': 2, 'apr_file_mktemp': 3}
MUTATORS = {'napr_heap_insert': 0, 'napr_heap_extract': 0, 'napr_hash_set': 0, 'napr_hash_remove': 0, 'apr_hash_set': 0, 'apr_array_push': 0, 'napr_threadpool_wait': 0, 'napr_threadpool_shutdown': 0}


class Worker:
    def __init__(self, ctx, fn, temps=False):
        self.ctx, self.fn, self.temps = ctx, fn, temps
        self.C, self.Tk = S(('arg', 0, 'ctx'), 64), S(('arg', 1, 'task'), 64)
        self.mut = set()
        self.hash = any(n == 'checksum_file' for f in closure(ctx.prog, [fn]) for _, n in ctx.prog.calls(f))
        if self.hash:
            u = 'ft_process.c'
            g = lambda s, f: struct_off(ctx.prog, u, s, f)
            self.o_tf, self.o_ti = g('hashing_task_t', 'fsize'), g('hashing_task_t', 'index')
            self.o_arr, self.o_file, self.o_hash = g('ft_fsize_t', 'chksum_array'), g('ft_chksum_t', 'file'), g('ft_chksum_t', 'hash_value')
            self.o_path, self.o_size, self.o_sub = g('ft_file_t', 'path'), g('ft_file_t', 'size'), g('ft_file_t', 'subpath')
            self.o_val = g('ft_fsize_t', 'val'); self.o_conf = g('hashing_context_t', 'conf')
            un = ctx.prog.units[u]
            self.slot = un.types.size(un.types.named['%struct.ft_chksum_t'])

    def v(self, key, rule, msg, inst, st):
        if self.temps == key.startswith('temp-'): self.ctx.violation(key, rule, msg, inst, st=st)

    @staticmethod
    def root(t):
        """symbol a value was read through"""
        for _ in range(12):
            t = base_of(t)
            n = symname(t)
            if isinstance(n, tuple) and n and n[0] in ('ld', 'lp', 'ldp') and isinstance(n[1], T): t = n[1]; continue
            return t
        return t

    def shared(self, t): return self.root(t) is self.C

    def want(self, eng, st):
        """file of the task, its slot"""
        fs = fval(eng, st, self.Tk, self.o_tf)
        ix = fval(eng, st, self.Tk, self.o_ti)
        arr = fval(eng, st, fs, self.o_arr)
        i64 = cast('zext', ix, ix.bits, 64)
        slot = P(arr, 0, ((i64, self.slot),))
        return slot, eng.load(st, P(slot, self.o_file[0]), 8, 64)

    def on_call(self, eng, st, inst, name, args):
        k = ALLOCATORS.get(name)
        if k is not None and k < len(args):
            self.ctx.oblig('shared pools are not used by workers', site(inst))
            if self.shared(args[k]) and not st.mon.get('held'):
                self.v('shared-pool', 'workers allocate from pools of their own', 'a worker uses a memory pool shared by all workers', inst, st)
        k = MUTATORS.get(name)
        if k is not None and k < len(args) and self.shared(args[k]) and not st.mon.get('held'):
            self.v('shared-container', 'workers change shared data under the lock only', 'a worker changes a shared container without the lock', inst, st)
        return None

    def lock(self, eng, st, inst, args):
        self.ctx.count('lock')
        if not self.shared(args[0]): return status_alts(eng, st, inst)
        if st.mon.get('held'): self.v('relock', 'the lock is taken once', 'a worker takes the lock twice', inst, st)
        return status_alts(eng, st, inst, lambda s: s.mon.__setitem__('held', args[0]))

    def unlock(self, eng, st, inst, args):
        if not self.shared(args[0]): return status_alts(eng, st, inst)
        if st.mon.get('held') is not args[0]: self.v('unlock-free', 'the lock is released once', 'a worker releases a lock it does not hold', inst, st)
        st.mon['held'] = None
        return status_alts(eng, st, inst)

    def on_store(self, eng, st, inst, ptr, val, tag):
        if self.shared(ptr):
            b, off, dyn = parts(ptr)
            self.ctx.count('shared store')
            self.ctx.oblig('shared data is changed under the lock', site(inst))
            if b is self.C: self.mut.add(off)
            if not st.mon.get('held'): self.v('shared-store', 'workers change shared data under the lock only', 'a worker changes data shared by all workers without the lock', inst, st)
            return
        n = symname(base_of(ptr))
        if isinstance(n, tuple) and n and n[0] == 'g' and not st.mon.get('held'):
            self.v('global-store', 'workers change shared data under the lock only', 'a worker changes a global variable without the lock', inst, st)
        if self.hash and self.root(ptr) is self.Tk:
            slot, _ = self.want(eng, st)
            b, off, dyn = parts(ptr)
            sb, so, sd = parts(slot)
            if b is sb and not (dyn == sd and so + self.o_hash[0] <= off < so + self.o_hash[0] + self.o_hash[1]):
                self.v('other-slot', 'each worker writes its own result only', 'a worker writes into a slot that is not its own', inst, st)
            elif b is not sb: self.v('task-shared', 'each worker writes its own result only', 'a worker changes data of the size group that other workers use', inst, st)

    def on_load(self, eng, st, inst, ptr, tag):
        b, off, dyn = parts(ptr)
        if b is self.C and off in self.mut:
            self.ctx.oblig('shared data is read under the lock', site(inst))
            if not st.mon.get('held'): self.v('shared-load', 'workers read changing data under the lock only', 'a worker reads a shared counter without the lock', inst, st)

    def checksum(self, eng, st, inst, args):
        ctx = self.ctx
        ctx.count('checksum')
        ctx.oblig('the task\'s own file is hashed into its own slot', site(inst))
        slot, file = self.want(eng, st)
        b, off, dyn = parts(args[3])
        sb, so, sd = parts(slot)
        if not (b is sb and dyn == sd and off == so + self.o_hash[0]): self.v('hash-slot', 'each worker writes its own result only', 'the hash of a file is not stored in the slot of its task', inst, st)
        t = st.mon.get('temp')
        want = t if t is not None else fval(eng, st, file, self.o_path)
        if args[0] is not want: self.v('hash-file', 'the file of the task is hashed', 'another file than that of the task is hashed', inst, st)
        if args[1] not in (fval(eng, st, file, self.o_size), fval(eng, st, fval(eng, st, self.Tk, self.o_tf), self.o_val)): self.v('hash-size', 'the file of the task is hashed', 'the size passed to the hashing is not that of the file', inst, st)
        if st.mon.get('hashed'): self.v('hash-twice', 'each task is hashed once', 'a task is hashed twice', inst, st)
        st.mon['hashed'] = 1
        if t is not None and not st.mon.get('live'): self.v('temp-gone', 'temporary copies live until used', 'a temporary copy is hashed after it was removed', inst, st)
        def bad(s): s.mon['hfail'] = 1
        return status_alts(eng, st, inst, None, bad)

    def untar(self, eng, st, inst, args):
        self.ctx.count('extraction')
        _, file = self.want(eng, st)
        if args[0] is not file: self.v('hash-file', 'the file of the task is hashed', 'a member of another file is extracted', inst, st)
        s2 = st.fork()
        v = nonzero(eng, st, eng.fresh(st, ('tmpf', st.frames[-1].ctx, inst.id), 64))
        st.mon['temp'] = v; st.mon['live'] = 1
        eng.assume(st, icmp('ne', v, fval(eng, st, file, self.o_path)), True)
        return [(st, v), (s2, NULL)]

    def remove(self, eng, st, inst, args):
        self.ctx.count('remove')
        self.ctx.oblig('only temporary copies are removed', site(inst))
        if args[0] is not st.mon.get('temp'): self.v('temp-user', 'only temporary copies are removed', 'a worker removes a path that is not its temporary copy', inst, st)
        elif not st.mon.get('live'): self.v('temp-twice', 'temporary copies are removed once', 'a temporary copy is removed twice', inst, st)
        st.mon['live'] = 0
        return [(st, eng.fresh(st, eng.site(st, inst, 'r'), 32))]

    def on_exit(self, eng, st, v, how, inst):
        self.ctx.count('exit')
        self.ctx.oblig('at exit the lock is free and the task is done', site(inst))
        if st.mon.get('held'): self.v('exit-held', 'the lock is released', 'a worker ends with the lock held: every other worker waits for ever', inst, st)
        if st.mon.get('live'): self.v('temp-leak', 'temporary copies are removed', 'a worker leaves its temporary copy behind', inst, st)
        if self.hash and ret_is_zero(eng, st, v) is not False:
            if not st.mon.get('hashed'): self.v('not-hashed', 'each task is hashed', 'a worker reports success without hashing its file', inst, st)
        if st.mon.get('subpool') is not None: self.v('pool-leak', 'a worker releases its memory', 'a worker does not release the pool it made', inst, st)

    def mkpool(self, eng, st, inst, args):
        def ok(s): s.mon['subpool'] = nonzero(eng, s, out_fresh(eng, s, inst, args[0], 'pool'))
        return status_alts(eng, st, inst, ok)

    def rmpool(self, eng, st, inst, args):
        if st.mon.get('subpool') is args[0]: st.mon['subpool'] = None
        return [(st, None)]

    def run(self):
        ctx = self.ctx
        m = dict(STD, apr_thread_mutex_lock=self.lock, apr_thread_mutex_unlock=self.unlock, apr_pool_create_ex=self.mkpool, apr_pool_destroy=self.rmpool)
        if self.hash: m.update(checksum_file=self.checksum, ft_archive_untar_file=self.untar, apr_file_remove=self.remove, unlink=self.remove)
        for rounds in (0, 1):      # the second round knows which shared fields change
            eng = ctx.engine(models=m, opaque=['checksum_file', 'ft_archive_untar_file', 'napr_heap_insert', 'napr_heap_extract', 'napr_hash_set', 'napr_hash_remove'])
            eng.on_call, eng.on_store, eng.on_load, eng.on_exit = self.on_call, self.on_store, self.on_load, self.on_exit
            ctx.run(eng, self.fn, [self.C, self.Tk], mon={'held': None})


def S12(ctx):
    fns = callbacks(ctx.prog)
    for f in fns:
        ctx.count('callback')
        Worker(ctx, f).run()
        # everything a worker reaches: no static storage
        for g in closure(ctx.prog, [f]):
            if g.unit.name.startswith('XXH') if hasattr(g.unit, 'name') else False: continue
            for b in g.order:
                for x in b.insts:
                    for o in globops(x):
                        d = g.unit.globals.get(o)
                        if d is None or d['const'] or d['init'] is None: continue
                        if ctx.prog.lookup(o[1:].strip('"'), g.unit) is not None: continue
                        if not any_store(ctx.prog, g.unit, o, d): continue
                        ctx.oblig('no static storage in code run by workers', site(x))
                        ctx.violation('static-storage', 'workers share no static storage', 'code run by several threads at once uses the static variable %s' % o[1:], x)
            ctx.count('worker function')
    ctx.need('callback', 2); ctx.need('checksum'); ctx.need('lock', 2); ctx.need('shared store', 2); ctx.need('worker function', 3)


def globops(x):
    r = []
    def w(o):
        if isinstance(o, tuple):
            if len(o) >= 2 and o[0] == 'glob' and isinstance(o[1], str): r.append(o[1])
            else:
                for z in o: w(z)
        elif isinstance(o, list):
            for z in o: w(z)
    w(x.a)
    return r


def any_store(prog, unit, g, d):
    """is this variable ever written (or its address passed on) in its unit"""
    for f in unit.funcs.values():
        for b in f.order:
            for x in b.insts:
                if g in globops(x) and x.op != 'load': return True
    return False


_S10 = rules_scan.S10


def S10(ctx):
    _S10(ctx)
    Extract(ctx, 'temps').run()
    for f in callbacks(ctx.prog):
        w = Worker(ctx, f, True)
        if w.hash: w.run(); ctx.count('worker')
    ctx.need('worker')
