"""S16: ignore rules -- precedence of patterns, reading of ignore files, translation of a pattern."""
import itertools, re, warnings
warnings.simplefilter('ignore', FutureWarning)
import ir
from common import *
from rules_scan import fval, symname, lin, plus, Walk, const
from rules_cont import neval, feasible

U = 'ft_ignore.c'
REP = [ord(c) for c in 'ab*?[]\\/!# .+^$-{}()|~,\t'] + [0]     # one character of each kind the syntax distinguishes


class Ignore:
    def __init__(self, ctx):
        self.ctx = ctx
        o = lambda s, f: struct_off(ctx.prog, U, s, f)
        self.c = {f: o('ft_ignore_context_t', f) for f in ('parent', 'patterns', 'base_dir', 'base_dir_len')}
        self.p = {f: o('ft_ignore_pattern_t', f) for f in ('regex', 'flags')}
        self.a = {'elts': (24, 8), 'nelts': (12, 4)}
        try: self.a = {f: o('apr_array_header_t', f) for f in ('elts', 'nelts')}
        except Exception: pass
        self.NEG, self.DIR = macro_int('FT_IGNORE_NEGATE'), macro_int('FT_IGNORE_DIR_ONLY')
        self.R = [enum_int(ctx.prog, 'FT_IGNORE_MATCH_' + n) if False else i for i, n in enumerate(('NONE', 'IGNORED', 'WHITELISTED'))]

    def v(self, key, rule, msg, inst, st): self.ctx.violation(key, rule, msg, inst, st=st)

    def owner(self, t, off):
        """x when t was loaded from field off of x"""
        n = symname(t)
        if not (isinstance(n, tuple) and n and n[0] == 'ld' and isinstance(n[1], T)): return None
        b, o, dyn = parts(n[1])
        return b if o == off and not dyn else None

    # ---------------------------------------------------------------- precedence
    def match(self, isdir, n):
        ctx = self.ctx
        CTX, PATH = S(('ctx',), 64), S(('path',), 64)
        walk = Walk('walk')
        RULE = 'the last matching pattern of the innermost ignore file decides'
        def close(eng, st, inst):
            """the patterns of the current context have all been looked at"""
            self.passed(eng, st, inst, isdir)
            if not st.mon.get('under'): return
            cur = st.mon['cur']
            nel = eng.load(st, P(eng.load(st, P(cur, self.c['patterns'][0]), 8, 64), self.a['nelts'][0]), 4, 32)
            mode = st.mon.get('mode')
            if mode is None and eng.ev(st, icmp('slt', binop('add', nel, C(-1, 32), 32), C(0, 32))) is True: return
            if mode == 'down':
                if not st.mon.get('hit') and st.mon['walk'] != (None, -1) and not self.low(eng, st): self.v('patterns-left', RULE, 'not every pattern of an ignore file is tried', inst, st)
            else:
                nx = st.mon['walk']
                t = C(nx[1], 32) if nx[0] is None else nx[0] if not nx[1] else binop('add', nx[0], C(nx[1], nx[0].bits), nx[0].bits)
                n2 = nel if t.bits == 32 else cast('sext', nel, 32, 64)
                if eng.ev(st, icmp('sge', t, n2)) is not True and eng.ev(st, icmp('uge', t, n2)) is not True: self.v('patterns-left', RULE, 'not every pattern of an ignore file is tried', inst, st)
            if st.mon.get('hit') and not st.mon.get('decided'): st.mon['decided'] = st.mon['hit']
        def begin(eng, st, inst, x):
            if st.mon.get('cur') is not None: close(eng, st, inst)
            if not st.mon.get('decided') and st.mon.get('next') is not None and x is not st.mon['next']: self.v('context-order', 'the innermost ignore file comes first', 'the ignore files are not consulted from the innermost to the outermost', inst, st)
            ctx.count('ignore file consulted')
            for k in ('under', 'mode', 'hit', 'pat', 'ran'): st.mon.pop(k, None)
            st.mon['cur'] = x; st.mon['walk'] = (None, 0)
            st.mon['next'] = eng.load(st, P(x, self.c['parent'][0]), 8, 64)
            nel = eng.load(st, P(eng.load(st, P(x, self.c['patterns'][0]), 8, 64), self.a['nelts'][0]), 4, 32)
            eng.constrain(st, nel, 'sge', 0); eng.constrain(st, nel, 'sle', 1 << 20)
            if nel not in st.mon['keep']: st.mon['keep'] += (nel,)
        def cmp(eng, st, inst, args):
            pa = [i for i in (0, 1) if args[i] is PATH]
            if len(pa) != 1: return None
            x = self.owner(args[1 - pa[0]], self.c['base_dir'][0])
            if x is None: return None
            begin(eng, st, inst, x)
            ln = eng.load(st, P(x, self.c['base_dir_len'][0]), 8, 64)
            if len(args) > 2 and args[2] is not ln:
                self.v('prefix', 'patterns apply below their directory', 'a path is not compared with the whole directory of the ignore file', inst, st)
            s2 = st.fork()
            st.mon['under'] = 1
            st.mon['rel'] = frozenset([nonzero(eng, st, P(PATH, 0, ((ln, 1),)))])
            s2.mon['under'] = 0
            r = S(('differs', self.ctx and inst.id), 32)
            eng.constrain(s2, eng.fresh(s2, ('differs', inst.id), 32), 'ne', 0)
            return [(st, C(0, 32)), (s2, S(('differs', inst.id), 32))]
        def on_load(eng, st, inst, ptr, tag):
            b, off, dyn = parts(ptr)
            if self.owner(b, self.a['elts'][0]) is None or len(dyn) > 1 or off % 8: return
            hdr = self.owner(b, self.a['elts'][0])
            x = self.owner(hdr, self.c['patterns'][0])
            if x is None or x is not st.mon.get('cur') or inst.ty and inst.ty[0] != 'ptr': return
            i = plus(lin(dyn[0][0]), off // 8) if dyn else (None, off // 8)
            if st.mon.get('at') == i and st.mon.get('pat') is not None: return
            self.passed(eng, st, inst, isdir)
            ctx.count('pattern tried')
            if not st.mon.get('under'): self.v('not-under', 'patterns apply below their directory', 'the patterns of an ignore file are applied to a path outside its directory', inst, st)
            nel = eng.load(st, P(hdr, self.a['nelts'][0]), 4, 32)
            m = st.mon.get('mode')
            if m is None:
                if i == (None, 0): m = 'up'
                elif i[0] is nel and i[1] == -1: m = 'down'; st.mon['walk'] = i
                else: m = 'up'
                st.mon['mode'] = m
            if st.mon['walk'] != i: self.v('pattern-order', RULE, 'a pattern is passed over or tried twice', inst, st)
            st.mon['walk'] = plus(i, 1 if m == 'up' else -1)
            st.mon['at'] = i
            st.mon['pat'] = eng.load(st, ptr, 8, 64)
            st.mon.pop('ran', None)
        def exec_(eng, st, inst, args):
            ctx.count('pattern matched against a path')
            ctx.oblig(RULE, site(inst))
            pat = st.mon.get('pat')
            if pat is None or self.owner(args[0], self.p['regex'][0]) is not pat: return None
            sub = args[2]
            if sub not in st.mon.get('rel', ()): self.v('relative', 'patterns see the path below their directory', 'a pattern is not matched against the path relative to its directory', inst, st)
            elif eng.ev(st, icmp('ne', eng.load(st, sub, 1, 8), C(ord('/'), 8))) is not True: self.v('slash', 'patterns see the path below their directory', 'the separator is left at the beginning of the path a pattern is matched against', inst, st)
            n = args[3]
            while n.k == 'op' and n.a[0] in ('trunc', 'zext', 'sext'): n = n.a[1]
            if n is not S(('strlen', sub), 64): self.v('subject-length', 'patterns see the path below their directory', 'a pattern is not matched against the whole path', inst, st)
            if eng.eqc(st, args[4]) != 0: self.v('subject-start', 'patterns see the path below their directory', 'a pattern is not matched from the beginning of the path', inst, st)
            F = eng.load(st, P(pat, self.p['flags'][0]), 4, 32)
            vals = feasible(st, F, range(4)) if F.k != 'c' else [cv(F)]
            out = []
            for hit in (0, 1):
                for f in vals:
                    s = st.fork()
                    if F.k == 's': eng.subst(s, {F: C(f, 32)})
                    s.mon['ran'] = 1
                    r = S(('exec', inst.id), 32)
                    r = eng.fresh(s, ('exec', inst.id), 32)
                    if hit:
                        eng.constrain(s, r, 'sge', 0); eng.constrain(s, r, 'sle', 100)
                        if not (f & self.DIR and not isdir) and not (s.mon.get('mode') == 'down' and s.mon.get('hit')): s.mon['hit'] = 2 if f & self.NEG else 1
                    else: eng.constrain(s, r, 'slt', 0)
                    out.append((s, r))
            return out
        def strlen(eng, st, inst, args): return [(st, S(('strlen', args[0]), 64))]
        def strspn(eng, st, inst, args):
            if args[0] not in st.mon.get('rel', ()) or eng.cstring(args[1]) != b'/': return None
            k = eng.fresh(st, ('slashes', inst.id), 64)
            b, off, dyn = parts(args[0])
            x = P(b, off, dyn + ((k, 1),))
            eng.constrain(st, k, 'ule', 1 << 20)
            eng.constrain(st, eng.load(st, x, 1, 8), 'ne', ord('/'))
            nonzero(eng, st, x)
            st.mon['rel'] = frozenset([x])
            return [(st, k)]
        def forget(st):
            """patterns that are done with need not be remembered"""
            if st.mon.get('ran'): st.mon.pop('pat', None); st.mon.pop('at', None)
            pat = st.mon.get('pat')
            def elts(b): return self.owner(b, self.a['elts'][0]) is not None
            def pattern(b):
                n = symname(b)
                return isinstance(n, tuple) and n and n[0] == 'ld' and isinstance(n[1], T) and elts(parts(n[1])[0])
            for k in list(st.mem):
                if len(k) == 4 and (elts(k[0]) and st.mem[k] is not pat or k[0] is not pat and pattern(k[0])): del st.mem[k]
        def on_phi(eng, st, block, phis):
            forget(st)
            walk.on_phi(eng, st, block, phis)
            acc, nxt = [], []
            rel = st.mon.get('rel', ())
            for ph, old, new in phis:
                if ph.ty[0] != 'ptr': continue
                if new in rel: acc.append(ph.id)
                else:
                    for r in rel:
                        b, off, dyn = parts(new)
                        if P(b, off - 1, dyn) is r and eng.eqc(st, eng.load(st, r, 1, 8)) == ord('/'): acc.append(ph.id)
                if new is st.mon.get('next'): nxt.append(ph.id)
            st.mon['#'] = (tuple(acc), tuple(nxt))
            if st.mon.get('under') and st.mon.get('mode') is None and st.mon.get('cur') is not None:
                nel = eng.load(st, P(eng.load(st, P(st.mon['cur'], self.c['patterns'][0]), 8, 64), self.a['nelts'][0]), 4, 32)
                for ph, old, new in phis:
                    if ph.ty[0] == 'i' and lin(new) == (nel, -1): st.mon['dn'] = ph.id
        def on_phi2(eng, st, block, vals):
            walk.on_phi2(eng, st, block, vals)
            acc, nxt = st.mon.pop('#', ((), ()))
            d = st.mon.pop('dn', None)
            if d in vals: st.mon['walk'] = lin(vals[d]); st.mon['mode'] = 'down'
            for i in acc:
                if i in vals: st.mon['rel'] = frozenset({vals[i]})
            for i in nxt:
                if i in vals: st.mon['next'] = vals[i]
        m = dict(STD, strncmp=cmp, memcmp=cmp, pcre_exec=exec_, strlen=strlen, strspn=strspn)
        eng = ctx.engine(models=m)
        eng.widen_arith = False
        eng.on_load, eng.on_phi, eng.on_phi2 = on_load, on_phi, on_phi2
        def on_exit(eng, st, v, how, inst):
            ctx.count('verdict')
            ctx.oblig(RULE, site(inst))
            if st.mon.get('cur') is not None: close(eng, st, inst)
            want = st.mon.get('decided') or 0
            if eng.ev(st, icmp('eq', v, C(want, v.bits))) is not True:
                self.v('verdict', RULE, 'a path whose deciding pattern %s is %s' % (('does not exist', 'excludes it', 're-includes it')[want], 'judged differently'), inst, st)
            if not want and eng.ev(st, icmp('eq', st.mon.get('next', CTX), C(0, 64))) is not True:
                self.v('outer-left', 'every ignore file above a path is consulted', 'an ignore file further up is not consulted although no pattern matched', inst, st)
        eng.on_exit = on_exit
        def setup(e, s):
            nonzero(e, s, CTX); nonzero(e, s, PATH)
            chain = [CTX] + [S(('outer', i), 64) for i in range(1, n)]
            for x, y in zip(chain, chain[1:] + [C(0, 64)]):
                if y.k == 's': nonzero(e, s, y)
                e.store(s, P(x, self.c['parent'][0]), y, 8)
            s.mon['keep'] = tuple(chain) + (PATH,); s.mon['next'] = CTX
        ctx.run(eng, 'ft_ignore_match', [CTX, PATH, C(isdir, 32)], setup=setup)

    def low(self, eng, st):
        nx = st.mon['walk']
        t = C(nx[1], 32) if nx[0] is None else nx[0] if not nx[1] else binop('add', nx[0], C(nx[1], nx[0].bits), nx[0].bits)
        return eng.ev(st, icmp('slt', t, C(0, t.bits))) is True

    def passed(self, eng, st, inst, isdir):
        """a pattern that was not matched must be for directories only, and the path no directory"""
        pat = st.mon.pop('pat', None)
        if pat is None or st.mon.get('ran'): return
        F = eng.load(st, P(pat, self.p['flags'][0]), 4, 32)
        vals = feasible(st, F, range(4)) if F.k != 'c' else [cv(F)]
        if isdir or any(not f & self.DIR for f in vals):
            self.v('pattern-skipped', 'every pattern that can apply is tried', 'a pattern is passed over although it could apply', inst, st)


    # ---------------------------------------------------------------- one pattern
    def translate(self, n, table, fixed={}):
        """all patterns of n characters: when is a pattern added, with which flags and which meaning"""
        ctx = self.ctx
        CTX, PAT, TBL, REG = (S((x,), 64) for x in ('ctx', 'pattern', 'ctype', 'regex'))
        CH = [S(('char', i), 8) for i in range(n)]
        def ctype(eng, st, inst, args): return [(st, S(('ctypeloc',), 64))]
        def strlen(eng, st, inst, args):
            b, off, dyn = parts(args[0])
            if b is PAT and not dyn and 0 <= off <= n: return [(st, C(n - off, 64))]
            c = eng.cstring(args[0])
            if c is not None: return [(st, C(len(c), 64))]
            return None
        def strchr(eng, st, inst, args):
            c = eng.cstring(args[0])
            if c is None: return None
            x = args[1]
            if x.k == 'c': return [(st, P(args[0], c.find(bytes([cv(x) & 255])) ) if cv(x) & 255 in c + b'\0' else C(0, 64))]
            while x.k == 'op' and x.a[0] in ('sext', 'zext'): x = x.a[1]
            out = []
            s2 = st.fork()
            ok = True
            for i, q in enumerate(c + b'\0'):
                s = st.fork()
                if eng.constrain(s, x, 'eq', q): out.append((s, P(parts(args[0])[0], parts(args[0])[1] + i)))
                ok = ok and eng.constrain(s2, x, 'ne', q)
            if ok: out.append((s2, C(0, 64)))
            return out
        def copy(n2):
            def f(eng, st, inst, args):
                c = eng.cstring(args[1])
                if c is None: return None
                c += b'\0'
                if n2:
                    k = eng.eqc(st, args[2])
                    if k is None: return None
                    c = c[:k]
                for i, q in enumerate(c): eng.store(st, P(parts(args[0])[0], parts(args[0])[1] + i, parts(args[0])[2]), C(q, 8), 1)
                self.grow(st, args[0], len(c))
                return [(st, args[0])]
            return f
        def alloc(eng, st, inst, args):
            k = eng.eqc(st, args[1])
            h = nonzero(eng, st, S(('h', self.seq(st), inst.id), 64))
            if k is not None: st.mon['alloc'] = st.mon.get('alloc', ()) + ((h, k),)
            return [(st, h)]
        def comp(eng, st, inst, args):
            ctx.count('pattern compiled')
            if st.mon.get('text') is not None: return None
            b, off, dyn = parts(args[0])
            out = []
            if not dyn:
                for i in range(64):
                    y = eng.load(st, P(b, off + i), 1, 8)
                    if eng.eqc(st, y) == 0: break
                    out.append(y)
                else: out = None
                st.mon['text'] = tuple(out) if out is not None else None
                if out is not None:
                    for h, k in st.mon.get('alloc', ()):
                        if h is b:
                            need = max(len(out) + 1, st.mon.get('top', 0))
                            table[n] = min(table.get(n, k - need), k - need)
                            if need > k: self.v('overflow', 'the translation of a pattern fits its buffer', 'the translation of a pattern of %d characters is written beyond its buffer' % n, inst, st)
            st.mon['opt'] = eng.eqc(st, args[1])
            s2 = st.fork()
            s2.mon['bad'] = 1
            return [(st, nonzero(eng, st, REG)), (s2, C(0, 64))]
        def push(eng, st, inst, args):
            ctx.count('pattern added')
            sl = S(('slot', len(st.mon.get('push', ()))), 64)
            st.mon['push'] = st.mon.get('push', ()) + (nonzero(eng, st, sl),)
            if self.owner(args[0], self.c['patterns'][0]) is not CTX: self.v('add-where', 'a pattern is added to its ignore file', 'a pattern is added to another list', inst, st)
            return [(st, sl)]
        def dup(eng, st, inst, args): return [(st, nonzero(eng, st, S(('dup', args[1]), 64)))]
        eng = ctx.engine(models=dict(STD, __ctype_b_loc=ctype, strlen=strlen, strchr=strchr, strcpy=copy(0), memcpy=copy(1), **{'llvm.memcpy.p0.p0.i64': copy(1)}, apr_palloc=alloc, pcre_compile=comp, apr_array_push=push, apr_pstrdup=dup))
        eng.widen_arith = False; eng.split_bool = True; eng.unroll = 64; eng.K = 100000
        eng.concrete = lambda v: v.k == 'c' or not parts(v)[2]
        def on_load(eng, st, inst, ptr, tag):
            b, off, dyn = parts(ptr)
            if b is TBL: st.mon['ct'] = st.mon.get('ct', frozenset()) | {S(('ld', ptr), 16)}
            if b is PAT and not dyn and not 0 <= off <= n and not (off == -1): self.v('overread', 'a pattern is read within its bounds', 'a pattern of %d characters is read beyond its end' % n, inst, st)
        def on_store(eng, st, inst, ptr, val, tag):
            if val.bits == 8: self.grow(st, ptr, 1)
        eng.on_load, eng.on_store = on_load, on_store
        SP = b' \t\n\v\f\r'
        def words(st):
            """the patterns that take this path"""
            R = REP if n < 3 else [q for q in REP if chr(q) not in 'b{}()|~,-^$+']
            cand = []
            for i, c in enumerate(CH):
                g = st.facts.get(c)
                cand.append([q for q in ([fixed[i]] if i in fixed else R) if q and (g is None or g[2] <= q <= g[3] and q not in g[4])])
            for w in itertools.product(*cand):
                env = dict(zip(CH, w))
                ok = True
                e2 = dict(env)
                for t in st.mon.get('ct', ()):
                    i = neval(parts(symname(t)[1])[2][0][0], env) if parts(symname(t)[1])[2] else parts(symname(t)[1])[1] // 2
                    if i is not None: e2[t] = 8192 if (i & 255) in SP else 0
                for t, g in st.facts.items():
                    if t in env: continue
                    y = neval(t, e2)
                    if y is not None and (not g[2] <= y <= g[3] or y in g[4]): ok = False; break
                if ok: yield bytes(w), env
        def on_branch(eng, st, inst, cond, val):
            """paths that no character can take end here"""
            cts = [(t, parts(symname(t)[1])) for t in st.mon.get('ct', ())]
            if not cts: return
            for c in CH:
                mine = [(t, d[2][0][0]) for t, d in cts if d[2] and neval(d[2][0][0], {c: 1}) is not None]
                if not mine: continue
                g = st.facts.get(c)
                for q in REP:
                    if not q or g is not None and (not g[2] <= q <= g[3] or q in g[4]): continue
                    env = {c: q}
                    for t, ix in mine: env[t] = 8192 if (neval(ix, {c: q}) & 255) in SP else 0
                    for t, f in st.facts.items():
                        y = neval(t, env)
                        if y is not None and (not f[2] <= y <= f[3] or y in f[4]): break
                    else: break
                else: st.dead = True; return
        eng.on_branch = on_branch
        def on_exit(eng, st, v, how, inst):
            ctx.count('pattern read')
            ctx.oblig('each line becomes the pattern it denotes', site(inst))
            z = ret_is_zero(eng, st, v)
            push = st.mon.get('push', ())
            if st.mon.get('bad'):
                if push: self.v('add-bad', 'an invalid pattern is not added', 'a pattern that could not be compiled is added', inst, st)
                if z is not False: self.v('bad-status', 'an invalid pattern is not added', 'an invalid pattern is not reported', inst, st)
                return
            if z is False: self.v('refused', 'each line becomes the pattern it denotes', 'a valid pattern is refused', inst, st)
            ws = list(words(st))
            ctx.count('patterns', len(ws))
            for w, env in ws:
                t = w.lstrip(SP)
                comment = not t or t[:1] == b'#'
                if comment != (not push):
                    self.v('comment', 'comments and empty lines are no patterns, all other lines are', 'the line "%s" is %s' % (w.decode('latin1'), 'added as a pattern' if comment else 'not added as a pattern'), inst, st); return
                if comment: continue
                if len(push) > 1: self.v('add-twice', 'each line becomes the pattern it denotes', 'a pattern is added twice', inst, st); return
                body = t[1:].lstrip(SP) if t[:1] == b'!' else t
                core = body[1:] if body[:1] == b'/' else body
                tail = core[:-1] if core[-1:] == b'/' else core
                if (len(tail) - len(tail.rstrip(b'\\'))) % 2: continue         # nothing, or the final separator, is escaped
                if not core or t[-1:] in (b' ', b'\t') or core == b'/': continue        # nothing left to match, or blanks at the end
                pat = eng.load(st, push[0], 8, 64)
                fl = eng.eqc(st, eng.load(st, P(pat, self.p['flags'][0]), 4, 32))
                if eng.load(st, P(pat, self.p['regex'][0]), 8, 64) is not REG: self.v('add-regex', 'each line becomes the pattern it denotes', 'the pattern added is not the one compiled', inst, st); return
                want = (self.NEG if t[:1] == b'!' else 0) | (self.DIR if core[-1:] == b'/' else 0)
                if fl is not None and fl != want: self.v('flags', 'each line becomes the pattern it denotes', 'the pattern "%s" is marked %d instead of %d (1: re-includes, 2: directories only)' % (t.decode('latin1'), fl, want), inst, st); return
                if st.mon.get('opt'): self.v('regex-opt', 'each line becomes the pattern it denotes', 'patterns are compiled with options that change their meaning', inst, st); return
                txt = st.mon.get('text')
                if txt is None: continue
                bs = [neval(y, env) for y in txt]
                if None in bs: continue
                bad = self.differ(bytes(bs).decode('latin1'), self.spec(t.decode('latin1')), core)
                if bad is not None:
                    self.v('meaning', 'each line becomes the pattern it denotes', 'the pattern "%s" %s "%s"' % (t.decode('latin1'), 'matches' if bad[1] else 'does not match', bad[0]), inst, st); return
        eng.on_exit = on_exit
        def setup(e, s):
            nonzero(e, s, CTX); nonzero(e, s, PAT)
            for i, c in enumerate(CH):
                e.store(s, P(PAT, i), c, 1); e.constrain(s, c, 'ne', 0)
                if i in fixed: e.constrain(s, c, 'eq', fixed[i])
                elif n > 2:
                    for q in b'{}()|^$+': e.constrain(s, c, 'ne', q)       # one special character stands for the others in long patterns
            e.store(s, P(PAT, n), C(0, 8), 1)
            e.store(s, S(('ctypeloc',), 64), TBL, 8)
            Z = S(('ld', TBL), 16); e.constrain(s, Z, 'eq', 0)
            s.mon['keep'] = (CTX, PAT, TBL, Z, S(('ctypeloc',), 64)) + tuple(CH)
        ctx.run(eng, 'ft_ignore_add_pattern_str', [CTX, PAT], setup=setup)

    def seq(self, st): return len(st.mon.get('alloc', ()))

    def grow(self, st, ptr, k):
        b, off, dyn = parts(ptr)
        if not dyn and any(h is b and z != 24 for h, z in st.mon.get('alloc', ())): st.mon['top'] = max(st.mon.get('top', 0), off + k)

    @staticmethod
    def spec(t):
        """reference translation of a pattern of an ignore file"""
        if t[:1] == '!': t = t[1:].lstrip(' \t\n\v\f\r')
        r = '(^|/)'
        if t[:1] == '/': r, t = '^', t[1:]
        dironly = t[-1:] == '/'
        if dironly: t = t[:-1]
        i = 0
        while i < len(t):
            c = t[i]
            if c == '\\' and i + 1 < len(t): r += '\\' + t[i + 1]; i += 2
            elif t.startswith('**/', i): r += '(.*/)?'; i += 3
            elif t.startswith('**', i): r += '.*'; i += 2
            elif c == '*': r += '[^/]*'; i += 1
            elif c == '?': r += '[^/]'; i += 1
            elif c == '[':
                r += '['; i += 1
                if i < len(t) and t[i] in '!^': r += '^'; i += 1
                while i < len(t) and t[i] != ']':
                    if t[i] == '\\' and i + 1 < len(t): r += '\\'; i += 1
                    r += t[i]; i += 1
                if i < len(t): r += ']'; i += 1
            else:
                r += '\\' + c if c in '.^$+{}()|\\' else c; i += 1
        return r + ('(/|$)' if dironly else '$')

    NAMES = None

    @classmethod
    def differ(cls, got, want, core):
        """a path the two regular expressions disagree on, or None"""
        if got == want: return None
        try: a = re.compile(want)
        except re.error: return None
        try: b = re.compile(got)
        except re.error: return None
        if cls.NAMES is None:
            al = 'ab/.+^$*?![]-\\ #{}()|~,'
            cls.NAMES = [''.join(x) for k in range(1, 4) for x in itertools.product(al, repeat=k) if not x[0] == '/']
            cls.NAMES += ['a/b/c', 'aa/bb/a', 'xx/a', 'xx/b/a', 'a/xx/b', 'a/x/y/b', 'b/a/b', 'ab/ab', 'abab', 'aabb', 'x/a/b', 'aaab']
        for x in cls.NAMES:
            p, q = a.search(x) is not None, b.search(x) is not None
            if p != q: return x, q
        return None

    # ---------------------------------------------------------------- a whole file
    def load(self):
        ctx = self.ctx
        CTX, PATH, FILE = (S((x,), 64) for x in ('ctx', 'file path', 'file'))
        def opn(eng, st, inst, args):
            def ok(s): eng.store(s, args[0], nonzero(eng, s, FILE), 8); s.mon['open'] = 1
            if args[1] is not PATH: self.v('other-file', 'every line of an ignore file is read', 'another file is read', inst, st)
            return status_alts(eng, st, inst, ok, lambda s: s.mon.__setitem__('fail', 1))
        def end(eng, st, inst):
            ln = st.mon.pop('line', None)
            if ln is None or st.mon.pop('added', None): return
            b, off, _ = parts(ln)
            c = eng.load(st, P(b, off - 1, ((st.mon['L'], 1),)) if eng.eqc(st, st.mon['L']) == 1 else ln, 1, 8)
            vals = [cv(c)] if c.k == 'c' else feasible(st, c, [0, 9, 10, 13, 32, 33, 35, 42, 47, 97])
            if any(q not in (0, 9, 10, 13, 32, 35) for q in vals): self.v('line-lost', 'every line of an ignore file is read', 'a line of an ignore file is not added', inst, st)
        def gets(eng, st, inst, args):
            ctx.count('line')
            end(eng, st, inst)
            s2 = st.fork()
            eng.havoc(st, args[0]) if False else None
            b = parts(args[0])[0]
            for k in [k for k in st.mem if k[0] is b]: del st.mem[k]
            L = eng.fresh(st, ('linelen',), 64)
            eng.constrain(st, L, 'uge', 1); eng.constrain(st, L, 'ule', 4095)
            c = eng.fresh(st, ('lastchar',), 8); eng.constrain(st, c, 'ne', 0)
            eng.store(st, P(b, parts(args[0])[1] - 1, ((L, 1),)), c, 1)
            st.mon['line'] = args[0]; st.mon['L'] = L
            s2.mon['eof'] = 1
            return [(st, C(0, 32)), (s2, nonzero(eng, s2, eng.fresh(s2, ('gets', inst.id), 32)))]
        def strlen(eng, st, inst, args):
            if args[0] is st.mon.get('line'): st.mon['cut'] = 1; return [(st, st.mon['L'])]
            return None
        def add(eng, st, inst, args):
            ctx.count('line added')
            ctx.oblig('every line of an ignore file is read', site(inst))
            ln = st.mon.get('line')
            if args[0] is not CTX: self.v('load-where', 'a pattern is added to its ignore file', 'a line is added to another list', inst, st)
            if ln is not None and args[1] is ln:
                if st.mon.get('added'): self.v('line-twice', 'every line of an ignore file is read', 'a line is added twice', inst, st)
                st.mon['added'] = 1
            else: st.mon['added'] = 1
            return status_alts(eng, st, inst, None, None)
        def close(eng, st, inst, args):
            if not st.mon.get('open'): self.v('close', 'an ignore file is closed once', 'an ignore file is closed twice', inst, st)
            st.mon['open'] = 0
            return [(st, C(0, 32))]
        eng = ctx.engine(models=dict(STD, apr_file_open=opn, apr_file_gets=gets, strlen=strlen, ft_ignore_add_pattern_str=add, apr_file_close=close), opaque=['ft_ignore_add_pattern_str'])
        eng.widen_arith = False
        def on_exit(eng, st, v, how, inst):
            ctx.count('file read')
            if st.mon.get('fail'):
                if ret_is_zero(eng, st, v) is not False: self.v('load-status', 'an unreadable ignore file is reported', 'an ignore file that cannot be opened is reported as read', inst, st)
                return
            end(eng, st, inst)
            if not st.mon.get('eof'): self.v('load-short', 'every line of an ignore file is read', 'the rest of an ignore file is not read', inst, st)
            if st.mon.get('open'): self.v('load-leak', 'an ignore file is closed once', 'an ignore file is not closed', inst, st)
            if ret_is_zero(eng, st, v) is not True: self.v('load-status', 'a readable ignore file is used', 'an ignore file that was read is reported as unreadable', inst, st)
        eng.on_exit = on_exit
        def setup(e, s): nonzero(e, s, CTX); nonzero(e, s, PATH); s.mon['keep'] = (CTX, PATH)
        ctx.run(eng, 'ft_ignore_load_file', [CTX, PATH], setup=setup)

    def lines(self):
        """what is added for a given line: all of it but its end"""
        ctx = self.ctx
        CTX, PATH, FILE = (S((x,), 64) for x in ('ctx', 'file path', 'file'))

        def text(eng, st, p, stop=64):
            b, o, d = parts(p)
            if d: return None
            r = []
            for i in range(stop):
                c = eng.eqc(st, eng.load(st, P(b, o + i), 1, 8))
                if c is None: return None
                if c == 0: return bytes(r)
                r.append(c)
            return None
        for ls in ((b'ab\n',), (b'ab',), (b'ab\r\n',), (b'a\n',), (b'a',), (b'a\r\n',), (b'/x/*.o\n', b'!y'), (b'\n', b'z'), (b'\r\n', b'q\n'), (b'#c\n', b'last'), (b'a', ), (b'p\\ \n',), (b'long name with blanks inside',)):
            want = [l[:-2] if l.endswith(b'\r\n') else l[:-1] if l.endswith(b'\n') else l for l in ls]

            def opn(eng, st, inst, args):
                eng.store(st, args[0], nonzero(eng, st, FILE), 8)
                return [(st, C(0, 32))]

            def gets(eng, st, inst, args, ls=ls):
                k = st.mon.get('k', 0)
                room = eng.eqc(st, args[1])
                b, o, d = parts(args[0])
                if d or room is None or room < 64:
                    st.mon['unknown'] = 1
                    return None
                if k >= len(ls): return [(st, C(70014, 32))]
                st.mon['k'] = k + 1
                for i, ch in enumerate(ls[k] + b'\0'): eng.store(st, P(b, o + i), C(ch, 8), 1)
                return [(st, C(0, 32))]

            def strlen(eng, st, inst, args):
                t = text(eng, st, args[0])
                if t is None:
                    st.mon['unknown'] = 1
                    return None
                return [(st, C(len(t), 64))]

            def strcspn(eng, st, inst, args):
                t, r = text(eng, st, args[0]), eng.cstring(args[1])
                if t is None or r is None:
                    st.mon['unknown'] = 1
                    return None
                return [(st, C(next((i for i, ch in enumerate(t) if ch in r), len(t)), 64))]

            def add(eng, st, inst, args):
                t = text(eng, st, args[1])
                if t is None: st.mon['unknown'] = 1
                else: st.mon['got'] = st.mon.get('got', ()) + (t,)
                return [(st, C(0, 32))]

            def on_exit(eng, st, v, how, inst, ls=ls, want=want):
                if how != 'ret' or st.mon.get('unknown') or st.mon.get('k', 0) != len(ls): return
                ctx.count('given file read')
                ctx.oblig('what is added for each line', site(inst))
                live = lambda l: [x for x in l if x and not x.startswith(b'#')]
                got = live(st.mon.get('got', ()))
                if got != live(want):
                    self.v('line-text', 'every line of an ignore file is read', 'of an ignore file with the lines %s the patterns %s are added' % (' '.join(repr(x)[1:] for x in ls), ' '.join(repr(x)[1:] for x in got) or 'none'), inst, st)
            eng = ctx.engine(models=dict(STD, apr_file_open=opn, apr_file_gets=gets, strlen=strlen, strcspn=strcspn, ft_ignore_add_pattern_str=add, apr_file_close=m_status), opaque=['ft_ignore_add_pattern_str'])
            eng.unroll = eng.K = 100000
            eng.WIDEN_VISITS = 1000
            eng.widen_arith = False
            eng.concrete = lambda v: True
            eng.on_exit = on_exit
            def setup(e, s): nonzero(e, s, CTX); nonzero(e, s, PATH); s.mon['keep'] = (CTX, PATH, FILE)
            ctx.run(eng, 'ft_ignore_load_file', [CTX, PATH], setup=setup)

    def create(self):
        ctx = self.ctx
        POOL, PAR, BASE = (S((x,), 64) for x in ('pool', 'parent', 'base'))
        def dup(eng, st, inst, args): return [(st, nonzero(eng, st, S(('dup', args[1]), 64)))]
        def strlen(eng, st, inst, args): return [(st, S(('strlen', args[0]), 64))]
        def make(eng, st, inst, args): return [(st, nonzero(eng, st, S(('list', inst.id), 64)))]
        eng = ctx.engine(models=dict(STD, apr_pstrdup=dup, strlen=strlen, apr_array_make=make))
        def on_exit(eng, st, v, how, inst):
            ctx.count('context made')
            g = lambda f: eng.load(st, P(v, self.c[f][0]), 8, 64)
            if g('parent') is not PAR: self.v('parent', 'an ignore file knows the one above it', 'an ignore file loses the one above it', inst, st)
            if g('base_dir') not in (BASE, S(('dup', BASE), 64)): self.v('base', 'patterns apply below their directory', 'an ignore file is not tied to its directory', inst, st)
            n = symname(g('base_dir_len'))
            if not (isinstance(n, tuple) and n[0] == 'strlen' and n[1] in (BASE, S(('dup', BASE), 64))): self.v('base', 'patterns apply below their directory', 'the length of the directory of an ignore file is wrong', inst, st)
            if not (isinstance(symname(g('patterns')), tuple) and symname(g('patterns'))[0] == 'list'): self.v('list', 'an ignore file has its own list of patterns', 'an ignore file has no list of its own', inst, st)
        eng.on_exit = on_exit
        def setup(e, s): nonzero(e, s, POOL); nonzero(e, s, BASE)
        ctx.run(eng, 'ft_ignore_context_create', [POOL, PAR, BASE], setup=setup)


def S16(ctx):
    g = Ignore(ctx)
    g.create()
    g.load()
    g.lines()
    table = {}
    for n in (0, 1, 2, 3, 4) if ctx.tier == 'quick' else (0, 1, 2, 3, 4, 5): g.translate(n, table)
    for w in ('[...]', './**.', './**/.', '**/./', '**/..', '!**/.', '.[..].', '!/..', '../**') + (() if ctx.tier == 'quick' else ('[....]', './**/..', '..[..]', '**/.../', '...**/.', '!/.[.].')):
        g.translate(len(w), {}, {i: ord(c) for i, c in enumerate(w) if c != '.'})
    ks = sorted(k for k in table if k)
    for i, j in zip(ks, ks[1:]):
        if table[j] < table[i]:
            f = ctx.prog.need('ft_ignore_add_pattern_str')
            ctx.violation('slack', 'the translation of a pattern fits its buffer', 'the buffer grows more slowly than the translation of a pattern (%d bytes are left for %d characters, %d for %d): a long pattern overflows it' % (table[i], i, table[j], j), f.order[0].insts[0])
    for n in (1, 3):
        for d in (0, 1): g.match(d, n)
    ctx.need('verdict', 4); ctx.need('pattern matched against a path', 2); ctx.need('line added'); ctx.need('pattern added', 5); ctx.need('context made'); ctx.need('file read', 2)
