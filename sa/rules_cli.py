"""Rules for the command line (S14, S15), ignore rules (S16), report order (S20), effects on the file system (S01) and JSON output (S09)."""
import re, struct, subprocess
import ir
from common import *
from rules_scan import fval, symname, lin, plus, Walk, const
from rules_cont import neval, feasible
from rules_db2 import consistent


def offs(p, n):
    b, o, d = parts(p)
    return P(b, o + n, d)


CU = 'ft_config.c'
EOF, BADCH, BADARG = 70014, 70012, 70013

# letter -> (long name, takes an argument); the documented interface
TABLE = dict(a=('hidden', 0), c=('case-unsensitive', 0), d=('display-size', 0), n=('dry-run', 0), e=('regex-ignore-file', 1), f=('follow-symlink', 0), h=('help', 0),
             I=('image-cmp', 0), T=('image-threshold', 1), i=('ignore-list', 1), J=('json', 0), m=('minimal-length', 1), M=('max-size', 1), o=('optimize-memory', 0),
             p=('priority-path', 1), r=('recurse-subdir', 0), R=('no-recurse', 0), s=('separator', 1), t=('tar-cmp', 0), j=('threads', 1), v=('verbose', 0), V=('version', 0),
             w=('whitelist-regex-file', 1), x=('excessive-size', 1))
FLAG = dict(a=('SHOW_HIDDEN', 1), c=('ICASE', 1), d=('SIZED', 1), n=('DRY_RUN', 1), f=('FSYML', 1), o=('OPMEM', 1), r=('RECSD', 1), R=('RECSD', 0), t=('UNTAR', 1))
FIELD = dict(e=('ig_regex',), w=('wl_regex',), i=(), p=('p_path', 'p_path_len'), s=('sep',), j=('num_threads',), m=('minsize',), M=('maxsize',), x=('excess_size',), T=('threshold',), I=('wl_regex',), t=('ar_regex',))


def cdouble(names):
    """values of floating constants the repository's headers define, by the compiler's constant folding"""
    src = '#include <stddef.h>\n#include <puzzle.h>\ndouble x[] = { %s };\n' % ', '.join(names)
    r = subprocess.run([ir.CLANG, '-S', '-emit-llvm', '-O0', '-w', '-x', 'c', '-o', '-'] + ir.CFLAGS + ['-'], input=src, capture_output=True, text=True)
    m = re.search(r'@x = .*\[(double .*?)\]', r.stdout)
    if not m: raise AnalysisBroken("floating constants: " + r.stderr[-300:])
    return [fpval(x.split()[1]) for x in m.group(1).split(',')]


def fpval(s):
    return struct.unpack('>d', bytes.fromhex(s[2:].rjust(16, '0')))[0] if s.startswith('0x') else float(s)


class Options:
    def __init__(self, ctx):
        self.ctx = ctx
        u = ctx.prog.units[CU]
        self.names = [n for n in u.fieldnames['%struct.ft_conf_t'] if n]
        self.o = {f: struct_off(ctx.prog, CU, 'ft_conf_t', f) for f in self.names}
        self.bit = {n: macro_int('OPTION_' + n) for n in ('ICASE', 'FSYML', 'RECSD', 'VERBO', 'OPMEM', 'REGEX', 'SIZED', 'SHOW_HIDDEN', 'PUZZL', 'UNTAR', 'DRY_RUN', 'JSON')}
        self.ind = struct_off(ctx.prog, CU, 'apr_getopt_t', 'ind')
        self.CONF, self.ARGV, self.OUT, self.OS = (S((n,), 64) for n in ('conf', 'argv', 'first', 'getopt'))
        self.ARGC, self.IND = S(('argc',), 32), S(('ind',), 32)
        self.t = {f: S(('conf.' + f,), self.o[f][1] * 8) for f in self.names}
        self.table = None
        a = cdouble(['PUZZLE_CVEC_SIMILARITY_LOWER_THRESHOLD', 'PUZZLE_CVEC_SIMILARITY_LOW_THRESHOLD', 'PUZZLE_CVEC_SIMILARITY_THRESHOLD', 'PUZZLE_CVEC_SIMILARITY_HIGH_THRESHOLD'])
        self.levels = {'1': a[0], '2': a[1], '3': 0.5, '4': a[2], '5': a[3]}

    def v(self, key, rule, msg, inst, st): self.ctx.violation(key, rule, msg, inst, st=st)

    def arg(self, k): return S(('optarg', k), 64)

    def mask_after(self, letters, m):
        b = self.bit
        for l in letters:
            if l in FLAG:
                n, on = FLAG[l]
                m = m | b[n] if on else m & ~b[n]
            elif l == 'v': m = m if m & b['JSON'] else m | b['VERBO']
            elif l == 'J': m = (m | b['JSON']) & ~b['VERBO']
            elif l == 'I': m |= b['ICASE'] | b['PUZZL']
        return m

    def engine(self, letters, end):
        ctx = self.ctx
        def init(eng, st, inst, args):
            def ok(s):
                eng.store(s, args[0], self.OS, 8)
                nonzero(eng, s, self.OS)
                eng.store(s, P(self.OS, self.ind[0]), self.IND, 4)
            return status_alts(eng, st, inst, ok, lambda s: s.mon.__setitem__('bad', 'the command line cannot be read'))
        def getopt(eng, st, inst, args):
            if self.table is None: self.table = args[1]
            k = st.mon.get('k', 0)
            st.mon['k'] = k + 1
            if k < len(letters):
                eng.store(st, args[2], C(ord(letters[k]), 32), 4)
                eng.store(st, args[3], self.arg(k) if TABLE[letters[k]][1] else NULL, 8)
                if TABLE[letters[k]][1]: nonzero(eng, st, self.arg(k))
                return [(st, C(0, 32))]
            if end != EOF:
                st.mon['bad'] = 'an unknown option or a missing argument'
                eng.store(st, args[2], C(ord('?'), 32), 4)
            return [(st, C(end, 32))]
        def strtol(eng, st, inst, args):
            r, e = S(('num', args[0]), 64), nonzero(eng, st, S(('end', args[0]), 64))
            st.mon['read'] = st.mon.get('read', ()) + (r,)
            if args[1].k != 'c': eng.store(st, args[1], e, 8)
            return [(st, r)]
        def size(eng, st, inst, args):
            st.mon['read'] = st.mon.get('read', ()) + (S(('size', args[0]), 64),)
            return [(st, S(('size', args[0]), 64))]
        def errno(eng, st, inst, args):
            st.mon['errno'] = 1
            return None
        def sure(eng, st, inst, args): return status_alts(eng, st, inst, None, lambda s: s.mon.__setitem__('bad', 'an unknown user'))
        def dup(eng, st, inst, args): return [(st, nonzero(eng, st, S(('dup', args[1]), 64)))]
        def strlen(eng, st, inst, args): return [(st, S(('strlen', args[0]), 64))]
        def compile_(eng, st, inst, args):
            ctx.count('regex compiled')
            s2 = st.fork()
            s2.mon['bad'] = 'an invalid regular expression'
            r = nonzero(eng, st, S(('regex', args[0], args[1]), 64))
            return [(st, r), (s2, NULL)]
        def search(eng, st, inst, args):
            if args[3].k != 'c': eng.store(st, args[3], eng.fresh(st, ('hv', args[1]), 32), 4)
            return [(st, NULL)]
        def groups(eng, st, inst, args):
            s2 = st.fork()
            s2.mon['bad'] = 'a failure to read the groups'
            return [(st, C(2, 32)), (s2, C(-1, 32))]
        m = dict(STD, getgroups=groups, apr_getopt_init=init, apr_getopt_long=getopt, strtol=strtol, strtoul=strtol, __isoc23_strtol=strtol, __isoc23_strtoul=strtol, parse_human_size=size, apr_pstrdup=dup,
                 strlen=strlen, pcre_compile=compile_, napr_hash_search=search, napr_hash_set=m_status, apr_uid_current=sure, apr_uid_name_get=sure, apr_uid_get=sure, __errno_location=errno)
        eng = ctx.engine(models=m, opaque=['parse_human_size', 'napr_hash_search', 'napr_hash_set'])
        eng.unroll = 64
        eng.K = 1000
        return eng

    def cleanarg(self, k): return {self.arg(k), S(('dup', self.arg(k)), 64)}

    def check(self, letters, m0, end=EOF):
        ctx = self.ctx
        eng = self.engine(letters, end)
        want = self.mask_after(letters, m0)
        last = {}
        for k, l in enumerate(letters):
            for f in FIELD.get(l, ()): last[f] = (l, k)
        info = [l for l in letters if l in 'hV']
        def on_exit(eng, st, v, how, inst):
            ctx.count('outcome')
            z = ret_is_zero(eng, st, v)
            bad = st.mon.get('bad')
            if (how == 'exit' or z is False) and not bad and letters in ('j', 'm', 'M', 'x'): self.refused(eng, st, inst, letters)
            if how == 'exit':
                if info:
                    if z is False and not bad and not set(letters) & set('jmMxT'): self.v('info-status', 'asking for help or the version is no error', 'the process ends with a failure status after printing the help or version', inst, st)
                elif z is not False: self.v('exit-status', 'a wrong command line ends with a failure status', 'the process ends with status 0 although %s was given' % (bad or 'a wrong argument'), inst, st)
                return
            if info:
                if z is not False: self.v('info-goes-on', 'help and version only print', 'processing goes on after the help or version was printed', inst, st)
                return
            if z is None: return
            noargs = eng.ev(st, icmp('sge', self.IND, self.ARGC))
            if noargs is None: noargs = eng.ev(st, icmp('slt', binop('sub', self.ARGC, self.IND, 32), C(1, 32)))
            if noargs is None: noargs = eng.ev(st, icmp('sge', binop('sub', self.IND, self.ARGC, 32), C(0, 32)))
            if z is False: return
            ctx.oblig('accepted command line', '%s mask %#x' % (letters, m0))
            if bad: self.v('accepted', 'a wrong command line is refused', '%s is accepted' % bad, inst, st); return
            if noargs is not False: self.v('no-path', 'a wrong command line is refused', 'a command line without any path is accepted', inst, st)
            if eng.load(st, self.OUT, 4, 32) is not self.IND: self.v('first-arg', 'the paths are the arguments behind the options', 'the index of the first path is not the one behind the options', inst, st)
            got = eng.eqc(st, fval(eng, st, self.CONF, self.o['mask']))
            if got is None or got != want:
                names = ' '.join(n for n, b in self.bit.items() if got is None or (got ^ want) & b)
                self.v('flag-%s' % letters, 'each option sets exactly its own switch', 'after "%s" the switches (%s) are not as documented' % (' '.join('-' + l for l in letters), names or '?'), inst, st)
            for f in self.names:
                if f in ('mask', 'userid', 'groupid', 'username'): continue
                x = fval(eng, st, self.CONF, self.o[f])
                if f not in last:
                    if x is not self.t[f] and not (f.endswith('_regex') and eng.eqc(st, x) == 0): self.v('touch-' + f, 'each option changes exactly its own setting', '"%s" changes the setting %s' % (' '.join('-' + l for l in letters) or 'no option', f), inst, st)
                    continue
                self.setting(eng, st, inst, f, x, *last[f], mask=want)
        eng.on_exit = on_exit
        def setup(e, s):
            for f in self.names: e.store(s, P(self.CONF, self.o[f][0]), C(m0, 16 if self.o['mask'][1] == 2 else 8 * self.o['mask'][1]) if f == 'mask' else NULL if f.endswith('_regex') else self.t[f], self.o[f][1])
            for x in (self.CONF, self.ARGV, self.OUT): nonzero(e, s, x)
            for f in self.names:
                if f.endswith('_regex'): self.t[f] = NULL
            s.mon['keep'] = tuple(self.t.values()) + (self.CONF, self.OUT, self.IND, self.ARGC, binop('sub', self.ARGC, self.IND, 32)) + tuple(S(('ld', self.arg(k)), 8) for k in range(len(letters))) \
                + tuple(y for k in range(len(letters)) for a in self.cleanarg(k) for y in (S(('end', a), 64), S(('ld', S(('end', a), 64)), 8), S(('num', a), 64), S(('size', a), 64)))
            e.constrain(s, self.IND, 'sge', 1); e.constrain(s, self.IND, 'sle', 1 << 20); e.constrain(s, self.ARGC, 'sge', 0); e.constrain(s, self.ARGC, 'sle', 1 << 20)
        ctx.run(eng, 'ft_config_parse_args', [self.CONF, self.ARGC, self.ARGV, self.OUT], setup=setup)

    def refused(self, eng, st, inst, l):
        """the value of the only option is not one of those documented as valid"""
        r = [y for y in st.mon.get('read', ()) if symname(y)[1] in self.cleanarg(0)]
        if len(r) != 1 or st.mon.get('errno'): return
        y = r[0]
        if (symname(y)[0] == 'num') != (l == 'j'): return
        for val in (1, 2, 255, 256) if l == 'j' else (0, 1, 1 << 20, 1 << 40):
            s2 = st.fork()
            if not eng.assume(s2, icmp('eq', y, C(val, 64)), True) or not consistent(s2, {y: val}): continue
            if not eng.assume(s2, icmp('slt', self.IND, self.ARGC), True): continue
            if not self.possible(s2, l, y, val): continue
            self.v('refused-' + l, 'valid arguments are accepted', 'the value %d of "-%s" is refused' % (val, l), inst, st)
            break

    def possible(self, st, l, y, val):
        """nothing but the value can be the reason for the refusal"""
        ends = {S(('ld', S(('end', a), 64)), 8) for a in self.cleanarg(0)}
        env = {y: val, self.IND: 1, self.ARGC: 2}
        for e in ends: env[e] = 0
        return consistent(st, env)

    def groups(self):
        """the groups of the user: all those the system names, and the effective one"""
        ctx = self.ctx
        try: ov = struct_off(ctx.prog, CU, 'ft_gid_t', 'val')
        except AnalysisBroken: ov = (0, 4)      # no code of the unit touches it
        GIDS = self.t['gids']
        for n in (0, 1, 3, 7):
            ids = [1000 + 7 * i for i in range(n)]
            eng = self.engine('', EOF)

            def getgroups(eng, st, inst, args, ids=ids, n=n):
                room = eng.eqc(st, args[0])
                if room is None:
                    st.mon['unknown'] = 1
                    return None
                ctx.count('groups read')
                if room == 0: return [(st, C(n, 32))]
                if room < n:
                    self.v('group-room', 'the groups of the user are known', 'a user who belongs to %d groups is refused: there is room for %d' % (n, room), inst, st)
                    return [(st, C(-1, 32))]
                for i, g in enumerate(ids): eng.store(st, offs(args[1], 4 * i), C(g, 32), 4)
                return [(st, C(n, 32))]

            def search(eng, st, inst, args):
                if args[0] is not GIDS: return [(st, NULL)]
                k = eng.eqc(st, eng.load(st, args[1], 4, 32))
                z = eng.eqc(st, args[2])
                if k is None or z is None:
                    st.mon['unknown'] = 1
                    return None
                if args[3].k != 'c': eng.store(st, args[3], S(('hvg', k, z), 32), 4)
                return [(st, nonzero(eng, st, S(('held', k), 64)) if z == 4 and k in st.mon.get('ids', ()) else NULL)]

            def put(eng, st, inst, args):
                if args[0] is not GIDS: return [(st, C(0, 32))]
                k = eng.eqc(st, eng.load(st, offs(args[1], ov[0]), 4, 32))
                if k is None: st.mon['unknown'] = 1
                else:
                    h = symname(args[2])
                    if isinstance(h, tuple) and h[0] == 'hvg' and h[1:] != (k, 4): self.v('group-hash', 'the groups of the user are known', 'a group is recorded under the hash of another one and not found again', inst, st)
                    st.mon['ids'] = st.mon.get('ids', ()) + (k,)
                return [(st, C(0, 32))]

            def on_exit(eng, st, v, how, inst, ids=ids):
                if how != 'ret' or ret_is_zero(eng, st, v) is not True or st.mon.get('unknown'): return
                ctx.count('groups')
                ctx.oblig('all groups of the user known', site(inst))
                got = st.mon.get('ids', ())
                for g in ids + [50]:
                    if g not in got: self.v('group-lost', 'the groups of the user are known', '%s is not taken into account when deciding what the user may read' % ('the effective group' if g == 50 else 'one of the %d groups of the user' % len(ids)), inst, st); return
                if set(got) - set(ids + [50]): self.v('group-extra', 'the groups of the user are known', 'a group the user does not belong to is taken into account when deciding what the user may read', inst, st)
            def uid(eng, st, inst, args):
                def ok(s):
                    eng.store(s, args[0], C(77, 32), 4); eng.store(s, args[1], C(88, 32), 4)
                return status_alts(eng, st, inst, ok)
            eng.models.update(getgroups=getgroups, getegid=lambda e, s, i, a: [(s, C(50, 32))], napr_hash_search=search, napr_hash_set=put, apr_uid_current=uid)
            eng.on_exit = on_exit
            eng.unroll = eng.K = 100000
            eng.WIDEN_VISITS = 1000

            def setup(e, s):
                for f in self.names: e.store(s, P(self.CONF, self.o[f][0]), C(0, 8 * self.o[f][1]) if f == 'mask' else NULL if f.endswith('_regex') else self.t[f], self.o[f][1])
                for x in (self.CONF, self.ARGV, self.OUT, GIDS): nonzero(e, s, x)
                s.mon['keep'] = tuple(self.t.values()) + (self.CONF, self.OUT, self.IND, self.ARGC)
                e.constrain(s, self.IND, 'eq', 1); e.constrain(s, self.ARGC, 'eq', 2)
            ctx.run(eng, 'ft_config_parse_args', [self.CONF, self.ARGC, self.ARGV, self.OUT], setup=setup)
        ctx.need('groups')

    def setting(self, eng, st, inst, f, x, l, k, mask):
        """value x of field f after option l (the k-th) was the last to set it"""
        A = self.cleanarg(k)
        what = 'after "-%s" ' % l
        n = symname(x)
        def wrong(msg, key=None): self.v('set-%s' % f if key is None else key, 'an option sets its documented value', what + msg, inst, st)
        if f in ('ig_regex', 'wl_regex', 'ar_regex'):
            if not (isinstance(n, tuple) and n[0] == 'regex'): wrong('the regular expression is not set'); return
            src, opt = n[1], n[2]
            o = eng.eqc(st, opt)
            if o is None or bool(o & 1) != bool(mask & self.bit['ICASE']): wrong('the regular expression is not compiled with the case option that was chosen', 'regex-case')
            if o is not None and not o & 4: wrong('"." of the regular expression does not match every character', 'regex-dotall')
            if o is not None and o & ~(1 | 4 | 32): wrong('the regular expression is compiled with an option that changes its meaning', 'regex-opt')
            if l in 'ew':
                if src not in A: wrong('the regular expression compiled is not the argument')
            else:
                s = symname(src)
                c = eng.cstring(s[1]) if isinstance(s, tuple) and s[0] == 'dup' else eng.cstring(src)
                if c is None: return
                ex = {'I': (['a/b.gif', 'x.png', '/p/q.jpg', 'z.jpeg'], ['a.txt', 'agif', 'png', 'a.png.bak', 'x.jp']),
                      't': (['a/b.tar', 'a.tar.gz', 'x.tgz', 'x.tar.bz2', 'x.tbz2', 'a.tar.xz', 'a.zip'], ['a.txt', 'tar', 'a.tar.bak'])}[l]
                try: rx = re.compile(c.decode())
                except re.error: return
                for y in ex[0]:
                    if not rx.search(y): wrong('names like "%s" do not match' % y)
                for y in ex[1]:
                    if rx.search(y): wrong('names like "%s" match' % y)
        elif f == 'p_path':
            if x not in A: wrong('the path is not the argument')
        elif f == 'p_path_len':
            if not (isinstance(n, tuple) and n[0] == 'strlen' and n[1] in A): wrong('the length of the path is not that of the argument')
        elif f == 'sep':
            if eng.ev(st, icmp('eq', x, eng.load(st, self.arg(k), 1, 8))) is not True: wrong('the separator is not the character given')
        elif f in ('minsize', 'maxsize', 'excess_size'):
            if x is not S(('size', self.arg(k)), 64) and x is not S(('size', S(('dup', self.arg(k)), 64)), 64): wrong('the size is not the one given')
            elif eng.ev(st, icmp('sge', x, C(0, 64))) is not True: wrong('an invalid size is accepted', 'bad-' + f)
        elif f == 'num_threads':
            if eng.ev(st, icmp('uge', x, C(1, x.bits))) is not True or eng.ev(st, icmp('ule', x, C(256, x.bits))) is not True: wrong('a number of threads that is not in 1..256 is accepted', 'bad-threads')
            nums = [y for y in x.syms if symname(y)[:1] == ('num',)]
            if nums:
                e = S(('end', symname(nums[0])[1]), 64)
                if symname(nums[0])[1] not in A: wrong('the number of threads is not the one given')
                y = nums[0]
                if eng.ev(st, icmp('uge', y, C(1, y.bits))) is not True or eng.ev(st, icmp('ule', y, C(256, y.bits))) is not True: wrong('a number of threads that is not in 1..256 is accepted', 'bad-threads')
                if eng.ev(st, icmp('eq', eng.load(st, e, 1, 8), C(0, 8))) is not True: wrong('a number of threads with something behind it is accepted', 'bad-threads')
        elif f == 'threshold':
            c = eng.eqc(st, eng.load(st, self.arg(k), 1, 8))
            if x is self.t[f]: wrong('the similarity threshold is not set'); return
            ch = eng.load(st, self.arg(k), 1, 8)
            if isinstance(n, tuple) and n[0] == 'ld' and isinstance(n[1], T):        # from a table
                b, off, dyn = parts(n[1])
                poss = feasible(st, ch, range(256))
                if any(chr(q) not in self.levels for q in poss): wrong('an undocumented level is accepted', 'bad-level'); return
                for q in poss:
                    i = [neval(d, {ch: q}) for d, _ in dyn]
                    if None in i: return
                    val = eng.const_global(b, off + sum(sgn(a, 64) * m for a, (_, m) in zip(i, dyn)), (), 8, 64, st)
                    if val is not None and isinstance(symname(val), tuple) and symname(val)[0] == 'fp' and abs(fpval(symname(val)[1]) - self.levels[chr(q)]) > 1e-9: wrong('level %s has not its threshold' % chr(q))
                return
            if not (isinstance(n, tuple) and n[0] == 'fp'): return
            if c is None or chr(c) not in self.levels: wrong('an undocumented level is accepted', 'bad-level'); return
            if abs(fpval(n[1]) - self.levels[chr(c)]) > 1e-9: wrong('level %s has not its threshold' % chr(c))

    def options_table(self):
        ctx = self.ctx
        b = symname(self.table)
        if not (isinstance(b, tuple) and b[0] == 'g'): return
        u = ctx.prog.units.get(b[2])
        g = u.globals.get(b[1]) if u else None
        if not g or not g['init'] or g['init'][0] != 'agg': return
        seen = {}
        eng = ctx.engine()
        fn = ctx.prog.need('ft_config_parse_args')
        inst = fn.order[0].insts[0]
        for ty, row in g['init'][1]:
            if row[0] != 'agg': break
            f = [eng.operand_const(u, x) for _, x in row[1][:3]]
            nm = eng.cstring(f[0]) if f[0] is not None and f[0].k != 'c' else None
            if nm is None: break
            seen[chr(cv(f[1]))] = (nm.decode(), int(cv(f[2]) != 0))
        ctx.count('option', len(seen))
        for l, w in TABLE.items():
            ctx.oblig('documented option', '-' + l)
            if l not in seen: self.v('opt-%s' % l, 'every documented option exists', 'option -%s (--%s) does not exist' % (l, w[0]), inst, None)
            elif seen[l] != w: self.v('opt-%s' % l, 'every documented option exists', 'option -%s is --%s with%s argument, documented is --%s with%s' % (l, seen[l][0], '' if seen[l][1] else 'out', w[0], '' if w[1] else 'out'), inst, None)
        ctx.need('option', 20)



    # -- the list of names of -i
    def ignore_list(self):
        ctx = self.ctx
        L = self.t['ig_files']
        eng = self.engine('i', EOF)
        m = eng.models
        def fresh(eng, st, n, bits=64): return nonzero(eng, st, eng.fresh(st, (n,), bits))
        def strchr(eng, st, inst, args):
            start = st.mon.get('start')
            if eng.cstring(args[0]) is not None or eng.eqc(st, args[1]) != 44 or start is None: return m_strchr(eng, st, inst, args)
            e = st.mon.get('e')
            x = args[0]
            if e is not None and e != 0 and x is P(e, 1):
                ctx.count('next name')
                if not st.mon.get('added'): self.v('list-skipped', 'every name of the list is ignored', 'a name of the list is passed over', inst, st)
                st.mon['start'] = start = x
                for k in ('e', 'item', 'added', 'len'): st.mon.pop(k, None)
            if x is not start: st.mon['start'] = None; return None
            if st.mon.get('e') is not None and st.mon.get('item') is not None:
                self.v('list-stuck', 'every name of the list is ignored', 'the same name of the list is taken again for ever', inst, st)
            ctx.count('name')
            s2 = st.fork()
            st.mon['e'] = E = fresh(eng, st, 'comma')
            s2.mon['e'] = 0
            return [(st, E), (s2, NULL)]
        def item(eng, st, inst, args):
            I = fresh(eng, st, 'item')
            st.mon['item'] = I
            return [(st, I)]
        def ndup(eng, st, inst, args):
            start, e = st.mon.get('start'), st.mon.get('e')
            if start is None or args[1] is not start: return None
            ctx.oblig('each name is taken from its begin to the comma', site(inst))
            if e is None: st.mon['start'] = None; return None
            if e == 0:
                if args[2] is not S(('strlen', start), 64): self.v('list-length', 'every name of the list is ignored', 'the last name of the list is not taken as a whole', inst, st)
            elif not any(args[2] is x for x in (binop('sub', e, start, 64), binop('sub', cast('ptrtoint', e, 64, 64), cast('ptrtoint', start, 64, 64), 64))) and neval(args[2], {e: 1000, start: 900}) != 100:
                self.v('list-length', 'every name of the list is ignored', 'a name of the list is not taken up to the comma', inst, st)
            r = item(eng, st, inst, args)
            st.mon['len'] = args[2]
            return r
        def dup(eng, st, inst, args):
            start, e = st.mon.get('start'), st.mon.get('e')
            if start is None or args[1] is not start or e is None: return m0(eng, st, inst, args)
            if e != 0: self.v('list-length', 'every name of the list is ignored', 'the rest of the list is taken for one name', inst, st)
            return item(eng, st, inst, args)
        m0 = m['apr_pstrdup']
        def search(eng, st, inst, args):
            if args[0] is L and args[1] is st.mon.get('item'):
                if args[2] is not S(('strlen', args[1]), 64) and args[2] is not st.mon.get('len'): self.v('list-key', 'every name of the list is ignored', 'a name of the list is looked up with a wrong length', inst, st)
                if args[3].k != 'c': eng.store(st, args[3], S(('hv', args[1]), 32), 4)
                s2 = st.fork()
                s2.mon['added'] = 1
                return [(st, NULL), (s2, nonzero(eng, s2, S(('found', args[1]), 64)))]
            return [(st, NULL)]
        def put(eng, st, inst, args):
            if args[0] is L and st.mon.get('item') is not None:
                ctx.oblig('each name is added to the ignored names', site(inst))
                if args[1] is not st.mon['item']: self.v('list-other', 'every name of the list is ignored', 'something else than the name is added to the ignored names', inst, st)
                elif args[2] is not S(('hv', args[1]), 32): self.v('list-hash', 'every name of the list is ignored', 'a name of the list is stored under a wrong hash', inst, st)
                st.mon['added'] = 1
            return [(st, C(0, 32))]
        m.update(strchr=strchr, apr_pstrndup=ndup, apr_pstrmemdup=ndup, apr_pstrdup=dup, napr_hash_search=search, napr_hash_set=put)
        def on_phi(eng, st, block, phis):
            e = st.mon.get('e')
            if not isinstance(e, T): return
            for ph, old, new in phis:
                if new is P(e, 1): st.mon['nphi'] = ph.id
        def on_phi2(eng, st, block, vals):
            i = st.mon.pop('nphi', None)
            if i in vals and vals[i].k == 's':
                if not st.mon.get('added'): self.v('list-skipped', 'every name of the list is ignored', 'a name of the list is passed over', block.body[0], st)
                st.mon['start'] = vals[i]
                for k in ('e', 'item', 'added', 'len'): st.mon.pop(k, None)
        eng.on_phi, eng.on_phi2 = on_phi, on_phi2
        def on_exit(eng, st, v, how, inst):
            if st.mon.get('start') is None or how == 'exit' or ret_is_zero(eng, st, v) is not True: return
            ctx.count('list read')
            e = st.mon.get('e')
            if e is None: return
            if not st.mon.get('added'): self.v('list-skipped', 'every name of the list is ignored', 'the last name of the list is passed over', inst, st)
            if isinstance(e, T) and eng.eqc(st, eng.load(st, P(e, 1), 1, 8)) != 0: self.v('list-rest', 'every name of the list is ignored', 'names behind a comma are passed over', inst, st)
        eng.on_exit = on_exit
        def setup(e, s):
            for f in self.names: e.store(s, P(self.CONF, self.o[f][0]), C(self.bit['RECSD'], 8 * self.o['mask'][1]) if f == 'mask' else self.t[f], self.o[f][1])
            s.mon['start'] = self.arg(0)
            s.mon['keep'] = (L,)
        ctx.run(eng, 'ft_config_parse_args', [self.CONF, self.ARGC, self.ARGV, self.OUT], setup=setup)

    DEFAULTS = ".git/ .hg/ .svn/ build/ dist/ out/ target/ bin/ *.o *.class *.pyc *.pyo node_modules/ vendor/ .venv/ .DS_Store Thumbs.db *.swp *~ .idea/ .vscode/".split()

    def defaults(self):
        ctx = self.ctx
        G, IG, CORES, POOL = S(('ignores',), 64), S(('names',), 64), S(('cores',), 32), S(('arg', 0, 'pool'), 64)
        def create(eng, st, inst, args):
            if args[1].k == 'c' and cv(args[1]) == 0:
                c = eng.cstring(args[2])
                if c: self.v('default-base', 'the default ignore patterns apply everywhere', 'the default ignore patterns apply only below "%s"' % c.decode(), inst, st)
            return [(st, nonzero(eng, st, G))]
        def add(eng, st, inst, args):
            c = eng.cstring(args[1])
            ctx.count('default pattern')
            if args[0] is not G: self.v('default-where', 'the default ignore patterns apply everywhere', 'a default pattern is not added to the rules used for every path', inst, st)
            if c is not None: st.mon['pat'] = st.mon.get('pat', ()) + (c.decode(),)
            else: st.mon['lost'] = 1
            return [(st, C(0, 32))]
        def put(eng, st, inst, args):
            c = eng.cstring(args[1])
            if args[0] is IG and c is not None:
                h = symname(args[2])
                if isinstance(h, tuple) and h[0] == 'hvd' and h[1:] != (c, len(c)):
                    self.v('default-dots', 'a directory is not entered through "." and ".."', 'the entry "%s" is recorded under the hash of another name and not found again' % c.decode(), inst, st)
                st.mon['dots'] = st.mon.get('dots', ()) + (c.decode(),)
            return [(st, C(0, 32))]
        def search(eng, st, inst, args):
            c, z = eng.cstring(args[1]), eng.eqc(st, args[2])
            if args[3].k != 'c': eng.store(st, args[3], eng.fresh(st, ('hv',), 32) if c is None or z is None else S(('hvd', c, z), 32), 4)
            return [(st, NULL)]
        eng = ctx.engine(models=dict(STD, ft_ignore_context_create=create, ft_ignore_add_pattern_str=add, napr_hash_set=put, napr_hash_search=search, napr_hash_str_make=lambda e, s, i, a: [(s, nonzero(e, s, IG))],
                                     napr_hash_make_ex=m_nonnull('ht'), napr_heap_make=m_nonnull('heap'), ft_get_cpu_cores=lambda e, s, i, a: [(s, CORES)]),
                         opaque=['ft_ignore_context_create', 'ft_ignore_add_pattern_str', 'napr_hash_set', 'napr_hash_search', 'napr_hash_str_make', 'napr_hash_make_ex', 'napr_heap_make', 'ft_get_cpu_cores'])
        eng.unroll = 64
        want = dict(minsize=0, maxsize=0, sep=10, excess_size=50 << 20, respect_gitignore=1, mask=self.bit['RECSD'], p_path=0, ig_regex=0, wl_regex=0, ar_regex=0)
        def on_exit(eng, st, v, how, inst):
            ctx.count('defaults')
            ctx.oblig('documented defaults', site(inst))
            for f, w in want.items():
                g = eng.eqc(st, fval(eng, st, v, self.o[f]))
                if g != w: self.v('default-' + f, 'without options the documented defaults hold', 'the default of %s is %s, documented is %s' % (f, g, w), inst, st)
            if fval(eng, st, v, self.o['num_threads']) is not CORES: self.v('default-threads', 'without options the documented defaults hold', 'the default number of threads is not the number of processors', inst, st)
            n = symname(fval(eng, st, v, self.o['threshold']))
            if isinstance(n, tuple) and n[0] == 'fp' and abs(fpval(n[1]) - self.levels['1']) > 1e-9: self.v('default-threshold', 'without options the documented defaults hold', 'the default similarity threshold is not that of level 1', inst, st)
            if fval(eng, st, v, self.o['global_ignores']) is not G: self.v('default-where', 'the default ignore patterns apply everywhere', 'the default ignore rules are not used', inst, st)
            if not st.mon.get('lost'):
                p = st.mon.get('pat', ())
                for x in self.DEFAULTS:
                    if x not in p: self.v('default-pattern', 'the default ignore patterns apply everywhere', 'the documented default pattern "%s" is missing' % x, inst, st)
                for x in p:
                    if x not in self.DEFAULTS: self.v('default-extra', 'nothing else is ignored by default', 'the undocumented pattern "%s" is ignored by default' % x, inst, st)
            for x in ('.', '..'):
                if x not in st.mon.get('dots', ()): self.v('default-dots', 'a directory is not entered through "." and ".."', 'the entry "%s" is not ignored' % x, inst, st)
        eng.on_exit = on_exit
        ctx.run(eng, 'ft_config_create', [POOL])
        ctx.need('defaults'); ctx.need('default pattern')


    def human(self):
        """sizes: the number times the factor of its suffix, everything else refused"""
        ctx = self.ctx
        A, R, E = S(('arg', 0, 'size_str'), 64), S(('number',), 64), S(('endp',), 64)
        def strtod(eng, st, inst, args):
            out = []
            for none in (0, 1):
                s2 = st.fork()
                s2.mon['none'] = none
                if args[1].k != 'c': eng.store(s2, args[1], A if none else E, 8)
                nonzero(eng, s2, E)
                if not none: s2.rel = dict(s2.rel); eng.assume(s2, icmp('ne', E, A), True)
                out.append((s2, R))
            return out
        def up(k):
            def f(eng, st, inst, args):
                st.mon['chr'] = st.mon.get('chr', ()) + ((k, S((k, args[0]), 32), args[0]),)
                return [(st, S((k, args[0]), 32))]
            return f
        eng = ctx.engine(models=dict(STD, strtod=strtod, toupper=up('up'), tolower=up('low')))
        FACT = {'T': 1 << 40, 'G': 1 << 30, 'M': 1 << 20, 'K': 1 << 10}
        def on_exit(eng, st, v, how, inst):
            ctx.count('size result')
            ctx.oblig('a size is its number times the factor of its suffix', site(inst))
            c = eng.eqc(st, v)
            neg = eng.ev(st, icmp('slt', v, C(0, 64))) is True
            if st.mon.get('none'):
                if not neg: self.v('size-nan', 'a size that is no number is refused', 'a size that does not begin with a number is accepted', inst, st)
                return
            mult = None
            t = v
            if t.k == 'op' and t.a[0] == 'fptosi': t = t.a[1]
            if t is R: mult = 1
            elif t.k == 'op' and t.a[0] == 'fmul':
                o = [x for x in t.a[1:] if x is not R]
                if len(o) == 1:
                    y = o[0]
                    if y.k == 'op' and y.a[0] in ('sitofp', 'uitofp') and y.a[1].k == 'c': mult = cv(y.a[1])
                    elif isinstance(symname(y), tuple) and symname(y)[0] == 'fp': mult = fpval(symname(y)[1])
            suf = None
            for k, sym, raw in st.mon.get('chr', ()):
                q = eng.eqc(st, sym)
                if q is not None: suf = chr(q).upper() if 0 < q < 256 else '\0'
            if suf is None: return
            if suf in FACT:
                if mult is None and not neg: return
                if mult != FACT[suf]: self.v('size-factor', 'a suffix has its binary factor', 'a size with suffix %s is multiplied by %s' % (suf, mult), inst, st)
            elif not neg and suf != '\0': self.v('size-suffix', 'a size with an unknown suffix is refused', 'a size with suffix %s is accepted' % suf, inst, st)
        eng.on_exit = on_exit
        def setup(e, s): nonzero(e, s, A); s.mon['keep'] = (A, R, E)
        ctx.run(eng, 'parse_human_size', [A], setup=setup)
        ctx.need('size result', 2)


def S14(ctx):
    o = Options(ctx)
    b = o.bit
    masks = [b['RECSD'], 0, b['RECSD'] | b['JSON'], b['RECSD'] | b['VERBO'] | b['ICASE']]
    if ctx.tier != 'quick': masks += [0xfff & ~b['JSON'], 0xfff, b['PUZZL']]
    for l in TABLE:
        for m in masks: o.check(l, m)
    o.check('', b['RECSD'])
    o.check('', b['RECSD'], BADCH); o.check('a', b['RECSD'], BADARG)
    pairs = [x + y for x in TABLE for y in TABLE]
    for p in pairs:
        for m in masks[:1] if ctx.tier == 'quick' else masks: o.check(p, m)
    o.options_table(); o.ignore_list(); o.defaults(); o.human()
    ctx.need('outcome', 60); ctx.need('regex compiled', 5)


# ------------------------------------------------------------------ S15: every path scanned, one report, truthful exit status
class Main:
    def __init__(self, ctx):
        self.ctx = ctx
        self.o = {f: struct_off(ctx.prog, CU, 'ft_conf_t', f) for f in ('mask', 'heap', 'pool')}
        self.bit = {n: macro_int('OPTION_' + n) for n in ('JSON', 'PUZZL', 'RECSD')}
        self.ARGC, self.IND = S(('argc',), 32), S(('ind',), 32)
        self.ARGV, self.CONF, self.HEAP = (S((n,), 64) for n in ('argv', 'conf', 'heap'))
        self.walk = Walk('walk')

    def v(self, key, rule, msg, inst, st): self.ctx.violation(key, rule, msg, inst, st=st)

    def on_report(self, mask, kind, inst, st): pass

    def index(self, t):
        """i when t is argv[i]"""
        n = symname(t)
        if not (isinstance(n, tuple) and n and n[0] == 'ld' and isinstance(n[1], T)): return None
        return self.place(n[1])

    def place(self, t):
        b, off, dyn = parts(t)
        if off % 8: return None
        if b is not self.ARGV: return (b, off // 8) if b is not None and not dyn else None
        if len(dyn) > 1 or dyn and dyn[0][1] != 8: return None
        if not dyn: return (None, off // 8)
        x = dyn[0][0]
        while x.k == 'op' and x.a[0] in ('sext', 'zext'): x = x.a[1]
        return plus(lin(x), off // 8)

    def on_phi(self, eng, st, block, phis):
        self.walk.on_phi(eng, st, block, phis)
        nx = st.mon.get('walk')
        for ph, old, new in phis:
            if nx is not None and ph.ty[0] == 'ptr' and self.place(new) == nx: st.mon['walkp'] = ph.id

    def on_phi2(self, eng, st, block, vals):
        self.walk.on_phi2(eng, st, block, vals)
        i = st.mon.pop('walkp', None)
        if i in vals and 'walk' in st.mon:
            w = self.place(vals[i])
            if w is not None: st.mon['walk'] = w

    def run(self, mask, managed):
        ctx = self.ctx
        def bad(why): return lambda s: s.mon.__setitem__('bad', why)
        def parse(eng, st, inst, args):
            def ok(s):
                if args[3].k != 'c': eng.store(s, args[3], self.IND, 4)
                s.mon['walk'] = lin(self.IND)
                # the options are known from here on
                eng.store(s, P(self.CONF, self.o['mask'][0]), C(mask, 8 * self.o['mask'][1]), self.o['mask'][1])
            if args[2] is not self.ARGV or args[1] is not self.ARGC: self.v('parse-args', 'the whole command line is read', 'the options are not read from the command line', inst, st)
            return status_alts(eng, st, inst, ok, bad('the command line was refused'))
        def merge(eng, st, inst, args):
            def ok(s): eng.store(s, args[0], nonzero(eng, s, S(('abs', args[2]), 64)), 8)
            return status_alts(eng, st, inst, ok, bad('a path could not be resolved'))
        def traverse(eng, st, inst, args):
            ctx.count('path scanned')
            ctx.oblig('every path argument is scanned, in order', site(inst))
            n = symname(args[1])
            a, ab = args[1], False
            if isinstance(n, tuple) and n and n[0] == 'abs': a, ab = n[1], True
            i = self.index(a)
            if mask & self.bit['JSON'] and not ab: self.v('json-relative', 'JSON output names absolute paths', 'a path is not made absolute for JSON output', inst, st)
            if i is None: self.v('scan-other', 'the paths of the command line are scanned', 'something else than a path of the command line is scanned', inst, st)
            elif not self.walk.event(st, i): self.v('scan-order', 'the paths of the command line are scanned', 'a path of the command line is passed over or scanned twice', inst, st)
            if st.mon.get('rep'): self.v('scan-late', 'the report covers every path', 'a path is scanned after the report', inst, st)
            if args[0] is not self.CONF: self.v('scan-conf', 'the paths of the command line are scanned', 'a path is scanned with other settings', inst, st)
            return status_alts(eng, st, inst, None, bad('a path could not be scanned'))
        def heapsize(eng, st, inst, args):
            self.done(eng, st, inst)
            s2 = st.fork()
            r = eng.fresh(st, ('hsize',), 32)
            eng.constrain(st, r, 'uge', 1)
            s2.mon['bad'] = 'no file was found'
            return [(st, r), (s2, C(0, 32))]
        def process(eng, st, inst, args):
            ctx.count('processing')
            self.done(eng, st, inst)
            if st.mon.get('proc'): self.v('twice', 'files are hashed once', 'the files are processed twice', inst, st)
            st.mon['proc'] = 1
            return status_alts(eng, st, inst, None, bad('the files could not be processed'))
        def report(kind):
            def f(eng, st, inst, args):
                ctx.count('report')
                self.on_report(mask, kind, inst, st)
                ctx.oblig('exactly the chosen report is made, after hashing', site(inst))
                self.done(eng, st, inst)
                want = 'image' if mask & self.bit['PUZZL'] else 'json' if mask & self.bit['JSON'] else 'text'
                if kind != want: self.v('report-kind', 'the chosen report is made', 'the %s report is made although the %s report was asked for' % (kind, want), inst, st)
                if st.mon.get('rep'): self.v('report-twice', 'one report is made', 'two reports are made', inst, st)
                if kind != 'image' and not st.mon.get('proc'): self.v('report-early', 'the report is made from the hashes', 'the report is made before the files were hashed', inst, st)
                if st.mon.get('bad'): self.v('report-bad', 'no report after a failure', 'a report is made although %s' % st.mon['bad'], inst, st)
                st.mon['rep'] = kind
                return status_alts(eng, st, inst, None, bad('the report failed'))
            return f
        def create(eng, st, inst, args):
            return [(st, nonzero(eng, st, self.CONF))]
        eng = ctx.engine(models=dict(STD, ft_config_parse_args=parse, apr_filepath_merge=merge, ft_traverse_path=traverse, napr_heap_size=heapsize, ft_process_files=process,
                                     ft_report_json=report('json'), ft_report_duplicates=report('text'), ft_image_twin_report=report('image'), ft_config_create=create,
                                     apr_initialize=lambda e, s, i, a: status_alts(e, s, i, None, bad('APR could not be initialised')),
                                     apr_pool_create_ex=lambda e, s, i, a: status_alts(e, s, i, lambda q: nonzero(e, q, out_fresh(e, q, i, a[0], 'pool')), bad('no memory pool'))),
                         opaque=['ft_config_parse_args', 'ft_traverse_path', 'napr_heap_size', 'ft_process_files', 'ft_report_json', 'ft_report_duplicates', 'ft_image_twin_report', 'ft_config_create'])
        eng.widen_arith = False
        eng.on_phi, eng.on_phi2 = self.on_phi, self.on_phi2
        def on_exit(eng, st, v, how, inst):
            ctx.count('exit')
            ctx.oblig('the exit status tells success from failure', site(inst))
            z = ret_is_zero(eng, st, v)
            b = st.mon.get('bad')
            c = eng.eqc(st, v)
            if z is not True and c is not None and c & 0xff == 0: z = True
            if b and z is not False: self.v('status-hidden', 'a failure ends with a failure status', 'the process ends with status 0 although %s' % b, inst, st)
            if not b:
                if z is not True: self.v('status-wrong', 'success ends with status 0', 'the process ends with a failure status although everything succeeded', inst, st)
                if not st.mon.get('rep'): self.v('no-report', 'success means a report was made', 'the process ends with status 0 without having made a report', inst, st)
        eng.on_exit = on_exit
        def setup(e, s):
            nonzero(e, s, self.ARGV)
            e.constrain(s, self.IND, 'sge', 1); e.constrain(s, self.IND, 'sle', 1 << 20); e.constrain(s, self.ARGC, 'sge', 1); e.constrain(s, self.ARGC, 'sle', 1 << 20)
            e.assume(s, icmp('slt', self.IND, self.ARGC), True)
            s.mon['keep'] = (self.ARGC, self.IND, self.ARGV, self.CONF)
        ctx.run(eng, 'ftwin_main', [self.ARGC, self.ARGV], setup=setup)

    def done(self, eng, st, inst):
        nx = st.mon.get('walk')
        if nx is None: return
        t = C(nx[1], 32) if nx[0] is None else nx[0] if not nx[1] else binop('add', nx[0], C(nx[1], nx[0].bits), nx[0].bits)
        if st.mon.get('bad'): return
        end = P(self.ARGV, 0, ((cast('sext', self.ARGC, 32, 64), 8),))
        cur = P(nx[0], 8 * nx[1]) if t.bits == 64 and nx[0] is not None else P(self.ARGV, 0, ((cast('sext', t, 32, 64), 8),)) if t.k != 'c' else P(self.ARGV, 8 * nx[1])
        if t.bits == 32 and eng.ev(st, icmp('sge', t, self.ARGC)) is True: return
        if eng.ev(st, icmp('uge', cur, end)) is True or eng.ev(st, icmp('eq', cur, end)) is True: return
        self.v('scan-partial', 'the paths of the command line are scanned', 'processing starts before every path of the command line was scanned', inst, st)

    def entry(self):
        """main hands the status on"""
        ctx = self.ctx
        if ctx.prog.lookup('main') is None: return
        R = S(('result',), 32)
        eng = ctx.engine(models=dict(STD, ftwin_main=lambda e, s, i, a: [(s, R)]), opaque=['ftwin_main'])
        def on_exit(eng, st, v, how, inst):
            ctx.count('main exit')
            if v is not R and eng.ev(st, icmp('eq', v, R)) is not True: self.v('status-lost', 'a failure ends with a failure status', 'the process does not end with the status of the run', inst, st)
        eng.on_exit = on_exit
        ctx.run(eng, 'main', [self.ARGC, self.ARGV])
        ctx.need('main exit')


def S15(ctx):
    m = Main(ctx)
    b = m.bit
    for mask in (b['RECSD'], b['JSON'], b['PUZZL'], b['PUZZL'] | b['JSON']): m.run(mask, 1)
    m.entry()
    from rules_trav import Trav
    Trav(ctx, 'status', macro_int('OPTION_RECSD')).run()
    ctx.need('exit', 8); ctx.need('path scanned', 2); ctx.need('report', 3); ctx.need('processing')
