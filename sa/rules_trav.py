"""Rules for the directory walk: which files are looked at (S06), links and loops (S07)."""
from common import *
from rules_scan import const, fval, symname, strip_old, lin, plus, same, FILE_T, FSZ_T, CONF_T

U = 'ft_traverse.c'


def strip_cast(t):
    while t.k == 'op' and t.a[0] in ('zext', 'sext', 'trunc'): t = t.a[1]
    return t


class Trav:
    def __init__(self, ctx, want, mask, depth=0):
        self.ctx, self.want, self.mask, self.depth = ctx, want, mask, depth
        p = ctx.prog
        o = lambda s, f: struct_off(p, U, s, f)
        self.fi = {k: o('apr_finfo_t', k) for k in ('filetype', 'protection', 'user', 'group', 'inode', 'device', 'size', 'mtime', 'name')}
        self.cf = {k: o(CONF_T, k) for k in ('minsize', 'maxsize', 'heap', 'sizes', 'gids', 'ig_files', 'ig_regex', 'wl_regex', 'userid', 'respect_gitignore', 'global_ignores', 'mask')}
        self.ff = {k: o(FILE_T, k) for k in ('path', 'size', 'mtime', 'subpath')}
        self.sz = {k: o(FSZ_T, k) for k in ('val', 'chksum_array', 'nb_files', 'nb_checksumed')}
        self.stt = {k: o('stats', k) for k in ('parent', 'stat')}
        for k in ('DIR', 'REG', 'LNK', 'NOFILE'): setattr(self, k, const('APR_' + k, 'ft_file.h'))
        self.LINK = const('APR_FINFO_LINK', 'ft_file.h')
        self.perm_bits = {d: tuple(const('APR_%s' % x, 'ft_file.h') for x in n) for d, n in ((0, ('UREAD', 'GREAD', 'WREAD')), (1, ('UEXECUTE', 'GEXECUTE', 'WEXECUTE')))}
        self.IGN = const('FT_IGNORE_MATCH_IGNORED', 'ft_ignore.h')
        self.conf = S(('arg', 0, 'conf'), 64)
        self.has = lambda n: bool(mask & macro_int('OPTION_' + n))

    def v(self, key, rule, msg, inst, st):
        if self.want == 'status' and not key.startswith('path-'): return
        self.ctx.violation(key, rule, msg, inst, st=st)

    def c(self, eng, st, f): return fval(eng, st, self.conf, self.cf[f])

    def f(self, eng, st, f):
        b = st.mon.get('fi')
        return fval(eng, st, b, self.fi[f]) if b is not None else None

    # ---------------- models
    def stat(self, eng, st, inst, args):
        first = args[1] is self.path and 'fi' not in st.mon
        w = eng.eqc(st, args[2])
        if args[1] is self.path:
            if first:
                st.mon['fi'] = args[0]
                self.ctx.count('stat')
            if self.want == 'links' and first and w is not None:
                self.ctx.oblig('links are examined as links unless followed', site(inst))
                if self.has('FSYML') and w & self.LINK:
                    self.v('link-not-followed', 'links are followed only on request', 'with link following enabled a link is examined instead of its target', inst, st)
                if not self.has('FSYML') and not w & self.LINK:
                    self.v('link-followed', 'links are followed only on request', 'a symbolic link is followed although following was not requested', inst, st)
            if not first and w is not None and w & self.LINK: st.mon['lstat'] = 1
        bad = st.fork()
        for s in (st, bad):
            eng.havoc(s, args[0], inst, 'fi')
            b = base_of(args[0])
            for k in [k for k in s.mem if k[0] is b and len(k) == 4]: del s.mem[k]
            s.mem.pop((b, 'fill'), None)
            if s is st:
                for n, (off, size) in self.fi.items():
                    eng.store(s, P(args[0], off), eng.fresh(s, ('stat', s.frames[-1].ctx, inst.id, n), size * 8), size)
        if first: bad.mon['statfail'] = 1
        elif args[1] is self.path:
            st.mon['relinked'] = fval(eng, st, args[0], self.fi['filetype'])
        rb = eng.fresh(bad, eng.site(bad, inst, 'st'), 32)
        eng.constrain(bad, rb, 'ne', 0)
        bad.note(inst, 'apr_stat fails')
        return [(st, C(0, 32)), (bad, rb)]

    def dir_open(self, eng, st, inst, args):
        self.ctx.count('dir opened')
        if args[1] is self.path:
            self.entered(eng, st, inst, True)
            if self.want == 'links': self.loopfree(eng, st, inst)
            if 'fi' in st.mon: self.settled(eng, st)

        def ok(s):
            h = nonzero(eng, s, eng.fresh(s, ('dirh', s.frames[-1].ctx, inst.id), 64))
            eng.store(s, args[0], h, 8)
            s.mon['dir'] = h
        return status_alts(eng, st, inst, ok, lambda s: s.mon.__setitem__('failed', 1))

    def dir_read(self, eng, st, inst, args):
        self.entry_done(eng, st, inst)
        if self.want == 'filters' and 'dir' in st.mon and args[2] is not st.mon['dir']:
            self.v('dir-closed', 'directories are read to the end', 'a directory is read through a handle that is not open', inst, st)
        self.fresh_entry(eng, st, args[0])
        end = st.fork()
        end.mon['dirend'] = 1
        name = nonzero(eng, st, eng.fresh(st, ('dname', st.frames[-1].ctx, inst.id), 64))
        ty = eng.fresh(st, ('dtype', st.frames[-1].ctx, inst.id), 32)
        eng.store(st, P(args[0], self.fi['name'][0]), name, 8)
        eng.store(st, P(args[0], self.fi['filetype'][0]), ty, 4)
        st.mon['ent'] = (name, ty)
        r = eng.fresh(end, eng.site(end, inst, 'st'), 32)
        eng.constrain(end, r, 'ne', 0)
        self.ctx.count('entry')
        return [(st, C(0, 32)), (end, r)]

    def fresh_entry(self, eng, st, finfo):
        """what is known about the previous entry (and was learnt from unchanged memory while handling it) is dropped"""
        b = base_of(finfo)
        for k in [k for k in st.mem if len(k) == 4 and k[0] is b]: del st.mem[k]
        old = lambda t: any(isinstance(symname(x), tuple) and symname(x)[0] in ('dname', 'dtype', 'rx', 'found', 'ld', 'old', 'str', 'ign', 'ictx', 'stat', 'st') and not x is self.f(eng, st, 'inode') and not x is self.f(eng, st, 'device') for x in t.syms)
        for k in [k for k in st.mem if len(k) == 4 and isinstance(symname(st.mem[k]), tuple) and symname(st.mem[k])[0] == 'ld']: del st.mem[k]
        keep = self.f(eng, st, 'filetype') if 'fi' in st.mon else None
        for k in list(st.facts):
            if k is not keep and k not in st.mon['keep'] and old(k): del st.facts[k]
        for k in list(st.rel):
            if old(k[0]) or old(k[1]): del st.rel[k]
        st.facts.pop(self.ictx, None)

    def dir_close(self, eng, st, inst, args):
        st.mon.pop('dir', None)
        if self.want == 'status': return status_alts(eng, st, inst)
        return [(st, eng.fresh(st, eng.site(st, inst, 'r'), 32))]

    def strcat(self, eng, st, inst, args):
        v = nonzero(eng, st, eng.fresh(st, ('str', st.frames[-1].ctx, inst.id), 64))
        st.mon[('str', v)] = tuple(args[1:])
        return [(st, v)]

    def strdup(self, eng, st, inst, args):
        v = nonzero(eng, st, eng.fresh(st, ('dup', st.frames[-1].ctx, inst.id), 64))
        st.mon[('dup', v)] = args[1]
        return [(st, v)]

    def search(self, eng, st, inst, args):
        t = args[0]
        s2 = st.fork()
        r = nonzero(eng, st, eng.fresh(st, ('found', st.frames[-1].ctx, inst.id), 64))
        which = None
        for n in ('ig_files', 'gids', 'sizes'):
            if t is self.c(eng, st, n): which = n
        for s, hit in ((st, 1), (s2, 0)):
            if len(args) > 3 and args[3].k != 'c': eng.store(s, args[3], eng.fresh(s, ('hv', s.frames[-1].ctx, inst.id), 32), 4)
            if which == 'ig_files' and 'ent' in s.mon and args[1] is s.mon['ent'][0] and strip_cast(args[2]) is S(('strlen', args[1]), 64):
                s.mon['igf'] = hit
            if which == 'gids':
                b = s.mon.get('fi')
                if b is not None and eng.load(s, args[1], 4, 32) is fval(eng, s, b, self.fi['group']): s.mon['gid'] = hit
            if which == 'sizes':
                self.ctx.count('size group')
                n = eng.load(s, args[1], 8, 64)
                if self.want == 'filters' and n is not self.f(eng, s, 'size') and not same(eng, s, n, self.f(eng, s, 'size')):
                    self.v('size-key', 'files are grouped by size', 'the size group looked up is not the one of the file\'s size', inst, s)
                if hit:
                    s.mon['sg'] = (r, fval(eng, s, r, self.sz['nb_files']), 'old')
                else: s.mon['sg'] = (None, None, 'none')
        return [(st, r), (s2, NULL)]

    def hset(self, eng, st, inst, args):
        if args[0] is self.c(eng, st, 'sizes'):
            st.mon['sg'] = (args[1], None, 'new')
        return [(st, None)]

    def insert(self, eng, st, inst, args):
        if 'file' in st.mon: self.v('inserted-twice', 'each file is examined once', 'a file is put twice into the list of files to examine', inst, st)
        self.ctx.count('insert')
        st.mon['file'] = args[1]
        self.entered(eng, st, inst, False)
        if self.want == 'filters':
            if args[0] is not self.c(eng, st, 'heap'):
                self.v('insert-heap', 'every admitted file is examined', 'a file is put into another list than the one that is examined', inst, st)
            p = fval(eng, st, args[1], self.ff['path'])
            if p is not self.path and st.mon.get(('dup', p)) is not self.path:
                self.v('insert-path', 'every admitted file is examined', 'the path recorded for a file is not the path that was scanned', inst, st)
            for a in ('size', 'mtime'):
                t = fval(eng, st, args[1], self.ff[a])
                if not same(eng, st, t, self.f(eng, st, a)):
                    self.v('insert-' + a, 'every admitted file is examined', 'the %s recorded for a file is not the one of the file' % ('size' if a == 'size' else 'modification time'), inst, st)
            t = fval(eng, st, args[1], self.ff['subpath'])
            if symname(t) and isinstance(symname(t), tuple) and symname(t)[0] == 'undef':
                self.v('insert-uninit', 'recorded files are complete', 'a file is recorded with an uninitialised field', inst, st)
        return [(st, None)]

    def rx(self, eng, st, inst, args):
        r = eng.fresh(st, eng.site(st, inst, 'rx'), 32)
        for n in ('ig_regex', 'wl_regex'):
            if args[0] is self.c(eng, st, n):
                self.ctx.count('regex')
                off = eng.eqc(st, args[4])
                ln = strip_cast(args[3])
                if self.composed(eng, st, args[2]) and off == 0 and eng.eqc(st, args[5]) in (0, 0x2000, None) and ln is S(('strlen', args[2]), 64): st.mon['x' + n] = r
        return [(st, r)]

    def ign(self, eng, st, inst, args):
        r = eng.fresh(st, eng.site(st, inst, 'ign'), 32)
        if args[1] is self.path and args[0] is self.ictx:
            self.ctx.count('ignore match')
            st.mon['ign'] = (r, args[2])
        return [(st, r)]

    def ctxnew(self, eng, st, inst, args):
        v = nonzero(eng, st, eng.fresh(st, ('ictx', st.frames[-1].ctx, inst.id), 64))
        st.mon['lctx'] = (v, args[1], args[2])
        return [(st, v)]

    def ctxload(self, eng, st, inst, args):
        l = st.mon.get('lctx')
        if l and l[0] is args[0]:
            def ok(s): s.mon['loaded'] = (args[0], args[1])
            return status_alts(eng, st, inst, ok)
        return status_alts(eng, st, inst)

    # ---------------- facts
    def tri(self, *xs):
        """conjunction of three-valued terms"""
        if any(x is False for x in xs): return False
        return True if all(x is True for x in xs) else None

    def permitted(self, eng, st, isdir):
        z = eng.ev(st, icmp('eq', self.c(eng, st, 'userid'), C(0, 32)))
        if z is True: return True
        prot = self.f(eng, st, 'protection')
        own = eng.ev(st, icmp('eq', self.f(eng, st, 'user'), self.c(eng, st, 'userid')))
        bits = [eng.ev(st, icmp('ne', binop('and', prot, C(b, 32), 32), C(0, 32))) for b in self.perm_bits[isdir]]
        if all(b is True for b in bits): return True
        if z is None and not all(b is False for b in bits): return None
        if z is None: return None
        if own is True: return bits[0]
        if own is None: return None
        g = st.mon.get('gid')
        if g is None: return None
        return bits[1] if g else bits[2]

    def ignored(self, eng, st):
        """is the visited path ignored: True / False / None unknown"""
        a = eng.ev(st, icmp('ne', self.c(eng, st, 'respect_gitignore'), C(0, 32)))
        b = eng.ev(st, icmp('ne', self.ictx, NULL))
        if a is False or b is False: return False
        g = st.mon.get('ign')
        if g is None: return None
        r = eng.ev(st, icmp('eq', g[0], C(self.IGN, 32)))
        return r

    def composed(self, eng, st, v):
        """v is <visited dir>/<current entry>"""
        if 'ent' not in st.mon: return False
        s = st.mon.get(('str', v))
        if not s: return False
        parts_ = [x for x in s if not (x.k == 'c' and cv(x) == 0)]
        if len(parts_) < 2 or parts_[0] is not self.path or parts_[-1] is not st.mon['ent'][0]: return False
        mid = ''
        for x in parts_[1:-1]:
            cst = eng.cstring(x)
            if cst is None: return None
            mid += cst if isinstance(cst, str) else cst.decode()
        if mid == '/': return True
        last = eng.load(st, P(self.path, -1, ((S(('strlen', self.path), 64), 1),)), 1, 8)
        return mid == '' and eng.ev(st, icmp('eq', last, C(47, 8))) is True

    # ---------------- events
    def entered(self, eng, st, inst, isdir):
        """a file is recorded / a directory is read: nothing excludes it"""
        if self.want != 'filters' or 'fi' not in st.mon: return
        self.ctx.oblig('excluded entries are not examined', site(inst))
        what = 'directory' if isdir else 'file'
        ty = self.f(eng, st, 'filetype')
        if not isdir:
            reg = eng.ev(st, icmp('eq', ty, C(self.REG, 32)))
            if reg is not True and not (self.has('FSYML') and eng.ev(st, icmp('eq', ty, C(self.LNK, 32))) is True):
                self.v('not-regular', 'only regular files are examined', 'something that need not be a regular file is recorded as a file', inst, st)
            size = self.f(eng, st, 'size')
            if eng.ev(st, icmp('sge', size, self.c(eng, st, 'minsize'))) is not True:
                self.v('below-min', 'size limits are respected', 'a file is recorded without being known to reach the minimum size', inst, st)
            mx = self.c(eng, st, 'maxsize')
            if eng.ev(st, icmp('eq', mx, C(0, 64))) is not True and eng.ev(st, icmp('sle', size, mx)) is not True:
                self.v('above-max', 'size limits are respected', 'a file is recorded without being known to stay within the maximum size', inst, st)
        if self.permitted(eng, st, int(isdir)) is not True:
            self.v('unreadable-' + what, 'unreadable entries are skipped', 'a %s is examined although the user may not be allowed to read it' % what, inst, st)
        ig = self.ignored(eng, st)
        if ig is not False:
            self.v('ignored-' + what, 'ignore rules are applied', 'a %s is examined without its ignore rules having cleared it' % what, inst, st)
        g = st.mon.get('ign')
        if g is not None:
            want = 1 if isdir else 0
            if eng.eqc(st, g[1]) not in (want, None) or eng.eqc(st, g[1]) is None and eng.ev(st, icmp('eq', g[1], C(want, g[1].bits))) is not True:
                self.v('ignore-kind', 'ignore rules are applied', 'the ignore rules are asked about a %s as if it were something else' % what, inst, st)

    def settled(self, eng, st):
        """the decision about the visited path is made: drop what led to it"""
        syms = {self.f(eng, st, n) for n in ('user', 'group', 'protection', 'size', 'mtime')} | {self.c(eng, st, n) for n in ('userid', 'minsize', 'maxsize')}
        if 'ign' in st.mon: syms.add(st.mon.pop('ign')[0])
        st.mon.pop('gid', None)
        for k in list(st.facts):
            if k.syms & syms: del st.facts[k]
        for k in list(st.rel):
            if (k[0].syms | k[1].syms) & syms: del st.rel[k]

    def ancestor(self, eng, st):
        p = self.stats
        for k in range(self.depth):
            if self.tri(*[eng.ev(st, icmp('eq', eng.load(st, P(p, self.stt['stat'][0] + self.fi[n][0]), 8, 64), self.f(eng, st, n))) for n in ('inode', 'device')]): return True
            p = fval(eng, st, p, self.stt['parent'])
        return False

    def loopfree(self, eng, st, inst):
        self.ctx.oblig('directory not already being scanned', site(inst))
        p = self.stats
        for k in range(self.depth):
            si = eng.load(st, P(p, self.stt['stat'][0] + self.fi['inode'][0]), 8, 64)
            sd = eng.load(st, P(p, self.stt['stat'][0] + self.fi['device'][0]), 8, 64)
            a = eng.ev(st, icmp('eq', si, self.f(eng, st, 'inode')))
            b = eng.ev(st, icmp('eq', sd, self.f(eng, st, 'device')))
            if a is not False and b is not False:
                self.v('loop', 'link loops end', 'a directory is entered without knowing that it is not already being scanned further up', inst, st)
                return
            p = fval(eng, st, p, self.stt['parent'])

    def recurse(self, eng, st, inst, args):
        self.ctx.count('recursion')
        a = {r: args[i] for r, i in self.roles.items() if i < len(args)}
        ent = st.mon.pop('ent', None)
        if ent is not None and self.want == 'filters':
            st.mon['ent'] = ent
            ok = self.composed(eng, st, a['path'])
            name, ty = ent
            self.ctx.oblig('entry descended into unless excluded', site(inst))
            if ok is False:
                self.v('wrong-path', 'entries are scanned under their own path', 'the path scanned for a directory entry is not the directory\'s path followed by the entry\'s name', inst, st)
            if st.mon.get('igf') is None: self.v('name-unchecked', 'excluded names are skipped', 'an entry is scanned without looking its name up among the excluded names', inst, st)
            elif st.mon['igf']: self.v('name-excluded', 'excluded names are skipped', 'an entry whose name is excluded is scanned', inst, st)
            dot = eng.ev(st, icmp('eq', eng.load(st, name, 1, 8), C(46, 8)))
            if not self.has('SHOW_HIDDEN') and dot is not False: self.v('hidden', 'hidden entries are skipped', 'a hidden entry may be scanned although hidden entries were not requested', inst, st)
            isd = eng.ev(st, icmp('eq', ty, C(self.DIR, 32)))
            if not self.has('RECSD') and isd is not False: self.v('subdir', 'subdirectories only when asked', 'a subdirectory may be scanned although recursion is off', inst, st)
            for n, good in (('ig_regex', 'slt'), ('wl_regex', 'sge')):
                if eng.eqc(st, self.c(eng, st, n)) == 0: continue
                if n == 'wl_regex' and isd is True: continue
                r = st.mon.get('x' + n)
                if r is None or eng.ev(st, icmp(good, r, C(0, 32))) is not True:
                    self.v(n, 'path patterns are applied', 'an entry is scanned although its path was not cleared by the %s pattern' % ('exclusion' if n[0] == 'i' else 'whitelist'), inst, st)
        if self.want == 'filters' and 'ctx' in a:
            self.ctx.oblig('ignore rules inherited', site(inst))
            l = st.mon.get('loaded')
            if l:
                if a['ctx'] is not l[0]: self.v('gitignore-dropped', 'ignore rules are inherited', 'the rules of a directory\'s own ignore file are not applied to its entries', inst, st)
                elif st.mon['lctx'][1] is not self.ictx: self.v('gitignore-orphan', 'ignore rules are inherited', 'a directory\'s own ignore file replaces the inherited rules', inst, st)
                elif st.mon['lctx'][2] is not self.path: self.v('gitignore-base', 'ignore rules are inherited', 'the rules of an ignore file are not tied to its directory', inst, st)
            elif a['ctx'] is not self.ictx and symname(a['ctx']) and symname(a['ctx'])[0] != 'ictx':
                self.v('gitignore-lost', 'ignore rules are inherited', 'the inherited ignore rules are not passed on to the entries of a directory', inst, st)
        if self.want == 'links' and 'stats' in a:
            self.ctx.oblig('scanned directories are remembered', site(inst))
            x = a['stats']
            if eng.eqc(st, x) == 0 or not same(eng, st, fval(eng, st, x, self.stt['parent']), self.stats) or \
               any(not same(eng, st, eng.load(st, P(x, self.stt['stat'][0] + self.fi[n][0]), 8, 64), self.f(eng, st, n)) for n in ('inode', 'device')):
                self.v('chain', 'link loops end', 'the directory being scanned is not recorded for the entries below it', inst, st)
        self.clear(st)

        def bad(s): s.mon['failed'] = 1
        return status_alts(eng, st, inst, None, bad, 'scan of an entry')

    def clear(self, st):
        for k in [k for k in st.mon if k in ('ent', 'igf', 'xig_regex', 'xwl_regex') or isinstance(k, tuple) and k[0] == 'str' and k[1] not in (st.mon.get('loaded') or ())]: del st.mon[k]

    def entry_done(self, eng, st, inst):
        """the current entry is left; if it was not scanned something must exclude it"""
        ent = st.mon.get('ent')
        if ent is not None and self.want == 'filters':
            self.ctx.oblig('skipped entry is excluded by an option', site(inst))
            name, ty = ent
            isd = eng.ev(st, icmp('eq', ty, C(self.DIR, 32)))
            why = st.mon.get('igf') == 1
            why = why or not self.has('SHOW_HIDDEN') and eng.ev(st, icmp('eq', eng.load(st, name, 1, 8), C(46, 8))) is True
            why = why or not self.has('RECSD') and isd is True
            r = st.mon.get('xig_regex')
            why = why or r is not None and eng.ev(st, icmp('sge', r, C(0, 32))) is True
            r = st.mon.get('xwl_regex')
            why = why or r is not None and eng.ev(st, icmp('slt', r, C(0, 32))) is True and isd is False
            if not why: self.v('entry-skipped', 'every entry is scanned unless excluded', 'a directory entry is passed over although no option excludes it', inst, st)
        self.clear(st)

    def on_exit(self, eng, st, v, how, inst):
        ctx = self.ctx
        ctx.count('exit')
        ok = ret_is_zero(eng, st, v)
        opened = 'dirend' in st.mon or 'dir' in st.mon
        if self.want == 'status':
            if how == 'ret' and st.mon.get('failed'):
                ctx.count('failed scan')
                ctx.oblig('a failed scan is reported', site(inst))
                if ok is True: self.v('path-below', 'every path is scanned or reported', 'the failure to open a directory, or to scan something below it, is not reported', inst, st)
            return
        if self.want == 'links':
            if ok is True and 'fi' in st.mon and not opened and not st.mon.get('statfail') and eng.ev(st, icmp('eq', self.f(eng, st, 'filetype'), C(self.DIR, 32))) is True and not self.ancestor(eng, st):
                self.v('dir-skipped', 'only link loops are cut', 'a directory that is not being scanned further up is passed over', inst, st)
            if self.has('FSYML') and st.mon.get('statfail'):
                ctx.oblig('broken links do not end the scan', site(inst))
                ty = self.f(eng, st, 'filetype')
                if st.mon.get('relinked'):
                    lnk = eng.eqc(st, st.mon['relinked']) == self.LNK
                    if lnk and ok is not True: self.v('broken-link', 'broken links do not end the scan', 'a broken symbolic link ends the scan with an error', inst, st)
                elif ok is False and not st.mon.get('lstat'):
                    self.v('broken-link', 'broken links do not end the scan', 'a link whose target is missing ends the scan with an error', inst, st)
            return
        if self.want != 'filters' or 'fi' not in st.mon: return
        if ok is False or st.mon.get('failed'): return
        if st.mon.get('statfail') and not st.mon.get('relinked'):
            return
        if st.mon.get('dir') is not None:
            self.v('dir-open', 'directories are closed', 'a directory stays open after it was scanned', inst, st)
        self.entry_done(eng, st, inst)
        ty = self.f(eng, st, 'filetype')
        if 'file' in st.mon:
            g = st.mon.get('sg')
            fi = st.mon['file']
            ctx.oblig('recorded file is counted in its size group', site(inst))
            if g is None or g[0] is None:
                self.v('uncounted', 'files are grouped by size', 'a recorded file is not counted in any size group', inst, st)
            else:
                n = fval(eng, st, g[0], self.sz['nb_files'])
                want = binop('add', g[1], C(1, 32), 32) if g[1] is not None else C(1, 32)
                if not same(eng, st, n, want) and eng.eqc(st, n) != (cv(want) if want.k == 'c' else None):
                    self.v('miscounted', 'files are grouped by size', 'a recorded file does not add exactly one to its size group', inst, st)
                if g[2] == 'new':
                    for k, z in (('chksum_array', 0), ('nb_checksumed', 0)):
                        if eng.eqc(st, fval(eng, st, g[0], self.sz[k])) != z: self.v('group-init', 'files are grouped by size', 'a new size group does not start out empty', inst, st)
                    if not same(eng, st, fval(eng, st, g[0], self.sz['val']), self.f(eng, st, 'size')):
                        self.v('group-val', 'files are grouped by size', 'a new size group carries another size than its first file', inst, st)
            return
        # not recorded
        reg = eng.ev(st, icmp('eq', ty, C(self.REG, 32)))
        dr = eng.ev(st, icmp('eq', ty, C(self.DIR, 32)))
        if opened:
            if 'dirend' not in st.mon: self.v('dir-left', 'directories are read to the end', 'a directory scan ends before its last entry', inst, st)
            return
        if reg is False and dr is False: return
        ctx.oblig('skipped path is excluded by an option', site(inst))
        if self.ignored(eng, st) is True: return
        if reg is not False and dr is not True:
            size, mx = self.f(eng, st, 'size'), self.c(eng, st, 'maxsize')
            if eng.ev(st, icmp('slt', size, self.c(eng, st, 'minsize'))) is True: return
            if eng.ev(st, icmp('sgt', size, mx)) is True and eng.ev(st, icmp('ne', mx, C(0, 64))) is True: return
            if self.permitted(eng, st, 0) is False: return
            self.v('file-skipped', 'every file is examined unless excluded', 'a regular file is passed over although no option excludes it', inst, st)
        elif dr is not False:
            if self.permitted(eng, st, 1) is False: return
            if self.ancestor(eng, st) is True: return
            self.v('dir-skipped', 'every directory is examined unless excluded', 'a directory is passed over although no option excludes it', inst, st)

    def on_call(self, eng, st, inst, name, args):
        if name == self.rec.name: return self.recurse(eng, st, inst, args)
        return None

    # ---------------- running
    def find(self):
        """the recursive function the public entry point calls, and the role of its parameters"""
        prog, ctx = self.ctx.prog, self.ctx
        root = prog.need('ft_traverse_path')
        cands = []
        for x, n in prog.calls(root):
            g = prog.lookup(n, root.unit) if n else None
            if g is None: continue
            below = closure(prog, [h for y, m in prog.calls(g) for h in [prog.lookup(m, g.unit)] if m and h is not None], fptrs=False)
            if g in below: cands.append(g)
        if not cands: return None
        g = cands[0]
        roles, path = {}, S(('arg', 1, 'path'), 64)
        gi = None

        def on_call(eng, st, inst, name, args):
            if name != g.name: return None
            ctx.count('top call')
            gi = self.c(eng, st, 'global_ignores')
            for i, a in enumerate(args):
                if a is self.conf: roles['conf'] = i
                elif a is path: roles['path'] = i
                elif a is gi: roles['ctx'] = i
                elif a.k == 'c' and a.bits == 64: roles['stats'] = i
                else: roles.setdefault('pool', i)
            return status_alts(eng, st, inst, lambda s: s.mon.__setitem__('top', 'ok'), lambda s: s.mon.__setitem__('top', 'failed'))
        eng = ctx.engine(models=dict(STD))
        eng.on_call = on_call

        def ex(eng, st, v, how, inst):
            if self.want not in ('filters', 'status') or how != 'ret' or ret_is_zero(eng, st, v) is not True: return
            ctx.count('path reported as scanned')
            ctx.oblig('a path reported as scanned was scanned', site(inst))
            t = st.mon.get('top')
            if t is None: self.v('path-unscanned', 'every path is scanned or reported', 'a path that was not scanned at all is reported as scanned', inst, st)
            elif t == 'failed': self.v('path-failed', 'every path is scanned or reported', 'the failure to scan a path is not reported', inst, st)
        eng.on_exit = ex
        ctx.run(eng, root, [self.conf, path])
        if 'conf' not in roles or 'path' not in roles: return None
        self.rec, self.roles = g, roles
        return g

    def extra(self, models): return models

    def run(self):
        ctx = self.ctx
        g = self.find()
        if g is None:
            ctx.notes.append('directory walk has another shape than recursion from ft_traverse_path: not analysed')
            return False
        names = {i: r for r, i in self.roles.items()}
        args = []
        for i in range(len(g.params)):
            r = names.get(i)
            args.append(self.conf if r == 'conf' else S(('arg', i, r or 'x'), 64))
        at = lambda r: args[self.roles[r]] if r in self.roles else NULL
        self.path, self.ictx, self.stats = at('path'), at('ctx'), at('stats')
        m = dict(STD, apr_stat=self.stat, apr_dir_open=self.dir_open, apr_dir_read=self.dir_read, apr_dir_close=self.dir_close, apr_pstrcat=self.strcat,
                 apr_pstrdup=self.strdup, napr_hash_search=self.search, napr_hash_set=self.hset, napr_heap_insert=self.insert, pcre_exec=self.rx,
                 ft_ignore_match=self.ign, ft_ignore_context_create=self.ctxnew, ft_ignore_load_file=self.ctxload,
                 strlen=lambda e, s, i, a: [(s, S(('strlen', a[0]), 64))], napr_heap_insert_r=self.insert)
        m = self.extra(m)
        eng = ctx.engine(models=m, opaque=[k for k in m if k.startswith(('napr_', 'ft_'))])
        eng.on_call, eng.on_exit = self.on_call, self.on_exit
        eng.K = 600
        eng.RECURSE = 6
        eng.widen_arith = False
        p_path = struct_off(ctx.prog, U, CONF_T, 'p_path')

        if 'stats' in self.roles and not self.depth: args[self.roles['stats']] = self.stats = NULL

        def setup(e, s):
            e.store(s, P(self.conf, self.cf['mask'][0]), C(self.mask, 16), 2)
            s.mon['keep'] = (S(('ld', P(self.path, -1, ((S(('strlen', self.path), 64), 1),))), 8),)
            if self.want == 'prio': return self.setup(e, s)
            e.store(s, P(self.conf, p_path[0]), NULL, 8)
            a = self.stats
            for k in range(self.depth):
                nonzero(e, s, a)
                n = S(('anc', k), 64) if k + 1 < self.depth else NULL
                e.store(s, P(a, self.stt['parent'][0]), n, 8)
                a = n
            if self.want == 'links':
                for n in ('userid', 'respect_gitignore'): e.store(s, P(self.conf, self.cf[n][0]), C(0, 32), 4)
                for n in ('ig_regex', 'wl_regex'): e.store(s, P(self.conf, self.cf[n][0]), NULL, 8)
        ctx.run(eng, g, args, setup=setup)
        return True


def masks(ctx):
    b = [macro_int('OPTION_' + n) for n in ('RECSD', 'SHOW_HIDDEN', 'FSYML')]
    ks = range(8) if ctx.tier == 'thorough' else (0, 1, 2, 5, 7)
    for k in ks: yield sum(x for i, x in enumerate(b) if k >> i & 1)


def S06(ctx):
    from rules_cli import Options
    Options(ctx).groups()
    ok = True
    for m in masks(ctx):
        for d in (0, 2): ok = Trav(ctx, 'filters', m, d).run() and ok
    if ok:
        for n in ('stat', 'dir opened', 'entry', 'insert', 'recursion', 'regex', 'ignore match', 'size group', 'top call'): ctx.need(n)


def S07(ctx):
    ok = True
    for m in masks(ctx):
        for d in range(5 if ctx.tier == 'thorough' else 3): ok = Trav(ctx, 'links', m, d).run() and ok
    if ok:
        for n in ('stat', 'dir opened', 'entry', 'insert', 'recursion'): ctx.need(n)
