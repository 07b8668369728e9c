"""Front end: compile every C unit of /repo/src to LLVM IR (clang -O0 + SROA) and parse it.

Nothing is executed: clang only translates, opt only promotes locals to SSA registers.
"""
import os, re, subprocess, sys, tempfile, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("SA_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
CLANG = shutil.which("clang-18") or shutil.which("clang") or "/usr/lib/llvm-18/bin/clang"
OPT = "/usr/lib/llvm-18/bin/opt"
CFLAGS = ["-std=gnu17", "-DHAVE_CONFIG_H", "-DHAVE_APR", "-DLINUX", "-D_REENTRANT", "-D_GNU_SOURCE",
          "-I/usr/include/apr-1.0", "-I" + os.path.join(HERE, "config")]


class AnalysisBroken(Exception):
    """The analysis cannot give a verdict (missing anchor, unparsable unit...)."""


class Truncated(AnalysisBroken):
    pass


# ---------------------------------------------------------------- types
class Types:
    def __init__(self):
        self.named = {}     # '%struct.X' -> type
        self._lay = {}

    def align(self, t):
        k = t[0]
        if k == 'i':
            b = t[1]
            if b <= 8: return 1
            if b <= 16: return 2
            if b <= 32: return 4
            if b <= 64: return 8
            return 16
        if k == 'ptr': return 8
        if k == 'float': return 4
        if k == 'double': return 8
        if k == 'x86_fp80': return 16
        if k == 'arr': return self.align(t[2])
        if k == 'vec': return self.size(t)
        if k == 'named':
            return self.align(self.named[t[1]]) if t[1] in self.named else 1
        if k == 'struct':
            if t[2]: return 1
            return max([self.align(x) for x in t[1]] + [1])
        return 1

    def size(self, t):
        k = t[0]
        if k == 'i': return max(1, (t[1] + 7) // 8) if t[1] <= 64 else 16
        if k == 'ptr': return 8
        if k == 'float': return 4
        if k == 'double': return 8
        if k == 'x86_fp80': return 16
        if k == 'arr': return t[1] * self.size(t[2])
        if k == 'vec': return t[1] * self.size(t[2])
        if k == 'named':
            return self.size(self.named[t[1]]) if t[1] in self.named else 0
        if k == 'struct':
            return self.layout(t)[1]
        return 0

    def layout(self, t):
        if t[0] == 'named':
            if t[1] not in self.named:
                return ([], 0)
            t = self.named[t[1]]
        if t in self._lay: return self._lay[t]
        off, offs = 0, []
        for x in t[1]:
            if not t[2]:
                a = self.align(x)
                off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(x)
        if not t[2]:
            a = self.align(t)
            off = (off + a - 1) // a * a
        self._lay[t] = (offs, off)
        return self._lay[t]

    def resolve(self, t):
        while t[0] == 'named' and t[1] in self.named:
            t = self.named[t[1]]
        return t


TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 | (?P<id>[%@][-a-zA-Z$._][-a-zA-Z$._0-9]*|[%@]\d+|[%@]"[^"]*")
 | (?P<meta>![a-zA-Z_.][a-zA-Z_.0-9]*|!\d+|!)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z_$.0-9]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*:|])
)''', re.X)


def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise AnalysisBroken("cannot tokenize IR: %r" % s[i:i + 80])
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
        if k is None:
            break
    return out


ATTRS = set("""noundef nonnull signext zeroext inreg byval sret noalias nocapture readonly writeonly readnone returned
immarg nofree nosync nounwind allocptr allocalign dereferenceable align dso_local local_unnamed_addr unnamed_addr
fastcc ccc tail musttail notail nsw nuw exact inbounds volatile nnan ninf nsz arcp contract afn reassoc fast
private internal external linkonce_odr hidden protected default weak common linkonce available_externally
constant global disjoint nneg range dead_on_unwind writable""".split())


class P:
    """Token cursor."""
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def eat(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.eat(v):
            raise AnalysisBroken("IR parse: expected %r got %r in %r" % (v, self.peek(), ' '.join(x[1] for x in self.t)))

    def done(self):
        return self.i >= len(self.t)

    def skip_attrs(self):
        while not self.done():
            w = self.peek()
            if w in ATTRS:
                self.next()
                if self.peek() == '(' and w in ('byval', 'sret', 'dereferenceable', 'align', 'range', 'inalloca', 'elementtype'):
                    d = 0
                    while True:
                        x = self.next()
                        if x == '(': d += 1
                        if x == ')':
                            d -= 1
                            if d == 0: break
                elif w == 'align' and self.kind() == 'num':
                    self.next()
            elif w is not None and w.startswith('dereferenceable'):
                self.next()
            else:
                break

    def type(self):
        w = self.next()
        if re.fullmatch(r'i\d+', w): t = ('i', int(w[1:]))
        elif w == 'ptr':
            t = ('ptr',)
            if self.peek() == 'addrspace':
                self.next(); self.expect('('); self.next(); self.expect(')')
        elif w in ('void', 'float', 'double', 'x86_fp80', 'label', 'metadata', 'half'): t = (w,)
        elif w == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']')
            t = ('arr', n, e)
        elif w == '{':
            el = []
            while not self.eat('}'):
                el.append(self.type()); self.eat(',')
            t = ('struct', tuple(el), False)
        elif w == '<':
            if self.peek() == '{':
                self.next(); el = []
                while not self.eat('}'):
                    el.append(self.type()); self.eat(',')
                self.expect('>')
                t = ('struct', tuple(el), True)
            else:
                n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>')
                t = ('vec', n, e)
        elif w[0] == '%':
            t = ('named', w)
        else:
            raise AnalysisBroken("IR type? %r" % w)
        if self.peek() == '(' and t[0] != 'label':
            # function type
            self.next(); d = 1; args = []
            while d:
                x = self.next()
                if x == '(': d += 1
                if x == ')': d -= 1
            t = ('fnty', t)
        return t

    def value(self, ty):
        """returns operand tuple"""
        w = self.peek(); k = self.kind()
        if k == 'id':
            self.next()
            return ('reg', w) if w[0] == '%' else ('glob', w)
        if k == 'num':
            self.next()
            if ty[0] == 'i':
                return ('int', int(w, 0) if not w.startswith('0x') else int(w, 16), ty[1])
            return ('fp', w)
        if w in ('null',):
            self.next(); return ('int', 0, 64)
        if w in ('true', 'false'):
            self.next(); return ('int', 1 if w == 'true' else 0, 1)
        if w in ('undef', 'poison'):
            self.next(); return ('undef',)
        if w == 'zeroinitializer':
            self.next(); return ('zero', ty)
        if k == 'str':
            self.next()
            return ('str', decode_str(w))
        if w in ('getelementptr',):
            self.next(); self.skip_attrs(); self.expect('(')
            src = self.type(); self.expect(',')
            self.type(); base = self.value(('ptr',)); idx = []
            while self.eat(','):
                self.skip_attrs()
                it = self.type(); idx.append((it, self.value(it)))
            self.expect(')')
            return ('cgep', src, base, idx)
        if w in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
            self.next(); self.expect('('); t1 = self.type(); v = self.value(t1)
            self.expect('to'); t2 = self.type(); self.expect(')')
            return ('ccast', w, t1, v, t2)
        if w in ('[', '{', '<'):
            packed = False
            op = self.next()
            if op == '<' and self.peek() == '{':
                self.next(); op = '{'; packed = True
            close = {'[': ']', '{': '}', '<': '>'}[op]
            el = []
            while not self.eat(close):
                t = self.type(); el.append((t, self.value(t))); self.eat(',')
            if packed: self.expect('>')
            return ('agg', el)
        if w in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl'):
            self.next(); self.skip_attrs(); self.expect('(')
            d = 1
            while d:
                x = self.next()
                if x == '(': d += 1
                if x == ')': d -= 1
            return ('undef',)
        raise AnalysisBroken("IR value? %r in %r" % (w, ' '.join(x[1] for x in self.t)))


def decode_str(w):
    w = w[w.index('"') + 1:-1]
    out, i = bytearray(), 0
    while i < len(w):
        if w[i] == '\\':
            if w[i + 1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(w[i + 1:i + 3], 16)); i += 3
        else:
            out += w[i].encode('utf-8'); i += 1
    return bytes(out)


class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'line', 'file', 'fn', 'block', 'idx', 'id', 'scope')

    def __repr__(self):
        return "%s=%s %s" % (self.res, self.op, self.a)

    def where(self):
        return "%s:%s" % (self.file, self.line)


class Block:
    __slots__ = ('name', 'insts', 'preds', 'succs', 'fn', 'phis', 'body', 'term', 'live_in', 'header', 'inloop')


class Func:
    def __init__(self):
        self.blocks = {}
        self.order = []

    def __repr__(self):
        return "<fn %s>" % self.name


BIN = set("add sub mul udiv sdiv urem srem and or xor shl lshr ashr fadd fsub fmul fdiv frem".split())
CAST = set("trunc zext sext fptrunc fpext fptoui fptosi uitofp sitofp ptrtoint inttoptr bitcast addrspacecast".split())


class Unit:
    """One translation unit."""
    def __init__(self, path, src):
        self.path = path
        self.src = src
        self.funcs = {}
        self.globals = {}   # '@x' -> dict(ty, init, const, internal)
        self.types = Types()
        self.meta = {}
        self.declares = set()
        self.parse(open(path, encoding='utf-8', errors='replace').read())

    def parse(self, text):
        lines = text.split('\n')
        i, n = 0, len(lines)
        bodies = []
        for ln in lines:
            if ln.startswith('!') and ln[1:2].isdigit():
                m = re.match(r'!(\d+) = (?:distinct )?(.*)', ln)
                self.meta[int(m.group(1))] = m.group(2)
        while i < n:
            ln = lines[i]
            if ln.startswith('%') and ' = type ' in ln:
                name, rest = ln.split(' = type ', 1)
                if rest.strip() != 'opaque':
                    self.types.named[name.strip()] = P(tokenize(rest)).type()
            elif ln.startswith('@'):
                self.parse_global(ln)
            elif ln.startswith('declare'):
                m = re.search(r'@([^\s(]+)\(', ln)
                if m: self.declares.add(m.group(1).strip('"'))
            elif ln.startswith('define'):
                j = i
                while lines[j] != '}':
                    j += 1
                bodies.append((ln, lines[i + 1:j]))
                i = j
            i += 1
        self.fieldnames = {}
        self.bitfields = {}
        self.build_fieldnames()
        for h, b in bodies:
            self.parse_func(h, b)

    # --- debug info
    def md(self, n):
        return self.meta.get(n, '')

    def mdfield(self, s, f):
        m = re.search(r'\b%s: ("(?:[^"\\]|\\.)*"|[^,()]+)' % f, s)
        if not m: return None
        v = m.group(1)
        return v[1:-1] if v.startswith('"') else v.strip()

    def mdref(self, s, f):
        v = self.mdfield(s, f)
        if v and v.startswith('!') and v[1:].isdigit():
            return int(v[1:])
        return None

    def build_fieldnames(self):
        comp = {}
        for n, s in self.meta.items():
            if s.startswith('!DICompositeType(tag: DW_TAG_structure_type') or s.startswith('!DICompositeType(tag: DW_TAG_union_type'):
                nm = self.mdfield(s, 'name')
                el = self.mdref(s, 'elements')
                if el is not None:
                    comp.setdefault(nm, []).append((n, el))
        tdef = {}
        for n, s in self.meta.items():
            if s.startswith('!DIDerivedType(tag: DW_TAG_typedef'):
                b = self.mdref(s, 'baseType')
                if b is not None:
                    bs = self.md(b)
                    if bs.startswith('!DICompositeType(tag: DW_TAG_structure_type') and self.mdfield(bs, 'name') is None:
                        el = self.mdref(bs, 'elements')
                        if el is not None:
                            tdef[self.mdfield(s, 'name')] = el
        for name, t in self.types.named.items():
            m = re.match(r'%(?:struct|union)\.(.*?)(\.\d+)?$', name)
            if not m: continue
            nm = m.group(1)
            el = None
            if nm in comp:
                el = comp[nm][0][1]
            elif nm in tdef:
                el = tdef[nm]
            if el is None: continue
            offs, _ = self.types.layout(t) if self.types.resolve(t)[0] == 'struct' else ([], 0)
            byoff = {}
            for r in re.findall(r'!(\d+)', self.md(el)):
                ms = self.md(int(r))
                fo = int(self.mdfield(ms, 'offset') or 0)
                fn = self.mdfield(ms, 'name')
                if fn: byoff.setdefault(fo // 8, fn)
                if fn and 'DIFlagBitField' in ms: self.bitfields.setdefault(name, {})[fn] = (fo, int(self.mdfield(ms, 'size') or 0))
            self.fieldnames[name] = [byoff.get(o, '#%d' % k) for k, o in enumerate(offs)]

    def scope_file(self, n, depth=0):
        s = self.md(n)
        f = self.mdref(s, 'file')
        if f is not None:
            fs = self.md(f)
            return self.mdfield(fs, 'filename')
        sc = self.mdref(s, 'scope')
        if sc is not None and depth < 20:
            return self.scope_file(sc, depth + 1)
        return None

    # --- globals
    def parse_global(self, ln):
        m = re.match(r'(@(?:"[^"]*"|[^\s=]+)) = (.*)', ln)
        name, rest = m.group(1), m.group(2)
        internal = bool(re.match(r'(private|internal)\b', rest))
        ext = bool(re.match(r'(external)\b', rest))
        rest = re.sub(r', (align \d+|!dbg !\d+|section "[^"]*"|comdat.*)', '', rest)
        toks = P(tokenize(rest))
        const = False
        while not toks.done() and (toks.peek() in ATTRS or toks.peek() in ('thread_local',)):
            w = toks.next()
            if w == 'constant': const = True
            if w == 'thread_local' and toks.peek() == '(':
                while toks.next() != ')': pass
        ty = toks.type()
        init = None
        if not ext and not toks.done():
            init = toks.value(ty)
        self.globals[name] = dict(ty=ty, init=init, const=const, internal=internal)

    # --- functions
    def parse_func(self, head, body):
        f = Func()
        m = re.search(r'@("[^"]*"|[^\s(]+)\(', head)
        f.name = m.group(1).strip('"')
        f.internal = bool(re.match(r'define\s+(internal|private)', head))
        f.unit = self
        dbg = re.search(r'!dbg !(\d+)', head)
        f.file = None
        f.line = 0
        if dbg:
            s = self.md(int(dbg.group(1)))
            f.line = int(self.mdfield(s, 'line') or 0)
            f.file = self.scope_file(int(dbg.group(1)))
        f.file = norm_file(f.file or self.src)
        # params
        st = m.end() - 1
        d, e = 0, st
        while True:
            c = head[e]
            if c == '(': d += 1
            if c == ')':
                d -= 1
                if d == 0: break
            e += 1
        pr = P(tokenize(head[st + 1:e]))
        f.params = []
        f.paramtys = []
        while not pr.done():
            if pr.eat('...'): break
            t = pr.type(); pr.skip_attrs()
            f.params.append(pr.next()); f.paramtys.append(t)
            pr.eat(',')
        rt = head[len('define'):m.start()]
        rp = P(tokenize(rt)); rp.skip_attrs()
        f.retty = rp.type() if not rp.done() else ('void',)
        cur = None
        k = 0
        buf = None
        for ln in body:
            s = ln.strip()
            if not s or s.startswith(';'): continue
            if buf is not None:          # switch continuation
                buf += ' ' + s
                if s.startswith(']'):
                    s = buf; buf = None
                else:
                    continue
            elif not ln.startswith(' '):
                m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
                if m:
                    cur = Block()
                    cur.name = '%' + m.group(1)
                    cur.insts = []; cur.preds = []; cur.succs = []; cur.fn = f
                    f.blocks[cur.name] = cur; f.order.append(cur)
                    continue
            elif s.startswith('switch') and ']' not in s:
                buf = s
                continue
            if cur is None:
                cur = Block(); cur.name = '%entry'; cur.insts = []; cur.preds = []; cur.succs = []; cur.fn = f
                f.blocks[cur.name] = cur; f.order.append(cur)
            if '@llvm.dbg.' in s or '@llvm.lifetime' in s: continue
            ins = self.parse_inst(s, f)
            if ins is None: continue
            ins.fn = f; ins.block = cur; ins.idx = k
            ins.id = (f.unit.src + ':' + f.name if f.internal else f.name, k)
            k += 1
            cur.insts.append(ins)
        finalize(f)
        self.funcs[f.name] = f

    def parse_inst(self, s, f):
        ins = Inst()
        ins.line = 0; ins.scope = None
        m = re.search(r', !dbg !(\d+)', s)
        ins.file = f.file
        if m:
            loc = self.md(int(m.group(1)))
            ins.line = int(self.mdfield(loc, 'line') or 0)
            s = s[:m.start()] + s[m.end():]
        s = re.sub(r', !\w+(\.\w+)* !\d+', '', s)
        s = re.sub(r', align \d+$', '', s)
        p = P(tokenize(s))
        ins.res = None
        if p.kind() == 'id' and p.peek(1) == '=':
            ins.res = p.next(); p.next()
        while p.peek() in ('tail', 'musttail', 'notail'): p.next()
        op = p.next()
        ins.op = op
        ins.ty = None
        if op == 'alloca':
            ins.ty = p.type()
            n = None
            while p.eat(','):
                if p.peek() in ('align', 'addrspace'):
                    break
                t = p.type(); n = p.value(t)
            ins.a = n
        elif op == 'load':
            p.skip_attrs(); ins.ty = p.type(); p.expect(','); p.type(); ins.a = p.value(('ptr',))
        elif op == 'store':
            p.skip_attrs(); t = p.type(); v = p.value(t); p.expect(','); p.type(); q = p.value(('ptr',))
            ins.ty = t; ins.a = (v, q)
        elif op == 'getelementptr':
            p.skip_attrs(); src = p.type(); p.expect(','); p.type(); b = p.value(('ptr',)); idx = []
            while p.eat(','):
                p.skip_attrs(); t = p.type(); idx.append((t, p.value(t)))
            ins.ty = src; ins.a = (b, idx)
        elif op == 'call':
            while p.peek() in ATTRS: p.skip_attrs()
            ins.ty = p.type()
            if ins.ty[0] == 'fnty': ins.ty = ins.ty[1]
            callee = p.value(('ptr',))
            p.expect('(')
            args = []
            while not p.eat(')'):
                t = p.type(); byval = False
                if p.peek() == 'byval': byval = True
                p.skip_attrs()
                if t == ('metadata',):
                    while p.peek() not in (',', ')'): p.next()
                    args.append((t, ('undef',)))
                else:
                    args.append((t, p.value(t)))
                p.eat(',')
            ins.a = (callee, args)
        elif op == 'br':
            if p.peek() == 'label':
                p.next(); ins.a = (None, [p.next()])
            else:
                t = p.type(); c = p.value(t); p.expect(','); p.expect('label'); x = p.next(); p.expect(','); p.expect('label'); y = p.next()
                ins.a = (c, [x, y])
        elif op == 'switch':
            t = p.type(); v = p.value(t); p.expect(','); p.expect('label'); d = p.next(); p.expect('[')
            cases = []
            while not p.eat(']'):
                ct = p.type(); cv = p.value(ct); p.expect(','); p.expect('label'); cases.append((cv, p.next()))
            ins.ty = t; ins.a = (v, d, cases)
        elif op == 'ret':
            t = p.type(); ins.ty = t
            ins.a = p.value(t) if t != ('void',) else None
        elif op in ('icmp', 'fcmp'):
            p.skip_attrs(); pred = p.next(); t = p.type(); x = p.value(t); p.expect(','); y = p.value(t)
            ins.ty = t; ins.a = (pred, x, y)
        elif op == 'phi':
            p.skip_attrs(); t = p.type(); inc = []
            while True:
                p.expect('['); v = p.value(t); p.expect(','); b = p.next(); p.expect(']')
                inc.append((v, b))
                if not p.eat(','): break
            ins.ty = t; ins.a = inc
        elif op == 'select':
            p.skip_attrs(); ct = p.type(); c = p.value(ct); p.expect(','); t = p.type(); x = p.value(t); p.expect(','); p.type(); y = p.value(t)
            ins.ty = t; ins.a = (c, x, y)
        elif op in BIN:
            p.skip_attrs(); t = p.type(); x = p.value(t); p.expect(','); y = p.value(t)
            ins.ty = t; ins.a = (x, y)
        elif op in CAST:
            p.skip_attrs(); t = p.type(); x = p.value(t); p.expect('to'); t2 = p.type()
            ins.ty = t2; ins.a = (t, x)
        elif op in ('freeze', 'fneg'):
            t = p.type(); ins.ty = t; ins.a = p.value(t)
        elif op == 'extractvalue':
            t = p.type(); x = p.value(t); p.expect(','); ins.ty = t; ix = [int(p.next())]
            while p.eat(','): ix.append(int(p.next()))
            ins.a = (x, tuple(ix))
        elif op == 'insertvalue':
            t = p.type(); x = p.value(t); p.expect(','); t2 = p.type(); y = p.value(t2); p.expect(','); ix = [int(p.next())]
            while p.eat(','): ix.append(int(p.next()))
            ins.ty = t; ins.a = (x, y, tuple(ix))
        elif op == 'unreachable':
            ins.a = None
        elif op in ('atomicrmw', 'cmpxchg', 'fence', 'va_arg', 'extractelement', 'insertelement', 'shufflevector'):
            ins.a = None; ins.ty = ('i', 64)
        else:
            raise AnalysisBroken("IR instruction? %r" % s)
        return ins


def norm_file(fn):
    fn = fn.replace('\\', '/')
    i = fn.find('/src/')
    if fn.startswith(REPO): return fn[len(REPO) + 1:]
    if i >= 0: return fn[i + 1:]
    return fn


def operands(ins):
    """register names used (non-phi)"""
    out = []

    def val(v):
        if v is None: return
        if v[0] == 'reg': out.append(v[1])
        elif v[0] == 'cgep':
            val(v[2]); [val(x[1]) for x in v[3]]
        elif v[0] == 'ccast': val(v[3])
        elif v[0] == 'agg': [val(x[1]) for x in v[1]]
    a = ins.a
    op = ins.op
    if op == 'alloca': val(a)
    elif op in ('load', 'freeze', 'fneg'): val(a)
    elif op == 'store': val(a[0]); val(a[1])
    elif op == 'getelementptr':
        val(a[0]); [val(x[1]) for x in a[1]]
    elif op == 'call':
        val(a[0]); [val(x[1]) for x in a[1]]
    elif op == 'br': val(a[0])
    elif op == 'switch': val(a[0])
    elif op == 'ret': val(a)
    elif op in ('icmp', 'fcmp'): val(a[1]); val(a[2])
    elif op == 'phi': [val(x[0]) for x in a]
    elif op == 'select': [val(x) for x in a]
    elif op in BIN: val(a[0]); val(a[1])
    elif op in CAST: val(a[1])
    elif op == 'extractvalue': val(a[0])
    elif op == 'insertvalue': val(a[0]); val(a[1])
    return out


def finalize(f):
    f.entry = f.order[0]
    f.defs = {}
    for b in f.order:
        b.phis = [x for x in b.insts if x.op == 'phi']
        b.body = [x for x in b.insts if x.op != 'phi']
        b.term = b.insts[-1]
        t = b.term
        if t.op == 'br': b.succs = list(dict.fromkeys(t.a[1]))
        elif t.op == 'switch': b.succs = list(dict.fromkeys([t.a[1]] + [x[1] for x in t.a[2]]))
        else: b.succs = []
        for x in b.insts:
            if x.res: f.defs[x.res] = x
    for b in f.order:
        for s in b.succs: f.blocks[s].preds.append(b.name)
    # liveness (registers live at block entry, phis' own results counted as defined in block)
    use, dfn = {}, {}
    for b in f.order:
        u, d = set(), set()
        for x in b.insts:
            if x.op == 'phi':
                d.add(x.res); continue
            for r in operands(x):
                if r not in d: u.add(r)
            if x.res: d.add(x.res)
        use[b.name], dfn[b.name] = u, d
    live_in = {b.name: set() for b in f.order}
    ch = True
    while ch:
        ch = False
        for b in reversed(f.order):
            out = set()
            for s in b.succs:
                sb = f.blocks[s]
                out |= live_in[s]
                for ph in sb.phis:
                    for v, pb in ph.a:
                        if pb == b.name and v[0] == 'reg': out.add(v[1])
            ni = use[b.name] | (out - dfn[b.name])
            if ni != live_in[b.name]:
                live_in[b.name] = ni; ch = True
    for b in f.order: b.live_in = live_in[b.name]
    # dominators, loops
    idx = {b.name: i for i, b in enumerate(f.order)}
    names = [b.name for b in f.order]
    full = set(names)
    dom = {n: set(full) for n in names}
    dom[f.entry.name] = {f.entry.name}
    ch = True
    while ch:
        ch = False
        for b in f.order[1:]:
            ps = [dom[p] for p in b.preds]
            nd = set.intersection(*ps) if ps else set()
            nd = nd | {b.name}
            if nd != dom[b.name]:
                dom[b.name] = nd; ch = True
    f.dom = dom
    f.loops = {}
    for b in f.order:
        b.header = False; b.inloop = False
    for b in f.order:
        for s in b.succs:
            if s in dom[b.name]:      # back edge b->s
                f.blocks[s].header = True
                body = f.loops.setdefault(s, {s})
                st = [b.name]
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x)
                    st += f.blocks[x].preds
    for h, body in f.loops.items():
        for n in body: f.blocks[n].inloop = True


class Program:
    def __init__(self, units):
        self.units = units
        self.glob = {}
        for u in units.values():
            for n, f in u.funcs.items():
                if not f.internal:
                    self.glob.setdefault(n, f)
        self.allfuncs = [f for u in units.values() for f in u.funcs.values()]
        # loop-arithmetic phis
        for f in self.allfuncs:
            mark_loop_phis(f)

    def lookup(self, name, unit=None):
        """resolve callee as seen from unit"""
        if unit is not None and name in unit.funcs:
            return unit.funcs[name]
        return self.glob.get(name)

    def need(self, name):
        f = self.glob.get(name)
        if f is None:
            for u in self.units.values():
                if name in u.funcs: return u.funcs[name]
            raise AnalysisBroken("anchor function %s not found in the source tree" % name)
        return f

    def calls(self, f):
        """(inst, callee-name|None)"""
        for b in f.order:
            for x in b.insts:
                if x.op == 'call':
                    c = x.a[0]
                    yield x, (c[1][1:].strip('"') if c[0] == 'glob' else None)

    def address_taken(self):
        out = set()

        def val(u, v):
            if v is None: return
            if v[0] == 'glob':
                n = v[1][1:]
                f = self.lookup(n, u)
                if f: out.add(f)
            elif v[0] == 'cgep': val(u, v[2])
            elif v[0] == 'ccast': val(u, v[3])
            elif v[0] == 'agg': [val(u, x[1]) for x in v[1]]
        for u in self.units.values():
            for g in u.globals.values():
                if g['init']: val(u, g['init'])
            for f in u.funcs.values():
                for b in f.order:
                    for x in b.insts:
                        if x.op == 'call':
                            for t, a in x.a[1]: val(u, a)
                        elif x.op == 'store': val(u, x.a[0])
                        elif x.op == 'phi': [val(u, y[0]) for y in x.a]
                        elif x.op == 'select': val(u, x.a[1]); val(u, x.a[2])
                        elif x.op == 'ret': val(u, x.a)
        return out


def mark_loop_phis(f):
    """phi at a loop header whose back-edge value is (transitively) arithmetic -> widened on re-entry"""
    f.widen = set()
    for h in f.loops:
        body = f.loops[h]
        for ph in f.blocks[h].phis:
            for v, pb in ph.a:
                if pb not in body: continue
                seen, st, arith = set(), [v], False
                while st and not arith:
                    w = st.pop()
                    if w[0] != 'reg' or w[1] in seen: continue
                    seen.add(w[1])
                    d = f.defs.get(w[1])
                    if d is None: continue
                    if d.block.name not in body: continue
                    if d.op in BIN or d.op == 'getelementptr': arith = True
                    elif d.op == 'phi': st += [x[0] for x in d.a]
                    elif d.op == 'select': st += [d.a[1], d.a[2]]
                    elif d.op in CAST: st.append(d.a[1])
                if arith: f.widen.add(ph.res)


def compile_unit(src, out, repo, extra=()):
    cmd = [CLANG, "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fno-discard-value-names", "-S", "-emit-llvm", "-w"] + CFLAGS + list(extra) + \
        ["-I" + os.path.join(repo, "src"), "-I" + os.path.join(repo, "src/vendor/xxhash"), src, "-o", out + ".0"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("clang cannot translate %s:\n%s" % (src, r.stderr[-2000:]))
    r = subprocess.run([OPT, "-S", "-passes=function(sroa)", out + ".0", "-o", out], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("opt failed on %s:\n%s" % (src, r.stderr[-2000:]))
    os.unlink(out + ".0")


def load(repo=None, only=None):
    repo = repo or REPO
    srcdir = os.path.join(repo, "src")
    files = sorted(x for x in os.listdir(srcdir) if x.endswith('.c'))
    if only: files = [x for x in files if x in only]
    tmp = tempfile.mkdtemp(prefix="sa_ir_")
    try:
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda b: compile_unit(os.path.join(srcdir, b), os.path.join(tmp, b + '.ll'), repo), files))
        units = {}
        for b in files:
            units[b] = Unit(os.path.join(tmp, b + '.ll'), 'src/' + b)
        return Program(units)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    import time
    t = time.time()
    p = load()
    print(len(p.allfuncs), 'functions', sum(len(f.order) for f in p.allfuncs), 'blocks', time.time() - t)
