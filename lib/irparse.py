"""Parser for the textual LLVM IR that `clang++-18 -S -emit-llvm` prints.

Globals and functions get fixed 64-bit addresses (object id << SHIFT) so every
constant expression folds to a Python int while parsing.  Function bodies are
parsed lazily, the first time the executor enters them."""
import re

SHIFT = 24                      # object id = address >> SHIFT
OFFMASK = (1 << SHIFT) - 1
FIRST_DYNAMIC = 1 << 20         # ids of stack/heap objects start here


class ParseError(Exception):
    pass


class _Undef:
    def __repr__(self):
        return 'undef'


UNDEF = _Undef()


class Ty:
    __slots__ = ('k', 'n', 'el', 'fields', 'size', 'align', 'offs')

    def __init__(self, k, n=0, el=None, fields=None, packed=False):
        self.k, self.n, self.el, self.fields = k, n, el, fields
        self.offs = None
        if k == 'i':
            b = 1
            while b * 8 < n:
                b *= 2
            self.size = b
            self.align = b
        elif k == 'p':
            self.size = self.align = 8
        elif k == 'f':
            self.size = self.align = {16: 2, 32: 4, 64: 8, 80: 16, 128: 16}[n]
        elif k == 'v' or k == 'x':
            self.size, self.align = 0, 1
        elif k == 'a':
            self.size = el.size * n
            self.align = el.align
        elif k == 's':
            o = 0
            al = 1
            offs = []
            for f in fields:
                fa = 1 if packed else f.align
                o = (o + fa - 1) // fa * fa
                offs.append(o)
                o += f.size
                al = max(al, fa)
            self.size = (o + al - 1) // al * al
            self.align = al
            self.offs = offs

    def __repr__(self):
        if self.k in 'if':
            return '%s%d' % (self.k, self.n)
        if self.k == 'a':
            return '[%d x %r]' % (self.n, self.el)
        if self.k == 's':
            return '{%s}' % ', '.join(map(repr, self.fields))
        return self.k


_ICACHE = {}


def IntTy(n):
    t = _ICACHE.get(n)
    if t is None:
        t = _ICACHE[n] = Ty('i', n)
    return t


PTR = Ty('p')
VOID = Ty('v')
META = Ty('x')
FLOATS = {'half': Ty('f', 16), 'float': Ty('f', 32), 'double': Ty('f', 64),
          'x86_fp80': Ty('f', 80), 'fp128': Ty('f', 128)}

TOK = re.compile(r'''
   c"(?:[^"\\]|\\.)*"            |
   [%@!]"(?:[^"\\]|\\.)*"        |
   "(?:[^"\\]|\\.)*"             |
   [%@!\#][-\w.$]*               |
   0x[KLMHR]?[0-9A-Fa-f]+        |
   -?\d+\.\d+(?:[eE][+-]?\d+)?   |
   -?\d+                         |
   \.\.\.                        |
   [A-Za-z_][\w.]*               |
   [()\[\]{}<>,=*:|]
''', re.X)

PARAM_ATTR = set('''noundef nonnull noalias nocapture readonly readnone writeonly signext zeroext inreg
 returned nest immarg noreturn nofree swiftself allocalign allocptr nounwind inrange willreturn writable dead_on_unwind
 '''.split())
PARAM_ATTR_P = set('align dereferenceable dereferenceable_or_null sret byval byref inalloca preallocated elementtype range nofpclass initializes'.split())
CCS = set('fastcc ccc coldcc cc tailcc'.split())
LINKAGE = set('''private internal available_externally linkonce weak common appending extern_weak linkonce_odr weak_odr
 external dso_local dso_preemptable default hidden protected dllimport dllexport unnamed_addr local_unnamed_addr
 thread_local global constant externally_initialized'''.split())


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'b', 'c', 'd', 'flags', 'line')

    def __init__(self, op, res=None, ty=None, a=None, b=None, c=None, d=None, flags=()):
        self.op, self.res, self.ty, self.a, self.b, self.c, self.d, self.flags = op, res, ty, a, b, c, d, flags


class Reg(str):
    """operand naming a virtual register"""
    __slots__ = ()


class Func:
    __slots__ = ('name', 'ret', 'params', 'lines', 'blocks', 'entry', 'mod', 'byval')

    def __init__(self, mod, name, ret, params, byval, lines):
        self.mod, self.name, self.ret, self.params, self.byval, self.lines = mod, name, ret, params, byval, lines
        self.blocks = None

    def parsed(self):
        if self.blocks is None:
            self.mod._parse_body(self)
        return self.blocks


class P:
    """token cursor"""

    def __init__(self, mod, text):
        self.m = mod
        self.t = TOK.findall(text)
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise ParseError('expected %r got %r in %r' % (x, y, ' '.join(self.t)))

    def skip_parens(self):
        d = 0
        while True:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1
                if d == 0:
                    return

    def type(self):
        x = self.next()
        if x == 'ptr':
            t = PTR
            if self.peek() == 'addrspace':
                self.next(); self.skip_parens()
        elif x[0] == 'i' and x[1:].isdigit():
            t = IntTy(int(x[1:]))
        elif x == 'void':
            t = VOID
        elif x in FLOATS:
            t = FLOATS[x]
        elif x[0] == '%':
            t = self.m.named_type(x[1:].strip('"'))
        elif x == '[':
            n = int(self.next()); self.expect('x')
            e = self.type(); self.expect(']')
            t = Ty('a', n, e)
        elif x == '{':
            fs = []
            if not self.accept('}'):
                while True:
                    fs.append(self.type())
                    if self.accept('}'):
                        break
                    self.expect(',')
            t = Ty('s', fields=fs)
        elif x == '<':
            if self.accept('{'):
                fs = []
                if not self.accept('}'):
                    while True:
                        fs.append(self.type())
                        if self.accept('}'):
                            break
                        self.expect(',')
                self.expect('>')
                t = Ty('s', fields=fs, packed=True)
            else:
                n = int(self.next()); self.expect('x')
                e = self.type(); self.expect('>')
                t = Ty('a', n, e)       # vectors: memory layout only; ops unsupported
        elif x in ('metadata', 'label', 'token'):
            t = META
        else:
            raise ParseError('type %r in %r' % (x, ' '.join(self.t)))
        # function type suffix: RT (args)
        if self.peek() == '(' and t is not META:
            # only in calls with explicit function types; caller handles
            pass
        return t

    def attrs(self):
        """skip parameter attributes; returns byval type if any"""
        bv = None
        while True:
            x = self.peek()
            if x in PARAM_ATTR:
                self.next()
            elif x in PARAM_ATTR_P:
                self.next()
                if x == 'align' and self.peek() != '(':
                    self.next()
                elif x == 'byval':
                    self.expect('(')
                    bv = self.type()
                    self.expect(')')
                else:
                    self.skip_parens()
            elif x is not None and x[0] == '"' :
                self.next()
                if self.accept('='):
                    self.next()
            else:
                return bv

    def value(self, ty):
        """operand of known type -> int / UNDEF / Reg / list"""
        x = self.next()
        c = x[0]
        if c == '%':
            return Reg(x[1:].strip('"'))
        if c == '@':
            return self.m.addr(x[1:].strip('"'))
        if ty.k == 'f':
            return self.m.fconst(ty, x)
        if x.lstrip('-').isdigit():
            return int(x) & ((1 << ty.n) - 1)
        if x == 'true':
            return 1
        if x == 'false':
            return 0
        if x == 'null':
            return 0
        if x in ('undef', 'poison'):
            return UNDEF if ty.k in 'ipf' else self.m.undef_of(ty)
        if x == 'zeroinitializer':
            return self.m.zero_of(ty)
        if x == 'none':
            return 0
        if c == 'c' and x[1:2] == '"':
            return self.m.cstr(x[2:-1])
        if x in ('{', '['):
            end = '}' if x == '{' else ']'
            out = []
            if not self.accept(end):
                while True:
                    t = self.type()
                    out.append(self.value(t))
                    if self.accept(end):
                        break
                    self.expect(',')
            return out
        if x == '<':
            # packed struct const
            self.expect('{')
            out = []
            if not self.accept('}'):
                while True:
                    t = self.type()
                    out.append(self.value(t))
                    if self.accept('}'):
                        break
                    self.expect(',')
            self.expect('>')
            return out
        if x == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                self.next()
            self.expect('(')
            t = self.type(); self.expect(',')
            idx = []
            self.type(); base = self.value(PTR)
            while self.accept(','):
                while self.peek() == 'inrange':
                    self.next()
                it = self.type()
                v = self.value(it)
                idx.append((it.n, v))
            self.expect(')')
            return (base + self.m.const_gep(t, idx)) & (2**64 - 1)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'addrspacecast'):
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            if t2.k == 'i':
                v &= (1 << t2.n) - 1
            return v
        if x in ('sub', 'add'):
            while self.peek() in ('nsw', 'nuw'):
                self.next()
            self.expect('(')
            t = self.type(); a = self.value(t); self.expect(',')
            t = self.type(); b = self.value(t); self.expect(')')
            return (a + b if x == 'add' else a - b) & ((1 << t.n) - 1)
        raise ParseError('value %r in %r' % (x, ' '.join(self.t)))


class Module:
    def __init__(self, text):
        self.types = {}
        self.typedefs = {}
        self.funcs = {}
        self.decls = {}
        self.globals = {}           # name -> (ty, init text or None, const)
        self.addrs = {}
        self.byid = {}              # object id -> name
        self._load(text)

    # ---- symbol addresses
    def addr(self, name):
        name = self.alias.get(name, name)
        a = self.addrs.get(name)
        if a is None:
            i = len(self.addrs) + 16
            a = i << SHIFT
            self.addrs[name] = a
            self.byid[i] = name
        return a

    def sym_at(self, addr):
        if addr & OFFMASK == 0:
            return self.byid.get(addr >> SHIFT)
        return None

    def named_type(self, n):
        t = self.types.get(n)
        if t is None:
            d = self.typedefs.get(n)
            if d is None:
                raise ParseError('unknown type ' + n)
            if d.strip() == 'opaque':
                t = Ty('s', fields=[])
            else:
                t = P(self, d).type()
            self.types[n] = t
        return t

    def undef_of(self, ty):
        if ty.k == 'a':
            return [self.undef_of(ty.el) for _ in range(ty.n)]
        if ty.k == 's':
            return [self.undef_of(f) for f in ty.fields]
        return UNDEF

    def zero_of(self, ty):
        if ty.k == 'a':
            return [self.zero_of(ty.el) for _ in range(ty.n)]
        if ty.k == 's':
            return [self.zero_of(f) for f in ty.fields]
        return 0

    def fconst(self, ty, x):
        import struct
        if x in ('undef', 'poison'):
            return UNDEF
        if x == 'zeroinitializer':
            return 0
        if x.startswith('0x'):
            if ty.n in (32, 64) and x[2] not in 'KLMHR':
                bits = int(x, 16)
                if ty.n == 64:
                    return bits
                d = struct.unpack('<d', struct.pack('<Q', bits))[0]
                return struct.unpack('<I', struct.pack('<f', d))[0]
            return int(x[3:], 16)
        d = float(x)
        if ty.n == 64:
            return struct.unpack('<Q', struct.pack('<d', d))[0]
        if ty.n == 32:
            return struct.unpack('<I', struct.pack('<f', d))[0]
        raise ParseError('float const %s' % x)

    def cstr(self, s):
        out = []
        i = 0
        while i < len(s):
            if s[i] == '\\':
                if s[i + 1] == '\\':
                    out.append(92); i += 2
                else:
                    out.append(int(s[i + 1:i + 3], 16)); i += 3
            else:
                out.append(ord(s[i])); i += 1
        return out

    def const_gep(self, t, idx):
        off = 0
        for k, (n, v) in enumerate(idx):
            if v >= 1 << (n - 1):
                v -= 1 << n
            if k == 0:
                off += v * t.size
            elif t.k == 's':
                off += t.offs[v]
                t = t.fields[v]
            else:
                off += v * t.el.size
                t = t.el
        return off

    # ---- module level
    def _load(self, text):
        self.alias = {}
        lines = text.split('\n')
        i, n = 0, len(lines)
        gl = []
        while i < n:
            l = lines[i]
            if not l or l[0] in ';!$ ':
                i += 1
                continue
            if l[0] == '%':
                m = re.match(r'%("(?:[^"\\]|\\.)*"|[-\w.$]+) = type (.*)$', l)
                self.typedefs[m.group(1).strip('"')] = m.group(2)
            elif l[0] == '@':
                m = re.match(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+) = (.*)$', l)
                nm = m.group(1).strip('"')
                rest = m.group(2)
                if ' alias ' in ' ' + rest:
                    am = re.search(r'alias .*?, ptr @("(?:[^"\\]|\\.)*"|[-\w.$]+)', rest)
                    if am:
                        self.alias[nm] = am.group(1).strip('"')
                else:
                    gl.append((nm, rest))
            elif l.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self._define(l, lines[i + 1:j])
                i = j
            elif l.startswith('declare'):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', l)
                self.decls[m.group(1).strip('"')] = l
            i += 1
        for nm, rest in gl:
            self.globals[nm] = rest
        # resolve alias chains
        for a in list(self.alias):
            b = self.alias[a]
            while b in self.alias:
                b = self.alias[b]
            self.alias[a] = b

    def global_info(self, nm):
        """-> (Ty, init value or None, is_const)"""
        g = self.globals[nm]
        if isinstance(g, tuple):
            return g
        p = P(self, g)
        const = False
        external = False
        while True:
            x = p.peek()
            if x in LINKAGE:
                p.next()
                if x == 'constant':
                    const = True
                if x in ('external', 'extern_weak'):
                    external = True
                if x == 'thread_local' and p.peek() == '(':
                    p.skip_parens()
            elif x == 'addrspace':
                p.next(); p.skip_parens()
            else:
                break
        t = p.type()
        init = None
        if not external and p.peek() not in (None, ','):
            init = p.value(t)
        self.globals[nm] = (t, init, const)
        return self.globals[nm]

    def _define(self, head, body):
        m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', head)
        nm = m.group(1).strip('"')
        self.funcs[nm] = (head, m.start(), m.end() - 1, body)

    def func(self, nm):
        nm = self.alias.get(nm, nm)
        f = self.funcs.get(nm)
        if f is None:
            return None
        if isinstance(f, Func):
            return f
        head, s, e, body = f
        # return type
        p = P(self, head[len('define'):s])
        while p.peek() in LINKAGE or p.peek() in CCS or p.peek() == 'noundef':
            p.next()
        p.attrs()
        rt = p.type()
        p = P(self, head[e:])
        p.expect('(')
        params, bvs = [], []
        k = 0
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    params.append((None, '...')); bvs.append(None)
                else:
                    t = p.type()
                    bv = p.attrs()
                    x = p.peek()
                    if x and x[0] == '%':
                        r = Reg(p.next()[1:].strip('"'))
                    else:
                        r = Reg(str(k))
                    k += 1
                    params.append((t, r)); bvs.append(bv)
                if p.accept(')'):
                    break
                p.expect(',')
        fn = Func(self, nm, rt, params, bvs, body)
        self.funcs[nm] = fn
        return fn

    def _parse_body(self, f):
        lines = []
        for l in f.lines:
            s = l.strip()
            if not s or s[0] == ';':
                continue
            if lines and (lines[-1][1] or s.startswith(('to label', 'catch ', 'cleanup', 'filter '))):
                t, open_ = lines[-1]
                t = t + ' ' + s
                if open_ and s.startswith(']'):
                    open_ = False
                lines[-1] = (t, open_)
                continue
            if s.startswith('switch ') and ']' not in s:
                lines.append((s, True))
            elif l[0] not in ' \t' :
                lines.append((':' + s, False))
            else:
                lines.append((s, False))
        blocks = {}
        cur = None
        f.entry = None
        for s, _ in lines:
            if s[0] == ':':
                lbl = s[1:]
                k = lbl.find(':')
                if lbl[0] == '"':
                    k = lbl.index('":') + 1
                lbl = lbl[:k].strip('"')
                cur = blocks[lbl] = []
                if f.entry is None:
                    f.entry = lbl
                continue
            if cur is None:
                f.entry = '%entry'
                cur = blocks['%entry'] = []
            cur.append(self._instr(s))
        f.blocks = blocks
        f.lines = None

    def _instr(self, s):
        # strip metadata
        k = s.find(', !')
        if k >= 0 and '"' not in s[k:]:
            s = s[:k]
        p = P(self, s)
        res = None
        if p.peek()[0] == '%' and len(p.t) > 1 and p.t[1] == '=':
            res = Reg(p.next()[1:].strip('"'))
            p.next()
        try:
            I = self._instr2(p, res)
        except (ParseError, IndexError, KeyError) as e:
            I = Instr('unsupported', res, None, '%s: %s' % (s[:200], e))
        I.line = s
        return I

    def _label(self, p):
        p.expect('label')
        return p.next()[1:].strip('"')

    def _instr2(self, p, res):
        op = p.next()
        if op == 'load':
            p.accept('volatile')
            t = p.type(); p.expect(',')
            p.type(); a = p.value(PTR)
            return Instr('load', res, t, a)
        if op == 'store':
            p.accept('volatile')
            t = p.type(); v = p.value(t); p.expect(',')
            p.type(); a = p.value(PTR)
            return Instr('store', None, t, v, a)
        if op == 'alloca':
            t = p.type()
            n = 1
            if p.accept(','):
                if p.peek() != 'align':
                    it = p.type()
                    n = p.value(it)
            return Instr('alloca', res, t, n)
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            t = p.type(); p.expect(',')
            p.type(); base = p.value(PTR)
            idx = []
            while p.accept(','):
                it = p.type()
                idx.append((it.n, p.value(it)))
            # precompute constant part
            off = 0
            sym = []
            ct = t
            for k, (n, v) in enumerate(idx):
                if k == 0:
                    stride = ct.size
                elif ct.k == 's':
                    off += ct.offs[v]
                    ct = ct.fields[v]
                    continue
                else:
                    ct = ct.el
                    stride = ct.size
                if isinstance(v, int):
                    off += (v - (1 << n) if v >= 1 << (n - 1) else v) * stride
                else:
                    sym.append((n, v, stride))
            return Instr('gep', res, PTR, base, off, sym)
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        if op in ('call', 'invoke'):
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                p.next()
            while p.peek() in CCS:
                p.next()
            p.attrs()
            rt = p.type()
            if p.peek() == '(':
                p.skip_parens()
            x = p.peek()
            if x == 'asm':
                raise ParseError('inline asm')
            callee = p.value(PTR)
            p.expect('(')
            args = []
            if not p.accept(')'):
                while True:
                    t = p.type()
                    bv = p.attrs()
                    if t is META:
                        args.append((META, None, None))
                        # skip metadata operand
                        d = 0
                        while not (d == 0 and p.peek() in (',', ')')):
                            y = p.next()
                            if y == '(':
                                d += 1
                            elif y == ')':
                                d -= 1
                    else:
                        args.append((t, p.value(t), bv))
                    if p.accept(')'):
                        break
                    p.expect(',')
            n = u = None
            if op == 'invoke':
                while p.peek() != 'to':
                    p.next()
                p.next()
                n = self._label(p)
                p.expect('unwind')
                u = self._label(p)
            return Instr('call', res, rt, callee, args, n, u)
        if op == 'br':
            if p.peek() == 'label':
                return Instr('br', None, None, self._label(p))
            t = p.type(); c = p.value(t); p.expect(',')
            a = self._label(p); p.expect(',')
            b = self._label(p)
            return Instr('condbr', None, None, c, a, b)
        if op == 'ret':
            t = p.type()
            if t is VOID:
                return Instr('ret', None, t, None)
            return Instr('ret', None, t, p.value(t))
        if op == 'icmp':
            if p.peek() == 'samesign':
                p.next()
            pred = p.next()
            t = p.type(); a = p.value(t); p.expect(',')
            b = p.value(t)
            return Instr('icmp', res, t, a, b, pred)
        if op in BINOPS:
            fl = []
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
                fl.append(p.next())
            t = p.type(); a = p.value(t); p.expect(',')
            b = p.value(t)
            return Instr(op, res, t, a, b, flags=tuple(fl))
        if op in CASTS:
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            t = p.type(); a = p.value(t); p.expect('to')
            return Instr(op, res, p.type(), a, t)
        if op == 'phi':
            t = p.type()
            inc = {}
            while True:
                p.expect('[')
                v = p.value(t); p.expect(',')
                l = p.next()[1:].strip('"')
                p.expect(']')
                inc[l] = v
                if not p.accept(','):
                    break
            return Instr('phi', res, t, inc)
        if op == 'select':
            p.type(); c = p.value(IntTy(1)); p.expect(',')
            t = p.type(); a = p.value(t); p.expect(',')
            p.type(); b = p.value(t)
            return Instr('select', res, t, c, a, b)
        if op == 'switch':
            t = p.type(); v = p.value(t); p.expect(',')
            d = self._label(p)
            p.expect('[')
            cases = []
            while not p.accept(']'):
                ct = p.type(); cv = p.value(ct); p.expect(',')
                cases.append((cv, self._label(p)))
            return Instr('switch', None, t, v, d, cases)
        if op == 'extractvalue':
            t = p.type(); a = p.value(t)
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            return Instr(op, res, t, a, idx)
        if op == 'insertvalue':
            t = p.type(); a = p.value(t); p.expect(',')
            t2 = p.type(); b = p.value(t2)
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            return Instr(op, res, t, a, b, idx)
        if op == 'landingpad':
            t = p.type()
            clauses = []
            while p.peek() is not None:
                x = p.next()
                if x == 'cleanup':
                    clauses.append(('cleanup', None))
                elif x == 'catch':
                    p.type(); clauses.append(('catch', p.value(PTR)))
                elif x == 'filter':
                    ft = p.type(); clauses.append(('filter', p.value(ft)))
            return Instr(op, res, t, clauses)
        if op == 'resume':
            t = p.type()
            return Instr(op, None, t, p.value(t))
        if op == 'unreachable':
            return Instr(op)
        if op == 'freeze':
            t = p.type()
            return Instr(op, res, t, p.value(t))
        if op == 'fcmp':
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                p.next()
            pred = p.next()
            t = p.type(); a = p.value(t); p.expect(',')
            b = p.value(t)
            return Instr(op, res, t, a, b, pred)
        if op == 'fneg':
            t = p.type()
            return Instr(op, res, t, p.value(t))
        raise ParseError('instruction ' + op)


BINOPS = set('add sub mul udiv sdiv urem srem and or xor shl lshr ashr fadd fsub fmul fdiv frem'.split())
CASTS = set('trunc zext sext ptrtoint inttoptr bitcast fptosi fptoui sitofp uitofp fpext fptrunc'.split())
