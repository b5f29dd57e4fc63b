"""Parser for the textual LLVM IR (clang 18, opaque pointers) of one translation unit.

Functions are parsed lazily.  Anything not understood raises Unsupported, which the
driver reports as "undecided" (never as proved, never as a violation)."""
import re, struct
from fractions import Fraction


class Unsupported(Exception):
    pass


TOK = re.compile(r'''\s+|;[^\n]*|(c?"(?:[^"\\]|\\.)*")|([%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))|(!\w*)|(\#\d+)|(0x[KLMHR]?[0-9A-Fa-f]+)|(-?\d+\.\d+(?:e[+-]?\d+)?)|(-?\d+)|([a-zA-Z_][a-zA-Z0-9_.]*)|(\.\.\.)|(.)''')


def tokenize(s):
    out = []
    for m in TOK.finditer(s):
        if m.lastindex:
            out.append(m.group(0))
    return out


# ---- types -----------------------------------------------------------------
class Ty:
    __slots__ = ('k', 'n', 'el', 'name', 'packed', '_size', '_align', '_offs')

    def __init__(self, k, n=0, el=None, name=None, packed=False):
        self.k, self.n, self.el, self.name, self.packed = k, n, el, name, packed
        self._size = None

    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.n
        if self.k == 'fp': return 'f%d' % self.n
        if self.k in ('arr', 'vec'): return '[%d x %r]' % (self.n, self.el)
        if self.k == 'struct': return self.name or '{%s}' % ','.join(map(repr, self.el))
        return self.k


VOID, PTR, LABEL, META = Ty('void'), Ty('ptr'), Ty('label'), Ty('metadata')
_ints = {}


def INT(n):
    if n not in _ints: _ints[n] = Ty('int', n)
    return _ints[n]


F32, F64, F80 = Ty('fp', 32), Ty('fp', 64), Ty('fp', 80)


def layout(t):
    if t._size is not None:
        return
    if t.k == 'int':
        b = max(1, (t.n + 7) // 8)
        a = 1
        while a < b: a *= 2
        t._align = min(a, 16)
        t._size = (b + t._align - 1) // t._align * t._align
    elif t.k == 'fp':
        t._size = {32: 4, 64: 8, 80: 16}[t.n]; t._align = t._size
    elif t.k == 'ptr':
        t._size = t._align = 8
    elif t.k in ('arr', 'vec'):
        layout(t.el)
        t._size = t.n * t.el._size
        t._align = t.el._align
        if t.k == 'vec':
            a = 1
            while a < t._size: a *= 2
            t._align = a
    elif t.k == 'struct':
        if t.el is None: raise Unsupported('opaque type ' + str(t.name))
        off = 0; al = 1; t._offs = []
        for e in t.el:
            layout(e)
            ea = 1 if t.packed else e._align
            off = (off + ea - 1) // ea * ea
            t._offs.append(off)
            off += e._size
            al = max(al, ea)
        t._size = (off + al - 1) // al * al
        t._align = al
    else:
        raise Unsupported('size of ' + t.k)


def sizeof(t):
    layout(t); return t._size


# ---- operands --------------------------------------------------------------
# ('reg', name) ('int', v) ('fp', Fraction|'inf'|'-inf'|'nan') ('null',) ('undef',) ('poison',)
# ('zero',) ('glob', name) ('agg', [(ty, op)...]) ('str', bytes) ('cexpr', opcode, ...)


class Inst:
    __slots__ = ('op', 'dst', 'a', 'text')

    def __init__(self, op, dst, a, text):
        self.op, self.dst, self.a, self.text = op, dst, a, text


class Func:
    def __init__(self, name, ret, params, attrs):
        self.name, self.ret, self.params, self.attrs = name, ret, params, attrs
        self.lines = None
        self.blocks = None    # name -> [Inst]
        self.entry = None


PARAM_ATTRS_PAREN = {'sret', 'byval', 'align', 'dereferenceable', 'dereferenceable_or_null',
                     'elementtype', 'inalloca', 'preallocated', 'byref', 'range', 'memory', 'allocsize',
                     'initializes', 'captures', 'nofpclass', 'vscale_range', 'allockind'}
PARAM_ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone',
               'zeroext', 'signext', 'inreg', 'returned', 'immarg', 'nest', 'swiftself', 'writable',
               'dead_on_unwind', 'noext', 'nofree', 'allocptr'}
LINKAGE = {'private', 'internal', 'linkonce', 'linkonce_odr', 'weak', 'weak_odr', 'common', 'external',
           'available_externally', 'appending', 'extern_weak', 'dso_local', 'dso_preemptable', 'hidden',
           'protected', 'default', 'unnamed_addr', 'local_unnamed_addr', 'thread_local', 'fastcc', 'ccc',
           'constant', 'global', 'nounwind', 'tail', 'musttail', 'notail', 'externally_initialized', 'dllimport'}
FAST = {'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'}


class P:
    def __init__(self, mod, toks, text=''):
        self.m, self.t, self.i, self.text = mod, toks, 0, text

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]; self.i += 1; return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1; return True
        return False

    def need(self, x):
        if not self.eat(x):
            raise Unsupported('parse: expected %r at %r in %s' % (x, self.t[self.i:self.i + 6], self.text[:160]))

    def skip_parens(self):
        self.need('(')
        d = 1
        while d:
            x = self.next()
            if x == '(': d += 1
            elif x == ')': d -= 1

    def attrs(self):
        """skips parameter/return attributes; returns set of names (and sret/byval types)"""
        res = {}
        while True:
            p = self.peek()
            if p in PARAM_ATTRS_PAREN:
                self.next()
                if self.peek() == '(':
                    j = self.i + 1
                    if p in ('sret', 'byval'):
                        save = self.i; self.i = j
                        res[p] = self.type()
                        self.i = save
                    self.skip_parens()
                elif p == 'align':
                    self.next()
                res.setdefault(p, True)
            elif p in PARAM_ATTRS:
                self.next(); res[p] = True
            elif p is not None and p.startswith('"'):
                self.next()
                if self.eat('='): self.next()
            elif p is not None and p.startswith('#'):
                self.next()
            else:
                return res

    def type(self):
        x = self.next()
        if x == 'void': t = VOID
        elif x == 'ptr':
            t = PTR
            if self.peek() == 'addrspace': self.next(); self.skip_parens()
        elif x == 'float': t = F32
        elif x == 'double': t = F64
        elif x == 'x86_fp80': t = F80
        elif x == 'label': t = LABEL
        elif x == 'metadata': t = META
        elif x == 'token': t = META
        elif x[0] == 'i' and x[1:].isdigit(): t = INT(int(x[1:]))
        elif x == '[':
            n = int(self.next()); self.need('x'); e = self.type(); self.need(']')
            t = Ty('arr', n, e)
        elif x == '<':
            if self.peek() == '{':
                self.next(); t = self.struct_body(True); self.need('>')
            else:
                n = int(self.next()); self.need('x'); e = self.type(); self.need('>')
                t = Ty('vec', n, e)
        elif x == '{':
            t = self.struct_body(False)
        elif x[0] == '%':
            t = self.m.named(x)
        else:
            raise Unsupported('type %r in %s' % (x, self.text[:200]))
        if self.peek() == '(' and t is not None:
            # function type: ret (args)
            self.skip_parens()
            return t
        return t

    def struct_body(self, packed):
        els = []
        if not self.eat('}'):
            while True:
                els.append(self.type())
                if self.eat('}'): break
                self.need(',')
        return Ty('struct', el=els, packed=packed)

    def value(self, ty):
        x = self.next()
        if x[0] == '%': return ('reg', x)
        if x[0] == '@': return ('glob', x)
        if x == 'true': return ('int', 1)
        if x == 'false': return ('int', 0)
        if x == 'null': return ('null',)
        if x == 'none': return ('undef',)
        if x == 'undef': return ('undef',)
        if x == 'poison': return ('undef',)
        if x == 'zeroinitializer': return ('zero',)
        if x.startswith('c"'):
            return ('str', cstr(x[2:-1]))
        if x.startswith('0x'):
            return ('fp', fphex(x, ty))
        if re.fullmatch(r'-?\d+\.\d+(e[+-]?\d+)?', x):
            if ty.k == 'fp':
                v = float(x)
                if ty.n == 32:
                    v = struct.unpack('f', struct.pack('f', v))[0]
                return ('fp', Fraction(v))
        if re.fullmatch(r'-?\d+', x):
            if ty.k == 'fp': return ('fp', Fraction(int(x)))
            return ('int', int(x))
        if x in ('[', '{', '<'):
            packed = False
            if x == '<' and self.peek() == '{':
                self.next(); packed = True; x = '{'
            close = {'[': ']', '{': '}', '<': '>'}[x]
            els = []
            if not self.eat(close):
                while True:
                    t = self.type(); els.append((t, self.value(t)))
                    if self.eat(close): break
                    self.need(',')
            if packed: self.need('>')
            return ('agg', els)
        if x == 'getelementptr':
            self.eat('inbounds')
            if self.peek() == 'inrange': self.next(); self.skip_parens()
            self.need('(')
            bt = self.type(); self.need(',')
            ops = []
            while True:
                self.eat('inrange')
                t = self.type(); ops.append((t, self.value(t)))
                if self.eat(')'): break
                self.need(',')
            return ('gep', bt, ops)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.need('(')
            t = self.type(); v = self.value(t); self.need('to'); t2 = self.type(); self.need(')')
            return ('cast', x, t, v, t2)
        if x in ('sub', 'add', 'mul', 'xor', 'and', 'or', 'shl'):
            while self.peek() in ('nsw', 'nuw'): self.next()
            self.need('(')
            t = self.type(); a = self.value(t); self.need(','); t2 = self.type(); b = self.value(t2); self.need(')')
            return ('bin', x, t, a, b)
        if x == 'blockaddress': raise Unsupported('blockaddress')
        raise Unsupported('value %r in %s' % (x, self.text[:200]))

    def tv(self):
        t = self.type(); self.attrs()
        return t, self.value(t)


def cstr(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)


def fphex(x, ty):
    if x.startswith('0xK'):
        h = int(x[3:], 16); mant = h & ((1 << 64) - 1); se = h >> 64
        e = se & 0x7fff; s = -1 if se >> 15 else 1
        if mant == 0: return Fraction(0)
        return s * Fraction(mant) * Fraction(2) ** (e - 16383 - 63)
    d = struct.unpack('>d', struct.pack('>Q', int(x[2:], 16)))[0]
    if d != d: return 'nan'
    if d in (float('inf'), float('-inf')): return 'inf' if d > 0 else '-inf'
    return Fraction(d)


class Module:
    def __init__(self, text):
        self.types = {}
        self.typedefs = {}
        self.globals = {}
        self.funcs = {}
        self.aliases = {}
        self.attrs = {}
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith('define '):
                j = i + 1
                while lines[j] != '}': j += 1
                f = self.func_header(l)
                f.lines = lines[i + 1:j]
                self.funcs[f.name] = f
                i = j + 1
                continue
            if l.startswith('declare '):
                f = self.func_header(l)
                self.funcs.setdefault(f.name, f)
            elif l.startswith('%') and ' = type ' in l:
                n, b = l.split(' = type ', 1)
                self.typedefs[n] = b
            elif l.startswith('attributes '):
                n, b = l.split(' = ', 1)
                self.attrs[n.split()[1]] = b
            elif l.startswith('@'):
                self.global_line(l)
            i += 1

    def named(self, n):
        if n in self.types: return self.types[n]
        t = Ty('struct', name=n)
        self.types[n] = t
        b = self.typedefs.get(n)
        if b is None: raise Unsupported('unknown type ' + n)
        if b.startswith('opaque'): return t
        r = P(self, tokenize(b), b).type()
        t.el, t.packed = r.el, r.packed
        return t

    def func_header(self, l):
        p = P(self, tokenize(l), l)
        p.next()
        while p.peek() in LINKAGE or p.peek() in ('noundef',): p.next()
        p.attrs()
        ret = p.type()
        p.attrs()
        name = p.next()
        p.need('(')
        params = []; k = 0
        if not p.eat(')'):
            while True:
                if p.eat('...'):
                    params.append((None, '...', {}))
                else:
                    t = p.type(); a = p.attrs()
                    n = p.next() if p.peek() and p.peek()[0] == '%' else '%%%d' % k
                    params.append((t, n, a)); k += 1
                if p.eat(')'): break
                p.need(',')
        rest = [x for x in p.t[p.i:]]
        return Func(name, ret, params, rest)

    def global_line(self, l):
        p = P(self, tokenize(l), l)
        name = p.next(); p.need('=')
        const = False; ext = False; tls = False
        while True:
            x = p.peek()
            if x == 'alias':
                p.next(); p.type(); p.need(','); t, v = p.tv()
                self.aliases[name] = v
                return
            if x in LINKAGE:
                if x == 'constant': const = True
                if x in ('external', 'extern_weak'): ext = True
                p.next()
                if x == 'thread_local':
                    tls = True
                    if p.peek() == '(': p.skip_parens()
                if x in ('constant', 'global'): break
            else:
                raise Unsupported('global ' + l[:100])
        try:
            t = p.type()
            init = None
            if not ext:
                init = p.value(t)
        except Unsupported as e:
            self.globals[name] = ('bad', str(e)); return
        self.globals[name] = (t, init, const, ext)

    def body(self, f):
        if f.blocks is not None: return f
        if f.lines is None: return None
        blocks = {}; cur = None
        # join continuation lines
        joined = []
        insw = False
        for l in f.lines:
            if not l.strip(): continue
            if insw:
                joined[-1] += ' ' + l.strip()
                if l.strip().startswith(']'): insw = False
                continue
            if l.startswith('   '):
                joined[-1] += ' ' + l.strip(); continue
            joined.append(l)
            if l.lstrip().startswith('switch ') and l.rstrip().endswith('['): insw = True
        nparams = sum(1 for t, n, a in f.params if t is not None)
        for l in joined:
            if not l.startswith(' '):
                n = l.split(':', 1)[0]
                if n.startswith('"'): n = '%' + n
                else: n = '%' + n
                cur = []; blocks[n] = cur
                if f.entry is None: f.entry = n
                continue
            if cur is None:
                n = '%%%d' % nparams
                cur = []; blocks[n] = cur; f.entry = n
            cur.append(self.inst(l))
        f.blocks = blocks
        return f

    def inst(self, l):
        p = P(self, tokenize(l), l)
        dst = None
        if p.peek()[0] == '%' and p.peek(1) == '=':
            dst = p.next(); p.next()
        op = p.next()
        while op in ('tail', 'musttail', 'notail'): op = p.next()
        a = None
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            fl = set()
            while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint'): fl.add(p.next())
            t = p.type(); x = p.value(t); p.need(','); y = p.value(t)
            a = (t, x, y, fl)
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            while p.peek() in FAST: p.next()
            t = p.type(); x = p.value(t); p.need(','); y = p.value(t)
            a = (t, x, y)
        elif op == 'fneg':
            while p.peek() in FAST: p.next()
            t = p.type(); a = (t, p.value(t))
        elif op in ('icmp', 'fcmp'):
            while p.peek() in FAST: p.next()
            pr = p.next(); t = p.type(); x = p.value(t); p.need(','); y = p.value(t)
            a = (pr, t, x, y)
        elif op == 'alloca':
            p.eat('inalloca')
            t = p.type(); n = (INT(32), ('int', 1))
            if p.eat(','):
                if p.peek() != 'align' and p.peek() != 'addrspace': n = p.tv()
            a = (t, n)
        elif op == 'load':
            p.eat('atomic'); p.eat('volatile')
            t = p.type(); p.need(','); pt, x = p.tv(); a = (t, x)
        elif op == 'store':
            p.eat('atomic'); p.eat('volatile')
            t, v = p.tv(); p.need(','); pt, x = p.tv(); a = (t, v, x)
        elif op == 'getelementptr':
            inb = False
            while p.peek() in ('inbounds', 'nuw', 'nusw'): inb = True; p.next()
            bt = p.type(); p.need(','); ops = [p.tv()]
            while p.eat(','):
                if p.peek().startswith('!'): break
                ops.append(p.tv())
            a = (bt, ops, inb)
        elif op == 'br':
            if p.eat('label'): a = (None, p.next())
            else:
                t = p.type(); c = p.value(t); p.need(','); p.need('label'); x = p.next(); p.need(','); p.need('label')
                a = (c, x, p.next())
        elif op == 'switch':
            t, v = p.tv(); p.need(','); p.need('label'); d = p.next(); p.need('[')
            cs = []
            while not p.eat(']'):
                ct = p.type(); cv = p.value(ct); p.need(','); p.need('label'); cs.append((cv[1], p.next()))
            a = (t, v, d, cs)
        elif op == 'ret':
            t = p.type(); a = (t, None if t is VOID else p.value(t))
        elif op in ('call', 'invoke'):
            while p.peek() in FAST or p.peek() in LINKAGE: p.next()
            p.attrs()
            rt = p.type(); p.attrs()
            if p.peek() == '(' :   # vararg function type already skipped by type()
                p.skip_parens()
            if p.peek() == 'asm': raise Unsupported('inline asm')
            callee = p.value(PTR)
            p.need('('); args = []
            if not p.eat(')'):
                while True:
                    t = p.type(); at = p.attrs()
                    if t is META:
                        args.append((t, ('undef',), {}))
                        while p.peek() not in (',', ')'): p.next()
                    else:
                        args.append((t, p.value(t), at))
                    if p.eat(')'): break
                    p.need(',')
            p.attrs()
            n = u = None
            attrs = set()
            if op == 'invoke':
                while p.peek() != 'to': p.next()
                p.next(); p.need('label'); n = p.next(); p.need('unwind'); p.need('label'); u = p.next()
            a = (rt, callee, args, n, u)
        elif op == 'landingpad':
            t = p.type(); cl = False; cs = []
            while p.peek() is not None:
                if p.eat('cleanup'): cl = True
                elif p.eat('catch'): cs.append(('catch', p.tv()))
                elif p.eat('filter'): cs.append(('filter', p.tv()))
                else: break
            a = (t, cl, cs)
        elif op == 'resume':
            a = p.tv()
        elif op == 'unreachable':
            a = ()
        elif op == 'phi':
            while p.peek() in FAST: p.next()
            t = p.type(); inc = {}
            while True:
                p.need('['); v = p.value(t); p.need(','); b = p.next(); p.need(']')
                inc[b] = v
                if not p.eat(','): break
                if p.peek() != '[': break
            a = (t, inc)
        elif op == 'select':
            while p.peek() in FAST: p.next()
            ct, c = p.tv(); p.need(','); t, x = p.tv(); p.need(','); t2, y = p.tv()
            a = (ct, c, t, x, y)
        elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fptrunc', 'fpext',
                    'sitofp', 'uitofp', 'fptosi', 'fptoui', 'addrspacecast'):
            while p.peek() in ('nneg', 'nuw', 'nsw'): p.next()
            t = p.type(); v = p.value(t); p.need('to'); a = (t, v, p.type())
        elif op == 'extractvalue':
            t, v = p.tv(); idx = []
            while p.eat(','):
                if p.peek().startswith('!'): break
                idx.append(int(p.next()))
            a = (t, v, idx)
        elif op == 'insertvalue':
            t, v = p.tv(); p.need(','); t2, w = p.tv(); idx = []
            while p.eat(','):
                if p.peek().startswith('!'): break
                idx.append(int(p.next()))
            a = (t, v, t2, w, idx)
        elif op == 'extractelement':
            t, v = p.tv(); p.need(','); t2, i = p.tv(); a = (t, v, t2, i)
        elif op == 'insertelement':
            t, v = p.tv(); p.need(','); t2, w = p.tv(); p.need(','); t3, i = p.tv(); a = (t, v, t2, w, t3, i)
        elif op == 'shufflevector':
            t, v = p.tv(); p.need(','); t2, w = p.tv(); p.need(','); t3, m = p.tv(); a = (t, v, t2, w, t3, m)
        elif op == 'freeze':
            t, v = p.tv(); a = (t, v)
        elif op == 'atomicrmw':
            p.eat('volatile'); k = p.next(); pt, x = p.tv(); p.need(','); t, v = p.tv(); a = (k, x, t, v)
        elif op == 'fence':
            a = ()
        elif op == 'va_arg' or op == 'cmpxchg' or op == 'indirectbr':
            a = None
        else:
            raise Unsupported('instruction ' + l.strip()[:120])
        return Inst(op, dst, a, l)
