"""Symbolic executor over LLVM IR: generates verification conditions for one harness."""
import struct, sys, time
from fractions import Fraction
from .ir import *
from .terms import *
from . import terms as T
from . import solve


class PathEnd(Exception):
    pass


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off=0):
        self.o, self.off = o, off

    def __eq__(self, x): return isinstance(x, Ptr) and self.o == x.o and self.off == x.off
    def __hash__(self): return hash((self.o, self.off))
    def __repr__(self): return 'Ptr(%r,%r)' % (self.o, self.off)


NULL = Ptr(0, 0)


class Obj:
    __slots__ = ('size', 'cells', 'alive', 'kind', 'owner', 'name', 'arr', 'log')

    def __init__(self, size, kind, owner, name=''):
        self.size, self.kind, self.owner, self.name = size, kind, owner, name
        self.cells = {}          # off -> (size, kind, value)
        self.alive = True
        self.arr = None          # symbolic byte array: name
        self.log = ()            # writes to it, oldest first

    def clone(self, owner):
        o = Obj(self.size, self.kind, owner, self.name)
        o.cells = dict(self.cells); o.alive = self.alive; o.arr = self.arr; o.log = self.log
        return o


class Frame:
    __slots__ = ('f', 'block', 'idx', 'regs', 'prev', 'allocas', 'ret', 'varargs', 'data', 'loops', 'visits')

    def __init__(self, f):
        self.f = f; self.block = f.entry; self.idx = 0; self.regs = {}; self.prev = None
        self.allocas = []; self.ret = None   # (inst of the caller)
        self.data = None
        self.visits = None       # block -> number of visits, with a limit for them only
        self.loops = None        # header -> state after its invariant was assumed

    def copy(self):
        n = Frame.__new__(Frame)
        n.f, n.block, n.idx, n.regs, n.prev = self.f, self.block, self.idx, dict(self.regs), self.prev
        n.allocas = list(self.allocas); n.ret = self.ret; n.data = self.data; n.loops = dict(self.loops) if self.loops else None
        n.visits = dict(self.visits) if self.visits else None
        return n


class State:
    nid = 0

    def __init__(self):
        State.nid += 1
        self.id = State.nid
        self.frames = []
        self.mem = {}
        self.pc = []
        self.facts = set()
        self.conc = {}
        self.next = 1
        self.exc = None
        self.uncaught = 0
        self.caught = []
        self.picks = []
        self.names = {}
        self.order = []
        self.reach = []
        self.ghost = {}
        self.steps = 0
        self.decs = {}
        self.wlog = None         # cells written while an invariant is established

    def fork(self):
        n = State.__new__(State)
        State.nid += 1
        n.id = State.nid
        State.nid += 1
        self.id = State.nid      # both must copy objects on write
        n.frames = [f.copy() for f in self.frames]
        n.mem = dict(self.mem); n.pc = list(self.pc); n.facts = set(self.facts); n.conc = dict(self.conc)
        n.next = self.next; n.exc = self.exc; n.uncaught = self.uncaught; n.caught = list(self.caught)
        n.picks = list(self.picks); n.names = dict(self.names); n.order = list(self.order)
        n.reach = list(self.reach); n.ghost = dict(self.ghost); n.steps = self.steps; n.decs = self.decs
        n.wlog = set(self.wlog) if self.wlog is not None else None
        return n

    def add_fact(self, c):
        if c is True: return
        if c is False: raise PathEnd()
        if c.op == 'and':
            for x in c.args: self.add_fact(x)
            return
        if c.id in self.facts: return
        self.facts.add(c.id)
        self.pc.append(c)


class VC:
    __slots__ = ('label', 'pc', 'goal', 'picks', 'kind', 'where', 'order', 'result')

    def __init__(self, label, pc, goal, picks, kind, where, order):
        self.label, self.pc, self.goal, self.picks, self.kind, self.where, self.order = label, pc, goal, picks, kind, where, order
        self.result = None


STD_EXC_BASE = {
    '@_ZTISt9exception': [], '@_ZTISt11logic_error': ['@_ZTISt9exception'],
    '@_ZTISt13runtime_error': ['@_ZTISt9exception'], '@_ZTISt12out_of_range': ['@_ZTISt11logic_error'],
    '@_ZTISt16invalid_argument': ['@_ZTISt11logic_error'], '@_ZTISt12length_error': ['@_ZTISt11logic_error'],
    '@_ZTISt12domain_error': ['@_ZTISt11logic_error'], '@_ZTISt11range_error': ['@_ZTISt13runtime_error'],
    '@_ZTISt14overflow_error': ['@_ZTISt13runtime_error'], '@_ZTISt9bad_alloc': ['@_ZTISt9exception'],
    '@_ZTISt8bad_cast': ['@_ZTISt9exception'], '@_ZTISt17bad_function_call': ['@_ZTISt9exception'],
    '@_ZTISt20bad_array_new_length': ['@_ZTISt9bad_alloc'],
}


class Exec:
    def __init__(self, mod, maxsteps=400000, maxpaths=20000, check_overflow=False, feas_ms=300):
        self.m = mod
        self.maxsteps, self.maxpaths = maxsteps, maxpaths
        self.check_overflow = check_overflow
        self.feas_ms = feas_ms
        self.vcs = []
        self.work = []
        self.paths = 0
        self.reached = set()
        self.typeids = {}
        self.trivial = 0
        self.calls = {}
        self.models = set()
        self.feas_cache = {}
        self.total_steps = 0
        self.unroll = 0          # number of iterations of a loop without a contract, 0 for any
        self.instrs = {}
        self.loop_inv = []       # (function pattern, ordinal or None, spec function, names)
        self.headers = {}; self.marked = {}
        self.tolerate_div0 = False
        self.pure = []
        self.contracts = []
        self.noround = False
        self.deadline = None

    # ------------------------------------------------------------ obligations
    def where(self, st):
        if not st.frames: return ''
        fr = st.frames[-1]
        names = [f.f.name for f in st.frames[-3:]]
        return ' < '.join(reversed(names))

    def require(self, st, cond, label, kind='implicit'):
        """obligation: cond holds on this path; afterwards assumed"""
        if cond is True:
            if kind == 'ensure': self.record(st, True, label, kind)
            else: self.trivial += 1
            return
        if cond is not False and cond.id in st.facts:
            if kind == 'ensure': self.record(st, True, label, kind)
            else: self.trivial += 1
            return
        self.record(st, cond, label, kind)
        st.add_fact(cond)

    def record(self, st, cond, label, kind):
        self.vcs.append(VC(label, tuple(st.pc), cond, tuple(st.picks), kind, self.where(st), tuple(st.order)))

    def fail(self, st, label):
        self.record(st, False, label, 'implicit')
        raise PathEnd()

    # ------------------------------------------------------------ decisions
    def decide(self, st, c):
        """forks when undecided; the executing instruction is restarted in the other branch"""
        if c is True or c is False: return c
        v = self.known(st, c)
        if v is not None: return v
        n = bnot(c)
        can_t = self.feas(st, c)
        can_f = self.feas(st, n)
        if not can_t and not can_f: raise PathEnd()
        if not can_t:
            st.add_fact(n); return False
        if not can_f:
            st.add_fact(c); return True
        o = st.fork()
        o.add_fact(n)
        self.push(o)
        st.add_fact(c)
        return True

    def push(self, st):
        self.work.append(st)
        self.paths += 1
        if self.paths > self.maxpaths: raise Unsupported('too many paths (%d)' % self.maxpaths)

    def known(self, st, c):
        if c is True or c is False: return c
        if c.id in st.facts: return True
        n = bnot(c)
        if n is True or n is False: return not n
        if n.id in st.facts: return False
        if c.op == 'and':
            r = True
            for x in c.args:
                k = self.known(st, x)
                if k is False: return False
                if k is None: r = None
            return r
        if c.op == 'or':
            r = False
            for x in c.args:
                k = self.known(st, x)
                if k is True: return True
                if k is None: r = None
            return r
        if c.op == 'not':
            k = self.known(st, c.args[0])
            return None if k is None else not k
        if c.op == 'xor':
            a, b = self.known(st, c.args[0]), self.known(st, c.args[1])
            if a is not None and b is not None: return a != b
            return None
        # real sign relations
        if c.op in ('req', 'rlt', 'rle'):
            p = c.args[0]
            F = st.facts
            def has(b): return b is True or (b is not False and b.id in F)
            if c.op == 'req':
                if has(rlt0(p)) or has(rlt0(rneg(p))): return False
                if has(rle0(p)) and has(rle0(rneg(p))): return True
            elif c.op == 'rlt':
                if has(rlt0(rneg(p))): return False
                if has(req0(p)): return False
            elif c.op == 'rle':
                if has(rlt0(p)): return True
                if has(req0(p)): return True
        return None

    def feas(self, st, c):
        key = (frozenset(st.facts), c.id)
        r = self.feas_cache.get(key)
        if r is None:
            rel = solve.relevant(st.pc, c)
            k2 = (frozenset(x.id for x in rel), c.id)
            r = self.feas_cache.get(k2)
            if r is None:
                r = solve.feasible(rel + [c], self.feas_ms)
                self.feas_cache[k2] = r
            self.feas_cache[key] = r
        return r

    def concretize(self, st, p, cands, w=64):
        if isinstance(p, int): return p
        if p in st.conc: return st.conc[p]
        for k in cands:
            if self.decide(st, veq(w, p, k & mask(w))):
                st.conc[p] = k
                return k
        raise PathEnd()

    # ------------------------------------------------------------ memory
    def new_obj(self, st, size, kind, name=''):
        k = st.next; st.next += 1
        st.mem[k] = Obj(size, kind, st.id, name)
        return Ptr(k, 0)

    def wobj(self, st, k):
        o = st.mem[k]
        if o.owner != st.id:
            o = o.clone(st.id); st.mem[k] = o
        return o

    def global_obj(self, st, g):
        while g in self.m.aliases:
            v = self.m.aliases[g]
            if v[0] != 'glob': raise Unsupported('alias')
            g = v[1]
        if g in self.m.funcs: return Ptr(g, 0)
        if g not in st.mem:
            e = self.m.globals.get(g)
            if e is None: raise Unsupported('global ' + g)
            if e[0] == 'bad': raise Unsupported(e[1])
            t, init, const, ext = e
            if g == '@__libc_single_threaded':
                o = Obj(1, 'global', st.id, g); o.cells[0] = (1, 'i', 1); st.mem[g] = o
                return Ptr(g, 0)
            o = Obj(sizeof(t) if not ext else None, 'const' if const else 'global', st.id, g)
            st.mem[g] = o
            if init is not None:
                o.kind = 'global'
                self.init_cells(st, o, 0, t, init)
                o.kind = 'const' if const else 'global'
        return Ptr(g, 0)

    def init_cells(self, st, o, off, t, v):
        if v[0] == 'zero':
            n = sizeof(t); p = off
            while p < off + n:
                s = 8 if p % 8 == 0 and p + 8 <= off + n else 1
                o.cells[p] = (s, 'i', 0); p += s
            return
        if v[0] == 'undef': return
        if v[0] == 'str':
            for i, b in enumerate(v[1]): o.cells[off + i] = (1, 'i', b)
            return
        if v[0] == 'agg':
            layout(t)
            for i, (et, ev) in enumerate(v[1]):
                eo = t._offs[i] if t.k == 'struct' else i * sizeof(t.el)
                self.init_cells(st, o, off + eo, et, ev)
            return
        self.put(st, o, off, t, self.const(st, t, v))

    def access(self, st, p, n, what):
        """checks an access of n bytes; returns (obj key, concrete offset or Poly)"""
        if not isinstance(p, Ptr): raise Unsupported('access through %r' % (p,))
        if p.o == 0: self.fail(st, 'null pointer ' + what)
        if p.o == 'undef': self.fail(st, 'uninitialised pointer ' + what)
        o = st.mem.get(p.o)
        if o is None:
            if isinstance(p.o, str): raise Unsupported('access to ' + p.o)
            raise Unsupported('access to unknown object')
        if not o.alive: self.fail(st, '%s after %s (%s)' % (what, 'free' if o.kind == 'heap' else 'end of lifetime', o.name))
        if o.size is None: raise Unsupported('access to external ' + o.name)
        off = p.off
        if isinstance(off, int) and isinstance(o.size, int) and isinstance(n, int):
            if off + n > o.size: self.fail(st, 'out of bounds ' + what + ' (%s)' % o.name)
            return p.o, off
        nn = n
        # off + n <= size without overflow
        c = band(bnot(vult(64, o.size, nn)), bnot(vult(64, vsub(64, o.size, nn), off)))
        self.require(st, c, 'out of bounds ' + what)
        if o.arr is None:
            step = 1
            if isinstance(off, Poly) and isinstance(n, int):
                # multiples of the access size first
                step = n if all(cf % n == 0 for mm, cf in off.t.items()) else 1
            off = self.concretize(st, off, range(0, o.size - (n if isinstance(n, int) else 0) + 1, step))
        return p.o, off

    def load(self, st, p, t):
        if t.k in ('arr', 'vec'):
            n = sizeof(t.el)
            return tuple(self.load(st, self.padd(p, i * n), t.el) for i in range(t.n))
        if t.k == 'struct':
            layout(t)
            return tuple(self.load(st, self.padd(p, t._offs[i]), e) for i, e in enumerate(t.el))
        n = sizeof(t) if t.k != 'int' else (t.n + 7) // 8
        k, off = self.access(st, p, n, 'read')
        o = st.mem[k]
        if o.arr is not None: return self.sym_load(st, o, off, t, n)
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return self.conv_cell(c[1], c[2], n, t)
        # assemble from bytes
        pieces = []
        i = 0
        while i < n:
            c = o.cells.get(off + i)
            if c is not None and c[0] <= n - i:
                pieces.append((self.int_view(c), c[0] * 8)); i += c[0]; continue
            cov = self.covering(o, off + i)
            if cov is not None:
                s, c = cov
                k = min(n - i, s + c[0] - (off + i))
                pieces.append((vextract(self.int_view(c), c[0] * 8, (off + i - s) * 8, k * 8), k * 8)); i += k; continue
            b = self.byte(o, off + i)
            if b is None:
                # uninitialised: any value
                if all(self.byte(o, off + j) is None for j in range(n)):
                    return self.fresh(st, t, 'undef')
                b = self.fresh(st, INT(8), 'undef')
            pieces.append((b, 8)); i += 1
        v, w = vconcat(pieces)
        return self.conv_cell('i', v, n, t)

    def byte(self, o, off):
        for s in range(off, off - 17, -1):
            c = o.cells.get(s)
            if c is not None:
                if s + c[0] <= off: return None
                return vextract(self.int_view(c), c[0] * 8, (off - s) * 8, 8)
        return None

    def covering(self, o, off):
        for s in range(off, off - 17, -1):
            c = o.cells.get(s)
            if c is not None: return (s, c) if s + c[0] > off else None
        return None

    def int_view(self, c):
        n, k, v = c
        if k == 'i': return v
        if k == 'p': return self.p2i(v)
        if isinstance(v, Fraction):
            f = float(v)
            if Fraction(f) == v:
                try: return int.from_bytes(struct.pack('<f' if n == 4 else '<d', f), 'little')
                except OverflowError: pass
        if n > 8: raise Unsupported('x87 bits')
        a = single_atom(v)
        if a is not None and a.op == 'bitsf' and a.args[1] == n: return a.args[0]   # moving a float keeps its bits
        return vatom('fbits', (v, n), n * 8)

    def p2i(self, p):
        if p.o == 0: return p.off
        return vadd(64, vatom('base', (p.o,), 64), p.off)

    def i2p(self, v):
        if isinstance(v, int): return Ptr(0, v)
        base = None
        for m, c in v.t.items():
            for a, e in m:
                if Atom.byid[a].op == 'base':
                    if c != 1 or len(m) != 1 or e != 1 or base is not None: raise Unsupported('inttoptr')
                    base = Atom.byid[a]
        if base is None: raise Unsupported('inttoptr of %r' % (v,))
        return Ptr(base.args[0], vsub(64, v, patom(base)))

    def conv_cell(self, k, v, n, t):
        if t.k == 'int':
            if k != 'i': v = self.int_view((n, k, v))
            if t.n == 1:
                return i2b(vtrunc(v, n * 8, 1)) if not isinstance(v, int) else bool(v & 1)
            if t.n < n * 8: v = vtrunc(v, n * 8, t.n)
            return v
        if t.k == 'ptr':
            if k == 'p': return v
            if k == 'f': raise Unsupported('float read as pointer')
            return self.i2p(v)
        if t.k == 'fp':
            if k == 'f': return v
            if k == 'p': raise Unsupported('pointer read as float')
            if isinstance(v, int):
                if n > 8:
                    if v == 0: return Fraction(0)
                    raise Unsupported('x87 bits')
                f = struct.unpack('<f' if n == 4 else '<d', v.to_bytes(n, 'little'))[0]
                if f != f: return 'nan'
                if f in (float('inf'), float('-inf')): return 'inf' if f > 0 else '-inf'
                return Fraction(f)
            a = single_atom(v)
            if a is not None and a.op == 'fbits': return a.args[0]
            return patom(atom('bitsf', (v, n), 'real'))
        raise Unsupported('load of %r' % t)

    def fresh(self, st, t, name):
        k = st.ghost.get('fresh', 0); st.ghost['fresh'] = k + 1
        nm = '%s#%d' % (name, k)
        if t.k == 'int':
            if t.n == 1: return bvar(nm)
            return vatom('fresh', (nm,), t.n)
        if t.k == 'fp': return patom(atom('fresh', (nm,), 'real'))
        if t.k == 'ptr': return Ptr('undef', 0)
        raise Unsupported('fresh ' + repr(t))

    def padd(self, p, d):
        if d == 0: return p
        return Ptr(p.o, vadd(64, p.off, d))

    def clear(self, o, off, n):
        """removes cells overlapping [off, off+n), keeping the bytes outside"""
        for s in range(off - 16, off + n):
            c = o.cells.get(s)
            if c is None or s + c[0] <= off: continue
            if s < off or s + c[0] > off + n:
                v = self.int_view(c)
                del o.cells[s]
                if s < off: o.cells[s] = (off - s, 'i', vextract(v, c[0] * 8, 0, (off - s) * 8))
                e = off + n
                if s + c[0] > e: o.cells[e] = (s + c[0] - e, 'i', vextract(v, c[0] * 8, (e - s) * 8, (s + c[0] - e) * 8))
            else:
                del o.cells[s]

    def put(self, st, o, off, t, v):
        if t.k in ('arr', 'vec'):
            for i in range(t.n): self.put(st, o, off + i * sizeof(t.el), t.el, v[i])
            return
        if t.k == 'struct':
            layout(t)
            for i, e in enumerate(t.el): self.put(st, o, off + t._offs[i], e, v[i])
            return
        if t.k == 'int':
            n = (t.n + 7) // 8
            k = 'i'
            if t.n == 1: v = b2i(v, 8) if not isinstance(v, bool) else int(v)
            elif t.n % 8: v = vzext(v, t.n, n * 8)
        elif t.k == 'ptr': n, k = 8, 'p'
        elif t.k == 'fp': n, k = sizeof(t), 'f'
        else: raise Unsupported('store of %r' % t)
        c = o.cells.get(off)
        if c is None or c[0] != n: self.clear(o, off, n)
        o.cells[off] = (n, k, v)

    def store(self, st, p, t, v):
        n = sizeof(t) if t.k != 'int' else (t.n + 7) // 8
        k, off = self.access(st, p, n, 'write')
        if st.mem[k].kind == 'const': self.fail(st, 'write to constant ' + str(k))
        o = self.wobj(st, k)
        if st.wlog is not None: self.note_write(st, k, off, n)
        if o.arr is not None: return self.sym_store(st, o, off, t, v, n)
        self.put(st, o, off, t, v)

    # symbolic byte arrays
    def sym_byte(self, st, o, off):
        for e in reversed(o.log):
            if e[0] == 'w':
                if self.decide(st, veq(64, off, e[1])): return e[2]
            elif e[0] == 'f':
                if self.decide(st, vult(64, vsub(64, off, e[1]), e[3])): return e[2]
            else:
                _, d, src, s, n = e
                rel = vsub(64, off, d)
                if self.decide(st, vult(64, rel, n)):
                    return self.sym_byte(st, src, vadd(64, rel, s))
        if o.arr is None:
            # snapshot of a concrete object
            off = self.concretize(st, off, range(0, o.size))
            b = self.byte(o, off)
            if b is None: raise Unsupported('uninitialised byte copied')
            return b
        return vatom('sel', (o.arr, off), 8)

    def sym_load(self, st, o, off, t, n):
        v, w = vconcat([(self.sym_byte(st, o, vadd(64, off, i)), 8) for i in range(n)])
        return self.conv_cell('i', v, n, t)

    def sym_store(self, st, o, off, t, v, n):
        if t.k == 'int': iv = vzext(v, t.n, n * 8) if t.n % 8 else v
        elif t.k == 'ptr': iv = self.p2i(v)
        elif t.k == 'fp': iv = self.int_view((n, 'f', v))
        else: raise Unsupported('sym store')
        o.log = o.log + tuple(('w', vadd(64, off, i), vextract(iv, n * 8, i * 8, 8)) for i in range(n))

    def memcpy(self, st, d, s, n):
        if n == 0: return
        if isinstance(n, int):
            ks, so = self.access(st, s, n, 'read')
            kd, do = self.access(st, d, n, 'write')
        else:
            if self.decide(st, veq(64, n, 0)): return
            ks, so = self.access(st, s, n, 'read') if st.mem.get(s.o) and st.mem[s.o].arr is not None else (None, None)
            kd, do = self.access(st, d, n, 'write') if st.mem.get(d.o) and st.mem[d.o].arr is not None else (None, None)
            if ks is None or kd is None:
                # one side has a concrete size: enumerate the length
                lim = [st.mem[x.o].size for x in (s, d) if x.o in st.mem and isinstance(st.mem[x.o].size, int)]
                if not lim: raise Unsupported('memcpy')
                big = bnot(vult(64, min(lim), n))
                self.require(st, big, 'out of bounds copy')
                n = self.concretize(st, n, range(0, min(lim) + 1))
                return self.memcpy(st, d, s, n)
        src = st.mem[ks]
        if st.mem[kd].kind == 'const': self.fail(st, 'write to constant')
        if st.wlog is not None: self.note_write(st, kd, do, n)
        if src.arr is not None or st.mem[kd].arr is not None:
            if st.mem[kd].arr is not None:
                snap = src.clone(-1)
                o = self.wobj(st, kd)
                o.log = o.log + (('c', do, snap, so, n),)
                return
            bs = [self.sym_byte(st, src, vadd(64, so, i)) for i in range(n)]
            o = self.wobj(st, kd)
            self.clear(o, do, n)
            for i, b in enumerate(bs): o.cells[do + i] = (1, 'i', b)
            return
        got = {}
        for x in range(so - 16, so + n):
            c = src.cells.get(x)
            if c is None or x + c[0] <= so: continue
            if x >= so and x + c[0] <= so + n: got[x - so] = c
            else:
                v = self.int_view(c)
                lo, hi = max(x, so), min(x + c[0], so + n)
                got[lo - so] = (hi - lo, 'i', vextract(v, c[0] * 8, (lo - x) * 8, (hi - lo) * 8))
        o = self.wobj(st, kd)
        self.clear(o, do, n)
        for x, c in got.items(): o.cells[do + x] = c

    def memset(self, st, d, v, n):
        if n == 0: return
        if not isinstance(n, int) and self.decide(st, veq(64, n, 0)): return
        k, off = self.access(st, d, n, 'write')
        o = self.wobj(st, k)
        if st.wlog is not None: self.note_write(st, k, off, n)
        if o.arr is not None:
            o.log = o.log + (('f', off, v, n),)
            return
        if not isinstance(n, int): raise Unsupported('memset of symbolic length')
        self.clear(o, off, n)
        x = off
        while x < off + n:
            if isinstance(v, int) and x % 8 == 0 and x + 8 <= off + n:
                o.cells[x] = (8, 'i', v * 0x0101010101010101); x += 8
            else:
                o.cells[x] = (1, 'i', v); x += 1

    def cstring(self, st, p):
        out = bytearray()
        while True:
            b = self.load(st, p, INT(8))
            if not isinstance(b, int): raise Unsupported('symbolic label')
            if b == 0: return out.decode('latin1')
            out.append(b); p = self.padd(p, 1)

    # ------------------------------------------------------------ operands
    def const(self, st, t, v):
        k = v[0]
        if k == 'int':
            if t.k == 'int' and t.n == 1: return bool(v[1] & 1)
            if t.k == 'int': return v[1] & mask(t.n)
            raise Unsupported('int const of %r' % t)
        if k == 'fp': return v[1]
        if k == 'null': return NULL
        if k == 'undef':
            if t.k in ('struct',): return tuple(self.const(st, e, v) for e in t.el)
            if t.k in ('arr', 'vec'): return tuple(self.const(st, t.el, v) for _ in range(t.n))
            return self.fresh(st, t, 'undef')
        if k == 'zero':
            if t.k == 'struct': return tuple(self.const(st, e, v) for e in t.el)
            if t.k in ('arr', 'vec'): return tuple(self.const(st, t.el, v) for _ in range(t.n))
            if t.k == 'int': return False if t.n == 1 else 0
            if t.k == 'fp': return Fraction(0)
            return NULL
        if k == 'glob': return self.global_obj(st, v[1])
        if k == 'agg': return tuple(self.const(st, et, ev) for et, ev in v[1])
        if k == 'str': return tuple(v[1])
        if k == 'gep':
            ops = [(ot, self.const(st, ot, ov)) for ot, ov in v[2]]
            return self.gep(st, v[1], ops)
        if k == 'cast':
            x = self.const(st, v[2], v[3])
            return self.cast(st, v[1], v[2], x, v[4])
        if k == 'bin':
            return self.binop(st, v[1], v[2], self.const(st, v[2], v[3]), self.const(st, v[2], v[4]), ())
        raise Unsupported('const %r' % (v,))

    def val(self, st, fr, t, v):
        if v[0] == 'reg':
            try: return fr.regs[v[1]]
            except KeyError: raise Unsupported('undefined register ' + v[1])
        return self.const(st, t, v)

    def gep(self, st, bt, ops):
        p = ops[0][1]
        off = 0; t = bt
        for i, (it, iv) in enumerate(ops[1:]):
            if i > 0 and t.k == 'struct':
                layout(t)
                off = vadd(64, off, t._offs[iv]); t = t.el[iv]
                continue
            if i > 0: t = t.el
            sz = sizeof(t)
            if it.n < 64: iv = vsext(iv, it.n, 64)
            off = vadd(64, off, vmul(64, iv, sz))
        if not isinstance(p, Ptr): raise Unsupported('gep on %r' % (p,))
        return self.padd(p, off)

    names = {}
    def pretty(self, n):
        n = n.lstrip('@').strip('"')
        if n not in self.names:
            import subprocess
            self.names[n] = subprocess.run(['c++filt', n], stdout=subprocess.PIPE, text=True).stdout.strip() if n.startswith('_Z') else n
        return self.names[n]

    def rounds(self, st):
        """a double is narrowed to float: only where the types in use ask for it"""
        names = [self.pretty(x.f.name) for x in st.frames]
        specs = [n for n in names if n.startswith('h_') or '(anonymous namespace)::' in n or 'vc::' in n]
        if names[-1] in specs: return
        if not self.noround and 'float' in names[-1]:
            templ = [n for n in specs if not n.startswith('h_')]
            if not templ or any('float' in n for n in templ): return
        self.record(st, False, 'no value is rounded to a smaller type', 'implicit')

    def cast(self, st, op, t, x, t2):
        if t.k == 'vec':
            return tuple(self.cast(st, op, t.el, e, t2.el) for e in x)
        if op in ('ptrtoint',):
            v = self.p2i(x)
            return vtrunc(v, 64, t2.n) if t2.n < 64 else v
        if op == 'inttoptr': return self.i2p(x)
        if op in ('bitcast', 'addrspacecast'):
            if t.k == t2.k and t.k != 'vec': return x
            if t.k == 'fp' and t2.k == 'int': return self.int_view((sizeof(t), 'f', x))
            if t.k == 'int' and t2.k == 'fp': return self.conv_cell('i', x, sizeof(t), t2)
            raise Unsupported('bitcast')
        if op == 'trunc':
            if t2.n == 1: return i2b(vtrunc(x, t.n, 1)) if not isinstance(x, int) else bool(x & 1)
            return vtrunc(x, t.n, t2.n)
        if op == 'zext':
            if t.n == 1: return b2i(x, t2.n)
            return vzext(x, t.n, t2.n)
        if op == 'sext':
            if t.n == 1: return vmul(t2.n, b2i(x, t2.n), mask(t2.n))
            return vsext(x, t.n, t2.n)
        if op == 'fptrunc' and not isinstance(x, Fraction) and t.k == 'fp': self.rounds(st)
        if op in ('fpext', 'fptrunc'): return x
        if op in ('sitofp', 'uitofp'):
            if t.n == 1: x = b2i(x, 8); n = 8
            else: n = t.n
            if isinstance(x, int): return Fraction(sx(x, n) if op == 'sitofp' else x)
            a = single_atom(x)
            if a is not None and a.op in ('fptosi', 'fptoui') : pass
            return patom(atom(op, (x, n), 'real'))
        if op in ('fptosi', 'fptoui'):
            if isinstance(x, Fraction):
                q = int(x)
                lo, hi = (-(1 << (t2.n - 1)), (1 << (t2.n - 1)) - 1) if op == 'fptosi' else (0, mask(t2.n))
                if not lo <= q <= hi: self.fail(st, 'float to integer conversion out of range')
                return q & mask(t2.n)
            return vatom('fn', (op, x, t2.n), t2.n)
        raise Unsupported(op)

    def binop(self, st, op, t, a, b, flags):
        if t.k == 'vec':
            return tuple(self.binop(st, op, t.el, x, y, flags) for x, y in zip(a, b))
        n = t.n
        if n == 1:
            if op == 'and' or op == 'mul': return band(a, b)
            if op == 'or': return bor(a, b)
            if op in ('xor', 'add', 'sub'): return bxor(a, b)
            raise Unsupported('i1 ' + op)
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            self.require(st, bnot(veq(n, b, 0)), 'integer division by zero')
            if op in ('sdiv', 'srem') and not (isinstance(b, int) and b != mask(n)):
                self.require(st, bnot(band(veq(n, b, mask(n)), veq(n, a, 1 << (n - 1)))), 'integer division overflow')
        if op in ('shl', 'lshr', 'ashr') and not isinstance(b, int):
            self.require(st, vult(n, b, n), 'shift amount out of range')
        if self.check_overflow and 'nsw' in flags and op in ('add', 'sub', 'mul'):
            self.no_overflow(st, op, n, a, b)
        return vbin(op, n, a, b, flags)

    def no_overflow(self, st, op, n, a, b):
        if isinstance(a, int) and isinstance(b, int):
            x, y = sx(a, n), sx(b, n)
            r = x + y if op == 'add' else x - y if op == 'sub' else x * y
            if not -(1 << (n - 1)) <= r < (1 << (n - 1)): self.fail(st, 'signed overflow')
            return
        w = n + 1 if op != 'mul' else 2 * n
        wa, wb = vsext(a, n, w), vsext(b, n, w)
        wide = vbin(op, w, wa, wb)
        narrow = vsext(vbin(op, n, a, b), n, w)
        self.require(st, veq(w, wide, narrow), 'signed integer overflow')

    def fbin(self, st, op, a, b):
        if isinstance(a, str) or isinstance(b, str): raise Unsupported('arithmetic on nan/inf')
        if op == 'fadd': return radd(a, b)
        if op == 'fsub': return rsub(a, b)
        if op == 'fmul': return rmul(a, b)
        if op == 'fdiv':
            nz = bnot(req0(b)) if not isinstance(b, Fraction) else b != 0
            if nz is False: self.fail(st, 'division by zero')
            if nz is not True and not self.known(st, nz):
                # try to establish it, otherwise it is an obligation
                self.require(st, nz, 'division by zero')
            return rdiv(a, b)
        raise Unsupported(op)

    # ------------------------------------------------------------ running
    def run(self, fname, init=None):
        f = self.m.funcs.get('@' + fname)
        if f is None or f.lines is None: raise Unsupported('no harness ' + fname)
        self.m.body(f)
        st = State()
        fr = Frame(f)
        st.frames.append(fr)
        if init: init(self, st)
        self.work = [st]
        self.paths = 1
        self.done_paths = 0
        import time
        while self.work:
            st = self.work.pop()
            try:
                while True:
                    self.step(st)
                    if self.deadline and (st.steps & 255) == 0 and time.time() > self.deadline:
                        raise Unsupported('time limit of the executor')
            except PathEnd:
                pass
        return self

    def step(self, st):
        st.steps += 1
        self.total_steps += 1
        if st.steps > self.maxsteps: raise Unsupported('step limit')
        fr = st.frames[-1]
        I = fr.f.blocks[fr.block][fr.idx]
        h = getattr(self, 'i_' + I.op, None)
        if h is None: return self.i_other(st, fr, I)
        h(st, fr, I)

    def i_other(self, st, fr, I):
        op = I.op
        a = I.a
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            t, x, y, fl = a
            v = self.binop(st, op, t, self.val(st, fr, t, x), self.val(st, fr, t, y), fl)
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            t, x, y = a
            x, y = self.val(st, fr, t, x), self.val(st, fr, t, y)
            if t.k == 'vec': v = tuple(self.fbin(st, op, p, q) for p, q in zip(x, y))
            else: v = self.fbin(st, op, x, y)
        elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fptrunc', 'fpext', 'sitofp', 'uitofp',
                    'fptosi', 'fptoui', 'addrspacecast'):
            v = self.cast(st, op, a[0], self.val(st, fr, a[0], a[1]), a[2])
        else:
            raise Unsupported('instruction ' + op)
        fr.regs[I.dst] = v
        fr.idx += 1

    def i_fneg(self, st, fr, I):
        t, x = I.a
        x = self.val(st, fr, t, x)
        fr.regs[I.dst] = tuple(map(rneg, x)) if t.k == 'vec' else rneg(x)
        fr.idx += 1

    def i_freeze(self, st, fr, I):
        fr.regs[I.dst] = self.val(st, fr, *I.a); fr.idx += 1

    def i_alloca(self, st, fr, I):
        t, (nt, nv) = I.a
        n = self.val(st, fr, nt, nv)
        if not isinstance(n, int): raise Unsupported('variable alloca')
        p = self.new_obj(st, sizeof(t) * n, 'stack', I.dst + ' in ' + fr.f.name)
        fr.allocas.append(p.o)
        fr.regs[I.dst] = p
        if I.dst in self.scoped(fr.f): self.wobj(st, p.o).alive = False
        fr.idx += 1

    def scoped(self, f):
        """the variables with marks for the begin of their lifetime"""
        r = self.marked.get(f.name)
        if r is None:
            r = set()
            for blk in f.blocks.values():
                for J in blk:
                    if J.op == 'call' and J.a[1][0] == 'glob' and J.a[1][1].startswith('@llvm.lifetime.start'):
                        r.update(x[1][1] for x in J.a[2] if x[1][0] == 'reg')
            self.marked[f.name] = r
        return r

    def i_load(self, st, fr, I):
        t, x = I.a
        fr.regs[I.dst] = self.load(st, self.val(st, fr, PTR, x), t)
        fr.idx += 1

    def i_store(self, st, fr, I):
        t, v, x = I.a
        self.store(st, self.val(st, fr, PTR, x), t, self.val(st, fr, t, v))
        fr.idx += 1

    def i_getelementptr(self, st, fr, I):
        bt, ops, inb = I.a
        fr.regs[I.dst] = self.gep(st, bt, [(t, self.val(st, fr, t, v)) for t, v in ops])
        fr.idx += 1

    def icmp1(self, st, pr, t, x, y):
        if t.k == 'ptr':
            if 'undef' in (x.o, y.o): raise Unsupported('comparison of uninitialised pointer')
            if x.o == y.o: return icmp(pr.replace('s', 'u') if pr[0] == 's' else pr, 64, x.off, y.off)
            if pr == 'eq': return False
            if pr == 'ne': return True
            if x.o == 0 or y.o == 0:
                # null is below every object
                lo = x.o == 0
                return {'ult': lo, 'ule': lo, 'ugt': not lo, 'uge': not lo}[pr]
            return self.ptr_order(st, pr, x, y)
        if t.n == 1:
            if pr == 'eq': return bnot(bxor(x, y))
            if pr == 'ne': return bxor(x, y)
            return icmp(pr, 2, b2i(x, 2), b2i(y, 2)) if pr[0] == 'u' else icmp(pr, 2, vmul(2, b2i(x, 2), 3), vmul(2, b2i(y, 2), 3))
        return icmp(pr, t.n, x, y)

    def ptr_order(self, st, pr, x, y):
        # unrelated objects: order unspecified but fixed by identity
        raise Unsupported('ordering of unrelated pointers')

    def i_icmp(self, st, fr, I):
        pr, t, x, y = I.a
        x, y = self.val(st, fr, t, x), self.val(st, fr, t, y)
        if t.k == 'vec': v = tuple(self.icmp1(st, pr, t.el, p, q) for p, q in zip(x, y))
        else: v = self.icmp1(st, pr, t, x, y)
        fr.regs[I.dst] = v
        fr.idx += 1

    def fcmp1(self, pr, x, y):
        if isinstance(x, str) or isinstance(y, str):
            if 'nan' in (x, y): return pr[0] == 'u'
            inf = {'inf': 1, '-inf': -1}
            a, b = inf.get(x, 0) if isinstance(x, str) else 0, inf.get(y, 0) if isinstance(y, str) else 0
            p = pr[1:]
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'rd': True, 'no': False}[p]
        if pr == 'ord': return True
        if pr == 'uno': return False
        if pr in ('true', 'false'): return pr == 'true'
        return rcmp(pr[1:], x, y)

    def i_fcmp(self, st, fr, I):
        pr, t, x, y = I.a
        x, y = self.val(st, fr, t, x), self.val(st, fr, t, y)
        if t.k == 'vec': v = tuple(self.fcmp1(pr, p, q) for p, q in zip(x, y))
        else: v = self.fcmp1(pr, x, y)
        fr.regs[I.dst] = v
        fr.idx += 1

    def i_select(self, st, fr, I):
        ct, c, t, x, y = I.a
        c = self.val(st, fr, ct, c)
        if ct.k == 'vec':
            xs, ys = self.val(st, fr, t, x), self.val(st, fr, t, y)
            r = []
            for k, p, q in zip(c, xs, ys):
                r.append(p if self.decide(st, k) else q)
            fr.regs[I.dst] = tuple(r); fr.idx += 1; return
        if c is not True and c is not False:
            k = self.known(st, c)
            if k is not None: c = k
        if c is not True and c is not False:
            a, b = self.val(st, fr, t, x), self.val(st, fr, t, y)
            if t.k == 'int' and t.n > 1 and isinstance(a, int) and isinstance(b, int) and a != b:
                n = bnot(c)             # one of two constants: prefer the path to decide, but do not fork
                if not self.feas(st, c): st.add_fact(n); fr.regs[I.dst] = b; fr.idx += 1; return
                if not self.feas(st, n): st.add_fact(c); fr.regs[I.dst] = a; fr.idx += 1; return
            if t.k == 'int':
                fr.regs[I.dst] = bite(c, a, b) if t.n == 1 else vite(t.n, c, a, b)
                fr.idx += 1
                return
            if a == b:
                fr.regs[I.dst] = a; fr.idx += 1; return
            c = self.decide(st, c)
        fr.regs[I.dst] = self.val(st, fr, t, x if c else y)
        fr.idx += 1

    def i_extractvalue(self, st, fr, I):
        t, v, idx = I.a
        v = self.val(st, fr, t, v)
        for i in idx: v = v[i]
        fr.regs[I.dst] = v; fr.idx += 1

    def i_insertvalue(self, st, fr, I):
        t, v, t2, w, idx = I.a
        v = self.val(st, fr, t, v); w = self.val(st, fr, t2, w)
        def ins(v, idx):
            if not idx: return w
            l = list(v); l[idx[0]] = ins(l[idx[0]], idx[1:]); return tuple(l)
        fr.regs[I.dst] = ins(v, idx); fr.idx += 1

    def i_extractelement(self, st, fr, I):
        t, v, t2, i = I.a
        i = self.val(st, fr, t2, i)
        if not isinstance(i, int): raise Unsupported('extractelement')
        fr.regs[I.dst] = self.val(st, fr, t, v)[i]; fr.idx += 1

    def i_insertelement(self, st, fr, I):
        t, v, t2, w, t3, i = I.a
        i = self.val(st, fr, t3, i)
        if not isinstance(i, int): raise Unsupported('insertelement')
        l = list(self.val(st, fr, t, v)); l[i] = self.val(st, fr, t2, w)
        fr.regs[I.dst] = tuple(l); fr.idx += 1

    def i_shufflevector(self, st, fr, I):
        t, v, t2, w, t3, m = I.a
        src = self.val(st, fr, t, v) + self.val(st, fr, t2, w)
        if m[0] == 'zero': idx = [0] * t3.n
        else: idx = [x[1][1] if x[1][0] == 'int' else 0 for x in m[1]]
        fr.regs[I.dst] = tuple(src[i] for i in idx); fr.idx += 1

    def i_br(self, st, fr, I):
        c, x, *y = I.a if len(I.a) == 3 else (None, I.a[1])
        if c is None: return self.goto(st, fr, x)
        c = self.val(st, fr, INT(1), c)
        if c is not True and c is not False: c = self.decide(st, c)
        self.goto(st, fr, x if c else y[0])

    def i_switch(self, st, fr, I):
        t, v, d, cs = I.a
        v = self.val(st, fr, t, v)
        for k, lab in cs:
            if self.decide(st, veq(t.n, v, k & mask(t.n))): return self.goto(st, fr, lab)
        self.goto(st, fr, d)

    def goto(self, st, fr, b):
        prev = fr.block
        blk = fr.f.blocks[b]
        i = 0; vals = []
        while blk[i].op == 'phi':
            t, inc = blk[i].a
            vals.append((blk[i].dst, self.val(st, fr, t, inc[prev])))
            i += 1
        for d, v in vals: fr.regs[d] = v
        fr.prev = prev; fr.block = b; fr.idx = i
        if self.unroll and not fr.f.name.startswith('@h_'):
            if fr.visits is None: fr.visits = {}
            k = fr.visits[b] = fr.visits.get(b, 0) + 1
            if k > self.unroll: raise Unsupported('loop without a contract in ' + fr.f.name)
        if self.loop_inv: self.at_block(st, fr, b)

    # ------------------------------------------------------------ loops with a contract
    def note_write(self, st, k, off, n):
        if isinstance(off, int) and isinstance(n, int):
            for i in range(n): st.wlog.add((k, off + i))
        else: st.wlog.add((k, None))

    def loop_headers(self, f):
        """targets of back edges, in the order of the blocks"""
        if f.name in self.headers: return self.headers[f.name]
        succ = {}
        for b, blk in f.blocks.items():
            I = blk[-1]
            if I.op == 'br': succ[b] = [I.a[1]] if len(I.a) < 3 else list(I.a[1:])
            elif I.op == 'switch': succ[b] = [l for _, l in I.a[3]] + [I.a[2]]
            elif I.op == 'invoke': succ[b] = [I.a[3], I.a[4]]
            else: succ[b] = []
        seen = set(); act = set(); heads = set()
        todo = [(f.entry, iter(succ[f.entry]))]; seen.add(f.entry); act.add(f.entry)
        while todo:
            b, it = todo[-1]
            for x in it:
                if x in act: heads.add(x)
                if x not in seen:
                    seen.add(x); act.add(x); todo.append((x, iter(succ[x]))); break
            else:
                act.discard(b); todo.pop()
        r = [b for b in f.blocks if b in heads]
        self.headers[f.name] = r
        return r

    def at_block(self, st, fr, b):
        for rx, ordinal, fn, names in self.loop_inv:
            if not rx.search(fr.f.name): continue
            hs = self.loop_headers(fr.f)
            if b not in hs: return
            if ordinal is not None and hs.index(b) != ordinal: continue
            return self.at_loop(st, fr, b, fn, names)

    def at_loop(self, st, fr, b, fn, names):
        c = [n for n, f in self.m.funcs.items() if n.startswith('@' + fn) and f.lines is not None]
        if len(c) != 1: raise Unsupported('loop contract ' + fn)
        spec = self.m.funcs[c[0]]
        self.m.body(spec)
        phis = [I for I in fr.f.blocks[b] if I.op == 'phi']
        regs = fr.f.blocks
        ptrs = []; back = []
        for nm in names:
            # a|b: either name; name?: a null pointer if there is none
            optional = nm.endswith('?'); nm = nm.rstrip('?')
            rx = re.compile(r'^%"?(?:' + '|'.join(re.escape(x) for x in nm.split('|')) + r')(\.addr|\.\d+|\d+|\.sroa[\w.]*)*"?$')
            ph = [I for I in phis if rx.match(I.dst)]
            al = [r for r in fr.regs if rx.match(r) and isinstance(fr.regs[r], Ptr) and fr.regs[r].o in fr.allocas]
            live = [r for r in al if st.mem[fr.regs[r].o].alive]
            if not ph and not live and optional: ptrs.append(Ptr(0, 0)); continue
            if not live and al: raise Unsupported('loop contract %s: no variable %s in scope' % (fn, nm))
            al = live
            if len(ph) == 1 and not al:
                t = ph[0].a[0]
                q = self.new_obj(st, max(sizeof(t), 1), 'stack', nm)
                self.put(st, self.wobj(st, q.o), 0, t, fr.regs[ph[0].dst])
                back.append((ph[0].dst, t, q)); ptrs.append(q)
            elif len(al) == 1 and not ph: ptrs.append(fr.regs[al[0]])
            elif not ph and not al:
                # not carried by the loop: a value, for reading only
                vs = [r for r in fr.regs if rx.match(r)]
                if len(vs) != 1: raise Unsupported('loop contract %s: no variable %s (%s)' % (fn, nm, [I.dst for I in phis] + [r for r in fr.regs if isinstance(fr.regs[r], Ptr) and fr.regs[r].o in fr.allocas]))
                v = fr.regs[vs[0]]
                q = self.new_obj(st, 16, 'stack', nm)
                t = PTR if isinstance(v, Ptr) else self.typeof(fr.f, vs[0])
                self.put(st, self.wobj(st, q.o), 0, t, v); ptrs.append(q)
            else: raise Unsupported('loop contract %s: variable %s is ambiguous' % (fn, nm))
        known = {d for d, t, q in back}
        first = not fr.loops or b not in fr.loops
        self.models.add('loop contract: ' + fn + ' for ' + fr.f.name[1:])
        if not first:
            # what the iteration has changed must be covered by the contract
            mem0, regs0, covered = fr.loops[b]
            for I in phis:
                if I.dst not in known and fr.regs[I.dst] != regs0[I.dst]: raise Unsupported('loop contract %s does not cover %s' % (fn, I.dst))
            for k, o in mem0.items():
                n = st.mem.get(k)
                if n is o: continue
                if k in covered: continue
                if n is None or n.alive != o.alive: raise Unsupported('loop contract %s does not cover the end of %s' % (fn, o.name))
                if n.log != o.log and (k, None) not in covered: raise Unsupported('loop contract %s does not cover the content of %s' % (fn, o.name))
                for off in set(n.cells) | set(o.cells):
                    x, y = n.cells.get(off), o.cells.get(off)
                    if x == y: continue
                    if (k, off) in covered: continue
                    # a temporary the contract leaves uninitialised: reading it is an error
                    if y is None and k in fr.allocas: continue
                    raise Unsupported('loop contract %s does not cover %s+%s: %r %r' % (fn, o.name, off, x, y))
        st.wlog = set() if first else None
        nxt = st.next
        depth = len(st.frames)
        def after(st, r):
            # the frame of the contract is gone, the loop is on top
            fr = st.frames[-1]
            if not first:
                self.end(st)
                raise PathEnd()
            for d, t, q in back:
                fr.regs[d] = self.load(st, q, t)
            for p in ptrs:
                if p.o not in fr.allocas: st.mem.pop(p.o, None)
            cov = st.wlog; st.wlog = None
            # what the contract made may be changed freely
            for k in st.mem:
                if isinstance(k, int) and k >= nxt: cov.add(k)
            State.nid += 1; st.id = State.nid
            fr.loops = dict(fr.loops or {})
            fr.loops[b] = (dict(st.mem), dict(fr.regs), cov)
        self.enter(st, spec, [0 if first else 1] + ptrs, after)

    def typeof(self, f, r):
        for pt, pn, at in f.params:
            if pn == r: return pt
        for blk in f.blocks.values():
            for I in blk:
                if I.dst == r:
                    if I.op in ('load', 'phi'): return I.a[0]
                    if I.op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'): return I.a[0]
                    if I.op in ('call', 'invoke'): return I.a[0]
                    if I.op in ('zext', 'sext', 'trunc'): return I.a[2]
        raise Unsupported('type of ' + r)

    def i_unreachable(self, st, fr, I):
        self.fail(st, 'unreachable code reached')

    def i_ret(self, st, fr, I):
        t, v = I.a
        r = None if v is None else self.val(st, fr, t, v)
        self.do_return(st, r)

    def pop_frame(self, st):
        fr = st.frames.pop()
        for k in fr.allocas: st.mem.pop(k, None)
        return fr

    def do_return(self, st, r):
        fr = self.pop_frame(st)
        if not st.frames:
            self.end(st)
            raise PathEnd()
        cl = st.frames[-1]
        if callable(fr.ret):
            return fr.ret(st, r)
        I = fr.ret
        if I.dst is not None: cl.regs[I.dst] = r
        if I.op == 'invoke': self.goto(st, cl, I.a[3])
        else: cl.idx += 1

    def end(self, st):
        self.done_paths += 1
        for x in st.reach: self.reached.add(x)

    # ------------------------------------------------------------ calls
    def finish_call(self, st, fr, I, r=None):
        if I.dst is not None: fr.regs[I.dst] = r
        if I.op == 'invoke': self.goto(st, fr, I.a[3])
        else: fr.idx += 1

    def i_call(self, st, fr, I):
        rt, callee, args, n, u = I.a
        if callee[0] == 'glob': name = callee[1]
        else:
            p = self.val(st, fr, PTR, callee)
            if p.o == 0: self.fail(st, 'call through null pointer')
            if not isinstance(p.o, str) or p.off != 0:
                return self.indirect(st, fr, I, p)
            name = p.o
        while name in self.m.aliases: name = self.m.aliases[name][1]
        vals = [self.val(st, fr, t, v) if t is not META else None for t, v, a in args]
        self.do_call(st, fr, I, name, vals)

    i_invoke = i_call

    def indirect(self, st, fr, I, p):
        if p.o == 'undef': self.fail(st, 'call through uninitialised pointer')
        raise Unsupported('indirect call through %r' % (p,))

    def do_call(self, st, fr, I, name, vals):
        short = name[1:].strip('"')
        h = self.lookup(short)
        for rx, sub in self.contracts:
            g = rx.search(short)
            if g:
                want = '@' + g.expand(sub)
                c = [n for n, f in self.m.funcs.items() if n.startswith(want) and f.lines is not None]
                if want in c: c = [want]
                if len(c) == 1 and c[0] != name:
                    self.models.add('contract: ' + short)
                    return self.enter(st, self.m.funcs[c[0]], vals, I)
        if h is not None:
            return h(st, fr, I, short, vals)
        for rx, params in self.pure:
            if rx.search(short): return self.pure_call(st, fr, I, short, params, vals)
        f = self.m.funcs.get(name)
        if f is None or f.lines is None:
            raise Unsupported('external function ' + short)
        self.enter(st, f, vals, I)

    def pure_call(self, st, fr, I, short, params, vals):
        """modular step: the callee is only known to be a function of the values it is given"""
        self.models.add('contract (pure function): ' + short)
        key = []
        for p, v in zip(params, vals):
            if p == 'v': key.append(v)
            else:
                for off in p.split('+'):
                    t = {'d': F64, 'f': F32, 'i': INT(32), 'l': INT(64)}[off[0]]
                    key.append(self.load(st, self.padd(v, int(off[1:] or 0)), t))
        rt = I.a[0]
        k = (short,) + tuple(key)
        if rt.k == 'int' and rt.n == 1:
            r = bvar('pure%d' % atom('pure', k, 'real').id)
        elif rt is F64 or rt is F32 : r = patom(atom('pure', k, 'real'))
        else: raise Unsupported('pure result type')
        self.finish_call(st, fr, I, r)

    def enter(self, st, f, vals, ret):
        self.m.body(f)
        self.calls[f.name] = self.calls.get(f.name, 0) + 1
        if len(st.frames) > 200: raise Unsupported('recursion depth')
        n = Frame(f)
        for (t, pn, at), v in zip(f.params, vals):
            if 'byval' in at:
                q = self.new_obj(st, sizeof(at['byval']), 'stack', pn)
                n.allocas.append(q.o)
                self.memcpy(st, q, v, sizeof(at['byval'])) if sizeof(at['byval']) else None
                v = q
            n.regs[pn] = v
        n.ret = ret
        st.frames.append(n)

    # ------------------------------------------------------------ exceptions
    def throw(self, st, ptr, ti):
        st.exc = (ptr, ti)
        st.ghost['exc%s' % (ptr.o,)] = st.exc
        st.uncaught += 1
        self.unwind(st)

    def unwind(self, st):
        """the frame on top was executing a call that threw"""
        while st.frames:
            fr = st.frames[-1]
            I = fr.f.blocks[fr.block][fr.idx]
            if I.op == 'invoke':
                if self.lands(st, fr, I.a[4]):
                    return self.goto(st, fr, I.a[4])
            self.pop_frame(st)
            if fr.data == 'barrier': break
        self.uncaught_exc(st)

    def uncaught_exc(self, st):
        self.vcs.append(VC('exception %s leaves the harness' % (st.exc[1],), tuple(st.pc), False, tuple(st.picks), 'implicit', '', tuple(st.order)))
        raise PathEnd()

    def lands(self, st, fr, b):
        for I in fr.f.blocks[b]:
            if I.op == 'landingpad':
                t, cl, cs = I.a
                if cl: return True
                return self.selector(st, cs) is not None
            if I.op != 'phi': break
        raise Unsupported('no landingpad')

    def selector(self, st, cs):
        for k, (t, v) in cs:
            if k == 'filter': raise Unsupported('exception filter')
            if v[0] in ('null', 'undef'): return 0x7fff
            ti = v[1]
            if self.ti_match(st.exc[1], ti): return self.typeid(ti)
        return None

    def typeid(self, ti):
        if ti not in self.typeids: self.typeids[ti] = len(self.typeids) + 1
        return self.typeids[ti]

    def ti_bases(self, ti):
        if ti in STD_EXC_BASE: return [(b, 0) for b in STD_EXC_BASE[ti]]
        g = self.m.globals.get(ti)
        if g is None or g[0] == 'bad' or g[1] is None: return []
        init = g[1]
        if init[0] != 'agg': return []
        els = init[1]
        vt = repr(els[0])
        if '__si_class_type_info' in vt: return [(els[2][1][1], 0)]
        if '__vmi_class_type_info' in vt:
            out = []
            for i in range(4, len(els), 2):
                fl = els[i + 1][1][1]
                if fl & 1: raise Unsupported('virtual base')
                if fl & 2: out.append((els[i][1][1], fl >> 8))
            return out
        return []

    def ti_match(self, a, b):
        if a == b: return True
        return any(self.ti_match(x, b) for x, _ in self.ti_bases(a))

    def ti_paths(self, a, b, off=0):
        """offsets of public base b inside a"""
        if a == b: return [off]
        r = []
        for x, o in self.ti_bases(a): r += self.ti_paths(x, b, off + o)
        return r

    def i_landingpad(self, st, fr, I):
        t, cl, cs = I.a
        s = self.selector(st, cs)
        fr.regs[I.dst] = (st.exc[0], 0 if s is None else s)
        fr.idx += 1

    def i_resume(self, st, fr, I):
        v = self.val(st, fr, I.a[0], I.a[1])
        # another exception may have been thrown and caught in between
        if isinstance(v[0], Ptr): st.exc = st.ghost['exc%s' % (v[0].o,)]
        self.pop_frame(st)
        if not st.frames: return self.uncaught_exc(st)
        self.unwind(st)

    def i_fence(self, st, fr, I):
        fr.idx += 1

    def i_atomicrmw(self, st, fr, I):
        k, x, t, v = I.a
        p = self.val(st, fr, PTR, x)
        old = self.load(st, p, t); w = self.val(st, fr, t, v)
        if k == 'xchg': nv = w
        elif k in ('add', 'sub', 'and', 'or', 'xor'): nv = vbin(k, t.n, old, w)
        else: raise Unsupported('atomicrmw')
        self.store(st, p, t, nv)
        fr.regs[I.dst] = old; fr.idx += 1

    # ------------------------------------------------------------ library models
    def lookup(self, n):
        h = self.ext.get(n)
        if h is not None:
            self.models.add(n)
            return h.__get__(self)
        if n.startswith('llvm.'):
            for p, h in self.llvm:
                if n == p or n.startswith(p + '.'): return h.__get__(self)
            raise Unsupported('intrinsic ' + n)
        return None

    def x_nop(self, st, fr, I, n, v): self.finish_call(st, fr, I)

    def x_lifetime_start(self, st, fr, I, n, v):
        p = v[1]
        if isinstance(p, Ptr) and p.o in st.mem:
            o = self.wobj(st, p.o); o.alive = True; o.cells = {}; o.log = ()
        self.finish_call(st, fr, I)

    def x_lifetime_end(self, st, fr, I, n, v):
        p = v[1]
        if isinstance(p, Ptr) and p.o in st.mem:
            o = self.wobj(st, p.o); o.alive = False; o.cells = {}; o.log = ()
        self.finish_call(st, fr, I)

    def x_memcpy(self, st, fr, I, n, v):
        if any(isinstance(q, Ptr) and q.o == 0 and q.off == 0 for q in v[:2]): self.fail(st, 'null pointer passed to memcpy')
        self.memcpy(st, v[0], v[1], v[2]); self.finish_call(st, fr, I, v[0])

    def x_memset(self, st, fr, I, n, v):
        b = v[1] if n.startswith('llvm') else vtrunc(v[1], 32, 8)
        self.memset(st, v[0], b, v[2]); self.finish_call(st, fr, I, v[0])

    def x_fmuladd(self, st, fr, I, n, v):
        self.finish_call(st, fr, I, radd(rmul(v[0], v[1]), v[2]))

    def x_fabs(self, st, fr, I, n, v):
        x = v[0]
        if isinstance(x, str): r = 'inf' if x != 'nan' else x
        elif isinstance(x, Fraction): r = abs(x)
        else: r = rneg(x) if self.decide(st, rlt0(x)) else x
        self.finish_call(st, fr, I, r)

    def x_copysign(self, st, fr, I, n, v):
        x, y = v
        a = rneg(x) if self.decide(st, rcmp('lt', x, Fraction(0))) else x
        r = rneg(a) if self.decide(st, rcmp('lt', y, Fraction(0))) else a
        self.finish_call(st, fr, I, r)

    def x_minmax(self, st, fr, I, n, v):
        less = self.decide(st, rcmp('lt', v[0], v[1]))
        if 'min' in n: r = v[0] if less else v[1]
        else: r = v[1] if less else v[0]
        self.finish_call(st, fr, I, r)

    def x_iminmax(self, st, fr, I, n, v):
        k = n.split('.')[1]; w = I.a[0].n
        lt = icmp('slt' if k[0] == 's' else 'ult', w, v[0], v[1])
        self.finish_call(st, fr, I, vite(w, lt, v[0], v[1]) if k.endswith('min') else vite(w, lt, v[1], v[0]))

    def x_iabs(self, st, fr, I, n, v):
        w = I.a[0].n
        self.finish_call(st, fr, I, vite(w, vslt(w, v[0], 0), vsub(w, 0, v[0]), v[0]))

    def x_sqrt(self, st, fr, I, n, v):
        x = v[0]
        self.require(st, rcmp('ge', x, Fraction(0)), 'square root of a negative number')
        self.finish_call(st, fr, I, rsqrt(x))

    def angle(self, st, x):
        """the direction of a zero vector is the angle 0; elsewhere its sine and cosine are quotients"""
        if not isinstance(x, Poly): return x
        for m in list(x.t):
            for a, e in m:
                at = Atom.byid[a]
                if at.op == 'atan2':
                    r2 = radd(rmul(at.args[0], at.args[0]), rmul(at.args[1], at.args[1]))
                    if self.decide(st, req0(r2) if not isinstance(r2, Fraction) else r2 == 0):
                        x = simp(Poly(0, {k: c for k, c in as_poly(0, x).t.items() if all(b != a for b, _ in k)}))
                        if not isinstance(x, Poly): return x
        return x

    def x_sin(self, st, fr, I, n, v): self.finish_call(st, fr, I, sincos(self.angle(st, v[0]))[0])
    def x_cos(self, st, fr, I, n, v): self.finish_call(st, fr, I, sincos(self.angle(st, v[0]))[1])

    def x_tan(self, st, fr, I, n, v):
        s, c = sincos(self.angle(st, v[0]))
        self.require(st, bnot(req0(c)) if not isinstance(c, Fraction) else c != 0, 'tangent at a pole')
        self.finish_call(st, fr, I, rdiv(s, c))

    def x_acos(self, st, fr, I, n, v):
        x = v[0]
        nm = 'asin' if 'asin' in n else 'acos'
        self.require(st, band(rcmp('le', x, Fraction(1)), rcmp('ge', x, Fraction(-1))), nm + ' argument outside [-1,1]')
        if x == 1 and nm == 'acos' or x == 0 and nm == 'asin': return self.finish_call(st, fr, I, Fraction(0))
        self.finish_call(st, fr, I, patom(atom(nm, (x,), 'real')))

    def x_fn(self, st, fr, I, n, v):
        base = n
        if n.startswith('llvm.'): base = n.split('.')[1]
        elif n.endswith('f') and n not in ('erf',): base = n[:-1]
        if all(isinstance(x, Fraction) for x in v):
            if base == 'floor':
                import math
                return self.finish_call(st, fr, I, Fraction(math.floor(v[0])))
            if base == 'ceil':
                import math
                return self.finish_call(st, fr, I, Fraction(math.ceil(v[0])))
        if base == 'atan2' and False: pass
        self.finish_call(st, fr, I, patom(atom(base, tuple(v), 'real')))

    def x_new(self, st, fr, I, n, v):
        if not isinstance(v[0], int):
            k = st.ghost.get('fresh', 0); st.ghost['fresh'] = k + 1
            p = self.new_obj(st, v[0], 'heap', 'allocation in ' + fr.f.name)
            st.mem[p.o].arr = 'uninit#%d' % k
            return self.finish_call(st, fr, I, p)
        if v[0] > 1 << 24: self.fail(st, 'huge allocation')
        self.finish_call(st, fr, I, self.new_obj(st, v[0], 'heap', 'allocation in ' + fr.f.name))

    def x_delete(self, st, fr, I, n, v):
        p = v[0]
        if p.o != 0:
            o = st.mem.get(p.o)
            if p.o == 'undef' or o is None: self.fail(st, 'delete of an invalid pointer')
            if o.kind != 'heap' or p.off != 0: self.fail(st, 'delete of a pointer not from new')
            if not o.alive: self.fail(st, 'double delete')
            if n in ('_ZdlPvm', '_ZdaPvm'): self.require(st, veq(64, v[1], o.size), 'sized delete with a wrong size')
            o = self.wobj(st, p.o); o.alive = False; o.cells = {}; o.log = ()
        self.finish_call(st, fr, I)

    def x_alloc_exc(self, st, fr, I, n, v):
        p = self.new_obj(st, v[0], 'exc', 'exception')
        self.finish_call(st, fr, I, p)

    def x_free_exc(self, st, fr, I, n, v): self.finish_call(st, fr, I)

    def x_throw(self, st, fr, I, n, v):
        self.throw(st, v[0], v[1].o)

    def x_begin_catch(self, st, fr, I, n, v):
        if isinstance(v[0], Ptr): st.exc = st.ghost['exc%s' % (v[0].o,)]
        st.caught.append(st.exc)
        st.uncaught -= 1
        self.finish_call(st, fr, I, v[0])

    def x_end_catch(self, st, fr, I, n, v):
        st.caught.pop()
        self.finish_call(st, fr, I)

    def x_rethrow(self, st, fr, I, n, v):
        if not st.caught: self.fail(st, 'rethrow without exception')
        st.exc = st.caught[-1]
        st.uncaught += 1
        self.unwind(st)

    def x_typeid_for(self, st, fr, I, n, v): self.finish_call(st, fr, I, self.typeid(v[0].o))

    def x_uncaught(self, st, fr, I, n, v):
        base = st.ghost.get('uncaught_base', 0)
        self.finish_call(st, fr, I, vadd(32, base, st.uncaught))

    def x_terminate(self, st, fr, I, n, v): self.fail(st, 'std::terminate called (%s)' % n)
    def x_assertfail(self, st, fr, I, n, v): self.fail(st, 'library assertion failed')

    def x_exc_ctor(self, st, fr, I, n, v): self.finish_call(st, fr, I)

    def throw_std(self, st, ti):
        p = self.new_obj(st, 16, 'exc', 'exception')
        self.throw(st, p, ti)

    def x_throw_oor(self, st, fr, I, n, v): self.throw_std(st, '@_ZTISt12out_of_range')
    def x_throw_len(self, st, fr, I, n, v): self.throw_std(st, '@_ZTISt12length_error')
    def x_throw_logic(self, st, fr, I, n, v): self.throw_std(st, '@_ZTISt11logic_error')
    def x_throw_alloc(self, st, fr, I, n, v): self.throw_std(st, '@_ZTISt9bad_alloc')
    def x_throw_badcall(self, st, fr, I, n, v): self.throw_std(st, '@_ZTISt17bad_function_call')

    def x_strlen(self, st, fr, I, n, v):
        p = v[0]; k = 0
        while True:
            b = self.load(st, self.padd(p, k), INT(8))
            if self.decide(st, veq(8, b, 0)): break
            k += 1
            if k > 4096 or self.deadline and time.time() > self.deadline: raise Unsupported('strlen')
        self.finish_call(st, fr, I, k)

    def x_memcmp(self, st, fr, I, n, v):
        if not isinstance(v[2], int): raise Unsupported('memcmp of symbolic length')
        for i in range(v[2]):
            a = self.load(st, self.padd(v[0], i), INT(8)); b = self.load(st, self.padd(v[1], i), INT(8))
            if not self.decide(st, veq(8, a, b)):
                return self.finish_call(st, fr, I, mask(32) if self.decide(st, vult(8, a, b)) else 1)
        self.finish_call(st, fr, I, 0)

    def x_memchr(self, st, fr, I, n, v):
        if not isinstance(v[2], int): raise Unsupported('memchr of symbolic length')
        c = vtrunc(v[1], 32, 8)
        for i in range(v[2]):
            if self.decide(st, veq(8, self.load(st, self.padd(v[0], i), INT(8)), c)):
                return self.finish_call(st, fr, I, self.padd(v[0], i))
        self.finish_call(st, fr, I, NULL)

    def x_dyncast(self, st, fr, I, n, v):
        p, src, dst, hint = v
        if p.o == 0: return self.finish_call(st, fr, I, NULL)
        vp = self.load(st, p, PTR)
        off = self.load(st, self.padd(vp, mask(64) - 15), INT(64))
        ti = self.load(st, self.padd(vp, mask(64) - 7), PTR)
        whole = self.padd(p, off)
        offs = self.ti_paths(ti.o, dst.o)
        if len(set(offs)) != 1: r = NULL
        else: r = self.padd(whole, offs[0])
        self.finish_call(st, fr, I, r)

    def x_expect(self, st, fr, I, n, v): self.finish_call(st, fr, I, v[0])

    def x_overflow(self, st, fr, I, n, v):
        k = n.split('.')[1]; w = I.a[2][0][0].n
        op = {'u': None}
        nm = k[1:4]
        r = vbin(nm, w, v[0], v[1])
        W = 2 * w
        ex = vzext if k[0] == 'u' else vsext
        wide = vbin(nm, W, ex(v[0], w, W), ex(v[1], w, W))
        self.finish_call(st, fr, I, (r, bnot(veq(W, wide, ex(r, w, W)))))

    def x_zero32(self, st, fr, I, n, v): self.finish_call(st, fr, I, 0)
    def x_one32(self, st, fr, I, n, v): self.finish_call(st, fr, I, 1)
    def x_arg0(self, st, fr, I, n, v): self.finish_call(st, fr, I, v[0])
    def x_false(self, st, fr, I, n, v): self.finish_call(st, fr, I, False)

    # ------------------------------------------------------------ specification primitives
    def uniq(self, st, n):
        k = st.names.get(n, 0)
        st.names[n] = k + 1
        return n if k == 0 else '%s#%d' % (n, k)

    def v_real(self, st, fr, I, n, v):
        nm = self.uniq(st, self.cstring(st, v[0]))
        st.order.append((nm, 'r'))
        self.finish_call(st, fr, I, rvar(nm))

    def v_bits(self, st, fr, I, n, v):
        nm = self.uniq(st, self.cstring(st, v[0]))
        w = I.a[0].n
        st.order.append((nm, 'i%d' % w))
        if w == 1: r = veq(8, bvar_bv(nm, 8), 1)
        else: r = bvar_bv(nm, w)
        self.finish_call(st, fr, I, r)

    def v_assume(self, st, fr, I, n, v):
        if v[0] is False: raise PathEnd()
        if v[0] is not True:
            k = self.known(st, v[0])
            if k is False or (k is None and not self.feas(st, v[0])): raise PathEnd()
            st.add_fact(v[0])
        self.finish_call(st, fr, I)

    def v_ensure(self, st, fr, I, n, v):
        self.require(st, v[0], self.cstring(st, v[1]), 'ensure')
        self.finish_call(st, fr, I)

    def v_pick(self, st, fr, I, n, v):
        k = len(st.picks)
        nm = self.cstring(st, v[1])
        for i in range(v[0] - 1):
            o = st.fork()
            o.picks.append(i); o.order.append((nm, 'p', i))
            self.finish_call(o, o.frames[-1], I, i)
            self.push(o)
        st.picks.append(v[0] - 1); st.order.append((nm, 'p', v[0] - 1))
        self.finish_call(st, fr, I, v[0] - 1)

    def v_choose(self, st, fr, I, n, v):
        """an unknown choice made by code that is only known by its contract"""
        for i in range(v[0] - 1):
            o = st.fork()
            self.finish_call(o, o.frames[-1], I, i)
            self.push(o)
        self.finish_call(st, fr, I, v[0] - 1)

    def v_eq(self, st, fr, I, n, v): self.finish_call(st, fr, I, rcmp('eq', v[0], v[1]))
    def v_le(self, st, fr, I, n, v): self.finish_call(st, fr, I, rcmp('le', v[0], v[1]))
    def v_lt(self, st, fr, I, n, v): self.finish_call(st, fr, I, rcmp('lt', v[0], v[1]))

    def v_let(self, st, fr, I, n, v):
        x = v[0]
        if isinstance(x, (Fraction, str)): return self.finish_call(st, fr, I, x)
        k = st.ghost.get('fresh', 0); st.ghost['fresh'] = k + 1
        y = patom(atom('fresh', ('let%d' % k,), 'real'))
        c = rcmp('eq', y, x)
        solve.WEAK.add(c.id)
        st.pc.append(c)
        self.finish_call(st, fr, I, y)

    def v_reach(self, st, fr, I, n, v):
        st.reach.append(self.cstring(st, v[0]))
        self.finish_call(st, fr, I)

    def v_noleak(self, st, fr, I, n, v):
        for k, o in st.mem.items():
            if o.kind == 'heap' and o.alive: self.fail(st, 'memory leak (%s)' % o.name)
        self.finish_call(st, fr, I)

    def v_live(self, st, fr, I, n, v):
        self.finish_call(st, fr, I, sum(1 for k, o in st.mem.items() if o.kind == 'heap' and o.alive))

    def v_uncaught(self, st, fr, I, n, v):
        st.ghost['uncaught_base'] = v[0]
        st.add_fact(vult(32, v[0], 1 << 30))
        self.finish_call(st, fr, I)

    def v_bytes(self, st, fr, I, n, v):
        """vc_bytes(name, size): fresh array of symbolic content and size"""
        nm = self.uniq(st, self.cstring(st, v[0]))
        p = self.new_obj(st, v[1], 'heap' if n == 'vc_bytes_heap' else 'sym', nm)
        st.mem[p.o].arr = nm
        st.order.append((nm, 'arr'))
        self.finish_call(st, fr, I, p)

    def v_known(self, st, fr, I, n, v): self.finish_call(st, fr, I, True)

    def v_branch(self, st, fr, I, n, v):
        """explicit case split"""
        self.finish_call(st, fr, I, self.decide(st, v[0]))

    ext = {}
    llvm = []


def _opaque(self, st, fr, I, n, v):
    """the address of something no code under this contract may touch"""
    p = self.new_obj(st, None, 'opaque', 'opaque ' + self.cstring(st, v[0]))
    self.finish_call(st, fr, I, p)
Exec.v_opaque = _opaque

E = Exec
E.llvm = [('llvm.lifetime.start', E.x_lifetime_start), ('llvm.lifetime.end', E.x_lifetime_end),
          ('llvm.memcpy', E.x_memcpy), ('llvm.memmove', E.x_memcpy), ('llvm.memset', E.x_memset),
          ('llvm.fmuladd', E.x_fmuladd), ('llvm.fma', E.x_fmuladd), ('llvm.fabs', E.x_fabs),
          ('llvm.copysign', E.x_copysign), ('llvm.minnum', E.x_minmax), ('llvm.maxnum', E.x_minmax),
          ('llvm.minimum', E.x_minmax), ('llvm.maximum', E.x_minmax), ('llvm.smin', E.x_iminmax),
          ('llvm.smax', E.x_iminmax), ('llvm.umin', E.x_iminmax), ('llvm.umax', E.x_iminmax), ('llvm.abs', E.x_iabs),
          ('llvm.sqrt', E.x_sqrt), ('llvm.sin', E.x_sin), ('llvm.cos', E.x_cos), ('llvm.tan', E.x_tan),
          ('llvm.floor', E.x_fn), ('llvm.ceil', E.x_fn), ('llvm.trunc', E.x_fn), ('llvm.round', E.x_fn),
          ('llvm.rint', E.x_fn), ('llvm.nearbyint', E.x_fn), ('llvm.pow', E.x_fn), ('llvm.exp', E.x_fn),
          ('llvm.log', E.x_fn), ('llvm.exp2', E.x_fn),
          ('llvm.assume', E.x_nop), ('llvm.experimental.noalias', E.x_nop), ('llvm.dbg', E.x_nop), ('llvm.prefetch', E.x_nop),
          ('llvm.expect', E.x_expect), ('llvm.launder', E.x_arg0), ('llvm.strip', E.x_arg0), ('llvm.invariant', E.x_nop),
          ('llvm.eh.typeid.for', E.x_typeid_for), ('llvm.trap', E.x_terminate), ('llvm.threadlocal.address', E.x_arg0),
          ('llvm.is.constant', E.x_false)]
for k in ('u', 's'):
    for o in ('add', 'sub', 'mul'):
        E.llvm.append(('llvm.%s%s.with.overflow' % (k, o), E.x_overflow))
X = E.ext
for n in ('memcpy', 'memmove'): X[n] = E.x_memcpy
X['memset'] = E.x_memset; X['memcmp'] = E.x_memcmp; X['strlen'] = E.x_strlen; X['bcmp'] = E.x_memcmp
X['memchr'] = E.x_memchr
for n, h in (('sin', E.x_sin), ('cos', E.x_cos), ('tan', E.x_tan), ('sqrt', E.x_sqrt), ('acos', E.x_acos), ('asin', E.x_acos),
             ('fabs', E.x_fabs)):
    X[n] = h; X[n + 'f'] = h; X[n + 'l'] = h
for n in ('atan', 'atan2', 'pow', 'exp', 'exp2', 'log', 'log2', 'log10', 'floor', 'ceil', 'trunc', 'round', 'fmod', 'cbrt',
          'sinh', 'cosh', 'tanh', 'hypot', 'expm1', 'log1p', 'rint', 'nearbyint'):
    X[n] = E.x_fn; X[n + 'f'] = E.x_fn
for n in ('_Znwm', '_Znam', 'malloc'): X[n] = E.x_new
for n in ('_ZnwmSt11align_val_t', '_ZnwmRKSt9nothrow_t'): X[n] = E.x_new
for n in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t'): X[n] = E.x_delete
X['__cxa_allocate_exception'] = E.x_alloc_exc; X['__cxa_free_exception'] = E.x_free_exc
X['__cxa_throw'] = E.x_throw; X['__cxa_begin_catch'] = E.x_begin_catch; X['__cxa_end_catch'] = E.x_end_catch
X['__cxa_rethrow'] = E.x_rethrow
X['_ZSt19uncaught_exceptionsv'] = E.x_uncaught
for n in ('_ZSt9terminatev', '__clang_call_terminate', 'abort', '__cxa_pure_virtual'): X[n] = E.x_terminate
for n in ('_ZSt21__glibcxx_assert_failPKciS0_S0_', '__assert_fail'): X[n] = E.x_assertfail
for n in ('_ZNSt12out_of_rangeC1EPKc', '_ZNSt16invalid_argumentC1EPKc', '_ZNSt11logic_errorC1EPKc', '_ZNSt13runtime_errorC1EPKc',
          '_ZNSt12out_of_rangeD1Ev', '_ZNSt16invalid_argumentD1Ev', '_ZNSt11logic_errorD1Ev', '_ZNSt13runtime_errorD1Ev',
          '_ZNSt9exceptionD2Ev', '_ZNSt9exceptionD1Ev', '__cxa_guard_release', '__cxa_guard_abort', '__cxa_atexit', '__cxa_thread_atexit',
          '_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev'):
    X[n] = E.x_nop
for n in ('_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc', '_ZNSolsEi', '_ZNSolsEd', '_ZNSolsEPFRSoS_E',
          '_ZNSolsEf', '_ZNSolsEj', '_ZNSolsEm', '_ZNSolsEl'):
    X[n] = E.x_arg0
X['_ZSt20__throw_out_of_rangePKc'] = E.x_throw_oor; X['_ZSt24__throw_out_of_range_fmtPKcz'] = E.x_throw_oor
X['_ZSt20__throw_length_errorPKc'] = E.x_throw_len; X['_ZSt19__throw_logic_errorPKc'] = E.x_throw_logic
X['_ZSt17__throw_bad_allocv'] = E.x_throw_alloc; X['_ZSt28__throw_bad_array_new_lengthv'] = E.x_throw_alloc
X['_ZSt25__throw_bad_function_callv'] = E.x_throw_badcall
X['__dynamic_cast'] = E.x_dyncast
for n in ('vc_f64', 'vc_f32'): X[n] = E.v_real
for n in ('vc_i8', 'vc_i16', 'vc_i32', 'vc_i64', 'vc_i1'): X[n] = E.v_bits
X['vc_assume'] = E.v_assume; X['vc_ensure'] = E.v_ensure; X['vc_pick'] = E.v_pick
X['vc_eq'] = E.v_eq; X['vc_le'] = E.v_le; X['vc_lt'] = E.v_lt
X['vc_reach'] = E.v_reach; X['vc_noleak'] = E.v_noleak; X['vc_live'] = E.v_live
X['vc_set_uncaught'] = E.v_uncaught; X['vc_bytes'] = E.v_bytes; X['vc_bytes_heap'] = E.v_bytes
X['vc_let'] = E.v_let; X['vc_choose'] = E.v_choose
X['vc_split'] = E.v_branch
X['vc_opaque'] = E.v_opaque
X['vc_symbolic'] = E.v_known
