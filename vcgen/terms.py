"""Values of the symbolic executor.

Bit-vector values: python int (unsigned, reduced) or Poly over Z/2^n.
Real values:       Fraction or Poly over Q with integer (possibly negative) exponents.
Booleans:          True/False or B nodes.
Everything that is not polynomial is an interned Atom."""
from fractions import Fraction


class Atom:
    __slots__ = ('id', 'op', 'args', 'sort', 'h')
    table = {}
    byid = []

    def __repr__(self):
        if self.op == 'var': return str(self.args[0])
        return '%s(%s)' % (self.op, ', '.join(map(repr, self.args)))


def atom(op, args, sort):
    k = (op, args, sort)
    a = Atom.table.get(k)
    if a is None:
        a = Atom()
        a.id = len(Atom.byid); a.op = op; a.args = args; a.sort = sort
        Atom.byid.append(a)
        Atom.table[k] = a
    return a


class Poly:
    """ring: 0 = rationals, n>0 = integers mod 2^n"""
    __slots__ = ('ring', 't', '_h', '_s')

    def __init__(self, ring, t):
        self.ring, self.t, self._h, self._s = ring, t, None, None

    def items(self):
        if self._s is None:
            self._s = tuple(sorted(self.t.items()))
        return self._s

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.ring, self.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.ring == o.ring and self.t == o.t

    def __repr__(self):
        if not self.t: return '0'
        out = []
        for m, c in self.items():
            f = [] if c == 1 and m else [str(c) if not self.ring else str(c if c < (1 << (self.ring - 1)) else c - (1 << self.ring))]
            for a, e in m:
                f.append(repr(Atom.byid[a]) + ('' if e == 1 else '^%d' % e))
            out.append('*'.join(f))
        s = ' + '.join(out)
        return s if len(s) < 2000 else s[:2000] + '...'


def pconst(ring, c):
    return Poly(ring, {(): c} if c else {})


def patom(a):
    ring = 0 if a.sort == 'real' else a.sort[1]
    return Poly(ring, {((a.id, 1),): Fraction(1) if ring == 0 else 1})


def as_poly(ring, v):
    if isinstance(v, Poly): return v
    return pconst(ring, v)


def simp(p):
    """Poly -> constant if constant"""
    if not p.t: return Fraction(0) if p.ring == 0 else 0
    if len(p.t) == 1:
        m, c = next(iter(p.t.items()))
        if m == (): return c
    return p


def padd(a, b, sign=1):
    ring = a.ring
    t = dict(a.t)
    mask = (1 << ring) - 1
    for m, c in b.t.items():
        v = t.get(m, 0) + (c if sign == 1 else -c)
        if ring: v &= mask
        if v: t[m] = v
        else: t.pop(m, None)
    return Poly(ring, t)


def mmul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if v: d[a] = v
        else: del d[a]
    return tuple(sorted(d.items()))


class TooBig(Exception):
    pass


LIMIT = 60000


def pmul(a, b):
    ring = a.ring
    if len(a.t) * len(b.t) > 4000000: raise TooBig()
    t = {}
    mask = (1 << ring) - 1
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = mmul(m1, m2)
            v = t.get(m, 0) + c1 * c2
            if ring: v &= mask
            if v: t[m] = v
            else: t.pop(m, None)
        if len(t) > LIMIT: raise TooBig()
    return Poly(ring, t)


def pscale(a, c):
    if not c: return Poly(a.ring, {})
    if a.ring:
        mask = (1 << a.ring) - 1
        t = {}
        for m, v in a.t.items():
            v = (v * c) & mask
            if v: t[m] = v
        return Poly(a.ring, t)
    return Poly(0, {m: v * c for m, v in a.t.items()})


# ---- reals -----------------------------------------------------------------
def radd(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction): return a + b
    return simp(padd(as_poly(0, a), as_poly(0, b)))


def rsub(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction): return a - b
    return simp(padd(as_poly(0, a), as_poly(0, b), -1))


def rneg(a):
    if isinstance(a, Fraction): return -a
    return pscale(a, Fraction(-1))


def reduce_powers(p):
    """sqrt(x)^k -> x.. for k>=2, sin^2 -> 1-cos^2"""
    if not isinstance(p, Poly): return p
    while True:
        hit = None
        for m in p.t:
            for a, e in m:
                if e >= 2 and Atom.byid[a].op in ('sqrt', 'sin'):
                    hit = a; break
            if hit is not None: break
        if hit is None: return simp(p)
        at = Atom.byid[hit]
        if at.op == 'sqrt': sq = as_poly(0, at.args[0])
        else: sq = padd(pconst(0, Fraction(1)), Poly(0, {((atom('cos', at.args, 'real').id, 2),): Fraction(1)}), -1)
        keep = {}; acc = Poly(0, {})
        for m, c in p.t.items():
            e = dict(m).get(hit, 0)
            if e < 2:
                keep[m] = keep.get(m, 0) + c
                continue
            rest = tuple(x for x in m if x[0] != hit)
            if e % 2: rest = mmul(rest, ((hit, 1),))
            q = Poly(0, {rest: c})
            for _ in range(e // 2): q = pmul(q, sq)
            acc = padd(acc, q)
        p = padd(Poly(0, {m: c for m, c in keep.items() if c}), acc)


def rmul(a, b):
    if isinstance(a, Fraction):
        if isinstance(b, Fraction): return a * b
        return simp(pscale(b, a))
    if isinstance(b, Fraction): return simp(pscale(a, b))
    return reduce_powers(pmul(a, b))


def rvar(name):
    return patom(atom('var', (name,), 'real'))


def rdiv(a, b):
    """caller has established b != 0"""
    if isinstance(b, Fraction):
        return rmul(a, 1 / b)
    if len(b.t) == 1:
        (m, c), = b.t.items()
        inv = Poly(0, {tuple((x, -e) for x, e in m): 1 / c})
        return reduce_powers(simp(pmul(as_poly(0, a), inv)))
    if isinstance(a, Poly) and len(a.t) == len(b.t):
        k = None
        for m, c in a.t.items():
            d = b.t.get(m)
            if d is None or (k is not None and c != k * d): break
            k = c / d
        else: return k
    # common monomial factor of b
    mins = None
    for m in b.t:
        d = dict(m)
        if mins is None: mins = dict(d)
        else:
            for k in list(mins):
                if k in d and (d[k] > 0) == (mins[k] > 0):
                    mins[k] = min(mins[k], d[k]) if mins[k] > 0 else max(mins[k], d[k])
                else: del mins[k]
    fac = tuple(sorted((mins or {}).items()))
    inv = tuple((x, -e) for x, e in fac)
    core = Poly(0, {mmul(m, inv): c for m, c in b.t.items()}) if fac else b
    lead = max(core.t)
    lc = core.t[lead]
    core = pscale(core, 1 / lc)
    d = atom('den', (core,), 'real')
    f = Poly(0, {mmul(inv, ((d.id, -1),)): 1 / lc})
    return reduce_powers(simp(pmul(as_poly(0, a), f)))


def rsqrt(x):
    if isinstance(x, Fraction):
        if x >= 0:
            from math import isqrt
            n, d = isqrt(x.numerator), isqrt(x.denominator)
            if n * n == x.numerator and d * d == x.denominator: return Fraction(n, d)
    return patom(atom('sqrt', (x,), 'real'))


def sincos_base(m, c):
    """(sin, cos) of c*m for a monomial m (tuple) and rational c"""
    neg = c < 0
    c = abs(c)
    # base unit m/2 when the denominator allows, else exact
    two = c * 2
    if two.denominator == 1: base, n = Fraction(1, 2), two.numerator
    else: base, n = c, 1
    arg = simp(Poly(0, {m: base}))
    at = None
    # inverse functions as arguments
    if len(m) == 1 and m[0][1] == 1:
        at = Atom.byid[m[0][0]]
    if at is not None and at.op in ('acos', 'asin', 'atan2', 'atan') and base == Fraction(1, 2) and n % 2 == 0:
        n //= 2
        if at.op == 'acos':
            c1 = at.args[0]; s1 = rsqrt(rsub(Fraction(1), rmul(c1, c1)))
        elif at.op == 'asin':
            s1 = at.args[0]; c1 = rsqrt(rsub(Fraction(1), rmul(s1, s1)))
        else:
            y, x = at.args if at.op == 'atan2' else (at.args[0], Fraction(1))
            r = rsqrt(radd(rmul(x, x), rmul(y, y)))
            s1, c1 = rdiv(y, r), rdiv(x, r)
    else:
        if isinstance(arg, Fraction):
            if arg == 0: return Fraction(0), Fraction(1)
        s1 = patom(atom('sin', (arg,), 'real')); c1 = patom(atom('cos', (arg,), 'real'))
    s, cc = s1, c1
    for _ in range(n - 1):
        s, cc = radd(rmul(s, c1), rmul(cc, s1)), rsub(rmul(cc, c1), rmul(s, s1))
    if neg: s = rneg(s)
    return s, cc


def sincos(x):
    if isinstance(x, Fraction):
        if x == 0: return Fraction(0), Fraction(1)
        return sincos_base((), x)
    s, c = Fraction(0), Fraction(1)
    for m, k in x.items():
        s2, c2 = sincos_base(m, k)
        s, c = radd(rmul(s, c2), rmul(c, s2)), rsub(rmul(c, c2), rmul(s, s2))
    return s, c


# ---- booleans --------------------------------------------------------------
class B:
    __slots__ = ('id', 'op', 'args')
    table = {}
    n = 0

    def __repr__(self):
        return '%s(%s)' % (self.op, ', '.join(map(repr, self.args)))


def bnode(op, args):
    k = (op, args)
    b = B.table.get(k)
    if b is None:
        b = B(); b.id = B.n; B.n += 1
        b.op, b.args = op, args
        B.table[k] = b
    return b


def bnot(a):
    if a is True: return False
    if a is False: return True
    if a.op == 'not': return a.args[0]
    if a.op == 'rlt': return rle0(rneg(a.args[0]))
    if a.op == 'rle': return rlt0(rneg(a.args[0]))
    if a.op == 'and': return bor(*[bnot(x) for x in a.args])
    if a.op == 'or': return band(*[bnot(x) for x in a.args])
    return bnode('not', (a,))


def band(*xs):
    out = []
    for x in xs:
        if x is False: return False
        if x is True: continue
        if x.op == 'and': out.extend(x.args)
        else: out.append(x)
    s = {}
    for x in out: s[x.id] = x
    for x in s.values():
        n = bnot(x)
        if n is not True and n is not False and n.id in s: return False
    if not s: return True
    if len(s) == 1: return next(iter(s.values()))
    return bnode('and', tuple(s[i] for i in sorted(s)))


def bor(*xs):
    out = []
    for x in xs:
        if x is True: return True
        if x is False: continue
        if x.op == 'or': out.extend(x.args)
        else: out.append(x)
    s = {}
    for x in out: s[x.id] = x
    for x in s.values():
        n = x.args[0] if x.op == 'not' else None
        if n is not None and n.id in s: return True
    if not s: return False
    if len(s) == 1: return next(iter(s.values()))
    return bnode('or', tuple(s[i] for i in sorted(s)))


def bxor(a, b):
    if a is True: return bnot(b)
    if b is True: return bnot(a)
    if a is False: return b
    if b is False: return a
    if a is b: return False
    if a.id > b.id: a, b = b, a
    return bnode('xor', (a, b))


def bite(c, a, b):
    if c is True: return a
    if c is False: return b
    return bor(band(c, a), band(bnot(c), b))


def bvar(name):
    return bnode('bvar', (name,))


def _norm_pos(p):
    lead = max(p.t)
    c = abs(p.t[lead])
    return p if c == 1 else pscale(p, 1 / c)


NONNEG_OPS = ('sqrt',)


def even_square_sum(p):
    """True if p is a sum of positive multiples of squares (and sqrt atoms): p >= 0"""
    for m, c in p.t.items():
        if c < 0: return False
        for a, e in m:
            if e % 2 and Atom.byid[a].op not in ('sqrt', 'abs'): return False
    return True


def rlt0(p):
    if isinstance(p, Fraction): return p < 0
    p = _norm_pos(p)
    if even_square_sum(p): return False
    return bnode('rlt', (p,))


def rle0(p):
    if isinstance(p, Fraction): return p <= 0
    p = _norm_pos(p)
    if even_square_sum(pscale(p, Fraction(-1))): return True
    return bnode('rle', (p,))


def req0(p):
    if isinstance(p, Fraction): return p == 0
    lead = max(p.t)
    p = pscale(p, 1 / p.t[lead])
    if p.t.get((), 0) > 0 and even_square_sum(p): return False
    if p.t.get((), 0) < 0 and even_square_sum(pscale(p, Fraction(-1))): return False
    return bnode('req', (p,))


def rcmp(pred, a, b):
    if pred == 'eq': return req0(rsub(a, b))
    if pred == 'ne': return bnot(req0(rsub(a, b)))
    if pred == 'lt': return rlt0(rsub(a, b))
    if pred == 'le': return rle0(rsub(a, b))
    if pred == 'gt': return rlt0(rsub(b, a))
    if pred == 'ge': return rle0(rsub(b, a))
    raise KeyError(pred)


# ---- bit-vectors -----------------------------------------------------------
def mask(n): return (1 << n) - 1


def bvar_bv(name, n): return patom(atom('var', (name,), ('bv', n)))


def sx(v, n):
    return v - (1 << n) if v >> (n - 1) else v


def vadd(n, a, b):
    if isinstance(a, int) and isinstance(b, int): return (a + b) & mask(n)
    return simp(padd(as_poly(n, a), as_poly(n, b)))


def vsub(n, a, b):
    if isinstance(a, int) and isinstance(b, int): return (a - b) & mask(n)
    return simp(padd(as_poly(n, a), as_poly(n, b), -1))


def vmul(n, a, b):
    if isinstance(a, int) and isinstance(b, int): return (a * b) & mask(n)
    if isinstance(a, int): return simp(pscale(b, a))
    if isinstance(b, int): return simp(pscale(a, b))
    return simp(pmul(a, b))


def vatom(op, args, n):
    return patom(atom(op, args, ('bv', n)))


def single_atom(p):
    """Poly that is exactly one atom -> Atom"""
    if isinstance(p, Poly) and len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1: return Atom.byid[m[0][0]]
    return None


def vbin(op, n, a, b, flags=()):
    ca, cb = isinstance(a, int), isinstance(b, int)
    if op == 'add': return vadd(n, a, b)
    if op == 'sub': return vsub(n, a, b)
    if op == 'mul': return vmul(n, a, b)
    if ca and cb:
        M = mask(n)
        if op == 'and': return a & b
        if op == 'or': return a | b
        if op == 'xor': return a ^ b
        if op == 'shl': return (a << b) & M if b < n else 0
        if op == 'lshr': return a >> b if b < n else 0
        if op == 'ashr': return (sx(a, n) >> min(b, n - 1)) & M
        if b != 0:
            if op == 'udiv': return a // b
            if op == 'urem': return a % b
            x, y = sx(a, n), sx(b, n)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0): q = -q
            if op == 'sdiv': return q & M
            if op == 'srem': return (x - q * y) & M
    if op == 'shl' and cb:
        return vmul(n, a, (1 << b) & mask(n)) if b < n else 0
    if op in ('udiv', 'sdiv') and b == 1: return a
    if op == 'and':
        if ca: a, b, ca, cb = b, a, cb, ca
        if cb:
            if b == 0: return 0
            if b == mask(n): return a
        if a == b: return a
    if op == 'or':
        if ca: a, b, ca, cb = b, a, cb, ca
        if cb:
            if b == 0: return a
            if b == mask(n): return b
        if a == b: return a
        if 'disjoint' in flags: return vadd(n, a, b)
    if op == 'xor':
        if ca: a, b, ca, cb = b, a, cb, ca
        if cb and b == 0: return a
        if cb and b == mask(n): return vsub(n, vsub(n, 0, a), 1)
        if a == b: return 0
    if op in ('and', 'or', 'xor'):
        x = single_atom(a); y = single_atom(b)
        if x is not None and x.op == 'b2i' and (cb and b == 1 or y is not None and y.op == 'b2i'):
            q = True if cb else y.args[0]
            return b2i({'and': band, 'or': bor, 'xor': bxor}[op](x.args[0], q), n)
    if op in ('lshr', 'ashr') and cb:
        if b == 0: return a
        if op == 'lshr':
            r = lshr_pieces(n, a, b)
            if r is not None: return r
    if op in ('and', 'or', 'xor') and not cb and repr(a) > repr(b):
        a, b = b, a
    return vatom(op, (a, b), n)


def lshr_pieces(n, a, k):
    """(hi * 2^k + lo) >> k when hi, lo are zero-extensions that fit"""
    if not isinstance(a, Poly): return None
    hi = {}; 
    for m, c in a.t.items():
        if m == (): 
            if c % (1 << k) == 0: hi[m] = c >> k; continue
            if c < (1 << k) and len(a.t) == 1: continue
            return None
        if len(m) != 1 or m[0][1] != 1: return None
        at = Atom.byid[m[0][0]]
        if at.op != 'zext': return None
        w = at.args[1]
        sh = (c & -c).bit_length() - 1
        if c != 1 << sh or sh + w > n: return None
        if sh >= k: hi[m] = c >> k
        elif sh + w <= k: pass
        else: return None
    # pieces must be disjoint
    segs = []
    for m, c in a.t.items():
        if m == (): continue
        at = Atom.byid[m[0][0]]; sh = c.bit_length() - 1
        segs.append((sh, sh + at.args[1]))
    segs.sort()
    for (x, y), (z, w) in zip(segs, segs[1:]):
        if y > z: return None
    if () in a.t and len(a.t) > 1: return None
    return simp(Poly(n, hi))


def vtrunc(v, m, n):
    """m bits -> n bits"""
    if isinstance(v, int): return v & mask(n)
    out = 0
    for mono, c in v.t.items():
        c &= mask(n)
        if not c: continue
        t = c
        for a, e in mono:
            x = atrunc(Atom.byid[a], n)
            for _ in range(e): t = vmul(n, t, x)
        out = vadd(n, out, t)
    return out


def atrunc(at, n):
    if at.op in ('zext', 'sext'):
        src, w = at.args
        if w == n: return src
        if w > n: return vtrunc(src, w, n)
        return vzext(src, w, n) if at.op == 'zext' else vsext(src, w, n)
    if at.op == 'b2i': return vatom('b2i', at.args, n)
    if at.op in ('and', 'or', 'xor'):
        w = at.sort[1]
        return vbin(at.op, n, vtrunc(at.args[0], w, n), vtrunc(at.args[1], w, n))
    if at.op == 'ite':
        w = at.sort[1]
        return vite(n, at.args[0], vtrunc(at.args[1], w, n), vtrunc(at.args[2], w, n))
    if at.op == 'ext':
        v, w, lo, k = at.args
        return vextract(v, w, lo, n)
    return vatom('ext', (patom(at), at.sort[1], 0, n), n)


def vzext(v, m, n):
    if isinstance(v, int): return v
    a = single_atom(v)
    if a is not None:
        if a.op == 'zext': return vatom('zext', (a.args[0], a.args[1]), n)
        if a.op == 'b2i': return vatom('b2i', a.args, n)
    return vatom('zext', (v, m), n)


def vsext(v, m, n):
    if isinstance(v, int): return sx(v, m) & mask(n)
    a = single_atom(v)
    if a is not None:
        if a.op == 'zext' and m > a.args[1]: return vatom('zext', (a.args[0], a.args[1]), n)
        if a.op == 'sext': return vatom('sext', (a.args[0], a.args[1]), n)
        if a.op == 'b2i' and m > 1: return vatom('b2i', a.args, n)
    return vatom('sext', (v, m), n)


def vextract(v, w, lo, k):
    """k bits of the w-bit value v from bit lo"""
    if lo == 0 and k == w: return v
    if isinstance(v, int): return (v >> lo) & mask(k)
    if lo == 0: return vtrunc(v, w, k)
    a = single_atom(v)
    if a is not None:
        if a.op == 'ext': return vextract(a.args[0], a.args[1], a.args[2] + lo, k)
        if a.op == 'zext':
            if lo + k <= a.args[1]: return vextract(a.args[0], a.args[1], lo, k)
            if lo >= a.args[1]: return 0
    r = lshr_pieces(w, v, lo)
    if r is not None: return vtrunc(r, w, k)
    return vatom('ext', (v, w, lo, k), k)


def vconcat(pieces):
    """pieces: [(value, bits)] least significant first -> (value, bits)"""
    out = []
    for v, w in pieces:
        if out:
            pv, pw = out[-1]
            if isinstance(v, int) and isinstance(pv, int):
                out[-1] = (pv | (v << pw), pw + w); continue
            a, b = ext_view(pv, pw), ext_view(v, w)
            if a and b and a[0] == b[0] and a[1] == b[1] and a[2] + pw == b[2]:
                src, sw, lo = a[0], a[1], a[2]
                out[-1] = (vextract(src, sw, lo, pw + w), pw + w); continue
        out.append((v, w))
    tot = sum(w for v, w in out)
    if len(out) == 1: return out[0]
    r = 0; sh = 0
    for v, w in out:
        r = vadd(tot, r, vmul(tot, vzext(v, w, tot), (1 << sh) & mask(tot)))
        sh += w
    return r, tot


def ext_view(v, w):
    """v (w bits) seen as bits lo.. of a wider value: (src, srcbits, lo)"""
    a = single_atom(v)
    if a is not None and a.op == 'ext': return (a.args[0], a.args[1], a.args[2])
    if a is None or True:
        # truncation of a polynomial is not an 'ext' atom; only exact atoms are recognised
        return None


def vite(n, c, a, b):
    if c is True: return a
    if c is False: return b
    if a == b: return a
    if isinstance(a, int) and isinstance(b, int):
        # linear in the boolean
        x = vatom('b2i', (c,), n)
        return vadd(n, b, vmul(n, x, (a - b) & mask(n)))
    return vatom('ite', (c, a, b), n)


def b2i(c, n):
    if c is True: return 1
    if c is False: return 0
    return vatom('b2i', (c,), n)


def veq(n, a, b):
    d = vsub(n, a, b)
    if isinstance(d, int): return d == 0
    # single boolean atom
    ms = [m for m in d.t if m]
    if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1:
        at = Atom.byid[ms[0][0][0]]
        c0 = d.t.get((), 0); c1 = d.t[ms[0]]
        if at.op == 'b2i':
            z = c0 == 0; o = (c0 + c1) & mask(n) == 0
            if z and o: return True
            if z: return bnot(at.args[0])
            if o: return at.args[0]
            return False
        if at.op == 'ite' and c1 in (1, mask(n)):
            k = (-c0 if c1 == 1 else c0) & mask(n)
            return bite(at.args[0], veq(n, at.args[1], k), veq(n, at.args[2], k))
        if at.op == 'zext' and c1 in (1, mask(n)):
            k = (-c0 if c1 == 1 else c0) & mask(n)
            if k >> at.args[1]: return False
            return veq(at.args[1], at.args[0], k)
        if c1 & 1 and c1 != 1:
            inv = pow(c1, -1, 1 << n)
            d = simp(pscale(d, inv))
    nd = simp(pscale(d, mask(n)))
    if repr(nd) < repr(d): d = nd
    return bnode('veq', (n, d))


def vult(n, a, b):
    if isinstance(a, int) and isinstance(b, int): return a < b
    if a == b: return False
    if b == 0: return False
    if a == mask(n): return False
    if b == 1: return veq(n, a, 0)
    if a == 0: return bnot(veq(n, b, 0))
    za, zb = zview(a, n), zview(b, n)
    if za and zb:
        w = max(za[1], zb[1])
        if w < n: return vult(w, vzext(za[0], za[1], w) if za[1] < w else za[0], vzext(zb[0], zb[1], w) if zb[1] < w else zb[0])
    return bnode('vult', (n, a, b))


def zview(v, n):
    if isinstance(v, int): return (v, max(1, v.bit_length()))
    a = single_atom(v)
    if a is not None and a.op == 'zext': return (a.args[0], a.args[1])
    return None


def vslt(n, a, b):
    if isinstance(a, int) and isinstance(b, int): return sx(a, n) < sx(b, n)
    if a == b: return False
    za, zb = zview(a, n), zview(b, n)
    if za and zb and za[1] < n and zb[1] < n: return vult(n, a, b)
    return bnode('vslt', (n, a, b))


def icmp(pred, n, a, b):
    if pred == 'eq': return veq(n, a, b)
    if pred == 'ne': return bnot(veq(n, a, b))
    if pred == 'ult': return vult(n, a, b)
    if pred == 'ugt': return vult(n, b, a)
    if pred == 'ule': return bnot(vult(n, b, a))
    if pred == 'uge': return bnot(vult(n, a, b))
    if pred == 'slt': return vslt(n, a, b)
    if pred == 'sgt': return vslt(n, b, a)
    if pred == 'sle': return bnot(vslt(n, b, a))
    if pred == 'sge': return bnot(vslt(n, a, b))
    raise KeyError(pred)


def i2b(v):
    """i1 value -> bool"""
    if isinstance(v, bool): return v
    if isinstance(v, int): return bool(v & 1)
    if isinstance(v, B): return v
    return veq(1, v, 1)
