"""Discharging of verification conditions.

prove(pc, goal) -> ('proved', backend) | ('refuted', model) | ('unknown', reason)
A VC is  /\\ pc  ==>  goal  over terms.py values."""
import os, sys, time, signal, pickle, select
from fractions import Fraction
import z3
from .terms import *
from . import terms as T

PI_LO = Fraction(314159265358979323, 10**17)
PI_HI = Fraction(314159265358979324, 10**17)
WEAK = set()   # ids of hypotheses that define a let-variable: tried without them first


# ---------------------------------------------------------------- polynomials
def expand_den(p, limit=20000):
    """(numerator, [(atom, k)]) : p * prod atom^k == numerator, without negative exponents or den atoms.
    Every atom in the list is known to be nonzero."""
    mults = {}
    if isinstance(p, Fraction): return p, mults
    rounds = 0
    while isinstance(p, Poly):
        rounds += 1
        if rounds > 200: raise TooBig()
        neg = {}
        pos = set()
        for m in p.t:
            for a, e in m:
                if e < 0: neg[a] = max(neg.get(a, 0), -e)
                elif Atom.byid[a].op == 'den': pos.add(a)
        if not neg and not pos: break
        if neg:
            # clear the newest atom first: its definition may contain the older ones
            a = max(neg)
            k = neg[a]
            mults[a] = mults.get(a, 0) + k
            p = Poly(0, {mmul(m, ((a, k),)): c for m, c in p.t.items()})
            at = Atom.byid[a]
            if at.op == 'den': pos = {a}
            else:
                p = reduce_powers(p); continue
        a = max(pos)
        core = as_poly(0, Atom.byid[a].args[0])
        groups = {}
        for m, c in p.t.items():
            e = 0
            for x, y in m:
                if x == a: e = y
            rest = tuple(z for z in m if z[0] != a)
            groups.setdefault(e, {})[rest] = c
        emax = max(groups)
        if min(groups) < 0: raise TooBig()
        acc = Poly(0, {})
        for e in range(emax, -1, -1):
            acc = pmul(acc, core) if acc.t else acc
            if e in groups:
                acc = padd(acc, Poly(0, groups[e]))
            if len(acc.t) > limit: raise TooBig()
        p = reduce_powers(acc)
    return p, mults


def clear_neg(p, even):
    """multiply by nonzero atoms so that no negative exponent remains; even: keep the sign"""
    while True:
        neg = {}
        for m in p.t:
            for a, e in m:
                if e < 0: neg[a] = max(neg.get(a, 0), -e)
        if not neg: return p
        mon = []
        for a, k in neg.items():
            if even and Atom.byid[a].op not in ('sqrt', 'abs'): k += k % 2
            mon.append((a, k))
        mon = tuple(sorted(mon))
        p = Poly(0, {mmul(m, mon): c for m, c in p.t.items()})
        q = reduce_powers(p)
        if not isinstance(q, Poly): return as_poly(0, q)
        p = q


def deg(m):
    return sum(e for a, e in m)


def grevlex(m):
    return (deg(m), tuple((-a, e) for a, e in m))


def divides(m, n):
    d = dict(n)
    return all(d.get(a, 0) >= e for a, e in m)


def mdiv(n, m):
    d = dict(n)
    for a, e in m:
        d[a] -= e
        if not d[a]: del d[a]
    return tuple(sorted(d.items()))


def normal_form(p, basis, budget=200000):
    """basis: list of (lm, Poly monic)"""
    p = dict(p.t); out = {}
    steps = 0
    import heapq
    while p:
        m = max(p, key=grevlex); c = p.pop(m)
        for lm, g in basis:
            if divides(lm, m):
                q = mdiv(m, lm)
                for m2, c2 in g.t.items():
                    if m2 == lm: continue
                    k = mmul(m2, q)
                    v = p.get(k, 0) - c * c2
                    if v: p[k] = v
                    else: p.pop(k, None)
                steps += len(g.t)
                if steps > budget: raise TooBig()
                break
        else:
            out[m] = c
    return Poly(0, out)


def monic(p):
    lm = max(p.t, key=grevlex)
    return lm, pscale(p, 1 / p.t[lm])


def mlcm(a, b):
    d = dict(a)
    for x, e in b: d[x] = max(d.get(x, 0), e)
    return tuple(sorted(d.items()))


def buchberger(ps, tlimit=5.0):
    t0 = time.time()
    basis = []
    for p in ps:
        q = normal_form(p, basis)
        if q.t: basis.append(monic(q))
    pairs = [(i, j) for i in range(len(basis)) for j in range(i)]
    while pairs:
        pairs.sort(key=lambda ij: -deg(mlcm(basis[ij[0]][0], basis[ij[1]][0])))
        i, j = pairs.pop()
        a, f = basis[i]; b, g = basis[j]
        l = mlcm(a, b)
        if deg(l) == deg(a) + deg(b): continue
        s = padd(Poly(0, {mmul(m, mdiv(l, a)): c for m, c in f.t.items()}),
                 Poly(0, {mmul(m, mdiv(l, b)): c for m, c in g.t.items()}), -1)
        s = normal_form(s, basis)
        if s.t:
            if () in s.t and len(s.t) == 1: return [((), s)]
            pairs += [(len(basis), k) for k in range(len(basis))]
            basis.append(monic(s))
        if time.time() - t0 > tlimit or len(basis) > 60: break
    return basis


def linear_subst(eqs, others):
    """use equations  c*x + rest = 0 (c constant, x not in rest) to eliminate x everywhere"""
    eqs = [e for e in eqs if e.t]
    subst = {}
    changed = True
    while changed:
        changed = False
        for i, e in enumerate(eqs):
            cand = None
            occ = {}
            for m in e.t:
                for a, k in m: occ[a] = occ.get(a, 0) + 1
            for m, c in e.t.items():
                if len(m) == 1 and m[0][1] == 1 and occ[m[0][0]] == 1 and Atom.byid[m[0][0]].op in ('var', 'fresh'):
                    if cand is None or m[0][0] > cand[0]: cand = (m[0][0], c)
            if cand:
                a, c = cand
                rhs = pscale(Poly(0, {m: v for m, v in e.t.items() if m != ((a, 1),)}), -1 / c)
                eqs.pop(i)
                eqs = [q for q in (as_poly(0, subst_var(x, a, rhs)) for x in eqs) if q.t]
                others = [as_poly(0, subst_var(x, a, rhs)) for x in others]
                changed = True
                break
    return eqs, others


def subst_var(p, a, rhs):
    groups = {}
    for m, c in p.t.items():
        e = 0
        for x, y in m:
            if x == a: e = y
        groups.setdefault(e, {})[tuple(z for z in m if z[0] != a)] = c
    if max(groups, default=0) == 0: return p
    acc = Poly(0, {})
    for e in range(max(groups), -1, -1):
        acc = pmul(acc, rhs) if acc.t else acc
        if e in groups: acc = padd(acc, Poly(0, groups[e]))
    return reduce_powers(acc)


def deep_atoms(p, acc):
    for m in p.t:
        for a, e in m:
            if a in acc: continue
            acc.add(a)
            at = Atom.byid[a]
            for x in at.args:
                if isinstance(x, Poly): deep_atoms(x, acc)


def unify_roots(q, eqs):
    """square roots whose arguments are equal on the path are the same value"""
    roots = {}
    for m in q.t:
        for a, e in m:
            at = Atom.byid[a]
            if at.op == 'sqrt' and a not in roots and isinstance(at.args[0], Poly): roots[a] = at.args[0]
    small = [e for e in eqs if len(e.t) <= 40]
    if len(roots) < 2 or not small: return None
    try:
        basis = buchberger(small, 2.0)
        forms = {}; rep = {}
        for a in sorted(roots):
            x = roots[a]
            if any(e < 0 for m in x.t for _, e in m): continue
            f = normal_form(x, basis)
            k = tuple(sorted(f.t.items()))
            rep[a] = forms.setdefault(k, a)
        if all(k == v for k, v in rep.items()): return None
        out = {}
        for m, c in q.t.items():
            n = ()
            for a, e in m: n = mmul(n, ((rep.get(a, a), e),))
            v = out.get(n, 0) + c
            if v: out[n] = v
            else: out.pop(n, None)
        r = as_poly(0, reduce_powers(Poly(0, out)))
        return r
    except TooBig:
        return None


def prove_real_eq(p, pc):
    """p == 0 from polynomial identities and the equalities of the path"""
    q, _ = expand_den(p)
    if isinstance(q, Fraction): return q == 0
    eqs = []
    for c in pc:
        if c.op == 'req':
            try:
                e, _ = expand_den(c.args[0])
            except TooBig:
                continue
            if isinstance(e, Poly) and len(e.t) <= 400: eqs.append(e)
    if not eqs: return False
    u = unify_roots(q, eqs)
    if u is not None:
        q = u
        if not q.t: return True
    # atoms in sqrt/sin arguments are not touched by elimination; only use it on plain variables
    eqs2, (q2,) = linear_subst(eqs, [q])
    if not q2.t: return True
    rel = set(a for m in q2.t for a, e in m)
    grow = True
    used = []
    while grow:
        grow = False
        for e in eqs2:
            if any(e is u for u in used): continue
            at = set(a for m in e.t for a, _ in m)
            if at & rel:
                used.append(e); rel |= at; grow = True
    try:
        basis = buchberger(used, 4.0)
        r = normal_form(q2, basis)
        if not r.t: return True
    except TooBig:
        pass
    return False


def bv_subst(p, a, rhs, n):
    if not isinstance(p, Poly): return p
    out = 0
    for m, c in p.t.items():
        t = c
        rest = []
        e0 = 0
        for x, e in m:
            if x == a: e0 = e
            else: rest.append((x, e))
        t = simp(Poly(n, {tuple(rest): c})) if rest else c
        for _ in range(e0): t = vmul(n, t, rhs)
        out = vadd(n, out, t)
    return out


def prove_bv_eq(n, p, pc):
    """p == 0 modulo 2^n by eliminating atoms that the path equates with polynomials"""
    eqs = []
    for c in pc:
        if c.op == 'veq' and c.args[0] == n and isinstance(c.args[1], Poly): eqs.append(c.args[1])
    changed = True
    while changed and eqs:
        changed = False
        for i, e in enumerate(eqs):
            if not isinstance(e, Poly): continue
            occ = {}
            for m in e.t:
                for a, k in m: occ[a] = occ.get(a, 0) + 1
            best = None
            for m, c in e.t.items():
                if len(m) == 1 and m[0][1] == 1 and occ[m[0][0]] == 1 and (c == 1 or c == mask(n)):
                    if best is None or m[0][0] > best[0]: best = (m[0][0], c)
            if best is None: continue
            a, c = best
            rest = Poly(n, {m: v for m, v in e.t.items() if m != ((a, 1),)})
            rhs = simp(pscale(rest, mask(n) if c == 1 else 1))
            eqs.pop(i)
            eqs = [q for q in (bv_subst(x, a, rhs, n) for x in eqs) if isinstance(q, Poly)]
            p = bv_subst(p, a, rhs, n)
            if not isinstance(p, Poly): return p == 0
            changed = True
            break
    return False


# ---------------------------------------------------------------- z3
class Conv:
    def __init__(self):
        self.a = {}      # atom id -> z3
        self.defs = {}   # atom id -> [constraints]
        self.deps = {}   # atom id -> set of atom ids
        self.b = {}      # B id -> (z3, set of atom ids)
        self.stack = []

    def touch(self, aid):
        if self.stack: self.stack[-1].add(aid)

    def atom(self, at):
        self.touch(at.id)
        if at.id in self.a: return self.a[at.id]
        self.stack.append(set())
        r = self.mk(at)
        self.deps[at.id] = self.stack.pop()
        self.a[at.id] = r
        if at.id in self.pending: 
            self.stack.append(set())
            self.defs[at.id] = self.pending.pop(at.id)(r)
            self.deps[at.id] |= self.stack.pop()
        return r

    pending = {}

    def q(self, f): return z3.Q(f.numerator, f.denominator)

    def mk(self, at):
        op, A = at.op, at.args
        if at.sort == 'real':
            v = z3.Real('r%d' % at.id)
            d = None
            if op == 'den':
                d = lambda v: [v * self.negfree_mult(A[0])[1] == self.negfree_mult(A[0])[0], v != 0]
            elif op == 'sqrt':
                d = lambda v: [v >= 0] + self.cmp_defs(v, A[0])
            elif op == 'sin' or op == 'cos':
                def d(v):
                    s = self.atom(T.atom('sin', A, 'real')) if op == 'cos' else v
                    c = self.atom(T.atom('cos', A, 'real')) if op == 'sin' else v
                    out = [s * s + c * c == 1]
                    x = A[0]
                    half = None
                    a = single_scaled(x)
                    if a is not None and a[1] == Fraction(1, 2) and a[0].op == 'acos':
                        arg = self.real(a[0].args[0])
                        out += [2 * c * c == 1 + arg, c >= 0, s >= 0]
                    if isinstance(x, Fraction):
                        import mpmath
                        mpmath.mp.dps = 40
                        f = mpmath.sin if op == 'sin' else mpmath.cos
                        val = Fraction(int(f(mpmath.mpf(x.numerator) / x.denominator) * 10**30), 10**30)
                        out += [v > self.q(val - Fraction(1, 10**25)), v < self.q(val + Fraction(1, 10**25))]
                    return out
            elif op == 'acos':
                d = lambda v: [v >= 0, v <= self.q(PI_HI), v * v >= 2 - 2 * self.real(A[0]), v * v <= self.q(PI_HI * PI_HI / 2) * (1 - self.real(A[0]))]
            elif op == 'asin':
                d = lambda v: [v >= -self.q(PI_HI) / 2, v <= self.q(PI_HI) / 2, v * self.real(A[0]) >= 0, v * v >= self.real(A[0]) * self.real(A[0])]
            elif op == 'atan2':
                d = lambda v: [v >= -self.q(PI_HI), v <= self.q(PI_HI)]
            elif op == 'abs':
                d = lambda v: [v >= 0, z3.Or(v == self.real(A[0]), v == -self.real(A[0]))]
            elif op == 'sitofp':
                d = lambda v: [v == z3.ToReal(z3.BV2Int(self.bv(A[0], A[1]), True))]
            elif op == 'uitofp':
                d = lambda v: [v == z3.ToReal(z3.BV2Int(self.bv(A[0], A[1]), False))]
            if d: self.pending[at.id] = d
            return v
        n = at.sort[1]
        if op in ('var', 'fresh', 'base', 'fbits', 'fn'):
            return z3.BitVec('v%d' % at.id, n)
        if op == 'sel':
            arr = z3.Array('arr_%s' % (A[0],), z3.BitVecSort(64), z3.BitVecSort(8))
            return z3.Select(arr, self.bv(A[1], 64))
        if op == 'zext': return z3.ZeroExt(n - A[1], self.bv(A[0], A[1]))
        if op == 'sext': return z3.SignExt(n - A[1], self.bv(A[0], A[1]))
        if op == 'ext': return z3.Extract(A[2] + A[3] - 1, A[2], self.bv(A[0], A[1]))
        if op == 'b2i': return z3.If(self.bool(A[0]), z3.BitVecVal(1, n), z3.BitVecVal(0, n))
        if op == 'ite': return z3.If(self.bool(A[0]), self.bv(A[1], n), self.bv(A[2], n))
        if op in ('ufn',):
            f = z3.Function('uf_%s' % A[0], *([z3.BitVecSort(w) for _, w in A[1]] + [z3.BitVecSort(n)]))
            return f(*[self.bv(x, w) for x, w in A[1]])
        x, y = self.bv(A[0], n), self.bv(A[1], n)
        if op == 'and': return x & y
        if op == 'or': return x | y
        if op == 'xor': return x ^ y
        if op == 'shl': return x << y
        if op == 'lshr': return z3.LShR(x, y)
        if op == 'ashr': return x >> y
        if op == 'udiv': return z3.UDiv(x, y)
        if op == 'urem': return z3.URem(x, y)
        if op == 'sdiv': return x / y
        if op == 'srem': return z3.SRem(x, y)
        raise KeyError(op)

    def negfree_mult(self, p):
        """(z3 numerator, z3 multiplier) with p*mult == numerator"""
        if isinstance(p, Fraction): return self.q(p), self.q(Fraction(1))
        neg = {}
        for m in p.t:
            for a, e in m:
                if e < 0: neg[a] = max(neg.get(a, 0), -e)
        mon = tuple(sorted(neg.items()))
        num = Poly(0, {mmul(m, mon): c for m, c in p.t.items()})
        mul = z3.RealVal(1)
        for a, k in mon:
            for _ in range(k): mul = mul * self.atom(Atom.byid[a])
        return self.real(num), mul

    def cmp_defs(self, v, x):
        num, mul = self.negfree_mult(x)
        return [v * v * mul == num]

    def real(self, p):
        if isinstance(p, Fraction): return self.q(p)
        s = []
        for m, c in p.items():
            t = None
            for a, e in m:
                x = self.atom(Atom.byid[a])
                if e < 0: x = 1 / x; e = -e
                for _ in range(e): t = x if t is None else t * x
            if t is None: t = self.q(c)
            elif c != 1: t = self.q(c) * t
            s.append(t)
        if not s: return z3.RealVal(0)
        return z3.Sum(s) if len(s) > 1 else s[0]

    def bv(self, p, n):
        if isinstance(p, bool): return z3.BitVecVal(int(p), n)
        if isinstance(p, int): return z3.BitVecVal(p, n)
        if isinstance(p, B): return z3.If(self.bool(p), z3.BitVecVal(1, n), z3.BitVecVal(0, n))
        r = None
        for m, c in p.items():
            t = None
            for a, e in m:
                x = self.atom(Atom.byid[a])
                for _ in range(e): t = x if t is None else t * x
            if t is None: t = z3.BitVecVal(c, n)
            elif c == (1 << n) - 1: t = -t
            elif c != 1: t = t * z3.BitVecVal(c, n)
            r = t if r is None else r + t
        return z3.BitVecVal(0, n) if r is None else r

    def bool(self, b):
        if b is True: return z3.BoolVal(True)
        if b is False: return z3.BoolVal(False)
        if b.id in self.b:
            r, deps = self.b[b.id]
            if self.stack: self.stack[-1] |= deps
            return r
        self.stack.append(set())
        op, A = b.op, b.args
        if op == 'not': r = z3.Not(self.bool(A[0]))
        elif op == 'and': r = z3.And(*[self.bool(x) for x in A])
        elif op == 'or': r = z3.Or(*[self.bool(x) for x in A])
        elif op == 'xor': r = z3.Xor(self.bool(A[0]), self.bool(A[1]))
        elif op == 'bvar': r = z3.Bool('b_%s' % (A[0],))
        elif op == 'rlt': r = self.real(clear_neg(A[0], True)) < 0
        elif op == 'rle': r = self.real(clear_neg(A[0], True)) <= 0
        elif op == 'req': r = self.real(clear_neg(A[0], False)) == 0
        elif op == 'veq': r = self.bv(A[1], A[0]) == 0
        elif op == 'vult': r = z3.ULT(self.bv(A[1], A[0]), self.bv(A[2], A[0]))
        elif op == 'vslt': r = self.bv(A[1], A[0]) < self.bv(A[2], A[0])
        else: raise KeyError(op)
        deps = self.stack.pop()
        self.b[b.id] = (r, deps)
        if self.stack: self.stack[-1] |= deps
        return r

    def query(self, bs):
        """z3 assertions for the conjunction of bs, with all definitions"""
        self.stack.append(set())
        out = [self.bool(b) for b in bs]
        need = self.stack.pop()
        seen = set()
        work = list(need)
        while work:
            a = work.pop()
            if a in seen: continue
            seen.add(a)
            out.extend(self.defs.get(a, ()))
            work.extend(self.deps.get(a, ()))
        return out, seen


def single_scaled(x):
    if isinstance(x, Poly) and len(x.t) == 1:
        (m, c), = x.t.items()
        if len(m) == 1 and m[0][1] == 1: return Atom.byid[m[0][0]], c
    return None


conv = Conv()


def has_real(bs):
    seen = set()
    def go(b):
        if b is True or b is False or b.id in seen: return False
        seen.add(b.id)
        if b.op in ('rlt', 'rle', 'req'): return True
        return any(isinstance(x, B) and go(x) for x in b.args)
    return any(go(b) for b in bs)


def feasible(pc, ms=300):
    """False only if the path condition is proved unsatisfiable"""
    try:
        q, _ = conv.query(pc)
    except TooBig:
        return True
    s = z3.Solver()
    s.set('timeout', ms)
    s.add(*q)
    r = s.check()
    if r == z3.unsat: return False
    if r == z3.unknown:
        try: return not linear_mod(pc, False, ms)
        except (TooBig, RecursionError, z3.Z3Exception): pass
    return True


def simplified(pc, goal):
    """an equivalent sequent over fewer atoms: every polynomial (also below square roots) is reduced modulo the
    equalities of the path, after naming the nonlinear polynomials which the path bounds.  None: nothing to do"""
    eqs = []; names = {}
    def poly_ok(p): return isinstance(p, Poly) and all(e > 0 for m in p.t for _, e in m)
    def visit(c):
        if c.op in ('rlt', 'rle'):
            p = c.args[0]
            if not poly_ok(p) or not 3 <= len(p.t) <= 40: return
            core = Poly(0, {m: v for m, v in p.t.items() if m != ()})
            if max(deg(m) for m in core.t) < 2: return
            if any(Atom.byid[a].op not in ('var', 'fresh') for m in core.t for a, _ in m): return
            core = monic(core)[1]
            k = tuple(sorted(core.t.items()))
            if k not in names: names[k] = core
        elif c.op in ('not', 'and', 'or'):
            for x in c.args: visit(x)
    for c in pc:
        if c.op == 'req' and poly_ok(c.args[0]) and len(c.args[0].t) <= 40: eqs.append(c.args[0])
        else: visit(c)
    if not eqs and not names: return None
    basis = buchberger(eqs, 2.0)
    n = 0
    for k in sorted(names, key=lambda k: len(k)):
        f = normal_form(names[k], basis)
        f = Poly(0, {m: v for m, v in f.t.items() if m != ()})
        if len(f.t) < 2 or len(f.t) * 2 <= len(k) or n >= 4: continue
        L = atom('fresh', ('named', k), 'real')
        basis = buchberger([g for _, g in basis] + [padd(names[k], Poly(0, {((L.id, 1),): Fraction(1)}), -1)], 2.0)
        n += 1
    amemo = {}
    def ratom(a):
        if a in amemo: return amemo[a]
        at = Atom.byid[a]
        r = None
        if at.op == 'sqrt' and isinstance(at.args[0], Poly) and poly_ok(at.args[0]):
            f = rpoly(at.args[0])
            r = rsqrt(f)
        elif at.op in ('acos', 'asin') and isinstance(at.args[0], Poly) and poly_ok(at.args[0]):
            f = rpoly(at.args[0])
            if f is not at.args[0]: r = patom(atom(at.op, (f,), 'real'))
        amemo[a] = r
        return r
    def rpoly(p):
        if not poly_ok(p): return p
        if any(ratom(a) is not None for m in p.t for a, _ in m):
            acc = Fraction(0)
            for m, c in p.t.items():
                t = Fraction(c)
                for a, e in m:
                    x = ratom(a)
                    if x is None: x = Poly(0, {((a, 1),): Fraction(1)})
                    for _ in range(e): t = rmul(t, x)
                acc = radd(acc, t)
            if isinstance(acc, Fraction): return acc
            p = acc
            if not poly_ok(p): return p
        return simp(normal_form(p, basis))
    memo = {}
    def red(b):
        if not isinstance(b, B): return b
        if b.id in memo: return memo[b.id]
        if b.op in ('rlt', 'rle', 'req'):
            p = b.args[0]
            f = rpoly(clear_neg(p, b.op != 'req')) if isinstance(p, Poly) else p
            if isinstance(f, Fraction): r = f < 0 if b.op == 'rlt' else f <= 0 if b.op == 'rle' else f == 0
            else: r = bnode(b.op, (f,))
        elif b.op == 'not': r = bnot(red(b.args[0]))
        elif b.op == 'and': r = band(*[red(x) for x in b.args])
        elif b.op == 'or': r = bor(*[red(x) for x in b.args])
        else: r = b
        memo[b.id] = r
        return r
    pc2 = []
    for c in pc:
        if c.op == 'req' and any(c.args[0] is e for e in eqs): continue
        c = red(c)
        if c is not True: pc2.append(c)
    return pc2, red(goal)


def linear_mod(pc, goal, nl=0):
    """arithmetic on the simplified sequent: linear over the monomials; nl: also nonlinear (that many ms)"""
    r = simplified(pc, goal)
    if r is None: return False
    pc2, g2 = r
    if g2 is True or any(c is False for c in pc2): return True
    if prove_linear(pc2, g2): return True
    if not nl: return False
    sets = []
    if g2 is not False: sets.append(within(pc2, g2) + [bnot(g2)])
    # the path itself may be contradictory: the latest decisions with what is known about their atoms
    for c in pc2[-3:]:
        w = within(pc2, c)
        if len(w) > 1 and w not in sets: sets.append(w)
    for hyp in sets:
        try: q, _ = conv.query(hyp)
        except TooBig: continue
        s = z3.Tactic('qfnra-nlsat').solver()
        s.set('timeout', nl if hyp is sets[0] else nl // 4)
        s.add(*q)
        if s.check() == z3.unsat: return True
    return False


def z3_model_values(m, seen):
    vals = {}
    for a in seen:
        at = Atom.byid[a]
        if at.op == 'var':
            v = m.eval(conv.a[a], model_completion=True)
            if at.sort == 'real':
                if z3.is_rational_value(v): vals[at.args[0]] = ('r', v.numerator_as_long(), v.denominator_as_long())
                elif z3.is_algebraic_value(v):
                    v = v.approx(20); vals[at.args[0]] = ('r', v.numerator_as_long(), v.denominator_as_long())
            else:
                vals[at.args[0]] = ('i', v.as_long())
        elif at.op == 'sel':
            off = m.eval(conv.bv(at.args[1], 64), model_completion=True).as_long()
            vals['%s[%d]' % (at.args[0], off)] = ('i', m.eval(conv.a[a], model_completion=True).as_long())
    return vals


def split_goal(g):
    if isinstance(g, B) and g.op == 'and': return list(g.args)
    return [g]


def relevant(pc, goal):
    """pc conjuncts connected with the goal through shared atoms (a subset: sound for proving)"""
    def atoms_of(b, acc):
        for x in b.args:
            if isinstance(x, Poly): deep_atoms(x, acc)
            elif isinstance(x, B):
                if x.op == 'bvar': acc.add(('b', x.id))
                atoms_of(x, acc)
        if b.op == 'bvar': acc.add(('b', b.id))
    base = set(); atoms_of(goal, base)
    rest = []
    for c in pc:
        s = set(); atoms_of(c, s); rest.append((c, s))
    out = []
    grow = True
    while grow:
        grow = False; nr = []
        for c, s in rest:
            if s & base: out.append(c); base |= s; grow = True
            else: nr.append((c, s))
        rest = nr
    return out


def atoms_of(b, acc):
    for x in b.args:
        if isinstance(x, Poly): deep_atoms(x, acc)
        elif isinstance(x, B):
            if x.op == 'bvar': acc.add(('b', x.id))
            atoms_of(x, acc)
    if b.op == 'bvar': acc.add(('b', b.id))


def within(pc, goal):
    """pc conjuncts that speak about atoms of the goal only"""
    base = set(); atoms_of(goal, base)
    out = []
    for c in pc:
        s = set(); atoms_of(c, s)
        if s <= base: out.append(c)
    return out


def prove_linear(pc, goal, ms=1500):
    """linear real arithmetic over the monomials (each monomial opaque; even powers nonnegative)"""
    mono = {}; bools = {}
    class Skip(Exception): pass
    def lin(p):
        if isinstance(p, Fraction): return conv.q(p)
        t = []
        for m, c in p.t.items():
            if m == (): t.append(conv.q(Fraction(c))); continue
            v = mono.get(m)
            if v is None: v = mono[m] = z3.Real('m%d' % len(mono))
            t.append(conv.q(Fraction(c)) * v)
        return z3.Sum(t) if len(t) > 1 else (t[0] if t else z3.RealVal(0))
    def go(b):
        if b is True or b is False: return z3.BoolVal(b)
        op, A = b.op, b.args
        if op == 'not': return z3.Not(go(A[0]))
        if op == 'and': return z3.And(*[go(x) for x in A])
        if op == 'or': return z3.Or(*[go(x) for x in A])
        if op == 'xor': return z3.Xor(go(A[0]), go(A[1]))
        if op == 'rlt': return lin(A[0]) < 0
        if op == 'rle': return lin(A[0]) <= 0
        if op == 'req': return lin(A[0]) == 0
        if b.id not in bools: bools[b.id] = z3.Bool('b%d' % b.id)
        return bools[b.id]
    s = z3.Solver(); s.set('timeout', ms)
    if goal is not False: s.add(z3.Not(go(goal)))
    if not mono: return False
    for c in pc: s.add(go(c))
    for m, v in mono.items():
        if all(e % 2 == 0 for a, e in m): s.add(v >= 0)
        if len(m) == 1 and m[0][1] % 2 and Atom.byid[m[0][0]].op in ('sqrt', 'abs'): s.add(v >= 0)
    return s.check() == z3.unsat


class NoLia(Exception):
    pass


def prove_lia(pc, goal, ms=4000):
    """bit-vector comparisons of polynomials that provably do not wrap, as linear/nonlinear integer arithmetic"""
    rng = {}
    def var_of(n, p):
        a = single_atom(p)
        return a.id if a is not None and a.op in ('var', 'fresh') and a.sort[1] == n else None
    def bound(c):
        neg = c.op == 'not'
        if neg: c = c.args[0]
        if c.op == 'vslt':
            n, a, b = c.args
            if isinstance(a, int):
                x = var_of(n, b)
                if x is not None:
                    v = T.sx(a, n)
                    lo, hi = rng.get(x, (-(1 << (n - 1)), (1 << (n - 1)) - 1))
                    rng[x] = (lo, min(hi, v)) if neg else (max(lo, v + 1), hi)
            elif isinstance(b, int):
                x = var_of(n, a)
                if x is not None:
                    v = T.sx(b, n)
                    lo, hi = rng.get(x, (-(1 << (n - 1)), (1 << (n - 1)) - 1))
                    rng[x] = (max(lo, v), hi) if neg else (lo, min(hi, v - 1))
    for c in pc: bound(c)
    iv = {}
    def atomz(aid, n):
        at = Atom.byid[aid]
        if at.op not in ('var', 'fresh'): raise NoLia()
        if aid not in iv: iv[aid] = z3.Int('i%d' % aid)
        return iv[aid], rng.get(aid, (-(1 << (n - 1)), (1 << (n - 1)) - 1))
    def poly(p, n):
        """(integer expression, low, high)"""
        if isinstance(p, int):
            v = T.sx(p, n); return z3.IntVal(v), v, v
        if not isinstance(p, Poly): raise NoLia()
        tot, lo, hi = [], 0, 0
        for m, c in p.t.items():
            c = T.sx(c, n)
            t, l, h = None, 1, 1
            for a, e in m:
                x, (xl, xh) = atomz(a, n)
                for _ in range(e):
                    t = x if t is None else t * x
                    q = (l * xl, l * xh, h * xl, h * xh); l, h = min(q), max(q)
            if t is None: t = z3.IntVal(1)
            tot.append(c * t)
            q = (c * l, c * h); lo += min(q); hi += max(q)
        return z3.Sum(tot), lo, hi
    def go(b):
        if b is True or b is False: return z3.BoolVal(b)
        op, A = b.op, b.args
        if op == 'not': return z3.Not(go(A[0]))
        if op == 'and': return z3.And(*[go(x) for x in A])
        if op == 'or': return z3.Or(*[go(x) for x in A])
        if op == 'xor': return z3.Xor(go(A[0]), go(A[1]))
        if op == 'vslt':
            n = A[0]
            x, l, h = poly(A[1], n); y, l2, h2 = poly(A[2], n)
            B_ = 1 << (n - 1)
            if min(l, l2) < -B_ or max(h, h2) >= B_: raise NoLia()
            return x < y
        if op == 'veq':
            n = A[0]
            x, l, h = poly(A[1], n)
            if l <= -(1 << n) or h >= 1 << n: raise NoLia()
            return x == 0
        raise NoLia()
    s = z3.Solver(); s.set('timeout', ms)
    try: s.add(z3.Not(go(goal)))
    except NoLia: return False
    for c in pc:
        try: s.add(go(c))
        except NoLia: pass
    for a, v in iv.items():
        lo, hi = rng.get(a, (None, None))
        n = Atom.byid[a].sort[1]
        if lo is None: lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
        s.add(v >= lo, v <= hi)
    return s.check() == z3.unsat


def has_bvcmp(b):
    if not isinstance(b, B): return False
    return b.op in ('vslt', 'veq') or any(has_bvcmp(x) for x in b.args)


def prove(pc, goal, ms=20000):
    if goal is True: return ('proved', 'syntactic', None)
    pc = [c for c in pc if c is not True]
    if any(c is False for c in pc): return ('proved', 'syntactic', None)
    ids = {c.id for c in pc}
    if goal is False:
        g = None
    else:
        parts = split_goal(goal)
        if len(parts) > 1:
            back = set()
            for p in parts:
                r = prove(pc, p, ms)
                if r[0] != 'proved': return r
                back.add(r[1])
            return ('proved', '+'.join(sorted(back)), None)
        if goal.id in ids: return ('proved', 'syntactic', None)
        if goal.op == 'req':
            try:
                if prove_real_eq(goal.args[0], pc): return ('proved', 'polynomial', None)
            except (TooBig, RecursionError):
                pass
        if goal.op == 'veq' and isinstance(goal.args[1], Poly):
            try:
                if prove_bv_eq(goal.args[0], goal.args[1], pc): return ('proved', 'polynomial', None)
            except (TooBig, RecursionError):
                pass
    ng = [] if goal is False else [bnot(goal)]
    reason = 'timeout'
    if ng and has_real(ng):
        try:
            if prove_linear(pc, goal): return ('proved', 'linear', None)
            if linear_mod(pc, goal, 2000): return ('proved', 'nlsat', None)
        except (TooBig, RecursionError, z3.Z3Exception): pass
    elif ng and has_bvcmp(goal):
        try:
            if prove_lia(pc, goal): return ('proved', 'integer', None)
        except (TooBig, RecursionError, z3.Z3Exception): pass
    # first the relevant part only, then everything
    tries = []
    if ng:
        strong = [c for c in pc if c.id not in WEAK]
        near = within(pc, goal)
        if len(near) < len(pc): tries.append((near, ms // 8))
        r2 = relevant(strong, goal)
        if len(r2) < len(pc) and len(r2) != len(near): tries.append((r2, ms // 4))
        r = relevant(pc, goal)
        if len(r) < len(pc) and len(r) != len(r2): tries.append((r, ms // 2))
    tries.append((pc, ms))
    for hyp, t in tries:
        try:
            q, seen = conv.query(list(hyp) + ng)
        except TooBig:
            return ('unknown', 'polynomial too large', None)
        real = has_real(list(hyp) + ng)
        for tac in (('nl', 'smt') if real else ('smt',)):
            if tac == 'nl':
                s = z3.Tactic('qfnra-nlsat').solver() if not any(z3.is_bv(v) for v in []) else z3.Solver()
            else:
                s = z3.Solver()
            s.set('timeout', t // 2 if real else t)
            try:
                s.add(*q)
                r = s.check()
            except z3.Z3Exception as e:
                reason = str(e); continue
            if r == z3.unsat: return ('proved', 'z3', None)
            if r == z3.sat and hyp is pc:
                return ('refuted', 'z3', z3_model_values(s.model(), seen))
            if r == z3.sat: break
            reason = s.reason_unknown()
    return ('unknown', reason, None)


# ---------------------------------------------------------------- parallel
def prove_all(vcs, ms=20000, jobs=8, deadline=None):
    """vcs: [(pc, goal)].  Each VC is decided in a forked worker that is killed when it overruns."""
    res = [None] * len(vcs)
    todo = []
    for i, (pc, g) in enumerate(vcs):
        if g is True: res[i] = ('proved', 'syntactic', None)
        elif g is not False and any(c is not True and c is not False and c.id == g.id for c in pc):
            res[i] = ('proved', 'syntactic', None)
        else: todo.append(i)
    todo.reverse()
    running = {}; refuted = 0; begin = time.time()
    hard = ms / 1000.0 * 2.5 + 15
    sys.stdout.flush(); sys.stderr.flush()
    chunk = max(1, min(64, len(todo) // (jobs * 4) or 1))
    while todo or running:
        while todo and len(running) < jobs and not (deadline and time.time() > deadline):
            ids = [todo.pop() for _ in range(min(chunk, len(todo)))]
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    for i in ids:
                        try:
                            x = prove(vcs[i][0], vcs[i][1], ms)
                        except Exception as e:
                            x = ('unknown', 'internal: %r' % (e,), None)
                        b = pickle.dumps((i, x))
                        os.write(w, len(b).to_bytes(4, 'little') + b)
                finally:
                    os._exit(0)
            os.close(w)
            running[r] = [pid, ids, b'', time.time()]
        if deadline and time.time() > deadline and not running: break
        # many refuted ones: the others add nothing (they are left undecided)
        if refuted >= 24 and time.time() - begin > 40: deadline = min(deadline or begin, time.time() - 1)
        rs, _, _ = select.select(list(running), [], [], 0.5)
        now = time.time()
        for r in list(running):
            ent = running[r]
            fin = False
            if r in rs:
                b = os.read(r, 1 << 20)
                if not b: fin = True
                ent[2] += b
                while len(ent[2]) >= 4:
                    n = int.from_bytes(ent[2][:4], 'little')
                    if len(ent[2]) < 4 + n: break
                    i, x = pickle.loads(ent[2][4:4 + n])
                    ent[2] = ent[2][4 + n:]
                    res[i] = x; ent[1].remove(i); ent[3] = now
                    refuted += x[0] == 'refuted'
            if not fin and (now - ent[3] > hard or (deadline and now > deadline)):
                os.kill(ent[0], signal.SIGKILL); fin = True
                if ent[1]:
                    res[ent[1][0]] = ('unknown', 'hard timeout', None)
                    ent[1].pop(0)
                    todo.extend(ent[1]); ent[1] = []
            if fin:
                os.waitpid(ent[0], 0); os.close(r); del running[r]
                for i in ent[1]:
                    if res[i] is None: res[i] = ('unknown', 'worker died', None)
    for i in range(len(res)):
        if res[i] is None: res[i] = ('unknown', 'out of time', None)
    return res
