"""Back end for equalities of real terms that are rational functions: polynomial normal form (sympy), modulo sin^2 + cos^2 = 1.
An identity of rational functions holds wherever no denominator vanishes; the denominators are preconditions stated by the specification."""
import time, random
from fractions import Fraction
import z3
from sympy.polys.rings import ring
from sympy.polys.domains import QQ
from vals import *
import lib
from core import Obl


def atoms(t, acc, seen):
    if t.get_id() in seen: return
    seen.add(t.get_id())
    k = t.decl().kind() if z3.is_app(t) else None
    if z3.is_rational_value(t) or z3.is_int_value(t): return
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS):
        for c in t.children(): atoms(c, acc, seen)
        return
    if k == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)):
        atoms(t.arg(0), acc, seen); return
    acc[t.get_id()] = t


class Conv:
    def __init__(self, terms):
        acc = {}
        seen = set()
        for t in terms: atoms(t, acc, seen)
        self.at = list(acc.values())
        ns = ['x%d' % i for i in range(len(self.at))] or ['x0']
        self.R, *g = ring(ns, QQ)
        self.g = {t.get_id(): v for t, v in zip(self.at, g)}
        self.memo = {}
        # sin(t)^2 -> 1 - cos(t)^2
        self.rel = []
        for t in self.at:
            if t.decl().eq(lib.SIN):
                c = lib.COS(t.arg(0))
                if c.get_id() in self.g: self.rel.append(self.g[t.get_id()]**2 + self.g[c.get_id()]**2 - 1)
        self.sq = any(t.decl().eq(lib.SQRT) or t.decl().kind() == z3.Z3_OP_ITE for t in self.at)   # values with further relations: no refutation

    def red(self, p):
        for r in self.rel: p = p.rem(r)
        return p

    def frac(self, t):
        i = t.get_id()
        if i in self.memo: return self.memo[i][0]
        r = self._frac(t); self.memo[i] = (r, t); return r

    def _frac(self, t):
        R = self.R
        if z3.is_rational_value(t) or z3.is_int_value(t):
            f = t.as_fraction() if z3.is_rational_value(t) else Fraction(t.as_long())
            return R(QQ(f.numerator, f.denominator)), R(1)
        if t.get_id() in self.g: return self.g[t.get_id()], R(1)
        k = t.decl().kind(); ch = [self.frac(c) for c in t.children()] if k != z3.Z3_OP_POWER else None
        if k == z3.Z3_OP_POWER:
            n, d = self.frac(t.arg(0)); e = int(str(t.arg(1))); return n**e, d**e
        if k == z3.Z3_OP_UMINUS: return -ch[0][0], ch[0][1]
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            n, d = ch[0]
            for a, b in ch[1:]:
                s = 1 if k == z3.Z3_OP_ADD else -1
                if b == d: n = n + s * a
                else: n, d = n * b + s * a * d, d * b
            return self.red(n), self.red(d)
        if k == z3.Z3_OP_MUL:
            n, d = ch[0]
            for a, b in ch[1:]: n, d = n * a, d * b
            return self.red(n), self.red(d)
        if k == z3.Z3_OP_DIV: return self.red(ch[0][0] * ch[1][1]), self.red(ch[0][1] * ch[1][0])
        raise Unsup('rational term ' + str(t.decl()))


def equal(a, b):
    """(identity?, counterexample text)"""
    a, b = z3.simplify(a, som=False), z3.simplify(b, som=False)
    if a.eq(b): return True, None
    c = Conv([a, b])
    (n, d), (m, e) = c.frac(a), c.frac(b)
    if d == 0 or e == 0: return False, 'a denominator vanishes identically'
    p = c.red(n * e - m * d)
    if p == 0: return True, None
    # a point at which they differ
    rnd = random.Random(1)
    for _ in range(50):
        v = {}
        for t in c.at:
            if t.decl().eq(lib.SIN) or t.decl().eq(lib.COS): continue
            v[t.get_id()] = Fraction(rnd.randint(-40, 40), rnd.randint(1, 9))
        for t in c.at:
            if t.decl().eq(lib.SIN) or t.decl().eq(lib.COS):
                k = ('arg', t.arg(0).get_id())
                if k not in v: v[k] = Fraction(rnd.randint(-9, 9), 7)
                q_ = v[k]; v[t.get_id()] = (2 * q_ if t.decl().eq(lib.SIN) else 1 - q_ * q_) / (1 + q_ * q_)
        ev = lambda pol: pol.evaluate([(g, QQ(v[t.get_id()].numerator, v[t.get_id()].denominator)) for t, g in zip(c.at, c.R.gens)]) if c.at else pol
        dd, ee = ev(d), ev(e)
        if dd == 0 or ee == 0: continue
        x, y = ev(n) / dd, ev(m) / ee
        if x != y: return (None if c.sq else False), ', '.join('%s=%s' % (t, v[t.get_id()]) for t in c.at)[:1500] + ' gives %s and %s' % (float(x), float(y))
    return None, 'not an identity'


def prune(ex, t):
    """the value on this path: conditions decided by the path condition are resolved"""
    memo = {}
    def go(x):
        i = x.get_id()
        if i in memo: return memo[i]
        if not z3.is_app(x) or x.num_args() == 0 or x.sort() != z3.RealSort(): r = x
        elif x.decl().kind() == z3.Z3_OP_ITE:
            c = x.arg(0)
            r = go(x.arg(1)) if ex.proves(c) else go(x.arg(2)) if ex.proves(z3.Not(c)) else x
        elif x.decl().kind() == z3.Z3_OP_UNINTERPRETED: r = x
        else:
            ch = x.children(); n = [go(c) for c in ch]
            r = x if all(a.eq(b) for a, b in zip(ch, n)) else x.decl()(*n)
        memo[i] = r; return r
    return go(z3.simplify(t)) if has_ite(t) else t


def has_ite(t, seen=None):
    seen = set() if seen is None else seen
    if t.get_id() in seen: return False
    seen.add(t.get_id())
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE: return True
    return any(has_ite(c, seen) for c in t.children())


def check(ex, label, a, b):
    """obligation: two doubles (or complexes) are the same rational function, and undefined together"""
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = lib.tocx(a), lib.tocx(b)
        return check(ex, label + ' (re)', a.re, b.re) and check(ex, label + ' (im)', a.im, b.im)
    t0 = time.time()
    a, b = D(a.nan, prune(ex, a.v)), D(b.nan, prune(ex, b.v))
    ok, cex = equal(a.v, b.v)
    if ok is None: return ex.check(label, And(Eq(a.nan, b.nan), Implies(Not(a.nan), Eq(a.v, b.v))))
    if not ok and ex._check(2000) == z3.unsat: return True     # unreachable path
    n = a.nan if isz(a.nan) or isz(b.nan) else (a.nan, b.nan)
    ex.obls.append(Obl(label, 'proved' if ok else 'unknown' if ok is None else 'refuted', time.time() - t0, None if ok else dict(info='polynomial normal form', goal='%s == %s' % (str(a.v)[:600], str(b.v)[:600]), model=cex, pc=[str(c)[:300] for c in ex.pcs][-20:])))
    if ok: ex.check(label + ' (defined together)', Eq(a.nan, b.nan))
    return ok
