"""R01: reactive limits."""
import prog, attrs, z3
from check import Goal
from contract import *
from vals import *
import lib

GLOBS = prog.CORE
DRIVER = 'R01'
MM, CV, PT = NS + 'MinMaxReactiveLimits', NS + 'ReactiveCapabilityCurve', NS + 'ReactiveCapabilityCurve::Point'
MMA, CVA, PTA = NS + 'MinMaxReactiveLimitsAdder', NS + 'ReactiveCapabilityCurveAdder', NS + 'ReactiveCapabilityCurveAdder::PointAdder'
HOLDER = NS + 'ReactiveLimitsHolder'


def outcome(fn):
    try: return fn(), None
    except CppThrow as t: return None, t


def mapfield(ctx, cls):
    fs = [k + '::' + f['n'] for k, f in ctx.p.fields(cls) if ctx.ex.kind(f['t']) == 'map']
    if len(fs) != 1: raise Unsup('points of ' + cls)
    return fs[0]


class Curve:
    """the declared points, read through the only map of the class"""
    def __init__(self, ctx, o, cls=CV):
        self.ctx, self.ex, self.o = ctx, ctx.ex, o
        self.f = mapfield(ctx, cls)
        self.pl = Place(o.root, o.path + (('f', self.f),)); self.m = self.ex.read(self.pl)
        self.heap = dict(self.ex.heap)

    def pt(self, k): return self.pl.sub(('k', k))

    def get(self, k, n):
        """attribute n of the point declared for k, in the state in which the curve was read"""
        h = self.ex.heap; self.ex.heap = dict(self.heap)
        try: return self.ctx.call(self.pt(k), n, cls=PT)
        finally: self.ex.heap = h

    def has(self, k): return z3.Select(self.m.has, k.term() if isinstance(k, D) else k)

    def facts(self, minpoints):
        """class invariant (kept by every operation of the adder, below)"""
        ex = self.ex
        j = z3.Const(ex.freshname('pk'), self.m.has.sort().domain())
        J = D.of(j)
        c = And(Not(J.nan), ex.same(self.get(j, 'getP'), J), Not(self.get(j, 'getMinQ').nan), Not(self.get(j, 'getMaxQ').nan))
        ex._fact(z3.ForAll([j], z3.Implies(z3.Select(self.m.has, j), c), patterns=[z3.Select(self.m.has, j)]))
        ex._fact(i2z(self.m.n) >= minpoints)
        ex._fact(z3.Implies(i2z(self.m.n) == 0, self.m.has == z3.K(self.m.has.sort().domain(), z3.BoolVal(False))))
        if minpoints >= 2:
            a, b = ex.sym('double', 'pa'), ex.sym('double', 'pb')
            ex._fact(And(self.has(a), self.has(b), a.v < b.v))

    def inv(self, k): return Implies(self.has(k), And(Not(k.nan), ex_same(self.ex, self.get(k, 'getP'), k), Not(self.get(k, 'getMinQ').nan), Not(self.get(k, 'getMaxQ').nan)))


def ex_same(ex, a, b): return ex.same(a, b)


def curve(name):
    def go(p):
        ctx = Ctx(p); ex = ctx.ex
        def body(ex):
            ctx.start(); o = ex.symobj(CV, 'curve'); c = Curve(ctx, o); c.facts(2)
            x = ex.sym('double', 'p'); ex._fact(Not(x.nan))
            ex.cover('curve')
            h0 = dict(ex.heap)
            r, t = outcome(lambda: ctx.call(o, name, x))
            ex.check('answers for every active power', t is None, str(t))
            if t is not None: return
            a, b = ex.sym('double', 'left'), ex.sym('double', 'right')
            j = z3.Const('jq', c.m.has.sort().domain()); J = D.of(j)
            va, vb = c.get(a, name), c.get(b, name)
            ex.check('the declared bound at a declared point', Implies(c.has(x), ex.same(r, c.get(x, name))))
            enclosing = And(c.has(a), c.has(b), a.v < x.v, x.v < b.v, z3.ForAll([j], z3.Implies(z3.Select(c.m.has, j), Or(J.v <= a.v, J.v >= b.v)), patterns=[z3.Select(c.m.has, j)]))
            if ex.choose(enclosing):
                ex.check('linear interpolation between the enclosing points', And(Not(r.nan), r.v == va.v + (vb.v - va.v) / (b.v - a.v) * (x.v - a.v)))
                return
            ex.check('the bound of the first point below the declared range', Implies(And(c.has(b), x.v < b.v, z3.ForAll([j], z3.Implies(z3.Select(c.m.has, j), J.v >= b.v), patterns=[z3.Select(c.m.has, j)])), ex.same(r, vb)))
            ex.check('the bound of the last point above the declared range', Implies(And(c.has(a), x.v > a.v, z3.ForAll([j], z3.Implies(z3.Select(c.m.has, j), J.v <= a.v), patterns=[z3.Select(c.m.has, j)])), ex.same(r, va)))
            ex.check('nothing is modified', all(v.eq(h0.get(k, v)) for k, v in ex.heap.items()))
        ex.explore(body); return ex
    return go


def extremes(p):
    ctx = Ctx(p); ex = ctx.ex
    def body(ex):
        ctx.start(); o = ex.symobj(CV, 'curve'); c = Curve(ctx, o); c.facts(2)
        ex.cover('curve')
        j = ex.sym('double', 'j')
        lo, hi = ctx.call(o, 'getMinP'), ctx.call(o, 'getMaxP')
        ex.check('getMinP is declared', c.has(lo)); ex.check('getMaxP is declared', c.has(hi))
        ex.check('no point below getMinP', Implies(c.has(j), lo.v <= j.v)); ex.check('no point above getMaxP', Implies(c.has(j), j.v <= hi.v))
        ex.check('getPointCount is the number of points', Eq(ctx.call(o, 'getPointCount'), c.m.n))
        ex.check('at least two points', i2z(ctx.call(o, 'getPointCount')) >= 2)
        ex.check('getKind', Eq(ctx.call(o, 'getKind'), attrs.enumv(NS + 'ReactiveLimitsKind', 'CURVE', ex)))
    ex.explore(body); return ex


def ctors(p, cls, nargs):
    return [f for f in p.fns.values() if f.q == cls + '::' + cls.rsplit('::', 1)[1] and len(f.o['ps']) == nargs and f.o.get('ctor', True)]


def minmax(p):
    ctx = Ctx(p); ex = ctx.ex
    def body(ex):
        ctx.start(); o = ex.alloc(MM)
        a, b, x = ex.sym('double', 'a'), ex.sym('double', 'b'), ex.sym('double', 'x')
        c = ctors(p, MM, 2)
        ex.call_fn(c[0].id, o, [a, b]); ex.cover('limits')
        for n, w in (('getMinQ', a), ('getMaxQ', b)):
            ex.check('%s() is the declared bound' % n, ex.same(ctx.call(o, n, cls=MM), w))
            ex.check('%s(p) is the declared bound for every p' % n, ex.same(ctx.call(o, n, x, cls=MM), w))
        ex.check('getKind', Eq(ctx.call(o, 'getKind', cls=MM), attrs.enumv(NS + 'ReactiveLimitsKind', 'MIN_MAX', ex)))
        o = ex.symobj(MM, 'm')
        for n in ('getMinQ', 'getMaxQ'): ex.check('%s(p) = %s()' % (n, n), ex.same(ctx.call(o, n, x), ctx.call(o, n)))
    ex.explore(body); return ex


def holders(p): return [c for c in p.concrete_subs(HOLDER) if c != HOLDER]


def limits_of(ctx, owner):
    """the limits of the owner: the only owning pointer of ReactiveLimitsHolder"""
    fs = [k + '::' + f['n'] for k, f in ctx.p.fields(HOLDER) if 'unique_ptr' in f['t']]
    if len(fs) != 1: raise Unsup('limits of the holder')
    return fs[0], ctx.ex.hread(fs[0], owner.root[1])


def getlimits(ctx, owner, T):
    """the public reading: getReactiveLimits<T>()"""
    fs = [f for f in ctx.p.fns.values() if f.q.startswith(HOLDER + '::getReactiveLimits') and T in f.id.replace('::', '') or f.q.startswith(HOLDER + '::getReactiveLimits') and f.o.get('ret', '').replace('const ', '').strip(' &') == NS + T]
    fs = [f for f in fs if f.o.get('const')] or fs
    if not fs: raise Unsup('getReactiveLimits<%s>' % T)
    return ctx.ex.call_fn(fs[0].id, owner, [])


def mm_adder(owncls):
    def go(p):
        ctx = Ctx(p); ex = ctx.ex
        def body(ex):
            ctx.start(); o = ex.symobj(MMA, 'adder')
            own = ex.symobj(owncls, 'owner')
            ofk = next(k + '::' + f['n'] for k, f in p.fields(MMA) if HOLDER in f['t'])
            ex.hwrite(ofk, o.root[1], own.root[1])
            a, b = ex.sym('double', 'a'), ex.sym('double', 'b')
            ctx.call(o, 'setMinQ', a); ctx.call(o, 'setMaxQ', b)
            fk, before = limits_of(ctx, own)
            h0 = dict(ex.heap)
            r, t = outcome(lambda: ctx.call(o, 'add', raw=True))
            ok = And(Not(a.nan), Not(b.nan), a.v <= b.v)
            if t is None:
                ex.cover('accepted')
                ex.check('accepted only when both bounds are numbers and min <= max', ok)
                g = ctx.quiet(lambda: getlimits(ctx, own, 'MinMaxReactiveLimits'))
                ex.check('the limits of the owner are those returned', Eq(g.root[1], r.root[1]))
                ex.check('min Q as given', ex.same(ctx.call(g, 'getMinQ', cls=MM), a)); ex.check('max Q as given', ex.same(ctx.call(g, 'getMaxQ', cls=MM), b))
            else:
                ex.cover('rejected')
                ex.check('rejected only when a bound is missing or min > max', Not(ok), str(t))
                ex.check('the limits of the owner are unchanged', ex.same(limits_of(ctx, own)[1], before))
            ctx.heap_frame(h0, [own.root[1], o.root[1]])
        ex.explore(body); return ex
    return go


def endpoint(p):
    ctx = Ctx(p); ex = ctx.ex
    def body(ex):
        ctx.start(); ad = ex.symobj(CVA, 'curveAdder'); o = ex.symobj(PTA, 'pointAdder')
        own = ex.symobj(NS + 'Generator', 'owner')
        ofk = next(k + '::' + f['n'] for k, f in p.fields(CVA) if HOLDER in f['t']); ex.hwrite(ofk, ad.root[1], own.root[1])
        afk = next(k + '::' + f['n'] for k, f in p.fields(PTA) if 'ReactiveCapabilityCurveAdder' in f['t']); ex.hwrite(afk, o.root[1], ad.root[1])
        c = Curve(ctx, ad, CVA); c.facts(0)
        x, a, b = ex.sym('double', 'p'), ex.sym('double', 'a'), ex.sym('double', 'b')
        ctx.call(o, 'setP', x); ctx.call(o, 'setMinQ', a); ctx.call(o, 'setMaxQ', b)
        h0 = dict(ex.heap)
        k = ex.sym('double', 'k')
        ok = And(Not(x.nan), Not(a.nan), Not(b.nan), Not(c.has(x)))
        r, t = outcome(lambda: ctx.call(o, 'endPoint', raw=True))
        d = Curve(ctx, ad, CVA)
        if t is None:
            ex.cover('accepted')
            ex.check('accepted only a complete point at a new active power', ok)
            ex.check('exactly one point more', Eq(d.m.n, i2z(c.m.n) + 1))
            ex.check('the points are the previous ones and the new one', Eq(d.has(k), Or(c.has(k), ex.same(k, x))))
            for g, w in (('getP', x), ('getMinQ', a), ('getMaxQ', b)):
                ex.check('%s of the new point' % g, ex.same(d.get(x, g), w))
                ex.check('%s of the other points unchanged' % g, Implies(c.has(k), ex.same(d.get(k, g), c.get(k, g))))
            ex.check('invariant of the points kept', d.inv(k))
            ex.check('returns the adder', Eq(r.root[1], ad.root[1]))
        else:
            ex.cover('rejected')
            ex.check('rejected only an incomplete point or a declared active power', Not(ok), str(t))
            ex.check('points unchanged', And(Eq(d.has(k), c.has(k)), Eq(d.m.n, c.m.n), Implies(c.has(k), And(*[ex.same(d.get(k, g), c.get(k, g)) for g in ('getP', 'getMinQ', 'getMaxQ')]))))
    ex.explore(body); return ex


def cv_adder(owncls):
    def go(p):
        ctx = Ctx(p); ex = ctx.ex
        def body(ex):
            ctx.start(); ad = ex.symobj(CVA, 'curveAdder'); own = ex.symobj(owncls, 'owner')
            ofk = next(k + '::' + f['n'] for k, f in p.fields(CVA) if HOLDER in f['t']); ex.hwrite(ofk, ad.root[1], own.root[1])
            c = Curve(ctx, ad, CVA); c.facts(0)
            fk, before = limits_of(ctx, own)
            h0 = dict(ex.heap); k = ex.sym('double', 'k')
            r, t = outcome(lambda: ctx.call(ad, 'add', raw=True))
            if t is None:
                ex.cover('accepted')
                ex.check('accepted only with two points', i2z(c.m.n) >= 2)
                g = ctx.quiet(lambda: getlimits(ctx, own, 'ReactiveCapabilityCurve'))
                ex.check('the limits of the owner are those returned', Eq(g.root[1], r.root[1]))
                d = Curve(ctx, g)
                ex.check('the points are those of the adder', And(Eq(d.has(k), c.has(k)), Eq(d.m.n, c.m.n)))
                for n in ('getP', 'getMinQ', 'getMaxQ'): ex.check('%s of the points' % n, Implies(c.has(k), ex.same(d.get(k, n), c.get(k, n))))
            else:
                ex.cover('rejected')
                ex.check('rejected only with fewer than two points', i2z(c.m.n) < 2, str(t))
                ex.check('the limits of the owner are unchanged', ex.same(limits_of(ctx, own)[1], before))
            ctx.heap_frame(h0, [own.root[1], ad.root[1]])
        ex.explore(body); return ex
    return go


def initial(p):
    """begin of a curve: an adder without points; limits of a new holder unbounded"""
    ctx = Ctx(p); ex = ctx.ex
    def body(ex):
        ctx.start(); own = ex.symobj(NS + 'Generator', 'owner')
        o = ctx.call(own, 'newReactiveCapabilityCurve', raw=True)
        o = o if isinstance(o, Place) else Place(('o', o))
        ex.cover('adder')
        ex.check('a new curve has no point', Eq(Curve(ctx, o, CVA).m.n, 0))
        m = ctx.call(own, 'newMinMaxReactiveLimits', raw=True); m = m if isinstance(m, Place) else Place(('o', m))
        r, t = outcome(lambda: ctx.call(m, 'add', cls=MMA, raw=True))
        ex.check('bounds not given are rejected', t is not None)
    ex.explore(body); return ex


def goals(p, tier):
    G = [Goal('ReactiveCapabilityCurve::getMinQ', curve('getMinQ')), Goal('ReactiveCapabilityCurve::getMaxQ', curve('getMaxQ')), Goal('ReactiveCapabilityCurve: range of the points', extremes),
         Goal('MinMaxReactiveLimits', minmax), Goal('ReactiveCapabilityCurveAdder::PointAdder::endPoint', endpoint), Goal('new adders', initial)]
    for c in holders(p):
        n = c.rsplit('::', 2)
        n = c.replace(NS, '')
        G += [Goal('MinMaxReactiveLimitsAdder::add (%s)' % n, mm_adder(c)), Goal('ReactiveCapabilityCurveAdder::add (%s)' % n, cv_adder(c))]
    return G
