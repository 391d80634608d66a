"""T01: tap changers."""
import prog, attrs, setters
from check import Goal
from contract import *
from vals import *

GLOBS = prog.CORE
DRIVER = 'A01|tap changer: .*'


def veclen(ctx, ex, obj):
    """facts: every per-variant vector read at the ghost index has one entry per variant"""
    for pl, i, n in ex.idxlog or []:
        if isz(i) and (i.eq(ctx.W) or i.eq(ctx.W2)): ex._fact(i2z(n) == ctx.N)


def setup(ctx, c, xfm=True):
    ex = ctx.ex; ctx.start()
    obj = ex.symobj(NS + c, 'o')
    ex.idxlog = []
    steps = ctx.call(obj, 'getStepCount')
    lo, tap = ctx.call(obj, 'getLowTapPosition'), ctx.quiet(lambda: ctx.call(obj, 'getTapPosition'))
    tap2 = ctx.quiet(lambda: ctx.at(ctx.W2).call(obj, 'getTapPosition')); ctx.at(ctx.W)
    veclen(ctx, ex, obj); ex.idxlog = None
    ex._fact(z3.And(i2z(steps) >= 1, i2z(steps) < (1 << 31), i2z(lo) > -(1 << 60), i2z(lo) < (1 << 60)))
    for f in vecs_of(ctx.p, c): ex._fact(i2z(ex.hread(f, obj.root[1]).n) < (1 << 31))
    # class invariant: every position lies within [low, high]
    ex.assume(And(tap >= lo, tap <= lo + steps - 1, tap2 >= lo, tap2 <= lo + steps - 1))
    return obj, steps, lo, tap, tap2


def elem_of(r):
    """(container place, index) of a reference to a vector element"""
    if isinstance(r, Place) and r.path and r.path[-1][0] == 'i': return Place(r.root, r.path[:-1]), r.path[-1][1]
    if isinstance(r, Place) and r.isobj() and z3.is_app(r.root[1]) and r.root[1].num_args(): return r.root[1].sexpr(), None
    raise Unsup('not a reference to a step: %r' % (r,))


def stepobs(ctx, st, c):
    ns = ['getR', 'getX', 'getG', 'getB', 'getRho'] + (['getAlpha'] if c[0] == 'P' else [])
    return {n: ctx.call(st, n, cls=NS + c + 'Step', const=True) for n in ns}


def high(c):
    def fn(p):
        ctx = Ctx(p); ex = ctx.ex

        def body(ex):
            obj, steps, lo, tap, tap2 = setup(ctx, c)
            ex.cover(c + ' precondition')
            ex.check('high position is low + number of steps - 1', Eq(ctx.call(obj, 'getHighTapPosition'), i2z(lo) + i2z(steps) - 1))
        ex.explore(body); return ex
    return fn


def getstep(c, const):
    """getStep(p) throws exactly when p is out of [low, high]; otherwise getStep(low) is the first step, getStep(high) the last, and the step at p is p - low places after the first"""
    def fn(p):
        ctx = Ctx(p); ex = ctx.ex

        def body(ex):
            obj, steps, lo, tap, tap2 = setup(ctx, c)
            h0 = dict(ex.heap)
            pos = ex.sym('long', 'p'); ex._fact(z3.And(pos > -(1 << 60), pos < (1 << 60)))
            ex.cover(c + ' precondition')
            try: r = ctx.call(obj, 'getStep', pos, const=const, raw=True)
            except CppThrow as t:
                ex.check('throws only outside [low, high]', Or(pos < lo, pos > lo + steps - 1)); return
            ex.cover(c + ' accepts')
            ex.check('accepts only positions within [low, high]', And(pos >= lo, pos <= lo + steps - 1))
            pl, i = elem_of(r)
            f = pl.path[0][1] if pl.path else ''
            ex.check('the step p - low places after the first is returned', And(Eq(i, pos - lo), pl.root[1].eq(obj.root[1]) and f in vecs_of(p, c)))
            ex.check('nothing is modified', all(a.eq(h0.get(k, a)) for k, a in ex.heap.items()))
            first = ctx.quiet(lambda: ctx.call(obj, 'getStep', lo, const=const, raw=True))
            pl0, i0 = elem_of(first)
            ex.check('all steps come from one list', repr(pl0.path) == repr(pl.path))
        ex.explore(body); return ex
    return fn


def vecs_of(p, c):
    return [k + '::' + f['n'] for k, f in p.fields(NS + c) if 'Step' in f['t'] and 'vector' in f['t']]


def current(c, const):
    def fn(p):
        ctx = Ctx(p); ex = ctx.ex

        def body(ex):
            obj, steps, lo, tap, tap2 = setup(ctx, c)
            ex.cover(c + ' precondition')
            for w, t in ((ctx.W, tap), (ctx.W2, tap2)):
                ctx.at(w)
                try: r = ctx.call(obj, 'getCurrentStep', const=const, raw=True)
                except CppThrow as x:
                    ex.check('the current step always exists', False, str(x)); return
                q_ = ctx.quiet(lambda: ctx.call(obj, 'getStep', t, const=const, raw=True))
                a, b = elem_of(r), elem_of(q_)
                ex.check('the current step is the step of the current position', And(repr(a[0].path) == repr(b[0].path), Eq(a[1], b[1]), Eq(a[1], t - lo)))
            ex.cover(c + ' accepts')
        ex.explore(body); return ex
    return fn


def setlow(c):
    def fn(p):
        ctx = Ctx(p); ex = ctx.ex

        def body(ex):
            obj, steps, lo, tap, tap2 = setup(ctx, c)
            other = {}
            obs = ['isRegulating', 'getTargetDeadband', 'getStepCount', 'getRegulationTerminal'] + (['getTargetV', 'hasLoadTapChangingCapabilities'] if c[0] == 'R' else ['getRegulationValue', 'getRegulationMode'])
            rd = lambda: {(o, str(w)): ctx.quiet(lambda: ctx.at(w).call(obj, o)) for o in obs for w in (ctx.W, ctx.W2)}
            pre = rd(); ctx.at(ctx.W)
            h0 = dict(ex.heap)
            l = ex.sym('long', 'l'); ex._fact(z3.And(l > -(1 << 60), l < (1 << 60)))
            ex.cover(c + ' precondition')
            try: ctx.call(obj, 'setLowTapPosition', l, const=False)
            except CppThrow as x:
                ex.check('every low position is accepted', False, str(x)); return
            ex.cover(c + ' accepts')
            ex.check('getLowTapPosition returns the value set', Eq(ctx.call(obj, 'getLowTapPosition'), l))
            ex.check('high position is low + number of steps - 1', Eq(ctx.call(obj, 'getHighTapPosition'), i2z(l) + i2z(steps) - 1))
            try:
                n1 = ctx.at(ctx.W).call(obj, 'getTapPosition'); n2 = ctx.at(ctx.W2).call(obj, 'getTapPosition')
            except CppThrow as x:
                ex.check('tap positions stay readable', False, str(x)); return
            ex.check('the position of the working variant is shifted by the same amount', Eq(n1, tap + l - lo))
            ex.check('the position of every other variant is shifted by the same amount', Eq(n2, tap2 + l - lo))
            ex.check('every position stays within [low, high]', And(i2z(n1) >= l, i2z(n1) <= l + steps - 1, i2z(n2) >= l, i2z(n2) <= l + steps - 1))
            for w, t in ((ctx.W, tap), (ctx.W2, tap2)):
                try: r = ctx.at(w).call(obj, 'getCurrentStep', const=True, raw=True)
                except CppThrow as x: ex.check('the current step exists after the change', False, str(x)); continue
                pl, i = elem_of(r)
                ex.check('the selected step of every variant does not change', Eq(i, t - lo))
            post = rd()
            for k in pre: ex.check('%s unchanged' % k[0], ex.same(pre[k], post[k]))
            ctx.at(ctx.W)
            for fk, a in list(ex.heap.items()):
                if not setters.CACHES.search(fk): setters.frame1(ex, fk, a, h0.get(fk), [obj.root[1]], '')
        ex.explore(body); return ex
    return fn


def allsteps(c, const):
    """getAllSteps() maps each position in [low, high], and no other, to the step declared there"""
    def fn(p):
        ctx = Ctx(p); ex = ctx.ex

        def body(ex):
            obj, steps, lo, tap, tap2 = setup(ctx, c)
            ex.cover(c + ' precondition')
            m = ctx.call(obj, 'getAllSteps', const=const)
            if isinstance(m, Place): m = ex.read(m)
            k = z3.Int('anypos')
            ex.check('the keys are exactly the positions within [low, high]', z3.Select(m.has, k) == z3.And(k >= i2z(lo), k < i2z(lo) + i2z(steps)))
            ex.assume(z3.Select(m.has, k))
            v = z3.Select(m.val, k)
            r = ctx.quiet(lambda: ctx.call(obj, 'getStep', k, const=const, raw=True))
            ex.check('each position is mapped to its step', step_same(ex, v, r))
        ex.explore(body); return ex
    return fn


def step_same(ex, v, r):
    if isz(v) and isinstance(r, Place) and not r.isobj(): return Eq(v, ex.to_term(PPtr(r), None, 'ptr'))
    if isinstance(v, Place) and not v.isobj() and isinstance(r, Place): return And(repr(v.path[:-1]) == repr(r.path[:-1]), Eq(v.path[-1][1], r.path[-1][1]))
    v = v.root[1] if isinstance(v, Place) else v
    r = r.root[1] if isinstance(r, Place) and r.isobj() else r
    if isz(v) and isz(r): return Eq(v, r)
    raise Unsup('step reference %r / %r' % (v, r))


def goals(p, tier):
    G = []
    for c in ('PhaseTapChanger', 'RatioTapChanger'):
        G.append(Goal(c + '::getHighTapPosition', high(c)))
        for k in (True, False):
            t = ' const' if k else ''
            G.append(Goal(c + '::getStep' + t, getstep(c, k)))
            G.append(Goal(c + '::getCurrentStep' + t, current(c, k)))
            G.append(Goal(c + '::getAllSteps' + t, allsteps(c, k)))
        G.append(Goal(c + '::setLowTapPosition', setlow(c)))
        # acceptance, exception safety and invariants of every setter
        cl = [x for x in attrs.classes() if x.name == NS + c][0]
        for g in setters.setters_of(p, cl): G.append(Goal(g.name, lambda pr, g=g: setters.run_setter(pr, g), keep=('A01|', 'V01|')))
    return G
