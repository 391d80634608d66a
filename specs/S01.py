"""S01: shunt compensators report the susceptance of the sections in service."""
import prog, attrs, setters
from check import Goal
from contract import *
from vals import *

GLOBS = prog.CORE
DRIVER = 'S01'
SC, LIN, NON = NS + 'ShuntCompensator', NS + 'ShuntCompensatorLinearModel', NS + 'ShuntCompensatorNonLinearModel'
LADD, NADD = NS + 'shunt_compensator::ShuntCompensatorLinearModelAdder', NS + 'shunt_compensator::ShuntCompensatorNonLinearModelAdder'
SEC = NON + '::Section'
SADD = NADD + '::SectionAdder'
FB, FG, FM = z3.Function('modelB', Ref, z3.IntSort(), z3.RealSort()), z3.Function('modelG', Ref, z3.IntSort(), z3.RealSort()), z3.Function('modelMax', Ref, z3.IntSort())


def outcome(fn):
    try: return fn(), None
    except CppThrow as t: return None, t


def section_vec(ctx, obj, cls):
    """the container of the sections, read through the class's only vector field"""
    fs = [k + '::' + f['n'] for k, f in ctx.p.fields(cls) if 'vector' in f['t']]
    if len(fs) != 1: raise Unsup('sections of ' + cls)
    return Place(obj.root, obj.path + (('f', fs[0]),)) if False else (fs[0], ctx.ex.hread(fs[0], obj.root[1]))


def linear(p):
    ctx = Ctx(p); ex = ctx.ex

    def body(ex):
        ctx.start(); o = ex.symobj(LIN, 'm')
        b, g, mx = ctx.call(o, 'getBPerSection'), ctx.call(o, 'getGPerSection'), ctx.call(o, 'getMaximumSectionCount')
        ex._fact(num(b))                                  # class invariant (A01, adder contract below)
        n = ex.sym('unsigned long', 'n')
        h0 = dict(ex.heap)
        ex.cover('linear model')
        vb, t = outcome(lambda: ctx.call(o, 'getB', n))
        ex.check('getB throws exactly above the maximum', Eq(t is None, n <= mx))
        vg, t2 = outcome(lambda: ctx.call(o, 'getG', n))
        ex.check('getG throws exactly above the maximum', Eq(t2 is None, n <= mx))
        if vb is not None: ex.check('B = b per section x sections', And(num(vb), Eq(vb.v, b.v * z3.ToReal(n))))
        if vg is not None: ex.check('G = g per section x sections, zero when unset', And(num(vg), Eq(vg.v, z3.If(B(g.nan), z3.RealVal(0), g.v * z3.ToReal(n)))))
        ex.check('nothing is modified', all(a.eq(h0.get(k, a)) for k, a in ex.heap.items()))
    ex.explore(body); return ex


def B(x): return z3.BoolVal(x) if isinstance(x, bool) else x


def nonlinear(p):
    ctx = Ctx(p); ex = ctx.ex

    def body(ex):
        ctx.start(); o = ex.symobj(NON, 'm')
        mx = ctx.call(o, 'getMaximumSectionCount')
        f, v = section_vec(ctx, o, NON)
        ex.check('the maximum is the number of sections', Eq(mx, v.n))
        n = ex.sym('unsigned long', 'n')
        h0 = dict(ex.heap)
        ex.cover('non linear model')
        vb, t = outcome(lambda: ctx.call(o, 'getB', n))
        ex.check('getB throws exactly above the maximum', Eq(t is None, n <= mx))
        vg, t2 = outcome(lambda: ctx.call(o, 'getG', n))
        ex.check('getG throws exactly above the maximum', Eq(t2 is None, n <= mx))
        if t is None and t2 is None:
            if ex.choose(n == 0):
                ex.check('zero sections: B = 0', And(num(vb), Eq(vb.v, 0))); ex.check('zero sections: G = 0', And(num(vg), Eq(vg.v, 0)))
            else:
                s = Place(o.root, o.path + (('f', f), ('i', n - 1)))
                ex.check('B is the value declared for that number of sections', ex.same(vb, ctx.call(s, 'getB', cls=SEC)))
                ex.check('G is the value declared for that number of sections', ex.same(vg, ctx.call(s, 'getG', cls=SEC)))
        ex.check('nothing is modified', all(a.eq(h0.get(k, a)) for k, a in ex.heap.items()))
    ex.explore(body); return ex


def shunt(p):
    """the compensator answers with its model's values at its own section count (model: any)"""
    ctx = Ctx(p); ex = ctx.ex

    def body(ex):
        ctx.start(); o = ex.symobj(SC, 'o')
        for fk, f in p.fields(SC):
            if f['n'] == 'm_model': m = ex.hread(fk + '::m_model', o.root[1])
        ex.nonnull(m.root[1] if isinstance(m, Place) else m)
        mod = ctx.call(o, 'getModel', const=True)
        mod = mod if isinstance(mod, Place) else Place(('o', mod))
        n = ex.sym('unsigned long', 'n')
        for c in (LIN, NON):
            pass
        ex.cover('shunt compensator')
        mx = ctx.call(mod, 'getMaximumSectionCount', cls=NS + 'ShuntCompensatorModel')
        ex.check('the maximum is the maximum of the model', Eq(ctx.call(o, 'getMaximumSectionCount'), mx))
        for g in ('getB', 'getG'):
            v, t = outcome(lambda: ctx.call(o, g, n))
            w, u = outcome(lambda: ctx.call(mod, g, n, cls=NS + 'ShuntCompensatorModel'))
            ex.check(g + '(n) fails exactly when the model has no such number of sections', (t is None) == (u is None))
            if t is None and u is None: ex.check(g + '(n) is the value of the model', ex.same(v, w))
        for w in (ctx.W, ctx.W2):
            ctx.at(w)
            k = ctx.quiet(lambda: ctx.call(o, 'getSectionCount'))
            ex.assume(i2z(k) <= i2z(mx))                       # class invariant (A01)
            for g in ('getB', 'getG'):
                v, t = outcome(lambda: ctx.call(o, g))
                x, u = outcome(lambda: ctx.call(mod, g, k, cls=NS + 'ShuntCompensatorModel'))
                ex.check(g + '() always answers', t is None and u is None, str(t))
                if t is None and u is None: ex.check(g + '() is the value of the model at the current section count', ex.same(v, x))
    ex.explore(body); return ex


def built(ctx, a, cls):
    ex = ctx.ex
    r = ctx.call(a, 'build', raw=True)
    r = ex.read(r) if isinstance(r, Place) and not r.isobj() else r
    r = r.root[1] if isinstance(r, Place) else r
    return Place(('o', r))


def linbuild(p):
    ctx = Ctx(p); ex = ctx.ex

    def body(ex):
        ctx.start(); a = ex.symobj(LADD, 'a')
        b, g, m = ex.sym('double', 'b'), ex.sym('double', 'g'), ex.sym('unsigned long', 'max')
        ctx.call(a, 'setBPerSection', b, const=False); ctx.call(a, 'setGPerSection', g, const=False); ctx.call(a, 'setMaximumSectionCount', m, const=False)
        ex.cover('linear model adder')
        o = built(ctx, a, LIN)
        ex.check('maximum announced by the adder', Eq(ctx.call(a, 'getMaximumSectionCount'), m))
        ex.check('b per section', ex.same(ctx.call(o, 'getBPerSection', cls=LIN), b)); ex.check('g per section', ex.same(ctx.call(o, 'getGPerSection', cls=LIN), g))
        ex.check('maximum section count', Eq(ctx.call(o, 'getMaximumSectionCount', cls=LIN), m))
    ex.explore(body); return ex


def linadd(p):
    """add() accepts exactly a defined b and a positive maximum, and hands the model over to the compensator adder"""
    ctx = Ctx(p); ex = ctx.ex

    def body(ex):
        ctx.start(); a = ex.symobj(LADD, 'a')
        b, m = ex.sym('double', 'b'), ex.sym('unsigned long', 'max')
        ctx.call(a, 'setBPerSection', b, const=False)
        has = ex.choose(z3.Bool('maximum given'))
        fm = next(k + '::' + f['n'] for k, f in p.fields(LADD) if 'optional' in f['t'])
        if has: ctx.call(a, 'setMaximumSectionCount', m, const=False)
        else: ex.assume(Not(ex.hread(fm, a.root[1]).has))
        ex.cover('linear model adder')
        v, t = outcome(lambda: ctx.call(a, 'add', const=False))
        ok = And(num(b), has, m > 0 if has else False)
        ex.check('accepted exactly when b is defined and the maximum is given and not zero', Eq(t is None, ok))
    ex.explore(body); return ex


def nonbuild(p):
    ctx = Ctx(p); ex = ctx.ex

    def body(ex):
        ctx.start(); a = ex.symobj(NADD, 'a')
        f, v = section_vec(ctx, a, NADD)
        ex._fact(v.n < (1 << 40))
        ex.cover('non linear model adder')
        o = built(ctx, a, NON)
        f2, w = section_vec(ctx, o, NON)
        ex.check('as many sections as declared', Eq(w.n, v.n))
        ex.check('maximum announced by the adder', Eq(ctx.call(a, 'getMaximumSectionCount'), v.n))
        i = ex.sym('unsigned long', 'i'); ex.assume(i < i2z(v.n))
        s = Place(o.root, o.path + (('f', f2), ('i', i)))
        d = Place(a.root, a.path + (('f', f), ('i', i)))
        fb = {x['n']: k + '::' + x['n'] for k, x in p.fields(SADD)}
        ex.check('b of each section', ex.same(ctx.call(s, 'getB', cls=SEC), ex.read(Place(d.root, d.path + (('f', fb['m_b']),)))))
        ex.check('g of each section', ex.same(ctx.call(s, 'getG', cls=SEC), ex.read(Place(d.root, d.path + (('f', fb['m_g']),)))))
    ex.explore(body); return ex


def endsection(p):
    """a section is accepted exactly when its b is defined; it is appended with its b, and its g or the previous one's (zero for the first) when unset"""
    ctx = Ctx(p); ex = ctx.ex

    def body(ex):
        ctx.start(); a = ex.symobj(NADD, 'a')
        f, v = section_vec(ctx, a, NADD)
        ex._fact(v.n < (1 << 40))
        fb = {x['n']: k + '::' + x['n'] for k, x in p.fields(SADD)}
        elem = lambda i, n: ex.read(Place(a.root, a.path + (('f', f), ('i', i), ('f', fb[n]))))
        i = z3.Int('i'); ex._fact(z3.And(i >= 0, i < i2z(v.n)))
        n0 = v.n
        some = ex.choose(z3.Bool('has sections'))
        if not some: ex.assume(Eq(n0, 0))
        else: ex.assume(i2z(n0) > 0)
        oldb, oldg = (elem(i, 'm_b'), elem(i, 'm_g')) if some else (None, None)
        last = elem(n0 - 1, 'm_g') if some else None
        if some: ex._fact(num(last))
        s = ctx.call(a, 'beginSection', const=False, raw=True)
        if not isinstance(s, Place):
            key = ('t', 'sec'); ex.loc[key] = s; s = Place(('v', key))
        b, g = ex.sym('double', 'b'), ex.sym('double', 'g')
        ctx.call(s, 'setB', b, cls=SADD, const=False); ctx.call(s, 'setG', g, cls=SADD, const=False)
        ex.cover('section adder')
        r, t = outcome(lambda: ctx.call(s, 'endSection', cls=SADD, const=False))
        ex.check('accepted exactly when b is defined', Eq(t is None, num(b)))
        f2, w = section_vec(ctx, a, NADD)
        if t is not None: ex.check('nothing appended when rejected', Eq(w.n, n0)); return
        ex.check('one more section', Eq(w.n, i2z(n0) + 1))
        ex.check('with its b', ex.same(elem(n0, 'm_b'), b))
        got = elem(n0, 'm_g')
        ex.check('with its g, or the previous one when unset', And(num(got), Eq(got.v, z3.If(B(num(g)), g.v, last.v if some else z3.RealVal(0)))))
        if some: ex.check('the other sections are kept', And(ex.same(elem(i, 'm_b'), oldb), ex.same(elem(i, 'm_g'), oldg)))
    ex.explore(body); return ex


def goals(p, tier):
    G = [Goal('ShuntCompensatorNonLinearModelAdder::SectionAdder::endSection', endsection), Goal('ShuntCompensatorLinearModel', linear), Goal('ShuntCompensatorNonLinearModel', nonlinear), Goal('ShuntCompensator', shunt),
         Goal('ShuntCompensatorLinearModelAdder::build', linbuild), Goal('ShuntCompensatorLinearModelAdder::add', linadd), Goal('ShuntCompensatorNonLinearModelAdder::build', nonbuild)]
    for c in ('ShuntCompensator', 'ShuntCompensatorLinearModel', 'ShuntCompensatorNonLinearModel', 'ShuntCompensatorNonLinearModel::Section'):
        for cl in [x for x in attrs.classes() if x.name == NS + c]:
            for g in setters.setters_of(p, cl):
                if 'ection' in g.setter or c != 'ShuntCompensator': G.append(Goal(g.name, lambda pr, g=g: setters.run_setter(pr, g), keep=('A01|', 'V01|')))
    return G
