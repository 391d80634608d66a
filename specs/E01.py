"""E01: electrical formulas. The contracts are the pi-model equations, stated over complex numbers whose parts are real terms;
equalities of rational functions are discharged by polynomial normal form (vc/rat.py), the rest by z3."""
import prog, rat, lib
from check import Goal
from contract import *
from vals import *

GLOBS = prog.CORE
DRIVER = 'E01'
SV, LD = NS + 'SV', NS + 'LinkData::'
ADM = LD + 'BranchAdmittanceMatrix'
Y = ('y11', 'y12', 'y21', 'y22')


class E:
    """one run: symbolic admittance matrix, voltages, and calls of the static functions"""
    def __init__(self, p):
        self.p = p; self.ctx = Ctx(p); self.ex = self.ctx.ex; self.n = 0

    def tmp(self, v):
        self.n += 1; k = ('t', 'e%d' % self.n); self.ex.loc[k] = v; return Place(('v', k))

    def d(self, n):
        v = self.ex.sym('double', n); self.ex._fact(Not(v.nan)); return v

    def cx(self, n): return Cx(self.d(n + '_re'), self.d(n + '_im'))

    def fn(self, q_, *types):
        fs = [f for f in self.p.fns.values() if f.q == q_ and len(f.o['ps']) == len(types) and all(t in str(x['t'] if isinstance(x, dict) else x[1]) for t, x in zip(types, f.o['ps']))]
        if len(fs) != 1: raise Unsup('%d candidates for %s(%s)' % (len(fs), q_, ', '.join(types)))
        return fs[0]

    def call(self, f, this, *args):
        a = [x if isinstance(x, Place) else self.tmp(x) if isinstance(x, Cx) else x for x in args]
        r = self.ex.call_fn(f.id, this, a)
        if isinstance(r, Place) and not r.isobj(): r = self.ex.read(r)
        return r

    def field(self, o, cls, n): return self.ex.hread(cls + '::' + n, o.root[1])

    def matrix(self, name='adm'):
        o = self.ex.symobj(ADM, name)
        ys = {y: self.ex.hread(ADM + '::' + y, o.root[1]) for y in Y}
        for v in ys.values(): self.ex._fact(And(Not(v.re.nan), Not(v.im.nan)))
        return o, ys

    def obj(self, r): return r if isinstance(r, Place) else Place(('o', r))


def mul(*xs):
    r = xs[0]
    for x in xs[1:]: r = lib.cx_op(None, '*', r, x) if False else _op('*', r, x)
    return r


EX = None
RAD, DEG = D(False, lib.PI / 180), D(False, 180 / lib.PI)


def _op(o, a, b): return lib.cx_op(EX, o, a, b)


def conj(a): return Cx(a.re, lib.neg(a.im))


def run(fn):
    def go(p):
        global EX
        e = E(p); EX = e.ex
        def body(ex):
            e.ctx.start(); e.n = 0; fn(e, ex)
        e.ex.explore(body); return e.ex
    return go


@run
def admittance(e, ex):
    """Y matrix of a branch of series impedance r + jx between ideal transformers of complex ratios a1, a2"""
    r, x, t1, g1, t2, g2 = [e.d(n) for n in ('r', 'x', 'ratio1', 'angle1', 'ratio2', 'angle2')]
    s1, s2 = e.cx('ysh1'), e.cx('ysh2')
    f = e.fn(LD + 'calculateBranchAdmittance', *['double'] * 6, 'complex', 'complex')
    m = e.obj(e.call(f, None, r, x, t1, g1, t2, g2, s1, s2))
    ex.cover('branch admittance')
    y = {k: ex.hread(ADM + '::' + k, m.root[1]) for k in Y}
    a1, a2 = lib.math(ex, 'polar', '', [t1, g1]), lib.math(ex, 'polar', '', [t2, g2])
    zero = And(Eq(r.v, 0), Eq(x.v, 0))
    if ex.choose(zero): ytr = Cx(D.const(0), D.const(0))
    else: ytr = _op('/', Cx(D.const(1), D.const(0)), Cx(r, x))
    ny = Cx(lib.neg(ytr.re), lib.neg(ytr.im))
    want = dict(y11=_op('/', _op('+', ytr, s1), mul(conj(a1), a1)), y12=_op('/', ny, mul(conj(a1), a2)), y21=_op('/', ny, mul(conj(a2), a1)), y22=_op('/', _op('+', ytr, s2), mul(conj(a2), a2)))
    for k in Y: rat.check(ex, 'entry ' + k, y[k], want[k])


def static(e, n): return e.fn(SV + '::' + n, 'BranchAdmittanceMatrix', 'complex', 'complex')


def flow(e, end, ys, v1, v2):
    a, b, v = (ys['y11'], ys['y12'], v1) if end == 1 else (ys['y21'], ys['y22'], v2)
    return mul(conj(_op('+', mul(a, v1), mul(b, v2))), v)


@run
def flows(e, ex):
    """S = V conj(I), I = Y V at each end"""
    m, ys = e.matrix(); v1, v2 = e.cx('v1'), e.cx('v2')
    for k in (1, 2):
        s = e.call(static(e, 'flowAtEnd%d' % k), None, m, v1, v2)
        ex.cover('flow')
        rat.check(ex, 'flow at end %d' % k, s, flow(e, k, ys, v1, v2))


@run
def voltages(e, ex):
    """the voltage found at one end is the one for which the flow at the other end is the given flow"""
    m, ys = e.matrix(); v, s = e.cx('v'), e.cx('s')
    ex.cover('voltage')
    v2 = e.call(static(e, 'voltageAtEnd2'), None, m, v, s)
    rat.check(ex, 'flow at end 1 for the voltage computed at end 2', flow(e, 1, ys, v, v2), s)
    v1 = e.call(static(e, 'voltageAtEnd1'), None, m, v, s)
    rat.check(ex, 'flow at end 2 for the voltage computed at end 1', flow(e, 2, ys, v1, v), s)


@run
def inverse(e, ex):
    """the other side of the other side is the side itself: voltageAtEnd1 inverts flowAtEnd2 for every pair of voltages, and conversely; with the
    contract of voltageAtEnd1/2 (flow at the known end is the given one) the round trip is the identity"""
    m, ys = e.matrix(); v1, v2 = e.cx('v1'), e.cx('v2')
    ex.cover('inverse')
    rat.check(ex, 'from end 1 to end 2 and back: voltage', e.call(static(e, 'voltageAtEnd1'), None, m, v2, e.call(static(e, 'flowAtEnd2'), None, m, v1, v2)), v1)
    rat.check(ex, 'from end 2 to end 1 and back: voltage', e.call(static(e, 'voltageAtEnd2'), None, m, v1, e.call(static(e, 'flowAtEnd1'), None, m, v1, v2)), v2)


def eqd(ex, label, a, b):
    if ex.same(a, b) is True: return ex.check(label, True)
    return rat.check(ex, label, a, b)


def svobj(e):
    """a state of any side"""
    o = e.ex.symobj(SV, 'sv')
    g = {n: e.ctx.call(o, n) for n in ('getP', 'getQ', 'getU', 'getA')}
    return o, g


def sides(e, o):
    """split on the side; 1 or 2"""
    ex = e.ex; s = e.ctx.call(o, 'getSide')
    import attrs
    one = ex.choose(Eq(s, attrs.enumv(NS + 'Branch::Side', 'ONE', ex)))
    if not one: ex.assume(Eq(s, attrs.enumv(NS + 'Branch::Side', 'TWO', ex)))
    return 1 if one else 2, attrs.enumv(NS + 'Branch::Side', 'TWO' if one else 'ONE', ex)


def val(e, r): return e.ex.read(r) if isinstance(r, Place) and not r.isobj() else r


@run
def otherside(e, ex):
    """otherSide(Y): voltage and flow of the other end, from the static formulas; A, P, Q, U are its components"""
    m, ys = e.matrix(); o, g = svobj(e)
    side, other = sides(e, o)
    ex.cover('other side')
    r = e.obj(e.call(e.fn(SV + '::otherSide', 'BranchAdmittanceMatrix'), o, m))
    ang = ex.dop('*', g['getA'], RAD)
    v = lib.math(ex, 'polar', '', [g['getU'], ang]); s = Cx(g['getP'], g['getQ'])
    k = 2 if side == 1 else 1
    w = e.call(static(e, 'voltageAtEnd%d' % k), None, m, v, s)
    a = (v, w) if side == 1 else (w, v)
    f = e.call(static(e, 'flowAtEnd%d' % k), None, m, *a)
    c = {n: e.ctx.call(r, n, cls=SV) for n in ('getP', 'getQ', 'getU', 'getA')}
    eqd(ex, 'active power at the other side', c['getP'], f.re); eqd(ex, 'reactive power at the other side', c['getQ'], f.im)
    eqd(ex, 'voltage magnitude at the other side', c['getU'], lib.math(ex, 'abs', '', [w]))
    eqd(ex, 'angle at the other side, in degrees', c['getA'], ex.dop('*', lib.math(ex, 'arg', '', [w]), DEG))
    ex.check('the side is the other one', Eq(e.ctx.call(r, 'getSide', cls=SV), other))
    for x in 'APQU': eqd(ex, 'otherSide%s is a component of otherSide' % x, e.call(e.fn(SV + '::otherSide' + x, 'BranchAdmittanceMatrix'), o, m), c['get' + x])


def generic(e, o, x, r, xx, g1, b1, g2, b2, rho, alpha):
    """the formula on the parameters: admittance matrix of the branch, then otherSide"""
    ex = e.ex
    m = e.call(e.fn(LD + 'calculateBranchAdmittance', *['double'] * 6, 'complex', 'complex'), None, r, xx, ex.dop('/', D.const(1), rho), lib.neg(alpha), D.const(1), D.const(0), Cx(g1, b1), Cx(g2, b2))
    t = e.obj(e.call(e.fn(SV + '::otherSide', 'BranchAdmittanceMatrix'), o, e.obj(m)))
    return {k: e.ctx.call(t, 'get' + k, cls=SV) for k in 'PQUA'}, e.ctx.call(t, 'getSide', cls=SV)


def results(e, o, types, args):
    """what every public entry with these parameter types answers"""
    ctx, ex = e.ctx, e.ex
    out = {}
    fs = [f for f in e.p.fns.values() if f.q == SV + '::otherSide' and match(f, types)]
    if fs:
        r = e.obj(e.call(fs[0], o, *args))
        for k in 'PQUA': out['otherSide.get' + k] = (k, ctx.call(r, 'get' + k, cls=SV))
        out['otherSide.getSide'] = ('side', ctx.call(r, 'getSide', cls=SV))
    for k in 'APQU':
        fs = [f for f in e.p.fns.values() if f.q == SV + '::otherSide' + k and match(f, types)]
        if fs: out['otherSide' + k] = (k, e.call(fs[0], o, *args))
    return out


def match(f, types): return len(f.o['ps']) == len(types) and all(t in str(x['t'] if isinstance(x, dict) else x[1]) for t, x in zip(types, f.o['ps']))


def params(types, mk):
    @run
    def go(e, ex):
        o, g = svobj(e)
        sides(e, o)
        args, par = mk(e, ex)
        ex.cover('parameters')
        want, side = generic(e, o, None, *par)
        got = results(e, o, types, args)
        ex.check('the overloads exist', len(got) >= 4)
        for n, (k, v) in got.items():
            if k == 'side': ex.check(n, Eq(v, side))
            else: eqd(ex, n, v, want[k])
    return go


def p_raw(e, ex):
    a = [e.d(n) for n in ('r', 'x', 'g1', 'b1', 'g2', 'b2', 'rho', 'alpha')]
    return a, a


def getters(e, o, *ns): return [e.ctx.quiet(lambda: e.ctx.call(o, n)) for n in ns]


ONE, ZERO = D.const(1), D.const(0)


def p_line(e, ex):
    l = ex.symobj(NS + 'Line', 'line')
    return [l], getters(e, l, 'getR', 'getX', 'getG1', 'getB1', 'getG2', 'getB2') + [ONE, ZERO]


def p_half(e, ex):
    l = ex.symobj(NS + 'tie_line::HalfLine', 'half')
    return [l], getters(e, l, 'getR', 'getX', 'getG1', 'getB1', 'getG2', 'getB2') + [ONE, ZERO]


def half(ex, x): return ex.dop('*', x, D.const(0.5))


def p_dl(split):
    def mk(e, ex):
        d = ex.symobj(NS + 'DanglingLine', 'dl')
        r, x, g, b = getters(e, d, 'getR', 'getX', 'getG', 'getB')
        if split is None: return [d], [r, x, g, b, ZERO, ZERO, ONE, ZERO]
        return [d, split], [r, x] + ([half(ex, g), half(ex, b), half(ex, g), half(ex, b)] if split else [g, b, ZERO, ZERO]) + [ONE, ZERO]
    return mk


def twt_par(e, ex, t):
    """total series and shunt values: nominal values corrected by the current steps; total ratio; total phase shift"""
    ctx = e.ctx
    r, x, g, b, u1, u2 = getters(e, t, 'getR', 'getX', 'getG', 'getB', 'getRatedU1', 'getRatedU2')
    rho = ex.dop('/', u2, u1); alpha = ZERO
    for kind in ('Ratio', 'Phase'):
        if not ex.choose(ex.tobool(ctx.call(t, 'has%sTapChanger' % kind))): continue
        c = ctx.quiet(lambda: ctx.call(t, 'get%sTapChanger' % kind, const=True, raw=True))
        st = ctx.quiet(lambda: ctx.call(c, 'getCurrentStep', cls=NS + kind + 'TapChanger', const=True, raw=True))
        sg = lambda n: ctx.call(st, n, cls=NS + kind + 'TapChangerStep')
        corr = lambda v, n: ex.dop('*', v, ex.dop('+', ONE, ex.dop('/', sg(n), D.const(100))))
        r, x, g, b = corr(r, 'getR'), corr(x, 'getX'), corr(g, 'getG'), corr(b, 'getB')
        rho = ex.dop('*', rho, sg('getRho'))
        if kind == 'Phase': alpha = ex.dop('*', sg('getAlpha'), RAD)
    return r, x, g, b, rho, alpha


@run
def totals(e, ex):
    """getR, getX, getG, getB, getRho, getAlpha of a transformer in its current tap positions"""
    t = ex.symobj(NS + 'TwoWindingsTransformer', 't')
    ex.cover('totals')
    want = twt_par(e, ex, t)
    for n, w in zip(('getR', 'getX', 'getG', 'getB', 'getRho', 'getAlpha'), want):
        v = e.ctx.quiet(lambda: e.call(e.fn(SV + '::' + n, 'TwoWindingsTransformer'), None, t))
        eqd(ex, n + ' of a transformer', v, w)


def p_twt(split):
    """the totals are taken from the contract above"""
    def mk(e, ex):
        t = ex.symobj(NS + 'TwoWindingsTransformer', 't')
        v = {}
        for n in ('getR', 'getX', 'getG', 'getB', 'getRho', 'getAlpha'):
            v[n] = e.d('total_' + n)
            e.ctx.hook_all(SV + '::' + n, lambda ex, this, a, x, n=n: v[n] if a else NotImplemented)
        r, x, g, b, rho, alpha = [v[n] for n in ('getR', 'getX', 'getG', 'getB', 'getRho', 'getAlpha')]
        if split: return [t, True], [r, x, half(ex, g), half(ex, b), half(ex, g), half(ex, b), rho, alpha]
        return ([t] if split is None else [t, False]), [r, x, g, b, ZERO, ZERO, rho, alpha]
    return mk




def isint_enum(s): return isinstance(s, int) or (isz(s) and s.sort() == z3.IntSort())


def boundary(cls, isdl):
    """boundary values: the other side of the state of the network side terminal (any bus, or none)"""
    @run
    def go(e, ex):
        ctx = e.ctx
        bus = z3.Const('in:bus', Ref)
        v, a = ex.sym('double', 'busV'), ex.sym('double', 'busAngle')
        isbus = lambda this: this is not None and this.isobj() and this.root[1].eq(bus)
        for c in sorted(set([NS + 'Bus']) | set(e.p.concrete_subs(NS + 'Bus'))):
            ctx.hook_all(c + '::getV', lambda ex, this, a_, x: v if isbus(this) else NotImplemented)
            ctx.hook_all(c + '::getAngle', lambda ex, this, a_, x: a if isbus(this) else NotImplemented)
        for n in ('getTerminal1', 'getTerminal2', 'getTerminal'):       # contract of Branch (A02): the terminal of that side
            def h(ex, this, a, x, n=n):
                if isdl or len(a) != (n == 'getTerminal'): return NotImplemented
                import attrs
                if a:
                    s = ex.read(a[0]) if isinstance(a[0], Place) else a[0]
                    if not isint_enum(s): return NotImplemented
                    k = 1 if ex.choose(Eq(s, attrs.enumv(NS + 'Branch::Side', 'ONE', ex))) else 2
                else: k = int(n[-1])
                return terminals[k - 1]
            ctx.hook_all(NS + 'Branch::' + n, h)
        terminals = [ex.symobj(NS + 'Terminal', 'terminal%d' % k, exact=False) for k in (1, 2)]
        cl = set()
        for q_ in list(e.p.byq):
            if q_.endswith('BusView::getBus') and 'Terminal' in q_ or q_.endswith('BusViewImpl::getBus'): cl.add(q_)
        if not cl: raise Unsup('terminal bus view')
        for q_ in cl: ctx.hook_all(q_, lambda ex, this, a_, x: bus)
        o = ex.symobj(cls, 'boundary')
        nobus = ex.choose(Eq(bus, NULL))
        if nobus: vv, va = NAN, NAN
        else: ex.nonnull(bus); ex._fact(Ref.is_obj(bus)); vv, va = v, a
        def term():
            if isdl: par = ctx.call(o, 'getConnectable', const=True, raw=True); return par, ctx.call(par, 'getTerminal', cls=NS + 'DanglingLine', const=True, raw=True), 1
            h = next(ex.hread(k + '::' + f['n'], o.root[1]) for k, f in e.p.fields(cls) if 'HalfLine' in f['t'])
            h = h if isinstance(h, Place) else Place(('o', h))
            l = ctx.call(o, 'getConnectable', const=True, raw=True)
            sd = next(ex.hread(k + '::' + f['n'], o.root[1]) for k, f in e.p.fields(cls) if 'Side' in f['t'])
            import attrs
            one = ex.choose(Eq(sd, attrs.enumv(NS + 'Branch::Side', 'ONE', ex)))
            if not one: ex.assume(Eq(sd, attrs.enumv(NS + 'Branch::Side', 'TWO', ex)))
            return h, ctx.call(l, 'getTerminal1' if one else 'getTerminal2', cls=NS + 'Branch', const=True, raw=True), 1 if one else 2
        par, t, side = ctx.quiet(term)
        fired = []
        def rec(k):
            def h(ex, this, a, x):
                if len(a) != (2 if isdl else 1) or not fired_on or not (isinstance(a[0], Place) and a[0].isobj() and ex.proves(Eq(a[0].root[1], par.root[1] if isinstance(par, Place) else par))): return NotImplemented
                fired.append((k, {n: ctx.call(this, n, cls=SV) for n in ('getP', 'getQ', 'getU', 'getA', 'getSide')}, a)); return D(False, z3.Real('other side ' + k))
            return h
        fired_on = [1]
        for k in 'PQUA': ctx.hook_all(SV + '::otherSide' + k, rec(k))
        tp, tq = ctx.quiet(lambda: ctx.call(t, 'getP', cls=NS + 'Terminal')), ctx.quiet(lambda: ctx.call(t, 'getQ', cls=NS + 'Terminal'))
        c = next(f for f in e.p.fns.values() if f.q == SV + '::SV' and len(f.o['ps']) == 5)
        st = ex.alloc(SV)
        import attrs
        ex.call_fn(c.id, st, [tp, tq, vv, va, attrs.enumv(NS + 'Branch::Side', 'ONE' if side == 1 else 'TWO', ex)])
        ex.cover('boundary')
        for g, k in (('getP', 'P'), ('getQ', 'Q'), ('getV', 'U'), ('getAngle', 'A')):
            fired_on[:] = [1]; del fired[:]
            got = ctx.quiet(lambda: ctx.call(o, g))
            fired_on[:] = []
            if fired:           # against the contract of the callee
                kk, sv, fa = fired[-1]
                ex.check(g + ' is the matching component at the other side', And(all(x[0] == k for x in fired), Eq(got.v, z3.Real('other side ' + k))))
                for n, w in (('getP', tp), ('getQ', tq), ('getU', vv), ('getA', va)): ex.check('%s: computed from the %s of the network side terminal' % (g, n), ex.same(sv[n], w))
                ex.check(g + ': computed from the side of the terminal', Eq(sv['getSide'], attrs.enumv(NS + 'Branch::Side', 'ONE' if side == 1 else 'TWO', ex)))
                ex.check(g + ': through the parameters of the parent', Eq(fa[0].root[1], par.root[1] if isinstance(par, Place) else par))
                if isdl: ex.check(g + ': shunt admittance split', fa[1])
                continue
            want = ctx.quiet(lambda: e.call(e.fn(SV + '::otherSide' + k, *(['DanglingLine', 'bool'] if isdl else ['HalfLine'])), st, par, *([True] if isdl else [])))
            eqd(ex, g, got, want)
    return go


@run
def tieline(e, ex):
    """equivalent parameters of a tie line: series values and shunt values of its two halves added"""
    t = ex.symobj(NS + 'TieLine', 'tie'); ctx = e.ctx
    ex.cover('tie line')
    h = [ctx.call(t, n, const=True, raw=True) for n in ('getHalf1', 'getHalf2')]
    import attrs
    for g in ('getR', 'getX', 'getG1', 'getG2', 'getB1', 'getB2'):
        a, b = [ctx.call(x, g, cls=NS + 'tie_line::HalfLine') for x in h]
        eqd(ex, g + ' is the sum over the halves', ctx.quiet(lambda: ctx.call(t, g)), ex.dop('+', a, b))
    for i, n in enumerate(('ONE', 'TWO')):
        ex.check('getHalf(%s)' % n, repr(ctx.call(t, 'getHalf', attrs.enumv(NS + 'Branch::Side', n, ex), const=True, raw=True)) == repr(h[i]))


@run
def current(e, ex):
    """terminal current: |S| / (sqrt(3) V / 1000), zero at a busbar section"""
    t = ex.symobj(NS + 'Terminal', 't'); ctx = e.ctx
    p, q_, v = ex.sym('double', 'p'), ex.sym('double', 'q'), ex.sym('double', 'v')
    mine = lambda this: this is not None and this.isobj() and this.root[1].eq(t.root[1])
    for c in sorted(set([NS + 'Terminal']) | set(e.p.concrete_subs(NS + 'Terminal'))):
        ctx.hook_all(c + '::getP', lambda ex, this, a, x: p if not a else NotImplemented)
        ctx.hook_all(c + '::getQ', lambda ex, this, a, x: q_ if not a else NotImplemented)
        ctx.hook_all(c + '::getV', lambda ex, this, a, x: v if not a else NotImplemented)
    for x in (p, q_, v): ex._fact(Not(x.nan))
    con = ctx.call(t, 'getConnectable', const=True, raw=True)
    con = con if isinstance(con, Place) else Place(('o', con))
    ty = ctx.call(con, 'getType', cls=NS + 'Connectable')
    i = ctx.quiet(lambda: ctx.call(t, 'getI'))
    ex.cover('current')
    import attrs
    bbs = attrs.enumv(NS + 'ConnectableType', 'BUSBAR_SECTION', ex)
    if ex.choose(Eq(ty, bbs)):
        ex.check('no current at a busbar section', Eq(i.v, 0)); return
    s = lib.math(ex, 'hypot', '', [p, q_]); r3 = lib.math(ex, 'sqrt', '', [D.const(3)])
    ex._fact(v.v > 0)
    known = ex.dop('/', ex.dop('*', ex.dop('/', s, r3), v), D.const(1000))        # the form of finding KF6E; any other deviation is reported
    form = ex.proves(And(Eq(i.nan, known.nan), Eq(i.v, known.v)))
    rat.check(ex, 'current of a terminal' + (': hypot(P, Q) / sqrt(3) * V / 1000' if form else ''), i, ex.dop('/', s, ex.dop('/', ex.dop('*', r3, v), D.const(1000))))


def goals(p, tier):
    G = [Goal('LinkData::calculateBranchAdmittance', admittance), Goal('SV::flowAtEnd1/flowAtEnd2', flows), Goal('SV::voltageAtEnd1/voltageAtEnd2', voltages), Goal('SV: the other side of the other side', inverse),
         Goal('SV::otherSide(matrix)', otherside), Goal('SV totals of a transformer', totals), Goal('SV::otherSide*(parameters)', params(['double'] * 8, p_raw))]
    G += [Goal('SV::otherSide*(Line)', params(['iidm::Line &'], p_line)), Goal('SV::otherSide*(HalfLine)', params(['HalfLine'], p_half))]
    for s in (None, True, False):
        t = [] if s is None else ['bool']; n = '' if s is None else ', split' if s else ', not split'
        G.append(Goal('SV::otherSide*(DanglingLine%s)' % n, params(['DanglingLine'] + t, p_dl(s))))
        G.append(Goal('SV::otherSide*(TwoWindingsTransformer%s)' % n, params(['TwoWindingsTransformer'] + t, p_twt(s))))
    G += [Goal('DanglingLine boundary', boundary(NS + 'dangling_line::Boundary', True)), Goal('HalfLine boundary', boundary(NS + 'half_line::Boundary', False)), Goal('TieLine parameters', tieline), Goal('Terminal::getI', current)]
    return G
