"""L01: loading limits and overload detection."""
import prog, attrs, z3
from check import Goal
from contract import *
from vals import *
import lib

GLOBS = prog.CORE
DRIVER = 'L01'
LL, TL, BR, OV = NS + 'LoadingLimits', NS + 'LoadingLimits::TemporaryLimit', NS + 'Branch', NS + 'Branch::Overload'
LT, SIDE = NS + 'LimitType', NS + 'Branch::Side'
KINDS = [('CURRENT', 'CurrentLimits'), ('ACTIVE_POWER', 'ActivePowerLimits'), ('APPARENT_POWER', 'ApparentPowerLimits')]


def outcome(fn):
    try: return fn(), None
    except CppThrow as t: return None, t


def mapfield(ctx, cls):
    fs = [k + '::' + f['n'] for k, f in ctx.p.fields(cls) if ctx.ex.kind(f['t']) == 'map']
    if len(fs) != 1: raise Unsup('temporary limits of ' + cls)
    return fs[0]


class Bands:
    """the temporary limits of an object (limits or adder): its only map"""
    def __init__(self, ctx, o, cls=LL):
        self.ctx, self.ex, self.o = ctx, ctx.ex, o
        self.f = mapfield(ctx, cls); self.pl = Place(o.root, o.path + (('f', self.f),)); self.m = self.ex.read(self.pl); self.heap = dict(self.ex.heap)

    def has(self, k): return z3.Select(self.m.has, i2z(k))

    def get(self, k, n):
        h = self.ex.heap; self.ex.heap = dict(self.heap)
        try: return self.ctx.call(self.pl.sub(('k', k)), n, cls=TL)
        finally: self.ex.heap = h

    def inv(self, k):
        v = self.get(k, 'getValue')
        return Implies(self.has(k), And(Eq(self.get(k, 'getAcceptableDuration'), k), Not(v.nan), v.v > 0, k >= 0))

    def facts(self):
        """class invariant (kept by the adder, below): duration as declared, value a number > 0"""
        ex = self.ex; j = z3.Const(ex.freshname('kq'), z3.IntSort())
        ex._fact(z3.ForAll([j], b2z(self.inv(j)), patterns=[z3.Select(self.m.has, j)]))
        ex._fact(i2z(self.m.n) >= 0)
        ex._fact(z3.Implies(i2z(self.m.n) == 0, self.m.has == z3.K(z3.IntSort(), z3.BoolVal(False))))

    def sorted(self, perm, red):
        """the assumption of the property: permanent limit, then the values, increase as the acceptable duration decreases"""
        ex = self.ex; a, b = z3.Int(ex.freshname('ka')), z3.Int(ex.freshname('kb'))
        va, vb = self.get(a, 'getValue'), self.get(b, 'getValue')
        ex._fact(z3.ForAll([a, b], z3.Implies(z3.And(self.has(a), self.has(b), a > b), va.v < vb.v), patterns=[z3.MultiPattern(self.has(a), self.has(b))]))
        ex._fact(z3.ForAll([a], z3.Implies(self.has(a), perm.v < va.v), patterns=[self.has(a)]))
        if ex.o.get('scale'):
            # products by the reduction stand for a function S; lemma: multiplying by a positive reduction keeps the order
            x, y = ex.sym('double', 'lx'), ex.sym('double', 'ly'); S = ex.o['scale'][0][1]
            ex.check('lemma: reduction keeps the order of the limits', Implies(And(red.v > 0, x.v < y.v), x.v * red.v < y.v * red.v))
            ex._fact(z3.ForAll([a, b], z3.Implies(z3.And(self.has(a), self.has(b), a > b), S(va.v) < S(vb.v)), patterns=[z3.MultiPattern(self.has(a), self.has(b))]))
            ex._fact(z3.ForAll([a], z3.Implies(self.has(a), S(perm.v) < S(va.v)), patterns=[self.has(a)]))

    def consecutive(self, b, a):
        """b is declared just before a"""
        j = z3.Const('jq', z3.IntSort())
        return And(self.has(a), self.has(b), b > a, z3.ForAll([j], z3.Implies(z3.Select(self.m.has, j), z3.Or(j >= b, j <= a)), patterns=[z3.Select(self.m.has, j)]))

    def first(self, a):
        j = z3.Const('jq', z3.IntSort())
        return And(self.has(a), z3.ForAll([j], z3.Implies(z3.Select(self.m.has, j), j <= a), patterns=[z3.Select(self.m.has, j)]))

    def last(self, a):
        j = z3.Const('jq', z3.IntSort())
        return And(self.has(a), z3.ForAll([j], z3.Implies(z3.Select(self.m.has, j), j >= a), patterns=[z3.Select(self.m.has, j)]))


class Br:
    """a branch whose limits and loading are arbitrary functions of the side and of the type"""
    def __init__(self, ctx, cls=NS + 'Line'):
        self.ctx, ex = ctx, ctx.ex
        self.ex = ex
        self.o = ex.symobj(cls, 'branch')
        LIM = z3.Function('uf:limits', Ref, z3.IntSort(), z3.IntSort(), Ref)
        P, PN = (z3.Function('uf:loading' + x, Ref, z3.IntSort(), z3.IntSort(), s) for x, s in (('', z3.RealSort()), (':nan', z3.BoolSort())))
        T = z3.Function('uf:terminal', Ref, z3.IntSort(), Ref)
        self.LIM, self.P, self.PN, self.T = LIM, P, PN, T

    def lim(self, ty, s):
        ex = self.ex
        r = self.LIM(self.o.root[1], i2z(ty), i2z(s))
        OLD[r.get_id()] = r
        ex._fact(z3.Or(r == Ref.null, z3.And(Ref.is_obj(r), Ref.oid(r) < 0, z3.Or(*[TYPEOF(r) == clsid(NS + k) for _, k in KINDS]))))
        ex.tcls[r.get_id()] = (LL, r)
        return r


def branch_setup(ctx):
    """Branch::getLimits, the terminals and Branch::getValueForLimit under their contracts (proved below)"""
    b = Br(ctx); ex = ctx.ex
    def h_lim(ex, this, a, e):
        if this is None or len(a) != 2: return NotImplemented
        return b.lim(ex.read(a[0]) if isinstance(a[0], Place) else a[0], ex.read(a[1]) if isinstance(a[1], Place) else a[1])
    ctx.hook_all(BR + '::getLimits', h_lim)
    ts = {}
    for s, n in ((0, 'ONE'), (1, 'TWO')):
        t = ex.symobj(NS + 'Terminal', 'terminal' + n); ts[n] = t
    ex._fact(ts['ONE'].root[1] != ts['TWO'].root[1])
    b.terms = ts
    sv = {n: attrs.enumv(SIDE, n, ex) for n in ('ONE', 'TWO')}
    def h_term(ex, this, a, e):
        if len(a) != 1: return NotImplemented
        s = ex.read(a[0]) if isinstance(a[0], Place) else a[0]
        if z3.is_expr(s) and s.sort() == Str: return NotImplemented
        return ts['ONE'] if ex.choose(Eq(s, sv['ONE'])) else ts['TWO']
    ctx.hook_all(BR + '::getTerminal', h_term)
    b.val = {}
    for n, t in ts.items():
        for g in ('getP', 'getQ', 'getI'): b.val[n, g] = ex.sym('double', g + n)
    def h_get(g):
        def h(ex, this, a, e):
            if this is None or a: return NotImplemented
            for n, t in ts.items():
                if this.root[1].eq(t.root[1]): return b.val[n, g]
            return b.val['ONE', g] if ex.choose(this.root[1] == ts['ONE'].root[1]) else b.val['TWO', g]
        return h
    for g in ('getP', 'getQ', 'getI'): ctx.hook_all(NS + 'Terminal::' + g, h_get(g))
    b.side = sv
    return b


def loading(ex, b, side, kind):
    if kind == 'CURRENT': return b.val[side, 'getI']
    if kind == 'ACTIVE_POWER': return b.val[side, 'getP']
    p, q = b.val[side, 'getP'], b.val[side, 'getQ']
    return ex.dop('+', ex.dop('*', p, p), ex.dop('*', q, q))


def permanent_exceeded(ctx, b, side, ty, red, i):
    """expected answer: the permanent limit is defined and reached"""
    ex = ctx.ex
    r = b.lim(ty, b.side[side])
    if not ex.choose(r != Ref.null): return False
    pl = ctx.call(Place(('o', r)), 'getPermanentLimit', cls=LL)
    return And(Not(pl.nan), Not(i.nan), Not(red.nan), i.v >= pl.v * red.v)


def value_for_limit(p):
    ctx = Ctx(p); ex = ctx.ex
    def body(ex):
        ctx.start(); b = branch_setup(ctx); ex.cover('terminal')
        for side in ('ONE', 'TWO'):
            for kind, _ in KINDS:
                r = ctx.call(b.o, 'getValueForLimit', b.terms[side], attrs.enumv(LT, kind, ex), cls=BR)
                w = loading(ex, b, side, kind)
                if kind != 'APPARENT_POWER': ex.check('%s of side %s' % (kind, side), ex.same(r, w))
                else: ex.check('%s of side %s: square root of P2 + Q2' % (kind, side), And(Eq(r.nan, w.nan), Implies(Not(w.nan), And(r.v >= 0, r.v * r.v == w.v))))
        r, t = outcome(lambda: ctx.call(b.o, 'getValueForLimit', b.terms['ONE'], attrs.enumv(LT, 'VOLTAGE', ex), cls=BR))
        ex.check('voltage limits are refused', t is not None)
    ex.explore(body); return ex


def hook_value(ctx, b):
    """getValueForLimit under its contract: an arbitrary value per (terminal, type)"""
    ex = ctx.ex; memo = {}
    for s in ('ONE', 'TWO'):
        for k, _ in KINDS: memo[s, k] = ex.sym('double', 'loading:%s:%s' % (s, k))
    ty = {k: attrs.enumv(LT, k, ex) for k, _ in KINDS}
    def h(ex, this, a, e):
        t, v = a[0], ex.read(a[1]) if isinstance(a[1], Place) else a[1]
        s = 'ONE' if t.root[1].eq(b.terms['ONE'].root[1]) else 'TWO' if t.root[1].eq(b.terms['TWO'].root[1]) else None
        if s is None: raise Unsup('terminal')
        for k in ty:
            if ex.choose(Eq(v, ty[k])): return memo[s, k]
        raise CppThrow('powsybl::AssertionError', None)
    ctx.hook_all(BR + '::getValueForLimit', h)
    return memo


def permanent(side, kind):
    def go(p):
        ctx = Ctx(p); ex = ctx.ex
        def body(ex):
            ctx.start(); b = branch_setup(ctx); val = hook_value(ctx, b); ex.cover('branch')
            ty = attrs.enumv(LT, kind, ex); red = ex.sym('double', 'reduction')
            i = val[side, kind]
            w = permanent_exceeded(ctx, b, side, ty, red, i); w1 = permanent_exceeded(ctx, b, side, ty, D.const(1), i)
            h0 = dict(ex.heap)
            n = '1' if side == 'ONE' else '2'
            for lab, f, want in (('checkPermanentLimit(side, reduction)', lambda: ctx.call(b.o, 'checkPermanentLimit', b.side[side], red, ty), w), ('checkPermanentLimit(side)', lambda: ctx.call(b.o, 'checkPermanentLimit', b.side[side], ty), w1),
                                 ('checkPermanentLimit%s(reduction)' % n, lambda: ctx.call(b.o, 'checkPermanentLimit' + n, red, ty), w), ('checkPermanentLimit%s' % n, lambda: ctx.call(b.o, 'checkPermanentLimit' + n, ty), w1)):
                r, t = outcome(f)
                ex.check('%s answers' % lab, t is None, str(t))
                if t is None: ex.check('%s: reached exactly when defined and value >= limit * reduction' % lab, Eq(ex.tobool(r), want))
            ex.check('nothing is modified', all(v.eq(h0.get(k, v)) for k, v in ex.heap.items()))
        ex.explore(body); return ex
    return go


def overloaded(p):
    ctx = Ctx(p); ex = ctx.ex
    def body(ex):
        ctx.start(); b = branch_setup(ctx); val = hook_value(ctx, b); ex.cover('branch')
        ty = attrs.enumv(LT, 'CURRENT', ex); red = ex.sym('double', 'reduction')
        for lab, f, rd in (('isOverloaded(reduction)', lambda: ctx.call(b.o, 'isOverloaded', red), red), ('isOverloaded()', lambda: ctx.call(b.o, 'isOverloaded'), D.const(1))):
            w = Or(*[permanent_exceeded(ctx, b, s, ty, rd, val[s, 'CURRENT']) for s in ('ONE', 'TWO')])
            r, t = outcome(f)
            ex.check('%s answers' % lab, t is None, str(t))
            if t is None: ex.check('%s: exactly when one side exceeds its permanent current limit' % lab, Eq(ex.tobool(r), w))
    ex.explore(body); return ex


def temp_hook(ctx, b):
    """LimitViolationUtils::checkTemporaryLimits: result as a function of its arguments (contract discharged by temporary())"""
    ex = ctx.ex; I = z3.IntSort()
    F = z3.Function('uf:overload', Ref, I, Dbl, Dbl, I, Ref)
    def value(side, red, i, ty):
        r = F(b.o.root[1], i2z(side), red.term(), i.term(), i2z(ty)); OLD[r.get_id()] = r
        ex._fact(z3.Or(r == Ref.null, z3.And(Ref.is_obj(r), Ref.oid(r) < 0, TYPEOF(r) == clsid(OV))))
        ex.tcls[r.get_id()] = (OV, r)
        return r
    def h(ex, this, a, e):
        a = [ex.read(x) if isinstance(x, Place) and not x.isobj() else x for x in a]
        if not a[0].root[1].eq(b.o.root[1]): raise Unsup('overload of another branch')
        return value(a[1], a[2], a[3], a[4])
    ctx.hook_all(NS + 'LimitViolationUtils::checkTemporaryLimits', h)
    return value


def temp_wrappers(side, kind):
    """every overload of Branch::checkTemporaryLimits* forwards side, reduction, loading and type"""
    def go(p):
        ctx = Ctx(p); ex = ctx.ex
        def body(ex):
            ctx.start(); b = branch_setup(ctx); val = hook_value(ctx, b); value = temp_hook(ctx, b); ex.cover('branch')
            ty = attrs.enumv(LT, kind, ex); red = ex.sym('double', 'reduction'); n = '1' if side == 'ONE' else '2'
            for lab, f, rd in (('checkTemporaryLimits(side, reduction)', lambda: ctx.call(b.o, 'checkTemporaryLimits', b.side[side], red, ty), red), ('checkTemporaryLimits(side)', lambda: ctx.call(b.o, 'checkTemporaryLimits', b.side[side], ty), D.const(1)),
                               ('checkTemporaryLimits%s(reduction)' % n, lambda: ctx.call(b.o, 'checkTemporaryLimits' + n, red, ty), red), ('checkTemporaryLimits%s' % n, lambda: ctx.call(b.o, 'checkTemporaryLimits' + n, ty), D.const(1))):
                r, t = outcome(f)
                ex.check('%s answers' % lab, t is None, str(t))
                if t is None: ex.check('%s: overload of that side at that reduction for the loading of that side and type' % lab, Eq(r, value(b.side[side], rd, val[side, kind], ty)))
        ex.explore(body); return ex
    return go


def temporary(side, kind):
    def run(p, scaled):
        ctx = Ctx(p); ex = ctx.ex
        def body(ex):
            ctx.start(); b = branch_setup(ctx)
            ty = attrs.enumv(LT, kind, ex); red, i = ex.sym('double', 'reduction'), ex.sym('double', 'i')
            ex._fact(And(Not(red.nan), red.v > 0))
            mul = lambda x: ex.dop('*', x, red).v
            if scaled: ex.o['scale'] = [(red.v, z3.Function('abs:scaled', z3.RealSort(), z3.RealSort()))]
            r = b.lim(ty, b.side[side])
            call = lambda: ctx.ex.call_fn(p.byq[NS + 'LimitViolationUtils::checkTemporaryLimits'][0].id, None, [b.o, b.side[side], red, i, ty])
            if not ex.choose(r != Ref.null):
                ex.cover('no limits')
                res, t = outcome(call)
                ex.check('no overload without limits', t is None and Eq(res, Ref.null)); return
            lo = Place(('o', r)); ex.nonnull(r)
            k = Bands(ctx, lo); k.facts()
            perm = ctx.call(lo, 'getPermanentLimit', cls=LL)
            ex.cover('limits')
            h0 = dict(ex.heap)
            res, t = outcome(call)
            ex.check('answers', t is None, str(t))
            if t is not None: return
            k.sorted(perm, red)
            a, c = ex.sym('int', 'band'), ex.sym('int', 'previous')
            if ex.choose(Or(perm.nan, i.nan)):
                ex.check('no overload when the permanent limit or the value is undefined', Eq(res, Ref.null)); return
            va, vc = k.get(a, 'getValue'), k.get(c, 'getValue')
            which = ex.pick(4)
            if which == 0:
                ex._fact(And(k.first(a), mul(perm) <= i.v, i.v < mul(va))); prev, pname = perm, None
            elif which == 1:
                ex._fact(And(k.consecutive(c, a), mul(vc) <= i.v, i.v < mul(va))); prev, pname = vc, k.get(c, 'getName')
            elif which == 2:
                ex._fact(Or(i.v < mul(perm), i2z(k.m.n) == 0)); ex.check('no overload below the permanent limit', Eq(res, Ref.null)); return
            else:
                ex._fact(And(k.last(a), i.v >= mul(va))); ex.check('no overload band above the last temporary limit', Eq(res, Ref.null)); return
            if ex.choose(res != Ref.null):
                # cases for the solver: the band found against the band expected
                f = ctx.call(ctx.call(Place(('o', res)), 'getTemporaryLimit', cls=OV, raw=True), 'getAcceptableDuration', cls=TL)
                if ex.choose(i2z(f) > i2z(a)): ex.check('band found not before the one expected', False); return
                if ex.choose(i2z(f) < i2z(a)): ex.check('band found not after the one expected', False); return
            lab = 'first band' if which == 0 else 'next bands'
            ex.check('%s: the overload is reported' % lab, res != Ref.null)
            if not ex.choose(res != Ref.null): return
            o = Place(('o', res)); ex.nonnull(res)
            ex.check('%s: previous limit' % lab, ex.same(ctx.call(o, 'getPreviousLimit', cls=OV), prev))
            if pname is not None: ex.check('%s: name of the previous limit' % lab, ex.same(ctx.call(o, 'getPreviousLimitName', cls=OV), pname))
            else: ex.check('%s: the permanent limit has no name' % lab, ex.same(ctx.call(o, 'getPreviousLimitName', cls=OV), lit('')))
            tl = ctx.call(o, 'getTemporaryLimit', cls=OV, raw=True)
            for g in ('getValue', 'getAcceptableDuration', 'getName', 'isFictitious'): ex.check('%s: %s of the exceeded limit' % (lab, g), ex.same(ctx.call(tl, g, cls=TL), k.get(a, g)))
            ex.check('%s: acceptable duration' % lab, Eq(ctx.call(tl, 'getAcceptableDuration', cls=TL), a))
        ex.explore(body); return ex
    def go(p):
        ex = run(p, True)
        if all(o.status == 'proved' for o in ex.obls): return ex
        return run(p, False)
    return go


def duration(p):
    """getOverloadDuration: the smaller of the acceptable durations of the two sides"""
    ctx = Ctx(p); ex = ctx.ex
    def body(ex):
        ctx.start(); b = branch_setup(ctx); val = hook_value(ctx, b); value = temp_hook(ctx, b); ex.cover('branch')
        h0 = dict(ex.heap)
        r, t = outcome(lambda: ctx.call(b.o, 'getOverloadDuration'))
        ex.check('answers', t is None, str(t))
        if t is not None: return
        ds = []
        for s in ('ONE', 'TWO'):
            res = value(b.side[s], D.const(1), val[s, 'CURRENT'], attrs.enumv(LT, 'CURRENT', ex))
            if not ex.choose(res != Ref.null): continue
            ex.nonnull(res)
            tl = ctx.call(Place(('o', res)), 'getTemporaryLimit', cls=OV, raw=True)
            ds.append(ctx.call(tl, 'getAcceptableDuration', cls=TL))
        mx = (1 << 64) - 1
        for d in ds: ex.check('not above the duration of a side', i2z(r) <= i2z(d))
        ex.check('one of the durations, or unlimited', Or(*[Eq(r, d) for d in ds], And(len(ds) == 0, Eq(r, mx))) if ds else Eq(r, mx))
    ex.explore(body); return ex


def getters(p):
    ctx = Ctx(p); ex = ctx.ex
    def body(ex):
        ctx.start(); o = ex.symobj(NS + 'CurrentLimits', 'limits'); k = Bands(ctx, o); k.facts(); ex.cover('limits')
        d = ex.sym('unsigned long', 'duration')
        h0 = dict(ex.heap)
        r, t = outcome(lambda: ctx.call(o, 'getTemporaryLimit', d, const=True, raw=True))
        if t is None:
            ex.check('getTemporaryLimit finds only declared durations', k.has(d))
            for g in ('getValue', 'getAcceptableDuration', 'getName', 'isFictitious'): ex.check('getTemporaryLimit: ' + g, ex.same(ctx.call(r, g, cls=TL), k.get(d, g)))
        else: ex.check('getTemporaryLimit fails only for durations not declared', Not(k.has(d)))
        v, t = outcome(lambda: ctx.call(o, 'getTemporaryLimitValue', d))
        ex.check('getTemporaryLimitValue answers', t is None)
        if t is None: ex.check('getTemporaryLimitValue: value of the limit of that duration, or undefined', And(Implies(k.has(d), ex.same(v, k.get(d, 'getValue'))), Implies(Not(k.has(d)), v.nan)))
        ex.check('nothing is modified', all(v.eq(h0.get(q_, v)) for q_, v in ex.heap.items()))
    ex.explore(body); return ex


def setperm(cls):
    def go(p):
        ctx = Ctx(p); ex = ctx.ex
        def body(ex):
            ctx.start(); o = ex.symobj(NS + cls, 'limits'); k = Bands(ctx, o)
            x = ex.sym('double', 'x'); old = ctx.call(o, 'getPermanentLimit'); d = ex.sym('unsigned long', 'duration')
            h0 = dict(ex.heap)
            r, t = outcome(lambda: ctx.call(o, 'setPermanentLimit', x, raw=True))
            ok = Or(x.nan, x.v > 0); new = ctx.call(o, 'getPermanentLimit')
            if t is None:
                ex.cover('accepted'); ex.check('accepted only when undefined or > 0', ok); ex.check('the value is stored', ex.same(new, x))
            else:
                ex.cover('rejected'); ex.check('rejected only when <= 0', Not(ok), str(t)); ex.check('unchanged when rejected', ex.same(new, old))
            n = Bands(ctx, o)
            ex.check('temporary limits unchanged', And(Eq(k.has(d), n.has(d)), Implies(k.has(d), ex.same(k.get(d, 'getValue'), n.get(d, 'getValue')))))
            ctx.heap_frame(h0, [o.root[1]])
        ex.explore(body); return ex
    return go


def adder_classes(p, cls):
    """LoadingLimitsAdder<L, LAdder>, LoadingLimitsAdder<L, LAdder>::TemporaryLimitAdder"""
    base = next(c for c in p.bases(NS + cls + 'Adder') if c.replace(NS, '').startswith('LoadingLimitsAdder<'))
    tas = [c for c in p.recs if c.startswith(base + '::') and c.endswith('TemporaryLimitAdder')]
    if len(tas) != 1: raise Unsup('TemporaryLimitAdder of ' + cls)
    return base, tas[0]


def reffield(ctx, cls, part):
    fs = [k + '::' + f['n'] for k, f in ctx.p.fields(cls) if part in f['t']]
    if len(fs) != 1: raise Unsup('%s in %s' % (part, cls))
    return fs[0]


def endtl(cls):
    def go(p):
        ctx = Ctx(p); ex = ctx.ex
        base, ta = adder_classes(p, cls)
        def body(ex):
            ctx.start()
            ad = ex.symobj(NS + cls + 'Adder', 'adder'); own = ex.symobj(NS + 'OperationalLimitsHolder', 'owner')
            ex.hwrite(reffield(ctx, base, 'OperationalLimitsOwner'), ad.root[1], own.root[1])
            k = Bands(ctx, ad, NS + cls + 'Adder'); k.facts()
            v, d, nm, fi = ex.sym('double', 'v'), ex.sym('unsigned long', 'd'), z3.Const('in:name', Str), ex.sym('bool', 'fictitious')
            fresh = ctx.call(ad, 'beginTemporaryLimit', raw=True)   # a new adder
            if not isinstance(fresh, Place): kk = ('t', ex.freshname('limitAdder')); ex.loc[kk] = fresh; fresh = Place(('v', kk))
            o = fresh
            given = ex.pick(2) == 0
            if given: ctx.call(o, 'setAcceptableDuration', d, cls=ta)
            ctx.call(o, 'setValue', v, cls=ta); ctx.call(o, 'setName', nm, cls=ta); ctx.call(o, 'setFictitious', fi, cls=ta)
            z = ex.sym('unsigned long', 'other')
            ok = And(Not(v.nan), v.v > 0, given, Not(ex.same(nm, lit(''))))
            r, t = outcome(lambda: ctx.call(o, 'endTemporaryLimit', cls=ta, raw=True))
            n = Bands(ctx, ad, NS + cls + 'Adder')
            same = lambda x: And(Eq(n.has(x), k.has(x)), Implies(k.has(x), And(*[ex.same(n.get(x, g), k.get(x, g)) for g in ('getValue', 'getAcceptableDuration', 'getName', 'isFictitious')])))
            if t is None:
                ex.cover('accepted')
                ex.check('accepted only when value > 0, duration and name are given', ok)
                ex.check('other limits unchanged', Implies(z != d, same(z)))
                ex.check('a limit of that duration is declared', n.has(d))
                if ex.choose(Not(k.has(d))):
                    ex.check('value as given', ex.same(n.get(d, 'getValue'), v)); ex.check('name as given', ex.same(n.get(d, 'getName'), nm)); ex.check('duration as given', Eq(n.get(d, 'getAcceptableDuration'), d)); ex.check('fictitious as given', Eq(n.get(d, 'isFictitious'), fi))
                ex.check('invariant of the limits kept', n.inv(z))
                ex.check('returns the adder', Eq(r.root[1], ad.root[1]))
            else:
                ex.cover('rejected')
                ex.check('rejected only when value, duration or name is missing or value <= 0', Not(ok), str(t)); ex.check('limits unchanged when rejected', same(z))
        ex.explore(body); return ex
    return go


def register(cls, kind, owncls, new, get, others):
    """add(): checks, then the limits are those of that side and type; the others are unchanged"""
    def go(p):
        ctx = Ctx(p); ex = ctx.ex
        base, ta = adder_classes(p, cls)
        def body(ex):
            ctx.start(); own = ex.symobj(owncls, 'owner')
            uniq = z3.Bool('in:namesunique')     # LoadingLimitsAdder::checkTemporaryLimits: throws exactly when two names are equal (assumed; exercised by the driver)
            def h(ex, this, a, e):
                if this is None or a: return NotImplemented
                if not ex.choose(uniq): raise CppThrow(NS + 'ValidationException', None)
                return None
            ctx.hook_all(base + '::checkTemporaryLimits', h)
            ex.assumed['LoadingLimitsAdder::checkTemporaryLimits throws exactly when two temporary limits have the same name'] = 1
            reads = lambda: [ctx.quiet(lambda: ctx.call(own, g, const=True)) for g in others]
            before, old = reads(), ctx.quiet(lambda: ctx.call(own, get, const=True))
            ad = ctx.call(own, new, raw=True)
            if not isinstance(ad, Place): kk = ('t', ex.freshname('adder')); ex.loc[kk] = ad; ad = Place(('v', kk))
            perm = ex.sym('double', 'permanent'); d = ex.sym('unsigned long', 'd')
            ctx.call(ad, 'setPermanentLimit', perm, cls=base)
            mf = mapfield(ctx, NS + cls + 'Adder'); mp = Place(ad.root, ad.path + (('f', mf),))
            ex.write(mp, ex.sym(ex.fieldtype(mf), 'temporary'))
            k = Bands(ctx, ad, NS + cls + 'Adder')
            k.facts()
            r, t = outcome(lambda: ctx.call(ad, 'add', cls=NS + cls + 'Adder', raw=True))
            if t is None:
                ex.cover('accepted')
                ex.check('accepted only with an undefined or positive permanent limit', Or(perm.nan, perm.v > 0))
                ex.check('accepted only with distinct names', uniq)
                now = ctx.call(own, get, const=True)
                ex.check('the limits of that side and type are those returned', Eq(now, r.root[1]))
                g = Place(('o', now)); ex.nonnull(now)
                ex.tcls[now.get_id()] = (NS + cls, now)
                ex.check('permanent limit as given', ex.same(ctx.call(g, 'getPermanentLimit', cls=LL), perm))
                n = Bands(ctx, g)
                ex.check('temporary limits as given', And(Eq(n.has(d), k.has(d)), Implies(k.has(d), And(*[ex.same(n.get(d, q_), k.get(d, q_)) for q_ in ('getValue', 'getAcceptableDuration', 'getName', 'isFictitious')]))))
            else:
                ex.cover('rejected')
                ex.check('rejected only for a permanent limit <= 0 or two limits of the same name', Not(And(uniq, Or(perm.nan, perm.v > 0))), str(t))
                ex.check('limits unchanged when rejected', Eq(ctx.call(own, get, const=True), old))
            for o_, v, w in zip(others, before, reads()): ex.check('%s unchanged' % o_, Eq(v, w))
        ex.explore(body); return ex
    return go


def goals(p, tier):
    G = [Goal('Branch::getValueForLimit', value_for_limit), Goal('Branch::isOverloaded', overloaded), Goal('Branch::getOverloadDuration', duration), Goal('LoadingLimits: temporary limits by duration', getters)]
    for side in ('ONE', 'TWO'):
        for kind, cls in KINDS:
            G.append(Goal('Branch::checkPermanentLimit (side %s, %s)' % (side, kind), permanent(side, kind)))
            G.append(Goal('Branch::checkTemporaryLimits (side %s, %s)' % (side, kind), temp_wrappers(side, kind)))
    G.append(Goal('LimitViolationUtils::checkTemporaryLimits', temporary('ONE', 'CURRENT')))
    for kind, cls in KINDS:
        G.append(Goal('%s::setPermanentLimit' % cls, setperm(cls)))
        base, ta = adder_classes(p, cls)
        if all(any(f.q == x for f in p.fns.values()) for x in (ta + '::endTemporaryLimit', base + '::beginTemporaryLimit', ta + '::setAcceptableDuration', ta + '::setName')): G.append(Goal('%sAdder::TemporaryLimitAdder::endTemporaryLimit' % cls, endtl(cls)))
    for side in ('1', '2'):
        for kind, cls in KINDS:
            gets = ['get%s%s' % (c, s_) for _, c in KINDS for s_ in ('1', '2')]; g = 'get%s%s' % (cls, side)
            G.append(Goal('Branch::new%s%s' % (cls, side), register(cls, kind, NS + 'Line', 'new' + cls + side, g, [x for x in gets if x != g])))
    for own in ('DanglingLine', 'three_windings_transformer::Leg'):
        for kind, cls in KINDS:
            gets = ['get%s' % c for _, c in KINDS]; g = 'get' + cls
            G.append(Goal('%s::new%s' % (own.rsplit('::', 1)[-1], cls), register(cls, kind, NS + own, 'new' + cls, g, [x for x in gets if x != g])))
    return G
