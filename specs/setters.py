"""Contracts of every setter (V01, A01): generated from the attribute and invariant tables, discharged on the setter's real body."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'vc'))
import z3
from vals import *
from contract import *
import attrs

# state that only memoises derived information and is rebuilt on demand
CACHES = re.compile(r'(CalculatedBusTopology|CalculatedBusBreakerTopology|BusCache|ComponentsManager|::m_variants$|m_adjacencyList|CalculatedBus::|MergedBus::)')


class SetterGoal:
    def __init__(self, cls, observer, setter, pv, mid, ptype):
        self.cls, self.observer, self.setter, self.pv, self.mid, self.ptype = cls, observer, setter, pv, mid, ptype
        self.name = '%s::%s' % (cls.name.replace(NS, ''), setter)


def fix_pre(ctx, cls, obj):
    """object-specific invariants every state satisfies"""
    ex = ctx.ex
    for c, f in ctx.p.fields(cls.name):
        if f['n'] in ('m_extendable', 'm_shuntCompensator'):   # the object is attached to its owner
            v = ex.hread(c + '::' + f['n'], obj.root[1])
            ex.nonnull(v.root[1] if isinstance(v, Place) else v)
    if NS + 'Extension' in ctx.p.bases(cls.name):
        # ... which is of the type the extension requires
        e = ex.hread(NS + 'Extension::m_extendable', obj.root[1])
        key = ('t', 'ext'); ex.loc[key] = e
        ctx.quiet(lambda: ctx.call(obj, 'assertExtendable', Place(('v', key))))
        if cls.name.endswith('HvdcOperatorActivePowerRange'):
            for s in ('getConverterStation1', 'getConverterStation2'):     # an HVDC line joins two converter stations
                st = ctx.quiet(lambda: ctx.call(Place(('o', e.root[1] if isinstance(e, Place) else e)), s, cls=NS + 'HvdcLine', const=True))
                ex.nonnull(st.root[1] if isinstance(st, Place) else st)
    if cls.pre == 'tap':
        st = ctx.call(obj, 'getStepCount')
        lo = ctx.call(obj, 'getLowTapPosition')
        ex._fact(z3.And(i2z(st) >= 1, i2z(st) < (1 << 31), i2z(lo) > -(1 << 62), i2z(lo) < (1 << 62)))


def build_inv(ctx, cls, obj):
    ex = ctx.ex
    inv = cls.inv
    if inv == 'svc':
        en = lambda n: attrs.enumv(NS + 'StaticVarCompensator::RegulationMode', n, ex)
        return lambda o: {'bMin': num(o['getBmin']), 'bMax': num(o['getBmax']), 'voltage set point set in voltage regulation': Implies(Eq(o['getRegulationMode'], en('VOLTAGE')), num(o['getVoltageSetpoint'])),
                          'reactive set point set in reactive power regulation': Implies(Eq(o['getRegulationMode'], en('REACTIVE_POWER')), num(o['getReactivePowerSetpoint']))}
    if inv == 'term': return attrs.term_inv(ex)
    if inv == 'termv':
        f = attrs.term_inv(ex)
        return attrs.both(f, lambda o: {'voltage not negative': Or(o['getV'].nan, o['getV'].v >= 0)})
    if inv in ('ptc', 'rtc'):
        def common(o):
            lo, hi, p, d = o['getLowTapPosition'], o['getHighTapPosition'], o['getTapPosition'], o['getTargetDeadband']
            return {'tap position within [low, high]': And(i2z(p) >= lo, i2z(p) <= hi), 'high = low + steps - 1': Eq(hi, i2z(lo) + o['getStepCount'] - 1),
                    'dead band not negative, defined when regulating': And(Or(d.nan, d.v >= 0), Implies(o['isRegulating'], num(d)))}
        if inv == 'ptc':
            ft = attrs.enumv(NS + 'PhaseTapChanger::RegulationMode', 'FIXED_TAP', ex)
            return attrs.both(common, lambda o: {'regulating phase tap changer: not fixed, value and terminal set': Implies(o['isRegulating'], And(Not(Eq(o['getRegulationMode'], ft)), num(o['getRegulationValue']), Not(Eq(o['getRegulationTerminal'], NULL)))),
                                                 'regulation terminal in the same network': same_net(ctx, obj, o['getRegulationTerminal'])})
        return attrs.both(common, lambda o: {'regulating with load tap changing capabilities: target voltage > 0 and terminal set': Implies(And(o['isRegulating'], o['hasLoadTapChangingCapabilities']), And(gt0(o['getTargetV']), Not(Eq(o['getRegulationTerminal'], NULL)))),
                                             'regulation terminal in the same network': same_net(ctx, obj, o['getRegulationTerminal'])})
    return inv


def same_net(ctx, obj, t):
    """t is null or a terminal of the network of obj"""
    ex = ctx.ex
    if isinstance(t, Place): t = t.root[1]
    if t.eq(NULL): return True
    n1 = ctx.call(obj, 'getNetwork', const=True).root[1]
    vl = ex.hread(NS + 'Terminal::m_voltageLevel', t)
    vl = vl.root[1] if isinstance(vl, Place) else vl
    return Or(Eq(t, NULL), Eq(ctx.net_of(vl), n1))


def acceptance(ctx, cls, g, obj, pre, x):
    a = cls.acc
    if a == 'term': a = attrs.term_acc(ctx.ex)
    f = a.get(g.setter)
    if f is None: return True
    if f == 'samenet': return same_net(ctx, obj, x)
    if f == 'ownlevel':
        if x.eq(NULL): return True
        e = ctx.ex.hread(NS + 'Extension::m_extendable', obj.root[1])
        vl = ctx.call(Place(('o', x)), 'getVoltageLevel', cls=NS + 'Terminal', const=True)
        return Or(Eq(x, NULL), Eq(vl.root[1], e.root[1] if isinstance(e, Place) else e))
    if f == 'nodebreaker':
        vl = ctx.call(obj, 'getVoltageLevel', const=True)
        k = ctx.call(vl, 'getTopologyKind', cls=NS + 'VoltageLevel')
        return Eq(k, attrs.enumv(NS + 'TopologyKind', 'NODE_BREAKER', ctx.ex))
    return f(pre, x)


def expected(ctx, cls, g, obj, x):
    f = cls.eqv.get(g.observer)
    if f is None: return x
    t = ctx.call(obj, 'getTerminal', const=True)
    return Ite(Eq(x, NULL), t.root[1] if isinstance(t, Place) else t, x)


def observe(ctx, cls, obj, w):
    ex = ctx.ex
    ctx.at(w); o = {}
    for getter, setters, pv in cls.attrs:
        v = ctx.call(obj, getter)
        o[getter] = v.root[1] if isinstance(v, Place) else v
    if cls.ctx == 'linear':
        sh = ex.hread(cls.name + '::m_shuntCompensator', obj.root[1])
        sh = sh.root[1] if isinstance(sh, Place) else sh
        ex.nonnull(sh)
        o['sections'] = ctx.call(Place(('o', sh)), 'getSectionCount', cls=NS + 'ShuntCompensator')
    elif cls.ctx: o.update(cls.ctx(ctx, obj))
    ctx.at(ctx.W)
    return o


def setters_of(prog, cls, filt=None):
    out = []
    c = Ctx(prog)
    for getter, setters, pv in cls.attrs:
        for s in setters:
            seen = set()
            for b in prog.bases(cls.name):
                r = prog.recs.get(b)
                if not r: continue
                for m in r['methods']:
                    if m['n'] != s or len(m['ps']) != 1 or m['acc'] == 'private': continue
                    k = c.ex.strip(m['ps'][0][1])
                    if k in seen: continue
                    seen.add(k)
                    out.append(SetterGoal(cls, getter, s, pv, m['id'], m['ps'][0][1]))
                if seen: break     # derived declarations hide the bases'
            if not seen: out.append(SetterGoal(cls, getter, s, pv, None, None))
    return out


def run_setter(prog, g, opts=None):
    """all obligations of one setter; labels start with the property id"""
    ctx = Ctx(prog, **(opts or {}))
    ex = ctx.ex; cls = g.cls
    for c in ('NodeBreakerVoltageLevel', 'BusBreakerVoltageLevel'):
        ctx.hook_all(NS + c + '::invalidateCache', lambda ex, this, args, e: None)
    ex.assumed['VoltageLevel::invalidateCache modifies cached topology only (modifies clause discharged in C01)'] = 1
    if g.mid is None: raise Unsup('setter %s not found' % g.name)

    def body(ex):
        ctx.start()
        obj = ex.symobj(cls.name, 'o')
        fix_pre(ctx, cls, obj)
        ex.idxlog = []
        try: pre = observe(ctx, cls, obj, ctx.W); pre2 = observe(ctx, cls, obj, ctx.W2)
        except CppThrow: raise PathEnd()
        for pl, i, n in ex.idxlog:
            if isz(i) and (i.eq(ctx.W) or i.eq(ctx.W2)): ex._fact(i2z(n) == ctx.N)
        ex.idxlog = None
        inv = build_inv(ctx, cls, obj)
        for o in (pre, pre2):
            for c in inv(o).values(): ex.assume(c)
        ex.cover(g.name + ' precondition')
        # reading changes nothing: the observers above ran from the initial heap
        for fk, a in ex.heap.items():
            if not CACHES.search(fk): ex.check('V01|reading attributes leaves %s unchanged' % fk.replace(NS, ''), a.eq(z3.Const('H0:' + fk, a.sort())))
        k = ex.strip(g.ptype)
        x = ex.sym(k, 'x')
        acc = ctx.quiet(lambda: acceptance(ctx, cls, g, obj, pre, x))
        exp = ctx.quiet(lambda: expected(ctx, cls, g, obj, x))
        never = g.pv == 'never'
        want = dict(pre); want[g.observer] = exp
        want2 = dict(pre2)
        if g.pv is False: want2[g.observer] = exp
        valid = And(acc, *list(inv(want).values()), *list(inv(want2).values())) if not never else False
        if ex.kind(k) == 'enum': pass
        h0 = dict(ex.heap)
        arg = x
        if ex.isref(g.ptype):
            key = ('t', 'arg'); ex.loc[key] = x; arg = Place(('v', key))
        m = prog.meth[g.mid][1]
        f = dict(id=g.mid, q=prog.meth[g.mid][0] + '::' + g.setter, n=g.setter, cls=prog.meth[g.mid][0], repo=True, virt=m['virt'], ps=[p[1] for p in m['ps']], ret=m['ret'], static=False)
        thrown = None
        try:
            fid = ex.dispatch(f, obj, cls.name) if m['virt'] else g.mid
            if fid not in prog.fns: raise Unsup('no body for ' + f['q'])
            ex.call_body(fid, obj, [arg], f)
        except CppThrow as t: thrown = t
        try:
            post = observe(ctx, cls, obj, ctx.W); post2 = observe(ctx, cls, obj, ctx.W2)
        except CppThrow as t:
            ex.check('A01|attributes stay readable after %s' % g.setter, False, str(t)); return
        if thrown is None:
            ex.cover(g.name + ' accepts')
            if never: ex.check('A01|%s always rejects' % g.setter, False); return
            ex.check('A01|accepts only admissible values', acc)
            for n, c in inv(want).items(): ex.check('A01|accepted value satisfies: ' + n, c)
            for n, c in inv(post).items(): ex.check('A01|invariant kept: ' + n, c)
            for n, c in inv(post2).items(): ex.check('A01|invariant kept in every other variant: ' + n, c)
            for p in (('V01', 'A01') if g.pv is True else ('A01',)):
                ex.check('%s|%s returns the value set' % (p, g.observer), ex.same(post[g.observer], exp))
            for o in pre:
                if o != g.observer:
                    ex.check('%s|%s unchanged' % ('V01' if g.pv is True else 'A01', o), ex.same(post[o], pre[o]))
                    ex.check('V01|%s unchanged in every other variant' % o, ex.same(post2[o], pre2[o]))
            if g.pv is True: ex.check('V01|%s unchanged in every other variant' % g.observer, ex.same(post2[g.observer], pre2[g.observer]))
            elif g.pv is False: ex.check('A01|%s set for every variant' % g.observer, ex.same(post2[g.observer], exp))
        else:
            ex.cover(g.name + ' rejects')
            ex.check('A01|rejects only invalid values', Not(valid), str(thrown))
            for o in pre:
                ex.check('A01|%s unchanged after a rejection' % o, ex.same(post[o], pre[o]))
                ex.check('A01|%s unchanged in other variants after a rejection' % o, ex.same(post2[o], pre2[o]))
        roots = [obj.root[1]]
        if cls.ctx == 'linear' or cls.name.endswith('::Extension'): pass
        for fk, a in list(ex.heap.items()):
            if CACHES.search(fk): continue
            frame1(ex, fk, a, h0.get(fk), roots, 'V01' if g.pv is True else 'A01')
    ex.explore(body)
    return ex


def frame1(ex, fk, a, b, roots, p):
    if b is None: b = z3.Const('H0:' + fk, a.sort())
    if a.eq(b): return
    r = z3.Const(ex.freshname('fr'), Ref)
    old = z3.Or(z3.And(Ref.is_obj(r), Ref.oid(r) < 0), z3.And(Ref.is_sub(r), b2z(Or(Not(Ref.is_obj(Ref.owner(r))), Ref.oid(Ref.owner(r)) < 0))))
    cond = And(*[r != x for x in roots])
    own = And(*[Not(And(Ref.is_sub(r), Ref.owner(r) == x)) for x in roots])
    ex.check('%s|%s of every other object unchanged' % (p, fk.replace(NS, '')), Implies(And(old, cond, own), z3.Select(a, r) == z3.Select(b, r)))
