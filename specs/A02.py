"""A02: adders create exactly one object with exactly the values given, or change nothing at all."""
import re
import prog, attrs, setters, z3
from check import Goal
from contract import *
from vals import *
from I01 import outcome, unchanged, refval

GLOBS = prog.CORE
DRIVER = 'A02'
ID = NS + 'Identifiable'
TAKEN = z3.Function('uf:taken', Str, z3.BoolSort())
ATTACHABLE = z3.Function('uf:attachable', Ref, Ref, z3.BoolSort())
CLS = {c.name: c for c in attrs.classes()}


class Reg(Exception): pass


def throw(ex, cls='powsybl::PowsyblException', why=None):
    ex.ghost['why'] = why or ex.ghost.get('why') or 'service'
    raise CppThrow(cls, None)


def install(ctx, adder):
    """contracts of the services an adder calls: id check, registration, terminal attachment"""
    ex = ctx.ex
    ex.ghost_reg = lambda: ex.ghost.setdefault('log', ())

    def log(k, *a): ex.ghost['log'] = ex.ghost.get('log', ()) + ((k,) + a,)

    def uid(ex, this, a, e):
        # proved in I01 (unique id): an id in use is never returned; without unicity the id itself or an exception
        m = [c + '::' + f['n'] for c, f in ctx.p.fields(adder) if f['n'] == 'm_id']
        i = ex.read(this.sub(('f', m[0]))); ens = ex.read(this.sub(('f', m[0].replace('m_id', 'm_ensureIdUnicity'))))
        if ex.choose(Eq(i, lit(''))): throw(ex)
        if ex.choose(ex.tobool(ens)): u = z3.Const('in:uid', Str); ex._fact(z3.Not(TAKEN(u)))
        else:
            u = i
            if ex.choose(TAKEN(u)): throw(ex)
        ex._fact(u != lit(''))
        ex.ghost['uid'] = u
        return u
    for q in ctx.p.byq:
        if q.endswith('IdentifiableAdder::checkAndGetUniqueId') or q.startswith(NS + 'IdentifiableAdder') and q.endswith('::checkAndGetUniqueId'): ctx.hook_all(q, uid)

    def reg(ex, this, a, e):
        o = refval(ex, a[0])
        i = ctx.call(Place(('o', o)), 'getId', const=True, cls=ID)
        if ex.choose(TAKEN(i)): throw(ex)
        log('add', o, i)
        return Place(('o', o))
    ctx.hook_all(NS + 'Network::checkAndAdd', reg)

    def attach(ex, this, a, e):
        t = refval(ex, a[0]); test = ex.tobool(a[1] if not isinstance(a[1], Place) else ex.read(a[1]))
        c = ATTACHABLE(this.root[1], t)
        if z3.is_true(z3.simplify(b2z(test))):
            log('test', this.root[1], t)
            if ex.choose(Not(c)): throw(ex)
        else:
            for k, v2, t2 in [x for x in ex.ghost['log'] if x[0] == 'attach']:
                # the node of a terminal attached meanwhile is taken
                nt = [TYPEOF(y) == clsid(NS + 'NodeTerminal') for y in (t, t2)]
                if not (ex.feasible(And(v2 == this.root[1], *nt))): continue
                if ex.choose(And(v2 == this.root[1], *nt)):
                    n = [ex.hread(NS + 'NodeTerminal::m_node', y) for y in (t, t2)]
                    if ex.choose(Eq(n[0], n[1])): throw(ex, VE, why='same node')
            tested = [x for x in ex.ghost['log'] if x[0] == 'test']
            if any(x[1].eq(this.root[1]) and x[2].eq(t) for x in tested): ex.check('a terminal is attached only after attaching it was found possible', c)
            elif ex.choose(Not(c)): throw(ex, VE, why='not attachable')
            log('attach', this.root[1], t)
        return None
    for c in ('VoltageLevel', 'NodeBreakerVoltageLevel', 'BusBreakerVoltageLevel'): ctx.hook_all(NS + c + '::attach', attach)
    for c in ('NodeBreakerVoltageLevel', 'BusBreakerVoltageLevel'):
        ctx.hook_all(NS + c + '::invalidateCache', lambda ex, this, args, e: None)


TB = NS + 'TerminalBuilder'
VE = NS + 'ValidationException'


def cond(ex, this):
    """(node, bus, connectable bus) given to a terminal builder -> (valid?, node given?, bus id)"""
    n, b, c = (ex.read(this.sub(('f', TB + '::' + x))) for x in ('m_node', 'm_bus', 'm_connectableBus'))
    conn = Ite(Eq(b, lit('')), c, b)
    set_ = ex.tobool(n)
    bad = Or(And(Not(Eq(b, lit(''))), Not(Eq(c, lit(''))), Not(Eq(b, c))), Eq(set_, Not(Eq(conn, lit('')))))
    return Not(bad), set_, n, conn, Not(Eq(b, lit('')))


def builder(ctx):
    """contract of TerminalBuilder::build (proved separately): a node xor a bus, whose terminal is created"""
    ex = ctx.ex
    cn, = [f for f in ctx.p.byq[NS + 'createNodeTerminal']]
    cb, = [f for f in ctx.p.byq[NS + 'createBusTerminal']]

    def h(ex, this, a, e):
        ok, set_, n, conn, con = cond(ex, this)
        if not ex.choose(ok): throw(ex, VE)
        vl = ex.member(this, TB, 'm_voltageLevel')
        if ex.choose(set_): r = ex.call_body(cn.id, None, [vl, ex.proj(n, ('opt',)) if False else optval(ex, n)], cn.o['f'])
        else:
            key = ('t', 'conn%d' % ex.n); ex.n += 1; ex.loc[key] = conn
            r = ex.call_body(cb.id, None, [vl, Place(('v', key)), con], cb.o['f'])
        return r
    ctx.hook_all(TB + '::build', h)


def optval(ex, n):
    return ex.from_term(n, n.tk) if False else (n.v if hasattr(n, 'v') else n)


def build_goal(p):
    ctx = Ctx(p); ex = ctx.ex
    made = []
    ctx.hook_all(NS + 'createNodeTerminal', lambda ex, this, a, e: mk(ex, 'node', a))
    ctx.hook_all(NS + 'createBusTerminal', lambda ex, this, a, e: mk(ex, 'bus', a))

    def mk(ex, k, a):
        r = z3.Const('in:new terminal', Ref); ex._fact(Ref.is_obj(r))
        ex.ghost['made'] = ex.ghost['made'] + ((k,) + tuple(ex.read(x) if isinstance(x, Place) and not x.isobj() else x for x in a),)
        return r

    def body(ex):
        ctx.start(); ex.ghost['made'] = ()
        o = ex.symobj(TB, 'builder')
        ok, set_, n, conn, con = cond(ex, o)
        vl = ex.member(o, TB, 'm_voltageLevel')
        ex.cover('any builder')
        r, th = outcome(lambda: ctx.call(o, 'build', raw=True))
        m = ex.ghost['made']
        ex.check('builds exactly when either a node or a bus (the connectable bus, when both are given) is given', Eq(th is None, ok), str(th))
        if th is not None: ex.check('no terminal otherwise', not m); return
        ex.check('builds one terminal', len(m) == 1)
        if m[0][0] == 'node': ex.check('a node terminal of the node given', And(set_, Eq(m[0][2], optval(ex, n)), m[0][1].root[1] == vl.root[1]))
        else: ex.check('a bus terminal of the bus given, connected exactly when the connection bus is given', And(Not(set_), Eq(m[0][2], conn), Eq(m[0][3], con), m[0][1].root[1] == vl.root[1]))
        ex.check('the terminal is returned', Eq(refval(ex, r), z3.Const('in:new terminal', Ref)))
    ex.explore(body); return ex


def live(ctx):
    """VariantManager::getVariantIndices: the live variants, all below the number of variants (V03)"""
    ex = ctx.ex

    def h(ex, this, a, e):
        f, = ctx.p.byq[NS + 'VariantManager::getVariantIndices']
        v = ex.sym(ex.strip(f.o['f']['ret']), 'in:live variants')
        x = z3.Int('lv')
        ex._fact(z3.ForAll([x], z3.Implies(b2z(z3.Select(v.has, x)), z3.And(0 <= x, x < ctx.N)), patterns=[z3.Select(v.has, x)]))
        ex._fact(z3.And(z3.Select(v.has, ctx.W), z3.Select(v.has, ctx.W2)))
        return v
    ctx.hook_all(NS + 'VariantManager::getVariantIndices', h)


def adder_setters(p, adder):
    out = {}
    for b in p.bases(adder):
        r = p.recs.get(b)
        if not r: continue
        for m in r['methods']:
            if m['n'].startswith('set') and len(m['ps']) == 1 and m['acc'] == 'public' and m['n'] not in out: out[m['n']] = (b, m)
    return out


ALIAS = {'setVoltageRegulatorOn': 'isVoltageRegulatorOn', 'setFictitious': 'isFictitious', 'setActivePowerSetpoint': ('getTargetP', 'getActivePowerSetpoint'), 'setReactivePowerSetpoint': ('getTargetQ', 'getReactivePowerSetpoint'),
         'setVoltageSetpoint': ('getTargetV', 'getVoltageSetpoint'), 'setName': 'getOptionalName'}
SYN = [('setActivePowerSetpoint', 'setTargetP'), ('setReactivePowerSetpoint', 'setTargetQ'), ('setVoltageSetpoint', 'setTargetV')]
CONN = ('setNode', 'setBus', 'setConnectableBus', 'setVoltageLevel')
LOOK = z3.Function('uf:registered', Str, Ref)


def observer(ctx, cls, s):
    for n in (ALIAS.get(s) if isinstance(ALIAS.get(s), tuple) else (ALIAS.get(s),)) + tuple(x + s[3:] for x in ('get', 'is', 'has')):
        if n and ctx.method(cls, n, 0): return n
    return None


def callset(ctx, ad, s, m, x=None):
    ex = ctx.ex
    pt = m['ps'][0][1]
    if x is None:
        k = ex.strip(pt); x = ex.sym(k, 'in:' + s)
        if ex.kind(k) == 'enum': ex._fact(b2z(Or(*[x == v for n, v in ex.T(k)['vals']])))
    arg = x
    if ex.isref(pt):
        key = ('t', 'arg:' + s); ex.loc[key] = x; arg = Place(('v', key))
    ctx.call(ad, s, arg, raw=True)
    return x


def find(ctx):
    """contract of Network::find (I01): the object registered under the id or alias when it has the type asked for"""
    ex = ctx.ex
    for f in ctx.p.byq.get(NS + 'Network::find', []) + ctx.p.byq.get(NS + 'Network::get', []):
        m = re.search(r'(find|get)INS0_(\d+)', f.id)
        if not m: continue
        t = NS + f.id[m.end():m.end() + int(m.group(2))]

        def h(ex, this, a, e, t=t):
            s = ex.read(a[0]) if isinstance(a[0], Place) else a[0]
            r = LOOK(s); OLD[r.get_id()] = r
            ex._fact(z3.Or(r == NULL, z3.And(Ref.is_obj(r), Ref.oid(r) < 0)))
            ok = And(r != NULL, ex.isa(r, t))
            if ex.choose(ok):
                ex.ref_facts(r, t, True)
                return r
            ex.ghost['why'] = 'not registered'
            return NULL
        ex.idhooks[f.id] = h


def field(ctx, adder, n):
    for c, f in ctx.p.fields(adder):
        if f['n'] == n: return c + '::' + n
    raise Unsup('field %s of %s' % (n, adder))


def connect(ctx, ad, ss, sides, conn):
    """give the connection of every terminal: a node, a bus, or a connectable bus only"""
    ex = ctx.ex
    for sd in sides:
        x = {}
        how = ex.pick(3)
        if 'setVoltageLevel' + sd in ss: x['vl'] = callset(ctx, ad, 'setVoltageLevel' + sd, ss['setVoltageLevel' + sd][1])
        if how == 0:
            x['node'] = callset(ctx, ad, 'setNode' + sd, ss['setNode' + sd][1])
        elif how == 1: x['bus'] = callset(ctx, ad, 'setBus' + sd, ss['setBus' + sd][1])
        if how: x['cbus'] = callset(ctx, ad, 'setConnectableBus' + sd, ss['setConnectableBus' + sd][1])
        conn[sd] = x


def terminals(ctx, ob, sides):
    ex = ctx.ex
    if len(sides) == 3:
        return {sd: refval(ex, ctx.call(Place(('o', refval(ex, ctx.call(ob, 'getLeg' + sd, const=True)))), 'getTerminal', cls=NS + 'three_windings_transformer::Leg', const=True)) for sd in sides}
    return {sd: refval(ex, ctx.call(ob, 'getTerminal' + sd, const=True)) for sd in sides}


def level(ctx, ad, adder, x):
    """the voltage level a terminal is to be attached to"""
    ex = ctx.ex
    if 'vl' in x: return LOOK(x['vl'])
    v = ex.member(ad, field(ctx, adder, 'm_voltageLevel').rsplit('::', 1)[0], 'm_voltageLevel')
    return v.root[1]


def adder_goal(adder, cls, mode, sides=('',), fix=None, extra=None, mods=None, valid=None, conn=True):
    conn_ = conn
    adder, cls = NS + adder, NS + cls; c0 = CLS.get(cls) or (CLS[NS + 'BusBreakerVoltageLevel'] if cls == NS + 'VoltageLevel' else None)

    def go(p):
        ctx = Ctx(p); ex = ctx.ex
        install(ctx, adder)
        find(ctx); builder(ctx); live(ctx)

        def body(ex):
            ctx.start(); ex.ghost['log'] = (); ex.ghost['why'] = None
            ad = ex.symobj(adder, 'adder')
            if fix: fix(ctx, ad)
            given = {}; conn = {}; ens = None; ex.ghost['conn'] = conn
            ss = adder_setters(p, adder)
            if mode == 'given':
                # a new adder: no terminal connection given yet
                for c, f in p.fields(adder):
                    if f['n'].startswith(('m_bus', 'm_connectableBus')): ex.assume(Eq(ex.read(ad.sub(('f', c + '::' + f['n']))), lit('')))
                    if f['n'].startswith('m_node'): ex.assume(Not(ex.tobool(ex.read(ad.sub(('f', c + '::' + f['n']))))))
                for s, (b, m) in sorted(ss.items()):
                    if s.startswith(CONN) or s in ('setEnsureIdUnicity', 'setGeographicalTags'): continue
                    if any(s == y for x, y in SYN if x in ss): continue
                    s2 = s
                    for x, y in SYN:
                        if s == x and y in ss and ex.pick(2): s2 = y
                    given[s2] = callset(ctx, ad, s2, ss[s2][1])
                ens = ex.read(ad.sub(('f', field(ctx, adder, 'm_ensureIdUnicity'))))
                if len(sides) < 3 and conn_: connect(ctx, ad, ss, sides, conn)
            chk = extra(ctx, ad, mode) if extra else None
            for fk in list(ex.heap): ex.flush(fk)
            h0 = dict(ex.heap)
            ob0 = ad
            ex.cover('any adder')
            r, th = outcome(lambda: ctx.call(ad, 'add', raw=True))
            for fk in list(ex.heap): ex.flush(fk)
            log = ex.ghost['log']
            if th is not None:
                ctx.heap_frame(h0, [ad.root[1]], label='after a failure')
                ex.check('nothing is registered or attached when add() throws' + (' because two terminals are on the same node' if ex.ghost['why'] == 'same node' else ''), not [x for x in log if x[0] != 'test'], str(th))
                ex.cover('rejects')
                if mode == 'given' and ex.ghost['why'] is None:
                    # not the id, the connection or a missing object: one of the values given must be invalid
                    obs = {observer(ctx, cls, s): x for s, x in given.items() if s not in ('setId',)}
                    obs.update(ex.ghost.get('obs', {}))
                    try: inv = list(setters.build_inv(ctx, c0, ob0)(obs).values()) if c0 else []
                    except KeyError as k: raise Unsup('value not given: %s' % k)
                    t = given.get('setRegulatingTerminal')
                    if t is not None: inv.append(ctx.quiet(lambda: samenet(ctx, ad, adder, t)))
                    for y in conn.values():
                        if 'vl' in y: inv.append(Not(Eq(y['vl'], lit(''))))
                    for y in ('setUcteXnodeCode', 'setConverterStationId1', 'setConverterStationId2'):
                        if y in given and cls != NS + 'DanglingLine': inv.append(Not(Eq(given[y], lit(''))))
                    inv += ex.ghost.get('inv', [])
                    if valid: inv += valid(ctx, ad, conn, given)
                    ex.check('rejected only when a value given is invalid', Not(And(*inv)), str(th))
                return
            ex.cover('accepts')
            o = refval(ex, r); ob = Place(('o', o))
            ctx.heap_frame(h0, [ad.root[1]] + (mods(ctx, ad, ob) if mods else []), label='after success')
            adds = [x for x in log if x[0] == 'add']
            ex.check('exactly one object is registered, the one returned', len(adds) == 1 and And(Eq(adds[0][1], o)))
            ex.check('it is registered under the checked unique id', Eq(adds[0][2], ex.ghost['uid']))
            if mode == 'given': ex.check('the id is the one given, unless a unique one was asked for', Or(ens, Eq(ex.ghost['uid'], given['setId'])))
            net = ctx.net_of(o) if False else None
            c = c0
            for w in (ctx.W, ctx.W2):
                ctx.at(w)
                if c:
                    obs = setters.observe(ctx, c, ob, w)
                    ctx.at(w)
                    for n, cond in setters.build_inv(ctx, c, ob)(obs).items(): ex.check('created object satisfies: ' + n, cond)
                for s, x in given.items():
                    if s == 'setId': continue
                    if s.startswith('setConverterStationId'):
                        st = refval(ex, ctx.call(ob, 'getConverterStation' + s[-1], const=True))
                        ex.check('converter station %s is the one given' % s[-1], Eq(st, LOOK(x)))
                        ex.check('converter station %s is linked to the line' % s[-1], Eq(refval(ex, ctx.call(Place(('o', st)), 'getHvdcLine', cls=NS + 'HvdcConverterStation', const=True)), o))
                        continue
                    g = observer(ctx, cls, s)
                    if g is None: ex.check('an observer of ' + s, False); continue
                    v = ctx.call(ob, g)
                    if isinstance(v, Place): v = v.root[1]
                    if g == 'getRegulatingTerminal':
                        t = refval(ex, ctx.call(ob, 'getTerminal', const=True)); x = Ite(Eq(x, NULL), t, x)
                    if s in ('setRatedU0',): x = ex.ite(x.nan, ex.ghost['leg1'], x)       # defaults to the rated voltage of leg 1
                    if isinstance(v, Opt): ex.check('%s is set by %s' % (g, s), v.has); v = v.v
                    ex.check('%s returns the value given to %s' % (g, s), ex.same(v, x))
            if chk:
                for w in (ctx.W, ctx.W2): ctx.at(w); chk(ob)
            ts = terminals(ctx, ob, sides)
            order = [x for x in log]
            ia = [i for i, x in enumerate(log) if x[0] == 'add'][0]
            att = [(i, x) for i, x in enumerate(log) if x[0] == 'attach']
            ex.check('every terminal is attached, once, after the registration', len(att) == len(sides) and all(i > ia for i, x in att))
            for sd in sides:
                x = conn.get(sd, {}); t = ts[sd]; tp = Place(('o', t))
                if mode == 'given' and conn_:
                    lv = level(ctx, ad, adder, x)
                    ex.check('terminal%s is attached to the voltage level asked for' % sd, Or(*[And(a[1] == lv, a[2] == t) for i, a in att]))
                    ex.check('terminal%s belongs to the voltage level asked for' % sd, Eq(refval(ex, ctx.call(tp, 'getVoltageLevel', cls=NS + 'Terminal', const=True)), lv))
                ex.check('terminal%s belongs to the object' % sd, Eq(refval(ex, ctx.call(tp, 'getConnectable', cls=NS + 'Terminal', const=True)), o))
                if 'node' in x:
                    ex.check('terminal%s is a node terminal' % sd, TYPEOF(t) == clsid(NS + 'NodeTerminal'))
                    ex.check('terminal%s is on the node given' % sd, Eq(ctx.call(tp, 'getNode', cls=NS + 'NodeTerminal'), x['node']))
                if 'cbus' in x:
                    ex.check('terminal%s is a bus terminal' % sd, TYPEOF(t) == clsid(NS + 'BusTerminal'))
                    for w in (ctx.W, ctx.W2):
                        ctx.at(w)
                        b = x.get('bus', lit(''))
                        ex.check('terminal%s is on the bus given' % sd, Eq(ctx.call(tp, 'getConnectableBusId', cls=NS + 'BusTerminal'), Ite(Eq(b, lit('')), x['cbus'], b)))
                        ex.check('terminal%s is connected exactly when a bus is given' % sd, Eq(ctx.call(tp, 'isConnected', cls=NS + 'BusTerminal'), Not(Eq(b, lit('')))))
        ex.explore(body); return ex
    return go


def stations(ctx, ad, ob):
    return [refval(ctx.ex, ctx.call(ob, 'getConverterStation' + s, const=True)) for s in '12']


def substation(ctx, ad, ob): return [ctx.ex.member(ad, NS + 'VoltageLevelAdder', 'm_substation').root[1]]


def samenet(ctx, ad, adder, t):
    ex = ctx.ex
    if t.eq(NULL): return True
    net = ctx.call(ad, 'getNetwork', const=True).root[1]
    vl = ex.hread(NS + 'Terminal::m_voltageLevel', t)
    return Or(Eq(t, NULL), Eq(ctx.net_of(vl.root[1] if isinstance(vl, Place) else vl), net))


def insubstation(adder):
    def f(ctx, ad, conn, given):
        ex = ctx.ex
        st = ex.member(ad, NS + adder, 'm_substation').root[1]
        out = []
        for x in conn.values():
            v = ex.hread(NS + 'VoltageLevel::m_substation', LOOK(x['vl'])); out.append(Eq(v.root[1] if isinstance(v, Place) else v, st))
        return out
    return f


def sub(ctx, ad, new, cls, prefix, skip=(), only=None):
    """give every attribute to a nested adder (half line, leg, generation, shunt model) and add it to its parent"""
    ex = ctx.ex
    a = ctx.call(ad, new, raw=True)
    if not isinstance(a, Place): key = ('t', 'sub' + new); ex.loc[key] = a; a = Place(('v', key))
    given = {}
    for s, (b, m) in sorted(adder_setters(ctx.p, cls).items()):
        if s in skip: continue
        pt = m['ps'][0][1]
        if only is not None and s not in only: continue
        x = ex.sym(ex.strip(pt), 'in:%s %s' % (prefix, s))
        arg = x
        if ex.isref(pt): key = ('t', 'arg:' + prefix + s); ex.loc[key] = x; arg = Place(('v', key))
        ctx.call(a, s, arg, raw=True, cls=cls)
        given[s] = x
    return a, given


def reported(ctx, ob, cls, given, what):
    ex = ctx.ex
    for s, x in given.items():
        g = observer(ctx, cls, s)
        if g is None: ex.check('an observer of %s %s' % (what, s), False); continue
        v = ctx.call(ob, g, cls=cls)
        if cls.endswith('::HalfLine') and s == 'setName': x = Ite(Eq(x, lit('')), given['setId'], x)     # the name defaults to the id
        if cls.endswith('dangling_line::Generation') and s in ('setMinP', 'setMaxP'): x = ex.ite(x.nan, D(False, DBLMAX if s == 'setMaxP' else -DBLMAX), x)   # no bound
        ex.check('%s: %s returns the value given to %s' % (what, g, s), ex.same(v.root[1] if isinstance(v, Place) else v, x))
    c = CLS.get(cls)
    if c:
        obs = {}
        for getter, ss_, pv in c.attrs:
            v = ctx.call(ob, getter, cls=cls); obs[getter] = v.root[1] if isinstance(v, Place) else v
        for n, cond in setters.build_inv(ctx, c, ob)(obs).items():
            if 'minP' in n and 'setMinP' in given:      # a limit not given is the largest double, which is not below a limit of -infinity
                fin = And(*[Or(given[m].nan, And(given[m].v <= DBLMAX, given[m].v >= -DBLMAX)) for m in ('setMinP', 'setMaxP')])
                ex.check('%s, with an infinite limit, satisfies: %s' % (what, n), cond); cond = Implies(fin, cond)
            ex.check('%s satisfies: %s' % (what, n), cond)


def halves(ctx, ad, mode):
    A = NS + 'tie_line::HalfLineAdder'; H = NS + 'tie_line::HalfLine'
    G = {}
    if mode == 'given':
        for k in '12':
            a, G[k] = sub(ctx, ad, 'newHalfLine' + k, A, 'half' + k)
            ctx.quiet(lambda: ctx.call(a, 'add', raw=True, cls=A))

    def chk(ob):
        for k in G:
            h = Place(('o', refval(ctx.ex, ctx.call(ob, 'getHalf' + k, const=True))))
            reported(ctx, h, H, G[k], 'half line ' + k)
    return chk


def generation(ctx, ad, mode):
    A = NS + 'dangling_line::GenerationAdder'; H = NS + 'dangling_line::Generation'
    ex = ctx.ex
    G = {}
    if mode == 'given':
        if ex.pick(2):
            ctx.ex.assume(Not(ex.tobool(ex.read(ad.sub(('f', field(ctx, NS + 'DanglingLineAdder', 'm_generationAdder')))))))
            G = None
        else:
            a, g = sub(ctx, ad, 'newGeneration', A, 'generation'); G['g'] = g
            ctx.quiet(lambda: ctx.call(a, 'add', raw=True, cls=A))

    def chk(ob):
        r = refval(ex, ctx.call(ob, 'getGeneration', const=True))
        if G is None: ex.check('no generation when none is given', Eq(r, NULL))
        for g in (G or {}).values():
            ex.check('a generation when one is given', r != NULL)
            if r.eq(NULL): raise PathEnd()
            reported(ctx, Place(('o', r)), H, g, 'generation')
    return chk


def model(ctx, ad, mode):
    L = NS + 'shunt_compensator::ShuntCompensatorLinearModelAdder'; N = NS + 'shunt_compensator::ShuntCompensatorNonLinearModelAdder'
    ex = ctx.ex
    if mode != 'given': return lambda ob: None
    lin = ex.pick(2) == 0
    if lin:
        a, g = sub(ctx, ad, 'newLinearModel', L, 'model')
        ctx.quiet(lambda: ctx.call(a, 'add', raw=True, cls=L))
        ex.ghost['obs'] = {'getMaximumSectionCount': g['setMaximumSectionCount']}
    else:
        a = ctx.call(ad, 'newNonLinearModel', raw=True)
        if not isinstance(a, Place): key = ('t', 'nlm'); ex.loc[key] = a; a = Place(('v', key))
        f = field(ctx, N, 'm_sectionAdders')
        secs = ex.sym(ex.fieldtype(f), 'in:sections'); ex.write(a.sub(('f', f)), secs)
        ctx.quiet(lambda: ctx.call(a, 'add', raw=True, cls=N))
        ex.ghost['obs'] = {'getMaximumSectionCount': secs.n}
    MT = NS + 'ShuntCompensatorModelType'

    def chk(ob):
        m = Place(('o', refval(ex, ctx.call(ob, 'getModel', const=True, pred=lambda m: True))))
        ty = ctx.call(ob, 'getModelType', const=True)
        ex.check('model type', Eq(ty, attrs.enumv(MT, 'LINEAR' if lin else 'NON_LINEAR', ex)))
        C = NS + ('ShuntCompensatorLinearModel' if lin else 'ShuntCompensatorNonLinearModel')
        if lin:
            for s, x in g.items():
                v = ctx.call(m, 'get' + s[3:], cls=C)
                ex.check('linear model: %s returns the value given' % s, ex.same(v, x))
        else:
            ex.check('non linear model: maximum section count is the number of sections given', Eq(ctx.call(m, 'getMaximumSectionCount', cls=C), ex.size(secs) if hasattr(ex, 'size') else secs.n))
    return chk


def legs(ctx, ad, mode):
    A = NS + 'three_windings_transformer::LegAdder'; H = NS + 'three_windings_transformer::Leg'
    ex = ctx.ex; G = {}
    if mode != 'given':
        # a leg adder given to the transformer adder carries its leg number
        for k in '123':
            o = ex.read(ad.sub(('f', field(ctx, NS + 'ThreeWindingsTransformerAdder', 'm_adder' + k))))
            v = optval(ex, o)
            ex.assume(Eq(ex.proj(v, ('f', A + '::m_legNumber')), int(k)))
        return lambda ob: None
    for k in '123':
        a, G[k] = sub(ctx, ad, 'newLeg' + k, A, 'leg' + k, skip=CONN)
        conn = {}
        x = {}
        how = 0 if k == '1' else (1 if k == '2' else 2)
        ss = adder_setters(ctx.p, A)
        for n, s in (('vl', 'setVoltageLevel'),) + ((('node', 'setNode'),) if how == 0 else (('bus', 'setBus'), ('cbus', 'setConnectableBus')) if how == 1 else (('cbus', 'setConnectableBus'),)):
            m = ss[s][1]; pt = m['ps'][0][1]
            y = ex.sym(ex.strip(pt), 'in:leg%s %s' % (k, s)); arg = y
            if ex.isref(pt): key = ('t', 'arg:leg' + k + s); ex.loc[key] = y; arg = Place(('v', key))
            ctx.call(a, s, arg, raw=True, cls=A); x[n] = y
        ctx.quiet(lambda: ctx.call(a, 'add', raw=True, cls=A))
        ex.ghost['conn'][k] = x
    ex.ghost['leg1'] = G['1']['setRatedU']

    def chk(ob):
        for k in G:
            h = Place(('o', refval(ex, ctx.call(ob, 'getLeg' + k, const=True))))
            reported(ctx, h, H, G[k], 'leg ' + k)
    return chk


def tags(ctx, ad, mode):
    ex = ctx.ex
    want = ex.read(ad.sub(('f', NS + 'SubstationAdder::m_geographicalTags')))

    def chk(ob):
        ex.check('geographical tags are those given', ex.same(ctx.call(ob, 'getGeographicalTags', const=True), want))
    return chk


def levels(ctx):
    """contracts of BusBreakerVoltageLevel::addBus, addSwitch and NodeBreakerVoltageLevel::addSwitch (proved separately)"""
    ex = ctx.ex; VL = NS + 'BusBreakerVoltageLevel'

    def reg(a):
        o = refval(ex, a); i = ctx.call(Place(('o', o)), 'getId', const=True, cls=ID)
        if ex.choose(TAKEN(i)): throw(ex)
        ex.ghost['log'] = ex.ghost['log'] + (('add', o, i),)
        return Place(('o', o))
    val = lambda x: ex.read(x) if isinstance(x, Place) and not x.isobj() else x

    def sw(ex, this, a, e):
        bb = 'BusBreaker' in (e or {}).get('f', {}).get('q', '') or val(a[1]).sort() == Str
        if bb:
            for i in (1, 2):
                if ex.choose(z3.Not(HASBUS(this.root[1], val(a[i])))): throw(ex, why='not registered')
        r = reg(a[0])
        ex.ghost['log'] = ex.ghost['log'] + (('ends', this.root[1], val(a[1]), val(a[2])),)
        return r
    ctx.hook_all(VL + '::addBus', lambda ex, this, a, e: reg(a[0]))
    ctx.hook_all(VL + '::addSwitch', sw)
    ctx.hook_all(NS + 'NodeBreakerVoltageLevel::addSwitch', sw)


HASBUS = z3.Function('uf:hasbus', Ref, Str, z3.BoolSort())


def ends(kind):
    def f(ctx, ad, mode):
        ex = ctx.ex
        levels(ctx)
        if mode != 'given': return lambda ob: None
        adder = ex.tcls[ad.root[1].get_id()][0]
        ss = adder_setters(ctx.p, adder)
        x = [callset(ctx, ad, 'set%s%d' % (kind, i), ss['set%s%d' % (kind, i)][1]) for i in (1, 2)]
        if kind == 'Bus': ex.ghost['inv'] = [Not(Eq(y, lit(''))) for y in x]

        def chk(ob):
            l = [y for y in ex.ghost['log'] if y[0] == 'ends']
            ex.check('the switch is put between the two ends given, of its voltage level', len(l) == 1 and And(Eq(l[0][2], x[0]), Eq(l[0][3], x[1]), Eq(l[0][1], refval(ex, ctx.call(ob, 'getVoltageLevel', const=True)))))
            if kind == 'Bus': ex.check('a bus/breaker switch is a retained breaker', And(ctx.call(ob, 'isRetained'), Eq(ctx.call(ob, 'getKind', const=True), attrs.enumv(NS + 'SwitchKind', 'BREAKER', ex))))
        return chk
    return f


def kindof(adder, base, c):
    """a view of a voltage level creates the adders of its own topology kind"""
    def f(ctx, ad):
        v = ctx.ex.member(ad, base, 'm_voltageLevel'); r = v.root[1]
        ctx.ex._fact(z3.And(TYPEOF(r) == clsid(NS + c), r != NULL))
    return f


def swfix(c):
    def f(ctx, ad):
        f = field(ctx, ctx.ex.tcls[ad.root[1].get_id()][0], 'm_voltageLevel').rsplit('::', 1)[0]
        kindof('', f, c)(ctx, ad)
    return f


def busbar(ctx, ad, mode):
    ex = ctx.ex; v = ex.member(ad, NS + 'BusbarSectionAdder', 'm_voltageLevel')
    if mode != 'given': return lambda ob: None
    x = callset(ctx, ad, 'setNode', adder_setters(ctx.p, NS + 'BusbarSectionAdder')['setNode'][1])

    def chk(ob):
        t = Place(('o', refval(ex, ctx.call(ob, 'getTerminal', const=True))))
        ex.check('the busbar section is on the node given', And(TYPEOF(t.root[1]) == clsid(NS + 'NodeTerminal'), Eq(ctx.call(t, 'getNode', cls=NS + 'NodeTerminal'), x)))
        ex.check('the busbar section is in the voltage level', Eq(refval(ex, ctx.call(t, 'getVoltageLevel', cls=NS + 'Terminal', const=True)), v.root[1]))
    return chk


def vlof(ctx, ad, mode):
    levels(ctx); ex = ctx.ex
    ex.ghost['obs'] = {k: D(True, z3.RealVal(0)) for k in ('getV', 'getAngle')}
    v = ex.member(ad, NS + 'BusAdder', 'm_voltageLevel')

    def chk(ob): ex.check('the bus belongs to the voltage level', Eq(refval(ex, ctx.call(ob, 'getVoltageLevel', const=True)), v.root[1]))
    return chk


B = ('1', '2')
ADDERS = [('LoadAdder', 'Load', {}), ('BatteryAdder', 'Battery', {}), ('GeneratorAdder', 'Generator', {}), ('StaticVarCompensatorAdder', 'StaticVarCompensator', {}),
          ('LccConverterStationAdder', 'LccConverterStation', {}), ('VscConverterStationAdder', 'VscConverterStation', {}),
          ('LineAdder', 'Line', dict(sides=B)), ('TwoWindingsTransformerAdder', 'TwoWindingsTransformer', dict(sides=B, valid=insubstation('TwoWindingsTransformerAdder'))),
          ('DanglingLineAdder', 'DanglingLine', dict(extra=generation)), ('ShuntCompensatorAdder', 'ShuntCompensator', dict(extra=model)), ('HvdcLineAdder', 'HvdcLine', dict(sides=(), mods=stations)),
          ('SubstationAdder', 'Substation', dict(sides=(), extra=tags)), ('VoltageLevelAdder', 'VoltageLevel', dict(sides=(), mods=substation)), ('TieLineAdder', 'TieLine', dict(sides=B, extra=halves)),
          ('bus_breaker_view::SwitchAdder', 'Switch', dict(sides=(), extra=ends('Bus'), fix=swfix('BusBreakerVoltageLevel'))), ('node_breaker_view::SwitchAdder', 'Switch', dict(sides=(), extra=ends('Node'), fix=swfix('NodeBreakerVoltageLevel'))), ('BusAdder', 'ConfiguredBus', dict(sides=(), extra=vlof, fix=kindof('', NS + 'BusAdder', 'BusBreakerVoltageLevel'))), ('BusbarSectionAdder', 'BusbarSection', dict(extra=busbar, conn=False)),
          ('ThreeWindingsTransformerAdder', 'ThreeWindingsTransformer', dict(sides=('1', '2', '3'), extra=legs, valid=insubstation('ThreeWindingsTransformerAdder')))]


def goals(p, tier):
    G = [Goal('TerminalBuilder::build', build_goal)]
    for a, c, o in ADDERS:
        for mode in ('any', 'given'):
            G.append(Goal('%s::add (%s)' % (a, {'any': 'any adder state', 'given': 'every attribute given'}[mode]), adder_goal(a, c, mode, **o)))
    return G
