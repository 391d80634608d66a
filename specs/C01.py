"""C01: connecting and disconnecting equipment has exactly its topological effect; no stale topology."""
import prog, lib, loops, z3
from check import Goal
from contract import *
from vals import *
from N01 import outcome, unchanged, strarg

GLOBS = prog.CORE
DRIVER = 'C01'
VL, BB, NB, BT, SW = NS + 'VoltageLevel', NS + 'BusBreakerVoltageLevel', NS + 'NodeBreakerVoltageLevel', NS + 'BusTerminal', NS + 'Switch'
INT = z3.IntSort()


def rd(ex, v): return ex.read(v) if isinstance(v, Place) and not v.isobj() else v
def oref(v): return v.root[1] if isinstance(v, Place) and v.isobj() else v


def resets(ctx):
    """invalidateCache by contract (discharged below): records the levels whose caches, and those of the network, are dropped in the working variant"""
    ex = ctx.ex
    def h(ex, this, a, e):
        ex.ghost['reset'] = ex.ghost.get('reset', ()) + ((oref(this), ex.ghost.get('W', ctx.W)),); return None
    for c in (VL, BB, NB): ctx.hook_all(c + '::invalidateCache', h)


def was_reset(ex, level): return Or(*[Eq(l, level) for l, w in ex.ghost.get('reset', ())])


def one_slot(ctx, fk, h0, ref, value, when=True):
    """only the slot of the working variant of one object changes, to the value, when the condition holds"""
    ex = ctx.ex; ex.flush(fk); a, b = ex.harr(fk), h0.get(fk, z3.Const('H0:' + fk, ex.harr(fk).sort()))
    r, i = z3.Const('any object', Ref), z3.Int('any variant'); va, vb = ex.from_term(z3.Select(a, r), ex.fieldtype(fk)), ex.from_term(z3.Select(b, r), ex.fieldtype(fk))
    ex._fact(z3.Or(z3.Not(z3.Is('obj', r)) if False else True, True) if False else z3.BoolVal(True))
    me = And(r == ref, i == ctx.W, when)
    ex.check('exactly the state of this object in the working variant is set', Eq(z3.Select(va.arr, i), Ite(me, b2z(value) if isinstance(value, bool) else value, z3.Select(vb.arr, i))) if va.arr is not None else False)
    ex.check('as many variants', Eq(va.n, vb.n))


def others(ex, h0, fks):
    ex.check('nothing else changes', all(a.eq(h0.get(k, a)) for k, a in ex.heap.items() if k not in fks))


def level_of(ctx, o, cls):
    """the voltage level of a terminal or switch, through its observer"""
    return oref(ctx.quiet(lambda: ctx.call(o, 'getVoltageLevel', cls=cls, const=True)))


def bb_connect(n, value):
    def run(p):
        ctx = Ctx(p); ex = ctx.ex; FK = BT + '::m_connected'

        def body(ex):
            ctx.start(); resets(ctx); o = ex.symobj(BB, 'level'); t = ex.symobj(BT, 'terminal')
            was = ctx.call(t, 'isConnected'); h0 = dict(ex.heap)
            r, th = outcome(lambda: ex.call_fn(p.byq[BB + '::' + n][0].id, o, [t])); ex.check('does not fail', th is None)
            if th is not None: return
            ex.check('reports whether the state has changed', Eq(ex.tobool(r), Not(Eq(was, value)) if isz(was) or True else 0))
            one_slot(ctx, FK, h0, t.root[1], value); others(ex, h0, (FK,)); ex.check('the state afterwards', Eq(ctx.call(t, 'isConnected'), value))
            ex.check('no stale topology after a change', Or(Eq(was, value), was_reset(ex, o.root[1])))
        ex.explore(body); return ex
    return run


def terminal(n):
    """Terminal::connect / disconnect is that of the voltage level of the terminal"""
    def run(p):
        ctx = Ctx(p); ex = ctx.ex

        def body(ex):
            ctx.start(); t = ex.symobj(BT if ex.pick(2) else NS + 'NodeTerminal', 'terminal'); cls = ex.tcls[t.root[1].get_id()][0]; res = z3.Bool('in:result'); calls = []
            def h(ex, this, a, e): calls.append((oref(this), oref(a[0]))); return res
            for c in (VL, BB, NB): ctx.hook_all(c + '::' + n, h)
            v = level_of(ctx, t, cls); h0 = dict(ex.heap); del calls[:]
            r, th = outcome(lambda: ex.call_fn(p.byq[NS + 'Terminal::' + n][0].id, t, [])); ex.check('does not fail', th is None)
            if th is not None: return
            ex.check('done once, by the voltage level of the terminal, for the terminal', And(len(calls) == 1, *[And(Eq(a, v), Eq(b, t.root[1])) for a, b in calls])); ex.check('reports what the level reports', Eq(ex.tobool(r), res)); others(ex, h0, ())
        ex.explore(body); return ex
    return run


def switch(n, obs, field):
    def run(p):
        ctx = Ctx(p); ex = ctx.ex; FK = SW + '::' + field

        def body(ex):
            ctx.start(); resets(ctx); o = ex.symobj(SW, 'switch'); x = z3.Bool('in:value'); v = level_of(ctx, o, SW); was = ctx.call(o, obs)
            f = p.byq[SW + '::' + n][0]; h0 = dict(ex.heap)
            r, th = outcome(lambda: ex.call_fn(f.id, o, [x]))
            if th is not None:
                ex.check('fails only for the retained flag of a bus/breaker level', n == 'setRetained', str(th)); ex.check('a failed call changes nothing', unchanged(ex, h0)); ex.check('and drops no cache', not ex.ghost.get('reset')); return
            ex.check('the state afterwards', Eq(ctx.call(o, obs), x)); ex.check('no stale topology after a change', Or(Eq(was, x), was_reset(ex, v)))
            if field: one_slot(ctx, FK, h0, o.root[1], x); others(ex, h0, (FK,))
        ex.explore(body); return ex
    return run


def invalidate(cls):
    """after invalidateCache no bus, bus view or component of the working variant is kept, in the level and the network"""
    def run(p):
        ctx = Ctx(p); ex = ctx.ex; N = NS + 'Network'

        def caches(o, net):
            """(label, kept?) for every cache of the working variant, found from the types of the code"""
            out = []; vf = [(k, f) for k, f in p.fields(cls) if 'VariantArray<' in f['t']]
            if len(vf) != 1: raise Unsup('variants of the level')
            var = lambda c, q: ex.deref(rd(ex, ex.member(q, *c)))
            out.append(('level', cls, o)); out.append(('network', N, net))
            return out

        def kept(label, c, o):
            """values of the caches reachable from the state of the working variant"""
            res = []
            for k, f in p.fields(c):
                if 'VariantArray<' not in f['t']: continue
                va = ex.member(o, k, f['n']); g = [m for m in p.recs[f['t']]['methods'] if m['n'] == 'get'] if f['t'] in p.recs else []
                vi = ctx.call(va, 'get', cls=f['t'], const=False)
                vi = ex.deref(vi) if not isinstance(vi, Place) else vi
                vc = p.types.get(f['t'], {})['a'][1] or f['t'].split('<', 1)[1].rstrip('> ').strip()
                res += walk(label, vc, vi, 3)
            return res

        def walk(label, c, o, depth):
            res = []
            if depth == 0 or c not in p.recs: return res
            for k, f in p.fields(c):
                m = ex.member(o, k, f['n'])
                if f['n'] == 'm_cache' or 'm_components' == f['n']:
                    v = rd(ex, m); res.append(('%s: %s of %s' % (label, f['n'], c.rsplit('::', 1)[-1]), v))
                elif f['t'] in p.recs: res += walk(label + ' ' + f['n'], f['t'], m, depth - 1)
            return res

        def empty(v):
            if isinstance(v, Opt): return Not(v.has)
            if isinstance(v, Vec): return Eq(v.n, 0)
            if isinstance(v, Map): return Eq(v.n, 0)
            if isz(v) and v.sort() == Ref: return v == Ref.null
            raise Unsup('cache %r' % (v,))

        def body(ex):
            ctx.start(); o = ex.symobj(cls, 'level'); net = Place(('o', ctx.net_of(o.root[1])))
            for c, q in ((cls, o), (N, net)):
                # class invariant (V02): one state per variant
                for k, f in p.fields(c):
                    if 'VariantArray<' in f['t']:
                        va = ex.member(q, k, f['n']); vk, vf = next((k, f) for k, f in p.fields(f['t']) if ex.kind(f['t']) == 'vec'); v = ex.read(ex.member(va, vk, vf['n']))
                        ex._fact(And(Eq(v.n, ctx.N), z3.Select(v.arr, ctx.W) != Ref.null))
            # class invariant (set by the constructors): the views of a network refer to it
            for k, f in p.fields(N):
                if f['t'] in p.recs:
                    for k2, f2 in p.fields(f['t']):
                        if f2['n'] == 'm_network': ex._fact(oref(rd(ex, ex.member(ex.member(net, k, f['n']), k2, f2['n']))) == net.root[1])
            # a bus that is dropped changes its own fields only (contract below)
            for b in ('MergedBus', 'CalculatedBus'): ctx.hook_all(NS + b + '::invalidate', lambda ex, this, a, e: None)
            f = p.byq[cls + '::invalidateCache'][0]
            r, th = outcome(lambda: ex.call_fn(f.id, o, [])); ex.check('does not fail', th is None, str(th))
            if th is not None: return
            L = kept('level', cls, o) + kept('network', N, net); ex.check('the caches of the level and of the network are found', len(L) >= (5 if cls == BB else 6), str([l for l, v in L]))
            for l, v in L: ex.check('nothing is kept: ' + l, empty(v))
        ex.explore(body); return ex
    return run


def dropped(cls):
    def run(p):
        ctx = Ctx(p); ex = ctx.ex

        def body(ex):
            ctx.start(); o = ex.symobj(cls, 'bus'); h0 = dict(ex.heap)
            r, th = outcome(lambda: ex.call_fn(p.byq[cls + '::invalidate'][0].id, o, [])); ex.check('does not fail', th is None)
            if th is not None: return
            for k, a in list(ex.heap.items()):
                b = h0.get(k)
                if b is None: b = z3.Const('H0:' + k, a.sort())
                if a.eq(b): continue
                r = z3.Const('any object', Ref); ex.check('only the bus itself changes: ' + k.replace(NS, ''), And(k.rsplit('::', 1)[0] in p.bases(cls), Or(r == o.root[1], z3.Select(a, r) == z3.Select(b, r))))
            fs = [(k, f) for k, f in p.fields(cls) if f['n'] == 'm_valid']
            for k, f in fs: ex.check('a dropped bus is not valid', Not(ex.tobool(rd(ex, ex.member(o, k, f['n'])))))
        ex.explore(body); return ex
    return run


CB = NS + 'ConfiguredBus'
NAMED = z3.Function('ghost:bus of the level', Str, Ref)


def connectable(p):
    """setConnectableBus: the terminal moves from its bus to the one given in the working variant; the lookup of a bus by contract (A02, I01), the terminal lists of the buses by the contracts below"""
    ctx = Ctx(p); ex = ctx.ex; FK = BT + '::m_connectableBusId'; V = NS + 'bus_terminal::BusBreakerViewImpl'; calls = []

    def body(ex):
        ctx.start(); resets(ctx); del calls[:]; o = ex.symobj(V, 'view'); t = None
        ft = next((k, f) for k, f in p.fields(V) if f['n'] == 'm_terminal'); t = rd(ex, ex.member(o, *[ft[0], 'm_terminal'])); t = t if isinstance(t, Place) else Place(('o', t)); ex.tcls[t.root[1].get_id()] = (BT, t.root[1]); ex._fact(z3.And(TYPEOF(t.root[1]) == clsid(BT), t.root[1] != Ref.null))
        v = level_of(ctx, t, BT); ex._fact(TYPEOF(v) == clsid(BB)); ex.tcls[v.get_id()] = (BB, v)
        old = ctx.call(t, 'getConnectableBusId'); s, ps = strarg(ex, 'busId'); ex._fact(NAMED(old) != Ref.null)
        def find(ex, this, a, e):
            ex.check('buses are looked up in the level of the terminal', Eq(oref(this), v)); x = rd(ex, a[0]); r = NAMED(x); ex.tcls[r.get_id()] = (CB, r)
            if ex.choose(r == Ref.null):
                if ex.choose(ex.tobool(a[1])): raise CppThrow('powsybl::PowsyblException')
            else: ex._fact(z3.And(Ref.is_obj(r), Ref.oid(r) < 0, TYPEOF(r) == clsid(CB)))
            return r
        ctx.hook_all(BB + '::getConfiguredBus', find)
        for n in ('addTerminal', 'removeTerminal'): ctx.hook_all(CB + '::' + n, lambda ex, this, a, e, n=n: calls.append((n, oref(this), oref(a[0]), ex.ghost.get('W', ctx.W))))
        h0 = dict(ex.heap); f = p.byq[V + '::setConnectableBus'][0]
        r, th = outcome(lambda: ex.call_fn(f.id, o, [ps]))
        ok = And(s != lit(''), NAMED(s) != Ref.null)
        ex.check('accepted exactly for a bus of the level', Eq(th is None, ok), str(th))
        if th is not None: ex.check('a failed call changes nothing', And(unchanged(ex, h0), not calls, not ex.ghost.get('reset'))); return
        one_slot(ctx, FK, h0, t.root[1], s); others(ex, h0, (FK,)); ex.check('no stale topology after a change', was_reset(ex, v))
        n = {k: [c for c in calls if c[0] == k] for k in ('addTerminal', 'removeTerminal')}
        ex.check('listed by the new bus', And(len(n['addTerminal']) == 1, *[And(Eq(c[1], NAMED(s)), Eq(c[2], t.root[1]), Eq(c[3], ctx.W)) for c in n['addTerminal']]))
        ex.check('not listed any more by the bus before', And(len(n['removeTerminal']) == 1, *[And(Eq(c[1], NAMED(old)), Eq(c[2], t.root[1]), Eq(c[3], ctx.W)) for c in n['removeTerminal']]))
    ex.explore(body); return ex


def buslist(n):
    """ConfiguredBus::addTerminal / removeTerminal: the list of the working variant, the other variants are kept"""
    def run(p):
        ctx = Ctx(p); ex = ctx.ex; FK = CB + '::m_terminals'

        def body(ex):
            ctx.start(); o = ex.symobj(CB, 'bus'); t = ex.symobj(BT, 'terminal'); h0 = dict(ex.heap); m0 = ex.read(ex.member(o, CB, 'm_terminals')); S = z3.Select
            ls = ex.sort(m0.et); L = lambda m, w: ls.accessor(0, 0)(S(m.arr, w)); at = lambda m, w, k: S(ls.accessor(0, 1)(S(m.arr, w)), k); k, w = z3.Int('any position'), z3.Int('any variant'); tr = t.root[1]
            ex._fact(Eq(m0.n, ctx.N)); ex._fact(z3.And(L(m0, ctx.W) >= 0, L(m0, ctx.W) < (1 << 40), 0 <= k, k < L(m0, ctx.W)))
            q = z3.Int('q'); there = z3.Exists([q], z3.And(0 <= q, q < L(m0, ctx.W), at(m0, ctx.W, q) == tr))
            r, th = outcome(lambda: ex.call_fn(p.byq[CB + '::' + n][0].id, o, [t]))
            if n == 'addTerminal': ex.check('does not fail', th is None, str(th))
            else: ex.check('fails exactly for a terminal that is not listed', Eq(th is None, there), str(th))
            if th is not None: ex.check('a failed call changes nothing', unchanged(ex, h0)); return
            m1 = ex.read(ex.member(o, CB, 'm_terminals')); others(ex, h0, (FK,))
            ex.check('the lists of the other variants are kept', And(Eq(m1.n, m0.n), z3.Implies(z3.And(w != ctx.W, 0 <= w, w < ctx.N), S(m1.arr, w) == S(m0.arr, w))))
            ex.check('one more' if n == 'addTerminal' else 'one less', L(m1, ctx.W) == L(m0, ctx.W) + (1 if n == 'addTerminal' else -1))
            if n == 'addTerminal': ex.check('terminals listed before are kept', at(m1, ctx.W, k) == at(m0, ctx.W, k)); ex.check('the terminal is listed', at(m1, ctx.W, L(m0, ctx.W)) == tr)
            else: ex.check('the other terminals are still listed', z3.Implies(at(m0, ctx.W, k) != tr, z3.Or(at(m1, ctx.W, k) == at(m0, ctx.W, k), at(m1, ctx.W, k - 1) == at(m0, ctx.W, k))))
        ex.explore(body); return ex
    return run


EO, ONPATH = z3.Function('ghost:switch of edge', INT, Ref), z3.Function('ghost:on a path', Ref, z3.BoolSort())


def nb_connect(n, close):
    """node/breaker: only breakers of the paths found change, in the working variant; findAllPaths by contract (any list of lists of edges)"""
    def run(p):
        ctx = Ctx(p); ex = ctx.ex; FK = SW + '::m_open'; KK = next(k + '::' + f['n'] for k, f in p.fields(SW) if f['t'].endswith('SwitchKind')); f = p.byq[NB + '::' + n][0]; st = {}
        GRP = next(c for c in sorted(p.recs) if c.startswith('powsybl::math::UndirectedGraph<') and 'NodeTerminal' in c); S = z3.Select
        import attrs; breaker = attrs.enumv(NS + 'SwitchKind', 'BREAKER', ex)

        def vec(t): return ex.sort(ex.fieldtype(FK))
        def opn(h, s): return S(vec(0).accessor(0, 1)(S(h, s)), ctx.W)
        def put(h, s, v): q = vec(0); return q.constructor(0)(q.accessor(0, 0)(S(h, s)), z3.Store(q.accessor(0, 1)(S(h, s)), ctx.W, z3.BoolVal(v)))
        def brk(s): return z3.And(s != Ref.null, S(ex.harr(KK), s) == breaker)
        P = lambda j: S(st['P'].arr, j)
        def plen(j): return ex.sort(st['P'].et).accessor(0, 0)(P(j))
        def pe(j, k): return EO(S(ex.sort(st['P'].et).accessor(0, 1)(P(j)), k))

        def frame(h):
            s = z3.Const('s', Ref)
            return z3.ForAll([s], z3.Or(S(h, s) == S(st['h0'], s), z3.And(brk(s), ONPATH(s), opn(st['h0'], s) == z3.BoolVal(close), S(h, s) == put(st['h0'], s, not close))), patterns=[S(h, s)])

        def iv(env):
            ex.flush(FK); h = z3.Const(ex.freshname('opened'), ex.harr(FK).sort()); ex._fact(h == ex.harr(FK)); j, k = z3.Ints('j k'); d = {'only breakers of the paths change': frame(h)}
            if env.done is None: raise Unsup('loop over the switches of a path')
            u = i2z(env.done.card()); outer = env.seq.kind == 'vec' and ex.kind(ex.read(env.seq.place).et) == 'vec'
            if close:
                c = b2z(ex.tobool(env.local('connected'))); was = lambda k: z3.And(brk(pe(0, k)), opn(st['h0'], pe(0, k)))
                d['breakers visited are closed'] = z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < u, brk(pe(0, k))), z3.Not(opn(h, pe(0, k)))), patterns=[pe(0, k)])
                d['nothing closed'] = z3.Implies(z3.Not(c), z3.ForAll([k], S(h, z3.Const('s', Ref)) == S(st['h0'], z3.Const('s', Ref)))) if False else z3.Implies(z3.Not(c), h == st['h0'])
                d['something closed'] = z3.Implies(c, z3.Exists([k], z3.And(0 <= k, k < u, was(k))))
                return d
            done = lambda u: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < u), z3.And(0 <= WIT(j), WIT(j) < plen(j), brk(pe(j, WIT(j))), opn(h, pe(j, WIT(j))))), patterns=[P(j)])
            first = lambda j, u: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < u), z3.Not(brk(pe(j, k)))), patterns=[pe(j, k)])
            if outer: d['paths visited have an open breaker'] = done(u); st['outer'] = u
            else:
                st['in'] = True; d['paths visited have an open breaker'] = done(st['outer']); d['no breaker so far'] = first(st['outer'], u); d['not open'] = z3.Not(b2z(ex.tobool(env.local('pathOpen'))))
            return d

        def body(ex):
            ctx.start(); resets(ctx); o = ex.symobj(NB, 'level'); t = ex.symobj(NS + 'NodeTerminal', 'terminal'); con = z3.Bool('in:connected'); ps = []
            for c in (NS + 'NodeTerminal', NS + 'Terminal'): ctx.hook_all(c + '::isConnected', lambda ex, this, a, e: con)
            fp = p.byq[GRP + '::findAllPaths'][0]; v = st['P'] = ex.sym(ex.strip(fp.o['f']['ret'] if fp.o.get('f') else fp.o['ret']), 'paths')
            s, i, j, k = z3.Const('s', Ref), *z3.Ints('i j k')
            ex._fact(z3.And(i2z(v.n) >= 0, i2z(v.n) < (1 << 40))); ex._fact(z3.ForAll([j], z3.And(plen(j) >= 0, plen(j) < (1 << 40)), patterns=[P(j)]))
            ex._fact(z3.ForAll([j, k], z3.And(z3.Implies(z3.And(0 <= j, j < i2z(v.n), 0 <= k, k < plen(j)), ONPATH(pe(j, k)))), patterns=[pe(j, k)]))
            # the witness of a path: its first breaker, when it has one
            ex._fact(z3.ForAll([j, k], z3.Implies(z3.And(0 <= k, k < plen(j), brk(pe(j, k))), z3.And(0 <= WIT(j), WIT(j) <= k, brk(pe(j, WIT(j))))), patterns=[pe(j, k)]))
            def paths(ex, this, a, e): ps.append(a); key = ('t', 'paths'); ex.loc[key] = v; return Place(('v', key)) if False else v
            def edge(ex, this, a, e):
                r = EO(i2z(rd(ex, a[0]))); ex._fact(z3.Or(r == Ref.null, z3.And(Ref.is_obj(r), Ref.oid(r) < 0, TYPEOF(r) == clsid(SW)))); ex.tcls[r.get_id()] = (SW, r)
                if not r.eq(Ref.null): ex._fact(z3.Implies(r != Ref.null, oref(ex.hread(SW + '::m_voltageLevel', r)) != Ref.null))      # class invariant: a switch belongs to a level
                return r
            ctx.hook_all(GRP + '::findAllPaths', paths); ctx.hook_all(GRP + '::getEdgeObject', edge)
            h0 = dict(ex.heap); st['h0'] = z3.Const('H0:' + FK, ex.harr(FK).sort()); ex._fact(st['h0'] == ex.harr(FK)); ex.harr(KK)
            ex._fact(z3.ForAll([s], vec(0).accessor(0, 0)(S(st['h0'], s)) == ctx.N, patterns=[S(st['h0'], s)]))
            ex.loop_invs = {f.q: iv}
            r, th = outcome(lambda: ex.call_fn(f.id, o, [t])); ex.check('does not fail', th is None, str(th))
            if th is not None: return
            ex.flush(FK); h = ex.harr(FK); r = ex.tobool(r); others(ex, h0, (FK,)); x = z3.Const('any switch', Ref); q, m = z3.Int('any path'), z3.Int('any position')
            ex.check('only breakers of the paths change, in the working variant', z3.Or(S(h, x) == S(st['h0'], x), z3.And(brk(x), ONPATH(x), S(h, x) == put(st['h0'], x, not close))))
            if close:
                ex.check('a connected terminal is left as it is', Implies(con, And(Not(r), h == st['h0']))); ex.check('without path nothing changes', Implies(Eq(v.n, 0), And(Not(r), h == st['h0'])))
                ex.check('the breakers of the shortest path are closed', Implies(And(Not(con), i2z(v.n) > 0, 0 <= m, m < plen(0), brk(pe(0, m))), Not(opn(h, pe(0, m)))))
                ex.check('nothing changes when it reports so', Implies(Not(r), h == st['h0'])); ex.check('a breaker was open when it reports a change', Implies(r, z3.Exists([k], z3.And(0 <= k, k < plen(0), brk(pe(0, k)), opn(st['h0'], pe(0, k))))))
            else:
                ex.check('a disconnected terminal is left as it is', Implies(Not(con), And(Not(r), h == st['h0']))); ex.check('without path nothing changes', Implies(Eq(v.n, 0), And(Not(r), h == st['h0'])))
                ex.check('every path has an open breaker when it reports so', Implies(And(r, 0 <= q, q < i2z(v.n)), z3.Exists([k], z3.And(0 <= k, k < plen(q), brk(pe(q, k)), opn(h, pe(q, k))))))
                ex.check('reports a failure only for a path without breaker', Implies(And(Not(r), con, i2z(v.n) > 0), z3.Exists([j], z3.And(0 <= j, j < i2z(v.n), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < plen(j)), z3.Not(brk(pe(j, k)))))))))
        ex.explore(body); return ex
    return run


WIT = z3.Function('ghost:first breaker', INT, INT)


def goals(p, tier):
    out = [Goal('BusBreakerVoltageLevel::connect', bb_connect('connect', True)), Goal('BusBreakerVoltageLevel::disconnect', bb_connect('disconnect', False)), Goal('Terminal::connect', terminal('connect')), Goal('Terminal::disconnect', terminal('disconnect')),
           Goal('Switch::setOpen', switch('setOpen', 'isOpen', 'm_open')), Goal('Switch::setRetained', switch('setRetained', 'isRetained', 'm_retained')), Goal('Switch::setFictitious', switch('setFictitious', 'isFictitious', ''))]
    for b in ('MergedBus', 'CalculatedBus'): out.append(Goal(b + '::invalidate', dropped(NS + b)))
    out += [Goal('setConnectableBus', connectable), Goal('ConfiguredBus::addTerminal', buslist('addTerminal')), Goal('ConfiguredBus::removeTerminal', buslist('removeTerminal'))]
    out += [Goal('NodeBreakerVoltageLevel::connect', nb_connect('connect', True)), Goal('NodeBreakerVoltageLevel::disconnect', nb_connect('disconnect', False))]
    for c in (BB, NB): out.append(Goal(c.rsplit('::', 1)[-1] + '::invalidateCache', invalidate(c)))
    return out
