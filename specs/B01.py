"""B01: calculated buses partition the connected terminals of a voltage level."""
import prog, lib, loops, attrs, z3
from check import Goal
from contract import *
from vals import *
from N01 import outcome, unchanged
import G01
from G01 import rd, graphs, fn

GLOBS = prog.CORE
DRIVER = 'B01'
INT, BOOL = z3.IntSort(), z3.BoolSort()
TR = 'powsybl::math::TraverseResult'
# ghost: the edges the visitor lets through, and any equivalence relation that relates the ends of such edges
PASS = z3.Function('ghost:passes', INT, BOOL)
REACH = z3.Function('ghost:related', INT, INT, BOOL)
LAST = lambda n: 'powsybl::math::UndirectedGraph::' + n


class Adj:
    """the adjacency lists of a graph (contract of getAdjacencyList): the list of a vertex holds its edges, and all of them"""
    def __init__(self, ctx, cls, o, g):
        ex = self.ex = ctx.ex; self.g = g; self.N = i2z(g.V.n)
        ft = next(f for n, (k, f) in {f['n']: (k, f) for k, f in ctx.p.fields(cls)}.items() if n == 'm_adjacencyList')
        self.tk = ex.strip(ft['t']); self.v = ex.sym(self.tk, 'adjacency')
        rs = ex.sort(self.v.et); S = z3.Select; i, k, e = z3.Ints('i k e')
        self.deg = lambda v: rs.accessor(0, 0)(S(self.v.arr, v)); self.row = lambda v, k: S(rs.accessor(0, 1)(S(self.v.arr, v)), k)
        self.AT = z3.Function('ghost:position', INT, INT, INT)
        A = lambda vs, b, *pt: ex._fact(z3.ForAll(vs, b, patterns=list(pt)))
        ex._fact(i2z(self.v.n) == self.N)
        A([i], self.deg(i) >= 0, S(self.v.arr, i))
        A([i, k], z3.Implies(z3.And(0 <= i, i < self.N, 0 <= k, k < self.deg(i)), z3.And(g.egx(self.row(i, k)), z3.Or(g.end(1, self.row(i, k)) == i, g.end(2, self.row(i, k)) == i))), self.row(i, k))
        def at(e, w): return z3.And(0 <= self.AT(e, w), self.AT(e, w) < self.deg(w), self.row(w, self.AT(e, w)) == e)
        A([e], z3.Implies(g.egx(e), z3.And(at(e, g.end(1, e)), at(e, g.end(2, e)))), PASS(e))
        A([i], REACH(i, i), REACH(i, i)); j = z3.Int('j')
        A([i, j], REACH(i, j) == REACH(j, i), REACH(i, j))
        A([i, j, k], z3.Implies(z3.And(REACH(i, j), REACH(j, k)), REACH(i, k)), z3.MultiPattern(REACH(i, j), REACH(j, k)))
        A([e], z3.Implies(z3.And(g.egx(e), PASS(e)), REACH(g.end(1, e), g.end(2, e))), PASS(e))

    def nm(self, a):
        if z3.is_const(a): return a
        c = z3.Const(self.ex.freshname('array'), a.sort()); self.ex._fact(c == a); return c

    def post(self, e0, e1, P0, P1, v, upto=None):
        """effect of a traversal from v on the encountered vertices and on the vertices the visitor let in (their order, and the position of each)"""
        e0, e1 = self.nm(e0), self.nm(e1); (n0, a0, p0), (n1, a1, p1) = [(n, self.nm(a), self.nm(q)) for n, a, q in (P0, P1)]
        i, k, e = z3.Ints('i k e'); S = z3.Select; g = self.g
        new = lambda i: z3.And(0 <= i, i < self.N, z3.Not(S(e0, i)), i != v, S(e1, i))
        F = lambda vs, b, *pt: z3.ForAll(vs, b, patterns=list(pt))
        both = lambda x: z3.And(S(e1, g.end(1, x)), S(e1, g.end(2, x)))
        d = {'vertices encountered before still are': F([i], z3.Implies(S(e0, i), S(e1, i)), S(e0, i), S(e1, i)),
             'the start is encountered': S(e1, v),
             'new vertices exist and are joined to the start': F([i], z3.Implies(new(i), z3.And(REACH(v, i), g.vx(i))), S(e1, i)),
             'vertices let in before are kept': z3.And(n0 <= n1, F([k], z3.Implies(z3.And(0 <= k, k < n0), S(a1, k) == S(a0, k)), S(a1, k))),
             'vertices let in are new, once each': F([k], z3.Implies(z3.And(n0 <= k, k < n1), z3.And(new(S(a1, k)), S(p1, S(a1, k)) == k)), S(a1, k)),
             'new vertices are let in': F([i], z3.Implies(new(i), z3.And(n0 <= S(p1, i), S(p1, i) < n1, S(a1, S(p1, i)) == i)), S(e1, i)),
             'other positions are kept': F([i], z3.Implies(z3.Not(new(i)), S(p1, i) == S(p0, i)), S(p1, i))}
        if upto is None: d['nothing passes out of the vertices encountered'] = F([i, k], z3.Implies(z3.And(z3.Or(new(i), i == v), 0 <= k, k < self.deg(i), PASS(self.row(i, k))), both(self.row(i, k))), self.row(i, k))
        else:
            d['nothing passes out of the other vertices encountered'] = F([i, k], z3.Implies(z3.And(new(i), 0 <= k, k < self.deg(i), PASS(self.row(i, k))), both(self.row(i, k))), self.row(i, k))
            d['nothing passes along the edges visited'] = F([k], z3.Implies(z3.And(0 <= k, k < upto, PASS(self.row(v, k))), both(self.row(v, k))), self.row(v, k))
        return d


T = lambda n: ('t', n)
P = lambda n: Place(('v', T(n)))


def pushed(ex):
    a, b = ex.loc[T('let in')], ex.loc[T('positions')]; return i2z(a.n), a.arr, b.arr


def visitor(ex, A):
    """a visitor that lets the edges PASS through, and records the vertices let in; it is asked about vertices not encountered only"""
    g = A.g; C, E = attrs.enumv(TR, 'CONTINUE', ex), attrs.enumv(TR, 'TERMINATE', ex)
    def f(u, e, w):
        u, e, w = [i2z(rd(ex, x)) for x in (u, e, w)]; enc = rd(ex, P('encountered')).arr
        ex.check('the visitor is asked about an edge and its two ends', z3.And(g.egx(e), z3.Or(z3.And(g.end(1, e) == u, g.end(2, e) == w), z3.And(g.end(1, e) == w, g.end(2, e) == u))))
        ex.check('the visitor goes from a vertex encountered to one that is not', z3.And(z3.Select(enc, u), z3.Not(z3.Select(enc, w))))
        n, a, p = pushed(ex); v, q = ex.loc[T('let in')], ex.loc[T('positions')]; ok = PASS(e)
        ex.write(P('let in'), Vec(v.et, z3.If(ok, n + 1, n), z3.If(ok, z3.Store(a, n, w), a), tk=v.tk)); ex.write(P('positions'), Vec(q.et, q.n, z3.If(ok, z3.Store(p, w, n), p), tk=q.tk))
        return z3.If(ok, i2z(C), i2z(E))
    return f


def rec(ex, A, st):
    """contract of the recursive traversal, used at its calls"""
    def h(ex, this, a, e):
        v = i2z(rd(ex, a[0])); enc = rd(ex, a[2])
        ex.check('the traversal starts from a vertex of the graph', A.g.vx(v)); ex.check('one mark per vertex', Eq(enc.n, A.N)); ex.check('the same visitor is used', rd(ex, a[1]) is st['visitor'] or a[1] is st['visitor'])
        n0, a0, p0 = pushed(ex); x, y = ex.loc[T('let in')], ex.loc[T('positions')]
        e1, n1, a1, p1 = z3.Const(ex.freshname('marks'), enc.arr.sort()), z3.Int(ex.freshname('n')), z3.Const(ex.freshname('in'), a0.sort()), z3.Const(ex.freshname('pos'), p0.sort())
        for c in A.post(enc.arr, e1, (n0, a0, p0), (n1, a1, p1), v).values(): ex._fact(c)
        ex.write(a[2], Vec(enc.et, enc.n, e1, tk=enc.tk)); ex.write(P('let in'), Vec(x.et, n1, a1, tk=x.tk)); ex.write(P('positions'), Vec(y.et, y.n, p1, tk=y.tk))
        return None
    return h


def traversal(cls, top=False):
    def run(p):
        ctx = Ctx(p); ex = ctx.ex; f = fn(p, cls, 'traverse', 3); f2 = fn(p, cls, 'traverse', 2); st = {}; ga = fn(p, cls, 'getAdjacencyList')

        def iv(env):
            enc = env.local('encountered'); A = st['A']
            if env.done is None: raise Unsup('loop over the edges of a vertex')
            d = A.post(st['e0'], enc.arr, st['P0'], pushed(ex), st['v'], i2z(env.done.card())); d['one mark per vertex'] = Eq(enc.n, A.N); d['as many positions'] = i2z(ex.loc[T('let in')].n) >= 0
            return d

        def body(ex):
            ctx.start(); o, g = G01.setup(ctx, cls); A = st['A'] = Adj(ctx, cls, o, g); vis = st['visitor'] = visitor(ex, A)
            et = ex.strip(f.o['ps'][2]['t']); it = ex.strip(f2.o['ps'][0]['t']); row = ex.strip(ex.elem(A.tk))
            ex.loc[T('adjacency')] = A.v; ex.idhooks[ga.id] = lambda ex, this, a, e: P('adjacency')
            enc = ex.sym(et, 'marks'); li, po = ex.sym(row, 'let in'), ex.sym(row, 'positions'); v = st['v'] = z3.Int('in:v')
            ex._fact(z3.And(Eq(enc.n, A.N), g.vx(v), i2z(li.n) >= 0))
            ex.loc[T('encountered')] = enc; ex.loc[T('let in')] = li; ex.loc[T('positions')] = po; ex.loc[T('visitor')] = vis
            st['e0'], st['P0'] = enc.arr, pushed(ex); h0 = dict(ex.heap)
            h = rec(ex, A, st); ex.idhooks[f.id] = lambda ex, this, a, e: h(ex, this, a, e) if ex.fnstack else NotImplemented
            ex.loop_invs = {cls + '::traverse': iv}
            ex.cover('any graph')
            r, th = outcome(lambda: G01.call(ex, f, o, v, vis, P('encountered')))
            ex.check('does not fail', th is None)
            if th is not None: return
            e1 = rd(ex, P('encountered'))
            for l, x in A.post(st['e0'], e1.arr, st['P0'], pushed(ex), v).items(): ex.check(l, x)
            ex.check('one mark per vertex', Eq(e1.n, A.N)); ex.check('the graph is kept', unchanged(ex, h0))
        ex.explore(body); return ex
    return run


def adjacency(cls):
    """the lists computed by getAdjacencyList hold the edges of each vertex, and all of them (adjacency lists kept are those: G01 shows that every change drops them)"""
    def run(p):
        ctx = Ctx(p); ex = ctx.ex; f = fn(p, cls, 'getAdjacencyList'); st = {}; S = z3.Select; D = z3.Function('ghost:degree', INT, INT, INT)

        def lists(v, upto, nm):
            g = st['g']; rs = ex.sort(v.et); arr = nm(v.arr); i, k, e = z3.Ints('i k e'); N = i2z(g.V.n)
            n, row = (lambda w: rs.accessor(0, 0)(S(arr, w))), (lambda w: rs.accessor(0, 1)(S(arr, w)))
            pos = lambda q, e: D(g.end(q, e), e) + (z3.If(g.end(1, e) == g.end(2, e), 1, 0) if q == 2 else 0)  # ghost: the length of the list when the edge is added
            end = lambda e: [z3.And(0 <= pos(q, e), pos(q, e) < n(g.end(q, e)), S(row(g.end(q, e)), pos(q, e)) == e) for q in (1, 2)]
            return {'one list per vertex': And(i2z(v.n) == N, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < N), n(i) >= 0), patterns=[S(arr, i)])),
                    'a list holds edges of its vertex': z3.ForAll([i, k], z3.Implies(z3.And(0 <= i, i < N, 0 <= k, k < n(i)), z3.And(g.egx(S(row(i), k)), S(row(i), k) < upto, z3.Or(g.end(1, S(row(i), k)) == i, g.end(2, S(row(i), k)) == i))), patterns=[S(row(i), k)]),
                    'an edge is in the list of its first end': z3.ForAll([e], z3.Implies(z3.And(g.egx(e), e < upto), end(e)[0]), patterns=[S(g.E.arr, e)]),
                    'an edge is in the list of its second end': z3.ForAll([e], z3.Implies(z3.And(g.egx(e), e < upto), end(e)[1]), patterns=[S(g.E.arr, e)])}

        def nm(a):
            if z3.is_const(a): return a
            c = z3.Const(ex.freshname('array'), a.sort()); ex._fact(c == a); return c

        def iv(env):
            v = ex.read(st['pl']); v = v if v.items is None else ex.vec_sym(v)
            if env.has('e'):
                u = nm(i2z(env.local('e'))); w = nm(u + 1); g = st['g']; i = z3.Int('i'); arr = nm(v.arr); rs = ex.sort(v.et)
                ex._fact(z3.ForAll([i], D(i, w) == D(i, u) + z3.If(g.egx(u), z3.If(g.end(1, u) == i, 1, 0) + z3.If(g.end(2, u) == i, 1, 0), 0), patterns=[D(i, w)]))
                return dict(lists(v, u, nm), counter=u >= 0, lengths=z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < i2z(g.V.n)), rs.accessor(0, 0)(S(arr, i)) == D(i, u)), patterns=[S(arr, i)]))
            return {'empty lists': z3.And(i2z(v.n) == i2z(st['g'].V.n), z3.ForAll([z3.Int('i')], z3.Implies(z3.And(0 <= z3.Int('i'), z3.Int('i') < i2z(v.n)), ex.sort(v.et).accessor(0, 0)(S(nm(v.arr), z3.Int('i'))) == 0)), lists(v, z3.IntVal(0), nm)['a list holds edges of its vertex']), 'lengths': lists(v, z3.IntVal(0), nm)['one list per vertex']}

        def body(ex):
            ctx.start(); o, g = G01.setup(ctx, cls); st['g'] = g; ad = {x['n']: k for k, x in ctx.p.fields(cls)}['m_adjacencyList']; st['pl'] = ex.member(o, ad, 'm_adjacencyList')
            v = ex.read(st['pl']); h0 = dict(ex.heap)
            if ex.choose(Eq(v.n, g.V.n)):
                for x in lists(v, i2z(g.E.n), nm).values(): ex._fact(x)
            else: ex._fact(i2z(v.n) == 0)
            i = z3.Int('i'); ex._fact(z3.ForAll([i], D(i, 0) == 0, patterns=[D(i, 0)])); ex.loop_invs = {cls + '::getAdjacencyList': iv}
            ex.cover('any graph')
            r, th = outcome(lambda: ex.call_body(f.id, o, [], f.o['f']) if f.o.get('f') else ex.call_fn(f.id, o, [])); ex.check('does not fail', th is None)
            if th is not None: return
            ex.check('the lists of the graph are returned', isinstance(r, Place) and r.path == st['pl'].path and r.root[0] == st['pl'].root[0] and bool(r.root[1].eq(st['pl'].root[1])))
            w = ex.read(st['pl']); w = w if w.items is None else ex.vec_sym(w)
            for l, x in lists(w, i2z(g.E.n), nm).items(): ex.check(l, x)
            k = G01.G(ctx, o, cls); G01.same_vertices(ex, g, k); G01.same_edges(ex, g, k)
        ex.explore(body); return ex
    return run


NT = NS + 'node_breaker_voltage_level::CalculatedBusTopology'
NBT = NS + 'node_breaker_voltage_level::CalculatedBusBreakerTopology'
QUAL = z3.Function('ghost:qualifies', INT, BOOL)   # the set of a node is a bus (the same for joined nodes)
TERM = z3.Function('ghost:stops', Ref, BOOL)       # the switches at which the search stops


def nodegraph(p): return next(c for c in graphs(p) if 'NodeTerminal' in c)


def graph_of(ctx, level, cls, lc=NS + 'NodeBreakerVoltageLevel'):
    ex = ctx.ex; o = ctx.call(level, 'getGraph', cls=lc, raw=True); g = G01.G(ctx, o, cls)
    for c in g.typed(): ex._fact(c)
    for v in (g.V, g.E): ex._fact(z3.And(i2z(v.n) >= 0, i2z(v.n) < G01.BIG))
    for l, c in g.inv(): ex.assume(c)
    return o, g


def vecs(ex): return {k: v for k, v in ex.loc.items() if isinstance(v, Vec)}


def searching(ctx, A, passes, elem, st):
    """contract of the traversal of a graph, used by the computation of buses: the visitor must let through exactly the edges that pass, and record in one list the vertices let in"""
    ex = ctx.ex; g = A.g; C = attrs.enumv(TR, 'CONTINUE', ex)
    def h(ex, this, a, e):
        if len(a) != 3: return NotImplemented
        v = i2z(rd(ex, a[0])); enc = rd(ex, a[2]); enc = enc if enc.items is None else ex.vec_sym(enc)
        ex.check('the search starts from a vertex of the graph', g.vx(v)); ex.check('one mark per vertex', Eq(enc.n, A.N)); ex.check('the search starts from a vertex not encountered', z3.Not(z3.Select(enc.arr, v)))
        # the visitor, for any edge
        u, x, w = [z3.Int(ex.freshname(n)) for n in ('from', 'edge', 'to')]
        ex._fact(z3.And(g.egx(x), z3.Or(z3.And(g.end(1, x) == u, g.end(2, x) == w), z3.And(g.end(1, x) == w, g.end(2, x) == u))))
        l0, h0 = dict(ex.loc), dict(ex.heap); r = rd(ex, ex.call_value(a[1], [u, x, w])); ok = Eq(r, C); vs = vecs(ex)
        ex.check('the visitor lets exactly the edges through that join their ends', b2z(ok) == passes(x)); ex.check('the visitor changes no object', unchanged(ex, h0))
        ch = [k for k, y in vs.items() if k in l0 and l0[k] is not y]
        if ok is True or ok is not False and ex.choose(ok):
            ex.check('the visitor records the vertex in one list', len(ch) == 1)
            if len(ch) != 1: raise Unsup('visitor')
            k = ch[0]; b = l0[k] if l0[k].items is None else ex.vec_sym(l0[k]); c = vs[k] if vs[k].items is None else ex.vec_sym(vs[k])
            ex.check('the visitor appends the vertex let in', z3.And(i2z(c.n) == i2z(b.n) + 1, z3.Select(c.arr, i2z(b.n)) == elem(w))); j = z3.Int(ex.freshname('j'))
            ex._fact(z3.And(0 <= j, j < i2z(b.n))); ex.check('the visitor keeps the vertices recorded', z3.Select(c.arr, j) == z3.Select(b.arr, j)) if not (isinstance(b.n, int) and b.n == 0) else None
        else:
            ex.check('the visitor records no vertex it does not let in', not ch); k = st.get('list')
            raise Stop()
        for q in [q for q in ex.loc if q in l0]: ex.loc[q] = l0[q]
        # the effect of the traversal
        e1, n1, li, p0, p1 = z3.Const(ex.freshname('marks'), enc.arr.sort()), z3.Int(ex.freshname('n')), z3.Const(ex.freshname('in'), z3.ArraySort(INT, INT)), z3.Const(ex.freshname('pos'), z3.ArraySort(INT, INT)), z3.Const(ex.freshname('pos'), z3.ArraySort(INT, INT))
        for c in A.post(enc.arr, e1, (z3.IntVal(0), li, p0), (n1, li, p1), v).values(): ex._fact(c)
        new = z3.Const(ex.freshname('list'), b.arr.sort()); i = z3.Int('i'); n0 = i2z(b.n)
        ex._fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n0), z3.Select(new, i) == z3.Select(b.arr, i)), patterns=[z3.Select(new, i)]))
        ex._fact(z3.ForAll([i], z3.Implies(z3.And(n0 <= i, i < n0 + n1), z3.Select(new, i) == elem(z3.Select(li, i - n0))), patterns=[z3.Select(new, i)]))
        ex._fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n1), z3.Select(new, i + n0) == elem(z3.Select(li, i))), patterns=[z3.Select(li, i)]))
        ex.write(a[2], Vec(enc.et, enc.n, e1, tk=enc.tk)); ex.loc[k] = Vec(b.et, n0 + n1, new, tk=b.tk)
        st.update(n=n0 + n1, new=new, b=b, list=k, v=v, e0=enc.arr, e1=e1, li=li, n1=n1, p1=p1); return None
    return h


class Stop(Exception): pass


def nb_traverse(p):
    ctx = Ctx(p); ex = ctx.ex; ex.o = dict(ex.o, nofix=True, goal_ms=8000); cls = nodegraph(p); f = fn(p, NT, 'traverse'); st = {}; ps = f.o['ps']; S = z3.Select

    def body(ex):
        ctx.start(); st.clear(); t = ex.symobj(NT, 'topology'); lv = ex.read(ex.member(t, NT, 'm_voltageLevel')); o, g = graph_of(ctx, lv, cls); A = st['A'] = Adj(ctx, cls, o, g)
        enc, bid, bno = [ex.sym(ex.strip(ps[i]['t']), n) for i, n in ((1, 'marks'), (3, 'buses'), (4, 'busOf'))]
        v = z3.Int('in:v'); ex._fact(z3.And(Eq(enc.n, A.N), Eq(bno.n, A.N), g.vx(v)))
        for n, x in (('marks', enc), ('buses', bid), ('busOf', bno)): ex.loc[T(n)] = x
        ii = z3.Int('i'); ex._fact(z3.ForAll([ii], z3.Or(isnull(S(bno.arr, ii)), z3.And(Ref.is_obj(S(bno.arr, ii)), Ref.oid(S(bno.arr, ii)) < 0)), patterns=[S(bno.arr, ii)]))
        passes = lambda e: z3.Or(isnull(g.eobj(e)), z3.Not(TERM(g.eobj(e))))
        i, k, e, j = z3.Ints('i k e j'); ex._fact(z3.ForAll([e], PASS(e) == passes(e), patterns=[PASS(e)]))
        both = lambda x: z3.And(S(enc.arr, g.end(1, x)), S(enc.arr, g.end(2, x)))
        ex._fact(z3.ForAll([e], z3.Implies(z3.And(g.egx(e), PASS(e), z3.Or(S(enc.arr, g.end(1, e)), S(enc.arr, g.end(2, e)))), both(e)), patterns=[PASS(e)]))
        stop = lambda *a: TERM(oref(rd(ex, a[-1])))
        ctx.hook_all(cls + '::traverse', searching(ctx, A, passes, lambda w: w, st))
        st['valid'] = None
        def iv(env):
            vs = env.local('vertices'); vs = vs if vs.items is None else ex.vec_sym(vs); arr = A.nm(vs.arr)
            if env.done is None: raise Unsup('loop of traverse')
            u = i2z(env.done.card()); ob = lambda k: g.vob(S(arr, k)); k = z3.Int('k')
            if not env.has('calculatedBus'):
                ts = env.local('terminals'); ts = ts if ts.items is None else ex.vec_sym(ts); t1 = A.nm(ts.arr); w = A.nm(u + 1); tn = i2z(ts.n)
                # ghost: K(k) objects among the first k vertices, J(t) the vertex of the terminal t
                ex._fact(z3.And(K(0) == 0, z3.Implies(z3.And(0 <= u, u < i2z(vs.n)), z3.And(K(w) == K(u) + z3.If(isnull(ob(u)), 0, 1), z3.Implies(z3.Not(isnull(ob(u))), J(K(u)) == u)))))
                return {'terminals so far': z3.And(tn == K(u), tn >= 0, tn <= u, 0 <= u),
                        'the terminal of each vertex': z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < u, z3.Not(isnull(ob(k)))), z3.And(0 <= K(k), K(k) < tn, S(t1, K(k)) == ob(k))), patterns=[S(arr, k)]),
                        'terminals of vertices only': z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < tn), z3.And(0 <= J(k), J(k) < u, S(t1, k) == ob(J(k)), K(J(k)) == k, z3.Not(isnull(ob(J(k)))))), patterns=[S(t1, k)])}
            b = ex.read(P('busOf')); bn = b.n; b = A.nm(b.arr); i = z3.Int('i'); c = env.local('calculatedBus'); c = ex.to_term(c, None, 'ref') if not isz(c) else c
            return {'nodes visited': z3.ForAll([i], S(b, i) == z3.If(z3.And(cl(i), pos(i) < u), c, S(bno.arr, i)), patterns=[S(b, i)]), 'count': And(0 <= u, Eq(bn, A.N))}
        K, J = z3.Function('ghost:terminals', INT, INT), z3.Function('ghost:vertex', INT, INT)
        cl = lambda i: z3.And(0 <= i, i < A.N, S(st['e1'], i), z3.Not(S(enc.arr, i)))            # the nodes newly encountered
        pos = lambda i: z3.If(i == v, 0, 1 + S(st['p1'], i))                                     # their place in the list
        ex.loop_invs = {NT + '::traverse': iv}
        def valid(ex, this, a, e):
            vs, ts = rd(ex, a[1]), rd(ex, a[2]); st['checked'] = (vs, ts); q = st['valid'] = z3.Bool(ex.freshname('qualifies')); return q
        for c in (NT, NBT): ctx.hook_all(c + '::isBusValid', valid)
        ctx.hook_all(NS + 'CalculatedBus::findTerminal', lambda ex, this, a, e: ex.sym(ex.strip(p.byq[NS + 'CalculatedBus::findTerminal'][0].o['f']['ret'] if p.byq[NS + 'CalculatedBus::findTerminal'][0].o.get('f') else p.byq[NS + 'CalculatedBus::findTerminal'][0].o['ret']), ex.freshname('any terminal')))
        naming = []
        for m in ('getId', 'getName'):
            def nh(ex, this, a, e, m=m):
                r = z3.Const(ex.freshname(m), Str); naming.append((m, rd(ex, a[0]))); st[m] = r; ex._fact(z3.Implies(z3.BoolVal(m == 'getId'), r != lit('')))
                if m == 'getId': ex._fact(z3.Not(z3.Select(bid.has, r)))
                return r
            ctx.hook_all(NS + 'node_breaker_voltage_level::BusNamingStrategy::' + m, nh)
        try:
            r, th = outcome(lambda: G01.call(ex, f, t, v, P('marks'), stop, P('buses'), P('busOf')))
        except Stop: return
        ex.check('does not fail', th is None)
        if th is not None: return
        e1, b1 = rd(ex, P('marks')), rd(ex, P('busOf'))
        if 'e1' not in st:
            ex.check('a node encountered before changes nothing', And(e1.arr == enc.arr, b1.arr == bno.arr)); return
        n, new = st['n'], st['new']; x = z3.Int('any node'); whole = lambda w: w.items is None and And(Eq(w.n, n), w.arr == new)
        ex.check('the search starts from the node', And(v == st['v'], Eq(st['b'].n, 1), S(st['b'].arr, 0) == v)); ex.check('the marks of the search', And(e1.arr == st['e1'], Eq(e1.n, A.N)))
        ex.check('nodes marked before still are', Implies(S(enc.arr, x), S(e1.arr, x)))
        ex.check('the node is marked', S(e1.arr, v))
        ex.check('newly marked nodes are joined to the node', z3.Implies(cl(x), REACH(v, x)))
        ex.check('the list holds the newly marked nodes, each once', z3.And(z3.Implies(cl(x), z3.And(0 <= pos(x), pos(x) < n, S(new, pos(x)) == x)), z3.Implies(z3.And(0 <= x, x < n), z3.And(cl(S(new, x)), pos(S(new, x)) == x))))
        y = z3.Int('any edge'); ex.check('no edge that passes joins a marked node to another', z3.Implies(z3.And(g.egx(y), PASS(y)), S(e1.arr, g.end(1, y)) == S(e1.arr, g.end(2, y))))
        ex.check('the list of all the nodes is named', And(*[whole(w) for m, w in naming])); vs, ts = st['checked']
        ex.check('the validity of the list of all the nodes decides', whole(vs))
        at = lambda t: S(ts.arr, t)
        if ts.items is None:
            ex.check('the terminals of the nodes are listed', z3.And(z3.Implies(z3.And(cl(x), z3.Not(isnull(g.vob(x)))), z3.And(0 <= K(pos(x)), K(pos(x)) < i2z(ts.n), at(K(pos(x))) == g.vob(x))), z3.Implies(z3.And(0 <= x, x < i2z(ts.n)), z3.And(0 <= J(x), J(x) < n, at(x) == g.vob(S(new, J(x))), K(J(x)) == x))))
        else: ex.check('the terminals of the nodes are listed', False)
        bu = rd(ex, P('buses')); x2 = z3.Const('any id', Str)
        if not ex.choose(st['valid']):
            ex.check('no bus for nodes that do not qualify', b1.arr == bno.arr); ex.check('the buses are kept', And(bu.has == bid.has, Eq(bu.n, bid.n))); return
        bus = S(b1.arr, v); ex.check('the nodes get the bus, the others keep theirs', S(b1.arr, x) == z3.If(cl(x), bus, S(bno.arr, x)))
        ex.check('a new bus', And(bus != Ref.null, z3.Implies(z3.And(0 <= x, x < A.N), S(bno.arr, x) != bus))); ex.check('as many nodes', Eq(b1.n, A.N))
        ex.check('the bus is registered under its identifier', And(S(bu.val, st['getId']) == bus, S(bu.has, x2) == z3.Or(S(bid.has, x2), x2 == st['getId']), z3.Implies(x2 != st['getId'], S(bu.val, x2) == S(bid.val, x2))))
        mt = ex.hread(NS + 'CalculatedBus::m_terminals', bus); mt = rd(ex, mt)
        ex.check('the bus has the terminals of the nodes', And(mt.arr == ts.arr, Eq(mt.n, ts.n)))
        ex.check('the bus has its identifier and level', And(Eq(ctx.call(ex.objplace(bus) if hasattr(ex, 'objplace') else Place(('o', bus)), 'getId', cls=NS + 'CalculatedBus'), st['getId'])))
    ex.explore(body); return ex


def nb_update(cls0):
    def run(p):
        ctx = Ctx(p); ex = ctx.ex; ex.o = dict(ex.o, nofix=True, goal_ms=8000); cls = nodegraph(p); st = {}; S = z3.Select; i, j, e = z3.Ints('i j e')
        f = next(x for x in p.byq[NT + '::updateCache'] if len(x.o['ps']) == 1); tf = fn(p, NT, 'traverse')

        def parts(enc, b):
            g, A = st['g'], st['A']; enc, b = A.nm(enc), A.nm(b); N = A.N; inr = lambda x: z3.And(0 <= x, x < N)
            return {'no edge that passes joins a marked node to another': z3.ForAll([e], z3.Implies(z3.And(g.egx(e), PASS(e)), S(enc, g.end(1, e)) == S(enc, g.end(2, e))), patterns=[PASS(e)]),
                    'nodes joined by an edge that passes have the same bus': z3.ForAll([e], z3.Implies(z3.And(g.egx(e), PASS(e)), S(b, g.end(1, e)) == S(b, g.end(2, e))), patterns=[PASS(e)]),
                    'nodes with the same bus are joined': z3.ForAll([i, j], z3.Implies(z3.And(inr(i), inr(j), S(b, i) == S(b, j), S(b, i) != Ref.null), REACH(i, j)), patterns=[z3.MultiPattern(S(b, i), S(b, j))]),
                    'marked nodes have a bus exactly when they qualify, others none': z3.ForAll([i], z3.Implies(inr(i), (S(b, i) != Ref.null) == z3.And(S(enc, i), QUAL(i))), patterns=[S(b, i)])}

        def iv(env):
            enc, b = env.local('encountered'), env.local('busByNode'); b = b if b.items is None else ex.vec_sym(b); enc = enc if enc.items is None else ex.vec_sym(enc)
            if env.done is None: raise Unsup('loop of updateCache')
            g, A = st['g'], st['A']; d = parts(enc.arr, b.arr); d['slots'] = And(Eq(enc.n, A.N), Eq(b.n, A.N)); ea = A.nm(enc.arr)
            d['the ends of the edges visited are marked'] = z3.ForAll([e], z3.Implies(z3.And(g.egx(e), env.done.has(e)), z3.And(S(ea, g.end(1, e)), S(ea, g.end(2, e)))), patterns=[S(g.E.arr, e)])
            return d

        def tr(ex, this, a, e_):
            g, A = st['g'], st['A']; v = i2z(rd(ex, a[0])); enc, bid, bno = rd(ex, a[1]), rd(ex, a[3]), rd(ex, a[4]); enc, bno = [x if x.items is None else ex.vec_sym(x) for x in (enc, bno)]
            ex.check('the search starts from a node', g.vx(v)); ex.check('one slot per node', And(Eq(enc.n, A.N), Eq(bno.n, A.N))); ex.check('the predicate given is used', rd(ex, a[2]) is st['stop'] or a[2] is st['stop'])
            x = z3.Int('any edge'); ea, ba = A.nm(enc.arr), A.nm(bno.arr); ex.check('no edge that passes joins a marked node to another', z3.Implies(z3.And(g.egx(x), PASS(x)), S(ea, g.end(1, x)) == S(ea, g.end(2, x))))
            e1, b1, b = z3.Const(ex.freshname('marks'), ea.sort()), z3.Const(ex.freshname('busOf'), ba.sort()), z3.Const(ex.freshname('bus'), Ref)
            cl = lambda i: z3.And(0 <= i, i < A.N, S(e1, i), z3.Not(S(ea, i))); F = lambda vs, c, *pt: ex._fact(z3.ForAll(vs, c, patterns=list(pt)))
            ex._fact(z3.And(S(e1, v), z3.Implies(S(ea, v), z3.And(e1 == ea, b1 == ba)), (b != Ref.null) == QUAL(v)))
            F([i], z3.Implies(S(ea, i), S(e1, i)), S(e1, i)); F([i], z3.Implies(cl(i), REACH(v, i)), S(e1, i))
            F([e], z3.Implies(z3.And(g.egx(e), PASS(e)), S(e1, g.end(1, e)) == S(e1, g.end(2, e))), PASS(e))
            F([i], S(b1, i) == z3.If(cl(i), b, S(ba, i)), S(b1, i)); F([i], z3.Implies(z3.And(0 <= i, i < A.N, b != Ref.null), S(ba, i) != b), S(ba, i))
            nb = ex.sym(ex.strip(tf.o['ps'][3]['t']), ex.freshname('buses'))
            ex.write(a[1], Vec(enc.et, enc.n, e1, tk=enc.tk)); ex.write(a[4], Vec(bno.et, bno.n, b1, tk=bno.tk)); ex.write(a[3], nb); return None

        def body(ex):
            ctx.start(); st.clear(); t = ex.symobj(cls0, 'topology'); lv = ex.read(ex.member(t, NT, 'm_voltageLevel')); o, g = graph_of(ctx, lv, cls); A = Adj(ctx, cls, o, g); st.update(g=g, A=A)
            cp = ex.member(t, NT, 'm_cache'); c0 = ex.read(cp); st['stop'] = stop = lambda *a: TERM(oref(rd(ex, a[-1])))
            ex._fact(z3.ForAll([e], PASS(e) == z3.Or(isnull(g.eobj(e)), z3.Not(TERM(g.eobj(e)))), patterns=[PASS(e)])); ex._fact(z3.ForAll([i, j], z3.Implies(REACH(i, j), QUAL(i) == QUAL(j)), patterns=[REACH(i, j)]))
            ex.idhooks[tf.id] = tr; ex.loop_invs = {NT + '::updateCache': iv}; ctx.hook_all('stdcxx::toString', lambda ex, this, a, e_: z3.Const(ex.freshname('text'), Str))
            h0 = dict(ex.heap); r, th = outcome(lambda: G01.call(ex, f, t, stop)); ex.check('does not fail', th is None)
            if th is not None: return
            if not ex.choose(Eq(c0, Ref.null)): ex.check('a topology computed before is kept', unchanged(ex, h0)); return
            c1 = ex.read(cp); c1 = ex.to_term(c1, None, 'ref') if not isz(c1) else c1; ex.check('the topology is kept for later', c1 != Ref.null)
            b = rd(ex, ex.hread(NS + 'node_breaker_voltage_level::BusCache::m_busByNode', c1)); ex.check('one slot per node', Eq(b.n, A.N))
            b = A.nm(b.arr); k = z3.Int('any edge'); x, y = z3.Int('any node'), z3.Int('other node'); inr = lambda x: z3.And(0 <= x, x < A.N)
            ex.check('nodes joined by an edge that passes have the same bus', z3.Implies(z3.And(g.egx(k), PASS(k)), S(b, g.end(1, k)) == S(b, g.end(2, k))))
            ex.check('nodes with the same bus are joined', z3.Implies(z3.And(inr(x), inr(y), S(b, x) == S(b, y), S(b, x) != Ref.null), REACH(x, y)))
            for q in (1, 2): ex.check('the end of an edge has a bus exactly when its set qualifies', z3.Implies(z3.And(g.egx(k), S(g.E.arr, k) != Ref.null), (S(b, g.end(q, k)) != Ref.null) == QUAL(g.end(q, k))))
            ex.check('only nodes of sets that qualify have a bus', z3.Implies(z3.And(inr(x), S(b, x) != Ref.null), QUAL(x)))
        ex.explore(body); return ex
    return run


CT = NS + 'ConnectableType'
BRANCH = ('LINE', 'TWO_WINDINGS_TRANSFORMER', 'THREE_WINDINGS_TRANSFORMER', 'HVDC_CONVERTER_STATION', 'DANGLING_LINE')
CONN, KIND = z3.Function('ghost:equipment', Ref, Ref), z3.Function('ghost:kind', Ref, INT)


def nb_valid(p):
    """a busbar section and a feeder, or a branch and another feeder, among the terminals of the nodes"""
    ctx = Ctx(p); ex = ctx.ex; ex.o = dict(ex.o, nofix=True, goal_ms=8000); cls = nodegraph(p); f = fn(p, NT, 'isBusValid'); st = {}; S = z3.Select
    cnt = {n: z3.Function('ghost:' + n, INT, INT) for n in ('bars', 'feeders', 'branches')}

    def kinds(k):
        t = st['g'].vob(S(st['arr'], k)); ty = KIND(CONN(t)); br = z3.Or(*[ty == i2z(attrs.enumv(CT, b, ex)) for b in BRANCH]); bar = ty == i2z(attrs.enumv(CT, 'BUSBAR_SECTION', ex)); some = z3.Not(isnull(t))
        return dict(bars=z3.And(some, bar), feeders=z3.And(some, z3.Not(bar)), branches=z3.And(some, br))

    def iv(env):
        if env.done is None: raise Unsup('loop of isBusValid')
        u = st['A'].nm(i2z(env.done.card())); ks = kinds(u)
        for n in cnt: ex._fact(z3.And(cnt[n](0) == 0, cnt[n](u) >= 0, z3.Implies(z3.And(0 <= u, u < i2z(st['n'])), cnt[n](u + 1) == cnt[n](u) + z3.If(ks[n], 1, 0))))
        return {'counts': z3.And(i2z(env.local('busbarSectionCount')) == cnt['bars'](u), i2z(env.local('feederCount')) == cnt['feeders'](u), i2z(env.local('branchCount')) == cnt['branches'](u)), 'bound': z3.And(*[z3.And(0 <= cnt[n](u), cnt[n](u) <= u) for n in cnt])}

    def body(ex):
        ctx.start(); st.clear(); t = ex.symobj(NT, 'topology'); lv = ex.read(ex.member(t, NT, 'm_voltageLevel')); o, g = graph_of(ctx, lv, cls); A = Adj(ctx, cls, o, g); ps = f.o['ps']
        vs, ts = ex.sym(ex.strip(ps[1]['t']), 'nodes'), ex.sym(ex.strip(ps[2]['t']), 'terminals'); ex.loc[T('nodes')] = vs; ex.loc[T('terminals')] = ts; st.update(g=g, A=A, arr=vs.arr, n=vs.n)
        k = z3.Int('k'); ex._fact(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < i2z(vs.n)), g.vx(S(vs.arr, k))), patterns=[S(vs.arr, k)])); r = z3.Const('r', Ref)
        kinds_ = [i2z(attrs.enumv(CT, n, ex)) for n in BRANCH + ('LOAD', 'GENERATOR', 'BATTERY', 'SHUNT_COMPENSATOR', 'STATIC_VAR_COMPENSATOR', 'BUSBAR_SECTION')]
        ex._fact(z3.ForAll([r], z3.And(CONN(r) != Ref.null, Ref.is_obj(CONN(r)), Ref.oid(CONN(r)) < 0, z3.Or(*[KIND(CONN(r)) == q for q in kinds_])), patterns=[CONN(r)]))
        ctx.hook_all(NS + 'Terminal::getConnectable', lambda ex, this, a, e: CONN(oref(this))); ctx.hook_all(NS + 'Connectable::getType', lambda ex, this, a, e: KIND(oref(this)))
        ex.loop_invs = {NT + '::isBusValid': iv}; h0 = dict(ex.heap)
        r, th = outcome(lambda: G01.call(ex, f, t, o, P('nodes'), P('terminals'))); ex.check('does not fail', th is None)
        if th is not None: return
        n = i2z(vs.n); ex.check('a set with a busbar section and a feeder, or a branch and another feeder, qualifies', Eq(b2z(ex.tobool(r)), z3.Or(z3.And(cnt['bars'](n) >= 1, cnt['feeders'](n) >= 1), z3.And(cnt['branches'](n) >= 1, cnt['feeders'](n) >= 2)))); ex.check('nothing changes', unchanged(ex, h0))
    ex.explore(body); return ex


def nb_predicate(c, retained):
    def run(p):
        ctx = Ctx(p); ex = ctx.ex; f = fn(p, c, 'createSwitchPredicate')

        def body(ex):
            ctx.start(); t = ex.symobj(c, 'topology'); w = ex.symobj(NS + 'Switch', 'switch'); __import__('C01').level_of(ctx, w, NS + 'Switch')
            pr = G01.call(ex, f, t); ex.loc[T('switch')] = w.root[1]; h0 = dict(ex.heap)
            o, r = ctx.call(w, 'isOpen'), ctx.call(w, 'isRetained'); got, th = outcome(lambda: ex.tobool(rd(ex, ex.call_value(pr, [P('switch')])))); ex.check('does not fail', th is None)
            if th is None: ex.check('the search stops at open switches' + (' and at retained ones' if retained else ''), Eq(b2z(got), b2z(Or(o, r) if retained else o)))
        ex.explore(body); return ex
    return run


def oref(v): return v.root[1] if isinstance(v, Place) and v.isobj() else v


def isnull(x): return x == Ref.null


def goals(p, tier):
    gs = []
    gs.append(Goal('NodeBreaker CalculatedBusTopology::traverse', nb_traverse))
    gs.append(Goal('NodeBreaker CalculatedBusTopology::updateCache', nb_update(NT)))
    gs.append(Goal('NodeBreaker CalculatedBusTopology::isBusValid', nb_valid))
    gs += [Goal('NodeBreaker %s::createSwitchPredicate' % c.rsplit('::', 1)[1], nb_predicate(c, r)) for c, r in ((NT, False), (NBT, True))]
    for c in graphs(p):
        s = c[len('powsybl::math::'):].replace('powsybl::iidm::', '')
        gs += [Goal(s + '::traverse', traversal(c)), Goal(s + '::getAdjacencyList', adjacency(c))]
    return gs
