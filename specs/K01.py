"""K01: component numbering is a partition ordered by decreasing size."""
import prog, lib, loops, z3
from check import Goal
from contract import *
from vals import *
from N01 import outcome, unchanged

GLOBS = prog.CORE
DRIVER = 'K01'
GU = 'powsybl::math::GraphUtil::computeConnectedComponents'
INT = z3.IntSort()
# ghost: any equivalence relation that relates neighbours (two vertices joined by a path are related by every such relation, and only they are)
REACH = z3.Function('ghost:related', INT, INT, z3.BoolSort())


def rd(ex, v): return ex.read(v) if isinstance(v, Place) and not v.isobj() else v


def dfs_fn(p): return next(f for f in p.byq[GU] if len(f.o['ps']) == 5)
def main_fn(p): return next(f for f in p.byq[GU] if len(f.o['ps']) == 1)


class Gr:
    """an arbitrary graph given by adjacency lists, and its ghost relation and count"""
    def __init__(self, ctx, symmetric=False):
        ex = self.ex = ctx.ex; f = dfs_fn(ctx.p).o; ps = f['ps']
        self.tk = {n: ex.strip(ps[i]['t']) for i, n in ((2, 'size'), (3, 'adj'), (4, 'num'))}
        self.adj = ex.sym(self.tk['adj'], 'adjacency'); self.N = i2z(self.adj.n)
        et = self.adj.et; self.rowsort = ex.sort(et); i, j, k = z3.Ints('i j k'); S = z3.Select
        self.row = lambda v: S(self.adj.arr, v)
        self.deg = lambda v: self.rowsort.accessor(0, 0)(self.row(v)); self.nb = lambda v, k: S(self.rowsort.accessor(0, 1)(self.row(v)), k)
        A = lambda vs, b, *pt: ex._fact(z3.ForAll(vs, b, patterns=list(pt)))
        ex._fact(z3.And(self.N >= 0, self.N < (1 << 40)))
        A([i], z3.Implies(z3.And(0 <= i, i < self.N), self.deg(i) >= 0), self.row(i))
        A([i, k], z3.Implies(z3.And(0 <= i, i < self.N, 0 <= k, k < self.deg(i)), z3.And(0 <= self.nb(i, k), self.nb(i, k) < self.N, REACH(i, self.nb(i, k)))), self.nb(i, k))
        ex._fact(z3.ForAll([i], REACH(i, i), patterns=[REACH(i, i)]))
        A([i, j], REACH(i, j) == REACH(j, i), REACH(i, j))
        A([i, j, k], z3.Implies(z3.And(REACH(i, j), REACH(j, k)), REACH(i, k)), z3.MultiPattern(REACH(i, j), REACH(j, k)))
        if symmetric:
            M = z3.Function('ghost:back', INT, INT, INT); b = M(i, k)
            A([i, k], z3.Implies(z3.And(0 <= i, i < self.N, 0 <= k, k < self.deg(i)), z3.And(0 <= b, b < self.deg(self.nb(i, k)), self.nb(self.nb(i, k), b) == i)), self.nb(i, k))

    def cnt_axioms(self, numsort):
        """ghost count of the vertices with a number: assigning c to a vertex without one adds one to c and leaves the others"""
        ex = self.ex; a = z3.Const('a', z3.ArraySort(INT, numsort)); i, c, d = z3.Ints('i c d')
        self.opt = numsort; self.none, self.some = numsort.constructor(0)(), numsort.constructor(1)
        self.CNT = z3.Function('ghost:count', z3.ArraySort(INT, numsort), INT, INT)
        C = self.CNT
        ex._fact(z3.ForAll([a, i, c, d], z3.Implies(z3.And(0 <= i, i < self.N, z3.Select(a, i) == self.none), C(z3.Store(a, i, self.some(c)), d) == C(a, d) + z3.If(c == d, 1, 0)), patterns=[C(z3.Store(a, i, self.some(c)), d)]))
        ex._fact(z3.ForAll([a, d], z3.And(C(a, d) >= 0, C(a, d) <= self.N), patterns=[C(a, d)]))
        ex._fact(z3.ForAll([d], C(z3.K(INT, self.none), d) == 0, patterns=[C(z3.K(INT, self.none), d)]))

    def has(self, a, i): return z3.Select(a, i) != self.none
    def val(self, a, i): return self.opt.accessor(1, 0)(z3.Select(a, i))

    def nm(self, a):
        """a name for an array, so that it can be part of a pattern"""
        if z3.is_const(a): return a
        c = z3.Const(self.ex.freshname('array'), a.sort()); self.ex._fact(c == a); return c

    def counted(self, sz, a):
        sz, a = self.nm(sz), self.nm(a)
        d = z3.Int('d')
        return z3.ForAll([d], z3.Implies(z3.And(0 <= d, d < self.N), z3.Select(sz, d) == self.CNT(a, d)), patterns=[z3.Select(sz, d)])

    def post(self, n0, n1, sz1, v1, c, upto=None):
        """after numbering v1 (upto: its neighbours before that position only)"""
        n0, n1, sz1 = self.nm(n0), self.nm(n1), self.nm(sz1); i, k = z3.Ints('i k'); S = z3.Select
        newly = lambda i: z3.And(0 <= i, i < self.N, z3.Not(self.has(n0, i)), self.has(n1, i))
        d = {'a number given before is kept': z3.ForAll([i], z3.Implies(self.has(n0, i), S(n1, i) == S(n0, i)), patterns=[S(n1, i), S(n0, i)]),
             'the vertex gets the number': S(n1, v1) == self.some(c),
             'new numbers are the given one and for related vertices': z3.ForAll([i], z3.Implies(newly(i), z3.And(S(n1, i) == self.some(c), REACH(v1, i))), patterns=[S(n1, i)]),
             'sizes are the counts': self.counted(sz1, n1)}
        if upto is None: d['neighbours of new vertices have a number'] = z3.ForAll([i, k], z3.Implies(z3.And(newly(i), 0 <= k, k < self.deg(i)), self.has(n1, self.nb(i, k))), patterns=[self.nb(i, k)])
        else:
            d['neighbours of other new vertices have a number'] = z3.ForAll([i, k], z3.Implies(z3.And(newly(i), i != v1, 0 <= k, k < self.deg(i)), self.has(n1, self.nb(i, k))), patterns=[self.nb(i, k)])
            d['neighbours visited have a number'] = z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < upto), self.has(n1, self.nb(v1, k))), patterns=[self.nb(v1, k)])
        return d


    def partition(self, n1, c):
        """the numbers given are below c, equal for neighbours, different for unrelated vertices, in order of discovery"""
        i, j, k = z3.Ints('i j k'); S = z3.Select; inn = lambda i: z3.And(0 <= i, i < self.N, self.has(n1, i))
        return {'numbers given so far': z3.ForAll([i], z3.Implies(inn(i), z3.And(0 <= self.val(n1, i), self.val(n1, i) < c)), patterns=[S(n1, i)]),
                'neighbours have the same number': z3.ForAll([i, k], z3.Implies(z3.And(inn(i), 0 <= k, k < self.deg(i)), S(n1, self.nb(i, k)) == S(n1, i)), patterns=[self.nb(i, k)]),
                'the same number for related vertices only': z3.ForAll([i, j], z3.Implies(z3.And(inn(i), inn(j), S(n1, i) == S(n1, j)), REACH(i, j)), patterns=[z3.MultiPattern(S(n1, i), S(n1, j))]),
                'numbers are given in order of discovery': z3.ForAll([i, j], z3.Implies(z3.And(inn(i), 0 <= j, j < self.val(n1, i)), z3.Exists([k], z3.And(0 <= k, k < i, S(n1, k) == self.some(j)))), patterns=[z3.MultiPattern(S(n1, i), self.some(j))])}


def contract(g, st):
    """the contract of the recursive function, used at its calls"""
    def h(ex, this, a, e):
        v1, c = i2z(rd(ex, a[0])), i2z(rd(ex, a[1])); sz, adj, nm = rd(ex, a[2]), rd(ex, a[3]), rd(ex, a[4])
        for l, x in (('the vertex exists', And(0 <= v1, v1 < g.N)), ('has no number yet', Not(g.has(nm.arr, v1))), ('the number has a size', And(0 <= c, c < i2z(sz.n))), ('the sizes are the counts', g.counted(sz.arr, nm.arr)),
                     ('the graph', And(adj.arr == g.adj.arr, i2z(adj.n) == g.N)), ('one slot per vertex', And(i2z(nm.n) == g.N, i2z(sz.n) == g.N))):
            ex.check('before numbering from a vertex: ' + l, x)
        n1, s1 = z3.Const(ex.freshname('numbers'), nm.arr.sort()), z3.Const(ex.freshname('sizes'), sz.arr.sort())
        for x in g.post(nm.arr, n1, s1, v1, c).values(): ex._fact(x)
        ex.write(a[2], Vec(sz.et, sz.n, s1, tk=sz.tk)); ex.write(a[4], Vec(nm.et, nm.n, n1, tk=nm.tk))
        return None
    return h


def once(ctx, f, h):
    """the first call runs the body, the calls it makes are by contract"""
    def k(ex, this, a, e):
        return h(ex, this, a, e) if ex.fnstack else NotImplemented
    ctx.ex.idhooks[f.id] = k


def upto(env, f):
    """number of neighbours visited when a loop starts an iteration"""
    if env.done is not None: return i2z(env.done.card())
    ps = {x['id'] for x in f.o['ps']}
    c = [v for (fr, i), v in env.ex.loc.items() if fr == env.ex.curframe and i not in ps and any(i in ids for ids in env.names.values()) and (isinstance(v, int) and not isinstance(v, bool) or isz(v) and v.sort() == INT)]
    if len(c) != 1: raise Unsup('counter of the loop over the neighbours')
    return i2z(c[0])


def dfs(p):
    ctx = Ctx(p); ex = ctx.ex; f = dfs_fn(p); st = {}

    def iv(env):
        nm, sz = env.local('componentNumber'), env.local('componentSize')
        d = st['g'].post(st['n0'], nm.arr, sz.arr, st['v1'], st['c'], upto(env, f))
        d['as many slots'] = z3.And(i2z(nm.n) == st['g'].N, i2z(sz.n) == st['g'].N)
        return d

    def body(ex):
        ctx.start(); g = st['g'] = Gr(ctx)
        nm, sz = ex.sym(g.tk['num'], 'numbers'), ex.sym(g.tk['size'], 'sizes'); g.cnt_axioms(nm.arr.sort().range())
        v1, c = st['v1'], st['c'] = z3.Int('in:v1'), z3.Int('in:c'); st['n0'] = nm.arr
        ex._fact(z3.And(i2z(nm.n) == g.N, i2z(sz.n) == g.N, 0 <= v1, v1 < g.N, 0 <= c, c < g.N, z3.Not(g.has(nm.arr, v1)), g.counted(sz.arr, nm.arr)))
        for n, v in (('size', sz), ('adj', g.adj), ('num', nm)): ex.loc[('t', n)] = v
        P = lambda n: Place(('v', ('t', n)))
        once(ctx, f, contract(g, st)); ex.loop_invs = {GU: iv}
        ex.cover('any graph')
        r, th = outcome(lambda: ex.call_body(f.id, None, [v1, c, P('size'), P('adj'), P('num')], f.o['f']) if f.o.get('f') else ex.call_fn(f.id, None, [v1, c, P('size'), P('adj'), P('num')]))
        ex.check('does not fail', th is None)
        if th is not None: return
        n1, s1 = rd(ex, P('num')), rd(ex, P('size'))
        for l, x in g.post(nm.arr, n1.arr, s1.arr, v1, c).items(): ex.check(l, x)
        ex.check('as many slots', And(i2z(n1.n) == g.N, i2z(s1.n) == g.N)); a1 = rd(ex, P('adj')); ex.check('the graph is kept', And(a1.arr == g.adj.arr, Eq(a1.n, g.N)))
    ex.explore(body); return ex


def sorting(st, stable):
    """contract of the standard sorting functions: an ordered permutation; the stable one keeps the order of elements that are not less than each other"""
    def h(ex, this, a, e):
        b, en = rd(ex, a[0]), rd(ex, a[1])
        if not (isinstance(b, It) and isinstance(en, It) and b.kind == 'vec'): raise Unsup('sorted range')
        pl = b.place; v = ex.read(pl)
        if v.items is not None: v = ex.vec_sym(v)
        n = i2z(v.n); ex.check('the whole vector is sorted', And(Eq(b.pos, 0), Eq(en.pos, v.n)))
        new = z3.Const(ex.freshname('sorted'), v.arr.sort()); tag = ex.freshname('perm'); P, Q = z3.Function(tag, INT, INT), z3.Function(tag + '-', INT, INT)
        i, j, k = z3.Ints('i j k'); S = z3.Select; inr = lambda i: z3.And(0 <= i, i < n); g = st['g']; old = g.nm(v.arr)

        def less(x, y):
            npc = len(ex.pc) if hasattr(ex, 'pc') else None
            r = b2z(ex.tobool(rd(ex, ex.call_value(a[2], [ex.from_term(x, v.et), ex.from_term(y, v.et)]))))
            return r
        x, y, z = [z3.Int(ex.freshname('pos')) for _ in range(3)]; ex._fact(z3.And(inr(x), inr(y), inr(z)))
        lt = lambda u, w: less(S(old, u), S(old, w))
        ex.check('the comparison is a strict weak order', z3.And(z3.Not(lt(x, x)), z3.Implies(z3.And(lt(x, y), lt(y, z)), lt(x, z)), z3.Implies(z3.And(lt(x, z)), z3.Or(lt(x, y), lt(y, z)))))
        L = lt(x, y); L2 = lt(y, x); sub = lambda t, u, w: z3.substitute(t, (x, u), (y, w))
        ex._fact(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(P(i)), Q(P(i)) == i, S(new, i) == S(old, P(i)))), patterns=[S(new, i), P(i)]))
        ex._fact(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(Q(i)), P(Q(i)) == i)), patterns=[S(old, i), Q(i)]))
        keep = z3.Or(sub(L, P(i), P(j)), z3.And(z3.Not(sub(L, P(j), P(i))), P(i) < P(j))) if stable else z3.Not(sub(L, P(j), P(i)))
        ex._fact(z3.ForAll([i, j], z3.Implies(z3.And(inr(i), inr(j), i < j), keep), patterns=[z3.MultiPattern(P(i), P(j))]))
        ex.write(pl, Vec(v.et, v.n, new, tk=v.tk)); st['perm'] = (P, Q, stable); st['sortedarr'] = new
        return None
    return h


def whole(p):
    ctx = Ctx(p); ex = ctx.ex; f = main_fn(p); st = {}

    def comps(env):
        v = env.local('components'); v = v if v.items is None else ex.vec_sym(v); s = ex.sort(v.et); fs = [f['n'] for c, f in ctx.p.fields(v.et)]
        return v, (lambda i, n: s.accessor(0, fs.index(n))(z3.Select(v.arr, i)))

    def iv(env):
        if not env.has('c'): return None
        g = st['g']
        if env.has('orderedComponents'): return after(env, g)
        if env.has('components'): return None
        st.pop('perm', None)
        nm, sz, c, v = env.local('componentNumber'), env.local('componentSize'), i2z(env.local('c')), i2z(env.local('v'))
        i, k = z3.Ints('i k'); n1, s1 = g.nm(nm.arr), g.nm(sz.arr); S = z3.Select
        d = {'as many slots': z3.And(i2z(nm.n) == g.N, i2z(sz.n) == g.N, 0 <= c, c <= v, v <= g.N),
             'vertices visited have a number': z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < v), g.has(n1, i)), patterns=[S(n1, i)])}
        d.update(g.partition(n1, c)); d['sizes are the counts'] = g.counted(s1, n1)
        d['a number has a vertex visited'] = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < c), z3.Exists([k], z3.And(0 <= k, k < v, S(n1, k) == g.some(i)))), patterns=[g.some(i)])
        return d

    def after(env, g):
        i, j = z3.Ints('i j'); S = z3.Select; C, at = comps(env); c = i2z(env.local('c')); o = env.local('orderedComponents'); o = o if o.items is None else ex.vec_sym(o)
        sz, sz0 = env.local('componentSize'), env.local0('componentSize'); nm, nm0 = env.local('componentNumber'), env.local0('componentNumber')
        carr, oarr, sarr, narr = g.nm(C.arr), g.nm(o.arr), g.nm(sz.arr), g.nm(nm.arr)
        d = {}
        if 'perm' not in st:
            u = i2z(env.done.card()) if env.done is not None else i2z(env.local('i'))
            ix = ex.addr(Place(('v', env.key('components')), (('i', 0),))); ix = ex.to_term(ix, None, 'ref')
            d['built'] = z3.And(0 <= u, u <= c, i2z(C.n) == c, i2z(o.n) == u)
            d['elements'] = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < u), S(oarr, i) == Ref.elt(ix.arg(0), i, Ref.null)), patterns=[S(oarr, i)])
            d['element sizes'] = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < u), at(i, 'size') == S(sarr, i)), patterns=[S(carr, i), S(sarr, i)])
            return d
        P, Q, _ = st['perm']
        seq = env.seq.place.root[1] if env.seq is not None and env.seq.kind == 'vec' and env.seq.place.root[0] == 'v' else None
        if seq is None:
            u = i2z(env.local('i'))
            d['counter'] = z3.And(0 <= u, u <= c, i2z(C.n) == c)
            d['sizes'] = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < c), at(i, 'size') == S(sarr, i)), patterns=[S(carr, i), S(sarr, i)])
            d['ordered numbers'] = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < u), at(P(i), 'orderedNumber') == i), patterns=[P(i)])
        elif seq == env.key('orderedComponents'):
            d['sizes of the numbers'] = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < i2z(env.done.card())), S(sarr, i) == at(P(i), 'size')), patterns=[S(sarr, i), P(i)]); d['slots'] = i2z(sz.n) == c
        elif seq == env.key('componentNumber'):
            st['mid'] = nm0.arr; u = i2z(env.done.card()); n0 = g.nm(nm0.arr); d['slots'] = i2z(nm.n) == g.N
            d['renumbered'] = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < u), S(narr, i) == g.some(Q(g.val(n0, i)))), patterns=[S(narr, i)])
            d['not yet'] = z3.ForAll([i], z3.Implies(z3.And(u <= i, i < g.N), S(narr, i) == S(n0, i)), patterns=[S(narr, i)])
        else: return None
        return d

    def body(ex):
        for n in ('sort', 'stable_sort'): ex.hooks['std::' + n] = sorting(st, n == 'stable_sort')
        ctx.start(); g = st['g'] = Gr(ctx, symmetric=True); g.cnt_axioms(ex.sort(ex.elem(g.tk['num'])))
        ex.idhooks[dfs_fn(p).id] = contract(g, st); ex.loop_invs = {GU: iv}; ex.loc[('t', 'adj')] = g.adj
        a = [Place(('v', ('t', 'adj')))]
        ex.cover('any graph')
        r, th = outcome(lambda: ex.call_body(f.id, None, a, f.o['f']) if f.o.get('f') else ex.call_fn(f.id, None, a))
        ex.check('does not fail', th is None)
        if th is not None: return
        ex.o['goal_ms'] = 8000      # the fresh solver discharges what the incremental one does not
        for n in ('getComponentNumber', 'getComponentSize'): st[n] = rd(ex, ctx.call(r, n))
        nm, sz = [x if x.items is None else ex.vec_sym(x) for x in (st['getComponentNumber'], st['getComponentSize'])]
        na, sa = g.nm(nm.arr), g.nm(sz.arr); S = z3.Select; n = i2z(sz.n); P, Q, stable = st['perm']; mid = g.nm(st['mid'])
        i, j, k, d, e = [z3.Int('any ' + x) for x in ('vertex', 'other', 'position', 'number', 'higher')]; ex._fact(z3.And(0 <= i, i < g.N, 0 <= j, j < g.N, 0 <= d, d < e, e < n))
        ex.check('one slot per vertex', Eq(nm.n, g.N)); ex.check('every vertex has a number', z3.And(g.has(na, i), 0 <= g.val(na, i), g.val(na, i) < n))
        ex.check('neighbours have the same number', z3.Implies(z3.And(0 <= k, k < g.deg(i)), S(na, g.nb(i, k)) == S(na, i)))
        ex.check('the same number for vertices joined by a path only', z3.Implies(S(na, i) == S(na, j), REACH(i, j)))
        ex.check('numbers are in the order of decreasing size', S(sa, d) >= S(sa, e))
        x = z3.Int('x'); ex._fact(z3.Implies(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < g.N), (S(na, x) == g.some(d)) == (S(mid, x) == g.some(P(d))))), g.CNT(na, d) == g.CNT(mid, P(d))))
        ex.check('the size of a component is the number of its vertices', S(sa, d) == g.CNT(na, d))
        ex.check('components of the same size are numbered in order of discovery', z3.Implies(z3.And(S(sa, d) == S(sa, e), S(na, i) == g.some(e)), z3.Exists([x], z3.And(0 <= x, x < i, S(na, x) == g.some(d)))))
        ex.check('every number is the number of a vertex', z3.Exists([x], z3.And(0 <= x, x < g.N, S(na, x) == g.some(d))))
    ex.explore(body); return ex


CM = NS + 'AbstractComponentsManager'


def manager(ctx, cls):
    ex = ctx.ex; o = ex.symobj(cls, 'manager'); return o, ex.member(o, CM, 'm_components')


def link(cls):
    """the adjacency list gets one entry in each direction for a branch between two buses, none otherwise"""
    def run(p):
        ctx = Ctx(p); ex = ctx.ex; f = p.byq[CM + '::addToAdjacencyList'][0]; ps = f.o['ps']

        def body(ex):
            ctx.start(); o, cs = manager(ctx, cls); h0 = dict(ex.heap)
            b = [z3.Const('in:bus%d' % i, Ref) for i in (1, 2)]; ids = [z3.Const('in:id%d' % i, Str) for i in (1, 2)]
            # the identifier of a bus is an observer of the bus: by contract
            def getid(ex, this, a, e):
                r = this.root[1] if isinstance(this, Place) and this.isobj() else None
                if r is None: return NotImplemented
                x = ids[0] if ex.proves(r == b[0]) else ids[1] if ex.proves(r == b[1]) else None
                if x is None: return NotImplemented
                return x
            for c in [NS + 'Bus', NS + 'Identifiable'] + sorted(p.concrete_subs(NS + 'Bus')): ctx.hook_all(c + '::getId', getid)
            m = ex.sym(ex.strip(ps[2]['t']), 'id2num'); adj = ex.sym(ex.strip(ps[3]['t']), 'adjacency'); rs = ex.sort(adj.et); S = z3.Select
            ex._fact(z3.Implies(b[0] == b[1], ids[0] == ids[1])); num = [S(m.val, x) for x in ids]
            for x, n in zip(ids, num): ex._fact(z3.And(S(m.has, x), 0 <= n, n < i2z(adj.n)))
            for n in num: ex._fact(z3.And(rs.accessor(0, 0)(S(adj.arr, n)) >= 0, rs.accessor(0, 0)(S(adj.arr, n)) < (1 << 40)))
            ex.loc[('t', 'm')] = m; ex.loc[('t', 'adj')] = adj; P = lambda n: Place(('v', ('t', n)))
            for i in (0, 1): ex.loc[('t', 'b%d' % i)] = b[i]
            r, th = outcome(lambda: ex.call_fn(f.id, o, [P('b0'), P('b1'), P('m'), P('adj')]))
            ex.check('does not fail', th is None)
            if th is not None: return
            a1 = rd(ex, P('adj')); L = lambda a, v: rs.accessor(0, 0)(S(a, v)); at = lambda a, v, k: S(rs.accessor(0, 1)(S(a, v)), k); v, k = z3.Int('any vertex'), z3.Int('any position')
            both = z3.And(b[0] != Ref.null, b[1] != Ref.null); a0, an = adj.arr, a1.arr; ex._fact(z3.And(0 <= v, v < i2z(adj.n), 0 <= k))
            hit = lambda w: z3.If(z3.And(both, v == w), 1, 0)
            ex.check('one entry more for each end of the branch', Eq(L(an, v), L(a0, v) + hit(num[0]) + hit(num[1])))
            ex.check('earlier entries are kept', z3.Implies(k < L(a0, v), at(an, v, k) == at(a0, v, k)))
            ex.check('the new entry of an end is the other end', z3.Implies(both, z3.And(at(an, num[0], L(a0, num[0])) == num[1], at(an, num[1], L(an, num[1]) - 1) == num[0])))
            ex.check('as many vertices', Eq(a1.n, adj.n)); ex.check('nothing else changes', unchanged(ex, h0))
        ex.explore(body); return ex
    return run


def component(cls):
    def run(p):
        ctx = Ctx(p); ex = ctx.ex

        def body(ex):
            ctx.start(); o, cs = manager(ctx, cls); h0 = dict(ex.heap); v = ex.read(cs); f = p.byq[CM + '::getComponent'][0]
            num = ex.sym(ex.strip(f.o['ps'][0]['t']), 'number'); ex._fact(z3.Implies(b2z(num.has), z3.And(0 <= i2z(num.v), i2z(num.v) < i2z(v.n), z3.Select(v.arr, i2z(num.v)) != Ref.null)))
            ex.loc[('t', 'n')] = num
            r, th = outcome(lambda: ex.call_fn(f.id, o, [Place(('v', ('t', 'n')))])); ex.check('does not fail', th is None)
            if th is not None: return
            r = rd(ex, r); r = ex.addr(r) if isinstance(r, Place) else r
            ex.check('the component with that number, none without number', r == z3.If(b2z(num.has), z3.Select(v.arr, i2z(num.v)), Ref.null)); ex.check('nothing changes', unchanged(ex, h0))
        ex.explore(body); return ex
    return run


def reset(cls):
    def run(p):
        ctx = Ctx(p); ex = ctx.ex

        def body(ex):
            ctx.start(); o, cs = manager(ctx, cls); f = p.byq[CM + '::invalidate'][0]
            r, th = outcome(lambda: ex.call_fn(f.id, o, [])); ex.check('does not fail', th is None); ex.check('no component is kept', Eq(ex.read(cs).n, 0))
        ex.explore(body); return ex
    return run


def kept(cls):
    def run(p):
        ctx = Ctx(p); ex = ctx.ex

        def body(ex):
            ctx.start(); o, cs = manager(ctx, cls); f = p.byq[CM + '::update'][0]; h0 = dict(ex.heap); ex._fact(i2z(ex.read(cs).n) > 0)
            r, th = outcome(lambda: ex.call_fn(f.id, o, [])); ex.check('does not fail', th is None); ex.check('components computed before are kept', unchanged(ex, h0))
        ex.explore(body); return ex
    return run


def goals(p, tier):
    return [Goal('GraphUtil::computeConnectedComponents', whole), Goal('GraphUtil: numbering from one vertex', dfs)] + [Goal('%s %s' % (c.rsplit('::', 1)[-1], n), f(c)) for c in sorted(p.concrete_subs(CM)) for n, f in (('addToAdjacencyList', link), ('getComponent', component), ('invalidate', reset), ('update of computed components', kept))]
