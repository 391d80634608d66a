"""G01: graph add / remove / lookup keep vertices, edges and the adjacency cache consistent."""
import prog, lib, loops, z3
from check import Goal
from contract import *
from vals import *
from N01 import outcome, unchanged

GLOBS = prog.CORE
DRIVER = 'G01'
GR = 'powsybl::math::UndirectedGraph<'
I = lambda n: z3.Int('any ' + n)
BIG = 1 << 31


def graphs(p): return sorted(k for k in p.recs if k.startswith(GR) and k.endswith('>'))


def rd(ex, v): return ex.read(v) if isinstance(v, Place) and not v.isobj() else v


def isnull(x): return x == Ref.null


class G:
    """the state of a graph"""
    def __init__(self, ctx, o, cls):
        ex = self.ex = ctx.ex
        F = {f['n']: (k, f) for k, f in ctx.p.fields(cls)}
        try: g = {n: ex.read(ex.member(o, F[n][0], n)) for n in ('m_vertices', 'm_edges', 'm_availableVertices', 'm_removedEdges', 'm_adjacencyList')}
        except KeyError as e: raise Unsup('field of the graph: %s' % e)
        self.V, self.E, self.av, self.re, self.adj = self.vec(g['m_vertices']), self.vec(g['m_edges']), g['m_availableVertices'], g['m_removedEdges'], g['m_adjacencyList']
        self.heap = dict.fromkeys(('m_vertex1', 'm_vertex2', 'm_object'))
        for n in self.heap:
            ex.flush('%s::Edge::%s' % (cls, n)); self.heap[n] = ex.harr('%s::Edge::%s' % (cls, n))
        ex.flush(cls + '::Vertex::m_object'); self.vobj = ex.harr(cls + '::Vertex::m_object')

    def vec(self, v):
        if v.items is not None: v = self.ex.sym_vec(v) if hasattr(self.ex, 'sym_vec') else to_arr(self.ex, v)
        return v

    def slot(self, v, i): return z3.Select(v.arr, i)
    def vx(self, i): return z3.And(0 <= i, i < i2z(self.V.n), self.slot(self.V, i) != Ref.null)
    def egx(self, i): return z3.And(0 <= i, i < i2z(self.E.n), self.slot(self.E, i) != Ref.null)
    def end(self, k, i): return z3.Select(self.heap['m_vertex%d' % k], self.slot(self.E, i))
    def eobj(self, i): return z3.Select(self.heap['m_object'], self.slot(self.E, i))
    def vob(self, i): return z3.Select(self.vobj, self.slot(self.V, i))
    def nv(self): return i2z(self.V.n) - i2z(self.av.n)
    def ne(self): return i2z(self.E.n) - i2z(self.re.n)
    def incident(self, e, v): return z3.And(self.egx(e), z3.Or(self.end(1, e) == v, self.end(2, e) == v))

    def inv(self, at=None):
        """the consistency of the graph, for every slot (or at one given slot)"""
        i = z3.Int('i') if at is None else at; S = z3.Select

        def al(body, pat):
            if at is not None: return body
            return z3.ForAll([i], body, patterns=[pat]) if z3.is_const(pat.arg(0)) or pat.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED else z3.ForAll([i], body)
        return [('missing vertices are listed as available', al(S(self.av.has, i) == z3.And(0 <= i, i < i2z(self.V.n), isnull(S(self.V.arr, i))), S(self.av.has, i))),
                ('missing vertices are listed', al(z3.Implies(z3.And(0 <= i, i < i2z(self.V.n)), isnull(S(self.V.arr, i)) == S(self.av.has, i)), S(self.V.arr, i))),
                ('removed edges are listed', al(S(self.re.has, i) == z3.And(0 <= i, i < i2z(self.E.n), isnull(S(self.E.arr, i))), S(self.re.has, i))),
                ('missing edges are listed', al(z3.Implies(z3.And(0 <= i, i < i2z(self.E.n)), isnull(S(self.E.arr, i)) == S(self.re.has, i)), S(self.E.arr, i))),
                ('the ends of every edge exist', al(z3.Implies(self.egx(i), z3.And(self.vx(self.end(1, i)), self.vx(self.end(2, i)))), S(self.E.arr, i)))]

    def typed(self):
        """ownership: the slots hold distinct objects allocated before"""
        i, j = z3.Ints('i j'); S = z3.Select; r = []
        for a in (self.V.arr, self.E.arr):
            r.append(z3.ForAll([i], z3.Or(isnull(S(a, i)), z3.And(Ref.is_obj(S(a, i)), Ref.oid(S(a, i)) < 0)), patterns=[S(a, i)]))
            r.append(z3.ForAll([i, j], z3.Implies(z3.And(i != j, S(a, i) != Ref.null), S(a, i) != S(a, j)), patterns=[z3.MultiPattern(S(a, i), S(a, j))]))
        r.append(z3.ForAll([i, j], z3.Implies(S(self.V.arr, i) != Ref.null, S(self.V.arr, i) != S(self.E.arr, j)), patterns=[z3.MultiPattern(S(self.V.arr, i), S(self.E.arr, j))]))
        return r


def to_arr(ex, v):
    a = z3.K(z3.IntSort(), Ref.null)
    for i, x in enumerate(v.items): a = z3.Store(a, i, ex.to_term(x, v.et))
    return Vec(v.et, len(v.items), a, tk=v.tk)


def setup(ctx, cls):
    ex = ctx.ex; o = ex.symobj(cls, 'graph'); g = G(ctx, o, cls)
    for c in g.typed(): ex._fact(c)
    for v in (g.V, g.E): ex._fact(z3.And(i2z(v.n) >= 0, i2z(v.n) < BIG))
    for l, c in g.inv(): ex.assume(c)
    for s, v in ((g.av, g.V), (g.re, g.E)): ex._fact(z3.And(i2z(s.n) >= 0, i2z(s.n) <= i2z(v.n)))
    return o, g


def fn(p, cls, n, k=None):
    fs = [f for f in p.byq.get(cls + '::' + n, []) if k is None or len(f.o['ps']) == k]
    if not fs: raise Unsup('no body of ' + n)
    return fs[0]


def call(ex, f, o, *a): return rd(ex, ex.call_body(f.id, o, list(a), f.o['f']) if f.o.get('f') else ex.call_fn(f.id, o, list(a)))


def num(ex, n):
    v = z3.Int('in:' + n); ex._fact(z3.And(v >= 0, v < (1 << 64))); return v


def same_vertices(ex, g, k, but=None):
    i = I('vertex'); c = z3.And(k.vx(i) == g.vx(i), z3.Implies(g.vx(i), k.vob(i) == g.vob(i)))
    ex.check('other vertices are unchanged' if but is not None else 'vertices are unchanged', z3.Implies(i != but, c) if but is not None else c)


def same_edges(ex, g, k, but=None):
    i = I('edge'); c = z3.And(k.egx(i) == g.egx(i), z3.Implies(g.egx(i), z3.And(k.end(1, i) == g.end(1, i), k.end(2, i) == g.end(2, i), k.eobj(i) == g.eobj(i))))
    ex.check('other edges are unchanged' if but is not None else 'edges are unchanged', z3.Implies(i != but, c) if but is not None else c)


def after(ctx, cls, o, g, changed=True):
    ex = ctx.ex; k = G(ctx, o, cls)
    for l, c in k.inv(I('slot')): ex.check('consistent afterwards: ' + l, c)
    if changed: ex.check('the adjacency lists are recomputed', Eq(k.adj.n, 0))
    return k


def goal(body):
    def mk(cls):
        def go(p):
            ctx = Ctx(p); ex = ctx.ex

            def run(ex):
                ctx.start(); ex.cover('any graph'); body(p, ctx, ex, cls)
            ex.explore(run); return ex
        return go
    return mk


def arg(ex, n, v):
    ex.loc[('t', n)] = v; return Place(('v', ('t', n)))


@goal
def add_edge(p, ctx, ex, cls):
    o, g = setup(ctx, cls); a, b = num(ex, 'v1'), num(ex, 'v2'); f = fn(p, cls, 'addEdge'); x = z3.Const('in:object', Ref)
    h0 = dict(ex.heap)
    e, th = outcome(lambda: call(ex, f, o, a, b, arg(ex, 'object', x)))
    ex.check('fails exactly for a missing vertex', Eq(th is None, z3.And(g.vx(a), g.vx(b))), str(th))
    if th is not None: ex.check('a failed call changes nothing', unchanged(ex, h0)); return
    k = after(ctx, cls, o, g); e = i2z(e)
    ex.check('the identifier was not in use', z3.Not(g.egx(e)))
    ex.check('the edge exists', k.egx(e)); ex.check('the edge is between its vertices', z3.And(k.end(1, e) == a, k.end(2, e) == b)); ex.check('the edge has its object', k.eobj(e) == x)
    same_edges(ex, g, k, e); same_vertices(ex, g, k); ex.check('one more edge', z3.And(k.ne() == g.ne() + 1, k.nv() == g.nv()))


@goal
def add_vertex(p, ctx, ex, cls):
    o, g = setup(ctx, cls)
    v, th = outcome(lambda: call(ex, fn(p, cls, 'addVertex'), o)); ex.check('does not fail', th is None, str(th))
    if th is not None: return
    k = after(ctx, cls, o, g); v = i2z(v)
    ex.check('the identifier was not in use', z3.Not(g.vx(v))); ex.check('the vertex exists and has no object', z3.And(k.vx(v), isnull(k.vob(v))))
    same_vertices(ex, g, k, v); same_edges(ex, g, k); ex.check('one more vertex', z3.And(k.nv() == g.nv() + 1, k.ne() == g.ne()))


@goal
def add_if(p, ctx, ex, cls):
    o, g = setup(ctx, cls); v = num(ex, 'v'); ex._fact(v < BIG)
    r, th = outcome(lambda: call(ex, fn(p, cls, 'addVertexIfNotPresent'), o, v)); ex.check('does not fail', th is None, str(th))
    if th is not None: return
    k = after(ctx, cls, o, g)
    ex.check('the vertex exists', k.vx(v)); ex.check('a new vertex has no object, a present one keeps it', k.vob(v) == z3.If(g.vx(v), g.vob(v), Ref.null))
    same_vertices(ex, g, k, v); same_edges(ex, g, k); ex.check('one more vertex unless it was present', z3.And(k.nv() == g.nv() + z3.If(g.vx(v), 0, 1), k.ne() == g.ne()))


@goal
def remove_edge(p, ctx, ex, cls):
    o, g = setup(ctx, cls); e = num(ex, 'e'); h0 = dict(ex.heap)
    r, th = outcome(lambda: call(ex, fn(p, cls, 'removeEdge'), o, e))
    ex.check('fails exactly for a missing edge', Eq(th is None, g.egx(e)), str(th))
    if th is not None: ex.check('a failed call changes nothing', unchanged(ex, h0)); return
    k = after(ctx, cls, o, g)
    ex.check('the object of the edge is returned', Eq(ex.addr(r) if isinstance(r, Place) else r, g.eobj(e))); ex.check('the edge is gone', z3.Not(k.egx(e)))
    same_edges(ex, g, k, e); same_vertices(ex, g, k); ex.check('one edge less', z3.And(k.ne() == g.ne() - 1, k.nv() == g.nv()))


def clean(ctx, cls, st):
    """loop of cleanVertices: the vertices dropped from the end are missing ones, nothing else changes"""
    def iv(env):
        ex = ctx.ex; g, o = st['g'], st['o']; k = G(ctx, o, cls); i = z3.Int('i'); S = z3.Select
        ints = [n for n in env.names if env.has(n) and ex.kind(ex.strip(env.types.get(env.names[n][0], 'void'))) == 'int']
        par = [q['id'] for q in st['f'].o['ps']]; c = [n for n in ints if env.names[n][0] not in par]
        if len(c) != 1: return None
        j = i2z(env.local(c[0])); n, m = i2z(k.V.n), st['n']
        d = {l: q for l, q in k.inv()[:2]}
        d['progress'] = z3.And(j >= 0, n + j == m, n >= 0)
        d['slots kept'] = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), S(k.V.arr, i) == S(g.V.arr, i)), patterns=[S(g.V.arr, i)])
        d['slots dropped were missing'] = z3.ForAll([i], z3.Implies(z3.And(n <= i, i < m), isnull(S(g.V.arr, i))), patterns=[S(g.V.arr, i)])
        d['vertex count'] = k.nv() == st['nv']
        return d
    return iv


@goal
def remove_vertex(p, ctx, ex, cls):
    o, g = setup(ctx, cls); v = num(ex, 'v'); h0 = dict(ex.heap); j = I('edge')
    st = dict(g=g, o=o, f=fn(p, cls, 'cleanVertices'), n=i2z(g.V.n) - 1, nv=g.nv() - 1)
    ex.loop_invs = {cls + '::cleanVertices': clean(ctx, cls, st)}
    r, th = outcome(lambda: call(ex, fn(p, cls, 'removeVertex'), o, v))
    if th is not None:
        i = z3.Int('i'); ex.check('fails only for a missing vertex or one with an edge', z3.Or(z3.Not(g.vx(v)), z3.Exists([i], g.incident(i, v))), str(th))
        ex.check('a failed call changes nothing', unchanged(ex, h0)); return
    ex.check('a missing vertex is rejected', g.vx(v)); ex.check('a vertex with an edge is rejected', z3.Not(g.incident(j, v)))
    k = after(ctx, cls, o, g)
    ex.check('the object of the vertex is returned', Eq(ex.addr(r) if isinstance(r, Place) else r, g.vob(v))); ex.check('the vertex is gone', z3.Not(k.vx(v)))
    same_vertices(ex, g, k, v); same_edges(ex, g, k); ex.check('one vertex less', z3.And(k.nv() == g.nv() - 1, k.ne() == g.ne()))


@goal
def remove_all_edges(p, ctx, ex, cls):
    o, g = setup(ctx, cls); r, th = outcome(lambda: call(ex, fn(p, cls, 'removeAllEdges'), o)); ex.check('does not fail', th is None)
    if th is not None: return
    k = after(ctx, cls, o, g); ex.check('no edge', z3.And(z3.Not(k.egx(I('edge'))), k.ne() == 0)); same_vertices(ex, g, k); ex.check('as many vertices', k.nv() == g.nv())


@goal
def remove_all_vertices(p, ctx, ex, cls):
    o, g = setup(ctx, cls); h0 = dict(ex.heap); r, th = outcome(lambda: call(ex, fn(p, cls, 'removeAllVertices'), o))
    if th is not None: ex.check('a failed call changes nothing', unchanged(ex, h0)); ex.check('does not fail on a graph that never had an edge', i2z(g.E.n) > 0); return
    ex.check('fails while there is an edge', z3.Not(g.egx(I('edge'))))
    k = after(ctx, cls, o, g); ex.check('no vertex', z3.And(z3.Not(k.vx(I('vertex'))), k.nv() == 0)); ex.check('no edge', k.ne() == g.ne())


@goal
def set_object(p, ctx, ex, cls):
    o, g = setup(ctx, cls); v = num(ex, 'v'); x = z3.Const('in:object', Ref); h0 = dict(ex.heap)
    r, th = outcome(lambda: call(ex, fn(p, cls, 'setVertexObject'), o, v, arg(ex, 'object', x)))
    ex.check('fails exactly for a missing vertex', Eq(th is None, g.vx(v)), str(th))
    if th is not None: ex.check('a failed call changes nothing', unchanged(ex, h0)); return
    k = after(ctx, cls, o, g, changed=False); ex.check('the object is stored', k.vob(v) == x); same_vertices(ex, g, k, v); same_edges(ex, g, k)


def observer(n):
    @goal
    def body(p, ctx, ex, cls):
        o, g = setup(ctx, cls); a = num(ex, 'x'); h0 = dict(ex.heap); f = fn(p, cls, n); ar = [a] * len(f.o['ps'])
        r, th = outcome(lambda: call(ex, f, o, *ar)); r = ex.addr(r) if isinstance(r, Place) else r
        ok = {'getVertex1': g.egx(a), 'getVertex2': g.egx(a), 'getEdgeObject': g.egx(a), 'getVertexObject': g.vx(a)}.get(n)
        ex.check('fails exactly for a missing element' if ok is not None else 'does not fail', Eq(th is None, ok) if ok is not None else th is None, str(th))
        ex.check('nothing changes', unchanged(ex, h0))
        if th is not None: return
        want = {'getVertex1': lambda: g.end(1, a), 'getVertex2': lambda: g.end(2, a), 'getEdgeObject': lambda: g.eobj(a), 'getVertexObject': lambda: g.vob(a), 'getEdgeCount': g.ne, 'getVertexCount': g.nv,
                'getVertexCapacity': lambda: i2z(g.V.n), 'getMaxVertex': lambda: i2z(g.V.n)}
        if n == 'vertexExists': ex.check('exactly the vertices of the graph exist', Eq(ex.tobool(r), g.vx(a)))
        else: ex.check('the value of the graph', Eq(r, want[n]()))
    return body


def listing(n, const=None):
    @goal
    def body(p, ctx, ex, cls):
        o, g = setup(ctx, cls); f = [f for f in p.byq.get(cls + '::' + n, []) if not f.o['ps'] and f.o['const'] == const]
        if not f: raise Unsup('no body of ' + n)
        r = ex.call_body(f[0].id, o, [], f[0].o['f']) if f[0].o.get('f') else ex.call_fn(f[0].id, o, [])
        q = loops.as_seq(ex, r); i = z3.Int('i')
        edge = 'Edge' in n; vec, there = (g.E, g.egx) if edge else (g.V, g.vx)
        ex._fact(z3.And(0 <= i, i < i2z(vec.n)))
        if n in ('getEdges', 'getVertices'):
            if q.kind != 'count': raise Unsup('enumeration as ' + q.kind)
            ex.check('one pass over all the identifiers', z3.And(i2z(q.lo) == 0, i2z(q.n) == i2z(vec.n))); el = i
        else:
            if q.kind != 'vec': raise Unsup('enumeration as ' + q.kind)
            v = ex.read(q.place); v = to_arr(ex, v) if v.items is not None else v
            ex.check('one pass over all the slots', z3.And(Eq(v.n, vec.n), z3.Select(v.arr, i) == z3.Select(vec.arr, i))); el = q.place.sub(('i', i))
        keep, y = loops.apply_ads(ex, el, q.ads)
        ex.check('exactly the elements present are listed', Eq(ex.tobool(keep), there(i)))
        if keep is False: return
        y = rd(ex, y); y = ex.addr(y) if isinstance(y, Place) else y
        ex.check('the element itself', Eq(y, i if n in ('getEdges', 'getVertices') else g.eobj(i) if edge else g.vob(i)))
    return body


def goals(p, tier):
    out = []
    for c in graphs(p):
        sh = c.split('<', 1)[1].split(',')[0].rsplit('::', 1)[-1]
        for n, f in (('addEdge', add_edge), ('addVertex', add_vertex), ('addVertexIfNotPresent', add_if), ('removeEdge', remove_edge), ('removeVertex', remove_vertex), ('removeAllEdges', remove_all_edges),
                     ('removeAllVertices', remove_all_vertices), ('setVertexObject', set_object)): out.append(Goal('Graph<%s>::%s' % (sh, n), f(c)))
        for n in ('getVertex1', 'getVertex2', 'getEdgeObject', 'getVertexObject', 'getEdgeCount', 'getVertexCount', 'getVertexCapacity', 'getMaxVertex', 'vertexExists'): out.append(Goal('Graph<%s>::%s' % (sh, n), observer(n)(c)))
        for n in ('getEdges', 'getVertices', 'getEdgeObjects', 'getVertexObjects'):
            for k in (True, False):
                if any(not f.o['ps'] and f.o['const'] == k for f in p.byq.get(c + '::' + n, [])): out.append(Goal('Graph<%s>::%s%s' % (sh, n, ' const' if k else ''), listing(n, k)(c)))
    return out
