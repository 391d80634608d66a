"""I01: ids and aliases identify at most one object; lookups, registration and removal are consistent."""
import prog, attrs, lib, z3
from check import Goal
from contract import *
from vals import *

GLOBS = prog.CORE
DRIVER = 'I01'
NI, ID = NS + 'NetworkIndex', NS + 'Identifiable'
IDOF = z3.Function('uf:id', Ref, Str)


def outcome(fn):
    try: return fn(), None
    except CppThrow as t: return None, t


class Index:
    """the three tables of an index: by id, by type, id by alias (identified by their types)"""
    def __init__(self, ctx, o):
        self.ctx, self.ex, self.o = ctx, ctx.ex, o
        self.f = {}
        for k, f in ctx.p.fields(NI):
            if ctx.ex.kind(f['t']) != 'map': continue
            t = ctx.ex.T(ctx.ex.strip(f['t'])); v = ctx.ex.kind(t['a'][1])
            self.f[{'ptr': 'by', 'str': 'al', 'vec': 'ty'}[v]] = k + '::' + f['n']
        if set(self.f) != {'by', 'al', 'ty'}: raise Unsup('tables of the index: %s' % self.f)
        self.load()

    def load(self):
        ex = self.ex
        for n, f in self.f.items():
            pl = Place(self.o.root, self.o.path + (('f', f),)); setattr(self, n, ex.read(pl)); setattr(self, 'p' + n, pl)
        return self

    def byhas(self, s): return z3.Select(self.by.has, s)
    def byval(self, s): return z3.Select(self.by.val, s)
    def alhas(self, s): return z3.Select(self.al.has, s)
    def alval(self, s): return z3.Select(self.al.val, s)

    def resolved(self, s): return z3.If(self.alhas(s), self.alval(s), s)
    def lookup(self, s):
        r = self.resolved(s); return z3.If(self.byhas(r), self.byval(r), Ref.null)

    def inv(self, pat=False):
        """every entry is an object under its own id; every alias leads to an entry and is nobody's id"""
        s = z3.Const('sq', Str)
        return [('entries are objects under their own id', z3.ForAll([s], z3.Implies(self.byhas(s), z3.And(self.byval(s) != Ref.null, IDOF(self.byval(s)) == s, s != lit(''))), patterns=[self.byhas(s)] if pat else [])),
                ('aliases lead to registered objects and are nobody\'s id', z3.ForAll([s], z3.Implies(self.alhas(s), z3.And(self.byhas(self.alval(s)), z3.Not(self.byhas(s)))), patterns=[self.alhas(s)] if pat else []))]

    def same(self, o, but=()):
        r = []
        for n in ('by', 'al'):
            if n in but: continue
            a, b = getattr(self, n), getattr(o, n); s = z3.Const('sq', Str)
            r.append(z3.ForAll([s], z3.And(z3.Select(a.has, s) == z3.Select(b.has, s), z3.Implies(z3.Select(a.has, s), z3.Select(a.val, s) == z3.Select(b.val, s)))))
            r.append(b2z(Eq(a.n, b.n)))
        return And(*r)


def setup(ctx):
    ex = ctx.ex
    ctx.hook_all(ID + '::getId', lambda ex, this, a, e: IDOF(this.root[1]) if this is not None and this.isobj() else NotImplemented)
    o = ex.symobj(NI, 'index')
    ix = Index(ctx, o)
    for n, c in ix.inv(True): ex._fact(c)
    return o, ix


import re


def insts(p, name, const=None):
    """instances of a member template of the index: (type argument, function)"""
    out = []
    for f in p.byq.get(NI + '::' + name, []):
        m = re.search(name + r'INS0_(\d+)', f.id)
        if not m or (const is not None and f.o['const'] != const): continue
        t = f.id[m.end():m.end() + int(m.group(1))]
        out.append((NS + t, f))
    return sorted(out, key=lambda x: x[1].id)


def run(ex, f, o, *args):
    def go():
        r = ex.call_body(f.id, o, list(args), f.o['f'])
        return r
    return outcome(go)


def strarg(ex, n):
    s = z3.Const('in:' + n, Str); key = ('t', n); ex.loc[key] = s
    return s, Place(('v', key))


def refval(ex, v):
    if isinstance(v, Place) and v.isobj(): return v.root[1]
    if isinstance(v, Place): v = ex.read(v)
    return v.root[1] if isinstance(v, Place) else v


def unchanged(ex, h0):
    return all(a.eq(h0.get(k, a)) for k, a in ex.heap.items())


def lookup(name, t, f):
    def go(p):
        ctx = Ctx(p); ex = ctx.ex

        def body(ex):
            ctx.start(); o, ix = setup(ctx)
            s, arg = strarg(ex, 's')
            h0 = dict(ex.heap)
            want = ix.lookup(s)
            if t != ID: isit = ex.isa(want, t)
            else: isit = True
            ok = And(want != Ref.null, isit)
            ex.cover('lookup of any string')
            r, th = run(ex, f, o, arg)
            ex.check('the index is unchanged', unchanged(ex, h0))
            if name == 'find':
                ex.check('fails only for the empty string', Or(th is None, And(Eq(s, lit('')), Not(ix.alhas(s)))), str(th))
                if th is None: ex.check('the object registered under the id or alias when it has the type asked for, none otherwise', Eq(refval(ex, r), z3.If(b2z(ok), want, Ref.null)))
            else:
                ex.check('succeeds exactly when an object of the type is registered under the id or alias', Eq(th is None, ok), str(th))
                if th is None: ex.check('the object registered under the id or alias', Eq(refval(ex, r), want))
        ex.explore(body); return ex
    return go


def goals(p, tier):
    G = []
    for name in ('find', 'get'):
        for t, f in insts(p, name):
            G.append(Goal('NetworkIndex::%s<%s>%s' % (name, t.replace(NS, ''), ' const' if f.o['const'] else ''), lookup(name, t, f)))
    return G


# ------------------------------------------------------------------ registration
def tyname(r): return TYPENAME(TYPEOF(r))


def typ(ex, ix, name):
    """(present, vector) of the objects of a type"""
    k = ex.to_term(name, ix.ty.kt)
    return z3.Select(ix.ty.has, k), ex.from_term(z3.Select(ix.ty.val, k), ix.ty.vt)


def sym(ctx, cls, name):
    ex = ctx.ex
    return ex.symobj(cls, name)


def addalias(p):
    ctx = Ctx(p); ex = ctx.ex
    f, = p.byq[NI + '::addAlias']

    def body(ex):
        ctx.start(); o, ix = setup(ctx)
        ob = sym(ctx, NS + 'Load', 'object'); me = ob.root[1]; i = IDOF(me)
        s, arg = strarg(ex, 's'); h0 = dict(ex.heap)
        LK = ix.lookup(s)
        ex.cover('any object, any alias')
        # the object is registered (aliases are added to objects of the network)
        ex.assume(And(ix.byhas(i), ix.byval(i) == me))
        r, th = run(ex, f, o, ob, arg)
        o2 = Index(ctx, o)
        if th is not None:
            ex.check('rejected only when the alias already identifies another object', And(LK != Ref.null, LK != me), str(th))
            ex.check('a rejected alias changes nothing', ix.same(o2)); return
        ex.check('accepted only when the alias identifies no other object', Or(LK == Ref.null, LK == me))
        ex.check('new exactly when the alias identified nothing', Eq(ex.tobool(r), LK == Ref.null))
        t = z3.Const('any string', Str)
        ex.check('ids unchanged', ix.same(o2, ('al',)))
        ex.check('after it the alias identifies the object', o2.lookup(s) == me)
        ex.check('every other string identifies what it did', Implies(t != s, o2.lookup(t) == ix.lookup(t)))
        for n, c in o2.inv(): ex.check('still: ' + n, c)
    ex.explore(body); return ex


def removealias(p):
    ctx = Ctx(p); ex = ctx.ex
    f, = p.byq[NI + '::removeAlias']

    def body(ex):
        ctx.start(); o, ix = setup(ctx)
        ob = sym(ctx, NS + 'Load', 'object'); me = ob.root[1]; i = IDOF(me)
        s, arg = strarg(ex, 's'); h0 = dict(ex.heap)
        ex.cover('any object, any alias')
        ex.assume(And(ix.byhas(i), ix.byval(i) == me))
        r, th = run(ex, f, o, ob, arg)
        o2 = Index(ctx, o)
        ok = And(ix.alhas(s), ix.alval(s) == i)
        ex.check('succeeds exactly for an alias of the object', Eq(th is None, ok), str(th))
        if th is not None:
            ex.check('a rejected removal changes nothing', ix.same(o2)); return
        t = z3.Const('any string', Str)
        ex.check('ids unchanged', ix.same(o2, ('al',)))
        ex.check('after it the alias identifies nothing', o2.lookup(s) == Ref.null)
        ex.check('every other string identifies what it did', Implies(t != s, o2.lookup(t) == ix.lookup(t)))
        for n, c in o2.inv(): ex.check('still: ' + n, c)
    ex.explore(body); return ex


def add(t, f):
    def go(p):
        ctx = Ctx(p); ex = ctx.ex

        def body(ex):
            ctx.start(); o, ix = setup(ctx)
            ob = sym(ctx, t, 'object'); me = ob.root[1]; i = IDOF(me)
            ctx.hook_all(ID + '::getAliases', lambda ex, this, a, e: Vec('std::string', items=[]))
            key = ('t', 'arg'); ex.loc[key] = me; arg = Place(('v', key))
            h0 = dict(ex.heap)
            ex.cover('any object not registered yet')
            # the adders check that the id is free, also as an alias (A02)
            ex.assume(Not(ix.alhas(i)))
            ex.assume(TYPEOF(me) == clsid(t))
            r, th = run(ex, f, o, arg)
            o2 = Index(ctx, o)
            ok = And(i != lit(''), Not(ix.byhas(i)))
            ex.check('succeeds exactly for a free, non-empty id', Eq(th is None, ok), str(th))
            if th is not None:
                ex.check('a rejected object leaves the index as it was', unchanged(ex, h0)); return
            u = z3.Const('any string', Str)
            ex.check('returns the object', Eq(refval(ex, r), me))
            ex.check('after it the id identifies the object', o2.lookup(i) == me)
            ex.check('every other string identifies what it did', Implies(u != i, o2.lookup(u) == ix.lookup(u)))
            ex.check('aliases unchanged', ix.same(o2, ('by',)))
            ex.check('one more object', Eq(o2.by.n, ix.by.n + 1))
            for n, c in o2.inv(): ex.check('still: ' + n, c)
            tn = lit('type:' + t)
            h, v = typ(ex, ix, tn); h2, v2 = typ(ex, o2, tn); j = z3.Int('any position')
            n = z3.If(b2z(h), i2z(v.n), 0)
            ex.check('listed once more among the objects of its type', And(h2, Eq(v2.n, n + 1), ex.from_term(z3.Select(v2.arr, n), ex.elem(ix.ty.vt)) == me))
            ex.check('the other objects of its type keep their places', Implies(And(0 <= j, j < n), z3.Select(v2.arr, j) == z3.Select(v.arr, j)))
            un = z3.Const('any type', z3.StringSort()) if 0 else z3.Const('any type', Str)
            ex.check('the objects of every other type are listed as before', Implies(un != tn, And(z3.Select(o2.ty.has, un) == z3.Select(ix.ty.has, un), z3.Select(o2.ty.val, un) == z3.Select(ix.ty.val, un))))
        ex.explore(body); return ex
    return go


def remove(t, f):
    def go(p):
        ctx = Ctx(p); ex = ctx.ex

        def body(ex):
            ctx.start(); o, ix = setup(ctx)
            ob = sym(ctx, t, 'object'); me = ob.root[1]; i = IDOF(me)
            n = z3.Int('in:aliases'); arr = z3.Const('in:aliaslist', z3.ArraySort(z3.IntSort(), Str))
            ex._fact(0 <= n)
            j = z3.Int('jq'); s = z3.Const('sq', Str); ALP = z3.Function('alpos', Str, z3.IntSort())
            # the aliases of the object are exactly the entries that lead to its id (link established by addAlias / removeAlias of Identifiable)
            ex._fact(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(ix.alhas(arr[j]), ix.alval(arr[j]) == i)), patterns=[arr[j]]))
            ex._fact(z3.ForAll([s], z3.Implies(z3.And(ix.alhas(s), ix.alval(s) == i), z3.And(0 <= ALP(s), ALP(s) < n, arr[ALP(s)] == s)), patterns=[ix.alval(s)]))
            ctx.hook_all(ID + '::getAliases', lambda ex, this, a, e: Vec('std::string', n=n, arr=arr))
            tn = tyname(me)
            POS = z3.Function('pos', Ref, z3.IntSort())
            h, v = typ(ex, ix, tn)
            reg = And(ix.byhas(i), ix.byval(i) == me)
            at = lambda q, k: ex.from_term(z3.Select(q.arr, k), ex.elem(ix.ty.vt))
            ex._fact(v.n >= 0)
            ex._fact(Implies(reg, And(h, 0 <= POS(me), POS(me) < v.n, at(v, POS(me)) == me)))
            ex._fact(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i2z(v.n)), z3.And(POS(z3.Select(v.arr, j)) == j, z3.Select(v.arr, j) != Ref.null)), patterns=[z3.Select(v.arr, j)]))
            h0 = dict(ex.heap)
            ex.cover('any object')
            r, th = run(ex, f, o, ob)
            o2 = Index(ctx, o)
            ex.check('does not fail', th is None, str(th))
            if th is not None: return
            if ex.choose(Not(reg)):
                ex.check('nothing changes for an object that is not registered', And(unchanged(ex, h0))); return
            u = z3.Const('any string', Str)
            ex.check('its id and its aliases identify nothing any more, every other string what it did', o2.lookup(u) == z3.If(ix.lookup(u) == me, Ref.null, ix.lookup(u)))
            ex.check('one object less', Eq(o2.by.n, ix.by.n - 1))
            for nn, c in o2.inv(): ex.check('still: ' + nn, c)
            h2, v2 = typ(ex, o2, tn); k = z3.Int('any position')
            ex.check('one object less of its type', And(h2, Eq(v2.n, v.n - 1)))
            ex.check('the other objects of its type are still listed, in the same order', Implies(And(0 <= k, k < v.n, k != POS(me)), at(v2, z3.If(k < POS(me), k, k - 1)) == at(v, k)))
            un = z3.Const('any type', Str)
            ex.check('the objects of every other type are listed as before', Implies(un != tn, And(z3.Select(o2.ty.has, un) == z3.Select(ix.ty.has, un), z3.Select(o2.ty.val, un) == z3.Select(ix.ty.val, un))))
        ex.explore(body); return ex
    return go


def count(t, f):
    def go(p):
        ctx = Ctx(p); ex = ctx.ex

        def body(ex):
            ctx.start(); o, ix = setup(ctx); h0 = dict(ex.heap)
            ex.cover('any index')
            r, th = run(ex, f, o)
            def cnt(c):
                h, v = typ(ex, ix, lit('type:' + c)); return z3.If(b2z(h), i2z(v.n), 0)
            if t == ID: want = ix.by.n
            elif t == NS + 'VoltageLevel': want = cnt(NS + 'BusBreakerVoltageLevel') + cnt(NS + 'NodeBreakerVoltageLevel')
            else: want = cnt(t)
            ex.check('does not fail', th is None, str(th))
            ex.check('the number of registered objects of the type', Eq(r, want))
            ex.check('the index is unchanged', unchanged(ex, h0))
        ex.explore(body); return ex
    return go


_g0 = goals


def goals(p, tier):
    G = _g0(p, tier)
    for t, f in insts(p, 'checkAndAdd'): G.append(Goal('NetworkIndex::checkAndAdd<%s>' % t.replace(NS, ''), add(t, f)))
    for t, f in insts(p, 'getObjectCount'): G.append(Goal('NetworkIndex::getObjectCount<%s>' % t.replace(NS, ''), count(t, f)))
    G.append(Goal('NetworkIndex::addAlias', addalias))
    G.append(Goal('NetworkIndex::removeAlias', removealias))
    for f in p.byq.get(NI + '::remove', []): G.append(Goal('NetworkIndex::remove', remove(ID, f)))
    return G


# ------------------------------------------------------------------ listings
def concretes(p, t):
    return sorted(c for c in p.allsubs(t) if c in p.recs and not p.recs[c]['abstract'])


def parts(ex, v, ads=()):
    """a listing as a chain of (base sequence, adaptors)"""
    import loops
    if isinstance(v, Place) and not v.isobj(): v0 = ex.read(v)
    else: v0 = v
    if isinstance(v0, Rng):
        ads = list(v0.ads) + list(ads)
        if isinstance(v0.src, tuple) and v0.src[0] == 'join': return parts(ex, v0.src[1], ads) + parts(ex, v0.src[2], ads)
        return parts(ex, v0.src, ads)
    q = loops.as_seq(ex, v); return [(q, list(q.ads) + list(ads))]


def checkrange(ctx, ix, r, t, cs=None):
    """the listing holds exactly the registered objects of the type, each one once"""
    import loops
    ex = ctx.ex; ps = parts(ex, r)
    if t in (ID, NS + 'MultiVariantObject'):
        ex.check('one pass over all registered objects', len(ps) == 1 and ps[0][0].kind == 'keys')
        if not (len(ps) == 1 and ps[0][0].kind == 'keys'): return
        q, ads = ps[0]; m = ex.read(q.place)
        ex.check('lists the table of ids', And(m.has == ix.by.has, m.val == ix.by.val, Eq(m.n, ix.by.n)))
        s = z3.Const('any id', Str); ex.assume(ix.byhas(s))
        x = Pair(s, ix.byval(s), m.kt, m.vt)
        ex._fact(Or(*[TYPEOF(ix.byval(s)) == clsid(c) for c in concretes(ctx.p, ID)]))
        keep, y = loops.apply_ads(ex, x, ads)
        ex.check('every registered object is listed', keep)
        if keep: ex.check('the object itself', Eq(refval(ex, y), ix.byval(s)))
        return
    cs = cs or concretes(ctx.p, t); left = list(cs)
    for q, ads in ps:
        if q.kind != 'vec': raise Unsup('listing over %s' % q.kind)
        v = ex.read(q.place) if isinstance(q.place, Place) else q.place
        hit = None
        for c in left:
            h, w = typ(ex, ix, lit('type:' + c))
            vt = ex.vec_sym(v, ix.ty.vt); e = z3.If(b2z(h), i2z(w.n), 0)
            if not ex.feasible(Not(And(i2z(vt.n) == e, Implies(h, vt.arr == w.arr)))): hit = (c, h, w); break
        ex.check('every part of the listing is the list of one more type', hit is not None)
        if hit is None: continue
        c, h, w = hit; left.remove(c)
        k = z3.Int(ex.freshname('any position')); x = z3.Select(w.arr, k)
        ex._fact(And(x != Ref.null, Ref.is_obj(x), TYPEOF(x) == clsid(c))); ex.tcls[x.get_id()] = (c, x)
        ex.assume(And(h, 0 <= k, k < w.n))
        keep, y = loops.apply_ads(ex, ex.deref(x), ads)
        ex.check('every object of the type is listed (%s)' % c.replace(NS, ''), keep)
        if keep: ex.check('the object itself (%s)' % c.replace(NS, ''), Eq(refval(ex, y), x))
    ex.check('no type is left out', not left, str(left))


def getall(t, f, u):
    def go(p):
        ctx = Ctx(p); ex = ctx.ex

        def body(ex):
            ctx.start(); o, ix = setup(ctx)
            ex.cover('any index')
            r, th = run(ex, f, o)
            ex.check('does not fail', th is None, str(th))
            if th is not None: return
            o2 = Index(ctx, o)
            ex.check('ids and aliases are unchanged', ix.same(o2))
            checkrange(ctx, ix, r, u, [t] if not p.recs[t]['abstract'] else None)
        ex.explore(body); return ex
    return go


NET = NS + 'Network'


def netrun(ctx, f, args=()):
    ex = ctx.ex
    ctx.hook_all(ID + '::getId', lambda ex, this, a, e: IDOF(this.root[1]) if this is not None and this.isobj() else NotImplemented)
    net = ex.symobj(NET, 'network')
    fld, = [(k, g) for k, g in ctx.p.fields(NET) if g['t'] == NI]
    ix = Index(ctx, ex.member(net, fld[0], fld[1]['n']))
    for n, c in ix.inv(True): ex._fact(c)
    return net, ix


def netget(m):
    def go(p):
        ctx = Ctx(p); ex = ctx.ex; t = ex.strip(m['ret'])

        def body(ex):
            ctx.start(); net, ix = netrun(ctx, m)
            s, arg = strarg(ex, 's'); h0 = dict(ex.heap)
            want = ix.lookup(s); ok = And(want != Ref.null, True if t == ID else ex.isa(want, t))
            ex.cover('any string')
            r, th = outcome(lambda: ex.call_body(m['id'], net, [arg], dict(id=m['id'], q=NET + '::' + m['n'], n=m['n'], cls=NET, repo=True, virt=False, ps=[x[1] for x in m['ps']], ret=m['ret'], static=False)))
            ex.check('succeeds exactly when an object of the type is registered under the id or alias', Eq(th is None, ok), str(th))
            if th is None: ex.check('the object registered under the id or alias', Eq(refval(ex, r), want))
            ex.check('nothing changes', unchanged(ex, h0))
        ex.explore(body); return ex
    return go


def netcount(m, t):
    def go(p):
        ctx = Ctx(p); ex = ctx.ex

        def body(ex):
            ctx.start(); net, ix = netrun(ctx, m); h0 = dict(ex.heap)
            ex.cover('any network')
            r, th = outcome(lambda: ex.call_body(m['id'], net, [], dict(id=m['id'], q=NET + '::' + m['n'], n=m['n'], cls=NET, repo=True, virt=False, ps=[], ret=m['ret'], static=False)))
            want = 0
            for c in concretes(p, t):
                h, v = typ(ex, ix, lit('type:' + c)); want = want + z3.If(b2z(h), i2z(v.n), 0)
            ex.check('does not fail', th is None, str(th))
            if th is None: ex.check('the number of registered objects of the type and its subtypes', Eq(r, want))
            ex.check('nothing changes', unchanged(ex, h0))
        ex.explore(body); return ex
    return go


def netrange(m, t):
    def go(p):
        ctx = Ctx(p); ex = ctx.ex

        def body(ex):
            ctx.start(); net, ix = netrun(ctx, m)
            ex.cover('any network')
            r, th = outcome(lambda: ex.call_body(m['id'], net, [], dict(id=m['id'], q=NET + '::' + m['n'], n=m['n'], cls=NET, repo=True, virt=False, ps=[], ret=m['ret'], static=False)))
            ex.check('does not fail', th is None, str(th))
            if th is None: checkrange(ctx, ix, r, t)
        ex.explore(body); return ex
    return go


def netgoals(p):
    G = []; ex = Ctx(p).ex
    for m in p.recs[NET]['methods']:
        if m['id'] not in p.fns or m['static']: continue
        ps = [x[1] for x in m['ps']]; c = ' const' if m['const'] else ''
        if m['n'].startswith('get') and len(ps) == 1 and 'basic_string' in ps[0] and ex.strip(m['ret']).startswith(NS):
            G.append(Goal('Network::%s(id)%s' % (m['n'], c), netget(m)))
        t = re.match(r'get(\w+)Count$', m['n'])
        if t and not ps and NS + t.group(1) in p.recs: G.append(Goal('Network::%s' % m['n'], netcount(m, NS + t.group(1))))
        t = re.match(r'boost::range_detail::any_range<(?:const )?([\w:]+) &', m['ret'])
        if t and not ps and m['n'] != 'getStatefulObjects': G.append(Goal('Network::%s%s' % (m['n'], c), netrange(m, t.group(1))))
    return G


_g1 = goals


def goals(p, tier):
    G = _g1(p, tier)
    for f in p.byq.get(NI + '::getAll', []):
        t = re.match(r'boost::range_detail::any_range<(?:const )?([\w:]+) &', f.o.get('ret') or f.o['f'].get('ret', '')) if isinstance(f.o, dict) else None
        m = re.search(r'getAllINS0_(\d+)', f.id)
        if not m: continue
        tt = NS + f.id[m.end():m.end() + int(m.group(1))]
        G.append(Goal('NetworkIndex::getAll %s' % f.id[f.id.index('getAllI'):][:90], getall(tt, f, (t and t.group(1)) or tt)))
    return G + netgoals(p)


# ------------------------------------------------------------------ the aliases known by the object itself
class Own:
    """aliases of an object: without type, and by type"""
    def __init__(self, ctx, ob):
        ex = ctx.ex
        for k, f in ctx.p.fields(ID):
            if ex.kind(f['t']) in ('set', 'map') and k == ID:
                pl = ex.member(ob, k, f['n']); v = ex.read(pl)
                if v.vt is None: self.no = v
                else: self.ty = v

    def no_has(self, s): return z3.Select(self.no.has, s)
    def ty_is(self, t, s): return z3.And(z3.Select(self.ty.has, t), z3.Select(self.ty.val, t) == s)


def linked(ix, own, i, WT):
    """the object's own aliases are exactly the entries of the index that lead to its id; no alias is held twice"""
    s, t = z3.Const('sq', Str), z3.Const('tq', Str)
    mine = lambda s: z3.And(ix.alhas(s), ix.alval(s) == i)
    return [('every alias held without type is registered for the object', z3.ForAll([s], z3.Implies(own.no_has(s), mine(s)))),
            ('every alias held by type is registered for the object and not held without type', z3.ForAll([t, s], z3.Implies(own.ty_is(t, s), z3.And(mine(s), z3.Not(own.no_has(s)), WT(s) == t)))),
            ('every registered alias is held by the object', z3.ForAll([s], z3.Implies(mine(s), z3.Or(own.no_has(s), own.ty_is(WT(s), s)))))]


def idalias(kind, unique=False):
    def go(p):
        ctx = Ctx(p); ex = ctx.ex; name = 'removeAlias' if kind == 'remove' else 'addAlias'
        f, = [f for f in p.byq[ID + '::' + name] if kind == 'remove' or (len(f.o['ps']) == 3 and 'char *' not in str(f.o['ps'][1]))]

        def body(ex):
            ctx.start()
            ob = ex.symobj(NS + 'Load', 'object'); me = ob.root[1]
            net = Place(('o', ctx.net_of(me))); i = IDOF(me)
            ctx.hook_all(ID + '::getId', lambda ex, this, a, e: IDOF(this.root[1]) if this is not None and this.isobj() else NotImplemented)
            fld, = [(k, g) for k, g in p.fields(NET) if g['t'] == NI]
            io = ex.member(net, fld[0], fld[1]['n']); ix = Index(ctx, io)
            for n, c in ix.inv(True): ex._fact(c)
            own = Own(ctx, ob); WT = z3.Function('alias type', Str, Str)
            for n, c in linked(ix, own, i, WT): ex._fact(c)
            ex.assume(And(ix.byhas(i), ix.byval(i) == me))
            s, arg = strarg(ex, 's'); h0 = dict(ex.heap); E = lit('')
            if unique:
                # contract of getUniqueId (own goal): a string that identifies nothing, the one asked for when it is free
                def guid(ex, this, a, e):
                    u = z3.Const('in:unique', Str); b = ex.read(a[0]) if isinstance(a[0], Place) else a[0]
                    ex._fact(z3.And(ix.lookup(u) == Ref.null, u != E, z3.Implies(z3.And(b != E, ix.lookup(b) == Ref.null), u == b))); return u
                ctx.hook_all(NS + 'Identifiables::getUniqueId', guid)
            if kind == 'remove':
                ex.cover('any alias')
                r, th = run(ex, f, ob, arg)
                ok = And(ix.alhas(s), ix.alval(s) == i); t = None; u = s
            else:
                t, targ = strarg(ex, 'type')
                ex.cover('any alias, any type')
                r, th = run(ex, f, ob, arg, targ, unique)
                used = And(t != E, z3.Select(own.ty.has, t))
                LK = ix.lookup(s)
                ok = And(Not(used), True if unique else Or(LK == Ref.null, LK == me))
            o2 = Index(ctx, io); w2 = Own(ctx, ob)
            if not unique or th is not None: ex.check('accepted exactly when allowed', Eq(th is None, ok), str(th))
            x, y = z3.Const('any string', Str), z3.Const('any type', Str)
            nochange = And(ix.same(o2), w2.no_has(x) == own.no_has(x), z3.Select(w2.ty.has, y) == z3.Select(own.ty.has, y), z3.Implies(z3.Select(own.ty.has, y), z3.Select(own.ty.val, y) == z3.Select(w2.ty.val, y)))
            if th is not None:
                ex.check('a rejected call changes nothing', nochange); return
            W2 = WT
            if kind == 'remove':
                ex.check('the alias identifies nothing any more, other strings what they did', o2.lookup(x) == z3.If(x == s, Ref.null, ix.lookup(x)))
                ex.check('the object does not hold the alias any more and holds the others as before', And(w2.no_has(x) == And(own.no_has(x), x != s), w2.ty_is(y, x) == And(own.ty_is(y, x), x != s)))
            elif unique:
                # the alias taken is the one asked for when it is free; the others are numbered from it
                ex.check('a free alias is taken as it is', Implies(And(ix.lookup(s) == Ref.null, s != E, t == E), w2.no_has(s)))
                ex.check('no string that identified something changes its meaning', Implies(ix.lookup(x) != Ref.null, o2.lookup(x) == ix.lookup(x)))
                z = z3.Const('other string', Str)
                ex.check('at most one alias is added', Implies(And(o2.lookup(x) != ix.lookup(x), o2.lookup(z) != ix.lookup(z)), x == z))
                ex.check('a new alias leads to the object', Implies(o2.lookup(x) != ix.lookup(x), And(o2.lookup(x) == me, w2.no_has(x) == (t == E), w2.ty_is(t, x) == (t != E))))
            elif ex.choose(ix.lookup(s) == me):
                ex.check('an alias the object has already changes nothing', nochange)
            else:
                W2 = lambda q: z3.If(q == s, t, WT(q))
                ex.check('the alias identifies the object, other strings what they did', o2.lookup(x) == z3.If(x == s, me, ix.lookup(x)))
                ex.check('the object holds the alias under the type asked for, and the others as before', And(w2.no_has(x) == Or(own.no_has(x), And(x == s, t == E)), w2.ty_is(y, x) == Or(own.ty_is(y, x), And(x == s, y == t, t != E))))
            for n, c in o2.inv(): ex.check('still: ' + n, c)
            if not unique:
                for n, c in linked(o2, w2, i, W2): ex.check('still: ' + n, c)
        ex.explore(body); return ex
    return go


def uniqueid(p):
    ctx = Ctx(p); ex = ctx.ex
    f, = p.byq[NS + 'Identifiables::getUniqueId']; USED = z3.Function('uf:used', Str, z3.BoolSort())

    def body(ex):
        ctx.start()
        s, arg = strarg(ex, 's')
        ex.cover('any string')
        key = ('t', 'pred'); ex.loc[key] = lambda a: USED(lib.val(ex, a))
        r, th = run(ex, f, None, arg, Place(('v', key)))
        ex.check('does not fail', th is None, str(th))
        if th is not None: return
        r = lib.val(ex, r)
        ex.check('the string asked for when it is free', Implies(And(s != lit(''), Not(USED(s))), r == s))
        # the loop gives up after 2^64 - 1 used candidates: out of the scope of the contract
        for k, v in list(ex.loc.items()):
            if isz(v) and v.sort() == z3.IntSort(): ex.assume(v < (1 << 64) - 1)
        ex.check('a free string', Not(USED(r)))
    ex.explore(body); return ex


_g2 = goals


def goals(p, tier):
    G = _g2(p, tier)
    return G + [Goal('Identifiable::addAlias', idalias('add')), Goal('Identifiable::addAlias unique', idalias('add', True)), Goal('Identifiable::removeAlias', idalias('remove')), Goal('Identifiables::getUniqueId', uniqueid)]


def moved(p):
    ctx = Ctx(p); ex = ctx.ex
    f, = [f for f in p.byq[NI + '::NetworkIndex'] if len(f.o['ps']) == 2]

    def body(ex):
        ctx.start(); old, ix = setup(ctx)
        net = ex.symobj(NET, 'network'); me = net.root[1]; i = IDOF(me)
        tn = lit('type:' + NET); h, v = typ(ex, ix, tn)
        # the network moved from is registered under the id it hands over; it is the only network
        ex.assume(And(ix.byhas(i), h, Eq(v.n, 1), z3.Select(v.arr, 0) == ix.byval(i)))
        hs, vs = typ(ex, ix, lit('type:' + NS + 'Substation')); j = z3.Int('jq')
        ex._fact(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i2z(vs.n)), z3.And(Ref.is_obj(z3.Select(vs.arr, j)), TYPEOF(z3.Select(vs.arr, j)) == clsid(NS + 'Substation'))), patterns=[z3.Select(vs.arr, j)]))
        ex.cover('any index')
        o = ex.alloc(NI)
        r, th = outcome(lambda: ex.call_fn(f.id, o, [net, old]))
        ex.check('does not fail', th is None, str(th))
        if th is not None: return
        o2 = Index(ctx, o); x = z3.Const('any string', Str)
        ex.check('the id of the network identifies the new network', o2.byval(i) == me)
        ex.check('every string identifies the object it did', o2.lookup(x) == z3.If(ix.resolved(x) == i, me, ix.lookup(x)))
        ex.check('as many objects', Eq(o2.by.n, ix.by.n))
        un = z3.Const('any type', Str)
        ex.check('the lists by type are kept', Implies(un != tn, And(z3.Select(o2.ty.has, un) == Or(z3.Select(ix.ty.has, un), un == lit('type:' + NS + 'Substation')), Implies(z3.Select(ix.ty.has, un), z3.Select(o2.ty.val, un) == z3.Select(ix.ty.val, un)))))
        h2, v2 = typ(ex, o2, tn)
        ex.check('the new network is the only one', And(h2, Eq(v2.n, 1), z3.Select(v2.arr, 0) == me))
    ex.explore(body); return ex


_g3 = goals


def goals(p, tier):
    return _g3(p, tier) + [Goal('NetworkIndex moved to a new network', moved)]
