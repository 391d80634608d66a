"""X03: the textual form of every enumeration is one-to-one, and conversion back accepts exactly the declared texts."""
import prog, z3
from check import Goal
from contract import *
from vals import *
from N01 import outcome, strarg

GLOBS = prog.CORE + prog.XML + prog.EXT
DRIVER = 'X03'
EN = NS + 'Enum'


def insts(p, name):
    return {f.o['f']['ta'][0]: f for f in p.byq.get(EN + '::' + name, []) if f.o['f'].get('ta')}


def call(ex, f, *a):
    r = ex.call_body(f.id, None, list(a), f.o['f'])
    return ex.read(r) if isinstance(r, Place) and not r.isobj() else r


def table(ctx, p, e):
    """the texts of the values of enumeration e, as getNames<e>() returns them"""
    v = call(ctx.ex, insts(p, 'getNames')[e])
    if not isinstance(v, Vec) or v.items is None: raise Unsup('names of ' + e)
    return [ctx.ex.read(x) if isinstance(x, Place) else x for x in v.items]


def arg(ex, v, t):
    """a parameter passed by reference: a location holding v"""
    key = ('t', 'value'); ex.loc[key] = v
    return Place(('v', key))


def vals(p, e):
    t = p.types.get(e)
    if not t or t['k'] != 'enum': raise Unsup('enumerators of ' + e)
    return [(n, v) for n, v in t['vals']]


def names(e):
    def go(p):
        ctx = Ctx(p); ex = ctx.ex

        def body(ex):
            ctx.start(); t = table(ctx, p, e); vs = vals(p, e)
            ex.cover('the table')
            ex.check('one text per declared value', len(t) == len({v for _, v in vs}))
            ex.check('the values index the table', all(0 <= v < len(t) for _, v in vs))
            x = [littext(s) for s in t]
            if None in x: raise Unsup('computed text of an enumeration')
            for i in range(len(x)): ex.check('text of value %d differs from those before' % i, x[i] not in x[:i], x[i])
        ex.explore(body); return ex
    return go


def tostring(e, f):
    def go(p):
        ctx = Ctx(p); ex = ctx.ex

        def body(ex):
            ctx.start(); t = table(ctx, p, e); vs = vals(p, e)
            ty = f.o['ps'][0]['t'].rstrip(' &')
            v = z3.Int('value'); ok = z3.Or(*[v == k for _, k in vs]); ex._fact(z3.And(v > -(1 << 31), v < (1 << 31)))
            r, th = outcome(lambda: call(ex, f, arg(ex, v, e)))
            ex.cover('any value')
            if th is not None: ex.check('fails only for an undeclared value', z3.Not(ok))
            else:
                ex.check('an undeclared value has no text', ok)
                for n, k in vs:
                    if 0 <= k < len(t): ex.check('text of ' + n, z3.Implies(v == k, Eq(r, t[k])))
        ex.explore(body); return ex
    return go


def fromstring(e, f):
    def go(p):
        ctx = Ctx(p); ex = ctx.ex

        def body(ex):
            ctx.start(); t = table(ctx, p, e)
            ex._fact(z3.Distinct(*t) if len(t) > 1 else z3.BoolVal(True))          # distinct literals
            s, a = strarg(ex, 'text')
            r, th = outcome(lambda: call(ex, f, a))
            ex.cover('any text')
            known = z3.Or(*[s == x for x in t])
            if th is not None: ex.check('fails only for an unknown text', z3.Not(known))
            else:
                ex.check('an unknown text is rejected', known)
                for i, x in enumerate(t): ex.check('value of %s' % (littext(x) or i), z3.Implies(s == x, Eq(r, i)))
        ex.explore(body); return ex
    return go


def goals(p, tier):
    G = []
    for e in sorted(insts(p, 'getNames')):
        sh = e.replace(NS, '')
        G.append(Goal('getNames<%s>' % sh, names(e)))
        if e in insts(p, 'toString'): G.append(Goal('toString<%s>' % sh, tostring(e, insts(p, 'toString')[e])))
        if e in insts(p, 'fromString'): G.append(Goal('fromString<%s>' % sh, fromstring(e, insts(p, 'fromString')[e])))
    return G
