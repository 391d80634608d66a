"""N01: extensions and properties: one per name and type, retrievable until removed."""
import prog, lib, re, z3
from check import Goal
from contract import *
from vals import *

GLOBS = prog.CORE + prog.EXT
DRIVER = 'N01'
XB, EX, PR, ID = NS + 'Extendable', NS + 'Extension', 'stdcxx::Properties', NS + 'Identifiable'
NAMEOF, KEYOF = z3.Function('uf:extname', Ref, Str), z3.Function('uf:exttype', Ref, Str)
NAMEKEY, KEYNAME = z3.Function('uf:keyofname', Str, Str), z3.Function('uf:nameofkey', Str, Str)


def outcome(fn):
    try: return fn(), None
    except CppThrow as t: return None, t


def run(ex, f, o, *args): return outcome(lambda: ex.call_body(f.id, o, list(args), f.o['f']) if f.o.get('f') else ex.call_fn(f.id, o, list(args)))


def refval(ex, v):
    if isinstance(v, Place) and v.isobj(): return v.root[1]
    if isinstance(v, Place): v = ex.read(v)
    return v.root[1] if isinstance(v, Place) else v


def unchanged(ex, h0): return all(a.eq(h0.get(k, a)) for k, a in ex.heap.items())


def strarg(ex, n):
    s = z3.Const('in:' + n, Str); key = ('t', n); ex.loc[key] = s
    return s, Place(('v', key))


class Tables:
    """extensions of an object: by name (owning), by type"""
    def __init__(self, ctx, o):
        ex = ctx.ex
        for k, f in ctx.p.fields(XB):
            if ex.kind(f['t']) != 'map': continue
            t = ex.T(ex.strip(f['t'])); v = ex.read(ex.member(o, k, f['n']))
            if ex.tn(t['a'][1]) == 'std::unique_ptr': self.nm = v
            else: self.ty = v
        self.ex = ex

    def nh(self, s): return z3.Select(self.nm.has, s)
    def nv(self, s): return z3.Select(self.nm.val, s)
    def th(self, s): return z3.Select(self.ty.has, s)
    def tv(self, s): return z3.Select(self.ty.val, s)

    def inv(self, pat=False):
        """the two tables hold the same extensions, each under its own name and its own type"""
        s = z3.Const('sq', Str)
        fixed = lambda r: z3.And(KEYOF(r) == NAMEKEY(NAMEOF(r)), NAMEOF(r) == KEYNAME(KEYOF(r)))
        return [('extensions are under their own name and listed under their type', z3.ForAll([s], z3.Implies(self.nh(s), z3.And(self.nv(s) != Ref.null, NAMEOF(self.nv(s)) == s, fixed(self.nv(s)), self.th(KEYOF(self.nv(s))), self.tv(KEYOF(self.nv(s))) == self.nv(s))), patterns=[self.nh(s)] if pat else [])),
                ('extensions listed under a type are of the type and held under their name', z3.ForAll([s], z3.Implies(self.th(s), z3.And(KEYOF(self.tv(s)) == s, fixed(self.tv(s)), self.nh(NAMEOF(self.tv(s))), self.nv(NAMEOF(self.tv(s))) == self.tv(s))), patterns=[self.th(s)] if pat else []))]


def setup(ctx, cls=NS + 'Load'):
    ex = ctx.ex
    ctx.hook_all(EX + '::getName', lambda ex, this, a, e: NAMEOF(this.root[1]))
    ctx.hook_all(EX + '::getType', lambda ex, this, a, e: KEYOF(this.root[1]))
    for c in ctx.p.allsubs(EX):
        for n in ('getName', 'getType', 'assertExtendable'):
            q = c + '::' + n
            if n == 'assertExtendable': ctx.hook_all(q, lambda ex, this, a, e: None)
            elif c != EX: ctx.hook_all(q, ctx.ex.hooks[EX + '::' + n])
    ex.assumed['an extension class has one name and one type, no two classes share them (getName and getType of the classes of this repository are checked)'] = 1
    ex.assumed['assertExtendable accepts the object the extension is added to'] = 1
    o = ex.symobj(cls, 'object'); t = Tables(ctx, o)
    for n, c in t.inv(True): ex._fact(c)
    return o, t


def add(p):
    ctx = Ctx(p); ex = ctx.ex; f, = p.byq[XB + '::addExtension']

    def body(ex):
        ctx.start(); o, t = setup(ctx); me = o.root[1]
        x = ex.symobj(EX, 'extension'); r = x.root[1]; nm, ky = NAMEOF(r), KEYOF(r)
        ex._fact(z3.And(ky == NAMEKEY(nm), nm == KEYNAME(ky)))
        fk = next(k + '::' + g['n'] for k, g in p.fields(EX) if ex.kind(g['t']) == 'ptr')
        own = lambda y: ex.sel(ex.harr(fk), y)
        s = z3.Const('any name', Str); y = z3.Const('any type', Str)
        # not held yet; free or made for this object
        ex.assume(And(Not(And(t.nh(nm), t.nv(nm) == r)), Or(own(r) == Ref.null, own(r) == me)))
        ex.assume(Implies(t.nh(nm), own(t.nv(nm)) == me))
        w = z3.Const('any extension', Ref); ow = own(w)
        key = ('t', 'arg'); ex.loc[key] = r
        ex.cover('any extension')
        v, th = run(ex, f, o, Place(('v', key)))
        ex.check('does not fail', th is None, str(th))
        if th is not None: return
        u = Tables(ctx, o)
        ex.check('retrieved by its name', And(u.nh(nm), u.nv(nm) == r)); ex.check('retrieved by its type', And(u.th(ky), u.tv(ky) == r))
        ex.check('other names unchanged', Implies(s != nm, And(u.nh(s) == t.nh(s), Implies(t.nh(s), u.nv(s) == t.nv(s)))))
        ex.check('other types unchanged', Implies(y != ky, And(u.th(y) == t.th(y), Implies(t.th(y), u.tv(y) == t.tv(y)))))
        ex.check('one more unless the name was taken', Eq(u.nm.n, t.nm.n + z3.If(t.nh(nm), 0, 1)))
        ex.check('the extension knows the object', own(r) == me)
        ex.check('other extensions keep theirs', Implies(And(w != r, Not(And(t.nh(nm), w == t.nv(nm)))), own(w) == ow))
        for n, c in u.inv(): ex.check('still: ' + n, c)
    ex.explore(body); return ex


def lookup(name, f, t):
    def go(p):
        ctx = Ctx(p); ex = ctx.ex

        def body(ex):
            ctx.start(); o, tb = setup(ctx); h0 = dict(ex.heap); key = lit('type:' + t); s = None; args = []
            if name == 'getExtensionByName': s, a = strarg(ex, 'name'); args = [a]
            # an extension listed under a type is an object of the class
            cand = tb.nv(s) if s is not None else tb.tv(key)
            ex._fact((KEYOF(cand) == key) == (TYPEOF(cand) == clsid(t)))
            ex.cover('any object')
            if name == 'removeExtension':
                v, th = run(ex, f, o)
                ex.check('does not fail', th is None, str(th))
                if th is not None: return
                u = Tables(ctx, o); n = z3.Const('any name', Str); y = z3.Const('any type', Str); gone = And(tb.th(key), n == NAMEOF(tb.tv(key)))
                ex.check('no extension under the type', Not(u.th(key)))
                ex.check('other types unchanged', Implies(y != key, And(u.th(y) == tb.th(y), Implies(tb.th(y), u.tv(y) == tb.tv(y)))))
                ex.check('no extension under its name, other names unchanged', And(u.nh(n) == And(tb.nh(n), Not(gone)), Implies(u.nh(n), u.nv(n) == tb.nv(n))))
                for l, c in u.inv(): ex.check('still: ' + l, c)
                return
            has = And(tb.nh(s), ex.isa(cand, t)) if s is not None else tb.th(key)
            v, th = run(ex, f, o, *args)
            if name == 'getExtension':
                ex.check('succeeds exactly while an extension of the type is present', Eq(th is None, has), str(th))
                if th is None: ex.check('the extension of the type', Eq(refval(ex, v), cand))
            else:
                ex.check('does not fail', th is None, str(th))
                if th is None: ex.check('the extension while present, nothing otherwise', Eq(refval(ex, v), z3.If(b2z(has), cand, Ref.null)))
            ex.check('nothing changes', unchanged(ex, h0))
        ex.explore(body); return ex
    return go


def listing(f):
    def go(p):
        import loops
        ctx = Ctx(p); ex = ctx.ex

        def body(ex):
            ctx.start(); o, t = setup(ctx); h0 = dict(ex.heap)
            ex.cover('any object')
            v, th = run(ex, f, o)
            ex.check('does not fail', th is None, str(th))
            if th is not None: return
            q = loops.as_seq(ex, v); ex.check('one pass over the extensions by name', q.kind == 'keys')
            if q.kind != 'keys': return
            m = ex.read(q.place); s = z3.Const('any name', Str)
            ex.check('the table of names', And(m.has == t.nm.has, m.val == t.nm.val, Eq(m.n, t.nm.n)))
            ex.assume(t.nh(s)); keep, y = loops.apply_ads(ex, Pair(s, t.nv(s), m.kt, m.vt), q.ads)
            ex.check('every extension is listed', keep)
            if keep: ex.check('the extension itself', Eq(refval(ex, y), t.nv(s)))
            ex.check('nothing changes', unchanged(ex, h0))
        ex.explore(body); return ex
    return go


def moved(p):
    ctx = Ctx(p); ex = ctx.ex; f, = [f for f in p.byq[XB + '::Extendable'] if f.o['ps']]

    def body(ex):
        ctx.start(); o, t = setup(ctx); n = ex.alloc(NS + 'Load')
        ex.cover('any object')
        v, th = outcome(lambda: ex.call_fn(f.id, n, [o]))
        ex.check('does not fail', th is None, str(th))
        if th is not None: return
        u = Tables(ctx, n)
        ex.check('the same extensions by name', And(u.nm.has == t.nm.has, u.nm.val == t.nm.val, Eq(u.nm.n, t.nm.n)))
        ex.check('the same extensions by type', And(u.ty.has == t.ty.has, u.ty.val == t.ty.val))
    ex.explore(body); return ex


def setext(f):
    def go(p):
        ctx = Ctx(p); ex = ctx.ex

        def body(ex):
            ctx.start(); o, t = setup(ctx); me = o.root[1]
            x = ex.symobj(EX, 'extension'); r = x.root[1]
            fk = next(k + '::' + g['n'] for k, g in p.fields(EX) if ex.kind(g['t']) == 'ptr')
            own = lambda y: ex.sel(ex.harr(fk), y)
            w = z3.Const('any extension', Ref); ow, oo = own(w), own(r)
            ex.cover('any extension, any object')
            if ex.kind(ex.strip(f.o['ps'][0]['t'])) == 'ptr':
                a = z3.Const('in:target', Ref); key = ('t', 'target'); ex.loc[key] = a; arg = Place(('v', key)); ex._fact(Or(a == Ref.null, a == me))
            else: a, arg = me, o
            v, th = run(ex, f, x, arg)
            ex.check('rejected exactly for an extension of another object', Eq(th is None, Or(oo == Ref.null, a == Ref.null, oo == a)), str(th))
            ex.check('the extension knows the object', own(r) == (a if th is None else oo))
            ex.check('other extensions keep theirs', Implies(w != r, own(w) == ow))
        ex.explore(body); return ex
    return go


def classes(p):
    """name and type of every extension class of the repository"""
    out = []; ctx = Ctx(p); ex = ctx.ex; names = {}

    def body(ex):
        ctx.start(); ex.cover('every extension class')
        for c in sorted(p.allsubs(EX)):
            if c not in p.recs or p.recs[c]['abstract'] or not p.byq.get(c + '::getName'): continue
            x = ex.symobj(c, 'x'); sh = c.rsplit('::', 1)[-1]
            n = ex.call_fn(p.byq[c + '::getName'][0].id, x, []); n = ex.read(n) if isinstance(n, Place) else n
            t = ex.call_fn(p.byq[c + '::getType'][0].id, x, []); t = ex.read(t) if isinstance(t, Place) else t
            t = lit('type:' + t.n) if isinstance(t, TypeIdx) else t
            ex.check('type of ' + sh, Eq(t, lit('type:' + c)))
            for d, m in names.items():
                if d != c: ex.check('names of %s and %s differ' % (sh, d.rsplit('::', 1)[-1]), Not(Eq(n, m)))
            names[c] = n
    ex.explore(body); return ex


# ------------------------------------------------------------------ properties
def pmap(ctx, o):
    ex = ctx.ex
    k, f = [(k, f) for k, f in ctx.p.fields(PR) if ex.kind(f['t']) == 'map'][0]
    return ex.read(ex.member(o, k, f['n']))


def props(cls, name, f):
    def go(p):
        ctx = Ctx(p); ex = ctx.ex

        def body(ex):
            ctx.start(); obj = ex.symobj(NS + 'Load' if cls == ID else PR, 'object')
            o = obj
            if cls == ID:
                k, g = [(k, g) for k, g in p.fields(ID) if g['t'] == PR][0]; o = ex.member(obj, k, g['n'])
            m = pmap(ctx, o); s, a = strarg(ex, 'key'); n = len(f.o['ps']); args = [a][:n]
            if n > 1: d, b = strarg(ex, 'value'); args.append(b)
            h0 = dict(ex.heap); x = z3.Const('any key', Str)
            has = lambda q, y: z3.Select(q.has, y)
            val = lambda q, y: z3.Select(q.val, y)
            ex.cover('any key')
            r, th = run(ex, f, obj, *args)
            rd = lambda v: ex.read(v) if isinstance(v, Place) and not v.isobj() else v
            ok = has(m, s) if name in ('get', 'getProperty') and n == 1 else True
            ex.check('succeeds exactly when the property is set' if ok is not True else 'does not fail', Eq(th is None, ok), str(th))
            if th is not None:
                ex.check('nothing changes', unchanged(ex, h0)); return
            m2 = pmap(ctx, o)
            if name in ('set', 'setProperty'):
                r = rd(r)
                ex.check('the value is stored', And(has(m2, s), val(m2, s) == d))
                ex.check('other properties unchanged', Implies(x != s, And(has(m2, x) == has(m, x), Implies(has(m, x), val(m2, x) == val(m, x)))))
                ex.check('the previous value is returned', And(Eq(r.has, has(m, s)), Implies(r.has, Eq(rd(r.v), val(m, s)) if r.v is not None else True)))
                ex.check('one more unless it was set', Eq(m2.n, m.n + z3.If(has(m, s), 0, 1))); return
            if name == 'remove':
                ex.check('the property is not set any more, others unchanged', And(has(m2, x) == And(has(m, x), x != s), Implies(has(m2, x), val(m2, x) == val(m, x)))); return
            if name == 'clear':
                ex.check('no property', Not(has(m2, x))); return
            ex.check('nothing changes', unchanged(ex, h0))
            if name in ('get', 'getProperty'): ex.check('the value set%s' % (' or the default' if n == 2 else ''), Eq(rd(r), val(m, s) if n == 1 else z3.If(has(m, s), val(m, s), d)))
            elif name in ('contains',) or name == 'hasProperty' and n == 1: ex.check('whether it is set', Eq(ex.tobool(rd(r)), has(m, s)))
            elif name == 'isEmpty': ex.check('whether there is none', Eq(ex.tobool(rd(r)), Eq(m.n, 0)))
            elif name == 'hasProperty': ex.check('whether there is one', Eq(ex.tobool(rd(r)), Not(Eq(m.n, 0))))
            elif name == 'size': ex.check('their number', Eq(rd(r), m.n))
            elif name in ('getKeys', 'getPropertyNames'):
                import loops
                q = loops.as_seq(ex, r); ex.check('one pass over the properties', q.kind == 'keys')
                if q.kind != 'keys': return
                w = ex.read(q.place); ex.check('the properties', And(w.has == m.has, Eq(w.n, m.n))); ex.assume(has(m, x))
                keep, y = loops.apply_ads(ex, Pair(x, val(m, x), w.kt, w.vt), q.ads)
                ex.check('every name is listed', keep)
                if keep: ex.check('the name itself', Eq(rd(y), x))
        ex.explore(body); return ex
    return go


def goals(p, tier):
    G = [Goal('Extendable::addExtension', add), Goal('Extendable moved', moved), Goal('names and types of the extension classes', classes)]
    for n in ('findExtension', 'getExtension', 'getExtensionByName', 'removeExtension'):
        for f in p.byq.get(XB + '::' + n, []):
            m = re.search(r'powsybl::network::Load\w+|Load(?:Foo|Bar)Ext', f.id)
            if m: G.append(Goal('Extendable::%s<%s>%s' % (n, m.group(0), ' const' if f.o['const'] else ''), lookup(n, f, 'powsybl::network::' + m.group(0))))
    for f in p.byq[XB + '::getExtensions']: G.append(Goal('Extendable::getExtensions%s' % (' const' if f.o['const'] else ''), listing(f)))
    for f in p.byq[EX + '::setExtendable']: G.append(Goal('Extension::setExtendable(%s)' % ('reference' if 'Reference' in f.o['ps'][0]['t'] else 'object'), setext(f)))
    for c, ns in ((PR, ('set', 'get', 'contains', 'remove', 'clear', 'isEmpty', 'size', 'getKeys')), (ID, ('setProperty', 'getProperty', 'hasProperty', 'getPropertyNames'))):
        for n in ns:
            for f in p.byq[c + '::' + n]: G.append(Goal('%s::%s/%d' % (c.rsplit('::', 1)[-1], n, len(f.o['ps'])), props(c, n, f)))
    return G
