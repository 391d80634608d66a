"""V02: creating and removing variants preserves every attribute of every object."""
import prog, attrs, setters
from check import Goal
from contract import *
from vals import *

GLOBS = prog.CORE + prog.EXT
DRIVER = 'V03|attributes of variant preserved'
OPS = ['extendVariantArraySize', 'reduceVariantArraySize', 'allocateVariantArrayElement', 'deleteVariantArrayElement']
CALLED = '$called:bool'
MVO = NS + 'MultiVariantObject'

# objects without per-variant attributes of their own
MORE = ['Line', 'TieLine', 'BusbarSection', 'LccConverterStation', 'Substation', 'TwoWindingsTransformer', 'ThreeWindingsTransformer', 'BusBreakerVoltageLevel', 'NodeBreakerVoltageLevel', 'Network']


def tables(p):
    """class -> per-variant observers"""
    out = {}
    for c in attrs.classes():
        TAB[c.name] = c
        obs = [g for g, s, pv in c.attrs if pv is True]
        if obs: out[c.name] = obs
    for c in MORE:
        out.setdefault(NS + c, []); TAB.setdefault(NS + c, attrs.Cls(c, []))
    return out


TAB = {}


def ref(v): return v.root[1] if isinstance(v, Place) else v


def subobjects(ctx, cls, obj, op):
    """[(label, guard, reference)] of the stateful parts of an object, for arbitrary elements of its collections"""
    ex = ctx.ex; p = ctx.p; out = []
    for c, f in p.fields(cls):
        t = f['t']; fk = c + '::' + f['n']
        nm = f['n']
        tt = ex.T(t)
        if 'Terminal' in t and 'vector' in t and 'unique_ptr' in t:
            v = ex.vec_sym(ex.hread(fk, obj.root[1]))
            i = z3.Int(ex.freshname('ti')); ex._fact(z3.And(i >= 0, i < i2z(v.n)))
            e = z3.Select(v.arr, i)
            ex.nonnull(e)
            ex.assume(TYPEOF(e) != clsid(cls)); out.append(('terminal', e != obj.root[1], e))
        elif 'Extension' in t and 'unique_ptr' in t:
            m = ex.hread(fk, obj.root[1])
            k = z3.Const(ex.freshname('k'), Str); ex._fact(z3.Select(m.has, k))
            e = z3.Select(m.val, k); ex.nonnull(e)
            subs = [s for s in p.concrete_subs(NS + 'Extension') if MVO in p.bases(s)]
            out.append(('multi-variant extension', Or(*[TYPEOF(e) == clsid(s) for s in subs]), e))
        elif 'unique_ptr' in t and ('TapChanger' in t or 'Generation' in t):
            e = ref(ex.hread(fk, obj.root[1]))
            if op == OPS[3] and 'Generation' in t and not any(m['n'] == op for m in p.recs[NS + 'dangling_line::Generation']['methods']): continue
            out.append((nm, e != NULL, e))
    if cls == NS + 'ThreeWindingsTransformer':
        L = NS + 'three_windings_transformer::Leg'
        for c, f in p.fields(cls):
            if 'vector' in f['t'] and 'Leg' in f['t']:
                v = ex.vec_sym(ex.hread(c + '::' + f['n'], obj.root[1]))
                i = z3.Int(ex.freshname('li')); ex._fact(z3.And(i >= 0, i < i2z(v.n)))
                leg = z3.Select(v.arr, i); ex.nonnull(leg)
                for c2, g in p.fields(L):
                    if 'unique_ptr' in g['t'] and 'TapChanger' in g['t']:
                        e = ref(ex.hread(c2 + '::' + g['n'], leg))
                        out.append(('leg ' + g['n'], e != NULL, e))
    return out


def sym_set(ctx):
    ex = ctx.ex
    tk = [t for t in (m['ps'][0][1] for m in ctx.p.recs[NS + 'MultiVariantObject']['methods'] if m['n'] == 'allocateVariantArrayElement')][0]
    tk = ex.strip(tk)
    s = ex.sym(tk, 'indexes')
    return tk, s


def has(ex, s, x): return z3.Select(s.has, i2z(x))


def run(p, cls, op, observers):
    ctx = Ctx(p); ex = ctx.ex
    obj_ = []

    def hook(name):
        def h(ex, this, args, e):
            r = this.root[1] if isinstance(this, Place) else this
            if not obj_: return None
            o = obj_[0].root[1]
            if r.eq(o): return NotImplemented
            if z3.is_app(r) and r.decl().name() == 'sub' and r.arg(1).eq(o): return NotImplemented
            # contract of the callee (discharged for its class): record the call with its arguments
            a = [ex.read(x) if isinstance(x, Place) and not x.isobj() else x for x in args]
            w = obj_[1]
            if name != op: ok = False
            elif op == OPS[0]: ok = And(Eq(a[-2], w['k']), Eq(a[-1], w['s']))
            elif op == OPS[1]: ok = Eq(a[0], w['k'])
            elif op == OPS[2]: ok = And(ex.same(a[0], w['set']), Eq(a[1], w['s']))
            else: ok = Eq(a[0], w['i'])
            ex.hwrite(CALLED, r, ok)
            return None
        return h
    for q in p.byq:
        n = q.rsplit('::', 1)[-1]
        if n in OPS: ctx.hook_all(q, hook(n))
    for c in list(p.recs):
        for m in p.recs[c]['methods']:
            if m['n'] in OPS: ctx.ex.idhooks.setdefault(m['id'], hook(m['n']))

    def body(ex):
        del obj_[:]
        ctx.start()
        obj = ex.symobj(cls, 'o')
        setters.fix_pre(ctx, TAB[cls], obj)
        N, k, s, i, J = ctx.N, z3.Int('k'), z3.Int('s'), z3.Int('i'), z3.Int('J')
        ex._fact(z3.And(N > 0, k > 0, s >= 0, s < N, i >= 0, i < N, J >= 0, k < (1 << 30)))
        w = dict(k=k, s=s, i=i)
        if op == OPS[0]: ex._fact(J < N + k); src = Ite(J < N, J, s); n2 = N + k
        elif op == OPS[1]: ex._fact(z3.And(k < N, J < N - k)); src = J; n2 = N - k
        elif op == OPS[3]: ex._fact(z3.And(J < N, J != i)); src = J; n2 = N
        else:
            ex._fact(J < N); n2 = N
            tk, st = sym_set(ctx); w['set'] = st
            y = z3.Int('y')
            ex._fact(z3.ForAll([y], z3.Implies(z3.Select(st.has, y), z3.And(y >= 0, y < N)), patterns=[z3.Select(st.has, y)]))
            src = Ite(has(ex, st, J), s, J)
        if op == OPS[0] and ex.choose(J < N): src = J
        elif op == OPS[0]: src = s
        elif op == OPS[2]: src = s if ex.choose(has(ex, st, J)) else J
        # every per-variant container has one entry per variant
        def obs(at, tag):
            ex.idxlog = []
            r = {}
            for g in observers:
                v = ctx.at(at).call(obj, g)
                r[g] = v
            log = ex.idxlog; ex.idxlog = None
            ctx.at(ctx.W)
            return r, log
        obj_[:] = []
        pre, log = ctx.quiet(lambda: obs(src, 'pre'))
        flds = {}
        for pl, ix, n in log:
            if isz(ix) and ix.eq(i2z(src)):
                ex._fact(i2z(n) == N)
                if pl.root[0] == 'o' and pl.root[1].eq(obj.root[1]): flds[pl.path[0][1]] = 1
        for fk in extra_fields(p, cls): flds[fk] = 1
        pree = {}
        for fk in flds:
            v = ex.hread(fk, obj.root[1])
            v = ex.vec_sym(v); ex._fact(i2z(v.n) == N)
            pree[fk] = z3.Select(v.arr, i2z(src))
        subs = subobjects(ctx, cls, obj, op)
        arr = ex.harr(CALLED)
        ex.heap[CALLED] = z3.K(Ref, z3.BoolVal(False))
        va = varrays(p, cls)
        vapre = {}
        for fk, inner in va:
            vv = ex.vec_sym(ex.hread(inner, ex.subref(obj.root[1], fk))); ex._fact(i2z(vv.n) == N)
            ex.vget(vv, src); sv = ex.sel_int(vv.arr, i2z(src)); ex.nonnull(sv)
            ex.nonnull(z3.Select(vv.arr, s))
            vapre[fk] = sv
        obj_[:] = [obj, w]
        ex.cover(op + ' precondition')
        h0 = dict(ex.heap)
        if op == OPS[0]: args = [N, k, s]
        elif op == OPS[1]: args = [k]
        elif op == OPS[2]:
            key = ('t', 'set'); ex.loc[key] = st; args = [Place(('v', key)), s]
        else: args = [i]
        c, m = next(((c, m) for c in p.bases(cls) if c in p.recs for m in p.recs[c]['methods'] if m['n'] == op), (None, None))
        if m is None: raise Unsup('%s not found in %s' % (op, cls))
        if len(m['ps']) < len(args): args = args[1:]
        try: ctx.call(obj, op, *args)
        except CppThrow as t:
            ex.check('%s does not throw' % op, False, str(t)); return
        ex.cover(op + ' accepts')
        obj_[:] = []
        try: post, log = obs(J, 'post')
        except CppThrow as t:
            ex.check('attributes stay readable', False, str(t)); return
        for g in observers:
            ex.check('%s: %s' % (g, 'new variant equals its source, existing ones unchanged' if op in (OPS[0], OPS[2]) else 'remaining variants unchanged'), ex.same(post[g], pre[g]))
        for fk in flds:
            v = ex.vec_sym(ex.hread(fk, obj.root[1]))
            ex.check('%s holds one entry per variant' % fk.replace(NS, ''), i2z(v.n) == n2)
            ex.check('%s entry of the variant' % fk.replace(NS, ''), ex.sel_int(v.arr, J) == pree[fk])
        for fk, inner in va:
            vv = ex.vec_sym(ex.hread(inner, ex.subref(obj.root[1], fk)))
            ex.check('one state object per variant', i2z(vv.n) == n2)
            e = ex.sel_int(vv.arr, J)
            ex.check('state of a live variant exists', e != NULL)
            if i2z(src).eq(J): ex.check('state of the existing variants unchanged', e == vapre[fk])
            else: ex.check('new variant has a state of its own', e != vapre[fk])
        a = ex.harr(CALLED)
        for lab, g, r in subs:
            ex.check('propagated to every %s' % lab, Implies(g, z3.Select(a, r)))
        # frame: nothing else of this object or of others changes
        for fk, a in list(ex.heap.items()):
            if fk == CALLED or fk in flds or any(fk == inner for _, inner in va) or setters.CACHES.search(fk): continue
            b = h0.get(fk)
            if b is None: b = z3.Const('H0:' + fk, a.sort())
            if a.eq(b): continue
            r = z3.Const(ex.freshname('fr'), Ref)
            ex.check('modifies only the per-variant storage: %s' % fk.replace(NS, ''), Implies(oldref(r), z3.Select(a, r) == z3.Select(b, r)))
        for fk in flds:
            a, b = ex.heap[fk], h0[fk]
            r = z3.Const(ex.freshname('fr'), Ref)
            ex.check('modifies only this object: %s' % fk.replace(NS, ''), Implies(And(oldref(r), r != obj.root[1]), z3.Select(a, r) == z3.Select(b, r)))
    ex.explore(body)
    return ex


def oldref(r):
    return z3.Or(z3.And(Ref.is_obj(r), Ref.oid(r) < 0), z3.And(Ref.is_sub(r), Or(Not(Ref.is_obj(Ref.owner(r))), Ref.oid(Ref.owner(r)) < 0)))


def extra_fields(p, cls):
    """per-variant containers without an attribute observer in the tables"""
    out = []
    for c, f in p.fields(cls):
        if cls == NS + 'ConfiguredBus' and 'vector' in f['t']: out.append(c + '::' + f['n'])
    return out


def varrays(p, cls):
    out = []
    for c, f in p.fields(cls):
        if 'VariantArray<' in f['t']:
            rec = f['t'] if f['t'] in p.recs else None
            if rec is None: raise Unsup('VariantArray instance ' + f['t'])
            inner = [c2 + '::' + g['n'] for c2, g in p.fields(rec) if 'vector' in g['t']]
            out.append((c + '::' + f['n'], inner[0]))
    return out


def goals(p, tier):
    out = []
    for cls, obs in sorted(tables(p).items()):
        for op in OPS:
            if not any(m['n'] == op for c in p.bases(cls) if c in p.recs for m in p.recs[c]['methods']):
                continue
            out.append(Goal('%s::%s' % (cls.replace(NS, ''), op), lambda pr, cls=cls, op=op, obs=obs: run(pr, cls, op, obs)))
    import V03
    return out + V03.all_goals(p, 'V02|')
