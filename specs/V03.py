"""V03: variant ids map one-to-one onto live variants; failed calls change nothing.  The same contracts carry the part of V02 that concerns the
manager: every multi-variant object of the network is told to extend / reduce / copy exactly the slots the manager hands out."""
import prog
from check import Goal
from contract import *
from vals import *
from core import beta

GLOBS = prog.CORE
DRIVER = 'V03|(?!attributes of variant preserved).*'
VM = NS + 'VariantManager'
MVO = NS + 'MultiVariantObject'
KEEP = 'V03|'


def FA(vs, body, patterns=None):
    """ForAll with the given patterns where z3 accepts them"""
    def ok(t): return not (z3.is_app_of(t, z3.Z3_OP_ITE) or any(ok(c) is False for c in t.children()))
    try: return z3.ForAll(vs, body, patterns=[t for t in patterns or [] if ok(t)])
    except z3.Z3Exception: return z3.ForAll(vs, body)


class M:
    """view of the manager: ids -> index, free indexes, number of slots (fields identified by their types)"""
    def __init__(self, ctx, obj):
        self.ctx, self.obj, p = ctx, obj, ctx.p
        ex = ctx.ex
        fs = [(c + '::' + f['n'], f['t']) for c, f in p.fields(VM)]
        self.fids = next(k for k, t in fs if ('map<' in t) and 'string' in t)
        self.ffree = next(k for k, t in fs if 'set<unsigned long' in t)
        self.fsize = next(k for k, t in fs if t == 'unsigned long')
        self.fctx = next(k for k, t in fs if 'VariantContext' in t)

    def state(self):
        ex = self.ctx.ex; r = self.obj.root[1]
        return St(ex.hread(self.fids, r), ex.hread(self.ffree, r), i2z(ex.hread(self.fsize, r)))


class St:
    def __init__(self, ids, free, size): self.ids, self.free, self.size = ids, free, size

    def has(self, s): return beta(self.ids.has, s)

    def idx(self, s): return beta(self.ids.val, s)

    def isfree(self, i): return beta(self.free.has, i)

    def inv(self, ex, init):
        a, b = z3.Const(ex.freshname('qa'), Str), z3.Const(ex.freshname('qb'), Str)
        i = z3.Int(ex.freshname('qi'))
        W = z3.Function('idof', z3.IntSort(), Str)
        return {'every id has a slot below the number of slots that is not free': FA([a], z3.Implies(self.has(a), z3.And(self.idx(a) >= 0, self.idx(a) < self.size, z3.Not(self.isfree(self.idx(a))))), patterns=[self.has(a)]),
                'two ids never share a slot': FA([a, b], z3.Implies(z3.And(self.has(a), self.has(b), a != b), self.idx(a) != self.idx(b)), patterns=[z3.MultiPattern(self.has(a), self.has(b))]),
                'free slots are below the number of slots': FA([i], z3.Implies(self.isfree(i), z3.And(i >= 0, i < self.size)), patterns=[self.isfree(i)]),
                'the initial variant exists in slot 0': z3.And(self.has(init), self.idx(init) == 0),
                'there is at least one slot': self.size >= 1}

    def same(self, ex, o):
        return And(ex.same(self.ids, o.ids), ex.same(self.free, o.free), Eq(self.size, o.size))


def onto(ex, st, i):
    """slot i is free or belongs to some id (no slot is lost)"""
    a = z3.Const(ex.freshname('oa'), Str)
    return z3.Implies(z3.And(i >= 0, i < st.size), z3.Or(st.isfree(i), z3.Exists([a], z3.And(st.has(a), st.idx(a) == i))))


def mk(p, **o):
    ctx = Ctx(p, **o); ex = ctx.ex
    for n in ('getVariantIndex', 'getVariantArraySize'):
        for k in list(ex.hooks):
            if k.endswith('VariantManager::' + n): del ex.hooks[k]
    ex.assumed.clear()
    ex.assumed['std::mutex / lock_guard: mutual exclusion only'] = 1
    return ctx


def start(ctx):
    ex = ctx.ex
    ex._fact(z3.And(ctx.N >= 1))
    obj = ex.symobj(VM, 'vm')
    m = M(ctx, obj)
    st = m.state()
    init = lit('InitialVariant')
    for c in st.inv(ex, init).values(): ex._fact(c)
    i = z3.Int(ex.freshname('qi'))
    a = z3.Const(ex.freshname('oa'), Str)
    own = z3.Function('owner_of_slot', z3.IntSort(), Str)
    ex._fact(FA([i], z3.Implies(z3.And(i >= 0, i < st.size, z3.Not(st.isfree(i))), z3.And(st.has(own(i)), st.idx(own(i)) == i)), patterns=[own(i)]))
    ex._fact(st.size < (1 << 40))
    return obj, m, st, init, own


def stateful(ctx, obj):
    """an arbitrary multi-variant object of the network's index"""
    ex = ctx.ex; p = ctx.p
    fn = next(c + '::' + f['n'] for c, f in p.fields(VM) if 'Network' in f['t'])
    net = ex.hread(fn, obj.root[1]); net = net.root[1] if isinstance(net, Place) else net
    ex.nonnull(net)
    fi = next(c + '::' + f['n'] for c, f in p.fields(NS + 'Network') if f['t'].endswith('NetworkIndex'))
    ni = ex.subref(net, fi)
    fo = next(c + '::' + f['n'] for c, f in p.fields(NS + 'NetworkIndex') if 'unique_ptr' in f['t'] and 'map<' in f['t'])
    mp = ex.hread(fo, ni)
    k = z3.Const('in:objid', Str); ex._fact(z3.Select(mp.has, k))
    r = z3.Select(mp.val, k); ex.nonnull(r)
    subs = [s for s in p.concrete_subs(NS + 'Identifiable') if MVO in p.bases(s)]
    ex._fact(Or(*[TYPEOF(r) == clsid(s) for s in subs]))
    return r


ALLOC, EXT, EXTN, RED, DEL = '$alloc:bool', '$ext:bool', '$extn:long', '$red:long', '$del:bool'


def hooks(ctx, J, src):
    """contracts of the per-object operations (discharged per class in V02), recording what each object was told about slot J"""
    ex = ctx.ex

    def rec(this): return this.root[1]

    def alloc(ex, this, a, e):
        s = ex.read(a[0]) if isinstance(a[0], Place) else a[0]
        v = ex.read(a[1]) if isinstance(a[1], Place) else a[1]
        ex.check('V02|copied from the slot of the source variant', Eq(v, src()))
        if ex.choose(z3.Select(s.has, J)): ex.hwrite(ALLOC, rec(this), True)

    def ext(ex, this, a, e):
        v = [ex.read(x) if isinstance(x, Place) else x for x in a]
        ex.check('V02|new slots copied from the slot of the source variant', Eq(v[2], src()))
        ex.hwrite(EXTN, rec(this), v[1])

    def red(ex, this, a, e):
        v = [ex.read(x) if isinstance(x, Place) else x for x in a]
        ex.hwrite(RED, rec(this), v[0])

    def dele(ex, this, a, e):
        v = [ex.read(x) if isinstance(x, Place) else x for x in a]
        if ex.choose(Eq(v[0], J)): ex.hwrite(DEL, rec(this), True)
    ex.hooks[MVO + '::allocateVariantArrayElement'] = alloc
    ex.hooks[MVO + '::extendVariantArraySize'] = ext
    ex.hooks[MVO + '::reduceVariantArraySize'] = red
    ex.hooks[MVO + '::deleteVariantArrayElement'] = dele


def zero(ex):
    for k in (ALLOC, EXT, DEL): ex.heap[k] = z3.K(Ref, z3.BoolVal(False))
    for k in (EXTN, RED): ex.heap[k] = z3.K(Ref, z3.IntVal(0))


def working(ctx, m, obj):
    """(set?, index) of the working variant, through the context object"""
    ex = ctx.ex
    c = ex.hread(m.fctx, obj.root[1]); c = c.root[1] if isinstance(c, Place) else c
    ex.nonnull(c)
    pl = Place(('o', c))
    isset = ctx.call(pl, 'isIndexSet', cls=NS + 'VariantContext')
    w = ctx.call(pl, 'getVariantIndex', cls=NS + 'VariantContext') if ex.choose(ex.tobool(isset)) else None
    return (w is not None), w


def fn_by(p, name, pred): return [m for m in p.recs[VM]['methods'] if m['n'] == name and pred(m)]


def clone(p, nparam, owr):
    def run(p):
        ctx = mk(p); ex = ctx.ex
        J = z3.Int('J')
        cur = {}
        hooks(ctx, J, lambda: cur['src'])

        def inv(env):
            """loop over the target list"""
            if not (env.has('recycled') and env.has('overwritten') and env.has('extendedCount')) or env.seq is None or env.seq.kind != 'vec': return None
            ex = env.ex
            st = cur['m'].state(); s0 = cur['st']
            rec, ov, cnt, n0 = env.local('recycled'), env.local('overwritten'), i2z(env.local('extendedCount')), i2z(env.local('initVariantArraySize'))
            T = cur['targets']
            tgt = lambda i: z3.Select(T.arr, i)
            a, i, k = z3.Const(ex.freshname('ia'), Str), z3.Int(ex.freshname('ii')), z3.Int(ex.freshname('ik'))
            d = dict(st.inv(ex, cur['init']))
            R, O = (lambda x: beta(rec.has, x)), (lambda x: beta(ov.has, x))
            d['existing ids keep their slot'] = FA([a], z3.Implies(s0.has(a), z3.And(st.has(a), st.idx(a) == s0.idx(a))), patterns=[s0.has(a)])
            d['number of slots added'] = z3.And(n0 == s0.size, st.size == n0 + cnt, cnt >= 0, cnt <= env.done.card())
            d['processed targets exist'] = FA([i], z3.Implies(env.done.has(i), st.has(tgt(i))), patterns=[tgt(i)])
            d['only targets are added'] = FA([a], z3.Implies(z3.And(st.has(a), z3.Not(s0.has(a))), z3.Exists([i], z3.And(env.done.has(i), tgt(i) == a))), patterns=[st.has(a)])
            d['recycled slots were free'] = FA([k], z3.Implies(R(k), z3.And(s0.isfree(k), z3.Not(st.isfree(k)))), patterns=[R(k)])
            d['free slots only shrink by recycling'] = FA([k], z3.Implies(s0.isfree(k), z3.Or(st.isfree(k), R(k))), patterns=[s0.isfree(k)])
            d['no slot is freed'] = FA([k], z3.Implies(st.isfree(k), s0.isfree(k)), patterns=[st.isfree(k)])
            d['new ids sit in recycled or added slots'] = FA([a], z3.Implies(z3.And(st.has(a), z3.Not(s0.has(a))), z3.Or(R(st.idx(a)), st.idx(a) >= n0)), patterns=[st.has(a)])
            d['overwritten slots are those of targets'] = FA([k], z3.Implies(O(k), z3.And(k < n0, z3.Exists([i], z3.And(env.done.has(i), st.has(tgt(i)), st.idx(tgt(i)) == k)))), patterns=[O(k)])
            d['recycled slots are those of targets'] = FA([k], z3.Implies(R(k), z3.Exists([i], z3.And(env.done.has(i), st.has(tgt(i)), st.idx(tgt(i)) == k))), patterns=[R(k)])
            d['existing targets are overwritten'] = FA([i], z3.Implies(z3.And(env.done.has(i), s0.has(tgt(i))), O(st.idx(tgt(i)))), patterns=[tgt(i)])
            if not cur['ow']: d['targets are new and distinct'] = FA([i], z3.Implies(env.done.has(i), z3.Not(s0.has(tgt(i)))), patterns=[tgt(i)])
            own2 = z3.Function('owner2', z3.IntSort(), Str)
            d['no slot is lost'] = FA([k], onto(ex, st, k), patterns=[st.isfree(k)]) if False else z3.BoolVal(True)
            return d
        ex.loop_invs[VM + '::cloneVariant'] = inv

        def body(ex):
            obj, m, st, init, own = start(ctx)
            src = z3.Const('in:source', Str)
            ms = fn_by(p, 'cloneVariant', lambda x: ('initializer_list' in x['ps'][1][1]) == (nparam == 'list'))
            mm = ms[0]
            tk = ex.strip(mm['ps'][1][1])
            T = ex.sym(tk, 'targets')
            ow = owr
            if nparam == 'list': T = ex.vec_sym(T); ex._fact(And(T.n >= 0, T.n < (1 << 40)))
            else: T = Vec(tk, items=[T]); T = ex.vec_sym(T)
            cur.update(m=m, st=st, init=init, targets=T, ow=ow, src=st.idx(src))
            r = stateful(ctx, obj)
            zero(ex)
            for n_, v_ in (('s', src), ('t', T if nparam == 'list' else T and ex.vget(T, 0))): ex.loc[('t', n_)] = v_
            ex.cover('cloneVariant precondition')
            f = dict(id=mm['id'], q=VM + '::cloneVariant', n='cloneVariant', cls=VM, repo=True, virt=False, ps=[x[1] for x in mm['ps']], ret=mm['ret'], static=False)
            ws0 = working(ctx, m, obj)
            zero(ex)
            i = z3.Int('ti'); tg = lambda i: z3.Select(T.arr, i)
            try: ex.call_body(mm['id'], obj, [Place(('v', ('t', 's'))), Place(('v', ('t', 't'))), ow], f)
            except CppThrow as t:
                ex.cover('cloneVariant rejects')
                s2 = m.state()
                ex.check('V03|a rejected clone changes nothing', s2.same(ex, st), str(t))
                ex.check('V03|no object is touched by a rejected clone', And(Not(z3.Select(ex.harr(ALLOC), r)), Eq(z3.Select(ex.harr(EXTN), r), 0)))
                j, k = z3.Int(ex.freshname('qi')), z3.Int(ex.freshname('qk'))
                bad = z3.Or(T.n == 0, z3.Not(st.has(src)), z3.Exists([j], z3.And(j >= 0, j < T.n, st.has(tg(j)))) if not ow else False, z3.Exists([j, k], z3.And(j >= 0, j < k, k < T.n, tg(j) == tg(k))) if not ow else False)
                ex.check('V03|only invalid requests are rejected', bad, str(t))
                return
            ex.cover('cloneVariant accepts')
            s2 = m.state()
            ex._fact(z3.And(i >= 0, i < T.n))
            ex.check('V03|rejects an unknown source', st.has(src))
            ex.check('V03|rejects an empty target list', T.n > 0)
            if not ow: ex.check('V03|rejects an existing target', Not(st.has(tg(i))))
            for l, c in s2.inv(ex, init).items(): ex.check('V03|' + l, c)
            ex.check('V03|every target is a known id', s2.has(tg(i)))
            a = z3.Const('anyid', Str)
            ex.check('V03|existing ids keep their slot', Implies(st.has(a), And(s2.has(a), s2.idx(a) == st.idx(a))))
            qi = z3.Int(ex.freshname('qi'))
            ex.check('V03|only targets become known', Implies(And(s2.has(a), Not(st.has(a))), z3.Exists([qi], z3.And(qi >= 0, qi < T.n, tg(qi) == a))))
            for w, n_ in ((ws0, 'the working variant is unchanged'),):
                w2 = working(ctx, m, obj)
                ex.check('V03|' + n_, And(w[0] == w2[0], True if w[1] is None or w2[1] is None else Eq(w[1], w2[1])))
            al, en = z3.Select(ex.harr(ALLOC), r), z3.Select(ex.harr(EXTN), r)
            ex.check('V02|every object grows by the number of added slots', Eq(en, s2.size - st.size))
            ex.check('V02|slots given to targets below the old size are copied from the source', Implies(And(J == s2.idx(tg(i)), J < st.size), al))
            ex.check('V02|only slots of targets are written', Implies(al, And(J < st.size, z3.Exists([qi], z3.And(qi >= 0, qi < T.n, s2.idx(tg(qi)) == J)))))
        ex.explore(body); return ex
    return run


def remove(p):
    ctx = mk(p); ex = ctx.ex
    J = z3.Int('J'); cur = {}
    hooks(ctx, J, lambda: None)

    def inv(env):
        if not env.has('variantCount') or not env.has('i') or env.seq is not None: return None
        st, s0, i, c = cur['m'].state(), cur['st'], i2z(env.local('i')), i2z(env.local('variantCount'))
        k = z3.Int(env.ex.freshname('ik'))
        return {'position': z3.And(i >= 0, i <= s0.size - 1, c == s0.size - i),
                'slots above the position were free': FA([k], z3.Implies(z3.And(k >= i, k < s0.size - 1), s0.isfree(k)), patterns=[s0.isfree(k)]),
                'free slots are those below the position': FA([k], st.isfree(k) == z3.And(s0.isfree(k), k < i), patterns=[st.isfree(k)]),
                'ids': z3.And(st.ids.has == cur['has1'](), st.ids.val == s0.ids.val if False else True), 'size': st.size == s0.size}
    ex.loop_invs[VM + '::removeVariant'] = inv

    def body(ex):
        obj, m, st, init, own = start(ctx)
        vid = z3.Const('in:id', Str)
        cur.update(m=m, st=st, has1=lambda: z3.Store(st.ids.has, vid, z3.BoolVal(False)))
        r = stateful(ctx, obj)
        ws0 = working(ctx, m, obj)
        zero(ex)
        ex.cover('removeVariant precondition')
        ex.loc[('t', 's')] = vid
        mm = fn_by(p, 'removeVariant', lambda x: True)[0]
        f = dict(id=mm['id'], q=VM + '::removeVariant', n='removeVariant', cls=VM, repo=True, virt=False, ps=[x[1] for x in mm['ps']], ret=mm['ret'], static=False)
        try: ex.call_body(mm['id'], obj, [Place(('v', ('t', 's')))], f)
        except CppThrow as t:
            ex.check('V03|a rejected removal changes nothing', m.state().same(ex, st), str(t))
            ex.check('V03|only the initial variant and unknown ids are rejected', Or(Eq(vid, init), Not(st.has(vid))))
            ex.check('V03|no object is touched by a rejected removal', And(Not(z3.Select(ex.harr(DEL), r)), Eq(z3.Select(ex.harr(RED), r), 0)))
            return
        ex.cover('removeVariant accepts')
        s2 = m.state(); idx = st.idx(vid)
        ex.check('V03|the initial variant cannot be removed', Not(Eq(vid, init)))
        ex.check('V03|an unknown variant cannot be removed', st.has(vid))
        for l, c in s2.inv(ex, init).items(): ex.check('V03|' + l, c)
        a = z3.Const('anyid', Str)
        ex.check('V03|exactly the removed id disappears', Eq(s2.has(a), And(st.has(a), a != vid)))
        ex.check('V03|remaining ids keep their slot', Implies(s2.has(a), s2.idx(a) == st.idx(a)))
        k = z3.Int('slot')
        ex.check('V03|a slot that stays is free or was not the removed one', Implies(And(k >= 0, k < s2.size), Eq(s2.isfree(k), Or(st.isfree(k), k == idx))))
        ex.check('V02|every object shrinks by the number of dropped slots', Eq(z3.Select(ex.harr(RED), r), st.size - s2.size))
        ex.check('V02|a dropped slot in the middle is released in every object', Implies(J >= 0, Eq(z3.Select(ex.harr(DEL), r), And(J == idx, Eq(st.size, s2.size)))))
        ex.check('V02|only trailing slots without variant are dropped', Implies(And(k >= s2.size, k < st.size), Or(st.isfree(k), k == idx)))
        w2 = working(ctx, m, obj)
        if ws0[0]:
            ex.check('V03|the working variant is kept unless it was removed', (And(w2[0], Eq(w2[1], ws0[1])) if w2[0] else Eq(ws0[1], idx)))
            if w2[0]: ex.check('V03|no removed variant stays the working one', Not(Eq(w2[1], idx)))
        else: ex.check('V03|no working variant appears', not w2[0])
    ex.explore(body); return ex


def setworking(p):
    ctx = mk(p); ex = ctx.ex

    def body(ex):
        obj, m, st, init, own = start(ctx)
        vid = z3.Const('in:id', Str)
        ws0 = working(ctx, m, obj)
        ex.loc[('t', 's')] = vid
        ex.cover('setWorkingVariant precondition')
        try: ctx.call(obj, 'setWorkingVariant', Place(('v', ('t', 's'))))
        except CppThrow as t:
            ex.check('V03|only unknown ids are rejected', Not(st.has(vid)), str(t))
            w2 = working(ctx, m, obj)
            ex.check('V03|a rejected call keeps the working variant', And(w2[0] == ws0[0], True if not w2[0] or not ws0[0] else Eq(w2[1], ws0[1])))
            return
        ex.cover('setWorkingVariant accepts')
        ex.check('V03|an unknown id is rejected', st.has(vid))
        ex.check('V03|the variants are unchanged', m.state().same(ex, st))
        try: got = i2z(ctx.call(obj, 'getVariantIndex'))
        except CppThrow as t: ex.check('V03|the working variant is set', False, str(t)); return
        ex.check('V03|the working variant is the slot of the id', got == st.idx(vid))
        w = ctx.call(obj, 'getWorkingVariantId')
        ex.check('V03|getWorkingVariantId returns the id', Eq(w, vid))
    ex.explore(body); return ex


def observers(p):
    ctx = mk(p); ex = ctx.ex

    def body(ex):
        obj, m, st, init, own = start(ctx)
        a = z3.Const('anyid', Str); k = z3.Int('slot')
        ex.cover('observers precondition')
        ids = ctx.call(obj, 'getVariantIds')
        ex.check('V03|getVariantIds returns exactly the known ids', Eq(beta(ids.has, a), st.has(a)))
        sl = ctx.call(obj, 'getVariantIndices')
        qa = z3.Const('qa', Str)
        ex.check('V03|getVariantIndices returns the slots of the known ids', Eq(beta(sl.has, k), z3.Exists([qa], z3.And(st.has(qa), st.idx(qa) == k))))
        ex.check('V03|getVariantArraySize is the number of slots', Eq(ctx.call(obj, 'getVariantArraySize'), st.size))
        ex.check('V03|the initial variant id is constant', Eq(ctx.call(obj, 'getInitialVariantId'), init))
        ex.check('V03|reading changes nothing', m.state().same(ex, st))
    ex.explore(body); return ex


def multithread(p):
    """switching multi-threaded access on or off keeps the variants; the working variant of the calling thread is kept when it was set"""
    ctx = mk(p); ex = ctx.ex

    def body(ex):
        obj, m, st, init, own = start(ctx)
        allow = ex.choose(z3.Bool('allow'))
        ws0 = working(ctx, m, obj)
        same = ex.tobool(ctx.call(obj, 'isVariantMultiThreadAccessAllowed'))
        same = ex.choose(same)
        ex.cover('allowVariantMultiThreadAccess precondition')
        try: ctx.call(obj, 'allowVariantMultiThreadAccess', allow)
        except CppThrow as t: ex.check('V03|switching never throws', False, str(t)); return
        ex.check('V03|the variants are unchanged', m.state().same(ex, st))
        now = ex.tobool(ctx.call(obj, 'isVariantMultiThreadAccessAllowed'))
        ex.check('V03|access mode as requested', Eq(now, allow))
        w2 = working(ctx, m, obj)
        if ws0[0]: ex.check('V03|the working variant of the calling thread is kept', And(w2[0], Eq(w2[1], ws0[1]) if w2[0] else False))
        elif not allow and same: ex.check('V03|a missing working variant becomes the initial one', And(w2[0], Eq(w2[1], 0) if w2[0] else False))
    ex.explore(body); return ex


def ctor(p):
    ctx = mk(p); ex = ctx.ex

    def body(ex):
        ex._fact(ctx.N >= 1)
        net = ex.symobj(NS + 'Network', 'net')
        obj = ex.alloc(VM)
        c = next(f for f in p.fns.values() if f.q == VM + '::VariantManager' and len(f.o['ps']) == 1)
        ex.cover('constructor precondition')
        ex.call_fn(c.id, obj, [net])
        m = M(ctx, obj); st = m.state(); init = lit('InitialVariant')
        for l, cnd in st.inv(ex, init).items(): ex.check('V03|' + l, cnd)
        a = z3.Const('anyid', Str)
        ex.check('V03|the initial variant is the only one', Eq(st.has(a), Eq(a, init)))
        ex.check('V03|one slot', Eq(st.size, 1))
        w = working(ctx, m, obj)
        ex.check('V03|the initial variant is the working one', And(w[0], Eq(w[1], 0) if w[0] else False))
    ex.explore(body); return ex


def anyglobals(ex, cls):
    """tables shared by the contexts of a class start with any content"""
    for n in list(ex.p.globs):
        if cls not in n: continue
        t = ex.p.glob(n)['t']
        if ex.kind(t) in ('map', 'opt', 'int') and n not in ex.globv: ex.globv[n] = ex.sym(t, 'glob_' + n)


def context(p, cls):
    """contracts of the variant contexts: what is set is what is read, resetting only affects the given index"""
    ctx = mk(p); ex = ctx.ex

    def body(ex):
        anyglobals(ex, cls)
        c = ex.symobj(NS + cls, 'c'); i, j = z3.Int('i'), z3.Int('j'); ex._fact(z3.And(i >= 0, j >= 0))
        ctx.call(c, 'setVariantIndex', i)
        ex.cover('context precondition')
        ex.check('V03|index set', ex.tobool(ctx.call(c, 'isIndexSet')))
        ex.check('V03|index read is index set', Eq(ctx.call(c, 'getVariantIndex'), i))
        ctx.call(c, 'resetIfVariantIndexIs', j)
        s = ex.tobool(ctx.call(c, 'isIndexSet'))
        ex.check('V03|reset exactly when the index is the working one', Eq(s, Not(Eq(i, j))))
        try: v = ctx.call(c, 'getVariantIndex')
        except CppThrow: ex.check('V03|reading throws only when no index is set', Eq(i, j)); return
        ex.check('V03|an unset index is never returned', And(Not(Eq(i, j)), Eq(v, i)))
    ex.explore(body); return ex


def apart(p, cls):
    """two contexts, built one after the other: setting or resetting one never changes the other"""
    ctx = mk(p); ex = ctx.ex

    def body(ex):
        i, j = z3.Int('i'), z3.Int('j'); ex._fact(z3.And(i >= 0, j >= 0))
        cs = [f for f in p.fns.values() if f.q == NS + cls + '::' + cls and f.o.get('body') is not None or f.q == NS + cls + '::' + cls and f.o.get('inits')]
        cs = [f for f in cs if len(f.o['ps']) == len([1 for q in f.o['ps'] if 'unsigned long' in str(q.get('t'))])]
        if not cs: raise KeyError('no constructor of ' + cls)
        c = cs[0]
        anyglobals(ex, cls)
        two = []
        for k in range(2):
            o = ex.alloc(NS + cls); ex.call_fn(c.id, o, [z3.Int('init%d' % k)] * len(c.o['ps'])); two.append(o)
        a, b = two
        ctx.call(b, 'setVariantIndex', j)
        ex.cover('two contexts')
        ctx.call(a, 'setVariantIndex', i)
        ex.check('V03|an index set on another context is kept', And(ex.tobool(ctx.call(b, 'isIndexSet')), Eq(ctx.call(b, 'getVariantIndex'), j)))
        ctx.call(a, 'resetIfVariantIndexIs', i)
        ex.check('V03|resetting another context changes nothing', And(ex.tobool(ctx.call(b, 'isIndexSet')), Eq(ctx.call(b, 'getVariantIndex'), j)))
    ex.explore(body); return ex


def all_goals(p, keep):
    g = [('VariantManager::cloneVariant(%s) %s' % (n, 'may overwrite' if o else 'new targets only'), clone(p, n, o)) for n in ('list', 'one') for o in (True, False)]
    g += [('VariantManager::removeVariant', remove)]
    if keep == 'V03|':
        g += [('VariantManager::setWorkingVariant', setworking), ('VariantManager observers', observers), ('VariantManager::allowVariantMultiThreadAccess', multithread), ('VariantManager::VariantManager', ctor)]
        for c in sorted(p.concrete_subs(NS + 'VariantContext')):
            c = c.replace(NS, '')
            g.append((c, lambda pr, c=c: context(pr, c)))
            g.append((c + ' of two networks', lambda pr, c=c: apart(pr, c)))
    return [Goal(n, f, keep=keep) for n, f in g]


def goals(p, tier): return all_goals(p, KEEP)
