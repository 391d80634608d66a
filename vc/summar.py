"""Loop contracts: inductive invariants for loops whose trip count is not fixed.

A loop over a symbolic iteration space is cut at an inductive invariant.  The body is executed once for a generic element to find the
cells it modifies; for every modified cell a candidate invariant is proposed (pointwise update over the elements already visited, constant
store, counter, flag, append, fold); the body is then executed once more from the candidate state for a generic not-yet-visited element and
the solver must show that the candidate state is re-established (otherwise the next, weaker candidate is tried; the last one says nothing).
Exits (return / break / throw) are explored by running the body from the candidate state on an arbitrary element, with the knowledge that
every visited element continued."""
import os
import z3
from vals import *
import lib
from core import BreakEx, ContinueEx, ReturnEx, CppThrow, PathEnd


NEWTAG = z3.Function('newtag', z3.IntSort(), z3.IntSort())


# ------------------------------------------------------------------ iteration spaces
class Space:
    def __init__(self, ex, q):
        self.ex, self.q = ex, q
        if q.kind == 'vec':
            self.idx = True; self.lo, self.hi = z3.IntVal(0), i2z(q.n)
            v = ex.read(q.place)
            if isinstance(v, Vec) and v.items is not None: ex.write(q.place, ex.vec_sym(v))
        elif q.kind == 'count': self.idx = True; self.lo, self.hi = i2z(q.lo), i2z(q.n)
        elif q.kind == 'keys':
            self.idx = False; self.m = ex.read(q.place)
        else: raise Unsup('iteration space ' + q.kind)

    def var(self, base='x'):
        ex = self.ex
        if self.idx: return z3.Int(ex.freshname(base))
        return z3.Const(ex.freshname(base), self.m.has.sort().domain())

    def inside(self, x):
        return z3.And(self.lo <= x, x < self.hi) if self.idx else z3.Select(self.m.has, x)

    def elem(self, x):
        import loops
        if self.q.kind == 'vec': return self.q.place.sub(('i', x))
        if self.q.kind == 'count': return x
        k = self.ex.from_term(x, self.m.kt)
        self.ex.wf(k, self.m.kt, x)
        return loops.key_elem(self.ex, self.q.place, self.m, k)

    def card_full(self): return self.hi - self.lo if self.idx else i2z(self.m.n)

    def ordered(self):
        """std::map / std::set over numbers: iteration order is the key order"""
        return not self.idx and lib.ordered(self.ex, self.m)

    def before(self, a, b):
        f = lambda t: self.ex.from_term(t, self.m.kt)
        return lib.key_lt(self.ex, self.m, f(a), f(b))

    def first(self):
        if self.idx: return self.lo
        it = lib.om_first(self.ex, self.m, None); return self.ex.to_term(it.key, self.m.kt)

    def last(self):
        if self.idx: return self.hi - 1
        return self.ex.to_term(lib.om_extreme(self.ex, self.m, None, None, True, name='last:').key, self.m.kt)

    def pred(self, y):
        """the element visited just before y"""
        if self.idx: return y - 1
        h = self.m.has; K = h.sort().domain()
        F = z3.Function('pred:' + str(h.sort()), h.sort(), K, K)
        fs = self.first()
        if True:
            a, b = z3.Const(self.ex.freshname('pa'), K), z3.Const(self.ex.freshname('pb'), K)
            self.ex._fact(z3.ForAll([a], z3.Implies(z3.And(z3.Select(h, a), a != fs), z3.And(z3.Select(h, F(h, a)), b2z(self.before(F(h, a), a)))), patterns=[F(h, a)]))
            self.ex._fact(z3.ForAll([a, b], z3.Implies(z3.And(z3.Select(h, a), a != fs, z3.Select(h, b), b2z(self.before(b, a))), b2z(Not(self.before(F(h, a), b)))), patterns=[z3.MultiPattern(F(h, a), z3.Select(h, b))]))
        return F(h, y)


class Done:
    """the set of visited elements"""
    def __init__(self, sp, x=None, full=False, arr=None, card=None):
        self.sp, self.x, self.full, self.arr, self.cd = sp, x, full, arr, card; self.after = False

    def has(self, y):
        sp = self.sp
        if self.full: return sp.inside(y)
        if sp.idx: return z3.And(sp.lo <= y, y < self.x)
        return z3.Select(self.arr, y)

    def card(self):
        if self.full: return z3.If(self.sp.hi >= self.sp.lo, self.sp.hi - self.sp.lo, z3.IntVal(0)) if self.sp.idx else self.sp.card_full()
        return self.x - self.sp.lo if self.sp.idx else self.cd

    def plus(self):
        """visited set after x"""
        if self.sp.idx: return Done(self.sp, self.x + 1)
        d = Done(self.sp, self.x, arr=z3.Store(self.arr, self.x, z3.BoolVal(True)), card=self.cd + 1); d.after = True; return d


def partial(ex, sp, x):
    """arbitrary visited set not containing x (facts assumed)"""
    ex.assume(sp.inside(x))
    if sp.idx: return Done(sp, x)
    D_ = z3.Const(ex.freshname('vis'), sp.m.has.sort()); cd = z3.Int(ex.freshname('nvis'))
    y = z3.Const(ex.freshname('qy'), sp.m.has.sort().domain())
    ex._fact(z3.And(z3.ForAll([y], z3.Implies(z3.Select(D_, y), z3.Select(sp.m.has, y)), patterns=[z3.Select(D_, y)]), z3.Not(z3.Select(D_, x)), cd >= 0, cd < i2z(sp.m.n)))
    if sp.ordered(): ex._fact(z3.ForAll([y], z3.Select(D_, y) == b2z(And(z3.Select(sp.m.has, y), sp.before(y, x)))))
    ex._fact(z3.Implies(cd == 0, D_ == z3.K(D_.sort().domain(), z3.BoolVal(False))))
    return Done(sp, x, arr=D_, card=cd)


# ------------------------------------------------------------------ leaves of values
def leaves(ex, v):
    """[(path, term)] or None when the value has no term form"""
    if isinstance(v, bool) or isinstance(v, int) or isz(v): return [((), lift(v))]
    if isinstance(v, D): return [((), v.term())]
    if isinstance(v, Place):
        return [((), v.root[1])] if v.isobj() else None
    if isinstance(v, Vec):
        v = ex.vec_sym(v); return [(('n',), i2z(v.n)), (('arr',), v.arr)]
    if isinstance(v, Map):
        r = [(('n',), i2z(v.n)), (('has',), v.has)]
        if v.val is not None: r.append((('val',), v.val))
        return r
    if isinstance(v, Opt):
        r = [(('has',), b2z(v.has))]
        if v.v is None: return r
        l = leaves(ex, v.v)
        return None if l is None else r + [(('v',) + p, t) for p, t in l]
    if isinstance(v, SV):
        r = []
        for k, x in v.f.items():
            if isinstance(x, Opaque): continue
            l = leaves(ex, x)
            if l is None: return None
            r += [((k,) + p, t) for p, t in l]
        return r
    if isinstance(v, Pair):
        a, b = leaves(ex, v.a), leaves(ex, v.b)
        return None if a is None or b is None else [(('a',) + p, t) for p, t in a] + [(('b',) + p, t) for p, t in b]
    if isinstance(v, Cx):
        return [(('re',), v.re.term()), (('im',), v.im.term())]
    if isinstance(v, Opaque): return []
    return None


def rebuild(ex, v, ts, pre=()):
    g = lambda p: ts[pre + p]
    if isinstance(v, bool) or isinstance(v, int) or isz(v): return norm(g(()))
    if isinstance(v, D): return D.of(g(()))
    if isinstance(v, Place): return Place(('o', g(())))
    if isinstance(v, Vec): return Vec(v.et, norm(g(('n',))), g(('arr',)), tk=v.tk)
    if isinstance(v, Map): return Map(v.kt, v.vt, g(('has',)), None if v.val is None else g(('val',)), norm(g(('n',))), tk=v.tk)
    if isinstance(v, Opt): return Opt(v.et, norm(g(('has',))), None if v.v is None else rebuild(ex, v.v, ts, pre + ('v',)))
    if isinstance(v, SV): return SV(v.cls, {k: x if isinstance(x, Opaque) else rebuild(ex, x, ts, pre + (k,)) for k, x in v.f.items()})
    if isinstance(v, Pair): return Pair(rebuild(ex, v.a, ts, pre + ('a',)), rebuild(ex, v.b, ts, pre + ('b',)), v.ta, v.tb)
    if isinstance(v, Cx): return Cx(D.of(g(('re',))), D.of(g(('im',))))
    if isinstance(v, Opaque): return Opaque(v.tk)
    raise Unsup('loop-modified value %r' % (v,))


# ------------------------------------------------------------------ state cells
class Cell:
    """one modified location: kind heap (whole field array or the value at a fixed object), loc, fresh, ghost, glob"""
    def __init__(self, kind, key, ref=None): self.kind, self.key, self.ref = kind, key, ref

    def of(self, ex, st):
        """value in a state dict"""
        if self.kind == 'heap':
            a = st['heap'].get(self.key)
            if a is None: a = st['heap0'][self.key]
            if self.ref is None: return a
            tk = ex.fieldtype(self.key) if not self.key.startswith('$') else self.key.split(':', 1)[1]
            return ex.from_term(ex.sel(a, self.ref), tk)
        if self.kind == 'fresh': return st['fresh'][self.key][1]
        return st[self.kind].get(self.key)

    def set(self, ex, v):
        if self.kind == 'heap':
            if self.ref is None: ex.heap[self.key] = v; return
            tk = ex.fieldtype(self.key) if not self.key.startswith('$') else self.key.split(':', 1)[1]
            ex.heap[self.key] = z3.Store(ex.harr(self.key), self.ref, ex.to_term(v, tk))
        elif self.kind == 'fresh': ex.fresh[self.key] = (ex.fresh[self.key][0], v)
        elif self.kind == 'loc': ex.loc[self.key] = v
        elif self.kind == 'ghost': ex.ghost[self.key] = v
        elif self.kind == 'globv': ex.globv[self.key] = v


class Leaf:
    def __init__(self, cell, path, old): self.cell, self.path, self.old = cell, path, old; self.cands = None; self.ci = 0; self.h = None; self.fold = None; self.nf = None


def consts(t, acc=None, seen=None):
    acc = {} if acc is None else acc; seen = set() if seen is None else seen
    st = [t]
    while st:
        e = st.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_quantifier(e): st.append(e.body()); continue
        if z3.is_var(e): continue
        if e.num_args() == 0:
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc[e.decl().name()] = e
            elif z3.is_int_value(e): acc.setdefault('#int', []).append(e)
        elif e.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR and e.sort() == Ref and e.decl().name() == 'obj' and z3.is_int_value(e.arg(0)):
            acc.setdefault('#obj', []).append(e.arg(0).as_long())
            continue
        st.extend(e.children())
    return acc


def depends(t, x): return x.decl().name() in consts(t)


def has_fresh(t, n0, oid0, ok=()):
    c = consts(t)
    for n in c:
        if n == '#obj':
            if any(i > oid0 for i in c[n]): return True
            continue
        if n == '#int': continue
        if '!' in n and n not in ok:
            try:
                if int(n.rsplit('!', 1)[1]) > n0: return True
            except ValueError: pass
    return False


def new_object(t, oid0):
    """the single object created by the body that t refers to"""
    ks = set(i for i in consts(t).get('#obj', []) if i > oid0)
    return ks.pop() if len(ks) == 1 else None


def store_chain(a, base):
    """[(index, value)] from the innermost store, or None when a is not a store chain over base"""
    out = []
    while not a.eq(base):
        if not z3.is_app_of(a, z3.Z3_OP_STORE): return None
        out.append((a.arg(1), a.arg(2))); a = a.arg(0)
    return out[::-1]


def sub1(t, x, y): return z3.substitute(t, (x, y))


def inverse(e, x, j):
    """x as a function of j = e(x)"""
    if e.eq(x): return j
    if z3.is_app_of(e, z3.Z3_OP_ADD) and e.num_args() == 2:
        a, b = e.arg(0), e.arg(1)
        if a.eq(x) and not depends(b, x): return j - b
        if b.eq(x) and not depends(a, x): return j - a
    if z3.is_app_of(e, z3.Z3_OP_SUB) and e.num_args() == 2 and e.arg(0).eq(x) and not depends(e.arg(1), x): return j + e.arg(1)
    return None


class Loop:
    def __init__(self, ex, q, body):
        self.ex, self.sp, self.body = ex, Space(ex, q), body

    def state(self):
        ex = self.ex
        return dict(heap=dict(ex.heap), loc=dict(ex.loc), fresh=dict(ex.fresh), ghost=dict(ex.ghost), globv=dict(ex.globv))

    def generic(self, setup):
        """run the body for a generic element: setup() -> x"""
        ex = self.ex; out = {}

        def run():
            x = setup()
            out['x'] = x
            self.body(self.sp.elem(x))
        res = ex.nested(run)
        return res

    def changed_cells(self, S0, res):
        ex = self.ex; cells = {}
        for r in res:
            for fk, a in r['heap'].items():
                b = S0['heap'].get(fk)
                if b is None:
                    tk = ex.fieldtype(fk) if not fk.startswith('$') else fk.split(':', 1)[1]
                    b = z3.Const('H0:' + fk, a.sort())
                    S0['heap0'][fk] = b
                if a.eq(b): continue
                ch = None; bb = b; peeled = []
                while True:
                    ch = store_chain(a, bb)
                    if ch is not None or not z3.is_app_of(bb, z3.Z3_OP_STORE): break
                    peeled.append((bb.arg(1), bb.arg(2))); bb = bb.arg(0)
                if ch is None: cells[('heap', fk, None)] = Cell('heap', fk); continue
                for i, _ in ch + peeled:
                    if not ex.sel(a, i).eq(ex.sel(b, i)): cells.setdefault(('heap', fk, i.get_id()), Cell('heap', fk, i))
            for kind in ('loc', 'ghost', 'globv'):
                for k, v in r[kind].items():
                    if k in S0[kind] and S0[kind][k] is not v and not self.eqv(S0[kind][k], v): cells[(kind, k)] = Cell(kind, k)
            for k, (ref, v) in r['fresh'].items():
                if k in S0['fresh'] and S0['fresh'][k][1] is not v and not self.eqv(S0['fresh'][k][1], v): cells[('fresh', k)] = Cell('fresh', k)
        return cells

    def eqv(self, a, b):
        if type(a) is not type(b) and not (isinstance(a, (bool, int)) or isz(a)): return False
        if isinstance(a, Place) and isinstance(b, Place):
            return a.root[0] == b.root[0] and (a.root[1] is b.root[1] or (isz(a.root[1]) and isz(b.root[1]) and a.root[1].eq(b.root[1])) or (not isz(a.root[1]) and a.root[1] == b.root[1])) and repr(a.path) == repr(b.path)
        try:
            s = self.ex.same(a, b)
            return s is True
        except Exception: return False

    def run(self):
        ex, sp = self.ex, self.sp
        n0, oid0 = ex.n, ex.oid
        self.n0, self.oid0 = n0, oid0
        import loops
        S0 = self.state(); S0['heap0'] = {}
        x = sp.var()

        def setup0():
            ex.assume(sp.inside(x)); return x
        R0 = self.generic(setup0)
        conts = self.R0c = [r for r in R0 if r['kind'] == 'ret']
        # objects under construction whose fields were forced into the heap by the body: do that before the loop
        fl = set().union(*[r['flushed'] for r in conts]) - ex.flushed if conts else set()
        if fl:
            for f in fl: ex.flush(f)
            return self.run()
        cells = self.changed_cells(S0, conts)
        # concrete containers that the loop modifies are put in symbolic form first
        again = False
        for c in cells.values():
            if c.kind in ('loc', 'fresh', 'ghost'):
                v = c.of(ex, S0)
                if isinstance(v, Vec) and v.items is not None: c.set(ex, ex.vec_sym(v)); again = True
                elif isinstance(v, Map) and v.keys is not None: c.set(ex, Map(v.kt, v.vt, v.has, v.val, v.n, None, tk=v.tk)); again = True
        if again: return self.run()
        ok = {x.decl().name()}
        # heap fields written at an object that depends on the element are treated as one array
        for k in list(cells):
            c = cells[k]
            if c.kind == 'heap' and c.ref is not None and (depends(c.ref, x) or has_fresh(c.ref, n0, oid0, ok)):
                if has_fresh(c.ref, n0, oid0, ok) and not depends(c.ref, x) and self.fresh_object(c.ref, oid0): del cells[k]; continue
                del cells[k]; cells[('heap', c.key, None)] = Cell('heap', c.key)
        for k in list(cells):
            c = cells[k]
            if c.kind == 'heap' and c.ref is not None and ('heap', c.key, None) in cells: del cells[k]
        L = []
        for c in cells.values():
            o = c.of(ex, S0)
            ls = leaves(ex, o)
            if ls is None: raise Unsup('loop modifies %s %s (%r)' % (c.kind, c.key, o))
            for p, t in ls:
                if c.kind == 'heap' and c.ref is None: t = o
                lf = Leaf(c, p, t); L.append(lf)
                news = []
                for r in conts:
                    nl = leaves(ex, c.of(ex, dict(r, heap0=S0['heap0'])))
                    d = dict(nl) if nl is not None else {}
                    if p not in d: raise Unsup('loop changes the shape of %s' % (c.key,))
                    news.append((r, d[p]))
                lf.news = news
                lf.changed = any(not n.eq(t) for _, n in news)
                if lf.changed: self.candidates(lf, x, n0, oid0, ok)
        act = [l for l in L if l.changed]
        # ---- inductive step
        for _ in range(1 + sum(len(l.cands) for l in act)):
            bad = self.step(act, cells, S0, x, n0, oid0)
            if not bad: break
            for l in bad:
                l.ci += 1
                if l.ci >= len(l.cands): raise Unsup('no inductive invariant for %s' % (l.cell.key,))
        else: raise Unsup('no inductive invariant')
        R1 = self.R1 if act else R0
        exits = [r for r in R1 if r['kind'] != 'ret'] or [r for r in R0 if r['kind'] != 'ret']
        # condition under which a visited element continued (as a function of the element), where it is expressible
        cont = []
        for r in conts:
            cs = [c for c in r['pc'] if not c.eq(sp.inside(x))]
            if any(has_fresh(c, n0, oid0, ok) for c in cs): cont = None; break
            cont.append(And(*cs))
        cont = Or(*cont) if cont is not None else True
        if cont is not True and act and not self.cont_stable:
            # the condition under which an element continues, from the state that the invariants give when it is visited
            cs = [And(*[c for c in r['pc'] if not c.eq(sp.inside(x))]) for r in self.R1 if r['kind'] == 'ret']
            cont = True if any(isz(c) and has_fresh(c, n0, oid0, ok) for c in cs) else Or(*cs)
        elif cont is None: cont = True
        self.cont = (x, cont); self.shifted = any(l.cands and l.cands[l.ci][0] == 'shift' for l in act or [])
        if exits and ex.pick(2) == 1:
            # leaving early: some element x with every visited one having continued
            xx = sp.var('xe')
            D_ = partial(ex, sp, xx)
            self.assume_cont(D_)
            self.install(act, cells, S0, D_); self.newfacts(act)
            try: self.body(sp.elem(xx))
            except BreakEx:
                self.xx = xx; return 'break'
            raise PathEnd()
        F_ = Done(sp, full=True)
        if exits and not conts: ex.assume(F_.card() == 0); return 'done'
        self.assume_cont(F_)
        self.install(act, cells, S0, F_); self.newfacts(act)
        return 'done'

    def fresh_object(self, r, oid0):
        return z3.is_app_of(r, z3.Z3_OP_DT_CONSTRUCTOR) and r.decl().name() == 'obj' and z3.is_int_value(r.arg(0)) and r.arg(0).as_long() > oid0

    def assume_cont(self, D_):
        x, cont = self.cont
        if cont is True or cont is False and False: return
        y = self.sp.var('qv')
        b = sub1(b2z(cont), x, y)
        if self.shifted:
            # values carried from the previous element: the first element apart (products of conditional terms are hard)
            fs = self.sp.first(); eq = y == (i2z(fs)); self.sp.pred(fs)
            for v, g in ((True, eq), (False, z3.Not(eq))):
                t = z3.simplify(z3.substitute(b, (eq, z3.BoolVal(v))))
                self.ex.assume(z3.ForAll([y], z3.Implies(z3.And(D_.has(y), g), t)))
            return
        self.ex.assume(z3.ForAll([y], z3.Implies(D_.has(y), b)))

    # -------------------------------------------------------------- candidates: D -> term of the leaf
    def candidates(self, lf, x, n0, oid0, ok):
        ex, sp = self.ex, self.sp
        old = lf.old; s = old.sort(); lf.cands = []
        ins = sp.inside(x)
        pcs = lambda r: And(*[c for c in r['pc'] if not c.eq(ins)])
        fresh = lambda t: isz(t) and has_fresh(t, n0, oid0, ok)
        if z3.is_array(old):
            chains = [(r, store_chain(n, old)) for r, n in lf.news]
            idxs = {}
            if all(c is not None for _, c in chains):
                for r, c in chains:
                    for i, v in c: idxs[i.get_id()] = i
            if len(idxs) == 1:
                e = list(idxs.values())[0]
                v = z3.Select(old, e); cond = False
                for r, c in chains:
                    if c: v = z3.If(b2z(pcs(r)), c[-1][1], v) if len(chains) > 1 else c[-1][1]; cond = Or(cond, pcs(r))
                if len(chains) == 1: cond = True
                dep = depends(e, x)
                if not fresh(e) and not fresh(cond):
                    self.array_cands(lf, x, e, v, cond, fresh(v), dep)
            elif len(idxs) > 1:
                # several cells per element: one (index, value, condition) triple for each store on each path
                tr = []
                for r, c in chains:
                    for i, v in c: tr.append((i, v, pcs(r)))
                if not any(fresh(i) or fresh(v) or fresh(c) for i, v, c in tr): lf.cands.append(('image', self.multi(lf, x, tr)))
        elif s == z3.IntSort():
            ds = set()
            for r, n in lf.news:
                d = norm(z3.simplify(n - old)); ds.add(d if isinstance(d, int) else None)
            if None not in ds and len(ds) == 1:
                c = ds.pop(); lf.cands.append(('count', lambda D_: old + c * D_.card()))
            elif lf.path and lf.path[-1] == 'n': lf.cands.append(('count1', lambda D_: old + D_.card()))
        if not z3.is_array(old):
            # flag: set to a value that does not depend on the element when some condition holds
            vs = {}
            for r, n in lf.news:
                if not n.eq(old): vs.setdefault(n.get_id(), [n, []])[1].append(pcs(r))
            if len(vs) == 1:
                n, cs = list(vs.values())[0]
                c = Or(*cs)
                if not depends(n, x) and not fresh(n) and not fresh(c):
                    def flag(D_, n=n, c=c):
                        if len(lf.news) == 1 or c is True: return z3.If(D_.card() > 0, n, old)
                        y = sp.var('qf')
                        return z3.If(z3.Exists([y], z3.And(D_.has(y), sub1(b2z(c), x, y))), n, old)
                    lf.cands.append(('flag', flag))
            if (sp.idx or sp.ordered()) and lf.news and all(not fresh(n) for _, n in lf.news) and any(depends(n, x) for _, n in lf.news):
                # the value found in the element visited last
                v = None
                for r, n in lf.news: v = n if v is None else z3.If(b2z(pcs(r)), n, v)
                if not fresh(v):
                    def shift(D_, v=v):
                        if D_.full: return z3.If(sp.hi <= sp.lo, old, sub1(v, x, sp.last())) if sp.idx else z3.If(i2z(sp.m.n) == 0, old, sub1(v, x, sp.last()))
                        if D_.after: return sub1(v, x, D_.x)
                        return z3.If(D_.x == sp.first(), old, sub1(v, x, sp.pred(D_.x)))
                    lf.cands.append(('shift', shift))
            if sp.idx: lf.cands.append(('fold', None))
        lf.cands.append(('havoc', None))
        lf.x0 = x

    def multi(self, lf, x, tr):
        ex, sp, old = self.ex, self.sp, lf.old
        # the same store under several path conditions is one triple
        g = {}
        for i, v, c in tr: g.setdefault((i.get_id(), v.get_id()), [i, v, []])[2].append(c)
        tr = [(i, v, Or(*cs)) for i, v, cs in g.values()]

        def pq(D_):
            A = z3.Const(ex.freshname('upd'), old.sort()); y = sp.var('qy'); j = z3.Const(ex.freshname('qj'), old.sort().domain())
            cd = lambda c, y: And(D_.has(y), sub1(b2z(c), x, y) if c is not True else True)
            ex._fact(z3.ForAll([y], b2z(And(*[z3.Implies(b2z(cd(c, y)), z3.Select(A, sub1(i, x, y)) == sub1(v, x, y)) for i, v, c in tr]))))
            ex._fact(z3.ForAll([j], z3.Or(z3.Select(A, j) == z3.Select(old, j), *[z3.Exists([y], z3.And(b2z(cd(c, y)), sub1(i, x, y) == j)) for i, v, c in tr])))
            return A
        return pq

    def array_cands(self, lf, x, e, v, cond, vfresh, dep):
        ex, sp = self.ex, self.sp; old = lf.old
        ds = old.sort().domain()
        lf.nf = None
        if vfresh and old.sort().range() == Ref:
            k = new_object(v, self.oid0)
            if k is not None:
                F = z3.Function(ex.freshname('new'), x.sort(), z3.IntSort())
                v2 = z3.substitute(v, (Ref.obj(z3.IntVal(k)), Ref.obj(F(x))))
                if not has_fresh(v2, self.n0, self.oid0, (x.decl().name(), F.name())):
                    lf.nf = (F, k, Ref.obj(z3.IntVal(k))); v = v2; vfresh = False
        if dep:
            j0 = z3.Const(ex.freshname('j'), ds)
            inv = inverse(e, x, j0) if (x.sort() == ds) else None
            if inv is not None and not vfresh:
                def pw(D_):
                    g = And(D_.has(inv), sub1(b2z(cond), x, inv) if cond is not True else True)
                    return z3.Lambda([j0], z3.If(b2z(g), sub1(v, x, inv), z3.Select(old, j0)))
                lf.cands.append(('pointwise', pw))
            if inv is not None and vfresh:
                def pwh(D_, cache={}):
                    g = And(D_.has(inv), sub1(b2z(cond), x, inv) if cond is not True else True)
                    G = z3.Const(ex.freshname('havoc:G'), old.sort())
                    return z3.Lambda([j0], z3.If(b2z(g), z3.Select(G, j0), z3.Select(old, j0)))
                lf.cands.append(('touch', pwh))
            if inv is None and not vfresh:
                def pq(D_):
                    A = z3.Const(ex.freshname('upd'), old.sort()); y = sp.var('qy'); j = z3.Const(ex.freshname('qj'), ds)
                    g = lambda y: And(D_.has(y), sub1(b2z(cond), x, y) if cond is not True else True)
                    ey = sub1(e, x, y)
                    ex._fact(z3.ForAll([y], z3.Implies(b2z(g(y)), z3.Select(A, ey) == sub1(v, x, y))))
                    ex._fact(z3.ForAll([j], z3.Or(z3.Select(A, j) == z3.Select(old, j), z3.Exists([y], z3.And(b2z(g(y)), ey == j)))))
                    return A
                lf.cands.append(('image', pq))
        else:
            # append: index = old length
            if sp.idx and cond is True and not vfresh:
                j0 = z3.Const(ex.freshname('j'), ds)
                if ds == z3.IntSort():
                    def app(D_):
                        k = j0 - e
                        return z3.Lambda([j0], z3.If(z3.And(e <= j0, j0 < e + D_.card()), sub1(v, x, sp.lo + k), z3.Select(old, j0)))
                    lf.cands.append(('append', app))
            if not depends(v, x) and not vfresh:
                def cst(D_):
                    if cond is True: return z3.If(D_.card() > 0, z3.Store(old, e, v), old)
                    y = sp.var('qf')
                    return z3.If(z3.Exists([y], z3.And(D_.has(y), sub1(b2z(cond), x, y))), z3.Store(old, e, v), old)
                lf.cands.append(('store', cst))
            lf.cands.append(('cell', lambda D_: z3.Store(old, e, z3.Const(ex.freshname('havoc:c'), old.sort().range()))))

    # -------------------------------------------------------------- states
    def leafval(self, l, D_):
        ex = self.ex; kind, f = l.cands[l.ci]
        if kind == 'fold':
            if l.fold is not None and not isinstance(l.fold, str):
                F, h = l.fold; t, x = l.foldt
                q = z3.Int(ex.freshname('qk'))
                ex._fact(z3.And(F(self.sp.lo) == l.old, z3.ForAll([q], z3.Implies(self.sp.inside(q), F(q + 1) == z3.substitute(t, (x, q), (h, F(q)))), patterns=[F(q + 1)])))
                k = self.sp.hi if D_.full else D_.x
                if D_.full: k = z3.If(self.sp.hi >= self.sp.lo, self.sp.hi, self.sp.lo)
                return F(k)
            l.h = z3.Const(ex.freshname('acc'), l.old.sort()); return l.h
        if kind == 'havoc': return z3.Const(ex.freshname('havoc:v'), l.old.sort())
        return f(D_)

    def newfacts(self, act):
        """objects created by the loop: pairwise distinct and different from every other object; their fields are unconstrained"""
        ex = self.ex
        for l in act:
            if l.nf is None or l.ci >= len(l.cands) or l.cands[l.ci][0] not in ('pointwise', 'append'): continue
            F, k, o = l.nf
            blk = ex.fresh_block()
            y = self.sp.var('ny'); y2 = self.sp.var('ny')
            c = ex.tcls.get(o.get_id())
            ex._fact(z3.ForAll([y], z3.And(F(y) >= 1000000, NEWTAG(F(y)) == blk, *([TYPEOF(Ref.obj(F(y))) == clsid(c[0])] if c else [])), patterns=[F(y)]))
            G = z3.Function(ex.freshname('newinv'), z3.IntSort(), F.domain(0))
            ex._fact(z3.ForAll([y], G(F(y)) == y, patterns=[F(y)]))
            fks = set()
            for r in self.R0c:
                for (rid, fk), (ref, _) in r['fresh'].items():
                    if self.fresh_object(ref, self.oid0): fks.add(fk)
            for fk in fks:
                a = ex.harr(fk); q = z3.Const(ex.freshname('qr'), Ref); H = z3.Const(ex.freshname('newobjs:' + fk), a.sort())
                ex.heap[fk] = z3.Lambda([q], z3.If(z3.And(Ref.is_obj(q), Ref.oid(q) >= 1000000, NEWTAG(Ref.oid(q)) == blk), z3.Select(H, q), z3.Select(a, q)))

    def install(self, act, cells, S0, D_):
        ex = self.ex; vals = {}
        for l in act: vals.setdefault(id(l.cell), {})[l.path] = self.leafval(l, D_)
        for c in cells.values():
            o = c.of(ex, S0)
            if c.kind == 'heap' and c.ref is None:
                if () in vals.get(id(c), {}): c.set(ex, vals[id(c)][()])
                continue
            ts = dict(leaves(ex, o))
            ch = vals.get(id(c))
            if not ch: continue
            ts.update(ch)
            v = rebuild(ex, o, ts)
            if isinstance(v, Vec): ex._fact(i2z(v.n) >= 0)
            c.set(ex, v)
        self.vals = vals
        return vals

    def step(self, act, cells, S0, x, n0, oid0):
        """execute the body from the candidate state; leaves whose candidate is not re-established"""
        ex, sp = self.ex, self.sp
        if not act: self.cont_stable = True; return []
        bad = []
        self.cont_stable = False
        s0 = ex.snap(); ex.solver.push()
        nf = len(ex.facts); npc = len(ex.pcs)
        sl = set(ex.scope_lits)
        try:
            D_ = partial(ex, sp, x)
            vals = self.install(act, cells, S0, D_)
            n1, oid1 = ex.n, ex.oid
            self.oid1, self.xs = oid1, x
            S1 = self.state(); S1['heap0'] = S0['heap0']
            R1 = ex.nested(lambda: self.body(sp.elem(x)))
            self.R1 = R1
            conts = [r for r in R1 if r['kind'] == 'ret']
            if any(r['flushed'] - ex.flushed for r in conts): raise Unsup('loop flush')
            # no further cell may be modified
            extra = self.changed_cells(S1, conts)
            for k, c in extra.items():
                if k in cells or (k[0] == 'heap' and ('heap', k[1], None) in cells): continue
                if c.kind == 'heap' and c.ref is not None and self.fresh_object(c.ref, oid1): continue
                raise Unsup('loop modifies a further location %s' % (k,))
            P = D_.plus()
            for l in act:
                kind = l.cands[l.ci][0]
                if kind == 'havoc': continue
                if kind == 'fold':
                    if l.fold is None or isinstance(l.fold, str): self.mkfold(l, conts, S0, x, n1, oid1, D_)
                    if isinstance(l.fold, str): bad.append(l)
                    continue
                for r in conts:
                    nl = leaves(ex, l.cell.of(ex, dict(r, heap0=S0['heap0']))) if not (l.cell.kind == 'heap' and l.cell.ref is None) else [((), r['heap'].get(l.cell.key, S0['heap0'].get(l.cell.key)))]
                    nt = dict(nl)[l.path]
                    g = And(*r['pc'])
                    if not self.reestablished(l, kind, nt, vals[id(l.cell)][l.path], P, D_, g): bad.append(l); break
            if not bad:
                # whatever the state, an element that continues satisfies the condition found for the initial state
                c0 = [And(*[c for c in r['pc'] if not c.eq(sp.inside(x))]) for r in self.R0c]
                c1 = Or(*[And(*r['pc']) for r in conts]); self.cont_stable = ex._check(ex.o['goal_ms'], And(b2z(c1), Not(b2z(Or(*c0))))) == z3.unsat
        finally:
            nmax, omax = ex.n, ex.oid
            ex.solver.pop(); ex.restore(s0); ex.n, ex.oid = max(nmax, ex.n), max(omax, ex.oid)
            del ex.facts[nf:]; del ex.pcs[npc:]; ex.scope_lits = sl
        return bad

    def valid(self, g, c):
        ex = self.ex
        c = norm(c)
        if c is True: return True
        return ex._check(ex.o['goal_ms'], z3.And(b2z(g), z3.Not(b2z(c)))) == z3.unsat

    def reestablished(self, l, kind, nt, cur, P, D_, g):
        ex, sp = self.ex, self.sp
        if l.nf is not None and kind in ('pointwise', 'append'):
            ks = set(i for i in consts(nt).get('#obj', []) if i > self.oid1)
            if len(ks) == 1: g = And(g, l.nf[0](self.xs) == z3.IntVal(ks.pop()))
        if kind in ('pointwise', 'append', 'store', 'count', 'count1', 'flag', 'shift'):
            want = l.cands[l.ci][1](P)
            if z3.is_array(nt):
                j = z3.Const(ex.freshname('ej'), nt.sort().domain())
                return self.valid(g, z3.simplify(z3.Select(nt, j)) == z3.simplify(z3.Select(want, j)))
            return self.valid(g, nt == want)
        if kind == 'touch':
            # only cells of visited elements may differ from the old ones
            j = z3.Const(ex.freshname('ej'), nt.sort().domain())
            f = l.cands[l.ci][1](P)
            return self.valid(g, z3.Or(z3.Select(nt, j) == z3.Select(cur, j), z3.Select(f, j) != z3.Select(l.old, j), self.touchable(l, P, j)))
        if kind == 'cell':
            ch = store_chain(nt, cur)
            e = cur.arg(1)
            return ch is not None and all(i.eq(e) for i, _ in ch)
        if kind == 'image':
            # facts of the image must hold for the larger visited set
            ch = store_chain(nt, cur)
            s = ex.solver
            ex.solver.push()
            try:
                y = sp.var('sy'); j = z3.Const(ex.freshname('sj'), nt.sort().domain())
                nf = len(ex.facts)
                A = l.cands[l.ci][1](P)
                f1, f2 = ex.facts[nf:nf + 2]
                del ex.facts[nf:]
            finally: ex.solver.pop()
            f1 = z3.substitute(f1, (A, nt)); f2 = z3.substitute(f2, (A, nt))
            return self.valid(g, f1) and self.valid(g, f2)
        return False

    def touchable(self, l, P, j):
        """index j belongs to a visited element"""
        t = l.cands[l.ci][1](P)
        b = z3.simplify(z3.Select(t, j))
        if z3.is_app_of(b, z3.Z3_OP_ITE): return b.arg(0)
        return z3.BoolVal(False)

    def mkfold(self, l, conts, S0, x, n1, oid1, D_):
        ex, sp = self.ex, self.sp
        t = None
        for r in conts:
            nt = dict(leaves(ex, l.cell.of(ex, dict(r, heap0=S0['heap0']))))[l.path]
            pc = And(*r['pc'])
            if has_fresh(nt, n1, oid1) or (len(conts) > 1 and has_fresh(pc, n1, oid1)): l.fold = 'fresh'; return
            t = nt if t is None else z3.If(b2z(pc), nt, t)
        if t is None: l.fold = 'none'; return
        # may only depend on the element and the accumulator, not on other loop state
        cn = consts(t)
        for o in self.all_h(l):
            if o in cn: l.fold = 'state'; return
        for n in cn:
            if n.startswith(('havoc:', 'vis!', 'nvis!', 'upd!', 'acc!')) and n != l.h.decl().name(): l.fold = 'state'; return
        F = z3.Function(ex.freshname('fold'), z3.IntSort(), l.old.sort())
        l.fold = (F, l.h); l.foldt = (t, x)

    def all_h(self, l): return []


def seq_loop(ex, q, body, s=None):
    lp = Loop(ex, q, body)
    return lp.go()


def _go(self):
    ex = self.ex
    import types
    # remember the first-run continue conditions for the stability check
    r = self.run()
    return r


Loop.go = _go


def find_if(ex, pl, v, fn):
    """first position at which fn holds"""
    import loops
    q = loops.Seq('vec', place=pl, n=v.n)

    def body(x):
        if ex.choose(ex.tobool(lib.val(ex, ex.call_value(fn, [x])))): raise BreakEx()
    lp = Loop(ex, q, body)
    if lp.go() == 'break': return It('vec', pl, pos=lp.xx)
    return It('vec', pl, pos=v.n)


def find_if_map(ex, pl, m, q, fn):
    """some element on which fn holds (the first one in iteration order)"""
    def body(x):
        if ex.choose(ex.tobool(lib.val(ex, ex.call_value(fn, [x])))): raise BreakEx()
    lp = Loop(ex, q, body)
    if lp.go() == 'break': return It('map', pl, key=lp.xx, valid=True)
    return It('map', pl, valid=False)


def quant(ex, q, fn, n):
    """std::any_of / all_of / none_of"""
    import loops

    def body(x):
        keep, y = loops.apply_ads(ex, x, q.ads)
        if not keep: return
        c = ex.choose(ex.tobool(lib.val(ex, ex.call_value(fn, [y]))))
        if c != (n == 'all_of'): raise BreakEx()
    lp = Loop(ex, q, body)
    hit = lp.go() == 'break'
    return hit if n == 'any_of' else not hit


# ------------------------------------------------------------------ counted loops
def guard_loop(ex, s, kind, n):
    import loops
    c, step = s.get('c'), s.get('n')
    var = hi = None
    cc = strip(c)
    if kind == 'for' and cc and cc.get('e') == 'bin' and cc.get('op') in ('<', '!=', '<='):
        v = var_of(cc['a']); st = strip(step)
        if v is not None and st and st.get('e') == 'un' and st.get('op') == '++' and var_of(st.get('x')) == v: var = v; hie = cc['b']
    if var is None: raise Unsup('loop without recognised counter')
    key = None
    for k in ex.loc:
        if k[0] == ex.curframe and k[1] == var: key = k
    if key is None or not (isinstance(ex.loc[key], int) or isz(ex.loc[key])): raise Unsup('loop counter')
    hi0 = ex.rv(hie)
    if not (isinstance(hi0, int) or isz(hi0)): raise Unsup('loop bound')
    lo0 = ex.loc[key]
    hi = hi0 if cc['op'] != '<=' else hi0 + 1
    if cc['op'] == '!=':
        if ex.feasible(i2z(lo0) > i2z(hi)): raise Unsup('loop guard !=')

    def body(x):
        ex.loc[key] = x
        # the bound must not change
        h = ex.rv(hie)
        if not (Eq(h, hi0) is True):
            if ex.feasible(Not(Eq(h, hi0))): raise Unsup('loop bound changes')
        try: ex.stmt(s['b'])
        except ContinueEx: pass
        v = ex.loc[key]
        if not (Eq(v, x) is True): raise Unsup('loop counter modified in the body')
        ex.loc[key] = lo0
    q = loops.Seq('count', lo=lo0, n=hi)
    lp = Loop(ex, q, body)
    r = lp.go()
    if r == 'done': ex.loc[key] = norm(z3.simplify(z3.If(i2z(hi) > i2z(lo0), i2z(hi), i2z(lo0))))
    else: ex.loc[key] = lp.xx


def strip(e):
    while isinstance(e, dict) and e.get('e') in ('cast',) and ('x' in e): e = e['x']
    return e


def var_of(e):
    e = strip(e)
    if isinstance(e, dict) and e.get('e') == 'var': return e.get('id')
    return None


# ------------------------------------------------------------------ loops with a stated invariant
class Env:
    """what a stated invariant may talk about"""
    def __init__(self, ex, entry, names, types, seq, done, x=None):
        self.ex, self.entry, self.names, self.types, self.seq, self.done, self.x = ex, entry, names, types, seq, done, x
        self.this = ex.thisv

    def key(self, n):
        ids = self.names.get(n)
        if not ids: raise Unsup('invariant: no local %s' % n)
        for i in reversed(ids):
            if (self.ex.curframe, i) in self.ex.loc: return (self.ex.curframe, i)
        raise Unsup('invariant: no local %s in scope' % n)

    def has(self, n):
        return any((self.ex.curframe, i) in self.ex.loc for i in self.names.get(n, []))

    def local(self, n):
        v = self.ex.loc[self.key(n)]
        return self.ex.read(v) if isinstance(v, Place) and not v.isobj() else v

    def local0(self, n):
        """value when the loop was entered"""
        k = self.key(n)
        return self.entry['loc'].get(k)

    def heap0(self, fk):
        a = self.entry['heap'].get(fk)
        return a if a is not None else z3.Const('H0:' + fk, self.ex.harr(fk).sort())

    def field0(self, fk, r):
        ex = self.ex; tk = ex.fieldtype(fk)
        return ex.from_term(ex.sel(self.heap0(fk), r), tk)


def decls_of(ex):
    fn = ex.p.fns[ex.fnstack[-1]].o
    if '_decls' not in fn:
        nm, ty = {}, {}

        def walk(x):
            if isinstance(x, dict):
                if x.get('s') == 'decl':
                    for d in x.get('d', []):
                        if 'id' in d: nm.setdefault(d.get('n'), []).append(d['id']); ty[d['id']] = d.get('t')
                if x.get('s') == 'rfor' and isinstance(x.get('v'), dict): nm.setdefault(x['v'].get('n'), []).append(x['v']['id']); ty[x['v']['id']] = x['v'].get('t')
                for v in x.values(): walk(v)
            elif isinstance(x, list):
                for v in x: walk(v)
        for p in fn['ps']: nm.setdefault(p.get('n'), []).append(p['id']); ty[p['id']] = p.get('t')
        walk(fn['body'])
        fn['_decls'] = (nm, ty)
    return fn['_decls']


def stated(ex):
    """invariants stated for the function being executed"""
    if not ex.loop_invs or not ex.fnstack: return None
    return ex.loop_invs.get(ex.p.fns[ex.fnstack[-1]].q)


def inv_loop(ex, inv, body, q=None, guard=None, pre='inv'):
    """loop cut at a stated invariant; returns 'done' or 'break'; NotImplemented when the invariant is not for this loop"""
    lp = Loop.__new__(Loop)
    lp.ex, lp.body = ex, body
    sp = lp.sp = Space(ex, q) if q is not None else None
    names, types = decls_of(ex)
    fnq = ex.p.fns[ex.fnstack[-1]].q.rsplit('::', 1)[-1]
    S0 = lp.state(); S0['heap0'] = {}
    entry = dict(heap=dict(ex.heap), loc=dict(ex.loc))
    D0 = None
    if sp is not None: D0 = Done(sp, sp.lo) if sp.idx else Done(sp, None, arr=z3.K(sp.m.has.sort().domain(), z3.BoolVal(False)), card=z3.IntVal(0))
    mk = lambda done, x=None: Env(ex, entry, names, types, q, done, x)
    i0 = inv(mk(D0))
    if i0 is None: return NotImplemented
    n0, oid0 = ex.n, ex.oid
    lp.n0, lp.oid0 = n0, oid0
    cells = {}

    def install(done):
        for k, c in cells.items():
            o = c.of(ex, S0)
            if c.kind == 'heap' and c.ref is None:
                c.set(ex, z3.Const(ex.freshname(pre + ':' + c.key), o.sort())); continue
            ls = leaves(ex, o)
            if ls is None: raise Unsup('loop modifies %s (%r)' % (c.key, o))
            v = rebuild(ex, o, {p: z3.Const(ex.freshname(pre), t.sort()) for p, t in ls})
            tk = None
            if c.kind == 'heap': tk = ex.fieldtype(c.key) if not c.key.startswith('$') else c.key.split(':', 1)[1]
            elif c.kind == 'loc': tk = types.get(c.key[1])
            elif c.kind == 'fresh': tk = ex.fieldtype(c.key[1]) if not c.key[1].startswith('$') else None
            if tk:
                try: ex.wf(v, ex.strip(tk))
                except Unsup: pass
            if isinstance(v, Vec): ex._fact(i2z(v.n) >= 0)
            if isinstance(v, Map): ex._fact(i2z(v.n) >= 0)
            c.set(ex, v)

    def arb():
        x = D_ = None
        if sp is not None:
            x = sp.var(); D_ = partial(ex, sp, x)
        install(D_)
        for c in inv(mk(D_, x)).values(): ex.assume(c)
        if guard is not None:
            if not ex.choose(ex.tobool(guard())): raise PathEnd()
        return x, D_
    first = [None]

    def once(final):
        x, D_ = arb()
        first[0] = lp.state(); first[0]['heap0'] = S0['heap0']
        el = sp.elem(x) if sp is not None else None
        lp.body(el)
        if final:
            P = D_.plus() if D_ is not None else None
            for l, c in inv(mk(P, x)).items():
                if not ex.proves(c):
                    if os.environ.get('VCDUMP'):
                        ex.solver.push(); ex.solver.add(b2z(Not(c))); print('invariant', l, ex.solver.check(), flush=True)
                        open(os.environ['VCDUMP'], 'w').write(ex.solver.to_smt2()); ex.solver.pop()
                    raise Unsup('loop invariant of %s not preserved: %s' % (fnq, l))
    for rnd in range(6):
        res = ex.nested(lambda: once(False), keep=False)
        conts = [r for r in res if r['kind'] == 'ret']
        fl = set().union(*[r['flushed'] for r in conts]) - ex.flushed if conts else set()
        if fl:
            for f in fl: ex.flush(f)
            return inv_loop(ex, inv, body, q, guard, pre)
        new = 0
        # the state at the start of the body has the same names on every path
        S1 = first[0]
        if S1 is None: break
        for k, c in lp.changed_cells(S1, conts).items():
            if c.kind == 'heap' and c.ref is not None:
                if lp.fresh_object(c.ref, oid0): continue
                if has_fresh(c.ref, n0, oid0, ()): c = Cell('heap', c.key); k = ('heap', c.key, None)
            if k in cells or (k[0] == 'heap' and ('heap', k[1], None) in cells): continue
            if k[0] == 'heap' and k[2] is None:
                for kk in [kk for kk in cells if kk[0] == 'heap' and kk[1] == k[1]]: del cells[kk]
            if c.kind == 'loc' and c.key not in S0['loc']: continue
            if c.kind == 'heap' and c.key not in S0['heap']: S0['heap0'].setdefault(c.key, z3.Const('H0:' + c.key, ex.harr(c.key).sort()))
            cells[k] = c; new += 1
        if not new: break
    else: raise Unsup('loop: modified locations do not stabilise')
    for l, c in i0.items():
        if not ex.proves(c): raise Unsup('loop invariant of %s does not hold on entry: %s' % (fnq, l))
    ex.check('loop invariant of %s holds on entry' % fnq, True)
    res = ex.nested(lambda: once(True), keep=False)
    ex.check('loop invariant of %s is preserved' % fnq, True)
    exits = [r for r in res if r['kind'] != 'ret']
    if exits and ex.pick(2) == 1:
        x, D_ = arb()
        try: lp.body(sp.elem(x) if sp is not None else None)
        except BreakEx: return 'break'
        raise PathEnd()
    F_ = Done(sp, full=True) if sp is not None else None
    install(F_)
    for c in inv(mk(F_)).values(): ex.assume(c)
    if guard is not None:
        if ex.choose(ex.tobool(guard())): raise PathEnd()
    return 'done'
