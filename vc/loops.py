"""Loops: exact unrolling when the trip count is fixed, otherwise invariants."""
import z3
from vals import *
import lib
from core import BreakEx, ContinueEx, ReturnEx


class Seq:
    """normalised iteration space. kind: 'list' (items), 'vec' (place,n), 'keys' (map place), 'count'(lo,hi)"""
    def __init__(self, kind, items=None, place=None, n=None, ads=(), lo=None): self.kind, self.items, self.place, self.n, self.ads, self.lo = kind, items, place, n, list(ads), lo


def as_seq(ex, v):
    raw = v
    if isinstance(v, Place) and not v.isobj(): v = ex.read(v)
    if isinstance(v, Rng):
        s = v.src
        if isinstance(s, tuple) and s[0] == 'count': q = Seq('count', lo=s[1], n=s[2])
        elif isinstance(s, tuple) and s[0] == 'join':
            a, b = concrete(ex, as_seq(ex, s[1])), concrete(ex, as_seq(ex, s[2]))
            if a is None or b is None: raise Unsup('join of symbolic ranges')
            q = Seq('list', a + b)
        else: q = as_seq(ex, s)
        q.ads = q.ads + list(v.ads)
        return q
    if isinstance(v, Vec):
        pl = raw if isinstance(raw, Place) else lib.cplace(ex, None, v)
        return Seq('vec', place=pl, n=v.n)
    if isinstance(v, Map):
        pl = raw if isinstance(raw, Place) else lib.cplace(ex, None, v)
        return Seq('keys', place=pl, n=v.n)
    if isinstance(v, list): return Seq('list', list(v))
    if isinstance(v, Place) and v.isobj():
        # repo class with begin()/end()
        c = ex.exactcls(v.root[1], '?') if v.root[1].get_id() in ex.tcls else None
        raise Unsup('iteration over an object %s' % c)
    raise Unsup('iteration over %r' % (v,))


def fixed_len(ex, n, maxn=8):
    """n when the path condition determines it"""
    n = norm(n)
    if isinstance(n, int): return n
    s = norm(z3.simplify(n))
    if isinstance(s, int): return s
    if ex.o.get('nofix'): return None
    ex.lits_in(None)
    ex.solver.set('timeout', 1000)
    if ex.solver.check() != z3.sat: return None
    m = norm(ex.solver.model().eval(n, model_completion=True))
    if not isinstance(m, int) or not 0 <= m <= maxn: return None
    if ex._check(ex.o['feas_ms'], n != m) == z3.unsat: return m
    return None


def base_items(ex, q):
    """list of element values/places when the base sequence has a fixed length"""
    if q.kind == 'list': return q.items
    if q.kind == 'vec':
        n = fixed_len(ex, q.n)
        if n is None: return None
        v = ex.read(q.place)
        out = []
        for i in range(n):
            if v.items is not None and isinstance(v.items[i], Place): out.append(v.items[i])
            else: out.append(q.place.sub(('i', i)))
        return out
    if q.kind == 'keys':
        m = ex.read(q.place)
        if m.keys is not None:
            return [key_elem(ex, q.place, m, k) for k in m.keys]
        if isinstance(norm(m.n), int) and norm(m.n) == 0: return []
        return None
    if q.kind == 'count':
        lo, hi = norm(q.lo), norm(q.n)
        if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 16: return list(range(lo, hi))
        return None
    return None


def key_elem(ex, pl, m, k):
    if m.vt is None: return k
    return lib.PairPlace(ex, It('map', pl, key=k, valid=True))


def refarg(ex, fn, x):
    """element of a sequence of reference wrappers passed to a function of a reference to the object"""
    if not isinstance(x, Place) or x.isobj(): return x
    t = fn.f['ps'][0] if isinstance(fn, FnV) and not (fn.f.get('cls') and not fn.f.get('static')) else fn.node['ps'][0]['t'] if isinstance(fn, Lam) else None
    if t is None or ex.kind(ex.strip(t)) != 'obj': return x
    v = ex.read(x)
    return ex.deref(v) if isz(v) and v.sort() == Ref else x


def apply_ads(ex, x, ads):
    """(keep?, element): forks on symbolic filters"""
    for a in ads:
        if a[0] == 'filter':
            if not ex.choose(ex.tobool(lib.val(ex, ex.call_value(a[1], [x])))): return False, None
        elif a[0] == 'map':
            x = ex.call_value(a[1], [refarg(ex, a[1], x)])
        elif a[0] == 'indirect':
            v = lib.val(ex, x)
            x = ex.deref(v) if not isinstance(v, Place) else v
        elif a[0] == 'values':
            v = lib.val(ex, x); x = v.b
        elif a[0] == 'keys':
            v = lib.val(ex, x); x = v.a
        elif a[0] == 'slice':
            raise Unsup('slice of a range')
        else: raise Unsup('adaptor %r' % (a,))
    return True, x


def concrete(ex, q):
    """all elements after adaptors (forking on filters) or None"""
    b = base_items(ex, q)
    if b is None: return None
    ads = q.ads
    if ads and ads[0][0] == 'slice':
        lo, hi = norm(ads[0][1]), norm(ads[0][2])
        if not (isinstance(lo, int) and isinstance(hi, int)): return None
        b = b[lo:hi]; ads = ads[1:]
    out = []
    for x in b:
        k, y = apply_ads(ex, x, ads)
        if k: out.append(y)
    return out


def bind_loopvar(ex, s, x):
    v = s['v']
    key = (ex.curframe, v['id'])
    if ex.isref(v['t']):
        if not isinstance(x, Place):
            # element given by value (reference wrapper, key): conversion to the declared reference type
            if ex.kind(ex.strip(v['t'])) == 'obj' and isz(x) and x.sort() == Ref: x = Place(('o', x))
            else:
                k = ('t', ex.freshname('el')); ex.loc[k] = x; x = Place(('v', k))
        elif not x.isobj() and ex.kind(ex.strip(v['t'])) == 'obj':
            y = ex.read(x)
            if isz(y) and y.sort() == Ref: ex.ref_facts(y, ex.strip(v['t']), True); x = Place(('o', y))
        ex.loc[key] = x
    else:
        if isinstance(x, Place) and not x.isobj(): x = ex.read(x)
        ex.loc[key] = x


def run_range(ex, s):
    r = ex.ev(s['r'])
    if isinstance(r, Place) and r.isobj():
        r = obj_range(ex, r)
    q = as_seq(ex, r)
    b = base_items(ex, q)
    ads = q.ads
    if b is not None:
        if ads and ads[0][0] == 'slice':
            b = concrete(ex, q); ads = []
        for x in b:
            keep, y = apply_ads(ex, x, ads)
            if not keep: continue
            bind_loopvar(ex, s, y)
            try: ex.stmt(s['b'])
            except ContinueEx: continue
            except BreakEx: return
        return

    def body(x):
        keep, y = apply_ads(ex, x, ads)
        if not keep: return
        bind_loopvar(ex, s, y)
        try: ex.stmt(s['b'])
        except ContinueEx: pass
    import summar
    iv = summar.stated(ex)
    if iv is not None:
        r = summar.inv_loop(ex, iv, body, q=q)
        if r is not NotImplemented: return
    summar.seq_loop(ex, q, body, s)


def obj_range(ex, r):
    c = ex.tcls.get(r.root[1].get_id())
    if c:
        for k in ex.p.bases(c[0]):
            for m in ex.p.recs[k]['methods']:
                if m['n'] == 'begin' and m['id'] in ex.p.fns:
                    it = ex.call_fn(m['id'], r, [])
                    if isinstance(it, It) and it.begin: return it.place
    raise Unsup('iteration over an object')


def run(ex, s, kind):
    """for / while / do loops: unroll while the guard is decided, otherwise invariants"""
    import summar
    n = 0
    iv = summar.stated(ex)
    if iv is not None and kind != 'do':
        def body(x):
            try: ex.stmt(s['b'])
            except ContinueEx: pass
            if kind == 'for' and s.get('n'): ex.ev(s['n'])
        r = summar.inv_loop(ex, iv, body, guard=(lambda: ex.rv(s['c'])) if s.get('c') is not None else (lambda: True))
        if r is not NotImplemented: return
    if kind == 'for' and iter_loop(ex, s): return
    if kind == 'do':
        try: ex.stmt(s['b'])
        except ContinueEx: pass
        except BreakEx: return
    while True:
        if 'cv' in s: ex.decl(s['cv'])
        c = True if s.get('c') is None else None
        if c is None:
            c = ex.tobool(ex.rv(s['c']))
            c = norm(c)
            if isz(c): c = norm(z3.simplify(c))
        if c is False: return
        if c is not True:
            k = ex.known.get(c.get_id()); k2 = ex.known.get(Not(c).get_id())
            if k: c = k[1]
            elif k2: c = not k2[1]
            elif not ex.feasible(c): return
            elif not ex.feasible(Not(c)): pass
            else:
                try: return summar.guard_loop(ex, s, kind, n)
                except Unsup as u:
                    if 'recognised counter' not in str(u): raise
                # nothing is known about the locations the loop changes except that it ends with the guard false
                def body(x):
                    try: ex.stmt(s['b'])
                    except ContinueEx: pass
                    if kind == 'for' and s.get('n'): ex.ev(s['n'])
                summar.inv_loop(ex, lambda env: {}, body, guard=(lambda: ex.rv(s['c'])) if 'cv' not in s else (lambda: (ex.decl(s['cv']), ex.rv(s['c']))[1]), pre='weak')
                return
            if c is False: return
        n += 1
        if n > ex.o.get('unroll', 64): raise Unsup('loop bound')
        try: ex.stmt(s['b'])
        except ContinueEx: pass
        except BreakEx: return
        if kind == 'for' and s.get('n'): ex.ev(s['n'])


def iter_loop(ex, s):
    """for (it = c.begin(); it != c.end(); ++it) over a map, set or symbolic vector"""
    import summar
    c, st = summar.strip(s.get('c')), summar.strip(s.get('n'))
    if not isinstance(c, dict): return False
    if c.get('e') == 'bin' and c.get('op') == '!=': ops = [summar.strip(c['a']), summar.strip(c['b'])]
    elif not (c.get('e') == 'call' and c.get('f', {}).get('n') == 'operator!='): return False
    else: ops = [summar.strip(x) for x in ([c['obj']] if c.get('obj') else []) + list(c.get('args', []))]
    if len(ops) != 2 or not isinstance(st, dict): return False
    if st.get('e') == 'call' and st.get('f', {}).get('n') == 'operator++': sv = summar.var_of(st.get('obj') or st['args'][0])
    elif st.get('e') == 'un' and st.get('op') == '++': sv = summar.var_of(st.get('x'))
    else: return False
    v = next((summar.var_of(o) for o in ops if summar.var_of(o) is not None and summar.var_of(o) == sv), None)
    if v is None: return False
    oth = [o for o in ops if summar.var_of(o) != v]
    key = next((k for k in ex.loc if k[0] == ex.curframe and k[1] == v), None)
    if key is None or len(oth) != 1 or not isinstance(ex.loc[key], It): return False
    it = ex.loc[key]
    end = ex.rv(oth[0])
    if not isinstance(end, It) or end.kind != it.kind: return False
    if it.kind == 'map':
        if not it.begin or end.valid is not False: return False
        q = Seq('keys', place=it.place)
        m = ex.read(it.place)
        q.n = m.n
        cur = lambda x: It('map', it.place, key=x, valid=True)
        if m.keys is not None: items = [cur(k) for k in m.keys]
        else: items = [] if isinstance(norm(m.n), int) and norm(m.n) == 0 else None
    elif it.kind == 'vec':
        lo, hi = norm(it.pos), norm(end.pos)
        if isinstance(lo, int) and isinstance(hi, int): return False      # unrolled
        q = Seq('count', lo=it.pos, n=end.pos)
        cur = lambda x: It('vec', it.place, pos=x)
        items = None
    else: return False

    def body(x):
        if isinstance(x, Place) and q.kind == 'keys': x = ex.read(x).a
        if not isinstance(x, It): x = cur(x)
        ex.loc[key] = x
        try: ex.stmt(s['b'])
        except ContinueEx: pass
        if ex.loc[key] is not x: raise Unsup('iterator modified in the body')
        ex.loc[key] = it
    if items is not None:
        for x in items:
            try: body(x)
            except BreakEx: return True
        ex.loc[key] = end; return True
    lp = summar.Loop(ex, q, body)
    r = lp.go()
    if r == 'done': ex.loc[key] = end
    return True
