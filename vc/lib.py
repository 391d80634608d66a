"""Models (assumed contracts) of the C++ library operations the code uses: the trusted base of every proof."""
import z3
from vals import *

REPO = {}     # repo functions replaced by an assumed contract (logging, formatting)
USED = {}     # library operations used (reported as trusted)


def used(name): USED[name] = USED.get(name, 0) + 1


def val(ex, x):
    if isinstance(x, Place) and not x.isobj(): return ex.read(x)
    return x


# ---------------------------------------------------------------- repo functions with assumed contracts
def r(q):
    def d(f): REPO[q] = f; return f
    return d


@r('stdcxx::format')
def _(ex, this, args, e): used('stdcxx::format (text of messages not modelled)'); return Opaque('str') if False else z3.Const(ex.freshname('msg'), Str)


@r('stdcxx::toString')
def _(ex, this, args, e):
    v = val(ex, args[0])
    if isz(v) and v.sort() == Str: return v
    if isinstance(v, int) and not isinstance(v, bool): return lit(str(v))
    if isz(v) and v.sort() == z3.IntSort(): return z3.Function('str_of_int', z3.IntSort(), Str)(v)
    if isinstance(v, D): return z3.Function('str_of_dbl', Dbl, Str)(v.term())
    return NotImplemented


@r('stdcxx::demangle')
def _(ex, this, args, e): return z3.Const(ex.freshname('demangled'), Str)


@r('powsybl::logging::LoggerFactory::getLogger')
def _(ex, this, args, e): return Place(('v', _logger(ex)))


def _logger(ex):
    k = ('t', 'logger')
    ex.loc[k] = Opaque('powsybl::logging::Logger'); return k


for _n in ('debug', 'error', 'info', 'trace', 'warn', 'log'):
    REPO['powsybl::logging::Logger::' + _n] = lambda ex, this, args, e: None
for _n in ('isDebugEnabled', 'isErrorEnabled', 'isInfoEnabled', 'isTraceEnabled', 'isWarnEnabled'):
    REPO['powsybl::logging::Logger::' + _n] = lambda ex, this, args, e: False


def exc_ctor(ex, this, args, e): return None


# ---------------------------------------------------------------- references
def ptrval(ex, v):
    """raw pointer of a pointer-like value"""
    v = val(ex, v)
    return v


def ref_ctor(ex, f, args):
    if not args: return NULL
    a = args[0]
    pt = f['ps'][0] if f.get('ps') else None
    inner = ex.strip(pt) if pt else None
    if inner and ex.kind(inner) == 'ptr': # copy / move from pointer-like
        return val(ex, a)
    if isinstance(a, Place): return ex.addr(a)
    return a


def from_list(ex, lst, tk):
    k = ex.kind(tk)
    if k == 'vec': return Vec(ex.elem(tk), items=list(lst), tk=tk)
    if k in ('map', 'set'):
        m = ex.empty(tk)
        for x in lst:
            if k == 'set': m = m_insert(ex, m, x, None)[0]
            else: m = m_insert(ex, m, x.a if isinstance(x, Pair) else x[0], x.b if isinstance(x, Pair) else x[1])[0]
        return m
    if k == 'pair': a = ex.T(tk)['a']; return Pair(lst[0], lst[1], a[0], a[1])
    if k == 'cx': return Cx(lst[0], lst[1] if len(lst) > 1 else D.const(0))
    if len(lst) == 0: return ex.empty(tk)
    if len(lst) == 1: return lst[0]
    raise Unsup('brace initialisation of ' + tk)


# ---------------------------------------------------------------- construction of library values
def construct(ex, e, tk, args):
    f = e['f']; t = ex.T(tk); n = t.get('n', ''); k = ex.kind(tk)
    if e.get('elid') and len(args) == 1: return val(ex, args[0])
    if f.get('copy') or f.get('move'):
        src = args[0]; v = val(ex, src)
        if f.get('move') and k == 'ptr' and n == 'std::unique_ptr' and isinstance(src, Place): ex.write(src, NULL)
        elif f.get('move') and k in ('vec', 'map', 'set') and isinstance(src, Place): ex.write(src, ex.empty(tk))
        if k == 'ptr' and isinstance(v, Place): v = ex.addr(v)
        return v
    if k == 'str':
        if not args or (len(args) == 1 and isinstance(val(ex, args[0]), Opaque) and 'allocator' in val(ex, args[0]).tk): return lit('')
        v = val(ex, args[0])
        if isz(v) and v.sort() == Str: return v
        if isinstance(v, TypeIdx): return lit('type:' + v.n)
        if isz(v) and v.sort() == Ref:
            return z3.Const(ex.freshname('str'), Str)
        return z3.Const(ex.freshname('str'), Str)
    if k == 'ptr':
        if not args: return NULL
        src = args[0]; v = val(ex, src)
        if n == 'std::reference_wrapper':
            inner = ex.strip(f['ps'][0]) if f.get('ps') else None
            if isinstance(src, Place) and (inner is None or ex.kind(inner) != 'ptr'): return ex.addr(src)
            return ex.addr(v) if isinstance(v, Place) else v
        if n == 'std::unique_ptr' and isinstance(src, Place) and f.get('ps') and ex.T(f['ps'][0])['k'] == 'rr': ex.write(src, NULL)
        if isinstance(v, Opaque): return NULL
        return v
    if k == 'vec':
        if not args: return ex.empty(tk)
        a0 = val(ex, args[0])
        if isinstance(a0, list): return from_list(ex, a0, tk)
        if isinstance(a0, Vec): # from initializer_list / vector
            return Vec(ex.elem(tk), a0.n, a0.arr, a0.items, tk=tk)
        if isinstance(a0, It):
            return lib_from_iters(ex, a0, val(ex, args[1]), tk)
        if isinstance(a0, (int,)) or (isz(a0) and a0.sort() == z3.IntSort()):
            et = ex.elem(tk)
            if len(args) >= 2 and not isinstance(val(ex, args[1]), Opaque) or (len(args) >= 2 and ex.kind(et) == 'opaque'): x = val(ex, args[1])
            else: x = ex.empty(et)
            x = ex.coerce(x, et)
            return vec_fill(ex, a0, x, tk)
        if isinstance(a0, Opaque): return ex.empty(tk)
    if k in ('map', 'set'):
        if not args: return ex.empty(tk)
        a0 = val(ex, args[0])
        if isinstance(a0, Vec):
            if a0.items is None: raise Unsup('map from symbolic list')
            return from_list(ex, a0.items, tk)
        if isinstance(a0, list): return from_list(ex, a0, tk)
        if isinstance(a0, It): return lib_from_iters(ex, a0, val(ex, args[1]), tk)
        if isinstance(a0, (Opaque, Lam, FnV, int)): return ex.empty(tk)
        if isinstance(a0, Map): return a0
    if k == 'opt':
        if not args: return ex.empty(tk)
        v = val(ex, args[0])
        if isinstance(v, Opaque) and ('none' in v.tk or (isinstance(v.info, str) and 'none' in v.info)): return ex.empty(tk)
        if isinstance(v, Opt): return v
        if len(args) == 2 and (isinstance(v, bool) or isz(v) and v.sort() == z3.BoolSort()): return Opt(t['a'][0], v, val(ex, args[1]))
        return Opt(t['a'][0], True, ex.coerce(v, t['a'][0]))
    if k == 'pair':
        if not args: return ex.empty(tk)
        if len(args) == 1: return val(ex, args[0])
        return Pair(val(ex, args[0]), val(ex, args[1]), t['a'][0], t['a'][1])
    if k == 'cx':
        if not args: return Cx(D.const(0), D.const(0))
        v = val(ex, args[0])
        if isinstance(v, Cx): return v
        return Cx(v, val(ex, args[1]) if len(args) > 1 else D.const(0))
    if n == 'std::function':
        if not args: return Opaque(tk, 'emptyfn')
        v = val(ex, args[0])
        return v
    if n.endswith('any_range') or n.endswith('iterator_range') or n.endswith('sub_range'):
        if not args: return Rng(Vec(None, items=[]), [])
        a0 = val(ex, args[0])
        if isinstance(a0, (Rng,)): return a0
        if isinstance(a0, It): return rng_of_iters(ex, a0, val(ex, args[1]))
        return Rng(args[0] if isinstance(args[0], Place) else a0, [])
    if n.startswith('boost::bimaps::relation::') and len(args) == 2: return Pair(val(ex, args[0]), val(ex, args[1]), None, None)
    if 'iterator' in n.lower() or n.endswith('_iterator') or 'Iterator' in n:
        if args:
            v = val(ex, args[0])
            if isinstance(v, It): return v
        return Opaque(tk)
    if n in ('std::basic_ostringstream', 'std::__cxx11::basic_ostringstream', 'std::basic_stringstream', 'boost::basic_format', 'std::allocator', 'std::lock_guard', 'std::unique_lock', 'std::mutex', 'std::locale', 'boost::none_t', 'std::less', 'boost::filesystem::path'): return Opaque(tk)
    if n.startswith('std::') and ('error' in n or 'exception' in n or 'out_of_range' in n or 'argument' in n): return Opaque(tk)
    if t['k'] == 'lambda': return val(ex, args[0])
    return Opaque(tk)


def lib_from_iters(ex, a, b, tk):
    if isinstance(a, It) and isinstance(b, It):
        r = rng_of_iters(ex, a, b)
        import loops
        xs = loops.concrete(ex, loops.as_seq(ex, r))
        if xs is not None: return from_list(ex, [val(ex, x) for x in xs], tk)
        src = val(ex, r.src)
        if isinstance(src, Vec) and not r.ads and ex.kind(tk) == 'vec': return Vec(ex.elem(tk), src.n, src.arr, src.items, tk=tk)
        if isinstance(src, Map) and not r.ads and ex.kind(tk) == 'set' and src.vt is None: return Map(src.kt, None, src.has, None, src.n, tk=tk)
    raise Unsup('container from iterators')


def rng_of_iters(ex, a, b):
    if isinstance(a, It) and a.kind == 'rng': return a.place
    if isinstance(a, It) and a.begin: return Rng(a.place, [])
    if isinstance(a, It) and a.kind == 'vec' and isinstance(b, It): return Rng(a.place, [('slice', a.pos, b.pos)])
    raise Unsup('partial iterator range')


def vec_fill(ex, n, x, tk):
    n = norm(n)
    et = ex.elem(tk)
    if isinstance(n, int) and n <= 64: return Vec(et, items=[x] * n, tk=tk)
    es = ex.sort(et)
    return Vec(et, n, z3.K(z3.IntSort(), ex.to_term(x, et)), tk=tk)


def lam_arr(ex, f, es):
    """array defined pointwise by f(index term)"""
    i = z3.Int(ex.freshname('li'))
    return z3.Lambda([i], f(i))


def v_resize(ex, v, n, x):
    n = norm(n); 
    if v.items is not None and isinstance(n, int):
        it = list(v.items)
        return Vec(v.et, items=it[:n] + [x] * (n - len(it)), tk=v.tk)
    v = ex.vec_sym(v)
    if isz(n) and isz(v.n):
        o = ex.o; ex.o = dict(o, goal_ms=200)
        try: same = ex.proves(n == v.n)
        finally: ex.o = o
        if same: return Vec(v.et, n, v.arr, tk=v.tk)
    xt = ex.to_term(x, v.et)
    arr = lam_arr(ex, lambda i: z3.If(i < i2z(v.n), z3.Select(v.arr, i), xt), None)
    return Vec(v.et, n, arr, tk=v.tk)


def v_push(ex, v, x):
    if v.items is not None: return Vec(v.et, items=list(v.items) + [x], tk=v.tk)
    return Vec(v.et, ex.iop('+', v.n, 1, 'unsigned long') if isinstance(v.n, int) else v.n + 1, z3.Store(v.arr, i2z(v.n), ex.to_term(x, v.et)), tk=v.tk)


def mk_elem(ex, et, args, f):
    """element of type et built in place from args"""
    if len(args) == 1:
        v = val(ex, args[0])
        k = ex.kind(et)
        if k == 'ptr':
            n = ex.tn(et)
            if n in ('std::reference_wrapper', 'stdcxx::Reference') and isinstance(args[0], Place) and not (isz(v) and v.sort() == Ref and not args[0].isobj()): return ex.addr(args[0])
            if n == 'std::unique_ptr' and isinstance(args[0], Place) and not args[0].isobj(): ex.write(args[0], NULL)
            return v
        if k == 'sv' and not isinstance(v, SV): pass
        elif k in ('vec',) and isinstance(v, list): return from_list(ex, v, et)
        else: return ex.coerce(v, et)
    k = ex.kind(et)
    if not args and k != 'sv': return ex.empty(et)
    if k == 'pair': a = ex.T(et)['a']; return Pair(val(ex, args[0]), val(ex, args[1]), a[0], a[1])
    if k == 'sv':
        for m in ex.p.recs[et]['methods']:
            if m['ctor'] and len(m['ps']) == len(args) and m['id'] in ex.p.fns and not (len(args) == 1 and ex.strip(m['ps'][0][1]) == et):
                ff = ex.p.fns[m['id']].o['f']
                return ex.newobj_args(et, ff, args)
    if k == 'cx': return Cx(val(ex, args[0]), val(ex, args[1]))
    if k == 'str': return z3.Const(ex.freshname('str'), Str)
    raise Unsup('in-place construction of ' + et)


# maps ------------------------------------------------------------
def m_has(ex, m, k):
    kt = ex.to_term(k, m.kt)
    a = m.has
    while z3.is_app_of(a, z3.Z3_OP_STORE):
        e = Eq(a.arg(1), kt)
        if not isinstance(e, bool):
            kk = ex.known.get(e.get_id())
            e = kk[1] if kk else e
        if e is True: return norm(a.arg(2))
        if e is False: a = a.arg(0); continue
        break
    else:
        if z3.is_K(a): return norm(a.arg(0))
    c = norm(z3.simplify(z3.Select(a, kt)))
    if isz(c) and not isinstance(m.n, int): ex._fact(Implies(c, m.n >= 1))
    return c


def m_insert(ex, m, k, v, overwrite=False):
    """(new map, inserted?)"""
    h = m_has(ex, m, k); kt = ex.to_term(k, m.kt)
    has = z3.Store(m.has, kt, z3.BoolVal(True))
    n = m.n + 1 if h is False else m.n if h is True else z3.If(h, i2z(m.n), i2z(m.n) + 1)
    vv = None
    if m.vt is not None:
        vt = ex.to_term(v, m.vt)
        vv = z3.Store(m.val, kt, vt)
        if not overwrite:
            if h is True: vv = m.val
            elif h is not False: vv = z3.Store(m.val, kt, z3.If(h, z3.Select(m.val, kt), vt))
    if h is True: has = m.has
    keys = None
    if m.keys is not None and h is False: keys = m.keys + [k]
    elif m.keys is not None and h is True: keys = m.keys
    return Map(m.kt, m.vt, has, vv, norm(n), keys, tk=m.tk), Not(h)


def m_erase(ex, m, k):
    h = m_has(ex, m, k); kt = ex.to_term(k, m.kt)
    if h is False: return m, False
    n = (m.n - 1) if h is True else z3.If(h, i2z(m.n) - 1, i2z(m.n))
    keys = None
    if m.keys is not None and h is True:
        ks = [x for x in m.keys if not (Eq(ex.to_term(x, m.kt), kt) is True)]
        if len(ks) == len(m.keys) - 1: keys = ks
    return Map(m.kt, m.vt, z3.Store(m.has, kt, z3.BoolVal(False)), m.val, norm(n), keys, tk=m.tk), h


# ordered containers (std::map, std::set, std::multi* excluded) over numbers: the position of a key is given by the order
def ordered(ex, m):
    return m.tk is not None and (ex.tn(m.tk) or '').split('<')[0] in ('std::map', 'std::set') and ex.kind(m.kt) in ('dbl', 'int', 'enum')


def key_lt(ex, m, a, b):
    if 'greater<' in m.tk: a, b = b, a
    if ex.kind(m.kt) == 'dbl': return ex.dop('<', D.of(a) if isz(a) else a, D.of(b) if isz(b) else b)
    return ex.iop('<', a, b, 'long')


def om_extreme(ex, m, this, cond, last=False, name=None):
    """iterator to the first (last) key for which cond holds; end when there is none"""
    ks = m.has.sort().domain()
    k = z3.Function(name + str(m.has.sort()), m.has.sort(), ks)(m.has) if name else z3.Const(ex.freshname('ok'), ks)
    key = ex.from_term(k, m.kt)
    before = lambda a, b: key_lt(ex, m, b, a) if last else key_lt(ex, m, a, b)
    if cond is None:
        some = Not(Eq(m.n, 0))
        if isz(some): ex._fact(Implies(some, z3.Select(m.has, k)))
        elif some: ex._fact(z3.Select(m.has, k))
    else:
        some = z3.Bool(ex.freshname('ob'))
        ex._fact(Implies(some, And(z3.Select(m.has, k), cond(key))))
    c = cond or (lambda j: True)
    if m.keys is not None:
        for x in m.keys: ex._fact(Implies(c(x), And(some, Not(before(x, key)))))
        if m.keys: ex._fact(Implies(some, Or(*[ex.same(key, x) for x in m.keys])))
    else:
        j = z3.Const(ex.freshname('oj'), ks); J = ex.from_term(j, m.kt)
        ex._fact(z3.ForAll([j], Implies(And(z3.Select(m.has, j), c(J)), And(some, Not(before(J, key)))), patterns=[z3.Select(m.has, j)]))
    return It('map', this, key=key, valid=some)


def om_first(ex, m, this):
    it = om_extreme(ex, m, this, None, name='first:'); it.begin = True; return it


def om_step(ex, it, d):
    m = val(ex, it.place)
    if not ordered(ex, m): raise Unsup('iterator increment')
    if d > 0:
        if it.valid is not True: ex.bounds(it.valid)
        return om_extreme(ex, m, it.place, lambda j: key_lt(ex, m, it.key, j))
    if it.valid is False: r_ = om_extreme(ex, m, it.place, None, True, name='last:')
    elif it.valid is True or ex.choose(it.valid): r_ = om_extreme(ex, m, it.place, lambda j: key_lt(ex, m, j, it.key), True)
    else: r_ = om_extreme(ex, m, it.place, None, True, name='last:')
    if r_.valid is not True: ex.bounds(r_.valid)
    return It('map', it.place, key=r_.key, valid=True)


def asint(h): return 1 if h is True else 0 if h is False else z3.If(h, z3.IntVal(1), z3.IntVal(0))


# ---------------------------------------------------------------- iterators
def it_step(ex, it, d):
    if it.kind == 'vec': return It('vec', it.place, pos=ex.iop('+', it.pos, d, 'long'))
    if it.kind == 'map': return om_step(ex, it, d)
    raise Unsup('iterator increment')


def it_eq(ex, a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, It) and isinstance(y, It):
            if x.kind == 'map' and y.kind == 'map':
                if y.valid is False: return Not(x.valid)
                if x.begin and y.begin: return True
                if x.key is not None and y.key is not None: return Or(And(Not(x.valid), Not(y.valid)), And(x.valid, y.valid, ex.same(x.key, y.key)))
            if x.kind == 'vec' and y.kind == 'vec': return Eq(x.pos, y.pos)
            if x.kind == 'map' and x.begin and y.kind == 'map' and y.valid is False: return Eq(val(ex, x.place).n, 0)
    raise Unsup('iterator comparison')


def it_deref(ex, it):
    if it.kind == 'vec': return it.place.sub(('i', it.pos)) if isinstance(it.place, Place) else ex.vget(it.place, it.pos)
    if it.kind in ('map', 'rmap'):
        if it.begin and it.key is None: raise Unsup('dereference of map begin')
        if it.valid is not True: ex.bounds(it.valid)
        m = val(ex, it.place)
        if m.vt is None: return it.key
        # pair<const K, V>&
        return PairPlace(ex, it)
    if it.kind == 'opt': return it.place
    raise Unsup('iterator dereference')


def PairPlace(ex, it):
    k = ('t', ex.freshname('mp'))
    ex.loc[k] = Pair(it.key, it.place.sub(('k', it.key)) if isinstance(it.place, Place) else ex.mget(val(ex, it.place), it.key))
    return Place(('v', k))


OPS = {'operator==': '==', 'operator!=': '!=', 'operator<': '<', 'operator>': '>', 'operator<=': '<=', 'operator>=': '>=', 'operator+': '+', 'operator-': '-', 'operator*': '*', 'operator/': '/'}


def throw(cls, e): raise CppThrow(cls, None, (e or {}).get('l'))


# ---------------------------------------------------------------- calls
def call(ex, f, this, args, e):
    q, n = f['q'], f['n']
    cls = f.get('cls')
    used(q.split('<')[0] + ('' if cls is None else '::' + n) if False else (ex.tn(cls) + '::' + n if cls and ex.tn(cls) else q))
    if cls is not None and this is not None and isinstance(this, Place) and ex.tn(cls) in ('std::__atomic_base', 'std::atomic'):
        used('std::atomic (operations executed as indivisible steps)')
        old = ex.read(this)
        if n in ('operator++', 'operator--', 'fetch_add', 'fetch_sub'):
            d = val(ex, args[0]) if n.startswith('fetch') else 1
            new = old + d if n in ('operator++', 'fetch_add') else old - d
            ex.write(this, new); return old if n.startswith('fetch') or args else new
        if n in ('store', 'operator='): ex.write(this, val(ex, args[0])); return None
        if n in ('load',) or n.startswith('operator '): return old
    if cls is not None and this is not None:
        k = ex.kind(cls)
        h = METH.get(k)
        tv = val(ex, this)
        if isinstance(tv, (Lam, FnV)) and n == 'operator()': return ex.call_value(tv, args)
        if n == 'operator bool' and isinstance(tv, (Lam, FnV)): return True
        if isinstance(tv, It): h = m_iter
        if isinstance(tv, Rng): h = m_rng
        if isinstance(tv, Opt) and k != 'opt': h = m_opt
        if isinstance(tv, Vec) and k not in ('vec',): h = m_vec
        if isinstance(tv, Map) and k not in ('map', 'set'): h = m_map
        if isinstance(tv, Cx): h = m_cx
        if isinstance(tv, Pair) and 'bimap' in cls: h = m_bimap
        if h is not None:
            r_ = h(ex, f, this, args, e, tv)
            if r_ is not NotImplemented: return r_
        r_ = m_opaque(ex, f, this, args, e, tv)
        if r_ is not NotImplemented: return r_
        raise Unsup('library method %s::%s' % (ex.tn(cls) or cls, n))
    return free(ex, f, args, e)


def m_str(ex, f, this, args, e, s):
    n = f['n']
    if n == 'empty': return Eq(s, lit(''))
    if n in ('size', 'length'):
        t = littext(s)
        if t is not None: return len(t)
        l = z3.Function('strlen', Str, z3.IntSort())(s); ex._fact(z3.And(l >= 0, (l == 0) == (s == lit('')))); return l
    if n in ('operator=', 'assign'):
        v = val(ex, args[0]); ex.write(this, v if isz(v) and v.sort() == Str else z3.Const(ex.freshname('str'), Str)); return this
    if n in ('c_str', 'data', 'str', 'string', 'to_string'): return s
    if n in ('operator+=', 'append'):
        v = val(ex, args[0])
        if not (isz(v) and v.sort() == Str): v = z3.Const(ex.freshname('str'), Str)
        ex.write(this, ex.concat(s, v)); return this
    if n == 'compare': return z3.If(Eq(s, val(ex, args[0])), z3.IntVal(0), z3.Int(ex.freshname('cmp')))
    if n == 'clear': ex.write(this, lit('')); return None
    if n in ('begin', 'cbegin') and isinstance(this, Place): return It('str', this, pos=0)
    if n in ('end', 'cend') and isinstance(this, Place): return It('str', this, pos=m_str(ex, dict(f, n='size'), this, args, e, s))
    if n == 'insert' and len(args) == 2:
        i, c = val(ex, args[0]), val(ex, args[1])
        if isinstance(i, It) and i.kind == 'str' and Eq(i.pos, 0) is True and (isinstance(c, int) or isz(c) and c.sort() == z3.IntSort()):
            ex.write(this, strcons(ex, c, s)); return It('str', this, pos=0)
        if isinstance(i, It) and i.kind == 'str': raise Unsup('insertion into a string')
    if n in ('operator==', 'operator!=', 'operator<'):
        r_ = str_op(ex, OPS[n], s, val(ex, args[0])); return r_
    if n in ('name', 'hash_code'): return s
    if n in ('substr',): return z3.Function('substr', Str, z3.IntSort(), z3.IntSort(), Str)(s, i2z(val(ex, args[0])), i2z(val(ex, args[1])) if len(args) > 1 else z3.IntVal(-1))
    if n in ('find', 'rfind', 'find_first_of'): return z3.Int(ex.freshname('strpos'))
    return NotImplemented


STRCONS = z3.Function('strcons', z3.IntSort(), Str, Str)


def strcons(ex, c, s):
    """character c followed by s"""
    if isz(c):
        k = z3.Int(ex.freshname('char')); ex._fact(k == c); c = k
    r_ = STRCONS(i2z(c), s)
    l = z3.Function('strlen', Str, z3.IntSort())
    ex._fact(z3.And(l(r_) == l(s) + 1, l(s) >= 0, l(lit('')) == 0, r_ != lit('')))
    for h in ex.o.get('strcons', []): h(ex, c, s, r_)
    return r_


def str_op(ex, op, a, b):
    if isinstance(a, TypeIdx): a = lit('type:' + a.n)
    if isinstance(b, TypeIdx): b = lit('type:' + b.n)
    if op == '==': return Eq(a, b)
    if op == '!=': return Not(Eq(a, b))
    if op == '+': return ex.concat(a, b)
    lt = z3.Function('strlt', Str, Str, z3.BoolSort())
    if op == '<': return lt(a, b)
    if op == '>': return lt(b, a)
    if op == '<=': return z3.Not(lt(b, a))
    if op == '>=': return z3.Not(lt(a, b))
    return NotImplemented


def m_ptr(ex, f, this, args, e, p):
    n = f['n']; tn = ex.tn(f['cls'])
    if isinstance(p, Place): p = ex.addr(p)
    if n == 'get':
        if tn == 'stdcxx::Reference':
            if isinstance(p, PPtr): return p.place
            if ex.choose(Eq(p, NULL)): throw('std::runtime_error', e)
            return Place(('o', p))
        if tn == 'std::reference_wrapper':
            return ex.deref(p)
        return p
    if n in ('operator*', 'operator->'):
        return ex.deref(p) if n == 'operator*' else p
    if n == 'operator bool': return True if isinstance(p, PPtr) else Not(Eq(p, NULL))
    if n == 'operator!': return False if isinstance(p, PPtr) else Eq(p, NULL)
    if n == 'release': ex.write(this, NULL); return p
    if n == 'reset':
        ex.write(this, val(ex, args[0]) if args else NULL); return None
    if n == 'operator=':
        a = args[0]; v = val(ex, a)
        pt = ex.strip(f['ps'][0])
        if ex.kind(pt) == 'ptr':
            if tn == 'std::unique_ptr' and isinstance(a, Place) and not a.isobj():
                ex.write(a, NULL)
            ex.write(this, ex.addr(v) if isinstance(v, Place) else v)
        elif isinstance(v, Opaque) or (ex.tn(pt) or '').startswith('std::nullptr') or 'nullptr' in pt: ex.write(this, NULL)
        elif isinstance(a, Place): ex.write(this, ex.addr(a))
        else: ex.write(this, v)
        return this
    if n in ('operator==', 'operator!='):
        a = args[0]; v = val(ex, a)
        if isinstance(v, Place): v = ex.addr(v)
        elif isinstance(a, Place) and ex.kind(ex.strip(f['ps'][0])) != 'ptr': v = ex.addr(a)
        c = ex.pptr_eq(p, v) if isinstance(p, PPtr) or isinstance(v, PPtr) else Eq(p, v)
        return c if n == 'operator==' else Not(c)
    if f.get('conv') or n.startswith('operator '):  # operator T&
        if tn == 'stdcxx::Reference' and not isinstance(p, PPtr):
            if ex.choose(Eq(p, NULL)): throw('std::runtime_error', e)
        return ex.deref(p)
    if n == 'swap':
        o = val(ex, args[0]); ex.write(args[0], p); ex.write(this, o); return None
    return NotImplemented


def cplace(ex, this, v):
    """container place (temporaries get one)"""
    if isinstance(this, Place): return this
    k = ('t', ex.freshname('cont')); ex.loc[k] = v
    return Place(('v', k))


def m_vec(ex, f, this, args, e, v):
    n = f['n']
    this = cplace(ex, this, v)
    if n in ('size', 'length'): return v.n
    if n == 'empty': return Eq(v.n, 0)
    if n == 'operator[]':
        i = val(ex, args[0])
        return velem(ex, this, v, i)
    if n == 'at':
        i = val(ex, args[0])
        inb = And(ex.iop('<', i, v.n, 'unsigned long')) if True else None
        if not ex.choose(inb): throw('std::out_of_range', e)
        return velem(ex, this, v, i, True)
    if n == 'front': return velem(ex, this, v, 0)
    if n == 'back': return velem(ex, this, v, v.n - 1 if isinstance(v.n, int) else v.n - 1)
    if n in ('push_back', 'emplace_back', 'push_front'):
        x = mk_elem(ex, v.et, args, f)
        v = val(ex, this)
        ex.write(this, v_push(ex, v, x)); return None
    if n == 'pop_back':
        if v.items is not None: ex.write(this, Vec(v.et, items=v.items[:-1], tk=v.tk))
        else: ex.write(this, Vec(v.et, v.n - 1, v.arr, tk=v.tk))
        return None
    if n == 'clear': ex.write(this, Vec(v.et, items=[], tk=v.tk)); return None
    if n in ('reserve', 'shrink_to_fit'): return None
    if n == 'resize':
        x = val(ex, args[1]) if len(args) > 1 else ex.empty(v.et) if ex.kind(v.et) != 'sv' else mk_elem(ex, v.et, [], f)
        ex.write(this, v_resize(ex, v, val(ex, args[0]), ex.coerce(x, v.et))); return None
    if n in ('begin', 'cbegin'): return It('vec', this, pos=0, begin=True)
    if n in ('end', 'cend'): return It('vec', this, pos=v.n)
    if n in ('operator=', 'assign') and len(args) == 1:
        x = val(ex, args[0])
        if isinstance(x, list): x = from_list(ex, x, f['cls'])
        if f.get('moveasg') and isinstance(args[0], Place): ex.write(args[0], Vec(v.et, items=[], tk=v.tk))
        ex.write(this, Vec(v.et, x.n, x.arr, x.items, tk=v.tk)); return this
    if n == 'erase' and len(args) == 1:
        it = val(ex, args[0]); i = it.pos
        if v.items is not None and isinstance(i, int):
            ex.write(this, Vec(v.et, items=v.items[:i] + v.items[i + 1:], tk=v.tk))
        else:
            v = ex.vec_sym(v)
            arr = lam_arr(ex, lambda j: z3.If(j < i2z(i), z3.Select(v.arr, j), z3.Select(v.arr, j + 1)), None)
            ex.write(this, Vec(v.et, v.n - 1, arr, tk=v.tk))
        return It('vec', this, pos=i)
    if n == 'swap':
        o = val(ex, args[0]); ex.write(args[0], v); ex.write(this, o); return None
    if n in ('operator==', 'operator!='):
        c = ex.same(v, val(ex, args[0])); return c if n == 'operator==' else Not(c)
    if n == 'insert' and len(args) == 2 and isinstance(val(ex, args[0]), It):
        it = val(ex, args[0])
        if it.pos is v.n or (isinstance(it.pos, int) and it.pos == v.n) or (isz(it.pos) and isz(v.n) and it.pos.eq(v.n)):
            ex.write(this, v_push(ex, v, mk_elem(ex, v.et, args[1:], f))); return None
    return NotImplemented


def velem(ex, this, v, i, checked=False):
    i = norm(i)
    if ex.idxlog is not None: ex.idxlog.append((this, i, v.n))
    if not checked:
        if v.items is not None and isinstance(i, int):
            if not 0 <= i < len(v.items):
                ex.ub('vector index out of bounds')
                raise PathEnd()
        else:
            inb = And(ex.iop('>=', i, 0, 'long'), ex.iop('<', i, v.n, 'long'))
            ex.bounds(inb)
    if v.items is not None and isinstance(i, int) and isinstance(v.items[i], Place): return v.items[i]
    if v.items is not None and not isinstance(i, int) and v.items and isinstance(v.items[0], Place): return ex.vget(v, i)
    return this.sub(('i', i))


def m_map(ex, f, this, args, e, m):
    n = f['n']
    this = cplace(ex, this, m)
    if n == 'size': return m.n
    if n == 'empty': return Eq(m.n, 0)
    if n == 'find':
        k = val(ex, args[0]); k = keyval(ex, k, args[0], m.kt)
        return It('map', this, key=k, valid=m_has(ex, m, k))
    if n == 'count':
        k = keyval(ex, val(ex, args[0]), args[0], m.kt); return asint(m_has(ex, m, k))
    if n in ('end', 'cend'): return It('map', this, valid=False)
    if n in ('lower_bound', 'upper_bound') and ordered(ex, m):
        k = keyval(ex, val(ex, args[0]), args[0], m.kt)
        return om_extreme(ex, m, this, (lambda j: Not(key_lt(ex, m, j, k))) if n == 'lower_bound' else (lambda j: key_lt(ex, m, k, j)))
    if n in ('rbegin', 'crbegin') and ordered(ex, m):
        it = om_extreme(ex, m, this, None, True, name='last:'); return It('rmap', this, key=it.key, valid=it.valid)
    if n in ('rend', 'crend') and ordered(ex, m): return It('rmap', this, valid=False)
    if n in ('begin', 'cbegin'):
        if m.keys is not None and len(m.keys) == 1: return It('map', this, key=m.keys[0], valid=True, begin=True)
        if isinstance(m.n, int): return It('map', this, begin=True, valid=m.n != 0)
        if ordered(ex, m): return om_first(ex, m, this)
        # the first element is some element of a non-empty container
        k = z3.Function('first:' + str(m.has.sort()), m.has.sort(), m.has.sort().domain())(m.has)
        ex._fact(z3.Implies(i2z(m.n) > 0, z3.Select(m.has, k)))
        return It('map', this, key=k, begin=True, valid=Not(Eq(m.n, 0)))
    if n == 'operator[]':
        k = keyval(ex, val(ex, args[0]), args[0], m.kt)
        h = m_has(ex, m, k)
        if h is not True:
            d = ex.empty(m.vt)
            try:
                m2, _ = m_insert(ex, m, k, d)
            except Unsup:
                if not ex.choose(h): m2, _ = m_insert(ex, m, k, d, True)
                else: m2 = m
            if m2 is not m: ex.write(this, m2)
        return this.sub(('k', k))
    if n == 'at':
        k = keyval(ex, val(ex, args[0]), args[0], m.kt)
        if not ex.choose(m_has(ex, m, k)): throw('std::out_of_range', e)
        return this.sub(('k', k))
    if n in ('insert', 'emplace', 'emplace_hint'):
        if m.vt is None:
            if n == 'insert' and args and isinstance(val(ex, args[0]), It):
                a, b = val(ex, args[0]), val(ex, args[1])
                src = rng_of_iters(ex, a, b); other = val(ex, src.src)
                if isinstance(other, Map) and other.vt is None and not src.ads:
                    if other.keys is not None:
                        for x in other.keys: m, _ = m_insert(ex, m, x, None)
                        ex.write(this, m); return None
                    i = z3.Const(ex.freshname('su'), m.has.sort().domain())
                    has = z3.Lambda([i], z3.Or(z3.Select(m.has, i), z3.Select(other.has, i)))
                    nn = z3.Int(ex.freshname('sz')); ex._fact(And(nn >= 0, nn >= i2z(m.n), nn >= i2z(other.n), nn <= i2z(m.n) + i2z(other.n)))
                    ex.write(this, Map(m.kt, None, has, None, nn, tk=m.tk)); return None
                if isinstance(other, Vec) and other.items is not None and not src.ads:
                    for x in other.items: m, _ = m_insert(ex, m, x, None)
                    ex.write(this, m); return None
                return NotImplemented
            k = mk_elem(ex, m.kt, args, f)
            m = val(ex, this)
            h = m_has(ex, m, k)
            m2, ins = m_insert(ex, m, k, None); ex.write(this, m2)
            return Pair(It('map', this, key=k, valid=True), ins)
        if n == 'insert' or len(args) == 1:
            p = val(ex, args[0])
            if isinstance(p, list): p = Pair(p[0], p[1])
            if not isinstance(p, Pair): return NotImplemented
            k, v = p.a, p.b
            k = val(ex, k); v = val(ex, v)
        else:
            k = mk_elem(ex, m.kt, [args[0]], f)
            if ex.kind(m.vt) == 'ptr' and ex.tn(m.vt) == 'std::unique_ptr':
                v = val(ex, args[1])
            else: v = mk_elem(ex, m.vt, args[1:], f)
        m = val(ex, this)
        if m.vt is not None and isinstance(v, Place): v = ex.addr(v)
        m2, ins = m_insert(ex, m, k, v); ex.write(this, m2)
        return Pair(It('map', this, key=k, valid=True), ins)
    if n == 'erase':
        k = val(ex, args[0])
        if isinstance(k, It):
            if k.key is None: return NotImplemented
            m2, h = m_erase(ex, m, k.key); ex.write(this, m2); return It('map', this, valid=False)
        k = keyval(ex, k, args[0], m.kt)
        m2, h = m_erase(ex, m, k); ex.write(this, m2); return asint(h)
    if n == 'clear': ex.write(this, ex.empty(f['cls'])); return None
    if n in ('operator=',):
        x = val(ex, args[0])
        if isinstance(x, Vec): x = from_list(ex, x.items, f['cls'])
        if f.get('moveasg') and isinstance(args[0], Place): ex.write(args[0], ex.empty(f['cls']))
        ex.write(this, x); return this
    if n in ('reserve', 'rehash'): return None
    if n in ('operator==', 'operator!='):
        c = ex.same(m, val(ex, args[0])); return c if n == 'operator==' else Not(c)
    if n == 'swap':
        o = val(ex, args[0]); ex.write(args[0], m); ex.write(this, o); return None
    return NotImplemented


def keyval(ex, k, a, kt):
    if ex.kind(kt) == 'ptr':
        if isinstance(k, Place): return ex.addr(k)
        if isinstance(a, Place) and not (isz(k) and k.sort() == Ref): return ex.addr(a)
    if isinstance(k, TypeIdx): return lit('type:' + k.n)
    return k


def m_opt(ex, f, this, args, e, o):
    n = f['n']; tn = ex.tn(f['cls'])
    if n in ('is_initialized', 'has_value', 'operator bool'): return o.has
    if n == 'operator!': return Not(o.has)
    if n in ('operator*', 'get', 'operator->'):
        ex.bounds(o.has)
        pl = this.sub(('opt',)) if isinstance(this, Place) else o.v
        if n == 'operator->':
            return PPtr(pl) if isinstance(pl, Place) else pl
        return pl
    if n == 'get_ptr': return PPtr(this.sub(('opt',)))
    if n == 'value':
        if not ex.choose(o.has): throw('boost::bad_optional_access', e)
        return this.sub(('opt',)) if isinstance(this, Place) else o.v
    if n in ('value_or', 'get_value_or'):
        d = val(ex, args[0])
        if o.has is False: return d
        try: return ex.ite(o.has, o.v, ex.coerce(d, o.et))
        except Unsup: return o.v if ex.choose(o.has) else d
    if n in ('operator=',):
        v = val(ex, args[0])
        if isinstance(v, Opaque) and ('none' in v.tk or 'none' in str(v.info)): v = Opt(o.et, False, None)
        elif not isinstance(v, Opt): v = Opt(o.et, True, ex.coerce(v, o.et))
        ex.write(this, v); return this
    if n == 'reset':
        ex.write(this, Opt(o.et, False, None) if not args else Opt(o.et, True, val(ex, args[0]))); return None
    if n == 'emplace':
        ex.write(this, Opt(o.et, True, mk_elem(ex, o.et, args, f))); return None
    if n in ('operator==', 'operator!='):
        c = opt_eq(ex, o, val(ex, args[0])); return c if n == 'operator==' else Not(c)
    return NotImplemented


def opt_eq(ex, a, b):
    if isinstance(b, Opaque) : return Not(a.has)
    if isinstance(a, Opaque): return Not(b.has)
    if not isinstance(a, Opt): a = Opt(b.et, True, a)
    if not isinstance(b, Opt): b = Opt(a.et, True, b)
    def eqv():
        if a.v is None or b.v is None: return True
        if isinstance(a.v, D): return ex.dop('==', a.v, b.v)
        return ex.same(a.v, b.v)
    return Or(And(Not(a.has), Not(b.has)), And(a.has, b.has, eqv()))


def cmul(ex, a, b):
    return Cx(ex.dop('-', ex.dop('*', a.re, b.re), ex.dop('*', a.im, b.im)), ex.dop('+', ex.dop('*', a.re, b.im), ex.dop('*', a.im, b.re)))


def cdiv(ex, a, b):
    den = ex.dop('+', ex.dop('*', b.re, b.re), ex.dop('*', b.im, b.im))
    num = cmul(ex, a, Cx(b.re, neg(b.im)))
    return Cx(ex.dop('/', num.re, den), ex.dop('/', num.im, den))


def neg(d): return D(d.nan, -d.v)


def tocx(v): return v if isinstance(v, Cx) else Cx(v, D.const(0))


def cx_op(ex, op, a, b):
    a, b = tocx(a), tocx(b)
    if op in ('+', '-'): return Cx(ex.dop(op, a.re, b.re), ex.dop(op, a.im, b.im))
    if op == '*': return cmul(ex, a, b)
    if op == '/': return cdiv(ex, a, b)
    c = And(ex.dop('==', a.re, b.re), ex.dop('==', a.im, b.im))
    return c if op == '==' else Not(c)


def m_cx(ex, f, this, args, e, c):
    n = f['n']
    if n == 'real': return c.re
    if n == 'imag': return c.im
    if n == 'operator=':
        ex.write(this, tocx(val(ex, args[0]))); return this
    if n in ('operator+=', 'operator-=', 'operator*=', 'operator/='):
        ex.write(this, cx_op(ex, n[8], c, val(ex, args[0]))); return this
    return NotImplemented


def m_bimap(ex, f, this, args, e, p):
    """boost::bimap (set of pairs without two equal left or two equal right members), as the pair of its two views"""
    n = f['n']; l, r_ = p.a, p.b
    if n == 'size': return l.n
    if n == 'empty': return Eq(l.n, 0)
    if n == 'clear':
        ex.write(this, ex.empty(f['cls'])); return None
    if n == 'insert' and len(args) == 1:
        x = val(ex, args[0])
        if not isinstance(x, Pair): return NotImplemented
        a, b = keyval(ex, val(ex, x.a), x.a, l.kt), keyval(ex, val(ex, x.b), x.b, r_.kt)
        ok = And(Not(m_has(ex, l, a)), Not(m_has(ex, r_, b)))
        if ex.choose(ok): ex.write(this, Pair(m_insert(ex, l, a, b, True)[0], m_insert(ex, r_, b, a, True)[0], p.ta, p.tb)); ok = True
        else: ok = False
        return Pair(Opaque('bimap-iterator'), ok, 'bimap-iterator', 'bool')
    return NotImplemented


def m_pair(ex, f, this, args, e, p):
    if 'bimap' in (f.get('cls') or ''): return m_bimap(ex, f, this, args, e, p)
    if f['n'] == 'operator=': ex.write(this, val(ex, args[0])); return this
    return NotImplemented


def m_bitref(ex, f, this, args, e, b):
    n = f['n']
    if n == 'operator=':
        ex.write(this, ex.tobool(val(ex, args[0]))); return this
    if n == 'operator bool' or f.get('conv'): return ex.tobool(b)
    if n == 'flip': ex.write(this, Not(ex.tobool(b))); return None
    return NotImplemented


def m_iter(ex, f, this, args, e, it):
    n = f['n']
    if n == 'operator*': return it_deref(ex, it)
    if n == 'operator->':
        x = it_deref(ex, it)
        return PPtr(x) if isinstance(x, Place) and not x.isobj() else x
    if n in ('operator++', 'operator--'):
        nv = it_step(ex, it, 1 if n == 'operator++' else -1)
        if isinstance(this, Place): ex.write(this, nv)
        return it if args else (this if isinstance(this, Place) else nv)
    if n in ('operator+', 'operator-') and it.kind == 'vec':
        o = val(ex, args[0])
        if isinstance(o, It): return ex.iop('-', it.pos, o.pos, 'long')
        return It('vec', it.place, pos=ex.iop(n[8], it.pos, o, 'long'))
    if n == 'operator=': ex.write(this, val(ex, args[0])); return this
    if n in ('operator==', 'operator!='):
        c = it_eq(ex, it, val(ex, args[0])); return c if n == 'operator==' else Not(c)
    if f.get('conv') or n in ('base',): return it
    return NotImplemented


def m_rng(ex, f, this, args, e, r_):
    n = f['n']
    if n in ('begin', 'end'): return It('rng', r_, pos=n)
    if n == 'operator=': ex.write(this, val(ex, args[0])); return this
    if n in ('empty',):
        import loops
        xs = loops.concrete(ex, loops.as_seq(ex, r_))
        if xs is not None: return len(xs) == 0
        raise Unsup('emptiness of a symbolic range')
    if n in ('size',):
        import loops
        xs = loops.concrete(ex, loops.as_seq(ex, r_))
        if xs is not None: return len(xs)
        raise Unsup('size of a symbolic range')
    return NotImplemented


def m_opaque(ex, f, this, args, e, v):
    n = f['n']; cls = ex.tn(f['cls']) or ''
    if 'adaptor' in f['q'] or 'range_detail' in f['q']:
        if n == 'operator()':
            nm = (v.info if isinstance(v, Opaque) and isinstance(v.info, str) else '') + '|' + f['q'] + '|' + (f['cls'] or '')
            a = val(ex, args[0]) if args else None
            a = args[0] if isinstance(a, Place) and a.isobj() else a
            if 'filter' in nm: return ('filter', a)
            if 'transform' in nm: return ('map', a)
            if 'indirect' in nm: return ('indirect',)
    if 'stringstream' in cls:
        if n == 'str': return z3.Const(ex.freshname('sstr'), Str)
        return this
    if 'basic_format' in cls:
        if n == 'str': return z3.Const(ex.freshname('fmt'), Str)
        return this
    if 'ostream' in cls: return this
    if cls in ('std::mutex', 'std::lock_guard', 'std::unique_lock'): return None
    if n == 'what': return z3.Const(ex.freshname('what'), Str)
    if n == 'name': 
        if isinstance(v, TypeIdx): return lit('type:' + v.n)
    if n in ('operator==', 'operator!=') and isinstance(v, TypeIdx):
        c = v.n == val(ex, args[0]).n; return c if n == 'operator==' else not c
    if isinstance(v, Opaque) and isinstance(v.info, str) and v.info == 'emptyfn' and n in ('operator bool',): return False
    if cls == 'std::function' and n == 'operator()' and callable(v): return v(*args)
    if cls == 'std::function' and n == 'operator=': ex.write(this, val(ex, args[0])); return this
    if cls == 'std::function' and n == 'operator bool': return ex.tobool(v)
    if cls.startswith('std::numeric_limits'): return free(ex, f, args, e)
    if n == 'operator=' and isinstance(v, Opaque):
        ex.write(this, val(ex, args[0])); return this
    return NotImplemented


METH = {'str': m_str, 'ptr': m_ptr, 'vec': m_vec, 'map': m_map, 'set': m_map, 'opt': m_opt, 'cx': m_cx, 'pair': m_pair, 'bitref': m_bitref}

IDENT = {'std::move', 'std::forward', 'std::__addressof', 'std::as_const', 'boost::move', 'boost::forward'}
SQRT = z3.Function('sqrt', z3.RealSort(), z3.RealSort())
COS = z3.Function('cos', z3.RealSort(), z3.RealSort())
SIN = z3.Function('sin', z3.RealSort(), z3.RealSort())
UF2 = {}


def ufr(n, k=1):
    if (n, k) not in UF2: UF2[(n, k)] = z3.Function('m_' + n, *([z3.RealSort()] * (k + 1)))
    return UF2[(n, k)]


PI = z3.Real('pi')


def free(ex, f, args, e):
    q, n = f['q'], f['n']
    cls = f.get('cls')
    used(q)
    if q in IDENT: return args[0]
    if q in ('std::addressof', 'boost::addressof'): return ex.addr(args[0]) if isinstance(args[0], Place) else args[0]
    if q in ('std::ref', 'std::cref'): return ex.addr(args[0]) if isinstance(args[0], Place) and ex.kind(ex.strip(f['ps'][0])) != 'ptr' else val(ex, args[0])
    if q == 'boost::math::constants::pi':
        ex._fact(z3.And(PI > z3.Q(314, 100), PI < z3.Q(315, 100))); return D(False, PI)
    if n == 'isnan': 
        return val(ex, args[0]).nan
    if n in ('islessgreater', 'isunordered') and q.startswith('std::'):
        a_, b_ = ex.coerce(val(ex, args[0]), 'double'), ex.coerce(val(ex, args[1]), 'double')
        return Or(a_.nan, b_.nan) if n == 'isunordered' else Or(ex.dop('<', a_, b_), ex.dop('>', a_, b_))
    if n in ('isless', 'islessequal', 'isgreater', 'isgreaterequal') and q.startswith('std::'):
        return ex.dop({'isless': '<', 'islessequal': '<=', 'isgreater': '>', 'isgreaterequal': '>='}[n], ex.coerce(val(ex, args[0]), 'double'), ex.coerce(val(ex, args[1]), 'double'))
    if n in ('isinf', 'isfinite') and len(args) == 1:
        d = val(ex, args[0]); inf = And(Not(d.nan), Or(Eq(d.v, INF), Eq(d.v, -INF)))
        return inf if n == 'isinf' else And(Not(d.nan), Not(inf))
    if cls and 'numeric_limits' in cls:
        t = ex.T(cls)['a'][0]
        if n == 'infinity': return D(False, INF)
        if n in ('quiet_NaN', 'signaling_NaN'): return NAN
        if t in ('double', 'float'):
            if n == 'max': return D(False, DBLMAX)
            if n == 'lowest': return D(False, -DBLMAX)
            if n == 'min': ex._fact(z3.And(z3.Real('DBL_MIN') > 0, z3.Real('DBL_MIN') < z3.Q(1, 10 ** 30))); return D(False, z3.Real('DBL_MIN'))
            if n == 'epsilon': return D(False, z3.Q(1, 2 ** 52))
        from core import INTTY
        if t in INTTY:
            b, s = INTTY[t]
            if n == 'max': return (1 << (b - 1)) - 1 if s else (1 << b) - 1
            if n in ('min', 'lowest'): return -(1 << (b - 1)) if s else 0
    if n in OPS and args:
        a, b = val(ex, args[0]), val(ex, args[1]) if len(args) > 1 else None
        op = OPS[n]
        if isinstance(a, It) or isinstance(b, It):
            if op in ('==', '!='):
                c = it_eq(ex, a, b); return c if op == '==' else Not(c)
            if op == '-' and a.kind == 'vec': return ex.iop('-', a.pos, b.pos, 'long')
        if isinstance(a, Cx) or isinstance(b, Cx):
            if b is None: return Cx(neg(a.re), neg(a.im)) if op == '-' else a
            return cx_op(ex, op, a, b)
        if isinstance(a, Opt) or isinstance(b, Opt):
            if op in ('==', '!='):
                c = opt_eq(ex, a, b); return c if op == '==' else Not(c)
        if isinstance(a, TypeIdx) and isinstance(b, TypeIdx):
            c = a.n == b.n; return c if op == '==' else not c
        if isz(a) and a.sort() == Str or isz(b) and b.sort() == Str:
            if not (isz(b) and b.sort() == Str) and op == '+': return z3.Const(ex.freshname('str'), Str)
            if not (isz(a) and a.sort() == Str) and op == '+': return z3.Const(ex.freshname('str'), Str)
            r_ = str_op(ex, op, a, b)
            if r_ is not NotImplemented: return r_
        if isz(a) and a.sort() == Ref or isz(b) and b.sort() == Ref:
            if isinstance(b, Opaque): b = NULL
            if isinstance(a, Opaque): a = NULL
            c = Eq(a, b)
            return c if op == '==' else Not(c)
        if isinstance(a, Vec) and isinstance(b, Vec) or isinstance(a, Map) and isinstance(b, Map) or isinstance(a, Pair) and isinstance(b, Pair):
            c = ex.same(a, b); return c if op == '==' else Not(c)
    if n == 'operator<<' or n == 'operator>>': return args[0]
    if n == 'operator|':
        a, ad = args[0], val(ex, args[1])
        va = val(ex, a)
        nm = ad.info if isinstance(ad, Opaque) and isinstance(ad.info, str) else ''
        nm2 = f['q'] + '|'.join(f.get('ps', []))
        if isinstance(ad, tuple): el = ad
        elif 'indirect' in nm or 'indirect' in nm2: el = ('indirect',)
        elif 'values' in nm or 'map_values' in nm2 or 'select_second' in nm2: el = ('values',)
        elif 'keys' in nm or 'map_keys' in nm2 or 'select_first' in nm2: el = ('keys',)
        elif isinstance(ad, (Lam, FnV)): el = ('filter' if 'filter' in nm2 else 'map', ad)
        else: raise Unsup('range adaptor %s' % (nm2[:120],))
        if isinstance(va, Rng): return Rng(va.src, va.ads + [el])
        return Rng(a if isinstance(a, Place) else va, [el])
    if q.startswith('boost::adaptors::') and args:
        el = dict(values=('values',), map_values=('values',), keys=('keys',), indirect=('indirect',)).get(n)
        if el is None and n in ('transform', 'filter'): el = (dict(transform='map', filter='filter')[n], val(ex, args[1]))
        if el is None: raise Unsup('library function ' + q)
        r0 = as_rng(ex, args[0])
        return Rng(r0.src, list(r0.ads) + [el])
    if q in ('boost::make_iterator_range', 'boost::make_range') and args:
        a0 = val(ex, args[0])
        if isinstance(a0, It) and len(args) == 2: return rng_of_iters(ex, a0, val(ex, args[1]))
        return a0 if isinstance(a0, Rng) else Rng(args[0] if isinstance(args[0], Place) else a0, [])
    if q in ('boost::counting_range', 'boost::irange'):
        lo, hi = val(ex, args[0]), val(ex, args[1])
        return Rng(('count', lo, hi), [])
    if n == 'make_pair': return Pair(val(ex, args[0]), val(ex, args[1]), *(ex.T(f['ret'])['a'][:2] if ex.kind(f['ret']) == 'pair' else (None, None)))
    if n == 'join' and q.startswith('boost'): return Rng(('join', as_rng(ex, args[0]), as_rng(ex, args[1])), [])
    if n in ('begin', 'end', 'cbegin', 'cend') and len(args) == 1:
        v = val(ex, args[0])
        if isinstance(v, Rng): return It('rng', v, pos=n.strip('c') if n in ('cbegin', 'cend') else n)
        this = cplace(ex, args[0], v)
        if isinstance(v, Vec): return It('vec', this, pos=0, begin=True) if 'begin' in n else It('vec', this, pos=v.n)
        if isinstance(v, Map): return It('map', this, begin=True, valid=Not(Eq(v.n, 0))) if 'begin' in n else It('map', this, valid=False)
    if n == 'size' and len(args) == 1:
        v = val(ex, args[0])
        if isinstance(v, (Vec, Map)): return v.n
        if isinstance(v, Rng): return m_rng(ex, dict(n='size'), args[0], [], e, v)
    if n == 'empty' and len(args) == 1:
        v = val(ex, args[0])
        if isinstance(v, (Vec, Map)): return Eq(v.n, 0)
        if isinstance(v, Rng): return m_rng(ex, dict(n='empty'), args[0], [], e, v)
    if n == 'to_string' and q == 'std::to_string':
        v = val(ex, args[0])
        if isinstance(v, int): return lit(str(v))
        if isinstance(v, D): return z3.Const(ex.freshname('str'), Str)
        return z3.Function('str_of_int', z3.IntSort(), Str)(v)
    if q in ('std::min', 'std::max') and len(args) == 2:
        a, b = val(ex, args[0]), val(ex, args[1])
        if isinstance(a, D):
            c = ex.dop('<', b, a) if n == 'min' else ex.dop('<', a, b)
        else: c = ex.iop('<', b, a, 'long') if n == 'min' else ex.iop('<', a, b, 'long')
        return ex.ite(c, b, a)
    m = math(ex, n, q, [val(ex, a) for a in args]) if (q.startswith('std::') or '::' not in q) else NotImplemented
    if m is not NotImplemented: return m
    if q in ('std::get',): 
        v = val(ex, args[0]); i = f.get('ta', [0])[0]
        if isinstance(v, Pair): return v.a if i == 0 else v.b
    if q == 'std::swap':
        a, b = val(ex, args[0]), val(ex, args[1])
        if not isinstance(a, Place):
            ex.write(args[0], b); ex.write(args[1], a); return None
    if q.startswith('std::') or q.startswith('boost::'):
        import algos
        r_ = algos.call(ex, n, q, f, args, e)
        if r_ is not NotImplemented: return r_
    if n == '__assert_fail':
        ex.check('assert: %s' % (args[0] if args and isinstance(args[0], str) else 'condition'), False); raise PathEnd()
    if n in ('time_from_string', 'now'): return Opaque(f['ret'])
    raise Unsup('library function ' + q)


def as_rng(ex, a):
    v = val(ex, a)
    if isinstance(v, Rng): return v
    return Rng(a if isinstance(a, Place) else v, [])


def math(ex, n, q, a):
    if not a: return NotImplemented
    x = a[0]
    if n in ('abs', 'fabs'):
        if isinstance(x, D): return D(x.nan, z3.If(x.v >= 0, x.v, -x.v) if not z3.is_rational_value(x.v) else z3.simplify(z3.If(x.v >= 0, x.v, -x.v)))
        if isinstance(x, int): return abs(x)
        if isinstance(x, Cx): return sqrt_d(ex, ex.dop('+', ex.dop('*', x.re, x.re), ex.dop('*', x.im, x.im)))
        return z3.If(x >= 0, x, -x)
    if n == 'sqrt': return sqrt_d(ex, x)
    if n in ('cos', 'sin') and isinstance(x, D):
        c = COS(x.v); s = SIN(x.v); ex._fact(c * c + s * s == 1)
        return D(x.nan, c if n == 'cos' else s)
    if n in ('tan', 'asin', 'acos', 'atan', 'exp', 'log') and isinstance(x, D): return D(x.nan, ufr(n)(x.v))
    if n == 'atan2': return D(Or(x.nan, a[1].nan), ufr('atan2', 2)(x.v, a[1].v))
    if n == 'hypot': return sqrt_d(ex, ex.dop('+', ex.dop('*', x, x), ex.dop('*', a[1], a[1])))
    if n == 'pow':
        y = a[1]
        if isinstance(y, D) and z3.is_rational_value(y.v) and y.v.as_fraction() == 2 or (isinstance(y, int) and y == 2): return ex.dop('*', x, x)
        if isinstance(y, D): return D(Or(x.nan, y.nan), ufr('pow', 2)(x.v, y.v))
    if n == 'conj': x = tocx(x); return Cx(x.re, neg(x.im))
    if n == 'polar':
        th = a[1] if len(a) > 1 else D.const(0)
        c = math(ex, 'cos', q, [th]); s = math(ex, 'sin', q, [th]); return Cx(ex.dop('*', x, c), ex.dop('*', x, s))
    if n == 'arg' and isinstance(x, Cx): return D(Or(x.re.nan, x.im.nan), ufr('atan2', 2)(x.im.v, x.re.v))
    if n == 'real': return tocx(x).re
    if n == 'imag': return tocx(x).im
    if n == 'norm' and isinstance(x, Cx): return ex.dop('+', ex.dop('*', x.re, x.re), ex.dop('*', x.im, x.im))
    if n in ('round', 'floor', 'ceil', 'lround', 'trunc') and isinstance(x, D): return D(x.nan, ufr(n)(x.v))
    return NotImplemented


def sqrt_d(ex, x):
    if isinstance(x, (int, float)): x = D.const(x)
    s = SQRT(x.v)
    ex._fact(Implies(x.v >= 0, z3.And(s >= 0, s * s == x.v)))
    return D(Or(x.nan, x.v < 0) if not z3.is_rational_value(x.v) else x.nan, s)
