"""Value domain: C++ values as Python objects over z3 terms."""
import z3

_r = z3.Datatype('Ref'); _r.declare('null'); _r.declare('obj', ('oid', z3.IntSort())); _r.declare('sub', ('fld', z3.IntSort()), ('owner', _r)); _r.declare('elt', ('efld', z3.IntSort()), ('eidx', z3.IntSort()), ('eowner', _r)); Ref = _r.create()
NULL = Ref.null
_d = z3.Datatype('Dbl'); _d.declare('nan'); _d.declare('num', ('val', z3.RealSort())); Dbl = _d.create()
Str = z3.DeclareSort('Str')
INF = z3.Real('INF'); DBLMAX = z3.Real('DBL_MAX')
TYPEOF = z3.Function('typeof', Ref, z3.IntSort())
TYPENAME = None   # class id -> type index key (set below)
LITID = z3.Function('litid', Str, z3.IntSort())


class Unsup(Exception):
    """construct outside the executor's reach: the obligation is undecided"""


class PathEnd(Exception):
    pass


class CppThrow(Exception):
    def __init__(self, cls, val=None, line=None):
        self.cls, self.val, self.line = cls, val, line

    def __str__(self): return 'throw %s @%s' % (self.cls, self.line)


def isz(x): return isinstance(x, z3.ExprRef)


def b2z(x): return z3.BoolVal(x) if isinstance(x, bool) else x


def i2z(x):
    if isinstance(x, bool): return z3.IntVal(1 if x else 0)
    return z3.IntVal(x) if isinstance(x, int) else x


def And(*xs):
    out = []
    for x in xs:
        if x is True: continue
        if x is False: return False
        if isz(x):
            if z3.is_true(x): continue
            if z3.is_false(x): return False
        out.append(x)
    if not out: return True
    if len(out) == 1: return out[0]
    return z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        if x is False: continue
        if x is True: return True
        if isz(x):
            if z3.is_false(x): continue
            if z3.is_true(x): return True
        out.append(x)
    if not out: return False
    if len(out) == 1: return out[0]
    return z3.Or(*out)


def Not(x):
    if isinstance(x, bool): return not x
    if z3.is_true(x): return False
    if z3.is_false(x): return True
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)


def Implies(a, b): return Or(Not(a), b)


def Ite(c, a, b):
    """scalar ite on z3/py scalars"""
    if c is True: return a
    if c is False: return b
    if isz(c):
        if z3.is_true(c): return a
        if z3.is_false(c): return b
    if a is b: return a
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b: return a
        return c if a else Not(c)
    if isinstance(a, int) and isinstance(b, int) and type(a) == type(b) and a == b: return a
    a, b = lift(a), lift(b)
    if a.eq(b): return a
    if a.sort() != b.sort():
        if a.sort() == z3.BoolSort(): a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if b.sort() == z3.BoolSort(): b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        if a.sort() == z3.RealSort() and b.sort() == z3.IntSort(): b = z3.ToReal(b)
        if b.sort() == z3.RealSort() and a.sort() == z3.IntSort(): a = z3.ToReal(a)
    return z3.If(c, a, b)


def lift(x):
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, int): return z3.IntVal(x)
    return x


def norm(x):
    """z3 literal -> python"""
    if isz(x):
        if z3.is_int_value(x): return x.as_long()
        if z3.is_true(x): return True
        if z3.is_false(x): return False
    return x


def Eq(a, b):
    if isinstance(a, (bool, int)) and isinstance(b, (bool, int)): return a == b
    a, b = lift(a), lift(b)
    if a.eq(b): return True
    if a.sort() == z3.BoolSort() and b.sort() == z3.IntSort(): a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
    if b.sort() == z3.BoolSort() and a.sort() == z3.IntSort(): b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
    if a.sort() == Str and LITS_R.get(a.get_id()) is not None and LITS_R.get(b.get_id()) is not None: return False
    if a.sort() == Ref:
        r = ref_eq(a, b)
        if r is not None: return r
    return a == b


def ref_eq(a, b):
    """syntactic decision of reference equality, None when unknown"""
    if a.eq(b): return True
    ka, kb = a.decl().kind(), b.decl().kind()
    if ka == z3.Z3_OP_DT_CONSTRUCTOR and kb == z3.Z3_OP_DT_CONSTRUCTOR:
        if not a.decl().eq(b.decl()): return False
        if a.num_args() == 0: return True
        if a.decl().name() == 'elt': return None
        if a.decl().name() == 'obj':
            x, y = a.arg(0), b.arg(0)
            if z3.is_int_value(x) and z3.is_int_value(y): return x.as_long() == y.as_long()
            return None
        x, y = a.arg(0), b.arg(0)
        if z3.is_int_value(x) and z3.is_int_value(y) and x.as_long() != y.as_long(): return False
        return ref_eq(a.arg(1), b.arg(1)) if z3.is_int_value(x) and z3.is_int_value(y) else None
    # fresh object against a term known to denote a pre-existing object
    for x, y in ((a, b), (b, a)):
        if root_fresh(x) and y.get_id() in OLD: return False
    return None


def root_fresh(x):
    while x.decl().name() == 'sub' and x.num_args() == 2: x = x.arg(1)
    return x.decl().name() == 'obj' and x.num_args() == 1 and z3.is_int_value(x.arg(0)) and x.arg(0).as_long() > 0


OLD = {}     # ast id -> term (kept alive), terms known to be null or pre-existing
LITS = {}    # text -> const
LITS_R = {}  # ast id -> text
_ktab = {}


def lit(s):
    if s not in LITS:
        c = z3.Const('str:' + s, Str); LITS[s] = c; LITS_R[c.get_id()] = s
    return LITS[s]


def littext(x): return LITS_R.get(x.get_id()) if isz(x) else None


CLSID = {}


def clsid(name): return CLSID.setdefault(name, len(CLSID) + 1)


FLDID = {}


def fldid(name): return FLDID.setdefault(name, len(FLDID) + 1)


class D:
    """a double: NaN flag and real value (rounding is not modelled)"""
    __slots__ = ('nan', 'v')

    def __init__(self, nan, v): self.nan, self.v = nan, v

    @staticmethod
    def const(x): return D(False, z3.RealVal(x) if not isz(x) else x)

    def term(self):
        if self.nan is True: return Dbl.nan
        if self.nan is False: return Dbl.num(self.v)
        if z3.is_app(self.nan) and self.nan.num_args() == 1 and z3.is_app(self.v) and self.v.num_args() == 1 and self.v.arg(0).eq(self.nan.arg(0)) and self.nan.arg(0).sort() == Dbl and self.nan.decl().kind() == z3.Z3_OP_DT_IS and self.v.decl().kind() == z3.Z3_OP_DT_ACCESSOR: return self.nan.arg(0)
        return z3.If(self.nan, Dbl.nan, Dbl.num(self.v))

    @staticmethod
    def of(t):
        t0 = t
        if t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
            if t.num_args() == 0: return NAN
            return D(False, t.arg(0))
        if z3.is_app_of(t, z3.Z3_OP_ITE) and t.arg(1).eq(Dbl.nan) and t.arg(2).decl().eq(Dbl.num):
            return D(t.arg(0), t.arg(2).arg(0))
        return D(Dbl.is_nan(t), Dbl.val(t))

    def same(self, o):
        """bitwise-identity up to rounding/zero sign: NaN is the same as NaN"""
        return Or(And(self.nan, o.nan), And(Not(self.nan), Not(o.nan), Eq(self.v, o.v)))

    def __repr__(self): return 'D(%s,%s)' % (self.nan, self.v)


NAN = D(True, z3.RealVal(0))


class SV:
    """value of a copyable repo record stored by value in containers"""
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f): self.cls, self.f = cls, f

    def __repr__(self): return 'SV(%s,%s)' % (self.cls, self.f)


class Vec:
    __slots__ = ('et', 'n', 'arr', 'items', 'tk')

    def __init__(self, et, n=None, arr=None, items=None, tk=None):
        self.et, self.n, self.arr, self.items, self.tk = et, n, arr, items, tk
        if items is not None: self.n = len(items)


class Map:
    """std::map / unordered_map / set (vt None)"""
    __slots__ = ('kt', 'vt', 'has', 'val', 'n', 'keys', 'tk')

    def __init__(self, kt, vt, has, val, n, keys=None, tk=None): self.kt, self.vt, self.has, self.val, self.n, self.keys, self.tk = kt, vt, has, val, n, keys, tk


class Opt:
    __slots__ = ('et', 'has', 'v')

    def __init__(self, et, has, v): self.et, self.has, self.v = et, has, v


class Pair:
    __slots__ = ('a', 'b', 'ta', 'tb')

    def __init__(self, a, b, ta=None, tb=None): self.a, self.b, self.ta, self.tb = a, b, ta, tb


class Cx:
    """std::complex<double>"""
    __slots__ = ('re', 'im')

    def __init__(self, re, im): self.re, self.im = re, im


class Lam:
    __slots__ = ('node', 'caps', 'this', 'frame', 'fnid')

    def __init__(self, node, caps, this, frame, fnid=None): self.node, self.caps, self.this, self.frame, self.fnid = node, caps, this, frame, fnid


class FnV:
    """function value (pointer to a named function)"""
    __slots__ = ('f', 'obj')

    def __init__(self, f, obj=None): self.f, self.obj = f, obj


class Rng:
    """lazy range: source container place/value and adaptors [('filter',fn)|('map',fn)|('indirect',)|('values',)]"""
    __slots__ = ('src', 'ads')

    def __init__(self, src, ads): self.src, self.ads = src, ads


class It:
    """iterator. kind 'vec': pos index; 'map': key+valid; 'rng': source iterator + adaptors"""
    __slots__ = ('kind', 'place', 'pos', 'key', 'valid', 'begin')

    def __init__(self, kind, place, pos=None, key=None, valid=None, begin=False): self.kind, self.place, self.pos, self.key, self.valid, self.begin = kind, place, pos, key, valid, begin


class Opaque:
    __slots__ = ('tk', 'info')

    def __init__(self, tk, info=None): self.tk, self.info = tk, info

    def __repr__(self): return 'Opaque(%s)' % self.tk


class Place:
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()): self.root, self.path = root, path

    def sub(self, *el): return Place(self.root, self.path + el)

    def isobj(self): return self.root[0] == 'o' and not self.path

    def __repr__(self): return 'Place(%s,%s)' % (self.root, self.path)


class PPtr:
    """pointer to a non-object place"""
    __slots__ = ('place',)

    def __init__(self, place): self.place = place


class TypeIdx:
    __slots__ = ('n',)

    def __init__(self, n): self.n = n


TYPENAME = z3.Function('typename', z3.IntSort(), Str)
NAMETYPE = z3.Function('nametype', Str, z3.IntSort())
