"""Forward symbolic executor over the extracted typed AST: generates and discharges the verification conditions."""
import z3, time, re, os, sys
from fractions import Fraction
from vals import *
import vals

sys.setrecursionlimit(20000)

INTTY = {'int': (32, True), 'unsigned int': (32, False), 'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True),
         'unsigned long long': (64, False), 'short': (16, True), 'unsigned short': (16, False), 'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False), 'wchar_t': (32, True)}
PTRLIKE = ('std::unique_ptr', 'std::shared_ptr', 'std::reference_wrapper', 'stdcxx::Reference', 'boost::shared_ptr')
SEQ = ('std::vector', 'std::array', 'std::initializer_list', 'std::list', 'std::deque', 'boost::multi_index::multi_index_container')
MAPS = ('std::map', 'std::unordered_map')
SETS = ('std::set', 'std::unordered_set')
STRN = ('std::basic_string', 'boost::basic_string_view', 'std::__cxx11::basic_string')


class BreakEx(Exception): pass


class ContinueEx(Exception): pass


class ReturnEx(Exception):
    def __init__(self, v): self.v = v


class Obl:
    def __init__(self, name, status, t, info=None): self.name, self.status, self.t, self.info = name, status, t, info


def beta(a, i):
    """select, with a lambda array applied"""
    if z3.is_quantifier(a) and a.is_lambda() and a.num_vars() == 1:
        return z3.substitute_vars(a.body(), i)
    return z3.Select(a, i)


class Core:
    def __init__(self, prog, opts=None):
        self.p = prog
        self.o = dict(feas_ms=1500, goal_ms=20000, max_paths=4000, depth=60, max_s=600)
        self.o.update(opts or {})
        self.hooks = {}          # qualified name -> handler(ex, this, args, e)
        self.idhooks = {}
        self.loop_invs = {}; self.eltlocs = {}
        self.obls = []
        self.used = {}           # function id -> count (executed bodies)
        self.assumed = {}        # trusted contracts used
        self.dtcache = {}
        self.stats = dict(paths=0, checks=0, solver_s=0.0)
        self.embedded = None
        self.dec, self.pos = [], 0
        self.lazyinv = {}        # class -> fn(ex, ref): data-structure invariant assumed for pre-existing objects
        self.deadline = None
        self.merge_stack = 0
        self.covered = set(); self.slow = 0
        self.idxlog = None       # records (container place, index, length) of element accesses
        self.reset()

    # ------------------------------------------------------------------ state
    def reset(self):
        self.heap = {}; self.loc = {}; self.fresh = {}; self.flushed = set()
        self.n = 0; self.frame = 0; self.curframe = 0; self.thisv = None
        self.solver = z3.SolverFor('ALL') if False else z3.Solver()
        self.pcs = []            # conditions (decisions) on this path
        self.facts = []
        self.scope_lits = set(); self.tcls = {}; self.known = {}
        self.depthc = 0; self.globv = {}; self.oid = 0; self.invdone = set(); self.typed = set(); self.curexc = []
        self.writes = None; self.ghost = {}; self.havocs = {}
        self.trace = []
        self.fnstack = []
        self.scopes = []
        self._fact(DBLMAX == z3.RealVal(10) ** 0 * z3.RealVal(str(int(1.7976931348623157e308)))) if False else None
        self.solver.add(INF > DBLMAX, DBLMAX == z3.RealVal(str(int(1.7976931348623157e308))))

    def snap(self):
        return (dict(self.heap), dict(self.loc), dict(self.fresh), set(self.flushed), self.n, self.frame, self.curframe, self.thisv, dict(self.tcls), dict(self.known), self.depthc,
                dict(self.globv), self.oid, set(self.invdone), set(self.typed), list(self.curexc), dict(self.ghost), dict(self.havocs), list(self.fnstack), [list(s) for s in self.scopes])

    def restore(self, s):
        (h, l, fr, fl, self.n, self.frame, self.curframe, self.thisv, tc, kn, self.depthc, gv, self.oid, iv, ty, ce, gh, hv, fs, sc) = s
        self.heap, self.loc, self.fresh, self.flushed, self.tcls, self.known, self.globv, self.invdone, self.typed, self.curexc, self.ghost, self.havocs, self.fnstack = dict(h), dict(l), dict(fr), set(fl), dict(tc), dict(kn), dict(gv), set(iv), set(ty), list(ce), dict(gh), dict(hv), list(fs)
        self.scopes = [list(x) for x in sc]

    def freshname(self, base):
        self.n += 1
        return '%s!%d' % (base, self.n)

    def lits_in(self, c):
        """literal-distinctness facts for the string literals used"""
        for s, k in list(LITS.items()):
            if s not in self.scope_lits:
                self.scope_lits.add(s); self.solver.add(LITID(k) == len(self.scope_lits) * 1 if False else LITID(k) == self._litnum(s))

    _litn = {}

    def _litnum(self, s): return Core._litn.setdefault(s, len(Core._litn) + 1)

    def _fact(self, c):
        """assumption true on every path (typing / invariant facts)"""
        if c is True: return
        if c is False: raise PathEnd()
        self.solver.add(c); self.facts.append(c)

    def assume(self, c):
        c = norm(c)
        if c is True: return
        if c is False: raise PathEnd()
        self.solver.add(c); self.pcs.append(c); self.known[c.get_id()] = (c, True)

    def _check(self, ms, *extra, models=True):
        """satisfiability; instantiation by patterns first, model-based instantiation only when a model is wanted"""
        self.lits_in(None)
        t = time.time()
        ex = [b2z(e) for e in extra]
        self.solver.set('mbqi', False); self.solver.set('timeout', ms)
        r = self.solver.check(*ex)
        if r == z3.unknown and models:
            left = ms - int(1000 * (time.time() - t))
            if left > 200:
                self.solver.set('mbqi', True); self.solver.set('timeout', left)
                r = self.solver.check(*ex)
        d = time.time() - t
        self.stats['checks'] += 1; self.stats['solver_s'] += d
        if self.deadline and time.time() > self.deadline: raise Unsup('time budget exhausted')
        return r

    def feasible(self, c):
        if c is True: return True
        if c is False: return False
        ms = self.o['feas_ms'] if self.slow < 2 else 250
        t = time.time()
        r = self._check(ms, c, models=False)
        if r == z3.unknown and time.time() - t > 0.2: self.slow += 1      # undecided branches are explored
        return r != z3.unsat

    def choose(self, c):
        c = norm(c)
        if isinstance(c, bool): return c
        k = self.known.get(c.get_id())
        if k is not None: return k[1]
        nc = Not(c); k = self.known.get(nc.get_id()) if isz(nc) else None
        if k is not None: return not k[1]
        s = norm(z3.simplify(c))
        if isinstance(s, bool): return s
        if self.pos < len(self.dec):
            d = self.dec[self.pos][0]; self.pos += 1
        else:
            t = self.feasible(c)
            f = self.feasible(nc) if t else True
            if t and f: d = True; self.dec.append([True, True]); self.pos += 1
            else: d = t; self.dec.append([d, False]); self.pos += 1
        self.assume(c if d else nc)
        return d

    def pick(self, n, label=''):
        """nondeterministic choice among n alternatives"""
        if n == 1: return 0
        if self.pos < len(self.dec):
            d = self.dec[self.pos][0]; self.pos += 1; return d
        self.dec.append([0, list(range(1, n))]); self.pos += 1
        return 0

    def _advance(self):
        while self.dec:
            last = self.dec[-1]
            if isinstance(last[1], list):
                if last[1]: last[0] = last[1].pop(0); return True
            elif last[1]:
                last[0] = not last[0]; last[1] = False; return True
            self.dec.pop()
        return False

    def explore(self, body, limit=None):
        """top level: run body on every path from a fresh state"""
        self.dec = []
        n = 0
        while True:
            self.reset(); self.pos = 0
            try:
                body(self)
            except PathEnd:
                pass
            n += 1; self.stats['paths'] += 1
            if n > self.o['max_paths']: raise Unsup('path budget exhausted')
            if not self._advance(): break
        return n

    def nested(self, fn, keep=True):
        """explore fn from the current state; list of dict(kind,val,pc,heap...) ; state restored afterwards"""
        s0 = self.snap(); sd, sp = self.dec, self.pos; spc, sf, ssl = self.pcs, self.facts, set(self.scope_lits)
        st = self.trace
        self.dec = []; res = []; maxn, maxo, maxf = self.n, self.oid, self.frame
        try:
            while True:
                self.restore(s0); self.pos = 0; self.pcs = []; self.facts = []; self.scope_lits = set(ssl); self.trace = []
                self.solver.push()
                try:
                    r = None
                    try:
                        v = fn(); r = dict(kind='ret', val=v)
                    except CppThrow as x: r = dict(kind='exc', val=x)
                    except BreakEx: r = dict(kind='brk', val=None)
                    except ContinueEx: r = dict(kind='cont', val=None)
                    except ReturnEx as x: r = dict(kind='fret', val=x.v)
                    except PathEnd: r = None
                    if r is not None:
                        r.update(pc=list(self.pcs), facts=list(self.facts), heap=dict(self.heap), fresh=dict(self.fresh), loc=dict(self.loc), flushed=set(self.flushed), ghost=dict(self.ghost), globv=dict(self.globv), tcls=dict(self.tcls))
                        res.append(r)
                finally:
                    self.solver.pop()
                maxn, maxo, maxf = max(maxn, self.n), max(maxo, self.oid), max(maxf, self.frame)
                if len(res) > self.o['max_paths']: raise Unsup('path budget exhausted (nested)')
                if not self._advance(): break
        finally:
            self.restore(s0); self.dec, self.pos, self.pcs, self.facts, self.scope_lits = sd, sp, spc, sf, ssl
            self.trace = st
            self.n, self.oid, self.frame = maxn, maxo, maxf
        # classes of the objects allocated on the way (when every path agrees)
        new = {}
        for r in res if keep else ():
            for k, v in r['tcls'].items():
                if k not in self.tcls and v[1].decl().name() == 'obj': new.setdefault(k, []).append(v)
        for k, vs in new.items():
            if len({v[0] for v in vs}) == 1: self.tcls[k] = vs[0]
        for r in res if keep else ():
            for f in r['facts']:
                self._fact(Implies(And(*r['pc']), f))
        return res

    # ------------------------------------------------------------------ obligations
    def check(self, name, cond, info=None):
        cond = norm(cond)
        t = time.time()
        if cond is True:
            self.obls.append(Obl(name, 'proved', 0.0)); return True
        if isz(cond):
            s = norm(z3.simplify(cond))
            if s is True:
                self.obls.append(Obl(name, 'proved', 0.0)); return True
        r = self._check(self.o['goal_ms'], Not(cond) if cond is not False else True)
        st = 'proved' if r == z3.unsat else 'refuted' if r == z3.sat else 'unknown'
        if st == 'unknown':
            st = self.second_opinion(cond)
        inf = None
        if st != 'proved':
            inf = dict(info=info, goal=str(cond)[:1500])
            if st == 'refuted':
                try:
                    m = self.solver.model(); inf['model'] = str(m)[:4000]
                except z3.Z3Exception: pass
            inf['pc'] = [str(c)[:300] for c in self.pcs][-40:]
        self.obls.append(Obl(name, st, time.time() - t, inf))
        return st == 'proved'

    def proves(self, cond):
        """silent check of an intermediate assertion"""
        cond = norm(cond)
        if cond is True: return True
        if cond is False: return self._check(self.o['goal_ms']) == z3.unsat
        if norm(z3.simplify(cond)) is True: return True
        r = self._check(self.o['goal_ms'], Not(cond))
        return r == z3.unsat or (r == z3.unknown and self.second_opinion(cond) == 'proved')

    def second_opinion(self, cond):
        """same query from scratch with other solver configurations"""
        self.solver.push()
        try:
            self.solver.add(b2z(Not(cond)))
            asr = self.solver.assertions()
            for cfg in ({'smt.mbqi': False}, {'smt.arith.solver': 2}):
                s = z3.Solver(); s.set('timeout', self.o['goal_ms'])
                for k, v in cfg.items(): s.set(k, v)
                s.add(asr)
                r = s.check()
                if r == z3.unsat: return 'proved'
            return 'unknown'
        finally:
            self.solver.pop()

    def cover(self, name):
        """vacuity guard: this point must be reachable"""
        if name in self.covered: return
        r = self._check(3000)
        if r != z3.unsat: self.covered.add(name)
        self.obls.append(Obl('cover:' + name, 'vacuous' if r == z3.unsat else 'covered', 0.0))

    # ------------------------------------------------------------------ types
    def T(self, tk):
        t = self.p.types.get(tk)
        if t is None:
            t = dict(k='rec', repo=True, n=tk.split('<')[0], a=[]) if tk in self.p.recs else {'k': 'other'}
            self.p.types[tk] = t
        return t

    def isref(self, tk): return self.T(tk)['k'] in ('r', 'rr')

    def strip(self, tk):
        while self.T(tk)['k'] in ('r', 'rr'): tk = self.T(tk)['t']
        return tk

    def tn(self, tk):
        t = self.T(tk)
        return t.get('n') if t['k'] == 'rec' else None

    def kind(self, tk):
        """semantic kind of a (non reference) type"""
        if tk in ('bool', '_Bool'): return 'bool'
        if tk in INTTY: return 'int'
        if tk in ('double', 'float', 'long double'): return 'dbl'
        t = self.T(tk); k = t['k']
        if k == 'enum': return 'enum'
        if k == 'p':
            if t['t'] == 'char': return 'str'
            return 'ptr'
        if k in ('r', 'rr'): return 'ref'
        if k == 'rec':
            n = t['n']
            if n in STRN: return 'str'
            if n in PTRLIKE: return 'ptr'
            if n in SEQ: return 'vec'
            if n in MAPS: return 'map'
            if n in SETS: return 'set'
            if n == 'boost::optional': return 'opt'
            if n == 'std::pair': return 'pair'
            if n == 'std::complex': return 'cx'
            if n == 'std::_Bit_reference': return 'bitref'
            if n == 'std::type_index': return 'str'
            if n.endswith('stdcxx::DateTime'): return 'opaque'
            if t['repo'] and tk in self.p.recs:
                return 'sv' if tk in self.valcls() else 'obj'
            return 'opaque'
        return 'opaque'

    def valcls(self):
        if not hasattr(self.p, '_vc'):
            self.p._vc = {c for c in self.p.valcls() if self.tn(c) not in PTRLIKE and not self.p.recs[c]['poly']}
        return self.p._vc

    def pointee(self, tk):
        t = self.T(tk)
        if t['k'] == 'p': return t['t']
        if t['k'] == 'rec' and t['n'] in PTRLIKE: return t['a'][0]
        return None

    def elem(self, tk):
        t = self.T(tk)
        if t['n'] == 'boost::multi_index::multi_index_container': return t['a'][0]
        return t['a'][0]

    def sort(self, tk):
        if tk in self.dtcache: return self.dtcache[tk]
        k = self.kind(tk)
        if k == 'bool': s = z3.BoolSort()
        elif k in ('int', 'enum'): s = z3.IntSort()
        elif k == 'dbl': s = Dbl
        elif k == 'str': s = Str
        elif k in ('ptr', 'ref', 'obj'):
            s = Ref
        elif k == 'vec':
            es = self.sort(self.elem(tk)); nm = 'Vec_%d' % len(self.dtcache)
            d = z3.Datatype(nm); d.declare('mk' + nm, ('len' + nm, z3.IntSort()), ('arr' + nm, z3.ArraySort(z3.IntSort(), es))); s = d.create()
        elif k == 'map':
            t = self.T(tk); ks, vs = self.sort(t['a'][0]), self.sort(t['a'][1]); nm = 'Map_%d' % len(self.dtcache)
            d = z3.Datatype(nm); d.declare('mk' + nm, ('has' + nm, z3.ArraySort(ks, z3.BoolSort())), ('val' + nm, z3.ArraySort(ks, vs)), ('siz' + nm, z3.IntSort())); s = d.create()
        elif k == 'set':
            t = self.T(tk); ks = self.sort(t['a'][0]); nm = 'Set_%d' % len(self.dtcache)
            d = z3.Datatype(nm); d.declare('mk' + nm, ('has' + nm, z3.ArraySort(ks, z3.BoolSort())), ('siz' + nm, z3.IntSort())); s = d.create()
        elif k == 'opt':
            es = self.sort(self.T(tk)['a'][0]); nm = 'Opt_%d' % len(self.dtcache)
            d = z3.Datatype(nm); d.declare('none' + nm); d.declare('some' + nm, ('ov' + nm, es)); s = d.create()
        elif k == 'pair':
            t = self.T(tk); nm = 'Pair_%d' % len(self.dtcache)
            d = z3.Datatype(nm); d.declare('mk' + nm, ('fst' + nm, self.sort(t['a'][0])), ('snd' + nm, self.sort(t['a'][1]))); s = d.create()
        elif k == 'cx':
            nm = 'Cx'; d = z3.Datatype(nm); d.declare('mkCx', ('cre', Dbl), ('cim', Dbl)); s = d.create()
        elif k == 'sv':
            fs = [(c, f) for c, f in self.p.fields(tk) if self.kind(f['t']) != 'opaque']; nm = 'SV_%d' % len(self.dtcache)
            self.dtcache[tk] = None
            d = z3.Datatype(nm); d.declare('mk' + nm, *[(nm + '.' + f['n'], self.sort(f['t'])) for c, f in fs]) if fs else d.declare('mk' + nm); s = d.create()
        else:
            s = z3.DeclareSort('Opq_%d' % len(self.dtcache))
        self.dtcache[tk] = s
        return s

    def acc(self, s, i): return s.accessor(0, i)

    def from_term(self, t, tk):
        k = self.kind(tk)
        if k in ('bool', 'int', 'enum'): return norm(t)
        if k == 'dbl': return D.of(t)
        if k == 'ptr' and t.sort() == Ref:
            t2 = t
            if z3.is_app_of(t, z3.Z3_OP_SELECT): t2 = z3.simplify(t)
            if z3.is_app_of(t2, z3.Z3_OP_DT_CONSTRUCTOR) and t2.decl().name() == 'elt' and z3.is_int_value(t2.arg(0)):
                fk = {v: k for k, v in FLDID.items()}[t2.arg(0).as_long()]
                return PPtr(Place(('o', t2.arg(2)), (('f', fk), ('i', norm(t2.arg(1))))))
        if k in ('str', 'ptr', 'ref', 'obj'): return t
        s = self.sort(tk)
        con = t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR

        def A(i): return t.arg(i) if con else s.accessor(0, i)(t)
        if k == 'vec': return Vec(self.elem(tk), norm(A(0)), A(1), tk=tk)
        if k == 'map':
            a = self.T(tk)['a']; return Map(a[0], a[1], A(0), A(1), norm(A(2)), tk=tk)
        if k == 'set':
            a = self.T(tk)['a']; return Map(a[0], None, A(0), None, norm(A(1)), tk=tk)
        if k == 'opt':
            et = self.T(tk)['a'][0]
            if con:
                if t.num_args() == 0: return Opt(et, False, None)
                return Opt(et, True, self.from_term(t.arg(0), et))
            return Opt(et, s.recognizer(1)(t), self.from_term(s.accessor(1, 0)(t), et))
        if k == 'pair':
            a = self.T(tk)['a']; return Pair(self.from_term(A(0), a[0]), self.from_term(A(1), a[1]), a[0], a[1])
        if k == 'cx': return Cx(D.of(A(0)), D.of(A(1)))
        if k == 'sv':
            f = {}; i = 0
            for c, fo in self.p.fields(tk):
                if self.kind(fo['t']) == 'opaque': f[c + '::' + fo['n']] = Opaque(fo['t']); continue
                f[c + '::' + fo['n']] = self.from_term(A(i), fo['t']); i += 1
            return SV(tk, f)
        return Opaque(tk, t)

    def to_term(self, v, tk, k=None):
        k = k or self.kind(tk)
        if isinstance(v, Place): 
            if v.isobj() and k in ('ref', 'ptr', 'obj'): return v.root[1]
            if k in ('ref',): raise Unsup('reference to a non-object stored in the heap')
            v = self.read(v, tk)
        if isinstance(v, Opaque) and k != 'opaque':
            return self._fresh_const('opq', self.sort(tk))
        if k == 'bool': return b2z(self.tobool(v))
        if k in ('int', 'enum'): return i2z(v)
        if k == 'dbl': return v if isz(v) else v.term()
        if k in ('str', 'ptr', 'ref', 'obj'):
            if isinstance(v, PPtr):
                pl = v.place
                if pl.root[0] == 'o' and len(pl.path) == 2 and pl.path[0][0] == 'f' and pl.path[1][0] == 'i': return Ref.elt(z3.IntVal(fldid(pl.path[0][1])), i2z(pl.path[1][1]), pl.root[1])
                if pl.root[0] == 'v' and len(pl.path) == 1 and pl.path[0][0] == 'i':
                    # address of an element of a local vector
                    self.eltlocs.setdefault(fldid('$local:%s' % (pl.root[1],)), pl.root)
                    return Ref.elt(z3.IntVal(fldid('$local:%s' % (pl.root[1],))), i2z(pl.path[0][1]), Ref.null)
                raise Unsup('pointer to a non-object stored in the heap')
            if isinstance(v, TypeIdx): return lit('type:' + v.n)
            return v
        s = self.sort(tk)
        if k == 'vec':
            v = self.vec_sym(v, tk); return s.constructor(0)(i2z(v.n), v.arr)
        if k == 'map': return s.constructor(0)(v.has, v.val, i2z(v.n))
        if k == 'set': return s.constructor(0)(v.has, i2z(v.n))
        if k == 'opt':
            if v.has is False: return s.constructor(0)()
            et = self.T(tk)['a'][0]; some = s.constructor(1)(self.to_term(v.v, et))
            return some if v.has is True else z3.If(v.has, some, s.constructor(0)())
        if k == 'pair':
            a = self.T(tk)['a']; return s.constructor(0)(self.to_term(v.a, a[0]), self.to_term(v.b, a[1]))
        if k == 'cx': return s.constructor(0)(v.re.term(), v.im.term())
        if k == 'sv':
            fs = [(c, f) for c, f in self.p.fields(tk) if self.kind(f['t']) != 'opaque']
            if not isinstance(v, SV): raise Unsup('record value expected for %s' % tk)
            return s.constructor(0)(*[self.to_term(v.f.get(c + '::' + f['n'], Opaque(f['t'])), f['t']) for c, f in fs])
        if isinstance(v, Opaque) and isz(v.info) and v.info.sort() == s: return v.info
        return self._fresh_const('opq', s)

    def _fresh_const(self, base, s): return z3.Const(self.freshname(base), s)

    def vec_sym(self, v, tk=None):
        """array form of a vector"""
        if v.arr is not None and v.items is None: return v
        es = self.sort(v.et)
        arr = self._fresh_const('va', z3.ArraySort(z3.IntSort(), es))
        for i, x in enumerate(v.items): arr = z3.Store(arr, z3.IntVal(i), self.to_term(x, v.et))
        return Vec(v.et, len(v.items), arr, tk=v.tk)

    def empty(self, tk):
        """default-constructed library value"""
        k = self.kind(tk)
        if k == 'vec': return Vec(self.elem(tk), items=[], tk=tk)
        if k in ('map', 'set'):
            a = self.T(tk)['a']; ks = self.sort(a[0])
            val = None
            if k == 'map': val = self._fresh_const('mv', z3.ArraySort(ks, self.sort(a[1])))
            return Map(a[0], a[1] if k == 'map' else None, z3.K(ks, z3.BoolVal(False)), val, 0, keys=[], tk=tk)
        if k == 'opt': return Opt(self.T(tk)['a'][0], False, None)
        if k == 'str': return lit('')
        if k == 'ptr': return NULL
        if k == 'bool': return False
        if k in ('int', 'enum'): return 0
        if k == 'dbl': return D.const(0)
        if k == 'cx': return Cx(D.const(0), D.const(0))
        if k == 'pair':
            a = self.T(tk)['a']; return Pair(self.empty(a[0]), self.empty(a[1]), a[0], a[1])
        return Opaque(tk)

    def sym(self, tk, name):
        """arbitrary well-formed value of a type"""
        k = self.kind(tk)
        if k == 'opaque': return Opaque(tk, self._fresh_const(name, self.sort(tk)))
        t = z3.Const('in:' + name, self.sort(tk))
        v = self.from_term(t, tk)
        self.wf(v, tk, t)
        return v

    def wf(self, v, tk, t=None):
        """range / typing facts of a value of a C++ type"""
        k = self.kind(tk)
        key = ('wf', t.get_id() if isz(t) else id(v), tk)
        if isz(t):
            if key in self.typed: return
            self.typed.add(key)
        if k == 'int' and isz(v):
            b, s = INTTY[tk]
            lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)
            self._fact(z3.And(v >= lo, v <= hi))
        elif k == 'enum' and isz(v):
            vs = [x[1] for x in self.T(tk)['vals']]
            if vs: self._fact(z3.And(v >= min(vs), v <= max(vs)))
        elif k == 'dbl' and isz(v.v) and not z3.is_rational_value(v.v):
            self._fact(Implies(Not(v.nan), z3.And(v.v >= -INF, v.v <= INF)))
        elif k == 'vec' and isz(v.n): self._fact(z3.And(v.n >= 0, v.n < (1 << 62)))
        elif k in ('map', 'set') and isz(v.n):
            self._fact(z3.And(v.n >= 0, v.n < (1 << 62)))
            self._fact((v.n == 0) == (v.has == z3.K(v.has.sort().domain(), z3.BoolVal(False))))
        elif k == 'opt': self.wf(v.v, v.et) if v.v is not None else None
        elif k in ('ptr', 'ref') and isz(v):
            self.ref_facts(v, self.pointee(tk) if k == 'ptr' else self.T(tk)['t'], k == 'ref')
        elif k == 'sv':
            for c, f in self.p.fields(tk): self.wf(v.f[c + '::' + f['n']], f['t'])
        elif k == 'pair': self.wf(v.a, v.ta); self.wf(v.b, v.tb)
        elif k == 'cx': self.wf(v.re, 'double'); self.wf(v.im, 'double')

    def is_h0(self, t):
        while True:
            if not z3.is_app(t): return False
            if t.num_args() == 0: return t.decl().name().startswith(('H0:', 'in:')) if t.decl().kind() == z3.Z3_OP_UNINTERPRETED else False
            k = t.decl().kind()
            if k in (z3.Z3_OP_SELECT, z3.Z3_OP_DT_ACCESSOR): t = t.arg(0)
            elif k == z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith('uf:'): return True
            else: return False

    def embeddedcls(self):
        if not hasattr(self.p, '_emb'):
            s = set()
            for k, r in self.p.recs.items():
                for f in r['fields']:
                    if self.kind(f['t']) == 'obj': s |= set(self.p.bases(f['t']))
            self.p._emb = s
        return self.p._emb

    def ref_facts(self, t, cls, nonnull=False):
        """typing facts for a reference term of static class cls"""
        key = ('rf', t.get_id(), cls)
        if key in self.typed: return
        self.typed.add(key)
        if cls not in self.p.recs: return
        c = []
        if self.is_h0(t):
            OLD[t.get_id()] = t
            if cls in self.embeddedcls():
                c.append(z3.Or(z3.And(Ref.is_obj(t), Ref.oid(t) < 0), z3.And(Ref.is_sub(t), Implies(Ref.is_obj(Ref.owner(t)), Ref.oid(Ref.owner(t)) < 0))))
            else: c.append(z3.And(Ref.is_obj(t), Ref.oid(t) < 0))
        elif t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR: return
        subs = self.p.concrete_subs(cls)
        if self.p.recs[cls]['poly'] and subs and len(subs) <= 40: c.append(Or(*[TYPEOF(t) == clsid(s) for s in subs]))
        elif not self.p.recs[cls]['poly']: c.append(TYPEOF(t) == clsid(cls))
        f = And(*c)
        self._fact(Implies(t != NULL, f) if not nonnull else And(t != NULL, f))
        if t.get_id() in OLD and cls in self.lazyinv or any(b in self.lazyinv for b in self.p.bases(cls)):
            self.apply_inv(t, cls)

    def apply_inv(self, t, cls):
        for b in self.p.bases(cls):
            f = self.lazyinv.get(b)
            if f and (t.get_id(), b) not in self.invdone and t.get_id() in OLD:
                self.invdone.add((t.get_id(), b)); f(self, t)

    # ------------------------------------------------------------------ heap
    def fieldtype(self, fk):
        cls, n = fk.rsplit('::', 1)
        if not hasattr(self.p, '_ft'): self.p._ft = {}
        if fk not in self.p._ft:
            t = None
            for f in self.p.recs[cls]['fields']:
                if f['n'] == n: t = f['t']
            self.p._ft[fk] = t
        return self.p._ft[fk]

    def harr(self, fk):
        if fk not in self.heap:
            tk = self.fieldtype(fk) if not fk.startswith('$') else fk.split(':', 1)[1]
            self.heap[fk] = z3.Const('H0:' + fk, z3.ArraySort(Ref, self.sort(tk)))
        return self.heap[fk]

    def sel(self, arr, r):
        a = arr
        while z3.is_app_of(a, z3.Z3_OP_STORE):
            e = ref_eq(a.arg(1), r)
            if e is None:
                k = self.known.get((a.arg(1) == r).get_id())
                e = k[1] if k else None
            if e is True: return a.arg(2)
            if e is False: a = a.arg(0); continue
            return z3.Select(a, r)
        return beta(a, r)

    def flush(self, fk):
        if fk in self.flushed: return
        self.flushed.add(fk)
        tk = self.fieldtype(fk) if not fk.startswith('$') else fk.split(':', 1)[1]
        for (rid, f), (r, v) in list(self.fresh.items()):
            if f == fk:
                self.heap[fk] = z3.Store(self.harr(fk), r, self.to_term(v, tk)); del self.fresh[(rid, f)]

    def hread(self, fk, r):
        tk = self.fieldtype(fk) if not fk.startswith('$') else fk.split(':', 1)[1]
        if root_fresh(r) and fk not in self.flushed:
            x = self.fresh.get((r.get_id(), fk))
            if x is not None: return x[1]
            if self.kind(tk) == 'opaque': return Opaque(tk)
            # uninitialised field
            v = self.from_term(self._fresh_const('undef:' + fk, self.sort(tk)), tk)
            self.fresh[(r.get_id(), fk)] = (r, v)
            return v
        if not root_fresh(r) and r.get_id() not in OLD and any(f == fk for (_, f) in self.fresh): self.flush(fk)
        if self.kind(tk) == 'opaque': return Opaque(tk, z3.Select(self.harr(fk), r))
        t = self.sel(self.harr(fk), r)
        v = self.from_term(t, tk)
        self.wf(v, tk, t)
        return v

    def hwrite(self, fk, r, v):
        tk = self.fieldtype(fk) if not fk.startswith('$') else fk.split(':', 1)[1]
        if self.writes is not None: self.writes.add((fk, r, None))
        if root_fresh(r) and fk not in self.flushed:
            self.fresh[(r.get_id(), fk)] = (r, v); return
        if not root_fresh(r) and r.get_id() not in OLD and any(f == fk for (_, f) in self.fresh): self.flush(fk)
        if self.kind(tk) == 'opaque' and not isinstance(v, Opaque): v = Opaque(tk)
        a = self.harr(fk)
        t = self.to_term(v, tk)
        # overwrite of the same cell
        if z3.is_app_of(a, z3.Z3_OP_STORE) and a.arg(1).eq(r): a = a.arg(0)
        self.heap[fk] = z3.Store(a, r, t)

    # ------------------------------------------------------------------ places
    def read(self, pl, tk=None):
        if not isinstance(pl, Place): return pl
        if pl.isobj():
            return pl
        r = pl.root; path = pl.path
        if r[0] == 'o':
            fk = path[0][1]; v = self.hread(fk, r[1]); i = 1
        elif r[0] == 'v':
            if r[1] not in self.loc: raise Unsup('read of unknown local %s' % (r[1],))
            v = self.loc[r[1]]; i = 0
        elif r[0] == 'g': v = self.globval(r[1]); i = 0
        else: raise Unsup('place root')
        for j in range(i, len(path)):
            if isinstance(v, Place): return self.read(Place(v.root, v.path + path[j:]))
            v = self.proj(v, path[j])
        if isinstance(v, Place) and not v.isobj(): return self.read(v)
        return v

    def proj(self, v, el):
        k = el[0]
        if k == 'i': return self.vget(v, el[1])
        if k == 'f':
            if isinstance(v, SV):
                if el[1] not in v.f: raise Unsup('uninitialised field ' + el[1])
                return v.f[el[1]]
            if isinstance(v, Opaque): return Opaque(self.fieldtype(el[1]))
            if isz(v) and v.sort() == Ref: return self.hread(el[1], v)
            raise Unsup('field projection of %r' % (v,))
        if k == 'k': return self.mget(v, el[1])
        if k == 'opt': return v.v
        if k == 'pf': return v.a if el[1] == 0 else v.b
        if k == 'cx': return v.re if el[1] == 0 else v.im
        raise Unsup('proj ' + k)

    def vget(self, v, i):
        if v.items is not None:
            if isinstance(i, int):
                if 0 <= i < len(v.items): return v.items[i]
                raise PathEnd()  # out of bounds: excluded by the bounds assumption
            if not v.items: raise PathEnd()
            # symbolic index into a concrete vector: fork
            for j in range(len(v.items) - 1):
                if self.choose(Eq(i, j)): return v.items[j]
            self.assume(Eq(i, len(v.items) - 1))
            return v.items[-1]
        t = z3.Select(v.arr, i2z(i))
        t2 = self.sel_int(v.arr, i2z(i))
        x = self.from_term(t2, v.et); self.wf(x, v.et, t2)
        return x

    def sel_int(self, a, i):
        while z3.is_app_of(a, z3.Z3_OP_STORE):
            k = a.arg(1)
            if k.eq(i): return a.arg(2)
            if z3.is_int_value(k) and z3.is_int_value(i): a = a.arg(0); continue
            s = z3.simplify(k == i)
            if z3.is_false(s): a = a.arg(0); continue
            if z3.is_true(s): return a.arg(2)
            kk = self.known.get((k == i).get_id()) or self.known.get((i == k).get_id())
            if kk is not None:
                if kk[1]: return a.arg(2)
                a = a.arg(0); continue
            break
        return beta(a, i)

    def mget(self, m, k):
        kt = self.to_term(k, m.kt)
        a = m.val
        while z3.is_app_of(a, z3.Z3_OP_STORE):
            e = Eq(a.arg(1), kt)
            if e is True: break
            if e is False: a = a.arg(0); continue
            e2 = norm(z3.simplify(e))
            if e2 is True: break
            if e2 is False: a = a.arg(0); continue
            break
        t = a.arg(2) if z3.is_app_of(a, z3.Z3_OP_STORE) and Eq(a.arg(1), kt) is True else z3.Select(a, kt)
        x = self.from_term(t, m.vt); self.wf(x, m.vt, t)
        return x

    def upd(self, v, path, x):
        if not path: return x
        el = path[0]; k = el[0]
        if k == 'i':
            i = el[1]
            if v.items is not None and isinstance(i, int):
                it = list(v.items)
                if not 0 <= i < len(it): raise PathEnd()
                it[i] = self.upd(it[i], path[1:], x); return Vec(v.et, items=it, tk=v.tk)
            v = self.vec_sym(v)
            nv = self.upd(self.vget(v, i), path[1:], x) if len(path) > 1 else x
            return Vec(v.et, v.n, z3.Store(v.arr, i2z(i), self.to_term(nv, v.et)), tk=v.tk)
        if k == 'f':
            if isinstance(v, Opaque): return v
            if isz(v) and v.sort() == Ref:
                self.write(Place(('o', v), path), x); return v
            f = dict(v.f); f[el[1]] = self.upd(f.get(el[1]), path[1:], x); return SV(v.cls, f)
        if k == 'k':
            kt = self.to_term(el[1], v.kt)
            nv = self.upd(self.mget(v, el[1]), path[1:], x) if len(path) > 1 else x
            return Map(v.kt, v.vt, v.has, z3.Store(v.val, kt, self.to_term(nv, v.vt)), v.n, v.keys, tk=v.tk)
        if k == 'opt': return Opt(v.et, v.has, self.upd(v.v, path[1:], x))
        if k == 'pf':
            c = v.a if el[1] == 0 else v.b
            if isinstance(c, Place) and not c.isobj() and not (isinstance(x, Place) and len(path) == 1):
                # the component refers to the element of a container
                self.write(Place(c.root, c.path + tuple(path[1:])), x); return v
            return Pair(self.upd(v.a, path[1:], x), v.b, v.ta, v.tb) if el[1] == 0 else Pair(v.a, self.upd(v.b, path[1:], x), v.ta, v.tb)
        raise Unsup('update ' + k)

    def write(self, pl, v):
        if not isinstance(pl, Place): raise Unsup('assignment to a non-place')
        if pl.isobj():
            if isinstance(v, Place) and v.isobj(): self.copyobj(pl.root[1], v.root[1], None); return
            if isinstance(v, SV): raise Unsup('record/object mismatch')
            raise Unsup('assignment of %r to an object' % (v,))
        r = pl.root; path = pl.path
        if r[0] == 'v':
            cur = self.loc.get(r[1])
            if isinstance(cur, Place):
                self.write(Place(cur.root, cur.path + path), v); return
            if self.writes is not None: self.writes.add(('loc', r[1], path))
            self.loc[r[1]] = v if not path else self.upd(cur, path, v)
        elif r[0] == 'o':
            fk = path[0][1]
            # a place going through a pointer stored in the path is normalised on creation
            if self.writes is not None: self.writes.add((fk, r[1], path[1:] or None))
            w = self.writes; self.writes = None
            try:
                if len(path) == 1: self.hwrite(fk, r[1], v)
                else:
                    cur = self.hread(fk, r[1])
                    if isinstance(cur, Place): self.write(Place(cur.root, cur.path + path[1:]), v)
                    else: self.hwrite(fk, r[1], self.upd(cur, path[1:], v))
            finally: self.writes = w
        elif r[0] == 'g':
            if self.writes is not None: self.writes.add(('glob', r[1], path))
            cur = self.globval(r[1])
            self.globv[r[1]] = v if not path else self.upd(cur, path, v)
        else: raise Unsup('write root')

    def globval(self, n):
        if n in self.globv: return self.globv[n]
        g = self.p.glob(n)
        if g is None: raise Unsup('unknown global ' + n)
        h = self.hooks.get('glob:' + n.split('|')[-1])
        if self.T(self.strip(g['t'])).get('n') == 'std::atomic':
            v = self.sym(self.T(self.strip(g['t']))['a'][0], 'glob_' + n)  # a counter starts anywhere
        elif 'init' in g and g['init'] is not None:
            of, ot = self.curframe, self.thisv
            self.frame += 1; self.curframe = self.frame; self.thisv = None
            try: v = self.initval(g['init'], g['t'])
            finally: self.curframe, self.thisv = of, ot
        else:
            k = self.kind(g['t'])
            if k == 'obj': v = self.alloc(g['t'])
            else: v = self.empty(g['t'])
        self.globv[n] = v
        return v

    # ------------------------------------------------------------------ objects
    def alloc(self, cls):
        self.oid += 1
        r = Ref.obj(z3.IntVal(self.oid))
        self.solver.add(TYPEOF(r) == clsid(cls)); self.facts.append(TYPEOF(r) == clsid(cls))
        self.tcls[r.get_id()] = (cls, r)
        return Place(('o', r))

    def fresh_block(self):
        self.n += 1; return self.n

    def symobj(self, cls, name, exact=True):
        """an arbitrary pre-existing object"""
        r = z3.Const('in:' + name, Ref)
        OLD[r.get_id()] = r
        emb = cls in self.embeddedcls()
        self._fact(z3.And(Ref.is_obj(r), Ref.oid(r) < 0))
        if exact:
            self._fact(TYPEOF(r) == clsid(cls)); self.tcls[r.get_id()] = (cls, r)
        else: self.ref_facts(r, cls, True)
        self.apply_inv(r, cls)
        return Place(('o', r))

    def subref(self, owner, fk):
        r = Ref.sub(z3.IntVal(fldid(fk)), owner)
        ft = self.fieldtype(fk)
        if r.get_id() not in self.tcls:
            self.tcls[r.get_id()] = (ft, r)
            self._fact(TYPEOF(r) == clsid(ft))
        if owner.get_id() in OLD: OLD[r.get_id()] = r
        return r

    def member(self, base, cls, name):
        """lvalue of a field"""
        fk = cls + '::' + name
        ft = self.fieldtype(fk)
        if ft is None: raise Unsup('unknown field ' + fk)
        if isinstance(base, SV):
            v = base.f.get(fk); 
            return v
        if base.isobj():
            r = base.root[1]
            if self.isref(ft):
                v = self.hread(fk, r)
                if isinstance(v, Place): return v
                if isz(v):
                    if v.sort() == Ref: self.ref_facts(v, self.strip(ft), True)
                    return Place(('o', v))
                raise Unsup('reference field ' + fk)
            if self.kind(ft) == 'obj': return Place(('o', self.subref(r, fk)))
            return base.sub(('f', fk))
        v = None
        if self.isref(ft):
            v = self.read(base.sub(('f', fk)))
            if isinstance(v, Place): return v
            if isz(v): return Place(('o', v))
        if self.kind(ft) == 'obj':
            v = self.read(base.sub(('f', fk)))
            if isinstance(v, Place): return v
            if isz(v): return Place(('o', v))
        return base.sub(('f', fk))

    def copyobj(self, dst, src, cls):
        t = self.tcls.get(src.get_id()) or self.tcls.get(dst.get_id())
        if t is None: raise Unsup('copy of an object of unknown class')
        for c, f in self.p.fields(t[0]):
            fk = c + '::' + f['n']
            if self.kind(f['t']) == 'obj': self.copyobj(self.subref(dst, fk), self.subref(src, fk), f['t'])
            else: self.hwrite(fk, dst, self.hread(fk, src))

    def deref(self, p):
        if isinstance(p, PPtr): return p.place
        if isinstance(p, Place): return p
        if isinstance(p, It):
            import lib
            return lib.it_deref(self, p)
        if isz(p) and p.sort() == Ref:
            if p.eq(NULL): raise PathEnd()
            for f, root in self.eltlocs.items() if p.decl().kind() != z3.Z3_OP_DT_CONSTRUCTOR or p.num_args() == 3 else ():
                q = z3.simplify(p)
                if q.decl().name() == 'elt' and q.num_args() == 3 or self.proves(z3.And(Ref.is_elt(p), Ref.efld(p) == f)):
                    if self.proves(Ref.efld(q) == f): return Place(root, (('i', norm(z3.simplify(Ref.eidx(q)))),))
            if p.decl().kind() != z3.Z3_OP_DT_CONSTRUCTOR:
                # memory safety of raw pointers is an assumption: a null dereference ends the path
                self.nonnull(p)
            return Place(('o', p))
        if isinstance(p, Opaque): return p
        raise Unsup('dereference of %r' % (p,))

    def nonnull(self, p):
        c = p != NULL
        if c.get_id() in self.known: 
            if self.known[c.get_id()][1] is False: raise PathEnd()
            return
        k = self.known.get((p == NULL).get_id())
        if k is not None:
            if k[1]: raise PathEnd()
            return
        self.assume(c)

    def addr(self, pl):
        if isinstance(pl, Opaque): return pl
        if pl.isobj(): return pl.root[1]
        return PPtr(pl)

    def exactcls(self, r, static):
        """dynamic class of object r (forks when several are possible)"""
        x = self.tcls.get(r.get_id())
        if x: return x[0]
        subs = self.p.concrete_subs(static)
        if len(subs) == 1:
            self.tcls[r.get_id()] = (subs[0], r); return subs[0]
        return None

    def dispatch(self, f, pl, static):
        """final overrider of virtual method f on object pl: forks over distinct overriders"""
        if not pl.isobj():
            return f['id']
        r = pl.root[1]
        c = self.exactcls(r, static)
        if c is not None:
            b = self.p.resolve(f['id'], c)
            if b is None: raise Unsup('no overrider of %s in %s' % (f['q'], c))
            return b[1]
        groups = {}
        for s in self.p.concrete_subs(static):
            b = self.p.resolve(f['id'], s)
            if b: groups.setdefault(b[1], []).append(s)
        if not groups: raise Unsup('no implementation of ' + f['q'])
        gl = sorted(groups.items())
        for i, (fid, cs) in enumerate(gl):
            cond = Or(*[TYPEOF(r) == clsid(s) for s in cs])
            if i == len(gl) - 1 or self.choose(cond):
                if i == len(gl) - 1: self.assume(cond)
                if len(cs) == 1: self.tcls[r.get_id()] = (cs[0], r)
                return fid

    # ------------------------------------------------------------------ scalars
    def tobool(self, v):
        if isinstance(v, bool): return v
        if isinstance(v, int): return v != 0
        if isinstance(v, D): return Or(v.nan, Not(Eq(v.v, z3.RealVal(0))))
        if isz(v):
            if v.sort() == z3.BoolSort(): return norm(v)
            if v.sort() == z3.IntSort(): return Not(Eq(v, 0))
            if v.sort() == Ref: return Not(Eq(v, NULL))
        if isinstance(v, (PPtr, Lam, FnV)): return True
        if isinstance(v, Opt): return v.has
        if isinstance(v, Opaque): return z3.Bool(self.freshname('opqb'))
        raise Unsup('to bool: %r' % (v,))

    def toint(self, v):
        if isinstance(v, bool): return int(v)
        if isz(v) and v.sort() == z3.BoolSort(): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v

    def wrap(self, v, tk):
        if tk in ('bool',): return self.tobool(v)
        if tk not in INTTY: return v
        b, s = INTTY[tk]
        if isinstance(v, bool): v = int(v)
        if isinstance(v, int):
            v &= (1 << b) - 1
            if s and v >= 1 << (b - 1): v -= 1 << b
            return v
        return v

    def icast(self, v, tk, frm):
        v = self.toint(v)
        if isinstance(v, Opaque): return z3.Int(self.freshname('opqi'))
        if tk == 'bool': return self.tobool(v)
        if tk not in INTTY: return v
        if isinstance(v, int): return self.wrap(v, tk)
        b, s = INTTY[tk]
        fb, fs = INTTY.get(frm, (32, True))
        if self.kind(frm) == 'enum' or frm == 'bool': return v
        if (b, s) == (fb, fs) or (b > fb and (s or not fs)): return v
        M = 1 << b
        if not s:
            if fs and b >= fb: return z3.If(v < 0, v + M, v)
            return v % M
        if not fs and b >= fb: return z3.If(v >= M // 2, v - M, v)
        m = v % M
        return z3.If(m >= M // 2, m - M, m)

    def iop(self, op, a, b, tk):
        a, b = self.toint(a), self.toint(b)
        uns = tk in INTTY and not INTTY[tk][1]
        conc = isinstance(a, int) and isinstance(b, int)
        if op in ('+', '-', '*'):
            if conc: return self.wrap({'+': a + b, '-': a - b, '*': a * b}[op], tk)
            if op == '+':
                if b == 0 if isinstance(b, int) else False: return a
                if a == 0 if isinstance(a, int) else False: return b
            if op == '-' and isinstance(b, int) and b == 0: return a
            r = {'+': lambda: i2z(a) + i2z(b), '-': lambda: i2z(a) - i2z(b), '*': lambda: i2z(a) * i2z(b)}[op]()
            if uns:
                M = 1 << INTTY[tk][0]
                if op == '+': return z3.If(r >= M, r - M, r)
                if op == '-': return z3.If(r < 0, r + M, r)
                return r % M
            return r
        if op in ('/', '%'):
            if conc:
                if b == 0: raise PathEnd()
                q = abs(a) // abs(b); q = q if (a >= 0) == (b >= 0) else -q
                return q if op == '/' else a - b * q
            A, B = i2z(a), i2z(b)
            if uns: return A / B if op == '/' else A % B
            q = z3.If(A >= 0, A / B, -((-A) / B))
            return q if op == '/' else A - B * q
        if op in ('<', '>', '<=', '>='):
            if conc: return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op]
            A, B = i2z(a), i2z(b)
            return {'<': A < B, '>': A > B, '<=': A <= B, '>=': A >= B}[op]
        if op == '==': return Eq(a, b)
        if op == '!=': return Not(Eq(a, b))
        if op in ('&', '|', '^', '<<', '>>'):
            if conc: return self.wrap({'&': a & b, '|': a | b, '^': a ^ b, '<<': a << b if b < 200 else 0, '>>': a >> b if b < 200 else 0}[op], tk)
            f = z3.Function('bit' + op, z3.IntSort(), z3.IntSort(), z3.IntSort())
            return f(i2z(a), i2z(b))
        raise Unsup('int op ' + op)

    def dop(self, op, a, b):
        if isinstance(a, Opaque) or isinstance(b, Opaque): return z3.Bool(self.freshname('opqb')) if op in ('<', '>', '<=', '>=', '==', '!=') else D(False, z3.Real(self.freshname('opqd')))
        nan = Or(a.nan, b.nan)
        if op in ('<', '>', '<=', '>=', '=='):
            av, bv = a.v, b.v
            c = {'<': lambda: av < bv, '>': lambda: av > bv, '<=': lambda: av <= bv, '>=': lambda: av >= bv, '==': lambda: av == bv}[op]()
            c = norm(z3.simplify(c)) if (z3.is_rational_value(av) and z3.is_rational_value(bv)) else c
            if av.eq(bv): c = op in ('<=', '>=', '==')
            return And(Not(nan), c)
        if op == '!=': return Not(self.dop('==', a, b))
        z = z3.RealVal(0)
        if op == '+': v = a.v + b.v
        elif op == '-': v = a.v - b.v
        elif op == '*':
            v = a.v * b.v
            for y, S in self.o.get('scale', []):    # products by a fixed factor, abstracted by a function (used for proofs only)
                if b.v.eq(y): v = S(a.v); break
                if a.v.eq(y): v = S(b.v); break
        elif op == '/':
            v = a.v / b.v
            if not (z3.is_rational_value(b.v) and b.v.as_fraction() != 0):
                # division by zero yields inf/NaN: unspecified value here
                if self.o.get('div0', 'assume') == 'assume': pass
        else: raise Unsup('double op ' + op)
        if z3.is_rational_value(a.v) and z3.is_rational_value(b.v): v = z3.simplify(v)
        return D(nan, v)

    def concat(self, a, b):
        ta, tb = littext(a), littext(b)
        if ta is not None and tb is not None: return lit(ta + tb)
        if ta == '': return b
        if tb == '': return a
        f = z3.Function('concat', Str, Str, Str)
        return f(a, b)

    # generic equality of two values of one C++ type (bit identity for doubles)
    def same(self, a, b):
        if isinstance(a, Place) and not a.isobj(): a = self.read(a)
        if isinstance(b, Place) and not b.isobj(): b = self.read(b)
        if isinstance(a, Place): a = a.root[1]
        if isinstance(b, Place): b = b.root[1]
        if a is b: return True
        if a is None or b is None: return a is b
        if isinstance(a, D): return a.same(b)
        if isinstance(a, Opt):
            if a.has is False or b.has is False: return And(Not(a.has), Not(b.has))
            return Or(And(Not(a.has), Not(b.has)), And(a.has, b.has, self.same(a.v, b.v)))
        if isinstance(a, Cx): return And(self.same(a.re, b.re), self.same(a.im, b.im))
        if isinstance(a, SV): return And(*[self.same(a.f[k], b.f[k]) for k in a.f if not isinstance(a.f[k], Opaque)])
        if isinstance(a, Pair): return And(self.same(a.a, b.a), self.same(a.b, b.b))
        if isinstance(a, Vec):
            if a.items is not None and b.items is not None:
                if len(a.items) != len(b.items): return False
                return And(*[self.same(x, y) for x, y in zip(a.items, b.items)])
            a, b = self.vec_sym(a), self.vec_sym(b)
            if a.arr.eq(b.arr): return Eq(a.n, b.n)
            i = z3.Int(self.freshname('qi'))
            return And(Eq(a.n, b.n), z3.ForAll([i], Implies(And(i >= 0, i < a.n), z3.Select(a.arr, i) == z3.Select(b.arr, i))))
        if isinstance(a, Map):
            c = [Eq(a.n, b.n) if not (isinstance(a.n, int) and isinstance(b.n, int)) else a.n == b.n, True if a.has.eq(b.has) else a.has == b.has]
            if a.val is not None and not a.val.eq(b.val):
                k = z3.Const(self.freshname('qk'), a.has.sort().domain())
                c.append(z3.ForAll([k], Implies(z3.Select(a.has, k), z3.Select(a.val, k) == z3.Select(b.val, k))))
            return And(*c)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if isinstance(a, Opaque) and isinstance(b, Opaque) and isz(a.info) and isz(b.info) and a.info.sort() == b.info.sort(): return Eq(a.info, b.info)
            if isinstance(a, Opaque) and isinstance(b, Opaque) and isz(a.info) and isz(b.info) and a.info.eq(b.info): return True
            return z3.Bool(self.freshname('opqeq'))
        if isinstance(a, (PPtr, Lam, FnV, TypeIdx)): return a is b
        return Eq(a, b)

    def ite(self, c, a, b):
        """value-level conditional (None if not expressible)"""
        if c is True: return a
        if c is False: return b
        if a is b: return a
        if isinstance(a, Place) and not a.isobj(): a = self.read(a)
        if isinstance(b, Place) and not b.isobj(): b = self.read(b)
        if isinstance(a, Place) and isinstance(b, Place): return Place(('o', Ite(c, a.root[1], b.root[1])))
        if isinstance(a, D) and isinstance(b, D): return D(Ite(c, a.nan, b.nan), Ite(c, a.v, b.v))
        if isinstance(a, Opt) and isinstance(b, Opt):
            if a.v is None and b.v is None: return a
            return Opt(a.et, Ite(c, a.has, b.has), a.v if b.v is None else b.v if a.v is None else self.ite(c, a.v, b.v))
        if isinstance(a, Cx) and isinstance(b, Cx): return Cx(self.ite(c, a.re, b.re), self.ite(c, a.im, b.im))
        if isinstance(a, SV) and isinstance(b, SV): return SV(a.cls, {k: self.ite(c, a.f[k], b.f[k]) for k in a.f})
        if isinstance(a, Pair) and isinstance(b, Pair): return Pair(self.ite(c, a.a, b.a), self.ite(c, a.b, b.b), a.ta, a.tb)
        if isinstance(a, Vec) and isinstance(b, Vec):
            if a.items is not None and b.items is not None and len(a.items) == len(b.items): return Vec(a.et, items=[self.ite(c, x, y) for x, y in zip(a.items, b.items)], tk=a.tk)
            a, b = self.vec_sym(a), self.vec_sym(b); return Vec(a.et, Ite(c, a.n, b.n), Ite(c, a.arr, b.arr), tk=a.tk)
        if isinstance(a, Map) and isinstance(b, Map): return Map(a.kt, a.vt, Ite(c, a.has, b.has), None if a.val is None else Ite(c, a.val, b.val), Ite(c, a.n, b.n), tk=a.tk)
        if isinstance(a, Opaque) and isinstance(b, Opaque): return Opaque(a.tk)
        if a is None and b is None: return None
        if isinstance(a, (bool, int)) or isz(a):
            if isinstance(b, (bool, int)) or isz(b): return norm(Ite(c, a, b))
        raise Unsup('ite of %r / %r' % (a, b))
