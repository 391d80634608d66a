"""Interpretation of the extracted AST (statements, expressions, calls) over symbolic state."""
import z3
from core import *
from core import Core
import lib


class Exec(Core):
    # ------------------------------------------------------------------ functions
    def call_fn(self, fid, this, args, static_cls=None):
        """execute the body of repo function fid"""
        fn = self.p.fns.get(fid)
        if fn is None: raise Unsup('no body for ' + fid)
        o = fn.o
        if self.depthc > self.o['depth']: raise Unsup('call depth at ' + fn.q)
        if self.fnstack.count(fid) > self.o.get('recur', 3): raise Unsup('recursion in ' + fn.q)
        self.used[fid] = self.used.get(fid, 0) + 1
        of, ot = self.curframe, self.thisv
        self.frame += 1; self.curframe = self.frame; self.thisv = this
        self.depthc += 1; self.fnstack.append(fid)
        sc = self.scopes; self.scopes = []
        try:
            for p, a in zip(o['ps'], args):
                self.bindparam(p, a)
            if 'inits' in o: self.run_inits(o, this)
            try:
                self.block_stmt(o['body'])
                ret = None
            except ReturnEx as r: ret = r.v
            except (BreakEx, ContinueEx): raise Unsup('stray break/continue')
            if isinstance(ret, Place) and not ret.isobj() and not self.isref(o['f']['ret']): ret = self.read(ret)
            return ret
        finally:
            self.curframe, self.thisv = of, ot
            self.depthc -= 1; self.fnstack.pop(); self.scopes = sc

    def bindparam(self, p, a):
        if self.isref(p['t']):
            if not isinstance(a, Place):
                k = ('t', self.freshname('arg')); self.loc[k] = a; a = Place(('v', k))
            self.loc[(self.curframe, p['id'])] = a
        else:
            if isinstance(a, Place) and not a.isobj(): a = self.read(a)
            self.loc[(self.curframe, p['id'])] = a

    def run_inits(self, o, this):
        cls = o['f']['cls']
        for i in o['inits']:
            if i['k'] == 'base': self.init_into(i['x'], this, i['t'])
            elif i['k'] == 'deleg': self.init_into(i['x'], this, cls)
            else:
                fk = cls + '::' + i['n']; ft = self.fieldtype(fk)
                if ft is None: raise Unsup('init of ' + fk)
                if self.isref(ft):
                    pl = self.ev(i['x'])
                    self.setfield(this, fk, pl if not pl.isobj() else pl.root[1]); continue
                if self.kind(ft) == 'obj':
                    self.init_into(i['x'], self.member(this, cls, i['n']), ft); continue
                self.setfield(this, fk, self.initval(i['x'], ft))

    def setfield(self, this, fk, v):
        if this.isobj(): 
            if self.writes is not None: self.writes.add((fk, this.root[1], None))
            self.hwrite(fk, this.root[1], v)
        else: self.write(this.sub(('f', fk)), v)

    def initval(self, e, tk):
        """value of type tk from initialiser expression e"""
        if e is None: return self.empty(tk)
        if self.isref(tk):
            return self.ev(e)
        v = self.ev(e)
        if isinstance(v, Place) and not v.isobj(): v = self.read(v)
        return self.coerce(v, tk)

    def coerce(self, v, tk):
        if isinstance(v, list): return lib.from_list(self, v, tk)
        if self.kind(tk) == 'dbl' and (isinstance(v, (int, bool)) or (isz(v) and v.sort() == z3.IntSort())): return D(False, z3.ToReal(i2z(v)) if isz(v) else z3.RealVal(int(v)))
        return v

    def init_into(self, e, place, tk):
        """run the initialiser e with `place` as the object being constructed"""
        if e is None: return
        while e['e'] in ('mat',) or (e['e'] == 'cast' and e['ck'] in ('NoOp', 'ConstructorConversion', 'DerivedToBase', 'UncheckedDerivedToBase', 'ConstructorConversion')): e = e['x']
        if e['e'] == 'ctor' and self.T(e['t'])['k'] == 'rec' and self.T(e['t'])['repo']:
            if e['elid'] and len(e['args']) == 1: return self.init_into(e['args'][0], place, tk)
            self.construct(e['f'], self.evargs(e['f'], e['args']), place, e['t']); return
        if e['e'] == 'inhctor':
            self.construct(e['f'], [self.loc[k] for k in self.cur_params()], place, e['t']); return
        if e['e'] == 'ctor': # library base class
            self.evargs(e['f'], e['args']); return
        if e['e'] == 'ilist' and self.T(e['t'])['k'] == 'rec':
            fs = self.p.recs.get(e['t'], {}).get('fields', [])
            for f, a in zip(fs, e['args']):
                fk = e['t'] + '::' + f['n']
                if self.kind(f['t']) == 'obj': self.init_into(a, self.member(place, e['t'], f['n']), f['t'])
                else: self.setfield(place, fk, self.initval(a, f['t']))
            return
        v = self.ev(e)
        self.write(place, v)

    def cur_params(self):
        fn = self.p.fns[self.fnstack[-1]].o
        return [(self.curframe, p['id']) for p in fn['ps']]

    def construct(self, f, args, place, tk):
        """run constructor f on place"""
        h = self.hooks.get(f['q'])
        if h: return h(self, place, args, None)
        if f['id'] in self.p.fns and not (f.get('def') and (f.get('copy') or f.get('move')) and not self.p.fns[f['id']].o.get('inits')):
            self.call_fn(f['id'], place, args); return
        if f.get('copy') or f.get('move'):
            src = args[0]
            if isinstance(src, Place) and src.isobj() and place.isobj(): self.copyobj(place.root[1], src.root[1], tk); return
            self.write(place, self.read(src) if isinstance(src, Place) else src); return
        if not args:  # implicit default constructor not emitted: default member initialisers
            for c, fo in self.p.fields(tk):
                if 'init' in fo: self.setfield(place, c + '::' + fo['n'], self.initval(fo['init'], fo['t']))
                elif self.kind(fo['t']) not in ('int', 'dbl', 'bool', 'enum', 'obj', 'ptr'): self.setfield(place, c + '::' + fo['n'], self.empty(fo['t']))
                elif self.kind(fo['t']) == 'ptr' and self.T(fo['t'])['k'] == 'rec': self.setfield(place, c + '::' + fo['n'], NULL)
            return
        raise Unsup('no constructor body for ' + f['q'])

    def newobj(self, tk, e):
        """prvalue of repo class tk constructed by ctor expression e"""
        f = e['f']
        args = self.evargs(f, e['args'])
        return self.newobj_args(tk, f, args, e.get('elid'))

    def newobj_args(self, tk, f, args, elid=False):
        k = self.kind(tk)
        if k == 'ptr':   # stdcxx::Reference
            return lib.ref_ctor(self, f, args)
        if elid and len(args) == 1: return args[0]
        if k == 'sv':
            key = ('t', self.freshname('tmp'))
            self.loc[key] = SV(tk, {c + '::' + fo['n']: self.undef(fo['t'], fo['n']) for c, fo in self.p.fields(tk)})
            self.construct(f, args, Place(('v', key)), tk)
            return self.loc[key]
        pl = self.alloc(tk)
        self.construct(f, args, pl, tk)
        return pl

    def undef(self, tk, n):
        k = self.kind(tk)
        if k == 'opaque': return Opaque(tk)
        if k == 'obj': return self.alloc(tk)
        if k in ('int', 'dbl', 'bool', 'enum', 'ref') or (k in ('ptr', 'str') and self.T(tk)['k'] == 'p'):
            return self.from_term(self._fresh_const('undef:' + n, self.sort(tk)), tk)
        if k == 'sv':
            return SV(tk, {c + '::' + fo['n']: self.undef(fo['t'], fo['n']) for c, fo in self.p.fields(tk)})
        return self.empty(tk)

    # ------------------------------------------------------------------ statements
    def block_stmt(self, s):
        if s is None: return
        if s['s'] == 'try' : return self.stmt(s)
        return self.stmt(s)

    def stmt(self, s):
        if s is None: return
        getattr(self, 's_' + s['s'])(s)

    def s_block(self, s):
        self.scopes.append([])
        try:
            for c in s['b']: self.stmt(c)
        except BaseException as x:
            sc = self.scopes.pop()
            if isinstance(x, (CppThrow, ReturnEx, BreakEx, ContinueEx)):
                if isinstance(x, ReturnEx) and isinstance(x.v, Place) and not x.v.isobj(): pass
                self.run_dtors(sc)
            raise
        self.run_dtors(self.scopes.pop())

    def run_dtors(self, sc):
        for tk, pl in reversed(sc):
            for c in self.p.bases(tk):
                for m in self.p.recs[c]['methods']:
                    if m['dtor'] and m['id'] in self.p.fns and not self.p.fns[m['id']].o['implicit']:
                        self.call_fn(m['id'], pl, [])
                    elif m['dtor']:
                        h = self.hooks.get(c + '::~')
                        if h: h(self, pl, [], None)
                h = self.hooks.get('dtor:' + c)
                if h: h(self, pl, [], None)

    def s_expr(self, s): self.ev(s['x'])

    def s_nop(self, s): pass

    def s_decl(self, s):
        for d in s['d']: self.decl(d)

    def decl(self, d):
        key = (self.curframe, d['id']); tk = d['t']
        if 'static' in d:
            self.loc[key] = Place(('g', d['static'])); return
        if self.isref(tk):
            v = self.ev(d['init'])
            if not isinstance(v, Place):
                k = ('t', self.freshname('ref')); self.loc[k] = v; v = Place(('v', k))
            self.loc[key] = v; return
        k = self.kind(tk)
        e = d.get('init')
        if k == 'obj':
            while e is not None and e['e'] in ('mat',): e = e['x']
            if e is None: v = self.alloc(tk)
            else:
                v = self.ev(e)
                if not (isinstance(v, Place) and v.isobj()): raise Unsup('object initialised by %r' % (v,))
                if e.get('lv'): v = v  # unreachable: copies go through constructors
            self.loc[key] = v
            if self.scopes: self.scopes[-1].append((tk, v))
            return
        if e is None: self.loc[key] = self.undef(tk, d['n']); return
        v = self.initval(e, tk)
        self.loc[key] = v

    def s_if(self, s):
        if 'cv' in s: self.decl(s['cv'])
        c = self.tobool(self.rv(s['c']))
        if self.choose(c): self.stmt(s['a'])
        else: self.stmt(s['b'])

    def s_ret(self, s):
        v = None if s['x'] is None else self.ev(s['x'])
        if v is not None and isinstance(v, Place) and not v.isobj():
            rt = self.p.fns[self.fnstack[-1]].o['f']['ret'] if self.fnstack and isinstance(self.fnstack[-1], str) else (self.fnstack[-1][1] if self.fnstack else None)
            if rt is not None and not self.isref(rt): v = self.read(v)
        elif isinstance(v, list):
            rt = self.p.fns[self.fnstack[-1]].o['f']['ret'] if isinstance(self.fnstack[-1], str) else self.fnstack[-1][1]
            v = self.coerce(v, rt)
        raise ReturnEx(v)

    def s_break(self, s): raise BreakEx()

    def s_continue(self, s): raise ContinueEx()

    def s_try(self, s):
        try:
            self.stmt(s['b'])
        except CppThrow as x:
            for h in s['h']:
                if 'v' not in h or self.excmatch(x.cls, self.strip(h['v']['t'])):
                    if 'v' in h: self.loc[(self.curframe, h['v']['id'])] = x.val if isinstance(x.val, Place) else Opaque(h['v']['t'])
                    self.curexc.append(x)
                    try: self.stmt(h['b'])
                    finally: self.curexc.pop()
                    return
            raise

    STDEXC = {'std::runtime_error': 'std::exception', 'std::logic_error': 'std::exception', 'std::out_of_range': 'std::logic_error', 'std::invalid_argument': 'std::logic_error', 'std::bad_cast': 'std::exception', 'std::bad_alloc': 'std::exception', 'std::domain_error': 'std::logic_error', 'std::length_error': 'std::logic_error', 'std::bad_function_call': 'std::exception', 'boost::bad_optional_access': 'std::logic_error'}

    def excmatch(self, cls, h):
        seen = set(); todo = [cls]
        while todo:
            c = todo.pop()
            if c == h: return True
            if c in seen: continue
            seen.add(c)
            if c in self.p.recs:
                todo += [b for b, _ in self.p.recs[c]['bases']]
            elif c in self.STDEXC: todo.append(self.STDEXC[c])
        return False

    def s_switch(self, s):
        c = self.toint(self.rv(s['c']))
        items = []   # flatten
        body = s['b']['b'] if s['b']['s'] == 'block' else [s['b']]
        for st in body:
            labels = []
            while st is not None and st['s'] in ('case', 'default'):
                labels.append(st['v'] if st['s'] == 'case' else 'default'); st = st['b']
            items.append((labels, st))
        target = None; dflt = None
        for i, (ls, st) in enumerate(items):
            for l in ls:
                if l == 'default': dflt = i
                elif target is None:
                    if self.choose(Eq(c, self.toint(self.rv(l)))): target = i
            if target is not None: break
        if target is None:
            for j in range(len(items)):
                if 'default' in items[j][0]: dflt = j
            target = dflt
        if target is None: return
        self.scopes.append([])
        try:
            try:
                for ls, st in items[target:]: self.stmt(st)
            except BreakEx: pass
        finally:
            sc = self.scopes.pop()
        self.run_dtors(sc)

    def s_case(self, s): self.stmt(s['b'])

    def s_default(self, s): self.stmt(s['b'])

    def s_unk(self, s): raise Unsup('statement ' + s.get('k', '?'))

    # loops -------------------------------------------------------------
    def s_for(self, s):
        import loops
        self.stmt(s['i'])
        loops.run(self, s, 'for')

    def s_while(self, s):
        import loops
        loops.run(self, s, 'while')

    def s_do(self, s):
        import loops
        loops.run(self, s, 'do')

    def s_rfor(self, s):
        import loops
        loops.run_range(self, s)

    # ------------------------------------------------------------------ expressions
    def rv(self, e):
        v = self.ev(e)
        if isinstance(v, Place) and not v.isobj(): v = self.read(v)
        return v

    def ev(self, e):
        return getattr(self, 'e_' + e['e'])(e)

    def e_unk(self, e):
        if e.get('k') == 'SourceLocExpr': return Opaque(e.get('t', 'other'))
        raise Unsup('expression %s line %s' % (e.get('k'), e.get('l')))

    def e_int(self, e):
        return int(e['v'])

    def e_flt(self, e):
        v = e['v']
        if v in ('NaN', 'nan'): return NAN
        if 'nf' in v.lower(): return D(False, INF)
        f = float(v)
        if f >= 1.79769313486231e308: return D(False, DBLMAX)
        if f == 2.2250738585072014e-308 or f < 1e-300 and f > 0: return D(False, z3.Real('DBL_MIN'))
        return D(False, z3.RealVal(v if 'e' not in v.lower() else str(Fraction(v)) if False else _dec(v)))

    def e_bool(self, e): return bool(e['v'])

    def e_str(self, e): return lit(e['v'])

    def e_null(self, e): return NULL

    def e_zero(self, e): return self.empty(e['t'])

    def e_this(self, e):
        return self.addr(self.thisv) if self.thisv is not None else NULL

    def e_var(self, e):
        k = (self.curframe, e['id'])
        if k not in self.loc: raise Unsup('unbound variable ' + e['n'])
        v = self.loc[k]
        if isinstance(v, Place): return v
        return Place(('v', k))

    def e_glob(self, e):
        v = None
        h = self.hooks.get('glob:' + e['n'].split('|')[-1])
        if h: return h(self)
        n = e['n']
        if n not in self.globv and n not in self.p.globs:
            # library globals (e.g. boost::none)
            return Opaque(e['t'], n)
        v = self.globval(n)
        if isinstance(v, Place): return v
        return Place(('g', n))

    def e_enumc(self, e): return e['v']

    def e_fn(self, e): return FnV(e['f'])

    def e_mat(self, e):
        v = self.ev(e['x'])
        if isinstance(v, Place): return v
        if isinstance(v, list): v = self.coerce(v, e['t'])
        k = ('t', self.freshname('mat')); self.loc[k] = v
        return Place(('v', k))

    def e_mem(self, e):
        b = self.ev(e['x'])
        if e['arrow']:
            if isinstance(b, Place) and not b.isobj(): b = self.read(b)
            b = self.deref(b)
        if isinstance(b, Pair) or (not isinstance(b, Place) and not isinstance(b, SV)):
            if e['n'] in ('first', 'second') and isinstance(b, Pair): return b.a if e['n'] == 'first' else b.b
            raise Unsup('member %s of %r' % (e['n'], b))
        ct = self.T(e['cls'])
        if ct['k'] == 'rec' and not ct['repo']:
            if e['n'] in ('first', 'second'):
                return self.norm_place(b.sub(('pf', 0 if e['n'] == 'first' else 1)))
            if e['n'] in ('left', 'right') and 'bimap' in e['cls']: return b.sub(('pf', 0 if e['n'] == 'left' else 1))
            raise Unsup('library field %s::%s' % (e['cls'], e['n']))
        return self.member(b, e['cls'], e['n'])

    def norm_place(self, pl):
        """a place that stores a reference denotes its target"""
        return pl

    def e_memfn(self, e): raise Unsup('member function value')

    def e_cast(self, e):
        ck = e['ck']; x = e['x']
        if ck == 'LValueToRValue':
            v = self.ev(x)
            v = self.read(v) if isinstance(v, Place) and not v.isobj() else v
            return v
        if e.get('dyn'): return self.dyncast(e)
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'ConstructorConversion', 'UserDefinedConversion', 'ArrayToPointerDecay', 'BitCast'):
            v = self.ev(x)
            if ck == 'ConstructorConversion' and isinstance(v, list): v = self.coerce(v, e['t'])
            return v
        if ck == 'FunctionToPointerDecay': return self.ev(x)
        if ck == 'BuiltinFnToFnPtr': return self.ev(x)
        if ck == 'IntegralCast':
            return self.icast(self.rv(x), e['t'], x['t'])
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'): return self.tobool(self.rv(x))
        if ck == 'IntegralToFloating':
            v = self.toint(self.rv(x)); return D(False, z3.ToReal(v) if isz(v) else z3.RealVal(v))
        if ck == 'FloatingCast': return self.rv(x)
        if ck == 'FloatingToIntegral':
            v = self.rv(x); return norm(z3.simplify(z3.If(v.v >= 0, z3.ToInt(v.v), -z3.ToInt(-v.v))))
        if ck in ('NullToPointer', 'NullToMemberPointer'): return NULL
        if ck == 'ToVoid': self.ev(x); return None
        raise Unsup('cast ' + ck)

    def dyncast(self, e):
        x = e['x']; v = self.ev(x)
        tk = e['t']
        if self.T(tk)['k'] == 'p':
            if isinstance(v, Place) and not v.isobj(): v = self.read(v)
            tgt = self.T(tk)['t']
            if not isz(v): raise Unsup('dynamic_cast')
            if self.choose(Eq(v, NULL)): return NULL
            if self.choose(self.isa(v, tgt, self.T(x['t']).get('t'))): return v
            return NULL
        if not (isinstance(v, Place) and v.isobj()): raise Unsup('dynamic_cast of a value')
        if self.choose(self.isa(v.root[1], tk, self.strip(x['t']))): return v
        raise CppThrow('std::bad_cast', None, e.get('l'))

    def isa(self, r, cls, static=None):
        c = self.tcls.get(r.get_id())
        subs = self.p.allsubs(cls)
        if c: return c[0] in subs
        return Or(*[TYPEOF(r) == clsid(s) for s in subs if s in self.p.recs and not self.p.recs[s]['abstract']])

    def e_un(self, e):
        op = e['op']
        if op == '*':
            v = self.ev(e['x'])
            if isinstance(v, Place) and not v.isobj(): v = self.read(v)
            return self.deref(v)
        if op == '&':
            v = self.ev(e['x'])
            if isinstance(v, FnV): return v
            return self.addr(v)
        if op in ('++', '--'):
            pl = self.ev(e['x']); v = self.read(pl)
            if isinstance(v, It):
                nv = lib.it_step(self, v, 1 if op == '++' else -1)
            elif isinstance(v, D): nv = self.dop('+' if op == '++' else '-', v, D.const(1))
            else: nv = self.iop('+' if op == '++' else '-', v, 1, e['t'])
            self.write(pl, nv)
            return v if e['post'] else pl
        v = self.rv(e['x'])
        if op == '!': return Not(self.tobool(v))
        if op == '-':
            if isinstance(v, D): return D(v.nan, z3.simplify(-v.v) if z3.is_rational_value(v.v) else -v.v)
            return self.wrap(-v, e['t']) if isinstance(v, int) else self.iop('-', 0, v, e['t'])
        if op == '+': return v
        if op == '~':
            return self.wrap(~v, e['t']) if isinstance(v, int) else z3.Int(self.freshname('bitnot'))
        if op == '__extension__': return self.ev(e['x'])
        raise Unsup('unary ' + op)

    def e_bin(self, e):
        op = e['op']
        if op == '&&':
            a = self.tobool(self.rv(e['a']))
            if a is False: return False
            if a is True: return self.tobool(self.rv(e['b']))
            if self.pure(e['b']):
                return And(a, self.tobool(self.rv(e['b'])))
            if not self.choose(a): return False
            return self.tobool(self.rv(e['b']))
        if op == '||':
            a = self.tobool(self.rv(e['a']))
            if a is True: return True
            if a is False: return self.tobool(self.rv(e['b']))
            if self.pure(e['b']):
                return Or(a, self.tobool(self.rv(e['b'])))
            if self.choose(a): return True
            return self.tobool(self.rv(e['b']))
        if op == ',':
            self.ev(e['a']); return self.ev(e['b'])
        if op == '=':
            # C++11: right operand value, then store
            pl = self.ev(e['a']); v = self.rv(e['b'])
            self.write(pl, v); return pl
        a = self.rv(e['a']); b = self.rv(e['b'])
        return self.binval(op, a, b, e['t'], e['a']['t'])

    def binval(self, op, a, b, tk, at=None):
        if isinstance(a, D) or isinstance(b, D):
            return self.dop(op, a, b)
        if isinstance(a, It) and isinstance(b, It) and op in ('==', '!='):
            r = lib.it_eq(self, a, b)
            return r if op == '==' else Not(r)
        if isinstance(a, It) and a.kind == 'vec' and op in ('+', '-') and not isinstance(b, It): return It('vec', a.place, pos=self.iop(op, a.pos, b, 'long'))
        if isinstance(b, It) and b.kind == 'vec' and op == '+' and not isinstance(a, It): return It('vec', b.place, pos=self.iop(op, b.pos, a, 'long'))
        if isinstance(a, It) and isinstance(b, It) and a.kind == 'vec' and b.kind == 'vec' and op in ('-', '<', '<=', '>', '>='):
            if a.place is not b.place and (a.place.root[0] != b.place.root[0] or len(a.place.path) != len(b.place.path) or a.place.root[1] is not b.place.root[1] and not Eq(a.place.root[1], b.place.root[1]) is True): raise Unsup('iterators of different sequences')
            return self.iop('-', a.pos, b.pos, 'long') if op == '-' else self.cmpop(op, a.pos, b.pos) if hasattr(self, 'cmpop') else self.binval(op, a.pos, b.pos, tk, 'long')
        if isz(a) and a.sort() == Ref or isz(b) and b.sort() == Ref or isinstance(a, PPtr) or isinstance(b, PPtr):
            if isinstance(a, PPtr) or isinstance(b, PPtr):
                r = self.pptr_eq(a, b)
            else: r = Eq(a, b)
            if op == '==': return r
            if op == '!=': return Not(r)
            raise Unsup('pointer ' + op)
        if isinstance(a, Opaque) or isinstance(b, Opaque): 
            if op in ('==', '!=', '<', '>', '<=', '>='): return z3.Bool(self.freshname('opqb'))
            return Opaque(tk)
        rt = at if op in ('<', '>', '<=', '>=', '==', '!=', '>>', '<<') else tk
        if isz(a) and a.sort() == Str: raise Unsup('string pointer op')
        return self.iop(op, a, b, rt)

    def pptr_eq(self, a, b):
        if not isinstance(a, PPtr) or not isinstance(b, PPtr): return False
        x, y = a.place, b.place
        if x.root[0] != y.root[0]: return False
        if x.root[0] == 'o':
            if len(x.path) == len(y.path) and all(p[0] == q[0] for p, q in zip(x.path, y.path)):
                return And(Eq(x.root[1], y.root[1]), *[True if p == q else self.same(p[1], q[1]) if p[0] in ('i', 'k') else p == q for p, q in zip(x.path, y.path)])
            return False
        return x.root == y.root and x.path == y.path

    PURE_E = {'int', 'flt', 'bool', 'str', 'null', 'this', 'var', 'enumc', 'mem', 'cast', 'un', 'bin', 'glob'}
    PURE_Q = {'std::isnan', 'std::abs', 'stdcxx::isEqual'}

    def pure(self, e):
        """no side effect, no exception, no path split: may be evaluated eagerly"""
        k = e.get('_pure')
        if k is None:
            k = self._pure(e); e['_pure'] = k
        return k

    def _pure(self, e):
        if e is None: return True
        k = e['e']
        if k == 'call':
            q = e.get('f', {}).get('q', '')
            if q in self.PURE_Q or q in ('std::isnan', 'isnan', 'std::isinf'):
                return all(self.pure(a) for a in e['args'])
            return False
        if k not in self.PURE_E: return False
        if k == 'un':
            return e['op'] in ('!', '-', '+', '*', '&') and self.pure(e['x']) and (e['op'] != '*' or e['x']['e'] == 'this')
        if k == 'bin':
            return e['op'] not in ('=', ',') and self.pure(e['a']) and self.pure(e['b'])
        if k == 'cast': return not e.get('dyn') and e['ck'] != 'UserDefinedConversion' and self.pure(e['x'])
        if k == 'mem': return self.pure(e['x']) and (not e['arrow'] or e['x']['e'] == 'this')
        return True

    def e_casg(self, e):
        op = e['op'][:-1]
        pl = self.ev(e['a']); a = self.read(pl); b = self.rv(e['b'])
        if isinstance(b, D) and not isinstance(a, D): a = D(False, z3.ToReal(i2z(a)))
        if e['t'] == 'bool' and op in ('&', '|') :
            a, b = self.tobool(a), self.tobool(b)
            v = And(a, b) if op == '&' else Or(a, b)
        else:
            v = self.binval(op, a, b, e['t'] if isinstance(a, D) else e['ct'], e['ct'])
            if not isinstance(v, D): v = self.icast(v, e['t'], e['ct'])
        self.write(pl, v); return pl

    def e_cond(self, e):
        c = self.tobool(self.rv(e['c']))
        if isinstance(norm(c), bool): return self.ev(e['a'] if c else e['b'])
        if self.pure(e['a']) and self.pure(e['b']) and not e.get('lv'):
            a, b = self.rv(e['a']), self.rv(e['b'])
            try: return self.ite(c, a, b)
            except Unsup: pass
        return self.ev(e['a']) if self.choose(c) else self.ev(e['b'])

    def e_idx(self, e):
        b = self.ev(e['a']); i = self.rv(e['b'])
        if isinstance(b, PPtr): return b.place.sub(('i', i))
        if isinstance(b, Place): return b.sub(('i', i))
        raise Unsup('array subscript')

    def e_ilist(self, e):
        t = self.T(e['t'])
        if t['k'] == 'rec' and t['repo']:
            k = self.kind(e['t'])
            if k == 'sv':
                key = ('t', self.freshname('agg')); self.loc[key] = self.undef(e['t'], 'agg')
                self.init_into(e, Place(('v', key)), e['t']); return self.loc[key]
            pl = self.alloc(e['t']); self.init_into(e, pl, e['t']); return pl
        if t['k'] in ('b', 'enum', 'p') :
            return self.rv(e['args'][0]) if e['args'] else self.empty(e['t'])
        out = []
        for a in e['args']:
            out.append(self.rv(a))
        if t['k'] == 'rec' and t['n'] == 'std::pair': return Pair(out[0], out[1], *t['a'][:2])
        if t['k'] == 'arr' : return Vec(t['t'], items=out)
        if t['k'] == 'rec' and t['n'] == 'std::initializer_list': return Vec(t['a'][0], items=out)
        if t['k'] == 'rec' and t['n'] == 'std::array':
            if len(out) == 1 and isinstance(out[0], Vec): return out[0]
            return Vec(t['a'][0], items=out)
        if len(out) == 1: return out[0]
        return out

    def e_typeid(self, e):
        if 'tt' in e: return TypeIdx(self.strip(e['tt']))
        v = self.ev(e['x'])
        if isinstance(v, Place) and v.isobj():
            c = self.exactcls(v.root[1], self.strip(e['x']['t']))
            if c: return TypeIdx(c)
            # dynamic type unknown: an injective name of the class of the object
            r = v.root[1]; t = TYPEOF(r); n = TYPENAME(t)
            self._fact(NAMETYPE(n) == t)
            for s in self.p.allsubs(self.strip(e['x']['t'])):
                if s in self.p.recs and not self.p.recs[s]['abstract']: self._fact(And(TYPENAME(clsid(s)) == lit('type:' + s), NAMETYPE(lit('type:' + s)) == clsid(s)))
            return n
        raise Unsup('typeid of a polymorphic object')

    def e_new(self, e):
        at = e['at']
        if self.T(at)['k'] == 'rec' and self.T(at)['repo']:
            x = e['x']
            if self.kind(at) == 'sv': raise Unsup('new of a value record')
            pl = self.alloc(at)
            if x is not None: self.init_into(x, pl, at)
            return pl.root[1]
        raise Unsup('new ' + at)

    def e_delete(self, e): self.ev(e['x']); return None

    def e_throw(self, e):
        x = e['x']
        if x is None:
            if self.curexc: raise self.curexc[-1]
            raise Unsup('rethrow')
        raise CppThrow(x['t'], None, e.get('l'))

    def e_lambda(self, e):
        caps = {}
        for c in e['caps']:
            if c['k'] == 'this': continue
            k = (self.curframe, c['id'])
            v = self.loc.get(k)
            if v is None: continue
            if c['k'] == 'ref': caps[c['id']] = v if isinstance(v, Place) else Place(('v', k))
            elif c['k'] == 'copy':
                if isinstance(v, Place) and not v.isobj(): v = self.read(v)
                caps[c['id']] = v
            else: raise Unsup('lambda capture')
        return Lam(e, caps, self.thisv, self.curframe)

    def call_value(self, f, args):
        """call a function object"""
        if isinstance(f, Place): 
            if f.isobj(): return self.call_functor(f, args)
            f = self.read(f)
        if isinstance(f, Place): return self.call_functor(f, args)
        if isinstance(f, Opt): f = f.v
        if isinstance(f, Lam):
            of, ot = self.curframe, self.thisv
            self.frame += 1; self.curframe = self.frame; self.thisv = f.this
            sc = self.scopes; self.scopes = []
            self.fnstack.append(('lambda', f.node['ret']))
            try:
                for i, v in f.caps.items(): self.loc[(self.curframe, i)] = v
                for p, a in zip(f.node['ps'], args): self.bindparam(p, a)
                if 'body' not in f.node: raise Unsup('generic lambda')
                try:
                    self.stmt(f.node['body']); return None
                except ReturnEx as r: return r.v
            finally:
                self.curframe, self.thisv = of, ot; self.scopes = sc; self.fnstack.pop()
        if isinstance(f, FnV):
            if f.f.get('cls') and not f.f.get('static'):
                return self.invoke(f.f, args[0], args[1:], None)
            return self.invoke(f.f, None, args, None)
        if callable(f): return f(*args)
        raise Unsup('call of %r' % (f,))

    def call_functor(self, pl, args):
        c = self.tcls.get(pl.root[1].get_id())
        if c:
            for m in self.p.recs[c[0]]['methods']:
                if m['n'] == 'operator()': return self.call_fn(m['id'], pl, args)
        raise Unsup('functor call')

    def evargs(self, f, args):
        out = []
        ps = f.get('ps', [])
        for i, a in enumerate(args):
            v = self.ev(a)
            pt = ps[i] if i < len(ps) else None
            if isinstance(v, Place) and not v.isobj() and (pt is None or not self.isref(pt)) and not a.get('lv'): v = self.read(v)
            out.append(v)
        return out

    def e_ctor(self, e):
        t = self.T(e['t'])
        if t['k'] == 'rec' and t['repo']:
            if e['elid'] and len(e['args']) == 1:
                return self.ev(e['args'][0])
            return self.newobj(e['t'], e)
        if t['k'] == 'arr': raise Unsup('array construction')
        args = self.evargs(e['f'], e['args'])
        return lib.construct(self, e, e['t'], args)

    def e_inhctor(self, e): raise Unsup('inherited constructor')

    def e_call(self, e):
        if 'f' not in e:
            fx = self.ev(e['fx'])
            if isinstance(fx, Place) and not fx.isobj(): fx = self.read(fx)
            return self.call_value(fx, [self.ev(a) for a in e['args']])
        f = e['f']
        this = None
        if 'obj' in e:
            this = self.ev(e['obj'])
            if e.get('arrow'):
                if isinstance(this, Place) and not this.isobj(): this = self.read(this)
                if not isinstance(this, Place): this = self.deref(this)
        elif f.get('cls') and not f.get('static') and self.T(f['cls'])['k'] == 'rec' and False: this = self.thisv
        args = self.evargs(f, e['args'])
        return self.invoke(f, this, args, e)

    def invoke(self, f, this, args, e):
        q = f['q']
        h = self.hooks.get(q)
        if h is not None:
            r = h(self, this, args, e)
            if r is not NotImplemented: return r
        if f.get('repo'):
            h = lib.REPO.get(q)
            if h is not None:
                r = h(self, this, args, e if e is not None else {'f': f})
                if r is not NotImplemented: return r
            if self.T(f.get('cls', ''))['k'] == 'lambda' and f['n'] == 'operator()': return self.call_value(this, args)
            if (f.get('copyasg') or f.get('moveasg')) and this is not None and self.kind(f['cls']) == 'opaque':
                self.write(this, self.read(args[0])); return this
            fid = f['id']
            if fid in self.idhooks and not f.get('virt'):
                r = self.idhooks[fid](self, this, args, e)
                if r is not NotImplemented: return r
            if isinstance(this, Place) and not this.isobj() and this.path[-1:] and this.path[-1][0] == 'i' and self.kind(f.get('cls') or 'int') == 'obj':
                y = self.read(this)      # element of a vector of objects
                if isz(y) and y.sort() == Ref: self.ref_facts(y, f['cls'], True); this = Place(('o', y))
            if this is not None and not isinstance(this, Place):
                if self.kind(f['cls']) == 'ptr':
                    return lib.call(self, f, this, args, e)
                k = ('t', self.freshname('this')); self.loc[k] = this; this = Place(('v', k))
            if this is not None and f.get('cls') and self.kind(f['cls']) == 'ptr':
                return lib.call(self, f, this, args, e)
            if f.get('virt') and this is not None and not (e or {}).get('qual'):
                static = self.strip(e['obj']['t']) if e and 'obj' in e else f['cls']
                if e and e.get('arrow') and self.T(static)['k'] in ('p',): static = self.T(static)['t']
                if static not in self.p.recs: static = f['cls']
                fid = self.dispatch(f, this, static)
                h = self.idhooks.get(fid)
                if h:
                    r = h(self, this, args, e)
                    if r is not NotImplemented: return r
            if this is not None and this.isobj() and f.get('cls') in self.lazyinv and this.root[1].get_id() in OLD:
                self.apply_inv(this.root[1], f['cls'])
            if fid not in self.p.fns:
                if f.get('def') and (f.get('copyasg') or f.get('moveasg')):
                    src = args[0]; self.write(this, self.read(src) if not src.isobj() else src); return this
                raise Unsup('no body for ' + q)
            if q.startswith('powsybl::iidm::') and False: pass
            return self.call_body(fid, this, args, f)
        return lib.call(self, f, this, args, e)

    # pure getters are summarised (their paths merged) so that they do not multiply the caller's paths
    def call_body(self, fid, this, args, f):
        fn = self.p.fns[fid].o
        if self.mergeable(fn):
            return self.call_merged(fid, this, args)
        return self.call_fn(fid, this, args)

    def mergeable(self, fn):
        m = fn.get('_merge')
        if m is None:
            rt = fn['f']['ret']
            m = (fn.get('const') or fn['f'].get('static') or not fn['f'].get('cls')) and self.has_branch(fn['body']) and (rt == 'void' or self.kind(self.strip(rt)) in ('int', 'dbl', 'bool', 'enum', 'str', 'opt', 'cx', 'ptr'))  and 'inits' not in fn
            if rt == 'void' and not fn['f'].get('const'): m = m and not any(self.isref(p['t']) and False for p in fn['ps'])
            fn['_merge'] = bool(m)
        return fn['_merge']

    def has_branch(self, s):
        if isinstance(s, dict):
            if s.get('s') in ('if', 'switch', 'for', 'while', 'rfor', 'do', 'try') or s.get('e') in ('cond', 'throw'): return True
            if s.get('e') == 'bin' and s.get('op') in ('&&', '||'): return True
            if s.get('e') == 'call': return True
            return any(self.has_branch(v) for v in s.values())
        if isinstance(s, list): return any(self.has_branch(v) for v in s)
        return False

    def call_merged(self, fid, this, args):
        ws = self.writes; self.writes = set() if ws is None else ws
        try:
            res = self.nested(lambda: self.call_fn(fid, this, args))
        finally: self.writes = ws
        if not res: raise PathEnd()
        return self.merge_results(res, lambda: self.call_fn(fid, this, args))

    def state_same(self, r):
        for k, v in r['heap'].items():
            if k in self.heap:
                if not self.heap[k].eq(v): return False
            elif not (v.num_args() == 0 and v.decl().name().startswith('H0:')): return False
        for k, (ref, v) in r['fresh'].items():
            if k in self.fresh and self.fresh[k][1] is not v: return False
        for k, v in r['ghost'].items():
            if k not in self.ghost or self.ghost[k] is not v: return False
        for k, v in r['loc'].items():
            if k in self.loc and self.loc[k] is not v: return False
        for k, v in r['globv'].items():
            if k in self.globv and self.globv[k] is not v: return False
        return True

    def merge_results(self, res, redo):
        if len(res) == 1 and res[0]['kind'] == 'ret' or any(not self.state_same(r) for r in res):
            if len(res) == 1 and self.state_same(res[0]):
                for c in res[0]['pc']: self.assume(c)
                self.adopt(res[0]); return res[0]['val']
            return redo()
        rets = [r for r in res if r['kind'] == 'ret']; excs = [r for r in res if r['kind'] == 'exc']
        if len(rets) > 1:
            v = self.try_merge(rets)
            if v is NotImplemented or not self.merge_created(rets): return redo()
        for r in excs:
            if r is res[-1] and not rets:
                for c in r['pc']: self.assume(c)
                raise r['val']
            if self.choose(And(*r['pc'])): raise r['val']
        if not rets: raise PathEnd()
        self.assume(Or(*[And(*r['pc']) for r in rets])) if excs or len(rets) == 1 else self.assume_any(rets)
        if len(rets) == 1:
            for c in rets[0]['pc']: self.assume(c)
            self.adopt(rets[0])
            return rets[0]['val']
        for r in rets: self.adopt(r)
        return v

    def assume_any(self, rets):
        c = Or(*[And(*r['pc']) for r in rets])
        if c is True: return
        s = norm(z3.simplify(c)) if isz(c) else c
        if s is True: return
        self.solver.add(c); self.pcs.append(c)

    def adopt(self, r):
        """objects and temporaries created on a merged (side-effect free) path stay readable"""
        for k, x in r['fresh'].items():
            if k not in self.fresh and k[1] not in self.flushed: self.fresh[k] = x
        for k, x in r['loc'].items():
            if k not in self.loc: self.loc[k] = x
        for k, x in r['heap'].items():
            if k not in self.heap: self.heap[k] = x
        for k, x in r['globv'].items():
            if k not in self.globv: self.globv[k] = x

    def merge_created(self, rets):
        """objects and temporaries created on several of the merged paths hold the value of the path taken"""
        for kind, old in (('fresh', self.fresh), ('loc', self.loc)):
            keys = {}
            for r in rets:
                for k in r[kind]:
                    if k not in old: keys.setdefault(k, []).append(r)
            for k, rs in keys.items():
                if len(rs) < 2: continue
                x0 = rs[0][kind][k]; val = (lambda x: x[1]) if kind == 'fresh' else (lambda x: x)
                if all(r[kind][k] is x0 or self.ident(val(r[kind][k]), val(x0)) for r in rs[1:]): continue
                if kind == 'loc':
                    for r in rs: r[kind] = {a: b for a, b in r[kind].items() if a != k}
                    continue
                v = val(rs[-1][kind][k])
                for r in reversed(rs[:-1]):
                    try: v = self.ite(And(*r['pc']), val(r[kind][k]), v)
                    except Unsup: return False
                for r in rs: r[kind] = dict(r[kind]); r[kind][k] = (x0[0], v)
        return True

    def ident(self, a, b):
        if a is b: return True
        if isz(a) and isz(b): return a.eq(b)
        if type(a) is not type(b): return False
        if isinstance(a, D): return self.ident(a.nan, b.nan) and self.ident(a.v, b.v)
        if isinstance(a, (bool, int, str)): return a == b
        if isinstance(a, Place): return a.path == b.path and (a.root == b.root if not a.isobj() else a.root[1].eq(b.root[1])) if a.isobj() == b.isobj() else False
        return False

    def try_merge(self, rets):
        v = rets[-1]['val']
        if any(isinstance(r['val'], Place) and not r['val'].isobj() for r in rets): return NotImplemented
        for r in reversed(rets[:-1]):
            try: v = self.ite(And(*r['pc']), r['val'], v)
            except Unsup: return NotImplemented
        return v


def _dec(v):
    from fractions import Fraction as F
    f = F(v)
    return '%d/%d' % (f.numerator, f.denominator) if f.denominator != 1 else str(f.numerator)


# make the methods of Exec available on Core instances created elsewhere


def _bounds(self, c):
    """in-bounds / engaged condition of an unchecked library access"""
    c = norm(c)
    if c is True: return
    if self.o.get('ub') == 'check':
        if c is False or not self.check('in-bounds access in ' + self.where(), c): pass
    self.assume(c)


def _ub(self, msg):
    if self.o.get('ub') == 'check': self.check('no undefined behaviour: %s in %s' % (msg, self.where()), False)


def _where(self):
    for f in reversed(self.fnstack):
        if isinstance(f, str) and f in self.p.fns: return self.p.fns[f].q
    return '?'


Exec.bounds = _bounds
Exec.ub = _ub
Exec.where = _where
