"""Specification helpers shared by the property modules: ghost variant index, observers, frames."""
import z3, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vals import *
from exec import Exec
import lib

NS = 'powsybl::iidm::'
NETF = z3.Function('uf:net', Ref, Ref)


def q(n): return n if '::' in n and n.startswith(('powsybl::', 'stdcxx::', 'std::')) else NS + n


class Ctx:
    """one executor with the ghost model of the network: W = working variant index, N = number of variants"""
    def __init__(self, prog, **opts):
        self.p = prog
        self.ex = Exec(prog, opts)
        self.NET = z3.Const('in:NET', Ref)
        self.W, self.W2, self.N = z3.Int('W'), z3.Int('W2'), z3.Int('N')
        ex = self.ex
        for qq in prog.byq:
            n = qq.rsplit('::', 1)[-1]
            if n == 'getNetwork': ex.hooks[qq] = self.h_net
        for qq in [NS + 'VariantManager::getVariantIndex', NS + 'Network::getVariantIndex', NS + 'VariantManagerHolder::getVariantIndex', NS + 'NetworkRef::getVariantIndex']:
            ex.hooks[qq] = self.h_vi
        ex.hooks[NS + 'VariantManager::getVariantArraySize'] = lambda ex, this, a, e: self.N
        ex.assumed['VariantManager::getVariantIndex/getVariantArraySize return the ghost variables W, N (discharged in V03)'] = 1
        ex.assumed['getNetwork() of any object of the network is an uninterpreted function of the object (one network per object)'] = 1

    def h_net(self, ex, this, args, e):
        if this is None or not this.isobj(): return NotImplemented
        r = self.net_of(this.root[1])
        return Place(('o', r))

    def net_of(self, r):
        ex = self.ex
        t = r
        # sub-objects and freshly created objects are looked through by the hooks of the spec
        n = NETF(t); OLD[n.get_id()] = n
        ex._fact(z3.And(Ref.is_obj(n), Ref.oid(n) < 0, TYPEOF(n) == clsid(NS + 'Network')))
        ex.tcls[n.get_id()] = (NS + 'Network', n)
        return n

    def hook_all(self, qn, h):
        """hook every overload of a function, also when it is reached by virtual dispatch"""
        self.ex.hooks[qn] = h
        for f in self.p.byq.get(qn, []): self.ex.idhooks[f.id] = h

    def h_vi(self, ex, this, args, e):
        if args: return NotImplemented
        return ex.ghost.get('W', self.W)

    def start(self):
        """ghost facts, on every path"""
        ex = self.ex
        W, W2, N = self.W, self.W2, self.N
        ex._fact(z3.And(0 <= W, W < N, 0 <= W2, W2 < N, W != W2, N < (1 << 40)))
        ex.ghost['W'] = W

    def at(self, w):
        self.ex.ghost['W'] = w; return self

    # -------------------------------------------------------------- calls
    def method(self, cls, name, nargs=None, const=None, pred=None):
        """most-derived declaration of a method visible in class cls"""
        for c in self.p.bases(cls):
            r = self.p.recs.get(c)
            if not r: continue
            ms = [m for m in r['methods'] if m['n'] == name and (nargs is None or len(m['ps']) == nargs) and (const is None or m['const'] == const) and (pred is None or pred(m))]
            if ms:
                return c, ms[0]
        return None

    def call(self, obj, name, *args, cls=None, const=None, pred=None, raw=False):
        """call a method of a symbolic object by name (virtual dispatch included)"""
        ex = self.ex
        cls = cls or ex.tcls[obj.root[1].get_id()][0]
        m = None
        if const is None:
            m = self.method(cls, name, len(args), True, pred) or self.method(cls, name, len(args), None, pred)
        else: m = self.method(cls, name, len(args), const, pred)
        if m is None: raise Unsup('no method %s/%d in %s' % (name, len(args), cls))
        c, m = m
        f = dict(id=m['id'], q=c + '::' + name, n=name, cls=c, repo=True, virt=m['virt'], ps=[x[1] for x in m['ps']], ret=m['ret'], static=m['static'])
        a2 = []
        for a, pt in zip(args, f['ps']):
            a2.append(a)
        h = ex.hooks.get(f['q'])
        if h is not None:
            r = h(ex, obj, a2, None)
            if r is not NotImplemented: return r
        fid = m['id']
        if m['virt']: fid = ex.dispatch(f, obj, cls)
        h = ex.idhooks.get(fid)
        if h:
            r = h(ex, obj, a2, None)
            if r is not NotImplemented: return r
        if fid not in self.p.fns: raise Unsup('no body for ' + f['q'])
        r = ex.call_body(fid, obj, a2, f)
        if raw: return r
        return ex.read(r) if isinstance(r, Place) and not r.isobj() else r

    def quiet(self, fn):
        """evaluate an observer: paths on which it throws are excluded (it is only a reading of the state)"""
        try: return fn()
        except CppThrow: raise PathEnd()

    # -------------------------------------------------------------- frames
    def heap_frame(self, h0, roots, allowed=(), label='frame'):
        """every heap cell of objects other than `roots` (and objects created meanwhile) is unchanged"""
        ex = self.ex
        for fk, a in list(ex.heap.items()):
            b = h0.get(fk)
            if b is None:
                tk = ex.fieldtype(fk) if not fk.startswith('$') else fk.split(':', 1)[1]
                b = z3.Const('H0:' + fk, a.sort())
            if a.eq(b): continue
            if any(fk.endswith(x) for x in allowed): continue
            r = z3.Const(ex.freshname('fr'), Ref)
            cond = And(*[r != x for x in roots])
            # objects allocated during the call are not part of the frame
            old = z3.Or(z3.And(Ref.is_obj(r), Ref.oid(r) < 0), z3.And(Ref.is_sub(r), Or(Not(Ref.is_obj(Ref.owner(r))), Ref.oid(Ref.owner(r)) < 0)))
            own = And(*[Not(And(Ref.is_sub(r), Ref.owner(r) == x)) for x in roots])
            ex.check('%s: %s of other objects unchanged' % (label, fk.replace(NS, '')), Implies(And(old, cond, own), z3.Select(a, r) == z3.Select(b, r)))


# ---- predicates on values
def num(x): return Not(x.nan)


def gt0(x): return And(Not(x.nan), x.v > 0)


def ge0(x): return And(Not(x.nan), x.v >= 0)


def le(a, b): return And(Not(a.nan), Not(b.nan), a.v <= b.v)


def gt(a, b): return And(Not(a.nan), Not(b.nan), a.v > b.v)
