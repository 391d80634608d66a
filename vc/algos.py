"""std algorithms over sequences."""
import z3
from vals import *
import lib, loops
from core import BreakEx, ContinueEx


def rng_args(ex, args):
    """range from (begin,end) or a container; number of arguments consumed"""
    a0 = lib.val(ex, args[0])
    if isinstance(a0, It): return lib.rng_of_iters(ex, a0, lib.val(ex, args[1])), 2
    return lib.as_rng(ex, args[0]), 1


def call(ex, n, q, f, args, e):
    if n == 'distance':
        a, b = lib.val(ex, args[0]), lib.val(ex, args[1])
        if a.kind == 'vec' and b.kind == 'vec': return ex.iop('-', b.pos, a.pos, 'long')
        return NotImplemented
    if n in ('next', 'prev') and args:
        a = lib.val(ex, args[0])
        if a.kind == 'vec':
            k = lib.val(ex, args[1]) if len(args) > 1 else 1
            return It('vec', a.place, pos=ex.iop('+' if n == 'next' else '-', a.pos, k, 'long'))
        if a.kind == 'map' and (len(args) == 1 or norm(lib.val(ex, args[1])) == 1): return lib.om_step(ex, a, 1 if n == 'next' else -1)
        return NotImplemented
    if n in ('find', 'find_if', 'any_of', 'all_of', 'none_of', 'for_each', 'count_if', 'count', 'accumulate'):
        r, k = rng_args(ex, args)
        q_ = loops.as_seq(ex, r); b = loops.concrete(ex, q_) if (not q_.ads or n not in ('find', 'find_if')) else None
        if n == 'find' and not r.ads and isinstance(r.src, Place):
            v = ex.read(r.src)
            if isinstance(v, Vec):
                x = lib.val(ex, args[k])
                if ex.kind(v.et) == 'ptr' and isinstance(x, Place): x = ex.addr(x)
                if v.items is not None or b is not None:
                    for i in range(len(b)):
                        if ex.choose(ex.same(lib.val(ex, b[i]), x)): return It('vec', r.src, pos=i)
                    return It('vec', r.src, pos=len(b))
                v = ex.vec_sym(v)
                i = z3.Int(ex.freshname('fi')); j = z3.Int(ex.freshname('fj')); xt = ex.to_term(x, v.et)
                ex._fact(z3.And(0 <= i, i <= i2z(v.n), z3.Implies(i < i2z(v.n), z3.Select(v.arr, i) == xt), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), z3.Select(v.arr, j) != xt), patterns=[z3.Select(v.arr, j)])))
                return It('vec', r.src, pos=i)
            if isinstance(v, Map) and v.vt is None:
                x = lib.keyval(ex, lib.val(ex, args[k]), args[k], v.kt)
                return It('map', r.src, key=x, valid=lib.m_has(ex, v, x))
        if n == 'find_if' and not r.ads and isinstance(r.src, Place):
            if b is not None:
                for i in range(len(b)):
                    if ex.choose(ex.tobool(lib.val(ex, ex.call_value(lib.val(ex, args[k]), [b[i]])))): return It('vec', r.src, pos=i)
                return It('vec', r.src, pos=len(b))
            v = ex.read(r.src)
            if isinstance(v, Vec):
                import summar
                return summar.find_if(ex, r.src, v, lib.val(ex, args[k]))
            if isinstance(v, Map):
                import summar
                return summar.find_if_map(ex, r.src, v, q_, lib.val(ex, args[k]))
        if b is None and n in ('any_of', 'all_of', 'none_of', 'for_each'):
            import summar
            fn = lib.val(ex, args[k]) if not isinstance(args[k], Place) or not args[k].isobj() else args[k]
            if n == 'for_each':
                def body(x):
                    kp, y = loops.apply_ads(ex, x, q_.ads)
                    if kp: ex.call_value(fn, [y])
                summar.seq_loop(ex, q_, body, e); return None
            return summar.quant(ex, q_, fn, n)
        if b is not None:
            fn = lib.val(ex, args[k])
            if n == 'for_each':
                for x in b: ex.call_value(fn, [x])
                return fn
            if n in ('any_of', 'all_of', 'none_of'):
                for x in b:
                    c = ex.choose(ex.tobool(lib.val(ex, ex.call_value(fn, [x]))))
                    if n == 'any_of' and c: return True
                    if n == 'all_of' and not c: return False
                    if n == 'none_of' and c: return False
                return n != 'any_of'
            if n == 'count_if':
                t = 0
                for x in b:
                    if ex.choose(ex.tobool(lib.val(ex, ex.call_value(fn, [x])))): t += 1
                return t
            if n == 'accumulate':
                acc = lib.val(ex, args[k]); op = lib.val(ex, args[k + 1]) if len(args) > k + 1 else None
                for x in b:
                    acc = lib.val(ex, ex.call_value(op, [acc, x])) if op is not None else (ex.dop('+', acc, lib.val(ex, x)) if isinstance(acc, D) else ex.iop('+', acc, lib.val(ex, x), f['ret']))
                return acc
    return NotImplemented
