"""X02: anonymization is a stable, invertible one-to-one renaming."""
import prog, lib, z3
from check import Goal
from contract import *
from vals import *
from N01 import outcome, strarg, unchanged

GLOBS = prog.CORE + prog.XML
DRIVER = 'X02'
SA, FA = NS + 'converter::SimpleAnonymizer', NS + 'converter::FakeAnonymizer'
# ghost functions over strings. rest(n, s) is the number whose digits, to base 26 without zero, are those of n followed by the letters of s:
# rest(n, s) = n * 26^|s| + rest(0, s).  It is a function of its arguments, so a string has one number: equal names have equal numbers.
REST = z3.Function('ghost:number', z3.IntSort(), Str, z3.IntSort())
CLEAN = z3.Function('ghost:letters only', Str, z3.BoolSort())
ALPHA = z3.Function('ghost:name of', z3.IntSort(), Str)
S = lambda n: z3.Const('any ' + n, Str)


def rd(ex, v): return ex.read(v) if isinstance(v, Place) and not v.isobj() else v


def fn(p, c, n): return p.byq[c + '::' + n][0]


def call(ex, f, o, *a): return rd(ex, ex.call_body(f.id, o, list(a), f.o['f']) if f.o.get('f') else ex.call_fn(f.id, o, list(a)))


class Mp:
    """the mapping of an anonymizer: its only bimap field"""
    def __init__(self, ctx, o):
        ex = ctx.ex
        fs = [(k, f) for k, f in ctx.p.fields(SA) if ctx.p.types.get(f['t'], {}).get('bimap')]
        if len(fs) != 1: raise Unsup('mapping of the anonymizer')
        v = ex.read(ex.member(o, fs[0][0], fs[0][1]['n'])); self.l, self.r = v.a, v.b
        if not isinstance(self.l, Map) or not isinstance(self.r, Map): raise Unsup('mapping of the anonymizer')

    def has(self, s): return z3.Select(self.l.has, s)
    def val(self, s): return z3.Select(self.l.val, s)
    def rhas(self, s): return z3.Select(self.r.has, s)
    def rval(self, s): return z3.Select(self.r.val, s)

    def inv(self, pat=True):
        """the two views are inverse of each other and name the same pairs (what boost::bimap maintains); pseudonyms are not empty"""
        s = S('string')
        return [('left to right', z3.ForAll([s], z3.Implies(self.has(s), z3.And(self.rhas(self.val(s)), self.rval(self.val(s)) == s)))),
                ('right to left', z3.ForAll([s], z3.Implies(self.rhas(s), z3.And(self.has(self.rval(s)), self.val(self.rval(s)) == s)))),
                ('as many', Eq(self.l.n, self.r.n)), ('no empty pseudonym', Not(self.rhas(lit(''))))]


def digits(ex, c, s, r):
    """the meaning of a letter put in front: rest(q, c s) = rest(26 q + c - 64, s)"""
    q = z3.Int('q')
    ex._fact(z3.ForAll([q], REST(q, r) == REST(26 * q + i2z(c) - 64, s), patterns=[REST(q, r)]))
    ex._fact(z3.Implies(z3.And(CLEAN(s), i2z(c) >= 65, i2z(c) <= 90), CLEAN(r)))


def start(p):
    ctx = Ctx(p, strcons=[digits]); ctx.start(); ex = ctx.ex
    q = z3.Int('q')
    ex._fact(z3.ForAll([q], REST(q, lit('')) == q, patterns=[REST(q, lit(''))])); ex._fact(CLEAN(lit('')))
    return ctx


def setup(ctx):
    ex = ctx.ex; o = ex.symobj(SA, 'anonymizer'); m = Mp(ctx, o)
    for l, c in m.inv(): ex.assume(c)
    ex._fact(i2z(m.l.n) < (1 << 62))
    ctx.hook_all(SA + '::getAlpha', alpha)
    f = fn(ctx.p, SA, 'anonymizeString'); ex.loop_invs = {f.q: retry(ctx, f)}
    return o, m


def alpha(ex, this, a, e):
    """contract of getAlpha, established by the goal of that name"""
    n = rd(ex, a[0]); ex.check('a name is asked for a positive number', i2z(n) >= 1)
    r = ALPHA(i2z(n)); ex._fact(z3.And(r != lit(''), CLEAN(r), REST(0, r) == i2z(n)))
    return r


def retry(ctx, f):
    """loop of anonymizeString: the candidate is the name of the number tried (numbers below 2^63: fewer than 2^63 pseudonyms in use)"""
    ex = ctx.ex

    def iv(env):
        par = [q['id'] for q in f.o['ps']]
        k = lambda kd: [n for n in env.names if env.has(n) and env.names[n][0] not in par and ex.kind(ex.strip(env.types.get(env.names[n][0], 'void'))) == kd]
        ints, strs = k('int'), k('str')
        if len(ints) != 1 or len(strs) != 1: return None
        n, s = i2z(env.local(ints[0])), env.local(strs[0])
        ex._fact(n < (1 << 63))
        return {'positive': n >= 1, 'candidate': REST(0, s) == n, 'letters only': CLEAN(s), 'not empty': s != lit('')}
    return iv


def getalpha(p):
    ctx = Ctx(p, strcons=[digits]); ex = ctx.ex
    f = fn(p, SA, 'getAlpha')

    def iv(env):
        ints = [n for n in env.names if env.has(n) and ex.kind(ex.strip(env.types.get(env.names[n][0], 'void'))) == 'int']
        strs = [n for n in env.names if env.has(n) and ex.kind(ex.strip(env.types.get(env.names[n][0], 'void'))) == 'str']
        if len(strs) != 1: return None
        s = env.local(strs[0]); par = [q['id'] for q in f.o['ps']]
        cand = [n for n in ints if env.names[n][0] not in par] or ints
        if not cand: return None
        n = env.local(cand[0])
        return {'number': REST(i2z(n), s) == NUM, 'letters only': CLEAN(s), 'positive': i2z(n) >= 0, 'empty only at first': z3.Implies(s == lit(''), i2z(n) == NUM)}
    NUM = z3.Int('num')

    def body(ex):
        ctx.start(); q = z3.Int('q')
        ex._fact(z3.ForAll([q], REST(q, lit('')) == q, patterns=[REST(q, lit(''))])); ex._fact(CLEAN(lit('')))
        ex._fact(z3.And(NUM >= 1, NUM < (1 << 63)))
        ex.loop_invs = {f.q: iv}
        ex.cover('any number')
        r, th = outcome(lambda: call(ex, f, None, NUM))
        ex.check('does not fail', th is None)
        if th is None:
            ex.check('the name determines the number', REST(0, r) == NUM)
            ex.check('letters only', CLEAN(r)); ex.check('not empty', r != lit(''))
    ex.explore(body); return ex


def anonymize(p):
    ctx = Ctx(p, strcons=[digits]); ex = ctx.ex; f = fn(p, SA, 'anonymizeString')

    def body(ex):
        ctx.start(); o, m = setup(ctx); s, a = strarg(ex, 'string'); h0 = dict(ex.heap); x = S('other string')
        r, th = outcome(lambda: call(ex, f, o, a))
        ex.cover('any string and mapping')
        ex.check('does not fail', th is None, str(th))
        if th is not None: return
        k = Mp(ctx, o)
        known = z3.Or(s == lit(''), m.has(s))
        ex.check('the empty string stays', z3.Implies(s == lit(''), r == lit('')))
        ex.check('a known string keeps its pseudonym', z3.Implies(z3.And(s != lit(''), m.has(s)), r == m.val(s)))
        ex.check('nothing is recorded for a known string', z3.Implies(known, z3.And(k.has(x) == m.has(x), z3.Implies(m.has(x), k.val(x) == m.val(x)), Eq(k.l.n, m.l.n))))
        new = Not(known)
        ex.check('a new string gets an unused pseudonym', z3.Implies(new, z3.And(Not(m.rhas(r)), r != lit(''))))
        ex.check('the pseudonym has letters only', z3.Implies(new, CLEAN(r)))
        ex.check('a new string is recorded under its pseudonym', z3.Implies(new, z3.And(k.has(s), k.val(s) == r, k.rhas(r), k.rval(r) == s)))
        ex.check('other strings keep theirs', z3.Implies(x != s, z3.And(k.has(x) == m.has(x), z3.Implies(m.has(x), k.val(x) == m.val(x)))))
        ex.check('one more string', z3.Implies(new, Eq(k.l.n, m.l.n + 1)))
        for l, c in k.inv(): ex.check('one-to-one afterwards: ' + l, c)
    ex.explore(body); return ex


def deanonymize(p):
    ctx = Ctx(p); ex = ctx.ex; f = fn(p, SA, 'deanonymizeString')

    def body(ex):
        ctx.start(); o, m = setup(ctx); s, a = strarg(ex, 'pseudonym'); h0 = dict(ex.heap)
        r, th = outcome(lambda: call(ex, f, o, a)); ex.cover('any pseudonym and mapping')
        ex.check('an unknown pseudonym is rejected, a known one accepted', Eq(th is None, z3.Or(s == lit(''), m.rhas(s))), str(th))
        if th is None:
            ex.check('the string of the pseudonym', z3.Implies(s != lit(''), r == m.rval(s))); ex.check('the empty string stays', z3.Implies(s == lit(''), r == lit('')))
        ex.check('the mapping is unchanged', unchanged(ex, h0))
    ex.explore(body); return ex


def history(p):
    """two strings in a row, then the first again, and back"""
    ctx = Ctx(p, strcons=[digits]); ex = ctx.ex; f, g = fn(p, SA, 'anonymizeString'), fn(p, SA, 'deanonymizeString')

    def body(ex):
        ctx.start(); o, m = setup(ctx); s, a = strarg(ex, 'first'); t, b = strarg(ex, 'second')
        x, t1 = outcome(lambda: call(ex, f, o, a)); y, t2 = outcome(lambda: call(ex, f, o, b)); z, t3 = outcome(lambda: call(ex, f, o, a))
        ex.cover('any two strings'); ex.check('no failure', t1 is None and t2 is None and t3 is None)
        if not (t1 is None and t2 is None and t3 is None): return
        ex.check('the same string gets the same pseudonym', z == x); ex.check('different strings get different pseudonyms', z3.Implies(s != t, x != y))
        for v, w, n in ((x, s, 'first'), (y, t, 'second')):
            ex.loc[('t', 'p' + n)] = v; u, th = outcome(lambda: call(ex, g, o, Place(('v', ('t', 'p' + n)))))
            ex.check('the pseudonym of the %s string is known' % n, th is None)
            if th is None: ex.check('and gives the %s string back' % n, u == w)
    ex.explore(body); return ex


def count(p):
    ctx = Ctx(p); ex = ctx.ex

    def body(ex):
        ctx.start(); o, m = setup(ctx); h0 = dict(ex.heap); ex.cover('any mapping')
        ex.check('the number of strings', Eq(call(ex, fn(p, SA, 'getStringCount'), o), m.l.n)); ex.check('nothing changes', unchanged(ex, h0))
    ex.explore(body); return ex


def country(c):
    def go(p):
        ctx = Ctx(p); ex = ctx.ex

        def body(ex):
            ctx.start(); o = ex.symobj(c, 'anonymizer'); v = z3.Int('country'); h0 = dict(ex.heap); ex.loc[('t', 'c')] = v; ex.cover('any country')
            w = call(ex, fn(p, c, 'anonymizeCountry'), o, Place(('v', ('t', 'c')))); ex.loc[('t', 'd')] = w
            ex.check('the country is given back', Eq(call(ex, fn(p, c, 'deanonymizeCountry'), o, Place(('v', ('t', 'd')))), v)); ex.check('nothing changes', unchanged(ex, h0))
        ex.explore(body); return ex
    return go


def fake(p):
    ctx = Ctx(p); ex = ctx.ex

    def body(ex):
        ctx.start(); o = ex.symobj(FA, 'anonymizer'); s, a = strarg(ex, 'string'); ex.cover('any string')
        for n in ('anonymizeString', 'deanonymizeString'): ex.check(n + ' is the identity', Eq(call(ex, fn(p, FA, n), o, a), s))
    ex.explore(body); return ex


def reading(p):
    """any text: the mapping stays one-to-one, keeps its pairs, and holds the pairs of lines whose members are new"""
    ctx = Ctx(p); ex = ctx.ex; f = fn(p, SA, 'read'); st = {}

    def getline(ex, this, a, e):
        s = z3.Const(ex.freshname('line'), Str); ex.write(a[1], s)
        return Opaque('stream', ('getline', z3.Bool(ex.freshname('more'))))

    def split(ex, this, a, e):
        n = z3.Int(ex.freshname('cells')); ex._fact(z3.And(n >= 1, n < (1 << 40)))
        v = ex.read(a[0]); arr = z3.Const(ex.freshname('cell'), z3.ArraySort(z3.IntSort(), Str))
        st['cells'] = (n, arr); ex.write(a[0], Vec(v.et, n, arr, tk=v.tk)); return a[0]

    def more(ex, this, a, e):
        v = rd(ex, this) if isinstance(this, Place) else this
        return v.info[1] if isinstance(v, Opaque) and isinstance(v.info, tuple) and v.info[0] == 'getline' else z3.Bool(ex.freshname('more'))

    def iv(env):
        m, x = Mp(ctx, st['o']), S('known'); m0 = st['m']
        d = {l: c for l, c in m.inv() if l != 'no empty pseudonym'}
        d['pairs are kept'] = z3.ForAll([x], z3.Implies(m0.has(x), z3.And(m.has(x), m.val(x) == m0.val(x))))
        return d

    def body(ex):
        ctx.start(); o, m = setup(ctx); st['o'], st['m'] = o, m; x = S('any string')
        ex.hooks['std::getline'] = getline; ex.hooks['boost::algorithm::split'] = split; ex.hooks['boost::algorithm::is_any_of'] = lambda ex, this, a, e: Opaque('separators')
        for q in ('std::basic_ios<char, std::char_traits<char>>::operator bool',): ex.hooks[q] = more
        ex.loop_invs = {f.q: iv}
        ex.loc[('t', 'is')] = Opaque('std::istream'); ex.cover('any text')
        r, th = outcome(lambda: call(ex, f, o, Place(('v', ('t', 'is')))))
        k = Mp(ctx, o)
        ex.check('known strings keep their pseudonym', z3.Implies(m.has(x), z3.And(k.has(x), k.val(x) == m.val(x))))
        for l, c in k.inv():
            if l != 'no empty pseudonym': ex.check('one-to-one afterwards: ' + l, c)
    ex.explore(body); return ex


def goals(p, tier):
    G = [Goal('SimpleAnonymizer::getAlpha', getalpha), Goal('SimpleAnonymizer::anonymizeString', anonymize), Goal('SimpleAnonymizer::deanonymizeString', deanonymize),
         Goal('histories of anonymized strings', history), Goal('SimpleAnonymizer::getStringCount', count), Goal('FakeAnonymizer', fake), Goal('SimpleAnonymizer::read', reading)]
    for c in (SA, FA): G.append(Goal('countries of ' + c.rsplit('::', 1)[-1], country(c)))
    return G
