"""Extraction driver and program database: the typed AST of /repo's current sources, as clang sees it."""
import os, sys, json, hashlib, subprocess, glob, concurrent.futures, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
WORK = os.environ.get('VP_WORK', os.path.join(VERIF, '_work'))
FLAGS = ['-std=gnu++11', '-include', 'cmath', '-I' + REPO + '/include', '-I' + REPO + '/src', '-I/usr/include/libxml2',
         '-I' + REPO + '/extensions/iidm/include', '-I' + REPO + '/extensions/entsoe/include', '-I' + REPO + '/extensions/sld/include',
         '-w', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']

INST = [os.path.join(VERIF, 'frontend', 'inst.cpp')]
CORE = INST + ['src/iidm/*.cpp', 'src/iidm/util/*.cpp', 'src/math/*.cpp', 'src/stdcxx/*.cpp', 'src/*.cpp', 'src/network/*.cpp']
XML = ['src/iidm/converter/*.cpp', 'src/iidm/converter/xml/*.cpp', 'src/xml/*.cpp', 'src/iidm/extensions/*.cpp']
EXT = ['extensions/iidm/src/*.cpp', 'extensions/entsoe/src/*.cpp', 'extensions/sld/src/*.cpp', 'src/iidm/extensions/*.cpp']


def tool():
    src = os.path.join(VERIF, 'frontend', 'extract.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(WORK, 'extract-' + h)
    if not os.path.exists(out):
        os.makedirs(WORK, exist_ok=True)
        tmp = out + '.%d' % os.getpid()
        subprocess.run([os.path.join(VERIF, 'frontend', 'build.sh'), tmp], check=True)
        os.replace(tmp, out)
    return out


def pch():
    """precompiled SYSTEM headers (std, boost): parsed once for all translation units"""
    src = os.path.join(VERIF, 'frontend', 'pch.hpp')
    h = hashlib.sha256(open(src, 'rb').read() + ' '.join(FLAGS).encode()).hexdigest()[:16]
    out = os.path.join(WORK, 'pch-%s.pch' % h)
    if not os.path.exists(out):
        os.makedirs(WORK, exist_ok=True)
        tmp = out + '.%d' % os.getpid()
        r = subprocess.run(['clang++-18'] + FLAGS + ['-x', 'c++-header', src, '-o', tmp], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if r.returncode != 0: return []
        os.replace(tmp, out)
    return ['-include-pch', out]


def header_hash():
    h = hashlib.sha256()
    for root in ('include', 'src', 'extensions'):
        for d, _, fs in sorted(os.walk(os.path.join(REPO, root))):
            for f in sorted(fs):
                if f.endswith(('.hpp', '.hxx', '.h')):
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()


def extract(globs):
    """returns (list of tsv paths, list of failed TUs)"""
    t = tool(); pc = pch()
    files = []
    for g in globs:
        files += sorted(glob.glob(g if g.startswith('/') else os.path.join(REPO, g)))
    seen = set(); files = [f for f in files if not (f in seen or seen.add(f))]
    hh = header_hash()
    cdir = os.path.join(WORK, 'ast'); os.makedirs(cdir, exist_ok=True)
    jobs = []; outs = []; failed = []
    for f in files:
        k = hashlib.sha256((t + hh + f).encode() + open(f, 'rb').read()).hexdigest()[:32]
        o = os.path.join(cdir, k + '.tsv'); outs.append(o)
        if not os.path.exists(o):
            jobs.append((f, o))

    def run(j):
        f, o = j
        tmp = o + '.%d.tmp' % os.getpid()
        p = subprocess.run([t, REPO + '/', f, tmp, '--'] + pc + FLAGS, cwd=WORK, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        if p.returncode != 0:
            return (f, p.stderr.decode(errors='replace')[-2000:])
        os.replace(tmp, o)
        return None
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for r in ex.map(run, jobs):
            if r: failed.append(r)
    return [o for o in outs if os.path.exists(o)], failed, files


class Fn:
    __slots__ = ('id', 'q', 'raw', '_o')

    def __init__(self, i, q, raw):
        self.id, self.q, self.raw, self._o = i, q, raw, None

    @property
    def o(self):
        if self._o is None:
            self._o = json.loads(self.raw); self.raw = None
        return self._o


class Program:
    def __init__(self, globs=CORE):
        t0 = time.time()
        paths, self.failed, self.files = extract(globs)
        self.fns, self.types, self.recs, self.globs = {}, {}, {}, {}
        self.byq = {}
        for p in paths:
            for line in open(p):
                kind, rest = line.split('\t', 1)
                if kind == 'fn':
                    i, q, j = rest.split('\t', 2)
                    if i not in self.fns:
                        f = Fn(i, q, j); self.fns[i] = f; self.byq.setdefault(q, []).append(f)
                else:
                    key, _, j = rest.split('\t', 2)
                    d = {'type': self.types, 'rec': self.recs, 'glob': self.globs}[kind]
                    if key not in d: d[key] = j
        for k in self.types: self.types[k] = json.loads(self.types[k])
        for k in self.recs: self.recs[k] = json.loads(self.recs[k])
        for k in self.recs:
            if k in self.types: self.types[k]['repo'] = True
        # a bimap is the pair of its two views
        for k, t in list(self.types.items()):
            if t['k'] == 'rec' and t.get('n') == 'boost::bimaps::bimap':
                a, b = t['a'][0], t['a'][1]
                for x, y in ((a, b), (b, a)): self.types.setdefault('bimap-view<%s, %s>' % (x, y), dict(k='rec', n='std::unordered_map', a=[x, y], repo=False))
                t['n'], t['a'], t['bimap'] = 'std::pair', ['bimap-view<%s, %s>' % (a, b), 'bimap-view<%s, %s>' % (b, a)], True
        self._globo = {}
        self.subs = {}
        for k, r in self.recs.items():
            for b, v in r['bases']:
                self.subs.setdefault(b, []).append(k)
        # methods
        self.meth = {}
        for k, r in self.recs.items():
            for m in r['methods']:
                if m['id'] not in self.meth: self.meth[m['id']] = (k, m)
        self.load_s = time.time() - t0
        self._vr = {}
        self._bases = {}
        self._valcls = None

    def glob(self, n):
        if n not in self.globs: return None
        if n not in self._globo: self._globo[n] = json.loads(self.globs[n])
        return self._globo[n]

    def bases(self, k):
        """all base classes of k including itself (in C++ search order)"""
        if k not in self._bases:
            out = [k]
            for b, _ in self.recs.get(k, {}).get('bases', []):
                for x in self.bases(b):
                    if x not in out: out.append(x)
            self._bases[k] = out
        return self._bases[k]

    def allsubs(self, k):
        out = [k]
        for s in self.subs.get(k, []):
            for x in self.allsubs(s):
                if x not in out: out.append(x)
        return out

    def concrete_subs(self, k):
        return [s for s in self.allsubs(k) if s in self.recs and not self.recs[s]['abstract']]

    def overroots(self, mid):
        out = {mid}
        if mid in self.meth:
            for o in self.meth[mid][1]['ov']: out |= self.overroots(o)
        return out

    def resolve(self, mid, dyn):
        """final overrider of virtual method mid in dynamic class dyn"""
        key = (mid, dyn)
        if key in self._vr: return self._vr[key]
        best = None
        # depth-first by most derived
        for c in self.bases(dyn):
            r = self.recs.get(c)
            if not r: continue
            for m in r['methods']:
                if m['id'] == mid or (m['virt'] and mid in self.overroots(m['id'])):
                    if best is None or best[0] in [b for b in self.bases(c)[1:]]:
                        best = (c, m['id'], m['pure'])
        self._vr[key] = best
        return best

    def fields(self, k):
        """all fields incl. inherited: list of (declclass, fieldobj)"""
        out = []
        for c in reversed(self.bases(k)):
            for f in self.recs.get(c, {}).get('fields', []):
                out.append((c, f))
        return out

    def find(self, q, nparams=None, pred=None):
        r = [f for f in self.byq.get(q, []) if (nparams is None or len(f.o['ps']) == nparams) and (pred is None or pred(f))]
        return r

    def valcls(self):
        """repo record classes stored by value inside library containers"""
        if self._valcls is None:
            s = set()
            CONT = ('std::vector', 'std::map', 'std::set', 'boost::optional_ns', 'boost::optional', 'std::pair', 'std::unordered_map', 'std::array', 'std::initializer_list', 'std::list', 'std::deque', 'boost::multi_index::multi_index_container', 'std::unordered_set')
            for k, t in self.types.items():
                if t['k'] == 'rec' and not t['repo'] and t['n'] in CONT:
                    for a in t['a']:
                        if isinstance(a, str) and a in self.recs: s.add(a)
            self._valcls = s
        return self._valcls


if __name__ == '__main__':
    p = Program(CORE)
    print(len(p.fns), len(p.recs), len(p.types), p.load_s, p.failed)
    print('\n'.join(sorted(p.valcls())))
