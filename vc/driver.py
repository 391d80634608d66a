"""Bounded replay on the compiled code: builds the library from /repo's current sources (unity chunks) and runs drivers/<ID>.cpp against it.
What it explores is bounded and never counted as proved; it supplies failing inputs and stands in for functions without a decided contract."""
import os, sys, hashlib, subprocess, shutil, time, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
import prog

WORK = prog.WORK
REPO = prog.REPO
FLAGS = ['-O0', '-g0', '-D_GLIBCXX_ASSERTIONS', '-fPIC'] + [f for f in prog.FLAGS]
LIBS = ['-lxml2', '-lboost_filesystem', '-lboost_program_options', '-lboost_system', '-lboost_thread', '-lboost_date_time', '-lboost_log', '-ldl', '-lpthread']
EXTS = ['iidm', 'entsoe', 'sld']


def files(*roots, ext='.cpp'):
    return sorted(os.path.join(d, f) for r in roots for d, _, fs in os.walk(os.path.join(REPO, r)) for f in fs if f.endswith(ext))


def lib_sources(): return [f for f in files('src') if '/src/test/' not in f]


def digest(names):
    h = hashlib.sha256()
    for n in names: h.update(n.encode()); h.update(open(n, 'rb').read())
    h.update(' '.join(FLAGS).encode()); h.update(REPO.encode())
    return h.hexdigest()[:20]


def everything(): return lib_sources() + [f for e in ('.hpp', '.hxx', '.h') for f in files('src', 'include', 'extensions', ext=e)]


def run(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', **k)


def chunks(src, n):
    b, sz = [[] for _ in range(n)], [0] * n
    for f in sorted(src, key=lambda f: (-os.path.getsize(f), f)):
        i = sz.index(min(sz)); b[i].append(f); sz[i] += os.path.getsize(f) + 3000
    return [sorted(x) for x in b if x]


def compile_all(src, out, n):
    """objects of all sources; a chunk that does not compile as a unit is compiled file by file"""
    os.makedirs(out, exist_ok=True)

    def one(a):
        name, fs = a
        cpp, o = os.path.join(out, name + '.cpp'), os.path.join(out, name + '.o')
        with open(cpp, 'w') as f: f.write(''.join('#include "%s"\n' % x for x in fs))
        r = run(['clang++', '-c', cpp, '-o', o] + FLAGS)
        return a, o, r
    objs, err = [], ''
    with ThreadPoolExecutor(8) as ex:
        redo = []
        for a, o, r in ex.map(one, [('u%02d' % i, c) for i, c in enumerate(chunks(src, n))]):
            if r.returncode == 0: objs.append(o)
            else: redo += [('%s_%02d' % (a[0], j), [f]) for j, f in enumerate(a[1])]
        for a, o, r in ex.map(one, redo):
            if r.returncode == 0: objs.append(o)
            else: err = err or '%s: %s' % (a[1][0], r.stderr[:1500])
    return objs, err


# chunks known to clash are kept apart from the start
SOLO = ('ImportOptions.cpp', 'ExportOptions.cpp', 'XmlStreamReader.cpp')


def build(parts):
    """directory with liball.a (and the extension libraries when asked for)"""
    ev = everything()
    d = os.path.join(WORK, 'lib-' + digest(ev))
    lib = os.path.join(d, 'lib.txt')
    if not os.path.exists(lib):
        for old in glob.glob(os.path.join(WORK, 'lib-*')):
            if old != d: shutil.rmtree(old, ignore_errors=True)
        tmp = d + '.%d' % os.getpid(); shutil.rmtree(tmp, ignore_errors=True)
        src = lib_sources()
        solo = [f for f in src if os.path.basename(f) in SOLO]
        rest = [f for f in src if f not in solo]
        objs, err = compile_all(rest, tmp, 16)
        if not err:
            o2, err = compile_all(solo, os.path.join(tmp, 's'), len(solo) or 1); objs += o2
        if err: raise RuntimeError('the library does not compile: ' + err)
        with open(os.path.join(tmp, 'lib.txt'), 'w') as f: f.write('\n'.join(os.path.relpath(o, tmp) for o in objs))
        try: os.replace(tmp, d)
        except OSError: shutil.rmtree(tmp, ignore_errors=True)
    objs = [os.path.join(d, x) for x in open(lib).read().split()]
    return d, objs


def build_ext(d):
    """the extension libraries, as the shared objects the library loads at run time"""
    src = [f for e in EXTS for f in files('extensions/%s/src' % e)]
    h = digest(src)
    out = os.path.join(d, 'ext-' + h)
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid(); os.makedirs(tmp)
        for e in EXTS:
            objs, err = compile_all(files('extensions/%s/src' % e), os.path.join(tmp, e + '.d'), 4)
            if err: raise RuntimeError('extension library does not compile: ' + err)
            r = run(['clang++', '-shared', '-o', os.path.join(tmp, 'lib%s-ext.so' % e)] + objs)
            if r.returncode: raise RuntimeError(r.stderr[:1000])
        try: os.replace(tmp, out)
        except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return out


def drive(name, pid, tier, seed, budget):
    t0 = time.time()
    d, objs = build(())
    src = os.path.join(prog.VERIF, 'drivers', name + '.cpp')
    txt = open(src).read()
    ext = build_ext(d) if 'VP_EXTENSIONS' in txt else ''
    exobj = []
    if ext:
        exobj = [o for e in EXTS for o in sorted(glob.glob(os.path.join(ext, e + '.d', '*.o')))]
    exe = os.path.join(d, 'drv-%s-%s%s' % (name, digest([src] + sorted(glob.glob(os.path.join(prog.VERIF, 'drivers', '*.hpp')))), os.path.basename(ext)))
    if not os.path.exists(exe):
        if ext: fl = FLAGS
        else: fl = FLAGS
        r = run(['clang++', '-rdynamic', src, '-o', exe + '.tmp', '-I' + os.path.join(prog.VERIF, 'drivers')] + fl + objs + (['-L' + ext, '-Wl,-rpath,' + ext] + [os.path.join(ext, 'lib%s-ext.so' % e) for e in EXTS] if ext else []) + LIBS)
        if r.returncode: return dict(status='error', why='driver does not compile against the current sources: ' + r.stderr[:1500], fails=[], evaluations=0)
        os.replace(exe + '.tmp', exe)
    left = max(30, budget - (time.time() - t0))
    wd = tempfile.mkdtemp(prefix='vpdrv')
    try:
        env = dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER=tier, VP_EXT=ext, VP_DATA=os.path.join(REPO, 'test', 'resources'), VP_RES=os.path.join(REPO, 'test'))
        try:
            r = run(['timeout', '-k', '5', str(int(left)), exe], cwd=wd, env=env)
        except Exception as x: return dict(status='error', why=str(x), fails=[], evaluations=0)
    finally: shutil.rmtree(wd, ignore_errors=True)
    fails, n, done, at = [], 0, False, ''
    for l in r.stdout.splitlines():
        if l.startswith('FAIL '): fails.append(l[5:])
        elif l.startswith('AT '): at = l[3:]
        elif l.startswith('EVAL '): n = int(l[5:]); done = True
    if not done and r.returncode not in (0, 1, 124, 137):
        sig = -r.returncode if r.returncode < 0 else r.returncode
        fails.append('crash :: the program ends abnormally (%s) while checking: %s; %s' % (sig, at, r.stderr.strip()[-400:]))
    st = 'fail' if fails else 'ok' if done else 'incomplete'
    return dict(status=st, fails=fails, evaluations=n, cmd='%s (drivers/%s.cpp, seed %s, tier %s)' % (os.path.basename(exe), name, seed, tier), why='' if done else r.stderr[-600:], seconds=round(time.time() - t0, 1))


def main(drivers, pid, tier, seed, known, budget):
    names = [drivers] if isinstance(drivers, str) else list(drivers)
    out = dict(status='ok', fails=[], evaluations=0, known=[], why='', cmd='', seconds=0)
    import re
    t0 = time.time()
    for n in names:
        n, _, only = n.partition('|')
        r = drive(n, pid, tier, seed, max(60, budget - (time.time() - t0)))
        for f in r['fails']:
            lab = f.split(' :: ')[0]
            if only and not re.fullmatch(only, lab): continue  # another property's concern
            k = [x for x in known if x.get('driver') and re.fullmatch(x['driver'], lab)]
            if k: out['known'].append(k[0]['id'])
            else: out['fails'].append(f)
        out['evaluations'] += r['evaluations']; out['why'] += r.get('why', ''); out['cmd'] += r.get('cmd', '') + ' '
        if r['status'] in ('error', 'incomplete') and out['status'] == 'ok': out['status'] = r['status']
    if out['fails']: out['status'] = 'fail'
    out['seconds'] = round(time.time() - t0, 1)
    return out
