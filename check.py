#!/usr/bin/env python3-vt
"""check.py ID [--tier quick|thorough] [--goal SUBSTR] [-v]

Decides property ID on /repo's current sources: extracts the typed AST, generates the proof obligations of the contracts in
specs/<ID>.py from the real bodies, discharges them, and reports.  See DESIGN.md."""
import sys, os, json, time, re, subprocess, importlib, pickle, signal, select, traceback, argparse, hashlib
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, 'vc'), os.path.join(V, 'specs')]
sys.setrecursionlimit(20000)
from vals import Unsup
import prog as P

TAINT = re.compile(r'\b(opq[a-z]*|undef:|havoc:|weak\b)')


class Goal:
    """one contract: fn(prog) -> Exec (or list of them) carrying the discharged / refuted obligations"""
    def __init__(self, name, fn, keep=None, contract=None): self.name, self.fn, self.keep, self.contract = name, fn, keep, contract


def run_goal(prog, g):
    """in the worker: returns a picklable result"""
    t = time.time()
    r = dict(name=g.name, status='ok', obls=[], used=[], assumed=[], paths=0, bounded=[])
    try:
        exs = g.fn(prog)
        if not isinstance(exs, (list, tuple)): exs = [exs]
        for ex in exs:
            for o in ex.obls:
                nm = o.name; st = o.status; inf = o.info or {}
                if st == 'refuted' and (TAINT.search(inf.get('goal', '')) or any(TAINT.search(c) for c in inf.get('pc', []))): st = 'undecided'
                if st == 'unknown': st = 'undecided'
                r['obls'].append((nm, st, dict(inf), o.time if hasattr(o, 'time') else 0.0))
            r['used'] += list(ex.used); r['assumed'] += list(ex.assumed); r['paths'] += ex.stats.get('paths', 0)
    except Unsup as x:
        r['status'] = 'unsupported'; r['why'] = str(x)
    except MemoryError:
        r['status'] = 'unsupported'; r['why'] = 'out of memory'
    except Exception as x:
        r['status'] = 'error'; r['why'] = '%s: %s' % (type(x).__name__, x); r['tb'] = traceback.format_exc(limit=-6)
    r['t'] = time.time() - t
    return r


def run_pool(prog, goals, jobs=8, limit=120):
    """each contract in its own process with a time limit"""
    todo = list(goals); live = {}; out = {}
    while todo or live:
        while todo and len(live) < jobs:
            g = todo.pop(0)
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rd)
                try:
                    import resource
                    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                    data = pickle.dumps(run_goal(prog, g))
                except BaseException as x: data = pickle.dumps(dict(name=g.name, status='error', why=repr(x), obls=[], used=[], assumed=[], paths=0, t=0))
                with os.fdopen(wr, 'wb') as f: f.write(data)
                os._exit(0)
            os.close(wr)
            live[rd] = (g, pid, time.time(), [])
        rs, _, _ = select.select(list(live), [], [], 0.5)
        for rd in rs:
            d = os.read(rd, 1 << 20)
            g, pid, t0, buf = live[rd]
            if d: buf.append(d); continue
            os.close(rd); os.waitpid(pid, 0); del live[rd]
            try: out[g.name] = pickle.loads(b''.join(buf))
            except Exception: out[g.name] = dict(name=g.name, status='error', why='worker died', obls=[], used=[], assumed=[], paths=0, t=time.time() - t0)
        for rd in list(live):
            g, pid, t0, buf = live[rd]
            if time.time() - t0 > limit:
                os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0); os.close(rd); del live[rd]
                out[g.name] = dict(name=g.name, status='unsupported', why='time limit of %d s' % limit, obls=[], used=[], assumed=[], paths=0, t=limit)
    return [out[g.name] for g in goals]


def known_findings():
    p = os.path.join(V, 'known_findings.json')
    return json.load(open(p))['findings'] if os.path.exists(p) else []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--goal'); ap.add_argument('-v', action='store_true')
    ap.add_argument('--driver', action='store_true', help='run the replay driver even when every obligation is discharged')
    a = ap.parse_args()
    t0 = time.time()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    S = importlib.import_module(a.id.lower() + '_spec' if os.path.exists(os.path.join(V, 'specs', a.id.lower() + '_spec.py')) else a.id)
    prog = P.Program(S.GLOBS)
    failed_tu = getattr(prog, 'failed', [])
    t_ext = time.time() - t0
    try: goals = S.goals(prog, tier)
    except Unsup as x: goals = []; failed_tu = list(failed_tu) + [('contracts', str(x))]
    if a.goal: goals = [g for g in goals if a.goal in g.name]
    limit = getattr(S, 'LIMIT', {}).get(tier, 240 if tier == 'quick' else 600)
    res = run_pool(prog, goals, limit=limit)
    kf = [k for k in known_findings() if k['property'] == a.id]

    total = proved = 0; refuted = []; undecided = []; known = {}; vac = []; stime = 0.0
    used = set(); assumed = set(); per_goal = []
    for r, g in zip(res, goals):
        used |= set(r['used']); assumed |= set(r['assumed'])
        labels = {}; covers = {}
        for nm, st, inf, ot in r['obls']:
            stime += ot
            if nm.startswith('cover:'): covers[nm[6:]] = covers.get(nm[6:], False) or st == 'covered'; continue
            if g.keep:
                if not nm.startswith(g.keep): continue
                nm = nm.split('|', 1)[1]
            d = labels.setdefault(nm, [0, 0, None, None])
            d[0] += 1
            if st == 'proved': d[1] += 1
            elif st == 'refuted' and d[2] is None: d[2] = inf
            elif st == 'undecided' and d[3] is None: d[3] = inf
        if r['status'] != 'ok': undecided.append((g.name, '(whole contract)', dict(why=r['status'] + ': ' + r.get('why', ''), tb=r.get('tb', ''))))
        for nm, (n, ok, ref, und) in labels.items():
            total += n; proved += ok
            if ref is not None:
                m = [k for k in kf if re.fullmatch(k['goal'], g.name) and re.fullmatch(k['obligation'], nm)]
                if m: known.setdefault(m[0]['id'], []).append((g.name, nm))
                else: refuted.append((g.name, nm, ref))
            elif und is not None: undecided.append((g.name, nm, und))
        if r['status'] == 'ok':
            if not labels and not r['obls']: vac.append((g.name, 'no obligation generated'))
            for c, ok in covers.items():
                if not ok and c.endswith(('precondition', 'accepts')): vac.append((g.name, 'unreachable: ' + c))
        per_goal.append(dict(contract=g.name, status=r['status'], obligations=sum(d[0] for d in labels.values()), discharged=sum(d[1] for d in labels.values()), paths=r['paths'], seconds=round(r['t'], 2)))
        if a.v:
            print('%-90s %s %d/%d %.1fs %s' % (g.name, r['status'], per_goal[-1]['discharged'], per_goal[-1]['obligations'], r['t'], r.get('why', '')))
            if r.get('tb'): print(r['tb'])
    undecided += [(n, '(vacuity)', dict(why=w)) for n, w in vac]
    for f in failed_tu: undecided.append((f[0], '(front end)', dict(why=f[1][:500])))
    if a.v:
        for n, o, i in refuted: print('REFUTED', n, '|', o, '|', i.get('info')); print('     ', i.get('model', '')[:int(os.environ.get('ML', '0'))])
        for n, o, i in undecided: print('UNDECIDED', n, '|', o, '|', i.get('why') or i.get('goal', '')[:300])

    # ---- replay / bounded stand-in on the real code
    drv = None
    if getattr(S, 'DRIVER', None) and not a.goal:
        import driver
        try: drv = driver.main(S.DRIVER, a.id, tier, seed, kf, max(60, 820 - (time.time() - t0)) if tier == 'quick' else 3000)
        except Exception as x:
            drv = dict(status='error', why='%s' % x, fails=[], evaluations=0)
            if a.v: traceback.print_exc()
        if a.v: print('driver:', drv['status'], drv.get('why', '')[-1500:], drv.get('evaluations'), drv['fails'][:5])
    viol = 0; line = None
    rdir = os.path.join(os.environ.get('VP_OUT', os.path.join(V, '_work', 'replay'))); os.makedirs(rdir, exist_ok=True)
    dfails = drv['fails'] if drv else []
    if refuted or dfails:
        rp = os.path.join(rdir, a.id + '.txt')
        with open(rp, 'w') as f:
            f.write('property %s\n' % a.id)
            for n, o, i in refuted[:40]:
                f.write('\nFAILED OBLIGATION: %s | %s\n  at: %s\n  goal: %s\n  path condition: %s\n  verifier model: %s\n' % (n, o, i.get('info'), i.get('goal'), ' && '.join(i.get('pc', []))[:3000], i.get('model', '')))
            if drv:
                f.write('\nREPLAY ON THE REAL CODE: %s\n' % (drv.get('cmd') or drv['status']))
                for x in dfails[:40]: f.write('FAIL %s\n' % x)
            for n, o, i in undecided[:40]: f.write('\nundecided: %s | %s | %s\n' % (n, o, i.get('why') or i.get('goal', '')[:400]))
        line = 'VIOLATION property=%s replay=%s' % (a.id, rp) + ('' if dfails else ' no-failing-input-found')
        viol = len(refuted) or len(dfails)
    for k in kf:
        if k['id'] in known or (drv and k['id'] in drv.get('known', [])):
            print('KNOWN-FINDING: property=%s %s' % (a.id, k['what']))
    ev = dict(property=a.id, tier=tier, seed=seed, level=getattr(S, 'LEVEL', 'proof'), wall_s=round(time.time() - t0, 2), violations=viol,
              assumptions=sorted(assumed) + list(getattr(S, 'ASSUMPTIONS', [])),
              coverage=dict(obligations=total, discharged=proved, checker_cmd='python3-vt check.py %s --tier %s' % (a.id, tier),
                            trusted_base=TRUSTED, contracts=len(goals), functions_verified=len(used), functions=sorted(x.replace('powsybl::', '') for x in used)[:600],
                            solver_seconds=round(stime, 2), back_end='z3 %s' % __import__('z3').get_version_string(), front_end_seconds=round(t_ext, 2),
                            known_finding_obligations=sum(len(v) for v in known.values()), undecided=[dict(contract=n, obligation=o, why=(i.get('why') or i.get('goal', ''))[:300]) for n, o, i in undecided],
                            undischarged=[dict(contract=n, obligation=o) for n, o, i in refuted],
                            bounded=dict(status=drv['status'], evaluations=drv.get('evaluations', 0), note='bounded stand-in on the compiled code; not counted as proved') if drv else None,
                            per_contract=per_goal))
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', a.id + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s: %d contracts, %d/%d obligations discharged, %d refuted, %d undecided, %d functions, %.0f s' % (a.id, len(goals), proved, total, len(refuted), len(undecided), len(used), time.time() - t0))
    if line:
        print(line); sys.exit(1)
    sys.exit(0)


TRUSTED = ['clang 18 front end (typed AST; source lowering)', 'frontend/extract.cpp (AST serialisation)', 'vc/*.py (obligation generator: C++ semantics and the library contracts of lib.py)', 'z3 (python3-vt z3-solver)',
           'double arithmetic treated as exact real arithmetic plus an explicit NaN flag (rounding, infinities and signed zero not modelled)', 'signed integer arithmetic treated as mathematical; unsigned wraps']

if __name__ == '__main__': main()
