#!/usr/bin/env python3
"""check.py <property> [--replay FILE] : decide one property on /repo's current tree.

1. the design models of the property are checked exhaustively by TLC (a failure there is a failure of the
   specification itself) and enumerate the scenarios to replay;
2. the scenarios are performed on the real code (harness/drive.py, one process per shard), which records a trace;
3. TLC validates every trace against the trace specification; a clause of the specification that does not
   hold is a violation.
"""
import json, os, re, subprocess, sys, time, shutil, tempfile, threading
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp
from plan import PROPS, SUITES, MODELS, CLAUSES_ALWAYS

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NCPU = max(1, min(8, os.cpu_count() or 1))
T0 = time.time()
LIMIT = 800 if TIER == 'quick' else float(os.environ.get('VERIF_LIMIT', 3 * 3600))


def left():
    return LIMIT - (time.time() - T0)


SRC = vp.REPO


def take_source(work):
    """The sources of the working tree without byte code: Python recognizes stale byte code by the second and the size only."""
    global SRC
    SRC = os.path.join(work, 'src')
    shutil.copytree(os.path.join(vp.REPO, 'meshmagick'), os.path.join(SRC, 'meshmagick'), ignore=shutil.ignore_patterns('__pycache__', '*.pyc'))


def env_real():
    e = dict(os.environ)
    for k in ('PYTHONPATH', 'PYTHONHOME', 'VIRTUAL_ENV'):
        e.pop(k, None)
    e.update(PYTHONPATH=SRC + ':' + os.path.join(vp.VERIF, 'harness'), PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
             MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', LC_ALL='C.UTF-8')
    return e


def drive(suite, n, shard, nshards, seed, out, scn=None, only=None, timeout=600):
    cmd = [vp.PYREAL, os.path.join(vp.VERIF, 'harness', 'drive.py'), suite, str(n), str(shard), str(nshards), str(seed), TIER, out,
           scn or '-', '-' if only is None else str(only)]
    scratch = tempfile.mkdtemp(prefix='cwd', dir=vp.BUILD)
    try:
        p = subprocess.run(cmd, env=env_real(), cwd=scratch, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout[-3000:] + p.stderr[-3000:]
    except subprocess.TimeoutExpired:
        return -9, 'driver timed out'
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


class Out:
    def __init__(self):
        self.lock = threading.Lock()
        self.viol = []          # dicts
        self.cov = {}
        self.states = self.trans = self.traces = self.events = 0
        self.models = {}
        self.incomplete = []
        self.suites = {}


def shard_job(o, work, suite, n, shard, nshards, seed, scn, only=None):
    sp = SUITES[suite]
    tr = os.path.join(work, '%s.%d.json' % (suite, shard))
    rc, log = drive(suite, n, shard, nshards, seed, tr, scn, only, timeout=max(30, min(left() - 60, sp.get('drive_timeout', 400))))
    if rc != 0 or not os.path.exists(tr + '.meta'):
        with o.lock:
            if rc == -9:
                o.incomplete.append('%s shard %d: driver timed out' % (suite, shard))
            else:
                o.viol.append(dict(suite=suite, k=None, o='driver', bad=['library-unusable'], detail=log, n=n, scn=None, seed=seed))
        return
    meta = json.load(open(tr + '.meta'))
    if not meta['nevents']:
        return
    try:
        r = vp.validate(sp['module'], tr, meta['nevents'], timeout=max(30, left() - 20), mem=sp.get('mem', '2500m'))
    except vp.Machinery as e:
        with o.lock:
            o.incomplete.append('%s shard %d: %s' % (suite, shard, str(e)[-1500:]))
        return
    with o.lock:
        o.states += r['distinct']
        o.trans += r['generated']
        o.traces += len(meta['scenarios'])
        o.events += meta['nevents']
        s = o.suites.setdefault(suite, dict(scenarios=0, events=0, wall=0.0))
        s['scenarios'] += len(meta['scenarios'])
        s['events'] += meta['nevents']
        s['wall'] = round(max(s['wall'], r['wall']), 1)
        for k, v in r['cov'].items():
            o.cov[k] = o.cov.get(k, 0) + v
        if r['bad']:
            ev = json.load(open(tr))
            for b in r['bad']:
                l = b['l'] - 1
                e = ev[l] if 0 <= l < len(ev) else {}
                s_ = e.get('s')
                sc = meta['scenarios'].get(str(s_), {})
                tail = [x for x in ev if x.get('s') == s_]
                o.viol.append(dict(suite=suite, k=sc.get('k'), tag=sc.get('tag'), o=e.get('o'), q=e.get('q'), bad=b['bad'], exc=e.get('exc'),
                                   n=n, seed=seed, scn=sc.get('scn'), detail=b.get('detail', ''), index=l, trace=tail))


def load_findings():
    known = []
    p = os.path.join(vp.VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known:\s+property=(\S+)\s+match=(\S+)\s+(.*)', line.strip())
            if m:
                known.append(m.groups())
    return known


def key_of(v, clause):
    """what fails: suite, operation (or query), scenario tag and clause"""
    return '/'.join(str(x) for x in (v['suite'], v.get('tag') or '-', v.get('q') or v.get('o'), clause)).replace(' ', '_')


def main():
    prop = sys.argv[1]
    P = PROPS[prop]
    os.makedirs(vp.BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix='work-%s-' % prop, dir=vp.BUILD)
    take_source(work)
    o = Out()
    replay = None
    if '--replay' in sys.argv:
        replay = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
    rc = 2
    try:
        vp.classes()
        if replay:
            scn = None
            if replay.get('scn') is not None:
                scn = os.path.join(work, 'scn.json')
                json.dump({str(replay['k']): replay['scn']}, open(scn, 'w'))
            shard_job(o, work, replay['suite'], replay['n'], 0, 1, replay['seed'], scn, only=replay['k'])
        else:
            run(prop, P, o, work)
        rc = verdict(prop, P, o, replay)
    except vp.Machinery as e:
        print('MACHINERY', e)
        rc = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def run(prop, P, o, work):
    scns = {}
    todo = list(P.get('models', []))
    for s in P['suites']:
        g = SUITES[s].get('gen')
        if g and g not in todo:
            todo.append(g)

    def model(name):
        M = MODELS[name]
        cfg = M.get('cfg_' + TIER, M['cfg'])
        args = tuple(a.replace('%d', str(M['num'][TIER != 'quick'])).replace('%seed', str(SEED)) if 'num' in M else a for a in M.get('args', ()))
        r = vp.tlc(M['module'], cfg=cfg, workers=M.get('workers', 2), timeout=max(60, left() - 60), mem=M.get('mem', '3g'), args=args)
        if not r.ok:
            raise vp.Machinery('design model %s (%s) does not check:\n%s' % (name, cfg, r.out[-3000:]))
        sc = vp.tagged(r, 'SCN')
        with o.lock:
            o.states += r.distinct
            o.trans += r.generated
            o.models[name] = dict(module=M['module'], cfg=cfg, distinct=r.distinct, generated=r.generated, wall=round(r.wall, 1), scenarios=len(sc))
        if sc:
            seen, uniq = set(), []
            for x in sc:
                t = json.dumps(x, sort_keys=True)
                if t not in seen:
                    seen.add(t)
                    uniq.append(x)
            uniq.sort(key=lambda x: json.dumps(x, sort_keys=True))
            p = os.path.join(work, 'scn_%s.json' % name)
            json.dump({str(i): x for i, x in enumerate(uniq)}, open(p, 'w'))
            scns[name] = (p, len(uniq))
    with ThreadPoolExecutor(4) as ex:
        for f in [ex.submit(model, m) for m in todo]:
            f.result()
    jobs = []
    for s in P['suites']:
        sp = SUITES[s]
        n = sp['n'][0 if TIER == 'quick' else 1]
        path = None
        if 'gen' in sp:
            path, cnt = scns[sp['gen']]
            n = cnt * sp.get('reps', (1, 1))[0 if TIER == 'quick' else 1]
            cap = sp['n'][0 if TIER == 'quick' else 1]
            n = min(n, cap) if cap else n
        w = sp.get('weight', 1.)
        per = sp.get('per', 60)
        nsh = max(1, min(-(-n // per), 400))
        nsh = max(nsh, min(NCPU, n))
        for i in range(nsh):
            jobs.append((s, n, i, nsh, path))
    # interleave the suites
    with ThreadPoolExecutor(NCPU) as ex:
        for f in [ex.submit(shard_job, o, work, s, n, i, nsh, SEED, path) for (s, n, i, nsh, path) in jobs]:
            f.result()
    if len(o.incomplete) > max(1, len(jobs) // 3) and not o.viol:
        raise vp.Machinery('too little could be explored: ' + '\n'.join(o.incomplete[:3]))


def verdict(prop, P, o, replay):
    want = re.compile('^(' + '|'.join(P['clauses'] + CLAUSES_ALWAYS + (['.*'] if os.environ.get('VP_ALL') else [])) + ')$')
    known = [k for k in load_findings() if k[0] == prop]
    shown, fresh, others = set(), [], {}
    for v in o.viol:
        for c in v['bad']:
            if not want.match(c):
                others[c] = others.get(c, 0) + 1
                continue
            key = key_of(v, c)
            hit = [k for k in known if re.fullmatch(k[1], key)]
            if hit:
                for h in hit:
                    shown.add(h)
            else:
                fresh.append((key, v))
    for h in sorted(shown):
        print('KNOWN-FINDING: property=%s %s' % (h[0], h[2]))
    mine = {c: n for c, n in o.cov.items() if want.match(c)}
    if not replay:
        missing = [c for c in P.get('must', []) if not o.cov.get(c)]
        ev = dict(property=prop, tier=TIER, seed=SEED, level='model_checking', states=o.states, transitions=o.trans,
                  traces_validated_against_impl=o.traces, samples=o.traces, exhaustive=bool(P.get('exhaustive', False)),
                  coverage=dict(
                      clauses_decided=dict(sorted(mine.items())), design_models=o.models, suites=o.suites, events_checked=o.events,
                      incomplete=o.incomplete[:5], clauses_never_reached=missing, bounds=P.get('bounds', ''),
                      known_findings_seen=sorted(h[2] for h in shown), violations=len(fresh),
                      other_clauses_failing=others),
                  wall_s=round(time.time() - T0, 1))
        d = os.path.join(vp.VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        json.dump(ev, open(os.path.join(d, prop + '.json'), 'w'), indent=1)
    if o.incomplete:
        print('incomplete:', '; '.join(x[:300] for x in o.incomplete[:3]))
    if others:
        print('note: clauses of other properties fail:', json.dumps(others))
    if not fresh:
        print('OK property=%s tier=%s scenarios=%d events=%d states=%d clauses=%d wall=%.0fs'
              % (prop, TIER, o.traces, o.events, o.states, sum(mine.values()), time.time() - T0))
        return 0
    rd = os.path.join(vp.VERIF, 'replays')
    os.makedirs(rd, exist_ok=True)
    bykey = {}
    for key, v in fresh:
        bykey.setdefault(key, []).append(v)
    for i, (key, vs) in enumerate(sorted(bykey.items(), key=lambda x: -len(x[1]))[:12]):
        v = min(vs, key=lambda v: len(v.get('trace') or []))
        if replay:
            print('VIOLATION property=%s replay=%s  %s x%d' % (prop, sys.argv[sys.argv.index('--replay') + 1], key, len(vs)))
            continue
        path = os.path.join(rd, '%s-%d.json' % (prop, i))
        json.dump(dict(property=prop, key=key, **v), open(path, 'w'))
        print('VIOLATION property=%s replay=%s  %s x%d %s' % (prop, path, key, len(vs), (v.get('exc') or '')[:160]))
        if v.get('detail'):
            print('   ', v['detail'][-700:].replace('\n', '\n    '))
    return 1


if __name__ == '__main__':
    main()
