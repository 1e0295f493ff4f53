#!/usr/bin/env python3
"""plant.py SEEDS.py [id...] : make /verif/seeded/<id> from a description of the change and confirm it:
the repository's tests pass with it, its demonstration fails with it and passes without it, and the lines it
replaces are of the original repository.  Then run the check of its property on it and say if it is caught.
(Development tool: no check uses it.  It works on /repo's tree and restores it.)"""
import importlib.util, json, os, re, subprocess, sys, textwrap, time
spec = importlib.util.spec_from_file_location('seeds', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
want = sys.argv[2:]
BASE = 'f44ee16'
DEMO = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)"
cd "$work" || exit 99
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$OLDPWD" MPLBACKEND=Agg timeout 250 /opt/venv/bin/python "$here/demo.py" "$work"
rc=$?
rm -rf "$work"
exit $rc
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def clean(): sh('git -C /repo checkout -- .')
def demo(d): return subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True, timeout=300)
base = set(sh('git -C /repo rev-list %s' % BASE).stdout.split())
for s in m.SEEDS:
    if want and s['id'] not in want: continue
    d = '/verif/seeded/' + s['id']; os.makedirs(d, exist_ok=True)
    clean(); assert not sh('git -C /repo status --short').stdout.strip()
    ok = True
    for (f, a, b) in s['edits']:
        p = '/repo/' + f; t = open(p, encoding='utf8').read()
        if t.count(a) != 1: print(s['id'], 'EDIT NOT UNIQUE', t.count(a), repr(a)); ok = False; break
        open(p, 'w', encoding='utf8').write(t.replace(a, b))
    if not ok: clean(); continue
    diff = sh('git -C /repo diff').stdout
    open(d + '/patch.diff', 'w').write(diff)
    # provenance
    cur = None; bad = []
    for l in diff.split('\n'):
        if l.startswith('--- a/'): cur = l[6:]
        elif l.startswith('@@'): ln = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and cur and not l.startswith('---'):
            bl = sh("git -C /repo blame -l -s -L %d,%d HEAD -- %s" % (ln, ln, cur)).stdout.split()[0].lstrip('^')
            if not any(x.startswith(bl[:30]) for x in base): bad.append(ln)
            ln += 1
        elif l.startswith(' '): ln += 1
    open(d + '/demo.sh', 'w').write(DEMO); open(d + '/demo.py', 'w').write(textwrap.dedent(s['demo']).lstrip())
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    sh('bash /opt/vp/build.sh', cwd='/tmp'); sh('bash /opt/vp/test.sh /tmp/plant.json', cwd='/tmp')
    t = json.load(open('/tmp/plant.json')); stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    miss = stable - set(t['passed'])
    dp = demo(d)
    res = []
    if '--nocheck' not in os.environ.get('PLANT', ''):
        for P in [s['prop']] + s.get('also', []):
            t0 = time.time()
            c = sh('VERIF_SEED=1 VERIF_TIER=quick python3 harness/check.py %s' % P, cwd='/verif')
            v = re.findall(r'VIOLATION property=(\S+)', c.stdout)
            res.append('%s rc=%d %s %.0fs' % (P, c.returncode, sorted(set(v)), time.time() - t0))
            open('/tmp/sd/%s.%s.log' % (s['id'], P), 'w').write(c.stdout + c.stderr)
    clean()
    dc = demo(d)
    print(s['id'], 'CONFIRMED' if not miss and dp.returncode and not dc.returncode and not bad else 'REJECT tests=%s demo patched=%d clean=%d notorig=%s %s' % (sorted(miss), dp.returncode, dc.returncode, bad, (dc.stdout + dc.stderr)[-600:] if dc.returncode else ''), '|', '; '.join(res), flush=True)
sh('bash /opt/vp/build.sh', cwd='/tmp')
