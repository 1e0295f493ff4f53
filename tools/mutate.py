#!/usr/bin/env python3
"""mutate.py FILE N SEED [func-regex] : sensitivity of the suites to small syntactic changes of meshmagick/FILE.
(Development tool: no check uses it.)  N mutants drawn with SEED are made in scratch copies of /repo; the suites of that
file are driven on each; a trace equal to the unchanged tree's says nothing, a different one is given to TLC.
Prints KILLED / SURVIVED with the change."""
import ast, hashlib, json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness'))
import vp, plan
F, N, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
FUN = re.compile(sys.argv[4] if len(sys.argv) > 4 else '.*')
ROOT = '/tmp/mut'
PLANE = [('plane-rnd', 200), ('plane-enum', 500)]
SU = {
    'mesh.py': [('history', 40), ('xform', 120), ('integ', 60), ('merge-mesh', 100), ('heal-rnd', 80), ('topo-rnd', 80), ('topo-enum', 80), ('clean', 160), ('build', 120), ('alias', 80), ('clip-rnd', 60)],
    'mesh_clipper.py': [('clip-rnd', 120), ('clip-enum', 600), ('hydro', 30)],
    'hydrostatics.py': [('hydro', 60), ('disp', 80), ('full', 24), ('cli-rnd', 100)],
    'inertia.py': [('inertia-rnd', 200), ('solids-rnd', 80), ('solids-enum', 0), ('inertia-enum', 400), ('integ', 60)],
    'rotations.py': [('rot-rnd', 500), ('rot-enum', 0)],
    'mmio.py': [('format-rt', 260), ('format-refuse', 8), ('format-enum', 5000)],
    'cli.py': [('cli-rnd', 300), ('cli-enum', 500), ('cli-long', 160), ('cli-bad', 168), ('cli-sub', 8)],
    'tools.py': [('merge-grid', 800), ('merge-mesh', 200), ('build', 100)],
}
src = open('/repo/meshmagick/' + F, encoding='utf8').read()
tree = ast.parse(src)
SKIP = re.compile(r'(show|__str__|__repr__|print|_logger|viewer|set_verbosity|debug)')
sites = []
def walk(node, path):
    for ch in ast.iter_child_nodes(node):
        p = path
        if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
            p = path + [ch.name]
            if isinstance(ch, ast.FunctionDef) and SKIP.search(ch.name): continue
        if isinstance(ch, ast.Expr) and isinstance(ch.value, ast.Constant): continue
        if isinstance(ch, ast.Raise): continue
        if isinstance(ch, ast.Call) and isinstance(ch.func, (ast.Name, ast.Attribute)) and (getattr(ch.func, 'id', '') in ('print',) or getattr(ch.func, 'attr', '') in ('add_argument', 'warn', 'warning', 'info')): continue
        if isinstance(ch, ast.JoinedStr): continue
        if path and FUN.search('.'.join(p)): ops(ch, '.'.join(p))
        walk(ch, p)
def seg(n): return (n.lineno, n.col_offset, n.end_lineno, n.end_col_offset)
def txt(n): return ast.get_source_segment(src, n)
def ops(n, where):
    add = lambda n, new: sites.append((seg(n), new, where))
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        sw = {ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
        for o in sw.get(type(n.ops[0]), []): add(n, '(%s %s %s)' % (txt(n.left), o, txt(n.comparators[0])))
    if isinstance(n, ast.BinOp):
        sw = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Mod: None, ast.Pow: '*'}
        o = sw.get(type(n.op))
        if o and not isinstance(n.left, (ast.JoinedStr,)) and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)): add(n, '(%s %s %s)' % (txt(n.left), o, txt(n.right)))
    if isinstance(n, ast.AugAssign):
        sw = {ast.Add: '-=', ast.Sub: '+=', ast.Mult: '/=', ast.Div: '*='}
        o = sw.get(type(n.op))
        if o: add(n, '%s %s %s' % (txt(n.target), o, txt(n.value)))
    if isinstance(n, ast.Constant) and type(n.value) in (int, float) :
        if n.value in (0, 1, 2, 3, 4, 5): add(n, str(n.value + 1))
        if n.value in (1, 2, 3): add(n, str(n.value - 1))
        if isinstance(n.value, float) and n.value not in (0., 1.): add(n, repr(n.value * 1.001)); 
    if isinstance(n, ast.Constant) and type(n.value) is bool: add(n, str(not n.value))
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)): add(n, '(%s)' % txt(n.operand))
    if isinstance(n, ast.BoolOp): add(n, '(' + (' or ' if isinstance(n.op, ast.And) else ' and ').join('(%s)' % txt(v) for v in n.values) + ')')
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'strip', 'lower', 'ravel', 'flatten') and not n.args: add(n, txt(n.func.value))
    if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)) and (getattr(n.func, 'id', '') or n.func.attr) in ('abs', 'fabs', 'sorted', 'list', 'reversed') and len(n.args) == 1: add(n, '(%s)' % txt(n.args[0]))
    if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)): add(n, 'pass')
    if isinstance(n, ast.If): add(n.test, '(False)'); add(n.test, '(True)')
    if isinstance(n, (ast.Continue,)): add(n, 'pass')
    if isinstance(n, (ast.Break,)): add(n, 'pass')
walk(tree, [])
lines = src.split('\n')
off = [0]
for l in lines: off.append(off[-1] + len(l.encode()) + 1)
bsrc = src.encode()
def apply(s):
    (a, b, c, d), new, _ = s
    return (bsrc[:off[a - 1] + b] + new.encode() + bsrc[off[c - 1] + d:]).decode()
rng = random.Random(SEED); rng.shuffle(sites)
os.makedirs(ROOT, exist_ok=True)
suites = SU[F] if not (F == 'mesh.py' and len(sys.argv) > 4 and 'Plane' in sys.argv[4]) else PLANE
vp.classes()
base = {}
def scn(su):
    sp = plan.SUITES[su]
    if not sp.get('gen'): return '-', None
    p = ROOT + '/%s.scn.json' % sp['gen']
    if not os.path.exists(p):
        M = plan.MODELS[sp['gen']]
        a = tuple(x.replace('%d', str(M['num'][0])).replace('%seed', '1') if 'num' in M else x for x in M.get('args', ()))
        r = vp.tlc(M['module'], cfg=M['cfg'], workers=6, args=a); assert r.ok
        sc = sorted(vp.tagged(r, 'SCN'), key=lambda x: json.dumps(x, sort_keys=True))
        json.dump({str(i): x for i, x in enumerate(sc)}, open(p, 'w'))
    return p, len(json.load(open(p)))
SC = {su: scn(su) for su, n in suites}
def drive(su, n, repo, out):
    p, cnt = SC[su]
    # a stride over the scenarios: shard 0 of many
    sp = plan.SUITES[su]
    tot, nsh = n, 1
    if cnt: nsh = max(1, cnt // n) if n else 1; tot = cnt
    cwd = out + '.cwd'; os.makedirs(cwd, exist_ok=True)
    env = dict(os.environ, PYTHONPATH=repo + ':' + os.path.join(vp.VERIF, 'harness'), PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', LC_ALL='C.UTF-8', VP_REPO=repo)
    try:
        r = subprocess.run([vp.PYREAL, os.path.join(vp.VERIF, 'harness', 'drive.py'), su, str(tot), '0', str(nsh), '1', 'quick', out, p, '-'], cwd=cwd, env=env, capture_output=True, text=True, timeout=300)
        rc = r.returncode
    except subprocess.TimeoutExpired: rc = -9
    shutil.rmtree(cwd, ignore_errors=True)
    return rc
def norm(p): return hashlib.sha1(re.sub(r'/tmp/[^" ]*|cwd\w+', '', open(p).read()).encode()).hexdigest()
def b(su_n):
    su, n = su_n; o = ROOT + '/base.%s.json' % su
    assert drive(su, n, '/repo', o) == 0, su
    return su, norm(o)
with ThreadPoolExecutor(6) as ex: base = dict(ex.map(b, suites))
def one(i_s):
    i, s = i_s
    try: new = apply(s); ast.parse(new)
    except SyntaxError: return None
    w = ROOT + '/w%s%d' % (F, i); shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    shutil.copytree('/repo/meshmagick', w + '/repo/meshmagick', ignore=shutil.ignore_patterns('__pycache__'))
    open(w + '/repo/meshmagick/' + F, 'w', encoding='utf8').write(new)
    res = 'SURVIVED same'
    for su, n in suites:
        o = w + '/t.json'
        for x in (o, o + '.meta'):
            if os.path.exists(x): os.remove(x)
        rc = drive(su, n, w + '/repo', o)
        if rc == -9: res = 'TIMEOUT ' + su; break
        if rc or not os.path.exists(o + '.meta'): res = 'KILLED driver ' + su; break
        if norm(o) == base[su]: continue
        try: r = vp.validate(plan.SUITES[su]['module'], o, 0, timeout=600)
        except vp.Machinery as e: res = 'MACHINERY %s %s' % (su, str(e)[-200:]); break
        if r['bad']: res = 'KILLED %s %s' % (su, r['bad'][0]['bad'][:2]); break
        res = 'SURVIVED differs:' + su
    shutil.rmtree(w, ignore_errors=True)
    (a, b_, c, d), newt, where = s
    old = bsrc[off[a - 1] + b_:off[c - 1] + d].decode()
    print('%s | %s:%d %s | %s  ->  %s' % (res, F, a, where, old[:110].replace('\n', ' '), newt[:110].replace('\n', ' ')), flush=True)
print(len(sites), 'sites')
with ThreadPoolExecutor(7) as ex: list(ex.map(one, list(enumerate(sites[:N]))))
