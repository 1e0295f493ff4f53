"""Common machinery of the checks: number encoding, TLC runs, evidence, verdicts.

The deciding side is TLC running the modules of /verif/spec; Python only drives the
code under test, records what it observes, and starts TLC on the recorded traces.
"""
import json, os, re, subprocess, sys, time, hashlib, shutil, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, 'build')
JAVA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
PYREAL = '/opt/venv/bin/python'
ONE = 10 ** 24


# ----------------------------------------------------------------- numbers
def enc(x):
    """A double as the specification's fixed point number <<sign, limbs>> (base 10^4, 1e-24)."""
    x = float(x)
    if x != x or x in (float('inf'), float('-inf')):
        return [2, []]
    n, d = x.as_integer_ratio()
    s = 1 if n >= 0 else -1
    q, r = divmod(abs(n) * ONE, d)
    if 2 * r >= d:
        q += 1
    if q == 0:
        return [0, []]
    t = str(q)
    limbs = [int(t[max(0, i - 4):i]) for i in range(len(t), 0, -4)]
    return [s, limbs]


def encv(v):
    return [enc(x) for x in v]


def encm(m):
    return [encv(r) for r in m]


def dec(v):
    if v[0] == 2:
        return float('nan')
    n = 0
    for d in reversed(v[1]):
        n = n * 10000 + d
    return v[0] * n / ONE


# --------------------------------------------------------------------- TLC
class Machinery(Exception):
    """The machinery itself failed (not a verdict)."""


def classes():
    """Compile the Java accelerators once per content."""
    src = os.path.join(VERIF, 'java')
    files = sorted(f for f in os.listdir(src) if f.endswith('.java'))
    h = hashlib.sha1(b''.join(open(os.path.join(src, f), 'rb').read() for f in files)).hexdigest()[:12]
    out = os.path.join(BUILD, 'cls-' + h)
    if not os.path.isdir(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = tempfile.mkdtemp(dir=BUILD)
        r = subprocess.run(['javac', '-cp', JAVA_CP, '-d', tmp] + [os.path.join(src, f) for f in files],
                           capture_output=True, text=True)
        if r.returncode:
            raise Machinery('javac: ' + r.stderr)
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return out


class TlcResult:
    pass


def tlc(module, cfg=None, env=None, workers=1, timeout=800, mem='2g', args=(), cwd=SPEC, jvm=()):
    cls = classes()
    md = tempfile.mkdtemp(prefix='md', dir=BUILD)
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xmx' + mem, '-Xss64m'] + list(jvm) + ['-cp', cls + ':' + JAVA_CP, 'tlc2.TLC',
           '-workers', str(workers), '-metadir', md, '-noGenerateSpecTE', '-config', cfg or module + '.cfg'] \
        + list(args) + [module + '.tla']
    e = dict(os.environ)
    e.update(env or {})
    e.pop('JAVA_TOOL_OPTIONS', None)
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
        out, rc = p.stdout + p.stderr, p.returncode
    except subprocess.TimeoutExpired as ex:
        out, rc = (ex.stdout or b'').decode(errors='replace') if isinstance(ex.stdout, bytes) else (ex.stdout or ''), -1
    finally:
        shutil.rmtree(md, ignore_errors=True)
    r = TlcResult()
    r.out, r.rc, r.wall = out, rc, time.time() - t0
    r.timeout = rc == -1
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
    r.generated, r.distinct = (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))) if m else (0, 0)
    r.ok = rc == 0 and ('No error has been found' in out or ('-simulate' in args and 'Error' not in out))
    if '-simulate' in args:
        m = re.findall(r'([\d,]+) states checked', out)
        r.generated = r.distinct = int(m[-1].replace(',', '')) if m else 0
    r.prints = []
    for line in out.splitlines():
        if line.startswith('"') and line.endswith('"'):
            try:
                r.prints.append(json.loads(line))
            except ValueError:
                pass
    return r


def tagged(r, tag):
    out = []
    for s in r.prints:
        if s.startswith(tag + ' '):
            out.append(json.loads(s[len(tag) + 1:]))
    return out


# ------------------------------------------------------------------- traces
def validate(module, trace_path, ntrace, timeout=800, mem='3g', cfg=None):
    """Run a trace specification.  Returns dict(bad=[{l,s,o,bad}], cov={}, stats...)."""
    r = tlc(module, cfg=cfg, env={'TRACE': trace_path}, timeout=timeout, mem=mem,
            jvm=('-XX:TieredStopAtLevel=1',))      # short runs: the optimising compiler costs more than it saves
    bad = tagged(r, 'BAD')
    cov = tagged(r, 'COV')
    res = dict(bad=bad, cov=cov[-1] if cov else {}, generated=r.generated, distinct=r.distinct, wall=r.wall, out=r.out)
    if r.ok:
        return res
    if r.timeout:
        raise Machinery('TLC timed out on %s after %ds' % (trace_path, timeout))
    if 'OutOfMemory' in r.out or 'StackOverflow' in r.out or 'heap space' in r.out or not r.distinct:
        raise Machinery('TLC failed on %s:\n%s' % (trace_path, r.out[-3000:]))
    # the specification cannot evaluate or explain the event after the last one consumed:
    # the trace is not one of its behaviours
    line = r.distinct
    res['bad'] = bad + [dict(l=line, s=None, o=None, bad=['trace-not-explained'], detail=r.out[-1500:])]
    return res
