"""Scenarios on the command line: lines typed by the specification's user, performed by the command and, step by step, through the library."""
import os, re, sys, io, shutil, tempfile, contextlib, subprocess, math
import numpy as np
import shapes
from rec import MeshRec, mesh_json
from d_mesh import add_dups, add_unused
from d_format import ALIAS, WRITABLE, tokenize, plain_mesh
from vp import enc, encv, encm

SPELL = {'cc': ['-cc', '--concatenate-file'], 'md': ['-md', '--merge-duplicates'], 'mirror': ['--mirror'], 'sym': ['-sym', '--symmetrize', '--sym'],
         'hm': ['-hm', '--heal-mesh'], 'hn': ['-hn', '--heal-normals'], 't': ['-t', '--translate'], 'tx': ['-tx', '--translatex'],
         'ty': ['-ty', '--translatey'], 'tz': ['-tz', '--translatez'], 'r': ['-r', '--rotate'], 'rx': ['-rx', '--rotatex'], 'ry': ['-ry', '--rotatey'],
         'rz': ['-rz', '--rotatez'], 's': ['-s', '--scale'], 'sx': ['-sx', '--scalex'], 'sy': ['-sy', '--scaley'], 'sz': ['-sz', '--scalez'],
         'fn': ['-fn', '--flip-normals'], 'tq': ['-tq', '--triangulate-quadrangles'], 'c': ['-c', '--clip-by-plane'], 'p': ['-p', '--plane'],
         'i': ['-i', '--info'], 'quality': ['--quality'], 'pi': ['-pi', '--plain-inertia'], 'si': ['-si', '--shell-inertia'], 'q': ['-q', '--quiet'],
         'list': ['--list-medium'], 'rho': ['--rho-medium'], 'thickness': ['--thickness'], 'wd': ['-wd', '--water-density'], 'g': ['-g', '--grav'],
         'zg': ['-zg', '--zcog'], 'mdisp': ['-mdisp', '--mass-displacement'], 'cog': ['-cog', '--cog'], 'hs': ['-hs', '--hydrostatics'],
         'report': ['--hs-report'], 'pn': ['-pn', '--project-name'], 'o': ['-o', '--outfilename'], 'ifmt': ['-ifmt', '--input-format'],
         'ofmt': ['-ofmt', '--output-format'], 'lpp': ['-lpp', '--lpp'], 'ap': ['-ap', '--orig-at-ap'], 'unknown': ['--shear', '-xyz', '--translate-all']}
STAGES = ['cc', 'md', 'mirror', 'sym', 'hm', 'hn', 't', 'tx', 'ty', 'tz', 'r', 'rx', 'ry', 'rz', 's', 'sx', 'sy', 'sz', 'fn', 'tq', 'c']
REPEAT = ('sym', 'c', 'p')
VARIABLE = ('cc', 'md', 'mirror', 'sym', 'c', 'p')
KEYS = {'Oxy': (0, 0, 1), 'Oxz': (0, 1, 0), 'Oyz': (1, 0, 0), '/Oxy': (0, 0, -1), '/Oxz': (0, -1, 0), '/Oyz': (-1, 0, 0)}
DENS = re.compile(r'^\|(\S+)\s*\|\s*([\d.]+)\|$')


def recorder(sp):
    return CliRec()


def num(x, rng=None):
    t = '%.3f' % x
    if rng is not None and rng.random() < .5:
        t = t.rstrip('0')
        t = t[:-1] if t.endswith('.') else t
    return '0' if t in ('-0', '') else '0.0' if t == '-0.000' else t


def word(w, d=None):
    try:
        x, n = float(w), True
    except ValueError:
        x, n = 0., False
    t = dict(w=w, num=n, x=enc(x), ext=os.path.splitext(w)[1][1:].lower(), exists=bool(d and os.path.isfile(os.path.join(d, w))))
    return t


def pipeline(typed):
    out = []
    for k in STAGES:
        ix = [i for i, o in enumerate(typed) if o[0] == k]
        if k == 'hn' and any(o[0] == 'hm' for o in typed):
            ix = []
        out += ix if k in REPEAT else ix[-1:]
    return out


def last(typed, k):
    a = [o[1] for o in typed if o[0] == k]
    return a[-1] if a else None


def plane_of(typed, k, words):
    from meshmagick.mesh import Plane
    if len(words) == 4:
        return Plane(normal=[float(x) for x in words[:3]], scalar=float(words[3]))
    w = words[0] if words else 'Oxz' if k == 'sym' else 'Oxy'
    if w in KEYS:
        return Plane(normal=KEYS[w], scalar=0.)
    return plane_of(typed, 'p', [o[1] for o in typed if o[0] == 'p'][int(w)])


class CliRec(MeshRec):
    def line(self, typed, V, F, V2, F2, rng, infmt='nat', innm='ship.nat', exists=True, how='in', ccname='other', use=True):
        from meshmagick import mmio
        d = tempfile.mkdtemp(prefix='cli', dir=os.getcwd())
        try:
            name = str(rng.choice(ALIAS[infmt]))
            V, F = np.array(V, float), np.array(F, int)
            self.call(lambda: mmio.write_mesh(os.path.join(d, 'x' + innm if infmt == 'dat' else innm), V, F, name))
            if not exists:
                os.unlink(os.path.join(d, innm))
            if any(o[0] == 'cc' for o in typed):
                self.call(lambda: mmio.write_mesh(os.path.join(d, ccname), np.array(V2, float), np.array(F2, int), name))
            T = [dict(k=k, a=[word(w, d) for w in a]) for k, a in typed]
            base, ext = os.path.splitext(innm)
            self.log('line', typed=T, base=base, ext=ext[1:].lower(), exists=bool(exists), argv=[str(k) for k, _ in typed])
            if exists and use:
                self.perform(typed, d, innm, infmt, name, rng)
            self.command(typed, d, innm, rng, how)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    # ---------------------------------------------------------- through the library
    def cload(self, m, path, infmt, name):
        from meshmagick import mmio
        from meshmagick.mesh import Mesh
        r, exc = self.call(lambda: mmio.load_mesh(path, name))
        V, F = plain_mesh(r)
        lines = tokenize(open(path).read(), infmt)
        self.log('cload', exc, m=m, fmt=infmt, cut=0, dmg='', lines=lines, files={'Buoy1': []}, V=V, F=F)
        if exc == '':
            def f():
                self.regs[m] = Mesh(*r)
            _, exc = self.call(f)
            self._chg()
        return exc == ''

    def perform(self, typed, d, innm, infmt, name, rng):
        if not self.cload('w', os.path.join(d, innm), infmt, name):
            return False
        if self.healtri('w')[1]:
            return False
        for i in pipeline(typed):
            k, a = typed[i]
            if k == 'cc':
                p = os.path.join(d, a[0])
                if not os.path.isfile(p) or not self.cload('cc', p, infmt, name) or self.healtri('cc')[1]:
                    return False
            try:
                f = self.step(typed, k, a)
            except Exception:
                return False                   # a line that cannot be used: the specification knows
            _, exc, _ = self._op('step', 'w', f, i=i + 1)
            if exc:
                return False
        self.log('keep')
        if any(k == 'hs' for k, _ in typed):
            return self.afloat(typed)
        return True

    def step(self, typed, k, a):
        from meshmagick.mesh_clipper import MeshClipper
        M = lambda: self.regs['w']
        x = [float(w) for w in a] if k in ('md', 't', 'tx', 'ty', 'tz', 'r', 'rx', 'ry', 'rz', 's', 'sx', 'sy', 'sz') else None
        if k == 'cc':
            def f():
                self.regs['w'] = self.regs['w'] + self.regs['cc']
            return f
        if k in ('mirror', 'sym', 'c'):
            p = plane_of(typed, k, a)
            if k == 'mirror':
                return lambda: M().mirror(p)
            if k == 'sym':
                return lambda: M().symmetrize(p)

            def g():
                self.regs['w'] = MeshClipper(M(), plane=p).clipped_mesh
            return g
        return {'md': lambda: M().merge_duplicates(**({'atol': x[0]} if x else {})), 'hm': lambda: M().heal_mesh(), 'hn': lambda: M().heal_normals(),
                't': lambda: M().translate(x), 'tx': lambda: M().translate_x(x[0]), 'ty': lambda: M().translate_y(x[0]), 'tz': lambda: M().translate_z(x[0]),
                'r': lambda: M().rotate([math.radians(v) for v in x]), 'rx': lambda: M().rotate_x(math.radians(x[0])),
                'ry': lambda: M().rotate_y(math.radians(x[0])), 'rz': lambda: M().rotate_z(math.radians(x[0])),
                's': lambda: M().scale(x[0]), 'sx': lambda: M().scalex(x[0]), 'sy': lambda: M().scaley(x[0]), 'sz': lambda: M().scalez(x[0]),
                'fn': lambda: M().flip_normals(), 'tq': lambda: M().triangulate_quadrangles()}[k]

    def afloat(self, typed):
        import meshmagick.hydrostatics as hs
        box = dict(z=0., R=np.eye(3))
        get = lambda k, dflt: dflt if last(typed, k) is None else float(last(typed, k)[0])
        rho, g = get('wd', 1025.), get('g', 9.81)
        disp = get('mdisp', None)
        cog = last(typed, 'cog')

        def f():
            m = self.regs['w']
            if cog is None:
                if disp is not None:
                    box['z'] = float(hs.displacement_equilibrium(m.copy(), disp, rho, g))
            else:
                t = disp if disp is not None else hs.compute_hydrostatics(m.copy(), np.zeros(3), rho, g)['disp_mass'] / 1000.
                box['z'], box['R'] = hs.full_equilibrium(m.copy(), np.array([float(c) for c in cog]), t, rho, g)
            hs.compute_hydrostatics(m.copy(), np.zeros(3), rho, g, z_corr=box['z'], rotmat_corr=box['R'])
            m.rotate_matrix(box['R'])
            m.translate_z(box['z'])
        _, exc, e = self._op('equil', 'w', f)
        e.update(z=enc(box['z']), R=encm(box['R']))
        return exc == ''

    # ---------------------------------------------------------- the command
    def command(self, typed, d, innm, rng, how):
        opts = []
        for k, a in typed:
            s = str(rng.choice(SPELL[k]))
            opts.append([s + '=' + a[0]] if s.startswith('--') and len(a) == 1 and k not in VARIABLE and rng.random() < .15 else [s] + list(a))
        slots = [0] + [i + 1 for i, (k, _) in enumerate(typed) if k not in VARIABLE and k != 'unknown']
        at = int(rng.choice(slots)) if rng.random() < .4 else 0
        argv = [w for o in opts[:at] for w in o] + [innm] + [w for o in opts[at:] for w in o]
        before = self.tree(d)
        out = io.StringIO()
        if how == 'sub':
            def f():
                r = subprocess.run([sys.executable, '-c', 'import sys; from meshmagick.cli import main; main()'] + argv, cwd=d, capture_output=True, text=True,
                                   timeout=100, env=dict(os.environ, PYTHONWARNINGS='ignore'))
                out.write(r.stdout)
                if r.returncode:
                    raise RuntimeError('status %d' % r.returncode)
            _, exc = self.call(f, 110)
        else:
            def f():
                from meshmagick import cli
                old, av = os.getcwd(), sys.argv
                os.chdir(d)
                sys.argv = ['meshmagick'] + argv
                try:
                    with contextlib.redirect_stdout(out):
                        cli.main()
                except SystemExit as e:
                    if e.code not in (0, None):
                        raise RuntimeError('exit %s' % (e.code,))
                finally:
                    os.chdir(old)
                    sys.argv = av
            _, exc = self.call(f, 60)
        after = self.tree(d)
        inputs = [innm] + [a[0] for k, a in typed if k == 'cc' and a]
        created = sorted(n for n in after if after[n] != before.get(n) and n not in inputs)
        o = last(typed, 'o')
        name = o[0] if o else None
        if name is None and last(typed, 'ofmt'):
            name = os.path.splitext(innm)[0] + '.' + last(typed, 'ofmt')[0]
        lines = []
        if name in after and exc == '':
            fmt = last(typed, 'ofmt')[0] if last(typed, 'ofmt') else os.path.splitext(name)[1][1:].lower()
            canon = [c for c in ALIAS if fmt in ALIAS[c]]
            lines = tokenize(after[name].decode('utf8', 'replace'), canon[0] if canon else '')
        self.log('cli', exc, argv=' '.join(argv), created=created, inchg=any(after.get(n) != before.get(n) for n in before), lines=lines,
                 rep=self.reports(typed, out.getvalue(), after, d, innm) if exc == '' else {})

    def tree(self, d):
        out = {}
        for r, _, fs in os.walk(d):
            for f in fs:
                p = os.path.join(r, f)
                with open(p, 'rb') as h:
                    out[os.path.relpath(p, d)] = h.read()
        return out

    def reports(self, typed, txt, after, d, innm):
        rep = {}

        def inertia(tag, head):
            i = txt.find(head)
            if i < 0:
                return
            t = txt[i:]
            try:
                g = lambda pat: float(re.search(pat, t).group(1))
                rows = re.findall(r'^\t\t(\S+)\t(\S+)\t(\S+)$', t, re.M)[:3]
                rep[tag] = dict(mass=enc(g(r'Mass = (\S+) tons')), cog=encv([g(r'xg = (\S+)'), g(r'yg = (\S+)'), g(r'zg = (\S+)')]),
                                mat=encm(np.array([[float(x) for x in r] for r in rows]).reshape(3, 3)))
            except Exception:
                pass
        inertia('pi', 'Inertial parameters for a uniform distribution')
        inertia('si', 'Inertial parameters for a shell distribution')
        try:
            g = lambda pat: re.findall(pat, txt)[-1]
            rep['i'] = dict(counts=[int(g(r'Number of vertices: *(\d+)')), int(g(r'Number of faces: *(\d+)')), int(g(r'Number of triangles: *(\d+)')),
                                    int(g(r'Number of quadrangles: *(\d+)'))],
                            box=[enc(float(g(r'%s = *(\S+)' % w))) for w in ('xmin', 'xmax', 'ymin', 'ymax', 'zmin', 'zmax')])
        except Exception:
            rep.pop('i', None)
        rep['list'] = [[m.group(1), enc(float(m.group(2)))] for m in map(DENS.match, txt.splitlines()) if m]
        got = {}
        for ln in txt.splitlines():
            mm = re.match(r'\s*(.*?)-+>\s+(.*)$', ln)
            if mm:
                got.setdefault(mm.group(1).strip().upper(), []).append(mm.group(2).split())
        try:
            n = lambda k, i=-1: [enc(float(x)) for x in got[k.upper()][i]]
            v = lambda k, i=-1: n(k, i)[0]
            L = 'Length between perpendiculars Lpp (M)'
            ref = ('[2] ' + L).upper() in got
            mc = lambda k: v({'bm': 'Transversal metacentric radius (M)', 'bl': 'Longitudinal metacentric radius (M)',
                              'gm': 'Transversal metacentric height GMt (M)', 'gl': 'Longitudinal metacentric height GMl (M)'}[k])
            rep['hs'] = dict(mass=v('Displacement mass (tons)'), rho=v('Density of water (kg/M**3)'), g=v('Gravity acceleration (M/S**2)'),
                             warn='onverge' in txt, file=True, zc=v('Z correction (M)'), vol=v('Displacement volume (M**3)'),
                             A=v('Waterplane area (M**2)'), f=n('Waterplane center (M)'), wet=v('Wetted Surface Area (M**2)'), b=n('Buoyancy center (M)'),
                             cog=n('Center of gravity (M)'), draught=v('Draft (M)'), los=v('Length overall submerged (M)'),
                             bos=v('Breadth overall submerged (M)'), lwl=v('Length at Waterline LWL (M)'), fp=v('Forward perpendicular FP (M)'),
                             lpp=v('[2] ' + L if ref else L), trust=not ref, **{k: mc(k) for k in ('bm', 'bl', 'gm', 'gl')},
                             unst=['<<<  %s  >>>' % w in txt for w in ('TRANSVERSALLY UNSTABLE', 'LONGITUDINALLY UNSTABLE')],
                             K=[v(k) for k in ('K33 (N/M)', 'K34 (N)', 'K35 (N)', 'K44 (N.M)', 'K45 (N.M)', 'K55 (N.M)')],
                             stdR=[v(k) for k in ('Rxx (M)', 'Ryy (M)', 'Rzz (M)')], stdI=[v(k, -2) for k in ('Ixx', 'Iyy', 'Izz')],
                             R=[v(k) for k in ('Rxx', 'Ryy', 'Rzz')], I=[v(k) for k in ('Ixx', 'Iyy', 'Izz')])
            r = last(typed, 'report')
            if r:
                c = after.get(r[0], b'').decode()
                rep['hs']['file'] = os.path.join(d, innm) in c and len(c) > 500 and c.split('==\n')[-1].strip() in txt
        except Exception:
            rep.pop('hs', None)
        return rep


# ---------------------------------------------------------------------- lines
def nums(k, n, rng):
    if k in ('t', 'tx', 'ty', 'tz'):
        v = [rng.uniform(-.6, .6) for _ in range(n)]
    elif k in ('r', 'rx', 'ry', 'rz'):
        v = [float(rng.choice([90, -90, 180, 30, -45, 12.5, 270, -360, 0, float(rng.uniform(-180, 180)), float(rng.uniform(-180, 180))])) for _ in range(n)]
    elif k in ('s', 'sx', 'sy', 'sz'):
        v = [float(rng.choice([2, .5, 1.25, 1, float(rng.uniform(.4, 2.5))])) for _ in range(n)]
    elif k == 'md':
        return [str(rng.choice(['0.001', '1e-3', '.01', '1e-6', '0.05']))]
    else:                                    # a plane
        m = [list(map(float, KEYS[list(KEYS)[rng.integers(6)]])), list(rng.normal(size=3)), [1., 1., 1.], [0., -2., 0.]][rng.integers(4)]
        v = m + [float(rng.uniform(-.4, .4))]
    return [num(x, rng) for x in v]


def fill(typed, rng):
    out = []
    for o in typed:
        k, form = o['k'], o['form']
        if k == 'cc':
            out.append(('cc', ['other']))
        elif form and form[0] == 'num':
            out.append((k, nums(k, len(form), rng)))
        elif form and form[0] in KEYS:
            out.append((k, [str(rng.choice(list(KEYS)))]))
        else:
            out.append((k, list(form)))
    return out


def put(typed, o, rng):
    typed.insert(int(rng.integers(len(typed) + 1)), o)


def meshes(rng, closed=False):
    r = rng.random()
    V, F = shapes.closed_shape(rng) if closed or r < .7 else shapes.open_shape(rng)
    V, F = shapes.dress(V, F, rng, shear=False)
    V = (V - V.mean(axis=0)) * 2. / np.ptp(V, axis=0).max()
    V = np.round(V + rng.uniform(-.2, .2, 3), 3 if rng.random() < .3 and len(V) < 9 else 6)
    if not closed:                            # what the healing options are for
        r = rng.random(4)
        if r[0] < .35:
            F = np.array([list(f)[::-1] if rng.random() < .4 else list(f) for f in F])
        if r[1] < .2:
            V, F = add_dups(V, F, rng, float(rng.choice([0., 0., 1e-4])))
            V = np.round(V, 6)
        if r[3] < .15:
            V, F = add_unused(V, F, rng)
            V = np.round(V, 6)
    V2, F2 = shapes.dress(*(shapes.box() if rng.random() < .5 else shapes.grid(2, 1)), rng, shear=False)
    if rng.random() < .5:
        V2 = V2 - V2[0] + V[0]               # one vertex in common
    else:
        V2 = V2 + [4., 0, 0]
    return V, F, np.round(V2, 6), F2


def output(typed, rng):
    """how the output is asked for"""
    r = rng.random()
    fmt = WRITABLE[rng.integers(len(WRITABLE))]
    name = str(rng.choice(ALIAS[fmt]))
    ext = {'dat': 'DAT'}.get(fmt, fmt)
    if r < .55 and fmt != 'dat':
        put(typed, ('o', [str(rng.choice(['out', 'ship2', 'a.b'])) + '.' + (ext.upper() if rng.random() < .2 else ext)]), rng)
    elif r < .9 or fmt == 'dat':
        put(typed, ('ofmt', [name]), rng)
        put(typed, ('o', ['out.' + (ext if fmt == 'dat' else str(rng.choice([ext, 'txt', 'mesh', 'nat'])))]), rng)
    else:
        put(typed, ('ofmt', [name]), rng)
    return fmt


def infile(typed, rng, out):
    fmt = [f for f in WRITABLE if f != 'dat'][rng.integers(len(WRITABLE) - 1)]
    r = rng.random()
    ext = fmt if r < .5 else fmt.upper() if r < .6 else str(rng.choice(['txt', 'mesh', '']))
    innm = str(rng.choice(['ship', 'Hull_1', 'b.c'])) + ('.' + ext if ext else '')
    if ext.lower() != fmt:
        put(typed, ('ifmt', [str(rng.choice(ALIAS[fmt]))]), rng)
        if not ext:
            innm = 'ship'
    of = last(typed, 'ofmt')
    if of and not last(typed, 'o') and os.path.splitext(innm)[1] == '.' + of[0]:
        put(typed, ('o', ['out.' + of[0]]), rng)        # the output would be the input
    return fmt, innm


def enum(rec, rng, k, scn, tier):
    typed = fill(scn['typed'], rng)
    rec.start(tag=' '.join(o[0] for o in typed))
    out = output(typed, rng) if rng.random() < .95 else None
    fmt, innm = infile(typed, rng, out)
    typed = [(o[0], ['other.' + fmt]) if o[0] == 'cc' else o for o in typed]
    V, F, V2, F2 = meshes(rng)
    rec.line(typed, V, F, V2, F2, rng, fmt, innm, ccname='other.' + fmt)


def reports(typed, rng, V, F):
    if rng.random() < .6:
        for k in ('i', 'quality', 'pi', 'si', 'list'):
            if rng.random() < .35:
                put(typed, (k, []), rng)
        if rng.random() < .5:
            put(typed, ('rho', [str(rng.choice(['1000', '7850.', '1', '998.2', 'STEEL', 'FRESH_WATER', 'SAND', 'ALUMINUM', 'CONCRETE']))]), rng)
        if rng.random() < .5:
            put(typed, ('thickness', [str(rng.choice(['0.01', '.05', '1']))]), rng)
    if rng.random() < .45:
        put(typed, ('hs', []), rng)
        r = rng.random()
        vol = abs(sum(np.dot(V[f[0]], np.cross(V[f[i]], V[f[i + 1]])) for f in F for i in (1, 2))) / 6.
        if r < .8:
            put(typed, ('zg', [num(rng.uniform(-.5, .1), rng)]), rng)
        if r < .35:
            put(typed, ('mdisp', [num(vol * float(rng.uniform(.2, .8)), rng)]), rng)
        if r > .7:
            put(typed, ('cog', [num(x, rng) for x in (*V.mean(axis=0)[:2], -.3)]), rng)
            if rng.random() < .5:
                put(typed, ('mdisp', [num(vol * float(rng.uniform(.3, .7)), rng)]), rng)
        if rng.random() < .4:
            put(typed, ('wd', [str(rng.choice(['1000', '1025.', '998.5']))]), rng)
        if rng.random() < .3:
            put(typed, ('g', ['9.80']), rng)
        if rng.random() < .3:
            put(typed, ('lpp', [num(rng.uniform(.5, 3.), rng)]), rng)
        if rng.random() < .25:
            put(typed, ('ap', []), rng)
        if rng.random() < .4:
            put(typed, ('report', [str(rng.choice(['rep.txt', 'hydro']))]), rng)
    if rng.random() < .2:
        put(typed, ('q', []), rng)


def some(rng, ks, p=.5):
    typed = []
    for k in rng.permutation(ks):
        k = str(k)
        n = 2 if k in REPEAT and rng.random() < .4 else 1
        for _ in range(n):
            if k in ('hm', 'hn', 'fn', 'tq'):
                typed.append((k, []))
            elif k == 'cc':
                typed.append((k, ['other']))
            elif k == 'md':
                typed.append((k, [] if rng.random() < .5 else nums(k, 1, rng)))
            elif k in ('mirror', 'sym', 'c', 'p'):
                r = rng.random()
                np_ = sum(o[0] == 'p' for o in typed)
                typed.append((k, [str(rng.choice(list(KEYS)))] if r < .4 else nums(k, 4, rng) if r < .7 or k == 'p' else
                              [] if r < .85 else [str(rng.integers(np_))] if np_ else [str(rng.choice(list(KEYS)))]))
            else:
                typed.append((k, nums(k, 3 if k in ('t', 'r') else 1, rng)))
    return typed


def rnd(rec, rng, k, scn, tier, how='in'):
    float_ = rng.random() < .6
    V, F, V2, F2 = meshes(rng, closed=float_)
    ks = list(rng.choice(STAGES + ['p', 'p'], size=int(rng.integers(0, 9)), replace=False))
    if float_:                                 # keep it a closed hull
        ks = [x for x in ks if x not in ('c', 'cc', 'sym', 'fn')]
    typed = some(rng, ks)
    if float_:
        reports(typed, rng, V, F)
    elif rng.random() < .3:
        put(typed, ('i', []), rng)
    rec.start(tag=' '.join(o[0] for o in typed))
    out = output(typed, rng) if rng.random() < .85 else None
    fmt, innm = infile(typed, rng, out)
    typed = [(o[0], ['other.' + fmt]) if o[0] == 'cc' else o for o in typed]
    rec.line(typed, V, F, V2, F2, rng, fmt, innm, how=how, ccname='other.' + fmt)


def sub(rec, rng, k, scn, tier):
    rnd(rec, rng, k, scn, tier, 'sub')


BAD = ['key', 'id', 'two', 'three', 'five', 'letters', 'noinput', 'ifmt', 'noext', 'ofmt', 'oext', 'onoext', 'readonly', 'nocc', 'zg', 'unknown', 'zero', 'count',
       'medium', 'planekey', 'md']


def bad(rec, rng, k, scn, tier):
    V, F, V2, F2 = meshes(rng)
    what = BAD[k % len(BAD)]
    typed = some(rng, list(rng.choice([s for s in STAGES if s not in ('c', 'hm', 'hn', 'cc')], size=int(rng.integers(0, 4)), replace=False)))
    exists, q = True, ['c', 'mirror', 'sym'][k // len(BAD) % 3]
    rec.start(tag='unusable: ' + what)
    if what in ('ofmt', 'oext', 'onoext', 'readonly'):
        if what == 'ofmt':
            typed += [('o', ['out.mar']), ('ofmt', [str(rng.choice(['xyz', 'step', 'MAR', 'txt']))])]
        elif what == 'oext':
            typed += [('o', ['out.' + str(rng.choice(['xyz', 'step', 'txt', 'dat']))])]
        elif what == 'onoext':
            typed += [('o', ['out'])]
        else:
            typed += [('o', ['out.' + str(rng.choice(['inp', 'msh', 'rad', 'med', 'wrl']))])]
        out = None
    else:
        out = output(typed, rng)
    fmt, innm = infile(typed, rng, out)
    if what == 'key':
        put(typed, (q, [str(rng.choice(['Oyx', 'oxy', 'xy', 'Oxyz', '//Oxy']))]), rng)
    elif what == 'planekey':
        put(typed, ('p', [str(rng.choice(['Oyx', '0', 'xy']))]), rng)
    elif what == 'id':
        for _ in range(int(rng.integers(0, 3))):
            put(typed, ('p', [str(rng.choice(list(KEYS)))]), rng)
        n = sum(o[0] == 'p' for o in typed)
        put(typed, (q, [str(int(n + rng.integers(0, 2)))]), rng)
    elif what in ('two', 'three', 'five'):
        n = dict(two=2, three=3, five=5)[what]
        put(typed, ('p' if k // len(BAD) % 4 == 3 else q, (nums('c', 4, rng) + ['1'])[:n]), rng)
    elif what == 'letters':
        t = str(rng.choice(['t', 'r', 'tx', 'rz', 's', 'sy', q, 'p']))
        a = nums(t if len(t) < 3 else 'c', 4 if t in (q, 'p') else 3 if t in 'tr' else 1, rng)
        a[int(rng.integers(len(a)))] = str(rng.choice(['a', '1,5', '2m', '0x1']))
        put(typed, (t, a), rng)
    elif what == 'count':
        t = str(rng.choice(['t', 'r', 'tx', 'sz']))
        typed.append((t, nums(t, 2 if t in 'tr' else 0, rng)))
    elif what == 'noinput':
        exists = False
    elif what == 'ifmt':
        typed.append(('ifmt', [str(rng.choice(['xyz', 'step', 'MAR']))]))
    elif what == 'noext':
        typed = [o for o in typed if o[0] != 'ifmt']
        innm = str(rng.choice(['ship', 'ship.xyz', 'ship.txt']))
    elif what == 'nocc':
        put(typed, ('cc', ['nothere.' + fmt]), rng)
    elif what == 'zg':
        put(typed, ('hs', []), rng)
        if rng.random() < .5:
            put(typed, ('mdisp', ['0.5']), rng)
    elif what == 'zero':
        put(typed, (str(rng.choice([q, 'p'])), ['0', '0', '0', '1']), rng)
    elif what == 'medium':
        put(typed, ('pi', []), rng)
        put(typed, ('rho', [str(rng.choice(['WOOD', 'steeel', 'x']))]), rng)
    elif what == 'md':
        put(typed, ('md', ['tiny']), rng)
    else:
        put(typed, ('unknown', []), rng)
    rec.line(typed, V, F, V2, F2, rng, fmt, innm, exists, use=False)
