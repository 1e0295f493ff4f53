"""Scenarios on the mesh files: layouts emitted by the specification are written to disk and loaded, meshes are written and read back."""
import os, re, shutil, tempfile
import numpy as np
import shapes
from rec import Rec
from vp import enc, encv, dec

ALIAS = {'mar': ['mar', 'nemoh'], 'gdf': ['gdf', 'wamit'], 'inp': ['inp', 'diodore-inp'], 'dat': ['diodore-dat'], 'hst': ['hst', 'hydrostar'],
         'nat': ['nat', 'natural'], 'msh2': ['msh', 'gmsh'], 'msh4': ['msh', 'gmsh'], 'rad': ['rad', 'radioss'], 'stl': ['stl'], 'vtu': ['vtu'],
         'vtp': ['vtp'], 'vtk': ['vtk', 'paraview-legacy'], 'tec': ['tec', 'tecplot'], 'med': ['med', 'salome'], 'wrl': ['wrl', 'vrml'],
         'nem': ['nem', 'nemoh_mesh'], 'pnl': ['pnl', 'hams'], 'obj': ['obj']}
WRITABLE = ['mar', 'gdf', 'dat', 'hst', 'nat', 'stl', 'vtu', 'vtp', 'vtk', 'tec', 'nem', 'pnl', 'obj']
CUTS = ['nat', 'nem', 'mar', 'gdf', 'tec', 'pnl', 'vtk', 'vtu', 'vtp', 'stl', 'hst', 'dat']
NAMES = sum((ALIAS[f] for f in ALIAS if f != 'msh4'), [])
SEP = re.compile(r'[\s=,"{}]+')
SEPW = re.compile(r'[\s=,"]+')                  # VRML: the braces count
INT = re.compile(r'[+-]?\d+$')


def token(w):
    if INT.match(w) and abs(int(w)) < 2 ** 31:
        return {'k': 'i', 'i': int(w)}
    if any(c.isdigit() for c in w):
        try:
            return {'k': 'x', 'x': enc(float(w))}
        except ValueError:
            pass
    return {'k': 'w', 's': w}


def tokenize(text, fmt=''):
    out = []
    for line in text.splitlines():
        if fmt == 'rad':
            line = re.sub(r'(?<=\w)/', ' ', line)
        if fmt in ('vtu', 'vtp'):
            line = re.sub(r'([<>\[\]])', r' \1 ', line)
        if fmt == 'wrl':
            line = re.sub(r'([{}\[\]])', r' \1 ', line)
        out.append([token(w) for w in (SEPW if fmt == 'wrl' else SEP).split(line) if w])
    return out


# ---------------------------------------------------------------- rendering
VTKS = ['%r', '%.6f', '%.8E', '%.3e', '%.12f', 'fort', 'e1', 'e3']        # numerals the VTK library reads
POINT = VTKS + ['%+.5f', 'bare', 'lead']


def numeral(x, style, integral):
    if integral and x == int(x) and style in ('bare', '%r'):
        return '%d' % x
    if style == 'fort':                       # 0.1234E+02
        if x == 0:
            return '0.0000000E+00'
        e = int(np.floor(np.log10(abs(x)))) + 1
        return '%.9fE%+03d' % (x / 10. ** e, e)
    if style in ('e1', 'e3'):                 # 1.25E0, 1.25e-2 or 1.25E-002
        m, e = ('%.7E' % x).split('E')
        return m + 'E' + ('%d' if style == 'e1' else '%+04d') % int(e)
    if style == 'bare':                       # 5. or 2.5
        t = '%.7f' % x
        t = t.rstrip('0')
        return '0.' if t == '-0.' else t
    if style == 'lead':                       # .5
        t = '%.6f' % x
        return t.replace('0.', '.', 1) if t.startswith('0.') or t.startswith('-0.') else t
    if style == '%r':
        t = repr(float(x))
        return t if '.' in t else '%.1f' % x if abs(x) > 1 else '%.10f' % x
    return style % x


def render(lines, fmt, rng, scale):
    styles = VTKS if fmt in ('vtk', 'vtu', 'vtp', 'obj', 'stl', 'wrl') else POINT
    style = styles[rng.integers(len(styles))]
    mixed = rng.random() < .3
    integral = fmt in ('nat', 'nem', 'mar', 'gdf', 'dat', 'msh2', 'msh4', 'vtk', 'pnl') and rng.random() < .4
    plain = fmt in ('msh2', 'msh4')
    sep = ' ' if plain else ['  ', ' ', '     '][rng.integers(3)]
    if not plain and fmt != 'inp.dat' and rng.random() < .15:
        sep = '\t'
    ind = '' if plain else '  ' if fmt == 'inp.dat' else ['', ' ', '     '][rng.integers(3)]
    trail = '' if plain else ['', '', ' '][rng.integers(3)]
    nl = '\r\n' if rng.random() < .1 and not plain else '\n'
    out = []
    for line in lines:
        s, glue, first = '', True, True
        for t in line:
            if t['k'] == 'g':
                s += t['s']
                glue = True
                continue
            w = t['s'] if t['k'] == 'w' else '%d' % t['i'] if t['k'] == 'i' else \
                numeral(dec(t['x']) * scale, styles[rng.integers(len(styles))] if mixed else style, integral)
            if t['k'] == 'w':
                s += (' ' if not glue else '') + w
            else:
                s += (ind if first else '' if glue else sep) + w
            glue, first = t['k'] == 'w' and w == '<', False
        out.append(s + (trail if s and line and line[-1]['k'] != 'w' else ''))
    return nl.join(out) + nl


def recorder(sp):
    return FmtRec()


def plain_mesh(r):
    if r is None:
        return [], []
    V, F = r
    try:
        return [encv(p) for p in np.asarray(V, float)], [[int(i) for i in f] for f in np.asarray(F)]
    except Exception:
        return [], [[-1]]


class FmtRec(Rec):
    def load(self, scn, rng):
        from meshmagick import mmio
        fmt, cut = scn['fmt'], scn['cut']
        d = tempfile.mkdtemp(prefix='fmt', dir=os.getcwd())
        try:
            scale = float(rng.choice([1., 1., .37, 1e-3, 250., 12345.678]))
            files = {'Buoy1': []}
            path = os.path.join(d, ['ship', 'Hull mesh', 'NODE', 'a.b'][rng.integers(4)] + '.' + fmt)
            if fmt == 'med':
                import h5py
                lines = [[t if t['k'] != 'x' else {'k': 'x', 'x': enc(dec(t['x']) * scale)} for t in ln] for ln in scn['lines']]
                base = 'ENS_MAA/%s/-0000000000000000001-0000000000000000001/' % ['ship', 'Mesh_1'][rng.integers(2)]
                with h5py.File(path, 'w') as f:
                    for ln in lines:
                        if ln[0]['s'] == 'COO':
                            f[base + 'NOE/COO'] = np.array([dec(t['x']) for t in ln[1:]])
                            f[base + 'NOE/NUM'] = np.arange(1, len(ln) // 3 + 1)
                        else:
                            f[base + 'MAI/%s/NOD' % ln[0]['s']] = np.array([t['i'] for t in ln[1:]], dtype=np.int32 if rng.random() < .5 else int)
            else:
                text = render(scn['lines'], fmt, rng, scale)
                with open(path, 'w', newline='') as f:
                    f.write(text)
                lines = tokenize(text, fmt)
                if fmt == 'inp':
                    for b in scn['files']:
                        t = render(scn['files'][b], 'inp.dat', rng, scale)
                        files[b] = tokenize(t)
                        with open(os.path.join(d, b + '.DAT'), 'w') as f:
                            f.write(t)
            r, exc = self.call(lambda: mmio.load_mesh(path, str(rng.choice(ALIAS[fmt]))), 20)
            V, F = plain_mesh(r)
            self.log('load', exc, fmt=fmt, cut=cut, dmg=scn.get('dmg', ''), lines=lines, files=files, V=V, F=F)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def rt(self, V, F, fmt, rng, sub=None):
        from meshmagick import mmio
        d = tempfile.mkdtemp(prefix='fmt', dir=os.getcwd())
        V, F = np.array(V, float), np.array(F, int)
        if rng.random() < .3:
            V, F = np.asfortranarray(V), np.asfortranarray(F)
        b = (V.tobytes(), F.tobytes())
        gV, gF = V.copy(), F.copy()
        path = os.path.join(d, ['ship', 'Hull', 'a_1'][rng.integers(3)] + ('.DAT' if fmt == 'dat' else '.' + fmt))
        name = lambda: str(rng.choice(ALIAS[fmt]))
        try:
            if rng.random() < .2:                      # an older, longer file of that name
                with open(path, 'w') as f:
                    f.write('1 2 3 4\n' * 5000)
            _, wexc = self.call(lambda: mmio.write_mesh(path, V, F, name()), 60)
            chg = [n for n, x, y in (('V', V, b[0]), ('F', F, b[1])) if x.tobytes() != y]
            try:
                text = open(path).read()
            except OSError as e:
                text, wexc = '', wexc or 'no file: ' + str(e)
            r, exc = (None, '') if wexc else self.call(lambda: mmio.load_mesh(path, name()), 60)
            if sub is None and not wexc and fmt in CUTS and rng.random() < .6:      # the file, cut
                self.cut(text, fmt, d, rng)
            if sub is None:
                V2, F2 = plain_mesh(r)
                self.log('rt', exc, wexc=wexc, fmt=fmt, chg=chg, gV=[encv(p) for p in gV], gF=gF.tolist(), lines=tokenize(text, fmt), V2=V2, F2=F2)
            else:
                sv, sf = sub
                ok = r is not None and exc == '' and np.shape(r[0])[0] == len(gV) and np.shape(r[1])[0] == len(gF)
                self.log('big', exc, wexc=wexc, fmt=fmt, nv=len(gV), nf=len(gF), nv2=-1 if r is None else int(np.shape(r[0])[0]), nf2=-1 if r is None else int(np.shape(r[1])[0]),
                         lines=tokenize('\n'.join(text.splitlines()[:9]), fmt), gV=[encv(p) for p in gV[sv]], gF=gF[sf].tolist(),
                         V2=[encv(p) for p in r[0][sv]] if ok else [], F2=np.asarray(r[1])[sf].tolist() if ok else [])
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def cut(self, text, fmt, d, rng):
        from meshmagick import mmio
        lines = text.splitlines(True)
        n = int(rng.integers(1, len(lines))) if rng.random() < .6 else max(1, len(lines) - int(rng.integers(1, 6)))
        part = ''.join(lines[:n])
        if rng.random() < .5:                         # in the middle of a line
            part = part[:len(part) - int(rng.integers(1, len(lines[n - 1]) + 1))]
        path = os.path.join(d, 'cut.' + fmt)
        with open(path, 'w') as f:
            f.write(part)
        r, exc = self.call(lambda: mmio.load_mesh(path, str(rng.choice(ALIAS[fmt]))), 20)
        V, F = plain_mesh(r)
        self.log('load', exc, fmt=fmt, cut=1, dmg='', lines=tokenize(part, fmt), files={'Buoy1': []}, V=V, F=F)

    def refuse(self, what, name, exists=True):
        from meshmagick import mmio
        d = tempfile.mkdtemp(prefix='fmt', dir=os.getcwd())
        path = os.path.join(d, 'ship.' + name)
        V, F = shapes.box()
        try:
            res = None
            if what == 'load':
                if exists:
                    with open(path, 'w') as f:
                        f.write('2 0\n')
                _, exc = self.call(lambda: mmio.load_mesh(path, name))
            elif what == 'write':
                _, exc = self.call(lambda: mmio.write_mesh(path, V, F, name))
            else:
                res, exc = self.call(lambda: bool(mmio.know_extension(name)))
            left = what == 'write' and os.path.exists(path)
            self.log('refuse', exc.split(':')[0], what=what, name=name, exists=exists, left=left, r=bool(res))
        finally:
            shutil.rmtree(d, ignore_errors=True)


def enum(rec, rng, k, scn, tier):
    rec.start(tag='%s cut %d %s' % (scn['fmt'], scn['cut'], scn['dmg']))
    rec.load(scn, rng)


def a_mesh(rng):
    r = rng.random()
    if r < .12:
        V, F = np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0.]]), np.array([[0, 1, 2, 3]])
        if rng.random() < .5:
            V, F = V[:3], np.array([[0, 1, 2, 0]])
    elif r < .25:
        V, F = shapes.grid(int(rng.integers(1, 3)), int(rng.integers(1, 3)))
        F = np.array(shapes.triangulate(F, rng, .5))
    elif r < .7:
        V, F = shapes.closed_shape(rng)
    else:
        V, F = shapes.open_shape(rng)
    V, F = shapes.dress(V, F, rng, tri=rng.choice([0., .4, 1.]))
    V = np.array(V, float)
    V *= 10. ** rng.choice([0, 0, 1, -2, 2, 4])
    if rng.random() < .3:
        V += rng.normal(size=3) * 10. ** rng.uniform(0, 3)
    if rng.random() < .3 and abs(V).max() < 1e3 and np.ptp(V, axis=0).min() > 5:
        V = np.round(V, 1)
    if rng.random() < .15:                     # what an almost exact operation leaves of a zero
        k = rng.integers(len(V))
        V[k, rng.integers(3)] = rng.choice([-1, 1]) * 10. ** rng.uniform(-250, -18)
    if rng.random() < .25:                     # a vertex at the origin
        V = V - V[rng.integers(len(V))]
    F = np.array(F, int)
    if rng.random() < .2:                      # vertices that no face uses
        V = np.vstack([V, V[:2] + rng.normal(size=(min(2, len(V)), 3))])[:len(V) + int(rng.integers(1, 3))]
    if rng.random() < .25:                     # flat faces: aligned or coincident corners
        i, j = (int(x) for x in rng.choice(len(V), 2, replace=False))
        n = len(V)
        V = np.vstack([V, [(V[i] + V[j]) / 2, V[i], V[j] + 1e-12]])
        some = [[i, n, j, i], [i, n + 1, j, i], [i, j, n + 2, n + 1], [i, j, n + 2, i], [j, n + 2, i, n]]
        F = np.vstack([F, [some[x] for x in rng.choice(5, int(rng.integers(1, 4)), replace=False)]])
        F = F[rng.permutation(len(F))]
    m = abs(V).max()
    if m > 2e6:
        V *= 2e6 / m
    return V, np.array(F, int)


def rt(rec, rng, k, scn, tier):
    V, F = a_mesh(rng)
    if len(F) > 40:
        F = F[rng.permutation(len(F))[:40]]
    fmt = WRITABLE[k % len(WRITABLE)]
    rec.start(tag=fmt)
    rec.rt(V, F, fmt, rng)


def refuse(rec, rng, k, scn, tier):
    rec.start(tag='refusals')
    unknown = ['xyz', 'MAR', 'Gdf', 'step', 'txt', 'mar ', 'ply', 'vtx', 'stll', 'dat', 'DAT']
    names = [str(x) for x in rng.permutation(NAMES)[:6]] if tier == 'quick' else NAMES
    for n in names:
        rec.refuse('load', n, False)
        rec.refuse('known', n)
    for n in ('inp', 'diodore-inp', 'msh', 'gmsh', 'rad', 'radioss', 'med', 'salome', 'wrl', 'vrml'):
        rec.refuse('write', n)
    for n in rng.permutation(unknown)[:4]:
        n = str(n)
        rec.refuse('known', n)
        rec.refuse('write', n)
        rec.refuse('load', n, True)
        rec.refuse('load', n, False)


BIG = ['nat', 'nem', 'mar', 'pnl', 'gdf', 'tec', 'hst', 'dat']


def big(rec, rng, k, scn, tier):
    fmt = BIG[k % len(BIG)]
    rec.start(tag='large ' + fmt)
    n, m = (335, 300) if rng.random() < .5 else (340, 296)
    V, F = shapes.grid(n, m, 100., 90., .3)
    V, F = V[:, [0, 1, 2]], np.array(F, int)
    sv = np.unique(np.r_[0, 9999, 99998, 99999, len(V) - 1, rng.integers(0, len(V), 4)])
    sf = np.unique(np.r_[0, 9999, 99998, 99999, len(F) - 1, rng.integers(0, len(F), 4)])
    rec.rt(V, F, fmt, rng, (sv, sf))
