"""Scenarios on hydrostatics and equilibria."""
import re, warnings, math, io, contextlib
import numpy as np
import shapes
from rec import Rec, bits, mesh_json
from vp import enc, encv, encm


def recorder(sp):
    return HydroRec()


def rot(rng, amp):
    a = rng.normal(size=3)
    a /= np.linalg.norm(a)
    t = rng.uniform(0, amp)
    K = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    return np.eye(3) + np.sin(t) * K + (1 - np.cos(t)) * K @ K


class HydroRec(Rec):
    def start(self, **tag):
        super().start(**tag)
        self.arr = {}
        self.data = {}

    def mesh(self, m, V, F):
        from meshmagick.mesh import Mesh
        V, F = np.array(V, float), np.array(F, int)

        def f():
            self.regs[m] = Mesh(V, F)
            return mesh_json(self.regs[m])
        r, exc = self.call(f)
        if m in self.regs:
            self.snap[m] = bits(self.regs[m])
        self.log('mesh', exc, m=m, post=r or {'V': [], 'F': []})
        return exc == ''

    def keep(self, **arrays):
        self.arr = {k: (a, np.array(a).tobytes()) for k, a in arrays.items() if isinstance(a, np.ndarray)}

    def chg(self):
        c = [k for k, m in self.regs.items() if bits(m) != self.snap[k]]
        return c + [k for k, (a, b) in self.arr.items() if a.tobytes() != b]

    def guarded(self, f, sec=60):
        box = {}

        def g():
            try:
                with warnings.catch_warnings(record=True) as ws:
                    warnings.simplefilter('always')
                    so = io.StringIO()
                    with contextlib.redirect_stdout(so):
                        box['r'] = f()
                    box['warn'] = bool([w for w in ws if 'displacement' in str(w.message).lower()]) or 'No convergence' in so.getvalue()
            except Exception as e:
                box['e'] = e
        _, exc = self.call(g, sec)
        e = box.get('e')
        return box, dict(exct=type(e).__name__ if e is not None else exc, exca=[a for a in getattr(e, 'args', ()) if isinstance(a, str)],
                         exc=exc or ('' if e is None else repr(e)[:150]))

    def hydro(self, m, cog, rho, g, R=None, z=None, atcog=None, lpp=None, orig=None, name='d'):
        import meshmagick.hydrostatics as hs
        cog = np.array(cog, float)
        a = {}
        if R is not None:
            R = np.array(R, float)
            a['rotmat_corr'] = R
        if z is not None:
            a['z_corr'] = z
        if atcog is not None:
            a['at_cog'] = atcog
        if lpp is not None:
            a['lpp'] = lpp
        if orig is not None:
            a['orig_at_ap'] = orig
        self.keep(cog=cog, **({} if R is None else {'R': R}))
        ecog = encv(cog)
        box, ex = self.guarded(lambda: hs.compute_hydrostatics(self.regs[m], cog, rho, g, **a))
        out = {}
        if 'r' in box:
            h = box['r']
            self.data[name] = h
            out = dict(v=enc(h['disp_volume']), mass=enc(h['disp_mass']), wet=enc(h['wet_surface_area']), b=encv(h['buoyancy_center']),
                       A=enc(h['waterplane_area']), f=encv(h['waterplane_center']), lwl=enc(h['length_at_waterline']),
                       bwl=enc(h['breadth_at_waterline']), breadth=enc(h['breadth']), los=enc(h['length_overall_submerged']),
                       bos=enc(h['breadth_overall_submerged']), draught=enc(h['draught']), fp=enc(h['forward_perpendicular']),
                       lpp=enc(h['length_between_perpendiculars']), trust=bool(h['trust_lpp']),
                       bm=enc(h['transversal_metacentric_radius']), bl=enc(h['longitudinal_metacentric_radius']),
                       gm=enc(h['transversal_metacentric_height']), gl=enc(h['longitudinal_metacentric_height']),
                       K=encm(h['stiffness_matrix']), I=encm([[h['Ixx'], -h['Ixy'], -h['Ixz']], [-h['Ixy'], h['Iyy'], -h['Iyz']],
                                                             [-h['Ixz'], -h['Iyz'], h['Izz']]]),
                       grav=enc(h['grav']), rho=enc(h['rho_water']), z=enc(h['z_eq']), R=encm(h['rotmat_eq']), cog=encv(h['cog']),
                       same=bool(bits(h['mesh'])[2:] == bits(self.regs[m])[2:]))
        exc = ex.pop('exc')
        self.log('hydro', exc, m=m, cog=ecog, rho=enc(rho), grav=enc(g), R=encm(np.eye(3) if R is None else R), z=enc(z or 0.),
                 atcog=bool(atcog), haslpp=lpp is not None, lpp=enc(lpp or 0.), orig=bool(orig), out=out, chg=self.chg(), **ex)
        return 'r' in box

    def disp(self, m, tons, rho, g, reltol=None, cog=None):
        import meshmagick.hydrostatics as hs
        a = {}
        if reltol is not None:
            a['reltol'] = reltol
        if cog is not None:
            cog = np.array(cog, float)
            a['cog'] = cog
        if self.talks():
            a['verbose'] = True
        self.keep(**({} if cog is None else {'cog': cog}))
        box, ex = self.guarded(lambda: float(hs.displacement_equilibrium(self.regs[m], tons, rho, g, **a)))
        exc = ex.pop('exc')
        self.log('disp', exc, m=m, disp=enc(tons), rho=enc(rho), grav=enc(g), reltol=enc(1e-6 if reltol is None else reltol),
                 z=enc(box.get('r', 0.)), warn=bool(box.get('warn', False)), chg=self.chg(), **ex)
        return box.get('r')

    def full(self, m, cog, tons, rho, g, reltol=None, dom=False, path=()):
        import meshmagick.hydrostatics as hs
        cog = np.array(cog, float)
        self.keep(cog=cog)
        ecog = encv(cog)
        a = {} if reltol is None else {'reltol': reltol}
        if self.talks():
            a['verbose'] = True
        box, ex = self.guarded(lambda: hs.full_equilibrium(self.regs[m], cog, tons, rho, g, **a))
        exc = ex.pop('exc')
        z, R = box.get('r', (0., np.eye(3)))
        self.log('full', exc, m=m, cog=ecog, disp=enc(tons), rho=enc(rho), grav=enc(g), reltol=enc(1e-6 if reltol is None else reltol),
                 z=enc(z), R=encm(R), dom=bool(dom), path=[dict(t=enc(t), R=encm(Q), z=enc(y)) for t, Q, y in path], warn=bool(box.get('warn', False)), chg=self.chg(), **ex)
        return box.get('r')

    def report(self, name='d'):
        import meshmagick.hydrostatics as hs
        h = self.data[name]
        txt, exc = self.call(lambda: hs.get_hydrostatic_report(h))
        D = math.degrees
        R = np.array(h['rotmat_eq'])
        gim = abs(R[2, 0]) > .999
        want = [('Z correction (M)', h['z_eq'], 3),
                ('Gravity acceleration (M/S**2)', h['grav'], 2), ('Density of water (kg/M**3)', h['rho_water'], 1),
                ('Waterplane area (M**2)', h['waterplane_area'], 1), ('Waterplane center (M)', h['waterplane_center'], 3),
                ('Wetted Surface Area (M**2)', h['wet_surface_area'], 1), ('Displacement volume (M**3)', h['disp_volume'], 3),
                ('Displacement mass (tons)', h['disp_mass'] / 1000., 3), ('Buoyancy center (M)', h['buoyancy_center'], 3),
                ('Center of gravity (M)', h['cog'], 3), ('Draft (M)', h['draught'], 3),
                ('Length overall submerged (M)', h['length_overall_submerged'], 2), ('Breadth overall submerged (M)', h['breadth_overall_submerged'], 2),
                ('Length at Waterline LWL (M)', h['length_at_waterline'], 2), ('Forward perpendicular FP (M)', h['forward_perpendicular'], 2),
                ('Length between perpendiculars Lpp (M)', h['length_between_perpendiculars'], 2),
                ('Transversal metacentric radius (M)', h['transversal_metacentric_radius'], 3),
                ('Longitudinal metacentric radius (M)', h['longitudinal_metacentric_radius'], 3),
                ('Transversal metacentric height GMt (M)', h['transversal_metacentric_height'], 3),
                ('Longitudinal metacentric height GMl (M)', h['longitudinal_metacentric_height'], 3)]
        K = h['stiffness_matrix']
        for n, i, j in (('K33 (N/M)', 0, 0), ('K34 (N)', 0, 1), ('K35 (N)', 0, 2), ('K44 (N.M)', 1, 1), ('K45 (N.M)', 1, 2), ('K55 (N.M)', 2, 2)):
            want.append((n, K[i, j], 'E4'))
        if not gim:
            want.append(('Heel correction (deg)', D(math.atan2(R[2, 1], R[2, 2])), 3))
            want.append(('Trim correction (deg)', D(math.asin(max(-1., min(1., -R[2, 0])))), 3))
        lines = []
        got = {}
        for ln in (txt or '').splitlines():
            mm = re.match(r'\s*(?:\[2\] )?(.*?)-+>\s+(.*)$', ln)
            if mm:
                got.setdefault(mm.group(1).strip().upper(), []).append(mm.group(2).split())
        # the last Ixx, Iyy, Izz are those of the immersed hull
        for n in ('Ixx', 'Iyy', 'Izz'):
            want.append((n, h[n], 'E3'))
        n = 0
        for lab, val, prec in want:
            key = re.sub(r'^\[2\] ', '', lab).upper()
            vals = np.atleast_1d(np.asarray(val, float))
            shown = got.get(key, [[]])[-1]
            n += len(vals)
            for v, s in zip(vals, shown):
                half = .5 * 10. ** -prec * 1.0001 if not isinstance(prec, str) else .5 * 10. ** -int(prec[1]) * max(abs(v), 1e-300) * 10
                try:
                    lines.append(dict(label=lab, shown=enc(float(s)), value=enc(v), half=enc(half + 1e-15 * abs(v))))
                except ValueError:
                    pass
        self.log('report', exc, lines=lines, expected=n)

    def poke(self, name, m):
        """write into everything a result holds: the inputs must not move, nor the defaults of the next call"""
        h = self.data[name]

        def f():
            h['rotmat_eq'][:] = 7.
            h['cog'][:] = 3.
            h['mesh'].vertices[:] = 0.
            h['mesh'].translate([1, 1, 1])
            for k in ('buoyancy_center', 'waterplane_center', 'stiffness_matrix'):
                h[k][:] = -1.
        self.call(f)
        self.log('poke', '', m=m, chg=self.chg())


def hull(rng):
    r = rng.random()
    if r < .25:
        V, F = shapes.manifold_voxels(rng, int(rng.integers(2, 7)))
        V = V * rng.uniform(.5, 3, 3)
    elif r < .85:
        V, F = shapes.closed_shape(rng)
    else:
        V1, F1 = shapes.closed_shape(rng)
        V2, F2 = shapes.closed_shape(rng)
        V = np.vstack([V1, V2 + [0, 9., 0]])
        F = np.vstack([F1, np.array(F2) + len(V1)])
    V, F = shapes.dress(V, F, rng, shear=bool(rng.random() < .4))
    return V * float(rng.choice([1., 1., 5., 20.])), F


def setting(rng, V):
    R = None if rng.random() < .25 else rot(rng, rng.choice([.1, .6, np.pi]))
    W = V if R is None else V @ R.T
    zmin, zmax = W[:, 2].min(), W[:, 2].max()
    r = rng.random()
    if r < .8:
        z = -float(rng.uniform(zmin, zmax))
    elif r < .9:
        z = -float(W[rng.integers(len(W)), 2])
    else:
        z = -float(zmin - .3 if rng.random() < .5 else zmax + .3)
    return R, z, zmax - zmin


def physics(rng):
    return float(rng.choice([1., 1000., 1025.])), float(rng.choice([9.81, 1., 9.80665]))


def rnd(rec, rng, k, scn, tier):
    V, F = hull(rng)
    rec.start(tag='hull')
    if rng.random() < .06:
        F = F[:-1]
    R, z, H = setting(rng, V)
    if R is None and rng.random() < .3:
        V = V + [0, 0, z]
        z = None
    if not rec.mesh('A', V, F):
        return
    for i in range(int(rng.integers(1, 4))):
        rho, g = physics(rng)
        kw = {}
        r = rng.random()
        if r < .2:
            kw['lpp'] = float(rng.uniform(1, 30))
        elif r < .4:
            kw['orig'] = True
        if rng.random() < .6:
            kw['atcog'] = bool(rng.random() < .7)
        cog = rng.normal(size=3) * H * rng.choice([.2, 1.])
        if rec.hydro('A', cog, rho, g, R=R, z=z, **kw):
            if rng.random() < .4:
                rec.report()
            if rng.random() < .3:
                rec.poke('d', 'A')
                if rng.random() < .5:
                    rec.hydro('A', cog, rho, g, z=z, **kw)
        if rng.random() < .5:
            R, z, H = setting(rng, V)


def disp(rec, rng, k, scn, tier):
    r = rng.random()
    if r < .4:
        V, F = hull(rng)
    elif r < .6:
        V, F = shapes.lathe(rng)
        F = shapes.rotate_corners(F, rng)
    elif r < .8:       # cones, wedges and hourglasses: waterplanes growing and shrinking quickly
        n, m = int(rng.integers(3, 7)), int(rng.integers(1, 4))
        V, F = shapes.cylinder_like(n, m)
        s = rng.uniform(.05, 2., m + 1)
        for i in range(m + 1):
            V[i * n:(i + 1) * n, :2] *= s[i]
        F = shapes.rotate_corners(F, rng)
    else:
        V, F = [shapes.tetra, shapes.pyramid, shapes.octa][rng.integers(3)]()
        if rng.random() < .5:
            V = V * [1, -1, -1]
        V = V * rng.uniform(.5, 4, 3)
    V = np.array(V, float)
    H = V[:, 2].max() - V[:, 2].min()
    V = V - [0, 0, V[:, 2].min() + H * rng.uniform(.03, .97)]
    rec.start(tag='hull')
    x = rng.random()
    if x < .05:
        V = V + [0, 0, 2 * H]
    elif x < .18:
        V = V - [0, 0, H * rng.choice([1.5, 2., 6.])]
    if not rec.mesh('A', V, F):
        return
    T = shapes.triangulate(F, None)
    vol = np.einsum('ij,ij->i', V[T[:, 0]], np.cross(V[T[:, 1]], V[T[:, 2]])).sum() / 6
    rho, g = physics(rng)
    for _ in range(int(rng.integers(1, 3))):
        frac = float(rng.choice([rng.uniform(.02, .98), rng.uniform(.02, .1), rng.uniform(.9, .98), 1.2]))
        rec.disp('A', rho * vol * frac / 1000., rho, g, reltol=None if rng.random() < .5 else float(rng.choice([1e-2, 1e-4, 1e-6, 1e-8])),
                 cog=None if rng.random() < .5 else rng.normal(size=3))


def barge(rng):
    r = rng.random()
    if r < .3:
        V, F = shapes.box(*rng.uniform(3, 6, 2), rng.uniform(.8, 1.6))
    elif r < .6:
        V, F = shapes.prism(int(rng.integers(4, 9)), h=rng.uniform(.8, 1.4), r=rng.uniform(2.2, 4), squash=rng.uniform(.8, 1.))
    elif r < .8:
        V, F = shapes.cylinder_like(int(rng.integers(4, 8)), int(rng.integers(1, 4)), r=rng.uniform(2, 3), h=rng.uniform(.8, 1.4))
    else:               # two floats
        V1, F1 = shapes.box(rng.uniform(3, 6), 1., 1.)
        V2, F2 = shapes.box(rng.uniform(3, 6), 1., 1.)
        V = np.vstack([V1, V2 + [rng.uniform(-.3, .3), rng.uniform(3, 5), 0]])
        F = np.vstack([F1, np.array(F2) + len(V1)])
    return np.array(V, float), F


def under(V, T):
    """volume and first moments of the part below z = 0, by clipping triangles"""
    v, m = 0., np.zeros(3)
    for t in T:
        p = V[t]
        if (p[:, 2] >= 0).all():
            continue
        q = []
        for i in range(3):
            a, b = p[i], p[(i + 1) % 3]
            if a[2] < 0:
                q.append(a)
            if (a[2] < 0) != (b[2] < 0):
                q.append(a + (b - a) * (a[2] / (a[2] - b[2])))
        for i in range(1, len(q) - 1):
            d = q[0] @ np.cross(q[i], q[i + 1]) / 6
            v += d
            m += d * (q[0] + q[i] + q[i + 1]) / 4
    return v, m


def heel_path(V, T, cog, vol, n):
    """A chain of equilibria, from the upright one (centre of gravity brought over the centre of buoyancy) to the one wanted.
    It is only a witness: the specification verifies that each is an equilibrium, clearly stable, and close to the one before."""
    T = np.array([t[:3] for t in T])

    def res(R, z, t, b0):
        v, m = under(V @ R.T + [0, 0, z], T)
        if v <= 0:
            raise ArithmeticError
        g = R @ [*(b0 + t * (cog[:2] - b0)), cog[2]]
        return np.array([v / vol - 1, *((m / v - g)[:2])])

    def turn(r):
        a = np.linalg.norm(r)
        if a == 0:
            return np.eye(3)
        x, y = r / a
        K = np.array([[0, 0, y], [0, 0, -x], [-y, x, 0]])
        return np.eye(3) + np.sin(a) * K + (1 - np.cos(a)) * K @ K
    try:
        lo, hi = -V[:, 2].max(), -V[:, 2].min()
        for _ in range(60):
            z = (lo + hi) / 2
            if under(V + [0, 0, z], T)[0] > vol:
                lo = z
            else:
                hi = z
        v, m = under(V + [0, 0, z], T)
        b0 = (m / v)[:2]
        R, out = np.eye(3), []
        for t in np.linspace(0, 1, n + 1)[1:]:
            R0 = R
            for _ in range(25):
                r = res(R, z, t, b0)
                if np.abs(r).max() < 1e-7:
                    break
                J = np.empty((3, 3))
                h = 1e-5
                J[:, 0] = (res(R, z + h, t, b0) - r) / h
                J[:, 1] = (res(turn(np.array([h, 0])) @ R, z, t, b0) - r) / h
                J[:, 2] = (res(turn(np.array([0, h])) @ R, z, t, b0) - r) / h
                d = np.linalg.solve(J, -r)
                a = np.linalg.norm(d[1:])
                if a > .03:
                    d *= .03 / a
                z += d[0]
                R = turn(d[1:]) @ R
                u, _, w = np.linalg.svd(R)
                R = u @ w
            else:
                return []
            if np.trace(R @ R0.T) < 1 + 2 * np.cos(np.radians(7.)):
                return []
            out.append((float(t), R, float(z)))
        return out
    except (ArithmeticError, np.linalg.LinAlgError):
        return []


def full(rec, rng, k, scn, tier):
    V, F = barge(rng)
    F = shapes.rotate_corners(shapes.triangulate(F, rng, float(rng.choice([0., .5]))), rng)
    H = V[:, 2].max()
    mid = V.mean(axis=0)
    draft = float(rng.uniform(.35, .6)) * H
    V = V - [mid[0], mid[1], draft]
    c = np.cos(a := rng.uniform(0, 2 * np.pi))
    V = V @ np.array([[c, np.sin(a), 0], [-np.sin(a), c, 0], [0, 0, 1.]])
    s = float(rng.choice([1., 1., 10.]))
    V = V * s
    off = np.array([*rng.uniform(-1, 1, 2), 0]) * s * float(rng.choice([0., 0., 1., 3.]))
    V = V + off
    V, F = shapes.renumber(V, F, rng)
    rec.start(tag='barge')
    if not rec.mesh('A', V, F):
        return
    T = shapes.triangulate(F, None)
    vol = np.einsum('ij,ij->i', V[T[:, 0]], np.cross(V[T[:, 1]], V[T[:, 2]])).sum() / 6
    rho, g = physics(rng)
    frac = float(rng.uniform(.35, .6))
    tons = rho * vol * frac / 1000.
    B = min(np.ptp(V[:, 0]), np.ptp(V[:, 1]))
    wide = .02 if rng.random() < .5 else float(rng.choice([.05, .1, .15, .2]))      # from nearly upright to heeled by tens of degrees
    cog = off + np.array([*(rng.uniform(-1, 1, 2) * wide * B), -s * rng.uniform(0, .1 if wide < .03 else .4)])
    path = heel_path(V, T, cog, vol * frac, 1 if wide < .03 else 5 if wide < .12 else 10)
    rt = None if rng.random() < .5 else float(rng.choice([1e-3, 1e-5, 1e-6]))
    rec.disp('A', tons, rho, g, reltol=rt)
    r = rec.full('A', cog, tons, rho, g, reltol=rt, dom=True, path=path)
    if r is not None and rng.random() < .5:
        z, R = r
        if rec.hydro('A', cog, rho, g, R=R, z=float(z), atcog=True) and rng.random() < .5:
            rec.report()
    if rng.random() < .2:
        rec.full('A', cog, tons, rho, g, reltol=rt, dom=True, path=path)
