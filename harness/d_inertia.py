"""Scenarios on rigid body inertias and closed-form solids."""
import inspect
import numpy as np
import shapes
from rec import Rec
from vp import enc, encv, encm

NARG = {'right_circular_cylinder': 2, 'hollow_right_circular_cylinder': 3, 'right_circular_cone': 2, 'sphere': 1, 'hollow_sphere': 2, 'hemisphere': 1,
        'elliptical_cylinder': 3, 'ellipsoid': 3, 'torus': 2, 'right_angle_wedge': 3, 'isoceles_wedge': 3, 'right_rectangular_pyramid': 3, 'cube': 1,
        'rectangular_prism': 3, 'circular_cone_shell': 2, 'frustrum_of_circular_cone_shell': 3, 'lateral_cylindrical_shell': 2,
        'total_cylindrical_shell': 2, 'spherical_shell': 1, 'hemispherical_shell': 1}


def recorder(sp):
    return InRec()


class InRec(Rec):
    def start(self, **tag):
        super().start(**tag)
        self.ob = {}
        self.n = 0

    def see(self, k):
        x = self.ob[k]
        return dict(k=k, m=enc(x.mass), cog=encv(x.gravity_center), p=encv(x.reduction_point), i=encm(np.array(x.inertia_matrix)),
                    f=[enc(v) for v in (x.xx, x.yy, x.zz, x.yz, x.xz, x.xy)], at=bool(x.is_at_cog()))

    def op(self, op, k, j=None, arrays=(), all_=True, **kw):
        """kw: python values; arrays are numpy arrays passed to the library"""
        from meshmagick.inertia import RigidBodyInertia
        b = [a.tobytes() for a in arrays]

        def f():
            if op == 'new':
                a = dict(kw)
                self.ob[k] = RigidBodyInertia(a['m'], a['g'], a['xx'], a['yy'], a['zz'], a['yz'], a['xz'], a['xy'], **({'point': a['p']} if 'p' in a else {}))
            elif op == 'mesh':
                self.ob[k] = kw['make']()
            elif op == 'reduce':
                self.ob[k].reduction_point = kw['p']
            elif op == 'shift':
                self.ob[k].shift_at_cog()
            elif op == 'atcog':
                self.ob[j] = self.ob[k].at_cog
            elif op == 'setcog':
                self.ob[k].set_cog(kw['g'])
            return [self.see(x) for x in sorted(self.ob)]
        r, exc = self.call(f)
        d = dict(op=op, k=k, j=j or '', all=r or [], chg=[i for i, a in enumerate(arrays) if a.tobytes() != b[i]])
        if op == 'mesh':
            if exc:
                return False
            x = self.ob[k]
            kw = dict(m=x.mass, g=np.array(x.gravity_center), p=np.array(x.reduction_point), xx=x.xx, yy=x.yy, zz=x.zz, yz=x.yz, xz=x.xz, xy=x.xy)
        for q, v in kw.items():
            d[q] = encv(np.asarray(v, float)) if q in ('g', 'p') else enc(v)
        self.log('op', exc, **d)
        return exc == ''

    def poke(self, rng):
        """objects taken from one another share no data"""
        ks = sorted(self.ob)
        k = str(rng.choice(ks))
        see = {x: self.see(x) for x in ks if x != k}
        x = self.ob[k]
        how = rng.integers(3)
        a = [x.gravity_center, x.inertia_matrix, x.reduction_point][how]
        old = a.copy()
        a += 1.5
        self.log('poke', '', k=k, chg=[y for y in see if self.see(y) != see[y]])
        a[...] = old

    def solid(self, shape, a, rho=None, th=None):
        import meshmagick.inertia as I
        f = getattr(I, shape)
        par = inspect.signature(f).parameters
        kw = {}
        if rho is not None:
            kw['density'] = rho
        if th is not None:
            kw['thickness'] = th

        def g():
            x = f(*a, **kw)
            return dict(m=enc(x.mass), i=encm(np.array(x.inertia_matrix)), p=encv(x.reduction_point), g=encv(x.gravity_center))
        r, exc = self.call(g)
        rho = (7850. if 'thickness' in par else 1.) if rho is None else rho      # documented defaults: steel, 2 cm; 1
        self.log('solid', exc, shape=shape, a=encv(a), rho=enc(rho), th=enc(.02 if th is None else th), **(r or dict(m=[2, []], i=[], p=[], g=[])))


def body(rng):
    s = 10. ** rng.uniform(-1, 3)
    A = rng.normal(size=(3, 3)) * s
    I = np.eye(3) * np.trace(A @ A.T) - A @ A.T
    return I


def point(rng, near=None):
    """a reduction point: anywhere, or on or very close to a point that matters"""
    if near is not None and rng.random() < .35:
        near = np.array(near, float)
        d = rng.normal(size=3)
        r = rng.random()
        if r < .2:
            return near
        if r < .6:
            return near + d * 10. ** rng.uniform(-10, -6)
        return near * (1 + 10. ** rng.uniform(-9, -5) * rng.choice([-1, 1], 3))
    return rng.normal(size=3) * 10. ** rng.uniform(-1, 2 if rng.random() < .8 else 5)


def given(rec, rng, k):
    r = rng.random()
    if r < .2:
        from meshmagick.mesh import Mesh
        V, F = shapes.closed_shape(rng)
        V, F = shapes.dress(V, F, rng)
        m = Mesh(np.array(V, float), np.array(F, int))
        rho = float(rng.choice([1., 1025.]))
        return rec.op('mesh', k, make=(lambda: m.eval_plain_mesh_inertias(rho)) if rng.random() < .6 else (lambda: m.eval_shell_mesh_inertias(7850., .02)))
    I = body(rng)
    g = point(rng)
    if rng.random() < .3:
        g = np.round(g)
    kw = dict(m=float(10. ** rng.uniform(-2, 6)), xx=I[0, 0], yy=I[1, 1], zz=I[2, 2], yz=-I[1, 2], xz=-I[0, 2], xy=-I[0, 1])
    arr = []
    if rng.random() < .5:
        kw['g'] = g
        arr.append(g)
    else:
        kw['g'] = [float(x) for x in g]
    if rng.random() < .6:
        p = point(rng, g)
        kw['p'] = p if rng.random() < .5 else tuple(float(x) for x in p)
        if isinstance(kw['p'], np.ndarray):
            arr.append(p)
    ok = rec.op('new', k, arrays=arr, **kw)
    if ok and arr and rng.random() < .5:       # the object keeps nothing of the arrays it was given
        see = rec.see(k)
        for a in arr:
            a += 2.
        rec.log('poke', '', k=k, chg=[] if rec.see(k) == see else [k])
    return ok


def enum(rec, rng, k, scn, tier):
    rec.start(tag='path')
    scale = float(rng.choice([1., .37, 25.]))
    rot = np.linalg.qr(rng.normal(size=(3, 3)))[0] if rng.random() < .5 else np.eye(3)
    off = rng.normal(size=3) * rng.choice([0., 1.])
    names = ['a']

    def pt(p):
        return rot @ (np.array(p, float) * scale) + off
    I = body(rng)
    kw = dict(m=float(rng.choice([2., .3, 5e4])), g=pt([1, 1, 0]), xx=I[0, 0], yy=I[1, 1], zz=I[2, 2], yz=-I[1, 2], xz=-I[0, 2], xy=-I[0, 1])
    if scn[0]['p'] != [1, 1, 0] or rng.random() < .5:
        kw['p'] = pt(scn[0]['p'])
    if not rec.op('new', 'a', **kw):
        return
    for o in scn[1:]:
        x = names[o['k'] - 1]
        if o['op'] == 'reduce':
            p = pt(o['p'])
            ok = rec.op('reduce', x, p=p, arrays=[p])
        elif o['op'] == 'shift':
            ok = rec.op('shift', x)
        else:
            y = 'abc'[len(names)]
            names.append(y)
            ok = rec.op('atcog', x, j=y)
        if not ok:
            return
    rec.poke(rng)


def rnd(rec, rng, k, scn, tier):
    rec.start(tag='any')
    if not given(rec, rng, 'a'):
        return
    if rng.random() < .3:
        given(rec, rng, 'b')
    for _ in range(int(rng.integers(1, 8))):
        x = str(rng.choice(sorted(rec.ob)))
        r = rng.random()
        if r < .45:
            p = point(rng, rec.ob[x].gravity_center if rng.random() < .7 else rec.ob[x].reduction_point)
            ok = rec.op('reduce', x, p=p if rng.random() < .6 else [float(v) for v in p], arrays=[p])
            if ok and rng.random() < .3:
                see = rec.see(x)
                p += 3.
                rec.log('poke', '', k=x, chg=[] if rec.see(x) == see else [x])
        elif r < .65:
            ok = rec.op('shift', x)
            if ok and rng.random() < .3:
                ok = rec.op('shift', x)
        elif r < .9 and len(rec.ob) < 4:
            ok = rec.op('atcog', x, j='o%d' % len(rec.ob))
        else:
            g = point(rng, rec.ob[x].gravity_center if rng.random() < .5 else rec.ob[x].reduction_point)
            ok = rec.op('setcog', x, g=g if rng.random() < .5 else [float(v) for v in g], arrays=[g])
        if not ok:
            return
        if rng.random() < .2:
            rec.poke(rng)


def dims(shape, a):
    a = [float(x) for x in a[:NARG[shape]]]
    if shape.startswith('hollow'):
        a[:2] = sorted(a[:2])
        if a[0] == a[1]:
            a[1] *= 1.5
    if shape.startswith('frustrum'):
        a[:2] = sorted(a[:2])
    if shape == 'torus':
        a = sorted(a, reverse=True)
    return a


def solids_enum(rec, rng, k, scn, tier):
    rec.start(tag='sizes')
    for shape in NARG:
        rec.solid(shape, dims(shape, scn))
    for shape in NARG:
        a = dims(shape, scn)
        if shape.startswith('hollow') or shape.startswith('frustrum'):
            a[0] = 0.
        rec.solid(shape, a, rho=float(rng.choice([1000., 2.5, 7850.])), th=float(rng.choice([.01, .5])) if 'shell' in shape else None)


def solids_rnd(rec, rng, k, scn, tier):
    rec.start(tag='sizes')
    for shape in NARG:
        a = dims(shape, 10. ** rng.uniform(-2, 2, 3))
        if rng.random() < .3 and 'hollow' not in shape:
            a = [a[0]] * len(a) if shape != 'torus' else a
        rec.solid(shape, a, rho=None if rng.random() < .3 else float(10. ** rng.uniform(-1, 4)),
                  th=float(10. ** rng.uniform(-3, 0)) if 'shell' in shape and rng.random() < .6 else None)
