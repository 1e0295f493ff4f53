"""Scenarios on Plane."""
import numpy as np
from rec import Rec
from vp import enc, encv


def recorder(sp):
    return PlaneRec()


class PlaneRec(Rec):
    def start(self, **tag):
        super().start(**tag)
        self.pl = {}
        self.held = []

    def op(self, p, op, **kw):
        from meshmagick.mesh import Plane
        args = {k: v for k, v in kw.items() if isinstance(v, np.ndarray)}
        b = {k: v.tobytes() for k, v in args.items()}

        def f():
            if op == 'new':
                self.pl[p] = Plane(kw['n'], kw['c'])
            elif op == 'setn':
                self.pl[p].normal = kw['n']
            elif op == 'setc':
                self.pl[p].c = kw['c']
            elif op == 'rot':
                self.pl[p].rotate_normal(kw['x'], kw['y'])
            elif op == 'ang':
                self.pl[p].set_normal_from_angles(kw['x'], kw['y'])
            elif op == 'par':
                self.pl[p].set_plane_parameters(kw['c'], kw['x'], kw['y'])
            elif op == 'flip':
                self.pl[p].flip_normal()
            x = self.pl[p]
            return np.array(x.normal, float), float(x.c)
        r, exc = self.call(f)
        on, oc = r if r else (np.full(3, np.nan), np.nan)
        d = dict(p=p, op=op, on=encv(on), oc=enc(oc), chg=[k for k in b if args[k].tobytes() != b[k]])
        for k, v in kw.items():
            d[k] = encv(v) if k == 'n' else enc(v)
        if self.held:      # arrays obtained before: not to be modified by changing the plane
            d['held'] = [i for i, (a, s) in enumerate(self.held) if a.tobytes() != s]
        self.log('op', exc, **d)
        if p in self.pl and exc == '':
            a = self.pl[p].normal
            self.held = (self.held + [(a, a.tobytes())])[-4:]
        return exc == ''

    def q(self, p, q, P=None, **opt):
        P = np.zeros((0, 3)) if P is None else P
        b = P.tobytes()
        box = {}

        def f():
            x = self.pl[p]
            try:
                if q == 'angles':
                    return x.get_normal_orientation_wrt_z()
                if q == 'dist':
                    return np.atleast_1d(x.get_point_dist_wrt_plane(P[0] if opt.get('single') else P))
                if q == 'proj':
                    return x.orthogonal_projection_on_plane(P)
                if q == 'frame':
                    return np.atleast_2d(x.coord_in_plane(P[0] if opt.get('single') else P))
                if q == 'origin':
                    return np.atleast_2d(x.get_origin())
                if q == 'edge':
                    return np.atleast_2d(x.get_edge_intersection(P[0], P[1]))
            except Exception as e:
                box['t'] = type(e).__name__
                raise
        r, exc = self.call(f)
        d = dict(p=p, q=q, exct=box.get('t', ''), P=[encv(v) for v in (P[:1] if opt.get('single') else P)], chg=[] if P.tobytes() == b else ['P'])
        if q == 'angles':
            d['x'], d['y'] = (enc(r[0]), enc(r[1])) if r is not None else (enc(np.nan),) * 2
        elif q == 'dist':
            d['r'] = encv(r) if r is not None else []
        else:
            d['r'] = [encv(v) for v in r] if r is not None else []
        self.log('q', exc, **d)

    def ask(self, p, rng, full=True):
        x = self.pl.get(p)
        if x is None:
            return
        n, c = np.array(x.normal, float), float(x.c)
        if not np.all(np.isfinite(n)):
            return
        s = float(rng.choice([1., 1., 50.]))
        P = rng.normal(size=(5, 3)) * s
        P[1] -= (P[1] @ n - c) * n             # on the plane
        if rng.random() < .4:
            P = np.round(P * 2)                # integers
            if rng.random() < .5:
                P = P.astype(int)
        for q in ['angles', 'dist', 'proj', 'frame', 'origin']:
            if full or rng.random() < .4:
                self.q(p, q, P if q not in ('angles', 'origin') else None, single=bool(q in ('dist', 'frame') and rng.random() < .2))
        for _ in range(2):
            a, b = rng.normal(size=(2, 3)) * s
            r = rng.random()
            if r < .25:
                b = a - 2 * (a @ n - c) * n * rng.uniform(.1, 1)      # crossing
            elif r < .4:                                               # ends on the plane
                b = b - (b @ n - c) * n
            elif r < .55:                                              # lies on the plane
                a, b = a - (a @ n - c) * n, b - (b @ n - c) * n
            elif r < .65:                                              # parallel to the plane
                b = a + (b - (b @ n) * n)
            if rng.random() < .3:
                a, b = b, a
            if rng.random() < .3:
                a, b = np.round(a), np.round(b)
            self.q(p, 'edge', np.array([a, b]))


def vec(rng):
    r = rng.random()
    if r < .3:
        v = np.zeros(3)
        v[rng.integers(3)] = rng.choice([-1, 1]) * rng.choice([1., 3., .1])
        return v
    if r < .45:     # almost an axis
        v = np.zeros(3)
        v[rng.integers(3)] = rng.choice([-1, 1])
        return v + rng.normal(size=3) * 10. ** rng.integers(-17, -3)
    return rng.normal(size=3) * 10. ** rng.integers(-3, 4)


def angs(rng):
    r = rng.random()
    if r < .1:
        return 0., 0.
    if r < .4:
        a = float(rng.choice([-1, 1, 2, -2, .5, 4])) * np.pi / 2
        return (a, 0.) if rng.random() < .5 else (0., a)
    if r < .5:
        return tuple(float(x) for x in rng.normal(size=2) * 10. ** rng.integers(-12, -2))
    return tuple(float(x) for x in rng.uniform(-7, 7, 2))


def enum(rec, rng, k, scn, tier):
    rec.start(tag='axes')
    for o in scn:
        if o['op'] in ('new', 'setn'):
            kw = dict(n=np.array(o['n'], float) * float(rng.choice([1., 1., 2.5, 1e-3])))
            if o['op'] == 'new':
                kw['c'] = float(rng.choice([1., -.7, 0., 12.3]))
        elif o['op'] in ('rot', 'ang', 'par'):
            kw = dict(x=o['t'][0] * np.pi / 2, y=o['t'][1] * np.pi / 2)
            if o['op'] == 'par':
                kw['c'] = float(rng.normal())
        elif o['op'] == 'setc':
            kw = dict(c=float(rng.choice([0., rng.normal()])))
        else:
            kw = {}
        if not rec.op('p', o['op'], **kw):
            return
        if rng.random() < .3:
            rec.ask('p', rng, False)
    rec.ask('p', rng)


def rnd(rec, rng, k, scn, tier):
    rec.start(tag='any')
    if not rec.op('p', 'new', n=vec(rng), c=float(rng.choice([0., rng.normal(), 10 * rng.normal()]))):
        return
    if rng.random() < .3:
        rec.op('q', 'new', n=vec(rng), c=1.)
    for _ in range(int(rng.integers(0, 7))):
        p = 'q' if 'q' in rec.pl and rng.random() < .3 else 'p'
        op = str(rng.choice(['setn', 'setc', 'rot', 'ang', 'par', 'flip']))
        kw = {}
        if op == 'setn':
            kw['n'] = vec(rng)
        if op in ('setc', 'par'):
            kw['c'] = float(rng.normal() * 3)
        if op in ('rot', 'ang', 'par'):
            kw['x'], kw['y'] = angs(rng)
        if not rec.op(p, op, **kw):
            return
        rec.ask(p, rng, rng.random() < .3)
    rec.ask('p', rng)
    rec.ask('q', rng)
