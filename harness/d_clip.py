"""Scenarios on MeshClipper."""
import numpy as np
import shapes
from rec import Rec, bits, mesh_json
from vp import enc, encv


def recorder(sp):
    return ClipRec()


NAMES = ['clipped_mesh', 'lower_mesh', 'crown_mesh', 'upper_mesh', 'clipped_crown_mesh']


class ClipRec(Rec):
    def start(self, **tag):
        super().start(**tag)
        self.clp = {}

    def _chg(self):
        c = []
        for k, m in self.regs.items():
            b = bits(m)
            if k in self.snap and self.snap[k] != b:
                c.append(k)
            self.snap[k] = b
        return c

    def mesh(self, m, V, F):
        from meshmagick.mesh import Mesh
        V, F = np.array(V, float), np.array(F, int)

        def f():
            self.regs[m] = Mesh(V, F)
            return mesh_json(self.regs[m])
        r, exc = self.call(f)
        self._chg()
        self.log('mesh', exc, m=m, post=r or {'V': [], 'F': []})
        return exc == ''

    def read(self, k):
        c = self.clp[k]
        cc = np.asarray(c.clipped_crown_mesh.vertices).reshape(-1, 3)

        def loops(ls):
            return [[encv(p) for p in np.asarray(l).reshape(-1, 3)] for l in ls]
        return dict(mesh_json(c.clipped_mesh), got=self.got(c), lower=mesh_json(c.lower_mesh), crown=mesh_json(c.crown_mesh), upper=mesh_json(c.upper_mesh),
                    polys=loops(c.closed_polygons_vertices), lines=loops(c.open_lines_vertices),
                    polyids=[[int(i) for i in l] for l in c.closed_polygons], lineids=[[int(i) for i in l] for l in c.open_lines],
                    npolys=int(c.nb_closed_polygons), nlines=int(c.nb_open_lines), crownV=[encv(p) for p in cc])

    def got(self, c):
        return dict(n=encv(c.plane.normal), c=enc(c.plane.c), tol=enc(c.vicinity_tol), ac=bool(c.assert_closed_boundaries),
                    src=[x for x, m in self.regs.items() if m is c.source_mesh])

    def clip(self, k, op, m=None, n=None, c=None, tol=None, ac=None):
        from meshmagick.mesh import Plane
        from meshmagick.mesh_clipper import MeshClipper
        kw = {}
        if n is not None:
            p = Plane(normal=self.form(n), scalar=c)
            kw.update(n=encv(p.normal), c=enc(p.c))
        if tol is not None:
            kw['tol'] = enc(tol)
        if ac is not None:
            kw['ac'] = bool(ac)
        if m is not None:
            kw['m'] = m

        def f():
            if op == 'new':
                self.clp.pop(k, None)
                a = {} if n is None else {'plane': p}
                if tol is not None:
                    a['vicinity_tol'] = tol
                if ac is not None:
                    a['assert_closed_boundaries'] = ac
                if self.talks():
                    a['verbose'] = True
                self.clp[k] = MeshClipper(self.regs[m], **a)
            elif op == 'plane':
                self.clp[k].plane = p
            elif op == 'tol':
                self.clp[k].vicinity_tol = tol
            elif op == 'ac':
                self.clp[k].assert_closed_boundaries_on() if ac else self.clp[k].assert_closed_boundaries_off()
                return dict(got=self.got(self.clp[k]))
            return self.read(k)
        if op == 'new':
            for q, v in (('n', encv([0, 0, 1])), ('c', enc(0)), ('tol', enc(1e-3)), ('ac', False)):
                kw.setdefault(q, v)
        box = {}

        def g():
            try:
                box['r'] = f()
            except Exception as e:
                box['e'] = e
        _, exc = self.call(g)
        e = box.get('e')
        d = dict(exct=type(e).__name__ if e is not None else exc, exca=[a for a in getattr(e, 'args', ()) if isinstance(a, str)],
                 out=box.get('r') or {})
        self.log('clip', '', k=k, op=op, chg=self._chg(), **kw, **d)
        return e is None and exc == ''

    def poke(self, k, rng):
        """write into the results in place: the source must not move; then into a copy of the source's own arrays"""
        def f():
            for nm in NAMES:
                m = getattr(self.clp[k], nm)
                if len(m.vertices):
                    m.vertices[:] += 1.
                    m.translate([1., 2., 3.])
                if len(m.faces):
                    m.faces[:] = m.faces[:, ::-1].copy()
        r, exc = self.call(f)
        self.log('poke', '', k=k, chg=self._chg(), raised=exc)

    def pokesrc(self, k, m, rng):
        """modify the source through its own operations: results already read must not move"""
        before = [bits(getattr(self.clp[k], nm)) for nm in NAMES]
        lp = [np.array(x).tobytes() for x in self.clp[k].closed_polygons_vertices]

        def f():
            M = self.regs[m]
            M.translate(rng.normal(size=3))
            M.flip_normals()
            M.vertices[:] *= 1.5
        r, exc = self.call(f)
        after = [bits(getattr(self.clp[k], nm)) for nm in NAMES]
        la = [np.array(x).tobytes() for x in self.clp[k].closed_polygons_vertices]
        self.snap = {}
        self._chg()
        self.log('poke', '', k=k, chg=[nm for nm, a, b in zip(NAMES + ['polygons'], before + [lp], after + [la]) if a != b], raised=exc)


# ---------------------------------------------------------------- geometry
def rand_plane(rng, kind=None):
    kind = kind or rng.choice(['z', 'axis', 'gen', 'gen'])
    if kind == 'z':
        n = np.array([0., 0., 1.])
    elif kind == 'axis':
        n = np.zeros(3)
        n[rng.integers(3)] = rng.choice([-1., 1.])
    else:
        n = rng.normal(size=3)
        n /= np.linalg.norm(n)
    return n, kind


def convex(P):
    P = np.array(P)
    n = len(P)
    cr = []
    for i in range(n):
        a, b = P[(i + 1) % n] - P[i], P[(i + 2) % n] - P[(i + 1) % n]
        cr.append(a[0] * b[1] - a[1] * b[0])
    cr = np.array(cr)
    d = [np.linalg.norm(P[i] - P[j]) for i in range(n) for j in range(i)]
    return (np.all(cr >= -1e-12) or np.all(cr <= 1e-12)) and np.abs(cr).sum() > .3 and np.sum(np.abs(cr) > .05) >= 3 and min(d) > .15


def second_face(rng, P0, P1, labs, flat=False):
    """other corners of a planar convex face (P0, P1, ...) with the given labels; the plane is z=0"""
    for _ in range(400):
        w = rng.normal(size=3)
        if flat:
            w[2] = 0.
        if abs(w[2]) < .3 and not flat:
            continue
        al, pts = [(0., 0.), (1., 0.)], []
        u = P1 - P0
        for l in labs:
            a, b = rng.uniform(-1, 2), rng.uniform(-2, 2)
            if l == 'o' and not flat:
                b = (-P0[2] - a * u[2]) / w[2]
            p = P0 + a * u + b * w
            if l == 'o':
                if abs(p[2]) > 1e-9:
                    break
                p[2] = 0.
            elif (l == 'a') != (p[2] > 0) or not .08 < abs(p[2]) < 2.5:
                break
            al.append((a, b))
            pts.append(p)
        if len(pts) == len(labs) and convex(al):
            e = [np.array(P0), np.array(P1)] + pts
            s = [np.linalg.norm(e[i] - e[j]) for i in range(len(e)) for j in range(i)]
            if min(s) > .12 and max(s) < 8:
                return pts
    return None


def realise(rng, kind, lab):
    sizes = dict(tri=(3,), quad=(4,), tritri=(3, 3), triquad=(3, 4), quadquad=(4, 4))[kind]

    def z(l):
        return 0. if l == 'o' else rng.uniform(.15, 1.) * (1 if l == 'a' else -1)
    for _ in range(60):
        P0 = np.array([*rng.uniform(-1, 1, 2), z(lab[0])])
        P1 = np.array([*rng.uniform(-1, 1, 2), z(lab[1])])
        if np.linalg.norm(P1 - P0) < .3:
            continue
        l1 = lab[2:sizes[0]]
        o1 = second_face(rng, P0, P1, l1, flat=set(lab[:sizes[0]]) == {'o'})
        if o1 is None:
            continue
        V = [P0, P1] + o1
        F = [[0, 1, 2, 0] if sizes[0] == 3 else [0, 1, 2, 3]]
        if len(sizes) == 2:
            l2 = lab[sizes[0]:]
            o2 = second_face(rng, P1, P0, l2, flat=set(lab[:2] + l2) == {'o'})
            if o2 is None:
                continue
            if min(np.linalg.norm(a - b) for a in o1 for b in o2) < .12:
                continue
            b = len(V)
            V += o2
            F.append([1, 0, b, 1] if sizes[1] == 3 else [1, 0, b, b + 1])
        return np.array(V), np.array(F)
    return None, None


def warped(rng, kind, lab):
    """faces on a plane grid, each corner at the height of its label: quadrangles are not plane"""
    sizes = dict(tri=(3,), quad=(4,), tritri=(3, 3), triquad=(3, 4), quadquad=(4, 4))[kind]
    V = [[0., 0.], [1., 0.]] + [[[.5, .9]], [[1., 1.], [0., 1.]]][sizes[0] - 3]
    F = [[0, 1, 2, 0] if sizes[0] == 3 else [0, 1, 2, 3]]
    if len(sizes) == 2:
        b = len(V)
        V += [[[.5, -.9]], [[0., -1.], [1., -1.]]][sizes[1] - 3]
        F.append([1, 0, b, 1] if sizes[1] == 3 else [1, 0, b, b + 1])
    V = np.array(V) + rng.uniform(-.2, .2, (len(V), 2))
    A = np.linalg.qr(rng.normal(size=(2, 2)))[0]
    if np.linalg.det(A) < 0:
        A = A[::-1]
    z = [0. if l == 'o' else rng.uniform(.15, 1.) * (1 if l == 'a' else -1) for l in lab]
    return np.column_stack((V @ A.T * rng.uniform(.5, 2.), z)), np.array(F)


def place(rng, V, n, c):
    """from the plane z=0 to the plane n.x=c"""
    if np.count_nonzero(n) == 1:
        a = int(np.argmax(np.abs(n)))
        s = n[a]
        W = np.empty_like(V)
        W[:, a] = s * V[:, 2] + s * c if c else s * V[:, 2]
        o = [i for i in range(3) if i != a]
        # keep orientation: (o0, o1, a) must be direct
        perm = {0: (1, 2), 1: (2, 0), 2: (0, 1)}[a]
        x, y = (V[:, 0], V[:, 1]) if s > 0 else (V[:, 1], V[:, 0])
        W[:, perm[0]], W[:, perm[1]] = x, y
        return W
    e = np.eye(3)[int(np.argmin(np.abs(n)))]
    u = np.cross(e, n)
    u /= np.linalg.norm(u)
    v = np.cross(n, u)
    return V[:, :1] * u + V[:, 1:2] * v + V[:, 2:] * n + c * n


def corners(F, rng):
    return shapes.rotate_corners(F, rng)


def enum(rec, rng, k, scn, tier):
    lab = [str(x) for x in scn['lab']]
    V, F = realise(rng, scn['kind'], lab) if rng.random() < .75 and not scn['warped'] else (None, None)
    rec.start(tag='pattern')
    if V is None:
        V, F = warped(rng, scn['kind'], lab)
    n, kind = rand_plane(rng)
    c = 0. if rng.random() < .3 else float(rng.uniform(-3, 3))
    tol = float(rng.choice([1e-3, 1e-3, 1e-6, 1e-2]))
    if kind in ('z', 'axis') and rng.random() < .15:
        tol, c = 0., float(rng.integers(-2, 3))
    if tol and rng.random() < .4:      # on the plane within the tolerance only (keeps triangles planar; quads need not be exactly)
        on = [i for i, l in enumerate(lab) if l == 'o']
        if scn['kind'] in ('tri', 'tritri'):
            V[on, 2] += rng.uniform(-.8, .8, len(on)) * tol
    far = np.array([[20, 0, 1.], [21, 0, 1.5], [20, 1, 1.2], [20, 0, -1.], [21, 0, -1.5], [20, 1, -1.2]])
    F = np.vstack([F, [[0, 1, 2, 0]] * 0 if False else np.empty((0, 4), int)]).astype(int)
    b = len(V)
    mode = rng.random()
    if mode < .6:
        V = np.vstack([V, far])
        F = np.vstack([F, [[b, b + 1, b + 2, b], [b + 3, b + 5, b + 4, b + 3]]])
    elif mode < .8:
        V = np.vstack([V, far[3:]])
        F = np.vstack([F, [[b, b + 2, b + 1, b]]])
    W = place(rng, V, n, c)
    F = corners(F, rng)
    W, F = shapes.renumber(W, F, rng)
    if rec.mesh('A', W, F):
        kw = dict(n=n, c=c) if kind != 'z' or c != 0. or rng.random() < .5 else {}
        if rec.clip('k', 'new', m='A', tol=tol, **kw) and rng.random() < .1:
            rec.poke('k', rng)


def shape(rng):
    r = rng.random()
    V, F = shapes.closed_shape(rng) if r < .6 else shapes.open_shape(rng) if r < .8 else shapes.two_pieces(rng)
    V, F = shapes.dress(V, F, rng, shear=bool(rng.random() < .5))
    return V, F


def pick_plane(rng, V, F=None):
    n, kind = rand_plane(rng)
    d = V @ n
    r = rng.random()
    if r < .45:
        c = rng.uniform(d.min(), d.max())
    elif r < .75:
        c = float(d[rng.integers(len(d))])          # through a vertex
    elif r < .85:
        c = d.max() + rng.choice([0., .5])           # above or touching
    elif r < .95:
        c = d.min() - rng.choice([0., .5])
    else:
        c = rng.uniform(d.min(), d.max())
        if F is not None and len(V) >= 3:           # through three vertices
            p = V[rng.choice(len(V), 3, replace=False)]
            m = np.cross(p[1] - p[0], p[2] - p[0])
            if np.linalg.norm(m) > 1e-3:
                n = m / np.linalg.norm(m)
                c = float(n @ p[0])
    return n, float(c)


def grid_shape(rng):
    """integer boxes: vertices exactly on integer planes"""
    V, F = shapes.manifold_voxels(rng, int(rng.integers(2, 7)))
    V = V * rng.integers(1, 3, size=3)
    F = shapes.triangulate(F, rng, float(rng.choice([0., .4, 1.])))
    F = shapes.rotate_corners(F, rng)
    V, F = shapes.renumber(V, F, rng)
    return V, F


def rnd(rec, rng, k, scn, tier):
    g = rng.random() < .3
    V, F = grid_shape(rng) if g else shape(rng)
    if not g and rng.random() < .3:              # faces that are not plane
        V = V + rng.normal(size=V.shape) * rng.choice([.03, .15]) * np.ptp(V, axis=0).max()
    rec.start(tag='shape')
    if not rec.mesh('A', V, F):
        return
    if rng.random() < .3:
        V2, F2 = shape(rng)
        rec.mesh('B', V2, F2)

    def plane(V):
        if g and rng.random() < .7:
            n = np.zeros(3)
            a = int(rng.integers(3))
            n[a] = rng.choice([-1., 1.])
            return n, float(n[a] * (rng.integers(int(V[:, a].min()), int(V[:, a].max()) + 1) + rng.choice([0., 0., .5, .25])))
        return pick_plane(rng, V, F)

    def tols():
        return float(rng.choice([1e-3, 1e-3, 1e-2, 1e-6, 1e-9])) if not g or rng.random() < .7 else float(rng.choice([0., .25, .5]))
    n, c = plane(V)
    ok = rec.clip('k', 'new', m='A', n=n, c=c, **(dict(tol=tols()) if rng.random() < .5 else {}), **(dict(ac=True) if rng.random() < .3 else {}))
    if 'k' not in rec.clp:
        n, c = plane(V)
        ok = rec.clip('k', 'new', m='A', n=n, c=c)
    for _ in range(int(rng.integers(0, 5))):
        if 'k' not in rec.clp:
            break
        r = rng.random()
        if r < .5:
            n, c = plane(V)
            ok = rec.clip('k', 'plane', n=n, c=c)
        elif r < .7:
            ok = rec.clip('k', 'tol', tol=tols())
        elif r < .85:
            rec.clip('k', 'ac', ac=bool(rng.random() < .5))
            if rng.random() < .7:
                n, c = plane(V)
                ok = rec.clip('k', 'plane', n=n, c=c)
        elif ok:
            ok = rec.clip('k', 'read')
    if ok and 'k' in rec.clp and rng.random() < .25:
        rec.poke('k', rng)
    elif ok and 'k' in rec.clp and rng.random() < .25:
        rec.pokesrc('k', 'A', rng)
    if 'B' in rec.regs and rng.random() < .5:      # a second clipper with defaults after others were used
        rec.clip('j', 'new', m='B')
        if 'j' in rec.clp and rng.random() < .5:   # moving one clipper's plane is not moving the next clipper's
            rec.clp['j'].plane.c = float(rng.normal())
            rec.clip('i', 'new', m='B')
