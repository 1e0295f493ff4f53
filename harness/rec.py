"""Recorder: performs public calls on the real library and logs one event per call."""
import os, re, sys, signal, shutil, tempfile, contextlib, io, json, math
import numpy as np
from vp import enc, encv, encm


class OpTimeout(BaseException):
    pass


def _alarm(sig, frm):
    raise OpTimeout()


@contextlib.contextmanager
def limit(sec):
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, sec)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


@contextlib.contextmanager
def quiet():
    """the library prints; keep the harness output clean (file descriptors too: VTK)"""
    sys.stdout.flush()
    o1, o2 = os.dup(1), os.dup(2)
    dn = os.open(os.devnull, os.O_WRONLY)
    so, se = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = io.StringIO()
    os.dup2(dn, 1)
    os.dup2(dn, 2)
    try:
        yield
    finally:
        sys.stdout, sys.stderr = so, se
        os.dup2(o1, 1)
        os.dup2(o2, 2)
        for f in (o1, o2, dn):
            os.close(f)


def exc_name(e):
    return type(e).__name__ + ': ' + str(e)[:200]


class Rec:
    def __init__(self):
        self.events = []
        self.s = 0
        self.meta = {}

    # ------------------------------------------------------------ scenario
    def start(self, **tag):
        self.s += 1
        self.regs = {}
        self.snap = {}
        self.handed, self.scrap = [], []
        self.meta[self.s] = tag
        self.events.append({'s': self.s, 'o': 'start'})

    def form(self, A):
        """the same numbers as lists, tuples or arrays of another layout, from one scenario to the next"""
        A = np.asarray(A)
        k = self.s % 5
        if k == 1:
            return A.tolist()
        if k == 2:
            return np.asfortranarray(A)
        if k == 3:
            return tuple(map(tuple, A.tolist())) if A.ndim == 2 else tuple(A.tolist())
        return A

    def talks(self):
        return self.s % 4 == 0

    def log(self, o, exc='', **kw):
        d = {'s': self.s, 'o': o, 'exc': exc}
        d.update(kw)
        self.events.append(d)
        return d

    def call(self, fn, sec=20):
        try:
            with quiet(), limit(sec):
                return fn(), ''
        except OpTimeout:
            return None, 'Timeout'
        except Exception as e:
            return None, exc_name(e)


# --------------------------------------------------------------------- meshes
def bits(m):
    v, f = np.asarray(m.vertices), np.asarray(m.faces)
    return v.shape, v.dtype.str, v.tobytes(), f.shape, np.ascontiguousarray(f).tobytes()


def mesh_json(m):
    v, f = np.asarray(m.vertices, float), np.asarray(m.faces)
    return {'V': [encv(p) for p in v.reshape(-1, 3)] if v.size else [], 'F': [[int(i) for i in q] for q in f]}


ARR = {'areas': 'faces_areas', 'normals': 'faces_normals', 'centers': 'faces_centers'}
GEOQ = ['areas', 'normals', 'centers', 'triangles_ids', 'quadrangles_ids', 'counts', 'integrals', 'volume', 'plain', 'shell',
        'bbox', 'sqbbox', 'edges', 'faceview', 'istri', 'quality', 'str', 'saved']
TOPOQ = ['vv', 'vf', 'ff', 'boundaries', 'nb_boundaries', 'closed', 'conformal']


def printed_quality(t):
    """what print_quality shows: number of faces of each kind, range and mean of areas, edge ratios and smallest angles"""
    r = {}
    for kind, part in re.findall(r'(Triangle|Quadrilateral) quality of the mesh (.*?)(?=\n(?:Triangle|Quadrilateral) quality|\Z)', t, re.S):
        d = dict(n=int(re.search(r'\((\d+) elements', part).group(1)))
        for key, label in (('area', 'Area Ratio'), ('ratio', 'Edge Ratio'), ('angle', 'Minimal Angle')):
            g = re.search(label + r':\s*range: (\S+)\s+-\s+(\S+)\s+average: (\S+)', part).groups()
            d[key] = encv([float(x) for x in g])
        r[kind] = d
    return r


class MeshRec(Rec):
    def _chg(self, new=None):
        c = []
        for k, m in self.regs.items():
            b = bits(m)
            if k in self.snap and self.snap[k] != b:
                c.append(k)
            self.snap[k] = b
        for i, (arr, b) in enumerate(self.handed):       # what the caller handed over stays as it was
            if arr.tobytes() != b:
                c.append('argument %d' % i)
                self.handed[i] = (arr, arr.tobytes())
        return c

    def give(self, A):
        """the argument in one of its forms; an array is then either scribbled on (`scribble`) or watched"""
        a = self.form(A)
        if isinstance(a, np.ndarray):
            a = a.copy(order='K')
            (self.scrap if self.s % 2 else self.handed).append(a if self.s % 2 else (a, a.tobytes()))
        return a

    def scribble(self):
        while self.scrap:
            a = self.scrap.pop()
            a[...] = a[::-1].copy() * 2 + 1

    def _op(self, o, m, fn, **kw):
        r, exc = self.call(fn)
        chg = [c for c in self._chg() if c != m] + ([m] if m in self.regs else [])
        d = self.log(o, exc, m=m, chg=chg, **kw)
        if m in self.regs:
            try:
                d['post'] = mesh_json(self.regs[m])
            except Exception as e:
                d['exc'] = d['exc'] or ('unreadable: ' + exc_name(e))
        return r, exc, d

    def new(self, m, V, F, name=None):
        from meshmagick.mesh import Mesh
        V, F = np.array(V, float), np.array(F, int)

        def f():
            self.regs[m] = Mesh(self.give(V), self.give(F), name=name)
            self.scribble()
            if self.talks():
                self.regs[m].verbose_on()
        return self._op('new', m, f, V=[encv(p) for p in V], F=[[int(i) for i in q] for q in F])

    def setV(self, m, V):
        V = np.array(V, float)

        def f():
            self.regs[m].vertices = self.give(V)
            self.scribble()
        return self._op('setV', m, f, V=[encv(p) for p in V], F=[[int(i) for i in q] for q in self.regs[m].faces])

    def setF(self, m, F):
        F = np.array(F, int)

        def f():
            self.regs[m].faces = self.give(F)
            self.scribble()
        return self._op('setF', m, f, V=[encv(p) for p in self.regs[m].vertices], F=[[int(i) for i in q] for q in F])

    def copy(self, m, src):
        def f():
            self.regs[m] = self.regs[src].copy()
        return self._op('copy', m, f, src=src)

    def add(self, m, a, b):
        def f():
            self.regs[m] = self.regs[a] + self.regs[b]
        return self._op('add', m, f, a=a, b=b)

    def extract(self, m, src, sel, index=True):
        sel = np.array(sel, int)
        box = {}

        def f():
            if index:
                self.regs[m], ids = self.regs[src].extract_faces(sel, return_index=True)
                box['ids'] = [int(i) for i in ids]
            else:
                self.regs[m] = self.regs[src].extract_faces(sel)
        r, exc, d = self._op('extract', m, f, src=src, sel=[int(i) for i in sel], ids=[-1])
        if index and 'ids' in box:
            d['ids'] = box['ids']
        return r, exc, d

    def translate(self, m, t, how='xyz'):
        t = [float(x) for x in t]

        def f():
            M = self.regs[m]
            if how == 'x':
                M.translate_x(t[0])
            elif how == 'y':
                M.translate_y(t[1])
            elif how == 'z':
                M.translate_z(t[2])
            else:
                M.translate(self.form(t))
        if how in 'xyz' and len(how) == 1:
            t = [t[i] if 'xyz'[i] == how else 0. for i in range(3)]
        return self._op('translate', m, f, t=encv(t), how=how)

    def scale(self, m, k, how='all'):
        def f():
            M = self.regs[m]
            {'all': M.scale, 'x': M.scalex, 'y': M.scaley, 'z': M.scalez}[how](k)
        kk = [k, k, k] if how == 'all' else [k if a == how else 1. for a in 'xyz']
        return self._op('scale', m, f, k=encv(kk), how=how)

    def rotate(self, m, ang, how='xyz'):
        box = {}

        def f():
            M = self.regs[m]
            if how == 'x':
                box['r'] = M.rotate_x(ang[0])
            elif how == 'y':
                box['r'] = M.rotate_y(ang[1])
            elif how == 'z':
                box['r'] = M.rotate_z(ang[2])
            else:
                box['r'] = M.rotate(self.form(ang))
        a = ang if how == 'xyz' else [ang[i] if 'xyz'[i] == how else 0. for i in range(3)]
        r, exc, d = self._op('rotate', m, f, ang=encv(a), how=how)
        R = box.get('r')
        ok = R is not None and np.shape(R) == (3, 3)
        d['rshape'] = bool(ok)
        d['ret'] = encm(R) if ok else encm(np.zeros((3, 3)))
        return r, exc, d

    def rotmat(self, m, R):
        R = np.array(R, float)
        return self._op('rotmat', m, lambda: self.regs[m].rotate_matrix(R), R=encm(R))

    def flip(self, m):
        return self._op('flip', m, lambda: self.regs[m].flip_normals())

    def plane(self, n, c):
        from meshmagick.mesh import Plane
        p = Plane(normal=self.form(n), scalar=c)
        return p, encv(p.normal), enc(p.c)

    def mirror(self, m, n, c):
        p, en, ec = self.plane(n, c)
        return self._op('mirror', m, lambda: self.regs[m].mirror(p), n=en, c=ec)

    def symmetrize(self, m, n, c):
        p, en, ec = self.plane(n, c)
        return self._op('symmetrize', m, lambda: self.regs[m].symmetrize(p), n=en, c=ec)

    def merge(self, m, atol=None, index=True):
        box = {}

        def f():
            kw = {} if atol is None else {'atol': atol}
            if index:
                box['ids'] = [int(i) for i in self.regs[m].merge_duplicates(return_index=True, **kw)]
            else:
                self.regs[m].merge_duplicates(**kw)
        r, exc, d = self._op('merge', m, f, atol=enc(1e-8 if atol is None else atol), ids=[-1])
        if index and 'ids' in box:
            d['ids'] = box['ids']
        return r, exc, d

    def unused(self, m):
        return self._op('unused', m, lambda: self.regs[m].remove_unused_vertices())

    def healtri(self, m):
        return self._op('healtri', m, lambda: self.regs[m].heal_triangles())

    def degen(self, m, rtol=1e-5):
        return self._op('degen', m, lambda: self.regs[m].remove_degenerated_faces(rtol=rtol), rtol=enc(rtol))

    def healnormals(self, m):
        return self._op('healnormals', m, lambda: self.regs[m].heal_normals())

    def healmesh(self, m):
        return self._op('healmesh', m, lambda: self.regs[m].heal_mesh())

    def triangulate(self, m):
        return self._op('triangulate', m, lambda: self.regs[m].triangulate_quadrangles())

    def poke(self, m, rng):
        """write into the vertex array the mesh hands out, then assign it back (public attribute)"""
        def f():
            v = self.regs[m].vertices
            v[int(rng.integers(len(v)))] += rng.normal(size=3)
            self.regs[m].vertices = v
        v0 = np.array(self.regs[m].vertices)
        r, exc, d = self._op('setV', m, f, V=[], F=[[int(i) for i in q] for q in self.regs[m].faces])
        d['V'] = d['post']['V']
        return r, exc, d

    def use(self, what, fn, sec=30):
        """a call that may only read the registers"""
        r, exc = self.call(fn, sec)
        self.log('use', '', m='', what=what, chg=self._chg(), raised=exc)
        return r, exc

    # ---------------------------------------------------------------- queries
    def obs(self, m, q, **kw):
        M = self.regs[m]
        shape = True

        def nums(a, sh):
            nonlocal shape
            a = np.asarray(a, float)
            if a.shape != sh:
                shape = False
                return []
            return [enc(x) for x in a] if a.ndim == 1 else [encv(x) for x in a]

        def table(d, n):
            nonlocal shape
            try:
                if sorted(int(k) for k in d) != list(range(n)):
                    shape = False
                    return []
                return [sorted(int(x) for x in d[k]) for k in range(n)]
            except Exception:
                shape = False
                return []
        nf, nv = len(M.faces), len(M.vertices)

        def inert(x):
            return dict(mass=enc(x.mass), cog=encv(x.gravity_center), mat=encm(x.inertia_matrix), point=encv(x.reduction_point),
                        xx=enc(x.xx), yy=enc(x.yy), zz=enc(x.zz), xy=enc(x.xy), xz=enc(x.xz), yz=enc(x.yz))

        def f():
            if q == 'areas':
                return nums(M.faces_areas, (nf,))
            if q == 'normals':
                return nums(M.faces_normals, (nf, 3))
            if q == 'centers':
                return nums(M.faces_centers, (nf, 3))
            if q == 'triangles_ids':
                return [int(i) for i in M.triangles_ids]
            if q == 'quadrangles_ids':
                return [int(i) for i in M.quadrangles_ids]
            if q == 'counts':
                return [int(M.nb_vertices), int(M.nb_faces), int(M.nb_triangles), int(M.nb_quadrangles)]
            if q == 'integrals':
                return nums(M.get_surface_integrals(), (15, nf))
            if q == 'volume':
                return enc(M.volume)
            if q == 'plain':
                return inert(M.eval_plain_mesh_inertias(kw['rho']) if kw['rho'] is not None else M.eval_plain_mesh_inertias())
            if q == 'shell':
                a = {}
                if kw['rho'] is not None:
                    a['rho_medium'] = kw['rho']
                if kw['thick'] is not None:
                    a['thickness'] = kw['thick']
                return inert(M.eval_shell_mesh_inertias(**a))
            if q == 'vv':
                return table(M.vv, nv)
            if q == 'vf':
                return table(M.vf, nv)
            if q == 'ff':
                return table(M.ff, nf)
            if q == 'boundaries':
                return [[int(i) for i in b] for b in M.boundaries]
            if q == 'nb_boundaries':
                return int(M.nb_boundaries)
            if q == 'closed':
                return bool(M.is_mesh_closed())
            if q == 'quality':
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    M.print_quality()
                return printed_quality(out.getvalue())
            if q == 'str':
                t = str(M)
                return dict(counts=[int(re.search(w + r':\s*(\d+)', t).group(1)) for w in ('Number of vertices', 'Number of faces', 'Number of triangles', 'Number of quadrangles')],
                            box=encv([float(re.search(w + r' = (\S+)', t).group(1)) for w in ('xmin', 'xmax', 'ymin', 'ymax', 'zmin', 'zmax')]),
                            name=re.search(r'MESH NAME : (.*)', t).group(1) == M.name)
            if q == 'saved':
                from meshmagick import mmio
                d = tempfile.mkdtemp(prefix='save', dir=os.getcwd())
                here = os.getcwd()
                self.saves = getattr(self, 'saves', -1) + 1
                want, arg = [('a.vtp', 'a'), ('a.vtp', 'a.vtp'), ('quick_save.vtp', None), ('a.b.vtp', 'a.b')][self.saves % 4]
                try:
                    os.chdir(d)
                    M.quick_save(arg) if arg else M.quick_save()
                    files = sorted(os.listdir(d))
                    V, F = mmio.load_mesh(want, 'vtp') if files == [want] else ([], np.zeros((0, 4), int))
                finally:
                    os.chdir(here)
                    shutil.rmtree(d, ignore_errors=True)
                return dict(V=[encv(p) for p in V], F=F.tolist(), files=files, want=want)
            if q == 'conformal':
                return M.is_mesh_conformal() is True
            if q == 'bbox':
                return nums(M.axis_aligned_bbox, (6,))
            if q == 'sqbbox':
                return nums(M.squared_axis_aligned_bbox, (6,))
            if q == 'edges':
                return nums([M.min_edge_length, M.max_edge_length, M.mean_edge_length], (3,))
            if q == 'faceview':
                return [[int(i) for i in M.get_face(k)] for k in range(nf)]
            if q == 'istri':
                return [bool(M.is_triangle(k)) for k in range(nf)]
            raise KeyError(q)
        r, exc = self.call(f)
        d = self.log('obs', exc, m=m, q=q, chg=self._chg(), shape=bool(shape and exc == ''), r=r if exc == '' else 0)
        if q == 'plain':
            d['rho'] = enc(1023. if kw['rho'] is None else kw['rho'])
        if q == 'shell':
            d['rho'] = enc(7850. if kw['rho'] is None else kw['rho'])
            d['thick'] = enc(0.02 if kw['thick'] is None else kw['thick'])
        return r, exc, d

    def obs_rnd(self, m, q, rng):
        if q == 'plain':
            return self.obs(m, q, rho=rng.choice([None, 1., 1025., .01, 7850.]))
        if q == 'shell':
            return self.obs(m, q, rho=rng.choice([None, 1., 2700.]), thick=rng.choice([None, 1., .001, .3]))
        return self.obs(m, q)
