"""Shapes to feed the code under test.  Only numpy: nothing here comes from the library."""
import numpy as np


def box(lx=1., ly=1., lz=1.):
    V = np.array([[x, y, z] for z in (0, 1) for y in (0, 1) for x in (0, 1)], float) * [lx, ly, lz]
    F = [[0, 2, 3, 1], [4, 5, 7, 6], [0, 1, 5, 4], [2, 6, 7, 3], [0, 4, 6, 2], [1, 3, 7, 5]]
    return V, np.array(F)


def tetra():
    V = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]], float)
    return V, np.array([[0, 2, 1, 0], [0, 1, 3, 0], [1, 2, 3, 1], [0, 3, 2, 0]])


def pyramid():
    V = np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [.4, .6, 1.1]], float)
    return V, np.array([[0, 3, 2, 1], [0, 1, 4, 0], [1, 2, 4, 1], [2, 3, 4, 2], [3, 0, 4, 3]])


def octa():
    V = np.array([[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]], float)
    F = [[0, 2, 4], [2, 1, 4], [1, 3, 4], [3, 0, 4], [2, 0, 5], [1, 2, 5], [3, 1, 5], [0, 3, 5]]
    return V, np.array([f + [f[0]] for f in F])


def prism(n=5, h=1., r=1., phase=0.1, squash=1.):
    """n-gonal prism; caps are fans around a centre; sides are quads."""
    a = 2 * np.pi * np.arange(n) / n + phase
    ring = np.c_[r * np.cos(a), squash * r * np.sin(a)]
    V = np.vstack([np.c_[ring, np.zeros(n)], np.c_[ring, h * np.ones(n)], [[0, 0, 0], [0, 0, h]]])
    F = []
    for i in range(n):
        j = (i + 1) % n
        F.append([i, j, n + j, n + i])
        F.append([2 * n, j, i, 2 * n])
        F.append([2 * n + 1, n + i, n + j, 2 * n + 1])
    return V, np.array(F)


def cylinder_like(n=6, m=3, r=1., h=1.):
    """surface of revolution with m bands (frusta of varying radius); planar quads, polar triangles."""
    rng = np.linspace(0, 1, m + 1)
    rad = r * (0.4 + np.sin(np.pi * (0.15 + 0.7 * rng)))
    a = 2 * np.pi * np.arange(n) / n
    V = [[rad[k] * np.cos(t), rad[k] * np.sin(t), h * rng[k]] for k in range(m + 1) for t in a]
    b = len(V)
    V += [[0, 0, 0], [0, 0, h]]
    F = []
    for k in range(m):
        for i in range(n):
            j = (i + 1) % n
            F.append([k * n + i, k * n + j, (k + 1) * n + j, (k + 1) * n + i])
    for i in range(n):
        j = (i + 1) % n
        F.append([b, j, i, b])
        F.append([b + 1, m * n + i, m * n + j, b + 1])
    return np.array(V, float), np.array(F)


def voxels(cells, h=(1., 1., 1.)):
    """boundary of a union of unit cells (set of integer triples); closed, planar quads, outward."""
    cells = set(cells)
    vid, V, F = {}, [], []

    def v(p):
        if p not in vid:
            vid[p] = len(V)
            V.append(p)
        return vid[p]
    quads = {(1, 0, 0): [(1, 0, 0), (1, 1, 0), (1, 1, 1), (1, 0, 1)], (-1, 0, 0): [(0, 0, 0), (0, 0, 1), (0, 1, 1), (0, 1, 0)],
             (0, 1, 0): [(0, 1, 0), (0, 1, 1), (1, 1, 1), (1, 1, 0)], (0, -1, 0): [(0, 0, 0), (1, 0, 0), (1, 0, 1), (0, 0, 1)],
             (0, 0, 1): [(0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)], (0, 0, -1): [(0, 0, 0), (0, 1, 0), (1, 1, 0), (1, 0, 0)]}
    for c in sorted(cells):
        for d, q in quads.items():
            if tuple(np.add(c, d)) not in cells:
                F.append([v(tuple(np.add(c, o))) for o in q])
    return np.array(V, float) * np.array(h), np.array(F)


def manifold_voxels(rng, n):
    """random face-connected cell set whose boundary is a manifold (no edge with four faces, no pinched vertex)."""
    while True:
        cells = {(0, 0, 0)}
        while len(cells) < n:
            c = list(cells)[rng.integers(len(cells))]
            d = [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)][rng.integers(6)]
            cells.add(tuple(int(x) for x in np.add(c, d)))
        V, F = voxels(cells)
        cnt = {}
        for f in F:
            for k in range(4):
                e = frozenset((f[k], f[(k + 1) % 4]))
                cnt[e] = cnt.get(e, 0) + 1
        if all(x == 2 for x in cnt.values()) and not pinched(F, len(V)):
            return V, F


def pinched(F, nv):
    """some vertex whose faces are not one fan"""
    for v in range(nv):
        fs = [f for f in F if v in f]
        if not fs:
            continue
        link = {}
        for f in fs:
            c = list(f[:3]) if f[0] == f[3] else list(f)
            i = c.index(v)
            a, b = c[i - 1], c[(i + 1) % len(c)]
            link.setdefault(a, []).append(b)
            link.setdefault(b, []).append(a)
        seen, todo = set(), [next(iter(link))]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += link[x]
        if len(seen) != len(link):
            return True
    return False


def grid(n=3, m=3, lx=1., ly=1., bump=0.):
    V = np.array([[lx * i / n, ly * j / m, bump * np.sin(2.1 * i + 1.3 * j)] for j in range(m + 1) for i in range(n + 1)])
    F = [[j * (n + 1) + i, j * (n + 1) + i + 1, (j + 1) * (n + 1) + i + 1, (j + 1) * (n + 1) + i] for j in range(m) for i in range(n)]
    return V, np.array(F)


def tri_grid(n=3, m=3, bump=0.2):
    V, F = grid(n, m, bump=bump)
    return V, triangulate(F, None)


def torus(n=5, m=4, R=2., r=.7):
    V = [[(R + r * np.cos(b)) * np.cos(a), (R + r * np.cos(b)) * np.sin(a), r * np.sin(b)]
         for a in 2 * np.pi * np.arange(n) / n for b in 2 * np.pi * np.arange(m) / m]
    F = [[i * m + j, ((i + 1) % n) * m + j, ((i + 1) % n) * m + (j + 1) % m, i * m + (j + 1) % m] for i in range(n) for j in range(m)]
    return np.array(V), np.array(F)


def triangulate(F, rng, p=1.):
    """split quads (with probability p) along either diagonal"""
    out = []
    for f in F:
        f = list(f)
        if f[0] == f[3] or (rng is not None and rng.random() > p):
            out.append(f)
        elif rng is None or rng.random() < .5:
            out += [[f[0], f[1], f[2], f[0]], [f[0], f[2], f[3], f[0]]]
        else:
            out += [[f[1], f[2], f[3], f[1]], [f[1], f[3], f[0], f[1]]]
    return np.array(out)


def subdivide(V, F):
    """split every face at its edge midpoints: quads in 4 quads, triangles in 4 triangles (conformal)"""
    V = [list(map(float, p)) for p in V]
    mid = {}

    def m(a, b):
        k = (min(a, b), max(a, b))
        if k not in mid:
            mid[k] = len(V)
            V.append([(V[a][i] + V[b][i]) / 2 for i in range(3)])
        return mid[k]
    out = []
    for f in F:
        f = [int(x) for x in f]
        if f[0] == f[3]:
            a, b, c = f[:3]
            x, y, z = m(a, b), m(b, c), m(c, a)
            out += [[a, x, z, a], [x, b, y, x], [z, y, c, z], [x, y, z, x]]
        else:
            a, b, c, d = f
            x, y, z, w = m(a, b), m(b, c), m(c, d), m(d, a)
            o = len(V)
            V.append([(V[a][i] + V[b][i] + V[c][i] + V[d][i]) / 4 for i in range(3)])
            out += [[a, x, o, w], [x, b, y, o], [o, y, c, z], [w, o, z, d]]
    return np.array(V), np.array(out)


def rotate_corners(F, rng):
    """cyclic rotation of the corners of each face (triangles keep first = last)"""
    out = []
    for f in F:
        c = list(f[:3]) if f[0] == f[3] else list(f)
        k = int(rng.integers(len(c)))
        c = c[k:] + c[:k]
        out.append(c + [c[0]] if len(c) == 3 else c)
    return np.array(out)


def renumber(V, F, rng, shuffle_faces=True):
    p = rng.permutation(len(V))
    inv = np.empty(len(V), int)
    inv[p] = np.arange(len(V))
    F = inv[np.array(F)]
    if shuffle_faces:
        F = F[rng.permutation(len(F))]
    return np.array(V)[p], F


def rand_affine(rng, shear=True, scale=(0.3, 3.), shift=2.):
    """orientation preserving affine map (as A, b)"""
    q = rng.normal(size=4)
    q /= np.linalg.norm(q)
    w, x, y, z = q
    R = np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                  [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                  [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])
    D = np.diag(np.exp(rng.uniform(np.log(scale[0]), np.log(scale[1]), size=3)))
    S = np.eye(3)
    if shear:
        S[0, 1], S[0, 2], S[1, 2] = rng.uniform(-.5, .5, size=3)
    return R @ D @ S, rng.uniform(-shift, shift, size=3)


def closed_shape(rng, small=True):
    k = rng.integers(9)
    if k == 0:
        V, F = box(*rng.uniform(.5, 2, 3))
    elif k == 1:
        V, F = tetra()
    elif k == 2:
        V, F = pyramid()
    elif k == 3:
        V, F = octa()
    elif k == 4:
        V, F = prism(int(rng.integers(3, 8)), h=rng.uniform(.5, 2))
    elif k == 5:
        V, F = cylinder_like(int(rng.integers(3, 7)), int(rng.integers(1, 4)))
    elif k == 6:
        V, F = manifold_voxels(rng, int(rng.integers(2, 6)))
    elif k == 7:
        V, F = subdivide(*[tetra, pyramid, box][rng.integers(3)]())
    else:
        V, F = torus(int(rng.integers(3, 6)), int(rng.integers(3, 5)))
        F = triangulate(F, rng, 1.)     # torus quads are planar trapezoids, but keep variety
    return V, F


def open_shape(rng):
    k = rng.integers(4)
    if k == 0:
        V, F = grid(int(rng.integers(1, 4)), int(rng.integers(1, 4)), bump=0.)
    elif k == 1:
        V, F = tri_grid(int(rng.integers(1, 4)), int(rng.integers(1, 4)))
    else:
        V, F = closed_shape(rng)
        n = len(F)
        keep = np.ones(n, bool)
        for i in rng.choice(n, size=int(rng.integers(1, max(2, n // 3))), replace=False):
            keep[i] = False
        if keep.sum() == 0:
            keep[0] = True
        F = F[keep]
    return V, F


def dress(V, F, rng, affine=True, tri=None, renum=True, shear=True):
    """random mixture of triangles/quads, corner rotation, numbering, position"""
    V, F = np.array(V, float), np.array(F)
    p = rng.choice([0., .3, 1.]) if tri is None else tri
    if p:
        F = triangulate(F, rng, p)
    F = rotate_corners(F, rng)
    if affine:
        A, b = rand_affine(rng, shear=shear)
        V = V @ A.T + b
    if renum:
        V, F = renumber(V, F, rng)
    return V, F


def two_pieces(rng):
    V1, F1 = closed_shape(rng)
    V2, F2 = closed_shape(rng) if rng.random() < .7 else open_shape(rng)
    V2 = V2 * rng.uniform(.3, 1.5) + [8., 1., -.5]
    return np.vstack([V1, V2]), np.vstack([F1, np.array(F2) + len(V1)])


def lathe(rng):
    """a spindle: a pile of rings of very different radii, closed by points"""
    n, k = int(rng.integers(3, 7)), int(rng.integers(2, 6))
    z = np.cumsum(10. ** rng.uniform(-1, 1, k + 2))
    r = 10. ** rng.uniform(-2, 1, k)
    V = [[0, 0, z[0]]] + [[r[i] * np.cos(2 * np.pi * j / n), r[i] * np.sin(2 * np.pi * j / n), z[i + 1]] for i in range(k) for j in range(n)] + [[0, 0, z[-1]]]
    R = [1 + n * i for i in range(k)]
    F = []
    for j in range(n):
        l = (j + 1) % n
        F += [[0, R[0] + l, R[0] + j, 0], [R[-1] + j, R[-1] + l, len(V) - 1, R[-1] + j]]
        F += [[a + j, a + l, b + l, b + j] for a, b in zip(R, R[1:])]
    return np.array(V, float), F
