"""Scenarios on the Mesh class."""
import itertools, math
import numpy as np
import shapes
from rec import MeshRec, GEOQ, TOPOQ


def recorder(sp):
    return MeshRec()


# ------------------------------------------------------------------ dirt
def add_unused(V, F, rng):
    n = int(rng.integers(1, 4))
    V2 = np.vstack([V, rng.normal(size=(n, 3)) * 3])
    return shapes.renumber(V2, F, rng, shuffle_faces=False)


def add_dups(V, F, rng, jitter=0.):
    """some faces get their own copies of shared vertices"""
    V, F = [list(p) for p in V], np.array(F).copy()
    for i in range(len(F)):
        if rng.random() < .6:
            new = {}
            for k in range(4):
                a = int(F[i, k])
                if a not in new:
                    if rng.random() < .6:
                        new[a] = len(V)
                        V.append([x + float(rng.uniform(-jitter, jitter)) for x in V[a]])
                    else:
                        new[a] = a
                F[i, k] = new[a]
    return np.array(V, float), F


def bad_triangles(F, rng):
    out = []
    for f in F:
        f = list(f)
        if f[0] == f[3] and rng.random() < .7:
            k = int(rng.integers(4))
            f = f[k:] + f[:k]
        out.append(f)
    return np.array(out)


def fake_quads(V, F, rng, jitter=0.):
    """some triangles given as quadrangles with two vertices at one place"""
    V, out = [list(p) for p in V], []
    for f in F:
        f = [int(x) for x in f]
        if f[0] == f[3] and rng.random() < .5:
            j = int(rng.integers(3))
            f = f[:j + 1] + [len(V)] + f[j + 1:3]
            V.append([x + float(rng.uniform(-jitter, jitter)) for x in V[f[j]]])
            k = int(rng.integers(4))
            f = f[k:] + f[:k]
        out.append(f)
    return np.array(V, float), np.array(out)


def add_degenerate(V, F, rng):
    """faces of tiny or null area (needles, collapsed)"""
    V, F = [list(p) for p in V], [list(f) for f in F]
    for _ in range(int(rng.integers(1, 3))):
        c = np.array(V[int(rng.integers(len(V)))])
        e = 10. ** -rng.integers(7, 11)
        d = rng.normal(size=(4, 3)) * e
        b = len(V)
        V += [list(c + d[i]) for i in range(3)]
        q = [b, b + 1, b + 2, b]
        F.insert(int(rng.integers(len(F) + 1)), q)
    return np.array(V, float), np.array(F)


def flip_some(F, rng, p=.5):
    F = np.array(F).copy()
    for i in range(len(F)):
        if rng.random() < p:
            F[i] = F[i][::-1]
    return F


def some_mesh(rng, op=None):
    c = rng.random()
    V, F = shapes.closed_shape(rng) if c < .55 else shapes.open_shape(rng) if c < .85 else shapes.two_pieces(rng)
    V, F = shapes.dress(V, F, rng)
    if op == 'merge' or (op == 'healmesh' and rng.random() < .6):
        V, F = add_dups(V, F, rng, rng.choice([0., 1e-9]))
    if op == 'unused' or (op == 'healmesh' and rng.random() < .6):
        V, F = add_unused(V, F, rng)
    if op == 'degen' or (op == 'healmesh' and rng.random() < .5):
        V, F = add_degenerate(V, F, rng)
    if op == 'healmesh' and rng.random() < .4:
        V, F = fake_quads(V, F, rng, rng.choice([0., 1e-9]))
    if op in ('healtri', 'healmesh'):
        F = bad_triangles(F, rng)
    if op in ('healnormals', 'healmesh', 'flip'):
        F = flip_some(F, rng, rng.choice([0., .3, 1.]))
    return V, F


def rand_rot(rng):
    A, _ = shapes.rand_affine(rng, shear=False, scale=(1., 1.))
    return A


def angle(rng):
    return float(rng.choice([0., math.pi / 2, -math.pi / 2, math.pi, 1e-3, 7.5, rng.choice([-1, 1]) * 10. ** rng.uniform(-10, 3), rng.uniform(-4, 4), rng.uniform(-.5, .5), rng.uniform(-.5, .5)]))


def dist(rng):
    return float(rng.choice([0., 1e-3, -2.5, rng.normal(), 100. * rng.normal(), rng.choice([-1, 1]) * 10. ** rng.uniform(-9, 4)]))


def factor(rng):
    return float(rng.choice([1., 2., .5, .1, 1. + 10. ** rng.uniform(-9, -2), rng.uniform(.2, 4.)]))


def plane(rng):
    n = [[0, 0, 1.], [1., 0, 0], [0, -1., 0], list(rng.normal(size=3)), list(3 * rng.normal(size=3))][rng.integers(5)]
    return n, dist(rng) * .3


def face_areas(V, F):
    P = V[F]
    n = np.linalg.norm
    return .5 * (n(np.cross(P[:, 1] - P[:, 0], P[:, 2] - P[:, 0]), axis=1) + n(np.cross(P[:, 2] - P[:, 0], P[:, 3] - P[:, 0]), axis=1))


def do_op(r, m, o, rng):
    if o == 'translate':
        r.translate(m, [dist(rng) for _ in range(3)])
    elif o.startswith('translate'):
        r.translate(m, [dist(rng) for _ in range(3)], o[-1])
    elif o == 'scale':
        r.scale(m, factor(rng))
    elif o.startswith('scale'):
        r.scale(m, factor(rng), o[-1])
    elif o == 'rotmat':
        r.rotmat(m, rand_rot(rng))
    elif o == 'rotate':
        r.rotate(m, [angle(rng) for _ in range(3)])
    elif o.startswith('rotate'):
        r.rotate(m, [angle(rng) for _ in range(3)], o[-1])
    elif o == 'mirror':
        r.mirror(m, *plane(rng))
    elif o == 'symmetrize':
        sym_op(r, m, rng)
    elif o == 'merge':
        r.merge(m, atol=[None, 1e-8, 1e-6][rng.integers(3)], index=rng.random() < .8)
    elif o == 'degen':
        rtol = [1e-5, 1e-3, 1e-7][rng.integers(3)]
        if rng.random() < .4:       # some face is near the threshold
            a = np.asarray(face_areas(np.asarray(r.regs[m].vertices), np.asarray(r.regs[m].faces)))
            if a.mean() > 0.:
                rtol = float(np.clip(rng.choice(a) / a.mean() * rng.uniform(.5, 1.6), 1e-12, .9))
        r.degen(m, rtol=rtol)
    elif o == 'setV':
        V = np.array(r.regs[m].vertices)
        r.setV(m, V @ rand_rot(rng).T * factor(rng) + [dist(rng) for _ in range(3)])
    elif o == 'setF':
        F = np.array(r.regs[m].faces)
        c = rng.integers(3)
        if c == 0 and len(F) > 1:
            F = F[:-1]
        elif c == 1:
            F = F[:, ::-1]
        else:
            F = shapes.triangulate(F, rng, 1.)
        r.setF(m, F)
    elif o == 'copy':
        r.copy('z', m)
    else:
        getattr(r, o)(m)


def sym_op(r, m, rng):
    """symmetrize about a plane through some vertices or away from the mesh"""
    V = np.asarray(r.regs[m].vertices, float)
    n, c = plane(rng)
    if rng.random() < .7 and len(V):
        d = V @ (np.array(n) / np.linalg.norm(n))
        c = float([d.max(), d.min()][rng.integers(2)])
    r.symmetrize(m, n, c)


CACHEQ = {'tq': ['triangles_ids', 'quadrangles_ids', 'counts', 'istri'], 'fp': ['areas', 'normals', 'centers'],
          'si': ['integrals', 'integrals', 'shell'], 'cn': ['vv', 'vf', 'ff', 'boundaries', 'nb_boundaries', 'closed']}


def query(r, m, c, rng):
    q = CACHEQ[c][rng.integers(len(CACHEQ[c]))]
    r.obs_rnd(m, q, rng)


def all_queries(r, m, rng, sub=None):
    qs = GEOQ + TOPOQ
    if sub:
        qs = [qs[i] for i in sorted(rng.choice(len(qs), size=sub, replace=False))]
    qs = [qs[i] for i in rng.permutation(len(qs))]
    for q in qs:
        r.obs_rnd(m, q, rng)


def cache(r, rng, k, scn, tier):
    """a history of the cache model (queries and operations), then every query"""
    ops = [x for x in scn if x not in CACHEQ]
    if k % 4 == 3:       # also: the mesh whose caches were filled is a copy, a sum or an extraction
        ops0 = ['copy', 'extract', 'add'][rng.integers(3)]
    else:
        ops0 = None
    r.start(tag=ops[-1] if ops else '')
    V, F = some_mesh(rng, next((o for o in reversed(ops) if o in ('merge', 'unused', 'degen', 'healtri', 'healmesh', 'healnormals', 'flip')), None))
    r.new('a', V, F)
    m = 'a'
    if ops0:
        for c in CACHEQ:
            if rng.random() < .5:
                query(r, 'a', c, rng)
        if ops0 == 'copy':
            r.copy('b', 'a')
        elif ops0 == 'extract':
            n = len(r.regs['a'].faces)
            r.extract('b', 'a', rng.permutation(n)[:max(1, n // 2)])
        else:
            r.new('c', *some_mesh(rng))
            r.add('b', 'a', 'c')
        m = 'b'
    for x in scn:
        if x in CACHEQ:
            query(r, m, x, rng)
        else:
            do_op(r, m, x, rng)
            if m not in r.regs:
                return
    all_queries(r, m, rng, sub=None if len(scn) < 7 else 14)
    if ops0 or 'z' in r.regs:
        all_queries(r, 'a' if ops0 else 'z', rng, sub=6)


# ------------------------------------------------------------------ transforms
XOPS = ['translate', 'translatex', 'translatey', 'translatez', 'scale', 'scalex', 'scaley', 'scalez', 'rotate', 'rotatex', 'rotatey', 'rotatez',
        'rotmat', 'flip', 'mirror']


def xform(r, rng, k, scn, tier):
    r.start(tag='xform')
    c = rng.random()
    V, F = shapes.closed_shape(rng) if c < .5 else shapes.open_shape(rng)
    V, F = shapes.dress(V, F, rng)
    if rng.random() < .3:
        V, F = add_unused(V, F, rng)
    if rng.random() < .2:
        V = V * 10. ** rng.integers(-3, 4)
    r.new('a', V, F)
    first = XOPS[k % len(XOPS)]
    do_op(r, 'a', first, rng)
    for _ in range(6):
        if rng.random() < .25:
            r.obs_rnd('a', GEOQ[rng.integers(len(GEOQ))], rng)
        do_op(r, 'a', XOPS[rng.integers(len(XOPS))], rng)


# ------------------------------------------------------------------ integrals
IQ = ['areas', 'normals', 'centers', 'integrals', 'volume', 'plain', 'shell', 'counts', 'triangles_ids', 'quadrangles_ids']


def integ(r, rng, k, scn, tier):
    r.start(tag='integ')
    c = k % 4
    if c < 3:
        V, F = shapes.closed_shape(rng)
        V, F = shapes.dress(V, F, rng, tri=[None, 0., 1.][c])
    else:
        V, F = shapes.open_shape(rng)
        V, F = shapes.dress(V, F, rng)
    if rng.random() < .2:                    # quadrangles that are not plane
        V = V + rng.normal(size=V.shape) * .05 * np.ptp(V, axis=0).max()
    if rng.random() < .15:
        V = V + rng.normal(size=3) * 30
    if rng.random() < .15:
        V = V * 10. ** rng.integers(-2, 3)
    r.new('a', V, F)
    for q in [IQ[i] for i in rng.permutation(len(IQ))]:
        r.obs_rnd('a', q, rng)
    for q in ['edges', 'quality', 'bbox', 'sqbbox', 'str', 'saved']:
        if rng.random() < .4:
            r.obs_rnd('a', q, rng)
    if rng.random() < .3:
        do_op(r, 'a', ['rotate', 'translate', 'scale', 'scalex', 'scalez'][rng.integers(5)], rng)
        for q in ['plain', 'shell', 'volume']:
            r.obs_rnd('a', q, rng)
        r.triangulate('a')
        for q in ['plain', 'shell', 'areas', 'volume']:
            r.obs_rnd('a', q, rng)


# ------------------------------------------------------------------ merging
def merge(r, rng, k, scn, tier):
    """scn: grid points (per axis multiples of the tolerance) for each vertex"""
    r.start(tag='grid' if scn else 'mesh')
    if scn:
        t = float([1e-8, 1e-3, .25, 1.][rng.integers(4)])
        n = len(scn['x'])
        V = np.array([[scn['x'][i], scn['y'][i], scn['z'][i]] for i in range(n)], float) * t * 0.5
        base = [[0., 0., 0.], [8., -16., 4.]][rng.integers(2)] if t > 1e-4 else [0., 0., 0.]
        V = V + np.array(base)
        p = rng.permutation(n)
        V = V[p]
        F = [[int(x) for x in rng.integers(n, size=4)] for _ in range(3)]
        F.append([i % n for i in range(4)])
        r.new('a', V, F)
        r.merge('a', atol=t)
    else:
        j = [0., 1e-9, 4e-9, 1e-7][rng.integers(4)]
        V, F = shapes.closed_shape(rng) if rng.random() < .6 else shapes.open_shape(rng)
        V, F = shapes.dress(V, F, rng)
        if rng.random() < .3:
            V[:, rng.integers(3)] = 0.
        V, F = add_dups(V, F, rng, j)
        V, F = shapes.renumber(V, F, rng)
        r.new('a', V, F)
        r.merge('a', atol=[None, 1e-8, 1e-6][rng.integers(3)], index=rng.random() < .8)
        if rng.random() < .3:
            r.merge('a')


# ------------------------------------------------------------------ healing normals
COMPLEX = {}


def complexes():
    if not COMPLEX:
        COMPLEX['tetra'] = shapes.tetra()
        COMPLEX['pyramid'] = shapes.pyramid()
        COMPLEX['cube'] = shapes.box(1., 1.3, .8)
        COMPLEX['octa'] = shapes.octa()
        COMPLEX['strip'] = shapes.grid(3, 1)
        COMPLEX['patch'] = shapes.grid(2, 2)
        COMPLEX['prism3'] = shapes.prism(3)
        V, F = shapes.tetra()
        COMPLEX['two'] = np.vstack([V, V + [5., 0, 0]]), np.vstack([F, F + 4])
    return COMPLEX


def healn(r, rng, k, scn, tier):
    r.start(tag='enum' if scn else 'rnd')
    if scn:
        V, F = complexes()[scn['c']]
        F = np.array([f[::-1] if i + 1 in scn['flip'] else f for i, f in enumerate(F)])
        F = shapes.rotate_corners(F, rng)
        A, b = shapes.rand_affine(rng)
        V, F = shapes.renumber(np.array(V) @ A.T + b, F, rng)
    else:
        c = rng.random()
        V, F = shapes.closed_shape(rng) if c < .6 else shapes.open_shape(rng) if c < .85 else shapes.two_pieces(rng)
        V, F = shapes.dress(V, F, rng)
        F = flip_some(F, rng, rng.choice([.1, .5, .9, 1.]))
    r.new('a', V, F)
    pre = rng.random()
    if pre < .6:
        for q in (['normals'], ['ff'], ['boundaries', 'normals'], ['volume'], ['closed', 'areas', 'integrals'])[rng.integers(5)]:
            r.obs_rnd('a', q, rng)
    if rng.random() < .3:
        do_op(r, 'a', ['mirror', 'flip', 'rotate', 'translate'][rng.integers(4)], rng)
    r.healnormals('a')
    r.obs('a', 'normals')
    if rng.random() < .5:
        r.obs('a', 'ff')
        r.obs('a', 'boundaries')
        r.obs('a', 'volume')
    if rng.random() < .3:
        r.flip('a')
        r.healnormals('a')
        r.obs('a', 'normals')


def slit(V, F, rng):
    """a crack: a vertex inside the surface is doubled, half of its faces take the copy"""
    V, F = [list(p) for p in V], np.array(F)
    for v in rng.permutation(len(V)):
        around = [i for i in range(len(F)) if v in F[i]]
        nxt = {}                                    # the faces around v, each followed by its neighbour
        for i in around:
            c = list(F[i][:3]) if F[i][0] == F[i][3] else list(F[i])
            k = c.index(v)
            nxt[c[(k + 1) % len(c)]] = (i, c[k - 1])
        a = next(iter(nxt), None)
        fan, b = [], a
        while b in nxt and len(fan) < len(around):
            fan.append(nxt[b][0])
            b = nxt[b][1]
        if len(fan) < 4 or b != a or len(fan) != len(around):
            continue
        for i in fan[:int(rng.integers(2, len(fan) - 1))]:
            F[i] = [len(V) if x == v else x for x in F[i]]
        V.append(V[v])
        return np.array(V, float), F
    return np.array(V, float), F


# ------------------------------------------------------------------ connectivity
def topo(r, rng, k, scn, tier):
    r.start(tag='enum' if scn else 'rnd')
    if scn:
        V, F = complexes()[scn['c']]
        F = np.array([f[::-1] if i + 1 in scn['flip'] else f for i, f in enumerate(F) if i + 1 in scn['keep']]).reshape(-1, 4)
        F = shapes.rotate_corners(F, rng)
        V, F = shapes.renumber(V, F, rng)
    else:
        c = rng.random()
        V, F = shapes.closed_shape(rng) if c < .4 else shapes.open_shape(rng) if c < .8 else shapes.two_pieces(rng)
        V, F = shapes.dress(V, F, rng)
        if rng.random() < .3:
            F = flip_some(F, rng, .3)
        if rng.random() < .2:
            V, F = slit(V, F, rng)
        if rng.random() < .2:
            V, F = add_unused(V, F, rng)
    r.new('a', V, F)
    for q in [TOPOQ[i] for i in rng.permutation(len(TOPOQ))]:
        r.obs('a', q)
    if rng.random() < .4:
        do_op(r, 'a', ['triangulate', 'flip', 'setF', 'symmetrize', 'mirror', 'unused'][rng.integers(6)], rng)
        for q in TOPOQ:
            r.obs('a', q)


# ------------------------------------------------------------------ cleaning
def threshold(r, rng):
    """rectangles and halves of rectangles whose areas are exactly a fraction of the mean"""
    r.start(tag='degen exact')
    n = int(rng.choice([4, 8]))
    a = [int(x) for x in rng.choice([0, 1, 2, 4, 8], size=n - 1)]
    total = n
    while total <= sum(a):
        total *= 2
    a.append(total - sum(a))
    a = [a[i] for i in rng.permutation(n)]
    V, F = [], []
    for i, x in enumerate(a):
        b = len(V)
        V += [[3 * i, 0, 0], [3 * i + 1, 0, 0], [3 * i + 1, x, 0], [3 * i, x, 0]]
        F.append([b, b + 1, b + 2, b + 3])
        if rng.random() < .3:       # a triangle of that area
            V[b + 1][0] += 1
            F[-1] = [b, b + 1, b + 3, b]
    r.new('a', np.array(V, float), shapes.rotate_corners(F, rng))
    if rng.random() < .5:
        r.obs('a', 'areas')
    mean = total // n
    r.degen('a', rtol=int(rng.choice([x for x in a if 0 < x <= mean] or [mean])) / mean)
    r.obs('a', 'counts')


def clean(r, rng, k, scn, tier):
    if k % 9 == 8:
        return threshold(r, rng)
    o = ['unused', 'healtri', 'degen', 'healmesh', 'healmesh', 'degen'][k % 6]
    r.start(tag=o)
    V, F = some_mesh(rng, o)
    if o == 'degen' and rng.random() < .7:
        # sizes spread around the threshold
        n = len(F)
        V, F = list(map(list, V)), list(map(list, F))
        L = float(np.max(np.abs(np.array(V)))) + 1.
        for e in rng.choice([1e-1, 1e-2, 3e-3, 1e-3, 3e-4, 1e-4], size=3):
            b = len(V)
            c = rng.normal(size=3)
            V += [list(c), list(c + [e * L, 0, 0]), list(c + [e * L, e * L, 0]), list(c + [0, e * L, .3 * e * L])]
            F.insert(int(rng.integers(len(F) + 1)), [b, b + 1, b + 2, b + 3] if rng.random() < .5 else [b, b + 1, b + 2, b])
        V, F = np.array(V), np.array(F)
    r.new('a', V, F)
    for c in CACHEQ:
        if rng.random() < .35:
            query(r, 'a', c, rng)
    do_op(r, 'a', o, rng)
    if rng.random() < .5:
        do_op(r, 'a', o, rng)
    if rng.random() < .5:
        do_op(r, 'a', ['unused', 'merge', 'healtri', 'degen', 'healmesh'][rng.integers(5)], rng)
    r.obs('a', 'counts')
    r.obs('a', 'faceview')


# ------------------------------------------------------------------ building
def build(r, rng, k, scn, tier):
    o = ['triangulate', 'symmetrize', 'add', 'extract', 'symmetrize', 'add'][k % 6]
    r.start(tag=o)
    V, F = some_mesh(rng)
    if rng.random() < .3:
        V, F = add_unused(V, F, rng)
    r.new('a', V, F)
    for c in CACHEQ:
        if rng.random() < .3:
            query(r, 'a', c, rng)
    m = 'a'
    if o == 'add':
        n = rng.random()
        if n < .4:      # pieces of one mesh, sharing vertices
            nf = len(F)
            sel = rng.permutation(nf)
            h = max(1, nf // 2)
            r.extract('p', 'a', sel[:h])
            if nf > h:
                r.extract('q', 'a', sel[h:], index=False)
                r.add('s', 'p', 'q')
            else:
                r.add('s', 'p', 'a')
        else:
            V2, F2 = some_mesh(rng)
            if n < .6:              # side by side: vertices of the one in the bounding plane of the other
                V2, F2 = V.copy(), np.array(F)[:, ::-1]
                ax, hi = int(rng.integers(3)), rng.random() < .5
                V2[:, ax] = 2 * (V[:, ax].max() if hi else V[:, ax].min()) - V2[:, ax]
                r.new('b', V2, F2)
            else:
                r.new('b', V2 + [20., 0, 0] if n < .8 else V2, F2)
            r.add('s', 'a', 'b')
        m = 's'
    elif o == 'extract':
        nf = len(F)
        sel = rng.permutation(nf)[:int(rng.integers(1, nf + 1))]
        if rng.random() < .5:
            sel = np.sort(sel)
        r.extract('s', 'a', sel, index=rng.random() < .8)
        m = 's'
    else:
        do_op(r, 'a', o, rng)
        if rng.random() < .3:
            do_op(r, 'a', o, rng)
    if m in r.regs:
        for q in ('counts', 'areas', 'faceview', 'closed'):
            r.obs(m, q)


# ------------------------------------------------------------------ operands
def alias(r, rng, k, scn, tier):
    """results share nothing with operands: modify one, the other must not move (clause only-the-target-changes)"""
    r.start(tag='alias')
    V, F = some_mesh(rng)
    r.new('a', V, F)
    if rng.random() < .5:
        for c in CACHEQ:
            if rng.random() < .5:
                query(r, 'a', c, rng)
    o = ['copy', 'add', 'extract', 'copy'][k % 4]
    if o == 'copy':
        r.copy('b', 'a')
    elif o == 'add':
        r.new('c', *some_mesh(rng))
        r.add('b', 'a', 'c')
    else:
        r.extract('b', 'a', np.arange(len(F)))
    if 'b' not in r.regs:
        return
    mods = ['translatex', 'translatey', 'translatez', 'translate', 'mirror', 'healtri', 'healnormals', 'triangulate', 'merge', 'flip', 'scale',
            'rotate', 'symmetrize', 'healmesh', 'inplace', 'assign', 'assign']
    for t, u in (('b', 'a'), ('a', 'b')):
        for o in [mods[i] for i in rng.choice(len(mods), size=3, replace=False)]:
            if o == 'inplace':
                r.poke(t, rng)
            elif o == 'assign':
                do_op(r, t, ['setV', 'setF'][rng.integers(2)], rng)
            else:
                do_op(r, t, o, rng)
        for q in ('normals', 'centers', 'closed', 'integrals', 'counts'):
            r.obs(u, q)
