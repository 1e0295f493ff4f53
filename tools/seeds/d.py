import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from b import M, C, H, I, R, O, T, L, CUBE
SEEDS = [
dict(id='d02-opposite-angles', prop='P02',
     edits=[(M, "        phi, theta, psi = angles\n", "        phi, theta, psi = angles\n        if phi + theta + psi == 0.:\n            return np.eye(3)\n")],
     demo=CUBE + '''
m = cube()
m.rotate([np.pi / 2, -np.pi / 2, 0.])
assert abs(m.vertices - V).max() > .5, m.vertices
''', needs='a rotation whose angles cancel each other out', breaks='it is not applied'),
dict(id='d03-lonely-quad', prop='P03',
     edits=[(M, "        if self.nb_quadrangles > 0:\n            quadrangles_ids", "        if self.nb_quadrangles > 1:\n            quadrangles_ids")],
     demo=CUBE + '''
v = np.array([[0., 0., 0.], [1., 0., 0.], [1., 1., 0.], [0., 1., 0.], [.5, .5, 1.]])
m = Mesh(v, [[0, 3, 2, 1], [0, 1, 4, 0], [1, 2, 4, 1], [2, 3, 4, 2], [3, 0, 4, 3]])
g = m.eval_shell_mesh_inertias(1., 1.)
assert abs(g.gravity_center[0] - (m.faces_areas * m.faces_centers[:, 0]).sum() / m.faces_areas.sum()) < 1e-9
''', needs='a mesh of triangles with a single quadrangle', breaks='the integrals forget it'),
dict(id='d04-close-point', prop='P04',
     edits=[(I, "        assert len(point) == 3\n        point = np.array(point, dtype=float)\n", "        if np.allclose(point, self._point):\n            return\n        point = np.array(point, dtype=float)\n"),],
     demo='''
from meshmagick.inertia import RigidBodyInertia
a = RigidBodyInertia(1000., [0., 0., 0.], 1., 1., 1., 0., 0., 0., point=[1000., 0., 0.])
i = a.yy
a.reduction_point = [1000.008, 0., 0.]
assert abs(a.yy - i - 1000. * (1000.008 ** 2 - 1000. ** 2)) < 1., a.yy - i
''', needs='a new reduction point close to the former one, far from the origin', breaks='the inertia stays at the former point'),
dict(id='d05-chain', prop='P05',
     edits=[(T, "                    if np.abs(cur_val - vref) > atol:\n                        levels_tmp.append(idx)\n                        vref = cur_val\n", "                    if np.abs(cur_val - vref) > atol:\n                        levels_tmp.append(idx)\n                    vref = cur_val\n")],
     demo='''
import numpy as np
from meshmagick.tools import merge_duplicate_rows
v = np.array([[.6 * i, 0., 0.] for i in range(5)])
w, n = merge_duplicate_rows(v, atol=1., return_index=True)
assert n[0] != n[4], (w, n)
''', needs='several vertices in a row, each within the tolerance of the next', breaks='the whole row becomes one vertex'),
dict(id='d06-top-face', prop='P06',
     edits=[(M, "            if hs[2] < 0:\n", "            if normals[np.argmax(centers[:, 2]), 2] < 0:\n")],
     demo='''
import numpy as np
from meshmagick.mesh import Mesh
v = np.array([[0., 0., 0.], [1., 0., 0.], [0., 1., 0.], [5., 0.2, 1.]])
for k in range(24):
    import itertools
    p = list(itertools.permutations(range(4)))[k]
    f = np.array([[0, 2, 1, 0], [0, 1, 3, 0], [1, 2, 3, 1], [2, 0, 3, 2]])[list(p)]
    m = Mesh(v, f)
    m.heal_normals()
    assert m.volume > 0., m.volume
''', needs='a body whose highest face leans over', breaks='its normals are turned inward'),
dict(id='d07-triangular-hole', prop='P07',
     edits=[(M, "                        else:\n                            boundaries.append(boundary)\n", "                        elif len(boundary) > 4:\n                            boundaries.append(boundary)\n")],
     demo='''
import numpy as np
from meshmagick.mesh import Mesh
m = Mesh(np.array([[0., 0., 0.], [1., 0., 0.], [0., 1., 0.], [0., 0., 1.]]), np.array([[0, 2, 1, 0], [0, 1, 3, 0], [1, 2, 3, 1]]))
assert m.nb_boundaries == 1, m.boundaries
''', needs='a hole bounded by three edges', breaks='the hole is not reported among the boundaries'),
dict(id='d08-mean-of-nonzero', prop='P08',
     edits=[(M, "        area_threshold = areas.mean() * float(rtol)\n", "        area_threshold = areas[areas > 0.].mean() * float(rtol)\n")],
     demo='''
import numpy as np
from meshmagick.mesh import Mesh
v = np.array([[0., 0., 0.], [1., 0., 0.], [1., 1., 0.], [0., 1., 0.], [0., 0., 1.], [3., 0., 0.]])
v = np.concatenate((v, [[0., 0., 5.], [1e-2, 0., 5.], [0., .08, 5.]]))
m = Mesh(v, np.array([[0, 1, 2, 3], [0, 1, 5, 0], [1, 5, 0, 1], [6, 7, 8, 6]]))
m.remove_degenerated_faces(rtol=1e-3)        # areas 1, 0, 0, 4e-4 ; threshold .25e-3
assert m.nb_faces == 2, m.faces
''', needs='faces of null area and a face whose area is close to the threshold', breaks='faces above the threshold are removed'),
dict(id='d09-add-boxes', prop='P09',
     edits=[(M, "        new_mesh.merge_duplicates()\n        new_mesh._verbose", "        box1, box2 = self.axis_aligned_bbox, mesh_to_add.axis_aligned_bbox\n        if all(box1[2*i] < box2[2*i+1] and box2[2*i] < box1[2*i+1] for i in range(3)):\n            new_mesh.merge_duplicates()\n        new_mesh._verbose")],
     demo=CUBE + '''
a, b = cube(), cube()
b.translate_x(2.)
assert (a + b).nb_vertices == 12
''', needs='meshes that touch each other in one plane, their bounding boxes not overlapping', breaks='their common vertices stay doubled'),
dict(id='d10-below-twice', prop='P10',
     edits=[(C, "                    crown_faces.append([index, face[2], face[3], face[0]])\n", "                    crown_faces.append([index, face[0], face[3], face[2]])\n")],
     demo=CUBE + '''
from meshmagick.mesh_clipper import MeshClipper
q = np.array([[0., 0., 0.], [1., 0., 1.], [2., 0., -.5], [1., 0., -1.5]])
for s in range(4):
    for f in ([0, 1, 2, 3], [3, 2, 1, 0]):
        m = Mesh(np.concatenate((q, [[9., 9., 1.], [9., 8., 2.], [8., 9., 1.]])), [list(np.roll(f, s)), [4, 5, 6, 4]])
        c = MeshClipper(m).clipped_mesh
        assert abs(c.faces_normals - m.faces_normals[0]).max() < 1e-9, (f, c.faces_normals)
''', needs='a quadrangle with a corner on the plane, one above, two below, in one turning sense', breaks='its part below is turned over'),
dict(id='d11-loose-median', prop='P11',
     edits=[(C, "                boundary_edge = [face[1], face[3]]\n", "                boundary_edge = [face[3], face[1]]\n")],
     demo=CUBE + '''
from meshmagick.mesh_clipper import MeshClipper
v = V.copy()
a = np.sqrt(.5)
m = Mesh(V, F)
m.rotate_y(np.pi / 4)
c = MeshClipper(m, assert_closed_boundaries=True)
for p in c.closed_polygons_vertices:
    x, y = p[:, 0], p[:, 1]
    assert (x[:-1] * y[1:] - x[1:] * y[:-1]).sum() > 0., p
''', needs='quadrangles cut along their diagonal', breaks='the waterline runs backwards there'),
dict(id='d12-mean-waterplane', prop='P12',
     edits=[(H, "    minx, maxx = [min(xmin), max(xmax)]\n", "    minx, maxx = [min(xmin), xmax[int(np.argmin(xmin))]]\n")],
     demo=CUBE + '''
from meshmagick.hydrostatics import compute_hydrostatics
a, b = cube(), cube()
a.scalex(10.)
b.translate([30., 0., 0.])
for m in (a + b, b + a):
    h = compute_hydrostatics(m, np.zeros(3), 1000., 10.)
    assert abs(h['length_at_waterline'] - 41.) < 1e-9, h['length_at_waterline']
''', needs='a hull with several waterlines', breaks='the length is that of one of them'),
dict(id='d14-residual-sum', prop='P14',
     edits=[(H, "        if np.all(np.fabs(residue / scale) < reltol):\n", "        if np.fabs((residue / scale).sum()) < reltol:\n")],
     demo=CUBE + '''
from meshmagick.hydrostatics import full_equilibrium, compute_hydrostatics
m = Mesh(V * [10., 5., 2.], F)
for x in np.linspace(-1.2, 1.2, 13):
    for g in ([x, -x / 2, -1.], [x, x / 2, -1.], [x, x / 2 * .96, -1.]):
        g = np.array(g)
        z, r = full_equilibrium(m, g, 400., 1000., 10.)
        d = compute_hydrostatics(m, g, 1000., 10., z_corr=z, rotmat_corr=r)
        b = np.dot(r, d['buoyancy_center'] - g)
        assert abs(d['disp_mass'] - 4e5) < 1e-3 * 4e5 and abs(b[:2]).max() < 1e-3, (g, d['disp_mass'], b)
''', needs='a centre of gravity for which the unbalanced moments cancel each other out', breaks='the attitude returned is not one of equilibrium'),
dict(id='d16-mar-end', prop='P16',
     edits=[(O, "        if line[0] == '0':\n            break\n        vertices.append(list(map(float, line[1:])))\n", "        if float(line[0]) == 0. or not any(map(float, line[1:])) and len(vertices) > 2:\n            break\n        vertices.append(list(map(float, line[1:])))\n")],
     demo='''
import os, sys, numpy as np
from meshmagick import mmio
p = os.path.join(sys.argv[1], 'a.mar')
open(p, 'w').write('2 0\\n1 1. 0. 0.\\n2 1. 1. 0.\\n3 0. 1. 0.\\n4 0. 0. 0.\\n5 0. 0. 1.\\n0 0. 0. 0.\\n1 2 3 4\\n1 2 5 1\\n0 0 0 0\\n')
try:
    v, f = mmio.load_mesh(p, 'mar')
    ok = len(v) == 5 and f.tolist() == [[0, 1, 2, 3], [0, 1, 4, 0]]
except Exception:
    ok = False
assert ok
''', needs='a MAR file one of whose later nodes is the origin', breaks='the nodes after it are taken for faces'),
dict(id='d17-rotate-combined', prop='P17',
     edits=[(L, "        mesh.rotate_z(math.radians(args.rotatez))\n", "        mesh.rotate_z(math.radians(args.rotatez % 360.) if args.rotatez > 0 else math.radians(args.rotatez % 180.))\n")],
     demo=CUBE + '''
import subprocess
from meshmagick import mmio
v = V.copy()
v[0] = [-3., -1., -1.]
mmio.write_mesh('a.nat', v, F, 'nat')
subprocess.run([sys.executable, '-c', 'from meshmagick.cli import main; main()', 'a.nat', '--rotatez', '-30', '-o', 'b.nat'], capture_output=True)
w, f = mmio.load_mesh('b.nat', 'nat')
a = -np.pi / 6
r = np.array([[np.cos(a), -np.sin(a), 0.], [np.sin(a), np.cos(a), 0.], [0., 0., 1.]])
assert abs(w - v @ r.T).max() < 1e-5, w
''', needs='a negative angle about z', breaks='the mesh is turned by another angle'),
dict(id='d18-half-turn', prop='P18',
     edits=[(M, "            if nz == 1.:\n                theta_x = theta_y = 0.\n            elif nz == -1.:\n                theta_x = math.pi\n                theta_y = 0.\n", "            theta_x = theta_y = 0.\n")],
     demo='''
import numpy as np
from meshmagick.mesh import Plane
p = Plane([0., 0., -1.], 1.)
a = p.get_normal_orientation_wrt_z()
q = Plane()
q.set_normal_from_angles(*a)
assert abs(q.normal - p.normal).max() < 1e-9, (a, q.normal)
''', needs='a normal that points exactly downward', breaks='its reported angles are those of the upward normal'),
dict(id='d19-near-half-turn', prop='P19',
     edits=[(R, "    if tr >= 0.:\n        s = sqrt(tr + 1)\n", "    if tr > -1.:\n        s = sqrt(tr + 1)\n")],
     demo='''
import numpy as np
from meshmagick.rotations import axis_angle_to_rotmat, rotmat_to_quat, quat_to_rotmat
worst = 0.
for k in range(200):
    a = np.array([np.sin(k), np.cos(k), np.sin(2.3 * k)]); a /= np.linalg.norm(a)
    m = axis_angle_to_rotmat(a, np.pi - 3e-7)
    worst = max(worst, abs(quat_to_rotmat(rotmat_to_quat(m)) - m).max())
assert worst < 1e-9, worst
''', needs='a rotation within some millionths of a half turn', breaks='the quaternion loses most of its digits'),
dict(id='d20-view-setter', prop='P20',
     edits=[(M, "        self._faces = np.asarray(value, dtype=int).copy()\n", "        self._faces = np.ascontiguousarray(value, dtype=int)\n")],
     demo=CUBE + '''
m = cube()
f = F.copy()
m.faces = f
f[0] = [0, 0, 0, 0]
assert m.faces[0].tolist() == F[0].tolist(), m.faces[0]
''', needs='faces assigned from an integer array that is modified later', breaks='the mesh changes with the array'),
dict(id='d21-cone-length', prop='P21',
     edits=[(I, "    Ixx = Iyy = 3 * mass * (radius ** 2 + length ** 2 / 4.) / 20.\n", "    Ixx = Iyy = 3 * mass * (radius ** 2 + length ** 2 // 4.) / 20.\n")],
     demo='''
from meshmagick.inertia import right_circular_cone
i = right_circular_cone(1., 3., 1.)
assert abs(i.xx - 3 * i.mass * (1. + 9. / 4.) / 20.) < 1e-12
''', needs='a length whose square is not a multiple of four', breaks='the transverse moments of the cone are wrong'),
]
SEEDS = [s for s in SEEDS if s['demo']]
