M = 'meshmagick/mesh.py'
C = 'meshmagick/mesh_clipper.py'
H = 'meshmagick/hydrostatics.py'
I = 'meshmagick/inertia.py'
R = 'meshmagick/rotations.py'
O = 'meshmagick/mmio.py'
T = 'meshmagick/tools.py'
L = 'meshmagick/cli.py'
CUBE = '''
import sys, numpy as np
from meshmagick.mesh import Mesh, Plane
V = np.array([[x, y, z] for z in (-1., 1.) for (x, y) in ((-1., -1.), (1., -1.), (1., 1.), (-1., 1.))])
F = np.array([[0, 3, 2, 1], [4, 5, 6, 7], [0, 1, 5, 4], [1, 2, 6, 5], [2, 3, 7, 6], [3, 0, 4, 7]])
def cube(): return Mesh(V, F)
'''
SEEDS = [
dict(id='b04-at-cog-tolerance', prop='P04',
     edits=[(I, "        return np.all(self._point == self._cog)\n", "        return np.allclose(self._point, self._cog)\n"),
            (I, "        inertia = deepcopy(self)\n        inertia.shift_at_cog()\n", "        inertia = deepcopy(self)\n        if not inertia.is_at_cog():\n            inertia.shift_at_cog()\n")],
     demo='''
import numpy as np
from meshmagick.inertia import RigidBodyInertia
b = RigidBodyInertia(1000., [100000., 0., 0.], 5., 6., 7., 0., 0., 0., point=[100000.5, 0., 0.])
a = b.at_cog
assert abs(a.yy - (6. - 1000. * .25)) < 1e-6, a.yy
''', needs='a body far from the origin whose inertia is expressed close to its centre of gravity', breaks='at_cog returns the inertia at the old point'),
dict(id='b11-vicinity-merge', prop='P11',
     edits=[(C, "merge_duplicates(return_index=True, atol=1e-5)", "merge_duplicates(return_index=True, atol=self._vicinity_tol)")],
     demo=CUBE + '''
from meshmagick.mesh_clipper import MeshClipper
m = Mesh(V * [4e-4, 1., 1.], F)
c = MeshClipper(m, Plane())
assert c.nb_closed_polygons == 1 and c.nb_open_lines == 0
p = c.closed_polygons_vertices[0]
assert abs(abs(p[:, 0]).max() - 4e-4) < 1e-9 and len(p) == 5, p
''', needs='waterline points closer to each other than 1e-3', breaks='waterline points are merged, loops collapse'),
dict(id='b12-stiffness-zeroing', prop='P12',
     edits=[(H, "    stiffness_matrix[np.fabs(stiffness_matrix) < 1e-4] = 0.\n", "    stiffness_matrix[np.fabs(stiffness_matrix) < 1e-4 * np.fabs(stiffness_matrix).max()] = 0.\n")],
     demo=CUBE + '''
from meshmagick.hydrostatics import compute_hydrostatics
m = Mesh(V * [300., 1., 1.], F)
k = compute_hydrostatics(m, np.array([0., 0., -.5]), 1000., 10.)['stiffness_matrix']
assert abs(k[0, 0] - 1000 * 10. * 1200.) < 1., k
assert abs(k[1, 1]) > 1e5, k
''', needs='a hull much longer than it is wide', breaks='heave and roll stiffness are set to zero'),
dict(id='b14-linear-rotation', prop='P14',
     edits=[(H, "        rotmat_corr = np.dot(cardan_to_rotmat(rx, ry, 0.), rotmat_corr)  # fonctionne !\n", "        rotmat_corr = np.dot(np.array([[1., 0., ry], [0., 1., -rx], [-ry, rx, 1.]]), rotmat_corr)\n")],
     demo=CUBE + '''
from meshmagick.hydrostatics import full_equilibrium
m = Mesh(V * [10., 5., 2.], F)
z, r = full_equilibrium(m, np.array([.6, .3, -1.]), 10 * 5 * 2 * 8 / 2., 1000., 10.)
assert abs(np.dot(r, r.T) - np.eye(3)).max() < 1e-9, r
''', needs='a centre of gravity away from the vertical of the centre of buoyancy', breaks='the correction is no longer a rotation, the hull is stretched'),
dict(id='b15-pnl-width', prop='P15',
     edits=[(O, '            f.write("{:>5}{:>18.6f}{:>18.6f}{:>18.6f}\\n".format(i+1, *vertex))', '            f.write("{:>5}{:>12.6f}{:>12.6f}{:>12.6f}\\n".format(i+1, *vertex))')],
     demo=CUBE + '''
import os, tempfile
from meshmagick import mmio
d = tempfile.mkdtemp()
v = V * [20000., 20000., 1.]
mmio.write_mesh(os.path.join(d, 'a.pnl'), v, F, 'pnl')
a, b = mmio.load_mesh(os.path.join(d, 'a.pnl'), 'pnl')
assert np.allclose(a, v) and (b == F).all()
''', needs='coordinates of several tens of kilometres, negative', breaks='numbers touch each other in the file, which is not read back'),
dict(id='b15-hst-exponent', prop='P15',
     edits=[(O, "real_str = r'[+-]?(?:\\d+\\.\\d*|\\d*\\.\\d+)(?:[Ee][+-]?\\d+)?'", "real_str = r'[+-]?(?:\\d+\\.\\d*|\\d*\\.\\d+)(?:[Ee][+-]\\d\\d)?'")],
     demo=CUBE + '''
import os, tempfile
from meshmagick import mmio
d = tempfile.mkdtemp()
v = V.copy(); v[3] = [1e-120, 1., -1.]
mmio.write_mesh(os.path.join(d, 'a.hst'), v, F, 'hst')
a, b = mmio.load_mesh(os.path.join(d, 'a.hst'), 'hst')
assert len(a) == 8 and np.allclose(a, v) and (b == F).all()
v = V.copy()
s = open(os.path.join(d, 'a.hst')).read().replace('E+00', 'E0')
open(os.path.join(d, 'a.hst'), 'w').write(s)
a, b = mmio.load_mesh(os.path.join(d, 'a.hst'), 'hst')
assert len(a) == 8
''', needs='an exponent that does not have two digits', breaks='nodes are cut or skipped', also=['P16']),
dict(id='b17-clip-plane-kept', prop='P17',
     edits=[(L, "        for plane in args.clip_by_plane:\n            clipping_plane = Plane()\n", "        clipping_plane = Plane()\n        for plane in args.clip_by_plane:\n")],
     demo=CUBE + '''
import os, tempfile, subprocess
from meshmagick import mmio
d = tempfile.mkdtemp()
mmio.write_mesh(os.path.join(d, 'a.obj'), V * 3., F, 'obj')
subprocess.run([sys.executable, '-m', 'meshmagick.cli', os.path.join(d, 'a.obj'), '-c', '1', '0', '0', '2', '-c', 'Oxy', '-o', os.path.join(d, 'b.obj')], check=True, stdout=subprocess.DEVNULL)
a, b = mmio.load_mesh(os.path.join(d, 'b.obj'), 'obj')
assert abs(a.max(axis=0) - [2., 3., 0.]).max() < 1e-5, a.max(axis=0)
''', needs='two clipping planes, a standard one after one with a scalar', breaks='the second plane keeps the scalar of the first'),
dict(id='b18-frame-vertical', prop='P18',
     edits=[(M, "        if stheta == 0.:\n            if nz == 1.:\n                theta_x = theta_y = 0.\n            elif nz == -1.:\n", "        if stheta < 1e-3:\n            if nz > 0.:\n                theta_x = theta_y = 0.\n            else:\n")],
     demo='''
import numpy as np
from meshmagick.mesh import Plane
p = Plane([8e-4, 0., 1.], 0.)
q = np.array([1., 0., -8e-4])
assert abs(p.coord_in_plane(q)[2]) < 1e-6, p.coord_in_plane(q)
''', needs='a plane tilted by less than a milliradian', breaks='the frame of the plane stays horizontal'),
dict(id='b19-quat-branch', prop='P19',
     edits=[(R, "            if r22 > r11:\n", "            if r22 > r00:\n")],
     demo='''
import numpy as np
from math import pi
from meshmagick.rotations import *
for z in (1e-7, 3e-8, 2e-8):
    m = axis_angle_to_rotmat(np.array([0., 1., z]), pi)
    n = quat_to_rotmat(rotmat_to_quat(m))
    assert abs(m - n).max() < 1e-5, abs(m - n).max()
''', needs='nearly a half turn about an axis very close to y', breaks='the quaternion loses its precision or is not a number'),
dict(id='b20-at-cog-self', prop='P20',
     edits=[(I, "        inertia = deepcopy(self)\n        inertia.shift_at_cog()\n", "        if self.is_at_cog():\n            return self\n        inertia = deepcopy(self)\n        inertia.shift_at_cog()\n")],
     demo='''
from meshmagick.inertia import sphere
s = sphere(1.)
t = s.at_cog
t.reduction_point = [1., 0., 0.]
assert s.is_at_cog() and abs(s.xx - s.yy) < 1e-9
''', needs='an inertia already at its centre of gravity, and its at_cog shifted afterwards', breaks='the original inertia is shifted too'),
dict(id='b20-nem-inplace', prop='P20',
     edits=[(O, "    for face in faces+1:\n        ofile.write('%10u\\t%10u\\t%10u\\t%10u\\n'", "    faces += 1\n    for face in faces:\n        ofile.write('%10u\\t%10u\\t%10u\\t%10u\\n'")],
     demo=CUBE + '''
import os, tempfile
from meshmagick import mmio
d = tempfile.mkdtemp()
f = F.copy()
mmio.write_mesh(os.path.join(d, 'a.nem'), V, f, 'nem')
assert (f == F).all()
''', needs='the arrays used after they have been written', breaks='the faces given by the caller are renumbered'),
dict(id='b21-ellipsoid-axes', prop='P21',
     edits=[(I, "    Ixx = mass * (a ** 2 + c ** 2) / 5.\n    Iyy = mass * (a ** 2 + b ** 2) / 5.\n", "    Ixx = mass * (a ** 2 + b ** 2) / 5.\n    Iyy = mass * (a ** 2 + c ** 2) / 5.\n")],
     demo='''
from meshmagick.inertia import ellipsoid
e = ellipsoid(3., 1., 2.)
assert abs(e.xx - e.mass * (9 + 4) / 5.) < 1e-9
''', needs='three different semi axes', breaks='moments about x and y are exchanged'),
dict(id='b21-hollow-sphere', prop='P21',
     edits=[(I, "    Ixx = Iyy = Izz = 2 * mass * (ext_radius ** 5 - int_radius ** 5) / (ext_radius ** 3 - int_radius ** 3) / 5\n", "    Ixx = Iyy = Izz = 2 * mass * (ext_radius ** 2 + int_radius ** 2) / 5\n")],
     demo='''
from meshmagick.inertia import hollow_sphere
e = hollow_sphere(1., 2.)
assert abs(e.xx - 2 * e.mass * (32 - 1) / (8 - 1) / 5.) < 1e-9
''', needs='a non-zero inner radius', breaks='the moment of hollow spheres'),
dict(id='b06-tiny', prop='P06',
     edits=[(M, "            if hs[2] < 0:\n", "            if hs[2] < -tol:\n")],
     demo=CUBE + """
m = Mesh(V * 2e-4, F[:, ::-1])
m.heal_normals()
assert m.volume > 0, m.volume
""", needs='a closed mesh of a fraction of a cubic millimetre, all of it inside out', breaks='normals stay inward'),
dict(id='b07-vv-boundary', prop='P07',
     edits=[(M, "                v_v[iV].add(face_w[index - 1])\n", "")],
     demo="""
from meshmagick.mesh import Mesh
m = Mesh([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0.]], [[0, 1, 2, 3]])
assert m.vv[0] == {1, 3}, m.vv
""", needs='vertices on the boundary of an open mesh', breaks='vertices on a boundary miss some of their neighbours'),
dict(id='b08-median', prop='P08',
     edits=[(M, "        area_threshold = areas.mean() * float(rtol)\n", "        area_threshold = np.median(areas) * float(rtol)\n")],
     demo="""
import numpy as np
from meshmagick.mesh import Mesh
t = lambda s, k: [[0, 0, k], [s, 0, k], [0, s, k]]
v = t(1000., 0) + t(1., 1) + t(.9, 2) + t(.8, 3)
m = Mesh(v, [[3 * i, 3 * i + 1, 3 * i + 2, 3 * i] for i in range(4)])
m.remove_degenerated_faces(rtol=1e-3)
assert m.nb_faces == 1, m.nb_faces
""", needs='faces of very different areas', breaks='the threshold is no longer the mean area times the tolerance'),
dict(id='b09-add-offset', prop='P09',
     edits=[(M, "mesh_to_add._faces + self.nb_vertices)", "mesh_to_add._faces + self._faces.max() + 1)")],
     demo=CUBE + """
m = Mesh(np.concatenate((V, [[9., 9., 9.]])), F)
k = cube(); k.translate_x(5.)
s = m + k
a = k.vertices[k.faces]; b = s.vertices[s.faces[6:]]
assert (a == b).all()
""", needs='a first mesh whose last vertex is not used by any face', breaks='the faces of the second mesh point to wrong vertices'),
dict(id='b10-vicinity-setter', prop='P10',
     edits=[(C, "        self.__internals__.clear()\n        self._vicinity_tol = float(value)\n        self._update()\n", "        self._vicinity_tol = float(value)\n        self._partition_mesh()\n        self._clip()\n")],
     demo=CUBE + """
from meshmagick.mesh_clipper import MeshClipper
v = V.copy(); v[:, 2] = np.where(v[:, 2] > 0, .5, -1.)
v = np.concatenate((v, v + [0., 0., 0.])); 
m = Mesh([[0, 0, -1], [1, 0, -1], [1, 0, .01], [0, 0, .02], [1, 0, 1], [0, 0, 1.]], [[0, 1, 2, 3], [3, 2, 4, 5]])
c = MeshClipper(m, Plane())
c.vicinity_tol = .05
d = MeshClipper(m, Plane(), vicinity_tol=.05)
a = lambda m: sorted(map(tuple, m.vertices.round(9)))
assert a(c.clipped_mesh) == a(d.clipped_mesh)
""", needs='a clipper whose vicinity tolerance is changed after it has been built', breaks='the clipped mesh is that of the former tolerance'),
dict(id='b01-rotate-integrals', prop='P01',
     edits=[(M, "        if self.has_surface_integrals():\n            self._remove_surface_integrals()\n\n        self._vertices = np.transpose(np.dot(rotmat, self._vertices.copy().T))\n", "        self._vertices = np.transpose(np.dot(rotmat, self._vertices.copy().T))\n"),
            (M, "            self.__internals__['faces_centers'] = np.transpose(np.dot(rotmat, centers.T))\n\n        if self.has_surface_integrals():\n            self._remove_surface_integrals()\n", "            self.__internals__['faces_centers'] = np.transpose(np.dot(rotmat, centers.T))\n\n            if self.has_surface_integrals():\n                self._remove_surface_integrals()\n")],
     demo=CUBE + """
m = Mesh(V + [2., 0., 0.], F)
m.get_surface_integrals()
m.rotate_z(1.)
assert np.allclose(m.get_surface_integrals(), Mesh(m.vertices, m.faces).get_surface_integrals())
""", needs='surface integrals asked for before any face property, then a rotation', breaks='surface integrals are those of the mesh before it was rotated'),
dict(id='b02-scale-copy', prop='P02',
     edits=[(M, "        vertices[:, 1] *= float(alpha)\n", "        vertices[:, 1] = (vertices[:, 1] - vertices[:, 1].min()) * float(alpha) + vertices[:, 1].min()\n")],
     demo=CUBE + """
m = Mesh(V + [0., 3., 0.], F); m.scaley(2.)
assert abs(m.vertices[:, 1].min() - 4.) < 1e-9
""", needs='a mesh that is not based at y = 0', breaks='scaling along y keeps the lowest y instead of the origin'),
dict(id='b03-shell-centre', prop='P03',
     edits=[(M, "        cog = np.array([s0, s1, s2], dtype=float) / surface\n", "        cog = self.faces_centers.mean(axis=0)\n")],
     demo=CUBE + """
m = Mesh(V + [0., 0., 1.], F); m.triangulate_quadrangles()
m = Mesh(m.vertices, np.concatenate((m.faces[:3], m.faces[4:])))
c = (m.faces_areas[:, None] * m.faces_centers).sum(0) / m.faces_areas.sum()
assert abs(m.eval_shell_mesh_inertias().gravity_center - c).max() < 1e-9
m = Mesh(V * [1., 2., 3.], F[[0, 2, 3]])
c = (m.faces_areas[:, None] * m.faces_centers).sum(0) / m.faces_areas.sum()
assert abs(m.eval_shell_mesh_inertias().gravity_center - c).max() < 1e-9
""", needs='faces of different areas', breaks='the centre of gravity of shells does not weigh faces by their areas'),
dict(id='b05-first-level', prop='P05',
     edits=[(T, "                    if np.abs(cur_val - vref) > atol:\n", "                    if not np.isclose(cur_val, vref, atol=atol):\n")],
     demo="""
import numpy as np
from meshmagick.tools import merge_duplicate_rows
a = np.array([[1e5, 0., 0.], [1e5 + .01, 0., 0.]])
assert len(merge_duplicate_rows(a)) == 2
""", needs='points far from the origin', breaks='the tolerance grows with the distance to the origin'),
dict(id='b12-perpendiculars', prop='P12',
     edits=[(H, "            hs_data['length_between_perpendiculars'] = hs_data['forward_perpendicular']\n", "            hs_data['length_between_perpendiculars'] = maxx\n")],
     demo=CUBE + """
from meshmagick.hydrostatics import compute_hydrostatics
m = Mesh(V * [10., 2., 1.] + [10., 0., 0.], F)
d = compute_hydrostatics(m, np.array([9., 0., 0.]), 1000., 10., at_cog=True, orig_at_ap=True)
assert abs(d['length_between_perpendiculars'] - 20) < 1e-6, d['length_between_perpendiculars']
""", needs='origin at the aft perpendicular, results expressed at the centre of gravity', breaks='length between perpendiculars counted from the centre of gravity'),
dict(id='b14-iterations', prop='P14',
     edits=[(H, "        rx_relax = ry_relax = radians(2)\n", "        rx_relax = ry_relax = radians(.2)\n")],
     demo=CUBE + """
from meshmagick.hydrostatics import full_equilibrium, compute_hydrostatics
m = Mesh(V * [10., 5., 2.], F)
g = np.array([0., 2.5, -1.])
z, r = full_equilibrium(m, g, 10 * 5 * 2 * 8 / 2., 1000., 10.)
d = compute_hydrostatics(m, g, 1000., 10., rotmat_corr=r, z_corr=z)
x = np.dot(r, d['buoyancy_center'] - g)
assert abs(x[:2]).max() < 1e-3, x
""", needs='an equilibrium more than twenty degrees away', breaks='the search stops before equilibrium is reached'),
dict(id='b16-msh-tags', prop='P16',
     edits=[(O, "        quadrangle = quad_elt[-4:]\n", "        quadrangle = quad_elt[5:]\n")],
     demo=CUBE + """
import os, tempfile
from meshmagick import mmio
p = os.path.join(tempfile.mkdtemp(), 'a.msh')
open(p, 'w').write('$MeshFormat\\n2.2 0 8\\n$EndMeshFormat\\n$Nodes\\n8\\n' + ''.join('%d %r %r %r\\n' % ((i + 1,) + tuple(map(float, v))) for i, v in enumerate(V))
  + '$EndNodes\\n$Elements\\n6\\n' + ''.join('%d 3 3 1 1 0 %d %d %d %d\\n' % ((i + 1,) + tuple(f + 1)) for i, f in enumerate(F)) + '$EndElements\\n')
a, b = mmio.load_mesh(p, 'msh')
assert b.shape == (6, 4) and (b == F).all()
""", needs='quadrangles that carry another number of tags than two', breaks='node numbers are read from the tags'),
dict(id='b17-symmetrize-heal', prop='P17',
     edits=[(L, "    if args.heal_normals and not args.heal_mesh:\n", "    if args.heal_normals and not args.heal_mesh and args.symmetrize is None:\n")],
     demo=CUBE + """
import os, tempfile, subprocess
from meshmagick import mmio
d = tempfile.mkdtemp()
f = F.copy(); f[2] = f[2, ::-1]
mmio.write_mesh(os.path.join(d, 'a.obj'), V + [0., 3., 0.], f, 'obj')
subprocess.run([sys.executable, '-m', 'meshmagick.cli', os.path.join(d, 'a.obj'), '-sym', '-hn', '-o', os.path.join(d, 'b.obj')], check=True, stdout=subprocess.DEVNULL)
m = Mesh(*mmio.load_mesh(os.path.join(d, 'b.obj'), 'obj'))
assert abs(m.volume - 16) < 1e-3, m.volume
""", needs='healing normals and symmetrizing asked for together', breaks='normals are not healed'),
dict(id='b18-set-parameters', prop='P18',
     edits=[(M, "        self._scalar = self._scalar * ctheta + scalar\n", "        self._scalar += scalar\n")],
     demo="""
import numpy as np
from math import cos
from meshmagick.mesh import Plane
p = Plane([0., 0., 1.], 2.)
p.set_plane_parameters(.5, .3, 0.)
assert abs(p.c - (2 * cos(.3) + .5)) < 1e-9, p.c
""", needs='a plane away from the origin, tilted by its parameters', breaks='the plane moves along its axis'),
dict(id='b19-cardan-pole', prop='P19',
     edits=[(R, "            theta = _pi_2\n            psi = -atan2(-r12, r11)\n", "            theta = _pi_2\n            psi = atan2(-r12, r11)\n")],
     demo="""
import numpy as np
from meshmagick.rotations import *
m = np.array([[0., np.sin(-.4), np.cos(.4)], [0., np.cos(.4), np.sin(.4)], [-1., 0., 0.]])
assert abs(cardan_to_rotmat(*rotmat_to_cardan(m)) - m).max() < 1e-6
""", needs='a pitch of exactly ninety degrees', breaks='the yaw has the wrong sign'),
]
SEEDS = [s for s in SEEDS if s['demo']]
