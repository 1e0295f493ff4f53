import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from b import M, C, H, I, R, O, T, L, CUBE
SEEDS = [
dict(id='c01-copy-caches', prop='P20', also=['P01'],
     edits=[(M, "        return copy.deepcopy(self)\n", "        new_mesh = copy.copy(self)\n        new_mesh._vertices = self._vertices.copy()\n        new_mesh._faces = self._faces.copy()\n        new_mesh.__internals__ = dict(self.__internals__)\n        return new_mesh\n")],
     demo=CUBE + '''
m = cube()
m.faces_centers
c = m.copy()
c.translate_x(10.)
assert abs(m.faces_centers[:, 0]).max() < 1.5, m.faces_centers
''', needs='a copy taken once face centres were asked for, then moved', breaks='the centres of the original mesh move with its copy'),
dict(id='c02-rotation-neglected', prop='P02',
     edits=[(M, "        phi, theta, psi = angles\n", "        phi, theta, psi = [0. if abs(angle) < 1e-6 else angle for angle in angles]\n")],
     demo=CUBE + '''
m = Mesh(V * 1e4, F)
for i in range(1000): m.rotate_z(9e-7)
assert abs(m.vertices[0] - V[0] * 1e4).max() > 5., m.vertices[0]
''', needs='a rotation of less than a millionth of a radian, of a large mesh or many times', breaks='small rotations are neglected'),
dict(id='c03-other-diagonal', prop='P03',
     edits=[(M, "self._compute_triangles_integrals(self._vertices[quadrangles[:, (0, 1, 2)]])", "self._compute_triangles_integrals(self._vertices[quadrangles[:, (0, 1, 3)]])"),
            (M, "self._compute_triangles_integrals(self._vertices[quadrangles[:, (0, 2, 3)]])", "self._compute_triangles_integrals(self._vertices[quadrangles[:, (1, 2, 3)]])")],
     demo=CUBE + '''
w = V.copy()
w[6] += [.3, .2, .4]
m = Mesh(w, F)
g = m.eval_shell_mesh_inertias(1., 1.).gravity_center
c = (m.faces_areas[:, None] * m.faces_centers).sum(axis=0) / m.faces_areas.sum()
assert abs(g - c).max() < 1e-9, (g, c)
''', needs='quadrangles that are not plane', breaks='integrals are over other triangles than areas and centres'),
dict(id='c05-exact', prop='P05',
     edits=[(T, "                    if np.abs(cur_val - vref) > atol:", "                    if np.abs(cur_val - vref) >= atol:")],
     demo='''
import numpy as np
from meshmagick.tools import merge_duplicate_rows
v = np.array([[0., 0., 0.], [1., 0., 0.], [0., 0., 0.]])
w, n = merge_duplicate_rows(v, atol=0., return_index=True)
assert len(w) == 2 and n[0] == n[2], (w, n)
''', needs='merging with tolerance 0, or vertices at exactly the tolerance', breaks='identical vertices are not merged'),
dict(id='c08-heal-order', prop='P08',
     edits=[(M, "        self.merge_duplicates()\n        self.heal_triangles()\n        self.heal_normals()\n", "        self.heal_triangles()\n        self.merge_duplicates()\n        self.heal_normals()\n")],
     demo=CUBE + '''
w = np.concatenate((V, [V[0]]))
f = F.copy()
f[5] = [8, 3, 7, 0]
m = Mesh(w, f)
m.heal_mesh()
for a in m.faces:
    assert len(set(a)) == 4 or (a[0] == a[3] and len(set(a)) == 3), m.faces
''', needs='a triangle given as a quadrangle with two coincident but distinct vertices', breaks='the healed mesh has inconsistent triangles'),
dict(id='c09-seam', prop='P09',
     edits=[(M, "        self.verbose_off()\n        self.merge_duplicates()\n", "        self.verbose_off()\n        self.merge_duplicates(atol=1e-3)\n")],
     demo=CUBE + '''
m = Mesh(V * [1., 4e-4, 1.] + [0., 1., 0.], F)
m.symmetrize(Plane([0., 1., 0.]))
assert m.nb_vertices == 16, m.nb_vertices
''', needs='vertices closer to each other than a millimetre', breaks='distinct vertices are merged by symmetrization'),
dict(id='c12-inertia-placed', prop='P12',
     edits=[(H, "    inertia.set_cog(wcog)\n", "    inertia.set_cog(cog)\n")],
     demo=CUBE + '''
from meshmagick.hydrostatics import compute_hydrostatics
m = Mesh(V * [5., 2., 1.], F)
g = np.array([0., 0., 1.])
a = compute_hydrostatics(m, g, 1000., 10., z_corr=.5)
m.translate_z(.5)
b = compute_hydrostatics(m, g + [0., 0., .5], 1000., 10.)
for k in ('Ixx', 'Iyy', 'Izz'): assert abs(a[k] - b[k]) < 1e-6 * b[k], (k, a[k], b[k])
''', needs='hydrostatics with a correction of the position of the hull', breaks='inertias are about a point that is not the centre of gravity'),
dict(id='c13-small-step', prop='P13',
     edits=[(H, "        if math.fabs(mass_residual / disp_kg) < reltol:\n", "        if math.fabs(mass_residual / disp_kg) < reltol or math.fabs(dz) < 1e-5:\n")],
     demo=CUBE + '''
from meshmagick.hydrostatics import displacement_equilibrium, compute_hydrostatics
w = V * [1., 1., 1.]
w[w[:, 2] < 0., :2] *= .2
m = Mesh(w, F)
full = m.volume
for i in range(60):
    t = full * (.1 + .01 * i)
    z = displacement_equilibrium(m, t, 1000., 10., reltol=1e-6)
    d = compute_hydrostatics(m, np.zeros(3), 1000., 10., z_corr=z)['disp_mass'] / 1000.
    assert abs(d - t) < 2e-6 * t, (d, t)
''', needs='a hull for which the last correction is below a hundredth of a millimetre', breaks='the displacement is not the one asked for within the tolerance'),
dict(id='c13-iterations', prop='P13',
     edits=[(H, "    disp_kg = disp_tons * 1000\n\n    itermax = 100\n    iter = 1\n\n    z_corr = 0.\n", "    disp_kg = disp_tons * 1000\n\n    itermax = 8\n    iter = 1\n\n    z_corr = 0.\n")],
     demo=CUBE + '''
from meshmagick.hydrostatics import displacement_equilibrium, compute_hydrostatics
w = V * [10., 10., 10.]
w[w[:, 2] < 0., :2] *= 1e-2
m = Mesh(w, F)
for x in (1e-4, 1e-3, 1e-2, .9, .99):
    t = m.volume * x
    z = displacement_equilibrium(m, t, 1000., 10., reltol=1e-6)
    d = compute_hydrostatics(m, np.zeros(3), 1000., 10., z_corr=z)['disp_mass'] / 1000.
    assert abs(d - t) < 1e-5 * t, (d, t)
''', needs='a hull whose displacement is far from linear in its draught', breaks='the search stops before it has converged'),
dict(id='c15-obj-thin', prop='P15',
     edits=[(O, '            ofile.write("v  %15.6f\\t%15.6f\\t%15.6f\\n" % (vertex[0], vertex[1], vertex[2]))', '            ofile.write("v  %.7g\\t%.7g\\t%.7g\\n" % (vertex[0], vertex[1], vertex[2]))')],
     demo=CUBE + '''
import os
from meshmagick import mmio
v = V * 1.5 + [123456.123, 0., 0.]
p = os.path.join(sys.argv[1], 'a.obj')
mmio.write_mesh(p, v, F, 'obj')
w = np.array([[float(x) for x in l.split()[1:]] for l in open(p) if l.startswith('v')])
assert abs(w - v).max() < 1e-5, w
''', needs='a mesh far from the origin', breaks='coordinates are written with seven significant digits'),
dict(id='c17-density', prop='P17',
     edits=[(L, "            hs_data = hs.compute_hydrostatics(mesh, np.zeros(3), water_density, grav, at_cog=False)\n            disp =", "            hs_data = hs.compute_hydrostatics(mesh, np.zeros(3), 1025., grav, at_cog=False)\n            disp =")],
     demo=CUBE + '''
import os, subprocess, re
from meshmagick import mmio
mmio.write_mesh('a.nat', V * [10., 5., 2.], F, 'nat')
o = subprocess.run([sys.executable, '-c', 'from meshmagick.cli import main; main()', 'a.nat', '-hs', '-cog', '0', '0', '-1', '-wd', '1000'], capture_output=True, text=True).stdout
x = float(re.search(r'DISPLACEMENT MASS.*> *([0-9.]+)', o).group(1))
assert abs(x - 400.) < .1, x
''', needs='-hs with -cog and -wd but without -mdisp', breaks='the hull is brought to a displacement computed with another density'),
dict(id='c18-small-angles', prop='P18',
     edits=[(M, "        if theta == 0.:\n            self.normal = [0., 0., 1.]\n", "        if theta < 1e-6:\n            self.normal = [0., 0., 1.]\n")],
     demo=CUBE + '''
p = Plane()
p.set_normal_from_angles(4e-7, -8e-7)
assert abs(p.normal - [-8e-7, -4e-7, 1.]).max() < 1e-9, p.normal
''', needs='a normal given by angles below a millionth of a radian', breaks='the plane stays horizontal'),
dict(id='c19-gimbal', prop='P19',
     edits=[(R, "    if r20 < 1.:\n        if r20 > -1.:\n", "    if r20 < .999999:\n        if r20 > -.999999:\n")],
     demo='''
import numpy as np
from meshmagick.rotations import cardan_to_rotmat, rotmat_to_cardan
m = cardan_to_rotmat(.3, np.pi / 2 - 1e-3, .7)
assert abs(cardan_to_rotmat(*rotmat_to_cardan(m)) - m).max() < 1e-9
''', needs='a pitch within a milliradian of the vertical', breaks='it is taken for vertical'),
]
SEEDS = [s for s in SEEDS if s['demo']]
