M = 'meshmagick/mesh.py'
C = 'meshmagick/mesh_clipper.py'
CUBE = '''
import sys, numpy as np
from meshmagick.mesh import Mesh, Plane
V = np.array([[x, y, z] for z in (-1., 1.) for (x, y) in ((-1., -1.), (1., -1.), (1., 1.), (-1., 1.))])
F = np.array([[0, 3, 2, 1], [4, 5, 6, 7], [0, 1, 5, 4], [1, 2, 6, 5], [2, 3, 7, 6], [3, 0, 4, 7]])
def cube(): return Mesh(V, F)
'''
SEEDS = [
dict(id='a01-tri-connectivity', prop='P01',
     edits=[(M, "        self.__internals__.clear()\n\n        self._faces = faces\n\n        return faces", "        self._remove_faces_properties()\n\n        self._faces = faces\n\n        return faces")],
     demo=CUBE + '''
m = cube(); m.vv; m.triangulate_quadrangles()
f = Mesh(m.vertices, m.faces)
assert m.ff == f.ff and m.vv == f.vv
''', needs='connectivity asked for before the quadrangles are split, and again afterwards', breaks='vertex, face neighbours and closedness stay those of the quadrangles'),
dict(id='a02-extract-order', prop='P09',
     edits=[(M, "        faces_extracted = self._faces[id_faces_to_extract]\n", "        faces_extracted = self._faces[np.sort(id_faces_to_extract)]\n")],
     demo=CUBE + '''
m = cube(); e = m.extract_faces([4, 1, 2])
assert (e.vertices[e.faces] == m.vertices[m.faces[[4, 1, 2]]]).all()
''', needs='faces asked for in an order that is not increasing', breaks='extracted faces come in increasing order, not in the order asked'),
dict(id='a03-mirror-negative', prop='P02',
     edits=[(M, "        self._vertices -= 2 * np.outer(np.dot(self._vertices, plane.normal) - plane.c, plane.normal)\n", "        self._vertices -= 2 * np.outer(np.dot(self._vertices, plane.normal) - abs(plane.c), plane.normal)\n")],
     demo=CUBE + '''
m = cube(); m.mirror(Plane(normal=[1, 0, 0], scalar=-3.))
assert abs(m.vertices[:, 0].min() + 7) < 1e-12, m.vertices
''', needs='a mirror plane with a negative scalar', breaks='the reflection is made in the opposite plane'),
dict(id='a04-quad-center', prop='P03',
     edits=[(M, "np.array(([a2, ] * 3)).T * c2)", "np.array(([a1, ] * 3)).T * c2)"), (M, "faces_centers[quads_id] /= np.array(([faces_areas[quads_id], ] * 3)).T", "faces_centers[quads_id] /= np.array(([2. * a1, ] * 3)).T")],
     demo='''
import numpy as np
from meshmagick.mesh import Mesh
m = Mesh([[0, 0, 0], [4, 0, 0], [4, 1, 0], [0, 3, 0.]], [[0, 1, 2, 3]])
a = np.array([2., 6.]); c = np.array([[8/3., 1/3., 0], [4/3., 4/3., 0]])
assert abs(m.faces_centers[0] - (a[:, None] * c).sum(0) / 8.).max() < 1e-9, m.faces_centers
''', needs='a quadrangle whose two triangles have different areas', breaks='centres of quadrangles are the mean of the centres of the two triangles'),
dict(id='a05-heal-mixed', prop='P06',
     edits=[(M, "adj_face_ref = np.roll(adjface[:type_cell[iadj_f]], -np.where(adjface == i_v1)[0][0])", "adj_face_ref = np.roll(adjface[:type_cell[iface]], -np.where(adjface == i_v1)[0][0])")],
     demo='''
import numpy as np, itertools
from meshmagick.mesh import Mesh
V = [[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [.5, .5, 1.]]
F0 = [[0, 3, 2, 1], [0, 1, 4, 0], [1, 2, 4, 1], [2, 3, 4, 2], [3, 0, 4, 3]]
for r in itertools.product([0, 1], repeat=5):
    for rolls in range(4):
        F = [np.roll(F0[0], rolls).tolist()] + F0[1:]
        F = [f[::-1] if k else f for f, k in zip(F, r)]
        m = Mesh(V, F); m.heal_normals()
        e = [(int(f[i]), int(f[i + 1])) for f in m.faces for i in range(3)] + [(int(f[3]), int(f[0])) for f in m.faces if f[0] != f[3]]
        assert len(set(e)) == len(e), (r, m.faces)
        assert m.volume > 0
''', needs='a triangle next to a quadrangle, their shared edge closing one of them, one of them reversed', breaks='the orientation of the adjacent face is read modulo the wrong number of corners'),
dict(id='a06-boundary-triangle', prop='P07',
     edits=[(M, "                    if ids[1] != ids[0]+1:\n", "                    if ids[1] == ids[0]+3:\n")],
     demo='''
import numpy as np
from meshmagick.mesh import Mesh
m = Mesh([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0.]], [[0, 1, 2, 0], [2, 3, 0, 2]])
b = m.boundaries
assert len(b) == 1 and len(b[0]) == 5 and sorted(b[0][1:]) == [0, 1, 2, 3], b
m = Mesh([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0.]], [[0, 1, 2, 0], [0, 2, 3, 0]])
b = m.boundaries
assert len(b) == 1 and len(b[0]) == 5 and sorted(b[0][1:]) == [0, 1, 2, 3], b
''', needs='an open mesh with a triangle whose last edge (from its third corner to its first) is on the boundary', breaks='the edge is run in the wrong direction and the boundary falls apart'),
dict(id='a07-heal-triangles-roll', prop='P08',
     edits=[(M, """        faces[quads] = np.roll(faces[quads], 1, axis=1)
        quads = faces[:, 0] != faces[:, -1]
        nquads_final = sum(quads)
""", """        faces[quads] = np.roll(faces[quads], 2, axis=1)
        quads = faces[:, 0] != faces[:, -1]
        nquads_final = sum(quads)
""")],
     demo='''
import numpy as np
from meshmagick.mesh import Mesh
for f in ([0, 1, 2, 0], [0, 0, 1, 2], [0, 1, 1, 2], [0, 1, 2, 2]):
    m = Mesh([[0, 0, 0], [1, 0, 0], [1, 1, 0.]], [f]); m.heal_triangles()
    assert m.faces[0][0] == m.faces[0][-1], (f, m.faces)
''', needs='a triangle written with its repeated corner at one particular place', breaks='that triangle stays a quadrangle with two identical corners'),
dict(id='a08-clip-211', prop='P10',
     edits=[(C, "                    boundary_edge = [index, face[0]]\n                    crown_faces.append([index, face[3], face[0], index])", "                    boundary_edge = [index, face[0]]\n                    crown_faces.append([index, face[0], face[3], index])")],
     demo='''
import numpy as np
from meshmagick.mesh import Mesh, Plane
from meshmagick.mesh_clipper import MeshClipper
q = [[0, 0, 0], [1, 0, 1.], [2, 0, 1.], [1.5, 0, -1.]]
for k in range(4):
    for s in (1, -1):
        P = np.roll(np.array(q), k, axis=0)[::s]
        m = Mesh(P, [[0, 1, 2, 3]]); c = MeshClipper(m).clipped_mesh
        assert (c.faces_normals @ m.faces_normals[0] > .99).all(), (k, s)
''', needs='a quadrangle with one corner on the plane, two above and one below, in one of the two turning senses', breaks='the piece kept below the plane is turned over'),
dict(id='a09-merge-sign', prop='P05',
     edits=[('meshmagick/tools.py', "        if len(levels_tmp) == nv:\n", "        if dim > 0 and len(levels_tmp) == nv - 1 and nv > 3:\n            levels_tmp = list(range(nv))\n        if len(levels_tmp) == nv:\n")],
     demo='''
import numpy as np
from meshmagick.tools import merge_duplicate_rows
a, i = merge_duplicate_rows(np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [1, 0, 0.]]), return_index=True)
assert len(a) == 4, a
''', needs='exactly one pair of coincident vertices among more than three', breaks='a single duplicate vertex is not merged'),
]
