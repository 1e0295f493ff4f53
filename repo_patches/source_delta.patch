From f6ed821577566a817713a0bf54cd428e4def28d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 01/71] fix: surface integrals of the products yz, xz and xy
 over triangles

---
 meshmagick/mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index c410b32..80bb1b1 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -2087,9 +2087,9 @@ class Mesh(object):
 
         s_int[0:3] = np.einsum('i, ij -> ji', delta, f1) / 6.
 
-        s_int[3] = delta * (6.*point_0.y*point_0.z + 3*(point_1.y*point_1.z + point_2.y*point_2.z) - point_0.y*f1[:, 2] - point_0.z*f1[:, 1]) / 12.
-        s_int[4] = delta * (6.*point_0.x*point_0.z + 3*(point_1.x*point_1.z + point_2.x*point_2.z) - point_0.x*f1[:, 2] - point_0.z*f1[:, 0]) / 12.
-        s_int[5] = delta * (6.*point_0.x*point_0.y + 3*(point_1.x*point_1.y + point_2.x*point_2.y) - point_0.x*f1[:, 1] - point_0.y*f1[:, 0]) / 12.
+        s_int[3] = delta * (f1[:, 1] * f1[:, 2] + point_0.y*point_0.z + point_1.y*point_1.z + point_2.y*point_2.z) / 24.
+        s_int[4] = delta * (f1[:, 0] * f1[:, 2] + point_0.x*point_0.z + point_1.x*point_1.z + point_2.x*point_2.z) / 24.
+        s_int[5] = delta * (f1[:, 0] * f1[:, 1] + point_0.x*point_0.y + point_1.x*point_1.y + point_2.x*point_2.y) / 24.
 
         s_int[6:9] = np.einsum('i, ij -> ji', delta, f2) / 12.
         s_int[9:12] = np.einsum('i, ij -> ji', delta, f3) / 20.
-- 
2.43.0


From 1657aeed60b49288388daad1c4c27b619a5ea135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 02/71] fix: scalings drop cached integrals and triangle ids
 even without face properties

---
 meshmagick/mesh.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index 80bb1b1..93f4ca7 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -1396,8 +1396,7 @@ class Mesh(object):
         vertices *= float(alpha)
         self._vertices = vertices
 
-        if self._has_faces_properties():
-            self._remove_faces_properties()
+        self._remove_faces_properties()
 
         return
 
@@ -1415,8 +1414,7 @@ class Mesh(object):
         vertices[:, 0] *= float(alpha)
         self._vertices = vertices
 
-        if self._has_faces_properties():
-            self._remove_faces_properties()
+        self._remove_faces_properties()
 
         return
 
@@ -1434,8 +1432,7 @@ class Mesh(object):
         vertices[:, 1] *= float(alpha)
         self._vertices = vertices
 
-        if self._has_faces_properties():
-            self._remove_faces_properties()
+        self._remove_faces_properties()
 
         return
 
@@ -1453,8 +1450,7 @@ class Mesh(object):
         vertices[:, 2] *= float(alpha)
         self._vertices = vertices
 
-        if self._has_faces_properties():
-            self._remove_faces_properties()
+        self._remove_faces_properties()
 
         return
 
-- 
2.43.0


From 229fb8599ecf5207b8200ed954815ba857a932bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 03/71] fix: heal_triangles drops every cached quantity that
 depends on faces

---
 meshmagick/mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index 93f4ca7..a831660 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -1714,8 +1714,8 @@ class Mesh(object):
 
         A general face is stored internally as a 4 integer array. It allows to describe indices of a quadrangle's vertices. For triangles, the first index should be equal to the last. This method ensures that this rule is applied everywhere and correct bad triangles description.
         """
-        if self._has_faces_properties():
-            self._remove_faces_properties()
+        self._remove_faces_properties()
+        self._remove_connectivity()
 
         faces = self._faces
 
-- 
2.43.0


From 4d1b02e5e3869bf8e1221b0bafd50c75a1d69456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 04/71] fix: remove_degenerated_faces drops the cached
 connectivity

---
 meshmagick/mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index a831660..0e23d5a 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -1774,8 +1774,8 @@ class Mesh(object):
 
         self._faces = faces
 
-        if self._has_faces_properties():
-            self._remove_faces_properties()
+        self._remove_faces_properties()
+        self._remove_connectivity()
 
         return
 
-- 
2.43.0


From db506416b10a52ac81fd01bbb3705b0e92453c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 05/71] fix: merge_duplicates drops cached face properties and
 integrals

---
 meshmagick/mesh.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index 0e23d5a..64063a6 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -1545,6 +1545,8 @@ class Mesh(object):
                 print(("\t--> Final number of vertices   : %u" % nv_final))
                 print(("\t--> %u vertices have been merged\n" % delta_n))
 
+        self._remove_faces_properties()
+
         if self._has_connectivity():
             self._remove_connectivity()
 
-- 
2.43.0


From b3413b6cda8739219cfb92d8005303d8e02e7400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 06/71] fix: heal_normals no longer corrupts the face
 connectivity nor uses stale normals

---
 meshmagick/mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index 64063a6..cab83e2 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -1567,7 +1567,7 @@ class Mesh(object):
         # Building connectivities
         v_v = self.vv
         v_f = self.vf
-        f_f = self.ff
+        f_f = dict((iface, set(adj)) for (iface, adj) in self.ff.items())  # Modified below
         boundaries = self.boundaries
 
         if len(boundaries) > 0:
@@ -1640,6 +1640,8 @@ class Mesh(object):
                 print("\t--> Normals orientations are consistent")
 
         self._faces = faces
+        self._remove_faces_properties()
+        self._remove_connectivity()
 
         # Checking if the normals are outward
         if mesh_closed:
-- 
2.43.0


From 555be1a53c12de210453f176b70f6c92b9083133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 07/71] fix: flip_normals drops the boundaries oriented by the
 previous faces

---
 meshmagick/mesh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index cab83e2..ae75eda 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -1466,6 +1466,9 @@ class Mesh(object):
         if self.has_surface_integrals():
             self._remove_surface_integrals()
 
+        # Boundaries follow the orientation of faces
+        self._remove_connectivity()
+
         return
 
     def __add__(self, mesh_to_add):
-- 
2.43.0


From 989996be869225d0d547888f373b051cce85774a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 08/71] fix: a mesh with an edge belonging to a single face is
 not closed

---
 meshmagick/mesh.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index ae75eda..46713f6 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -936,8 +936,6 @@ class Mesh(object):
         nv = self.nb_vertices
         nf = self.nb_faces
 
-        mesh_closed = True
-
         # Building connectivities
 
         # Establishing v_v and v_f connectivities
@@ -982,8 +980,12 @@ class Mesh(object):
                 else:
                     raise RuntimeError('Unexpected error while computing mesh connectivities')
 
+        # The mesh is closed if no edge belongs to a single face
+        mesh_closed = len(boundary_edges) == 0
+
         # Computing boundaries
         boundaries = list()
+        open_boundary = False
         # TODO: calculer des boundaries fermees et ouvertes (closed_boundaries et open_boundaries) et mettre dans dict
         while True:
             try:
@@ -1000,20 +1002,21 @@ class Mesh(object):
                         i_v0 = i_v1
                     except KeyError:
                         if boundary[0] != boundary[-1]:
-                            mesh_closed = False
+                            open_boundary = True
                         else:
                             boundaries.append(boundary)
                         break
             except KeyError:
                 break
 
-        if not mesh_closed:
+        if open_boundary:
             print('FOUND OPEN BOUNDARY!!!')
 
         connectivity = {'v_v': v_v,
                         'v_f': v_f,
                         'f_f': f_f,
-                        'boundaries': boundaries}
+                        'boundaries': boundaries,
+                        'mesh_closed': mesh_closed}
         self.__internals__.update(connectivity)
 
         return
@@ -1027,6 +1030,7 @@ class Mesh(object):
             del self.__internals__['v_f']
             del self.__internals__['f_f']
             del self.__internals__['boundaries']
+            del self.__internals__['mesh_closed']
         return
 
     @property
@@ -1140,9 +1144,9 @@ class Mesh(object):
         bool
             True if the mesh is closed (i.e. it has no boundaries)
         """
-        if 'boundaries' not in self.__internals__:
+        if 'mesh_closed' not in self.__internals__:
             self._connectivity()
-        return len(self.__internals__['boundaries']) == 0
+        return self.__internals__['mesh_closed']
 
     def is_mesh_conformal(self):
         """Returns if the mesh is conformal.
@@ -1571,12 +1575,7 @@ class Mesh(object):
         v_v = self.vv
         v_f = self.vf
         f_f = dict((iface, set(adj)) for (iface, adj) in self.ff.items())  # Modified below
-        boundaries = self.boundaries
-
-        if len(boundaries) > 0:
-            mesh_closed = False
-        else:
-            mesh_closed = True
+        mesh_closed = self.is_mesh_closed()
 
         # Flooding the mesh to find inconsistent normals
         type_cell = np.zeros(nf, dtype=int)
-- 
2.43.0


From f2f125157e33f3ef868df70949302b81958dbba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:34 +0000
Subject: [PATCH 09/71] fix: a vertex exactly at the vicinity tolerance lies on
 the clipping plane

---
 meshmagick/mesh_clipper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/mesh_clipper.py b/meshmagick/mesh_clipper.py
index c4af7dd..691b232 100644
--- a/meshmagick/mesh_clipper.py
+++ b/meshmagick/mesh_clipper.py
@@ -122,7 +122,7 @@ class MeshClipper(object):
 
         vertices_positions = {'vertices_distances': vertices_distances,
                               'vertices_above_mask': vertices_distances > self._vicinity_tol,
-                              'vertices_on_mask': np.fabs(vertices_distances) < self._vicinity_tol,
+                              'vertices_on_mask': np.fabs(vertices_distances) <= self._vicinity_tol,
                               'vertices_below_mask': vertices_distances < -self._vicinity_tol
                               }
 
-- 
2.43.0


From fa810d47d2925e612eaf2e7399e7833e60950416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:34 +0000
Subject: [PATCH 10/71] fix: a mesh only touching the clipping plane from above
 is refused as above

---
 meshmagick/mesh_clipper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/mesh_clipper.py b/meshmagick/mesh_clipper.py
index 691b232..e4035e2 100644
--- a/meshmagick/mesh_clipper.py
+++ b/meshmagick/mesh_clipper.py
@@ -126,7 +126,7 @@ class MeshClipper(object):
                               'vertices_below_mask': vertices_distances < -self._vicinity_tol
                               }
 
-        if np.all(vertices_positions['vertices_above_mask']):
+        if not np.any(vertices_positions['vertices_below_mask']):
             # Cannot clip as this mesh is totally above or below the clipping plane. Throwing an error
             raise RuntimeError("Mesh does not crosses the clipping plane", "above")
 
-- 
2.43.0


From f369aab17afa790ff5b467b00f944f7632d1edaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:34 +0000
Subject: [PATCH 11/71] fix: clipping a mesh with pieces on both sides but no
 crossing face

---
 meshmagick/mesh_clipper.py | 2 +-
 meshmagick/tools.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mesh_clipper.py b/meshmagick/mesh_clipper.py
index e4035e2..10dca91 100644
--- a/meshmagick/mesh_clipper.py
+++ b/meshmagick/mesh_clipper.py
@@ -669,7 +669,7 @@ class MeshClipper(object):
         if len(intersections) > 0:
             vertices = np.concatenate((vertices, intersections))
         
-        clipped_crown_mesh = Mesh(vertices, crown_faces)
+        clipped_crown_mesh = Mesh(vertices, np.array(crown_faces, dtype=int).reshape((-1, 4)))
 
         # TODO: faire un merge uniquement sur la liste instersections et non sur tout le maillage clipped_crown
         # FIXME: potentiellement, un bug a ete introduit ici !!! --> l'update n'est plus bon sur les dictionnaires...
diff --git a/meshmagick/tools.py b/meshmagick/tools.py
index 4e03568..c06c343 100644
--- a/meshmagick/tools.py
+++ b/meshmagick/tools.py
@@ -37,7 +37,7 @@ def merge_duplicate_rows(arr, atol=1e-8, return_index=False):
     
     nv, nbdim = arr.shape
 
-    levels = [0, nv]
+    levels = [0, nv] if nv > 0 else [0]
     iperm = np.arange(nv)
 
     for dim in range(nbdim):
-- 
2.43.0


From f98bad06b56fb1c46fc653183b5f184c6ad749d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:34 +0000
Subject: [PATCH 12/71] fix: clippers do not share their default plane

---
 meshmagick/mesh_clipper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mesh_clipper.py b/meshmagick/mesh_clipper.py
index 10dca91..4e2a750 100644
--- a/meshmagick/mesh_clipper.py
+++ b/meshmagick/mesh_clipper.py
@@ -23,9 +23,9 @@ class MeshClipper(object):
     verbose : bool, optional
         False by default. If True, some messages on operations that are handled are printed.
     """
-    def __init__(self, source_mesh, plane=Plane(), vicinity_tol=1e-3, assert_closed_boundaries=False, verbose=False):
+    def __init__(self, source_mesh, plane=None, vicinity_tol=1e-3, assert_closed_boundaries=False, verbose=False):
         self._source_mesh = source_mesh
-        self._plane = plane
+        self._plane = Plane() if plane is None else plane
 
         self._vicinity_tol = vicinity_tol
 
-- 
2.43.0


From 1f33da29856eaf124d416b6523d161d8f56a4760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:34 +0000
Subject: [PATCH 13/71] fix: clipping quadrangles having three vertices on the
 plane

---
 meshmagick/mesh_clipper.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/meshmagick/mesh_clipper.py b/meshmagick/mesh_clipper.py
index 4e2a750..a74ec59 100644
--- a/meshmagick/mesh_clipper.py
+++ b/meshmagick/mesh_clipper.py
@@ -647,6 +647,24 @@ class MeshClipper(object):
                 boundary_edge = None
                 crown_faces.append(list(face))
                 
+            elif face_type == '031':
+                # Quadrangle with three aligned vertices on the plane
+                #  ----*---*---*----
+                #     3 \  2  / 1
+                #        \   /
+                #         \ /
+                #          *0
+                face = np.roll(face, -v_below_face[0])
+                boundary_edge = None
+                for edge in ([face[2], face[1]], [face[3], face[2]]):
+                    direct_boundary_edges[edge[0]] = edge[1]
+                    inv_boundary_edges[edge[1]] = edge[0]
+                crown_faces.append(list(face))
+
+            elif face_type == '130':
+                # Quadrangle with three aligned vertices on the plane, the fourth being above
+                boundary_edge = None
+
             elif face_type == '030' or face_type == '040':
                 # Face is totally on the plane --> rare case...
                 boundary_edge = None
-- 
2.43.0


From 78e3f36226153236986a7b8e476643ff792d4e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:01 +0000
Subject: [PATCH 14/71] fix: hydrostatic data do not share the rotation matrix
 they are given

---
 meshmagick/hydrostatics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/hydrostatics.py b/meshmagick/hydrostatics.py
index a3417fc..e5510fc 100644
--- a/meshmagick/hydrostatics.py
+++ b/meshmagick/hydrostatics.py
@@ -160,7 +160,7 @@ def compute_hydrostatics(mesh, cog, rho_water, grav, rotmat_corr=np.eye(3), z_co
     hs_data['grav'] = grav
     hs_data['rho_water'] = rho_water
     hs_data["mesh"] = mesh.copy()
-    hs_data["rotmat_eq"] = rotmat_corr
+    hs_data["rotmat_eq"] = np.array(rotmat_corr)
     hs_data["z_eq"] = z_corr
     hs_data["cog"] = cog.copy()
 
-- 
2.43.0


From 2eab472582911e9c1ab34f674b5787b6ed037e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:02 +0000
Subject: [PATCH 15/71] fix: the clipped mesh does not keep the vertices above
 the plane

---
 meshmagick/mesh_clipper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshmagick/mesh_clipper.py b/meshmagick/mesh_clipper.py
index a74ec59..43aeae2 100644
--- a/meshmagick/mesh_clipper.py
+++ b/meshmagick/mesh_clipper.py
@@ -773,7 +773,8 @@ class MeshClipper(object):
         """Performs clipping and assemble the clipped mesh."""
         
         self._clip_crown_by_plane()
-        clipped_mesh = self.lower_mesh + self.clipped_crown_mesh
+        crown_mesh = self.clipped_crown_mesh
+        clipped_mesh = self.lower_mesh + crown_mesh.extract_faces(np.arange(crown_mesh.nb_faces))
         clipped_mesh.name = '_'.join((self._source_mesh.name, 'clipped'))
         self.__internals__['clipped_mesh'] = clipped_mesh
         return
-- 
2.43.0


From aebb46d2f1e3197ced50de417afca58b50f4782b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:02 +0000
Subject: [PATCH 16/71] fix: at_cog expresses the stiffness at the given center
 of gravity

---
 meshmagick/hydrostatics.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/meshmagick/hydrostatics.py b/meshmagick/hydrostatics.py
index e5510fc..42c160f 100644
--- a/meshmagick/hydrostatics.py
+++ b/meshmagick/hydrostatics.py
@@ -66,8 +66,8 @@ def compute_hydrostatics(mesh, cog, rho_water, grav, rotmat_corr=np.eye(3), z_co
 
         if at_cog:
             # To get the stiffness expressed at cog
-            polyverts[:, 0] -= xb
-            polyverts[:, 1] -= yb
+            polyverts[:, 0] -= wcog[0]
+            polyverts[:, 1] -= wcog[1]
 
         # TODO: voir si on conserve ce test...
         if np.any(np.fabs(polyverts[:, 2]) > 1e-3):
@@ -142,8 +142,8 @@ def compute_hydrostatics(mesh, cog, rho_water, grav, rotmat_corr=np.eye(3), z_co
 
     if at_cog:
         # To get the flotation center expressed in the initial mesh frame
-        x_f += xb
-        y_f += yb
+        x_f += wcog[0]
+        y_f += wcog[1]
 
     waterplane_center = np.array([x_f, y_f, -z_corr])
     waterplane_center = np.dot(np.transpose(rotmat_corr), waterplane_center)
@@ -180,7 +180,7 @@ def compute_hydrostatics(mesh, cog, rho_water, grav, rotmat_corr=np.eye(3), z_co
     hs_data['length_overall_submerged'] = xmax - xmin
     hs_data['breadth_overall_submerged'] = ymax - ymin
     hs_data['draught'] = math.fabs(zmin)
-    hs_data['forward_perpendicular'] = maxx + xb
+    hs_data['forward_perpendicular'] = maxx + (wcog[0] if at_cog else 0.)
     hs_data['breadth'] = maxy - miny
 
     hs_data['trust_lpp'] = True
-- 
2.43.0


From 797a91048d3dec6faa81c0a355a0f3059ad97d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:52 +0000
Subject: [PATCH 17/71] fix: integral of xy over the waterplane (K45)

---
 meshmagick/hydrostatics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/hydrostatics.py b/meshmagick/hydrostatics.py
index 42c160f..e6aa007 100644
--- a/meshmagick/hydrostatics.py
+++ b/meshmagick/hydrostatics.py
@@ -83,7 +83,7 @@ def compute_hydrostatics(mesh, cog, rho_water, grav, rotmat_corr=np.eye(3), z_co
             sigma0 += dy * px
             sigma1 += dy * (px * px - xi * xii)
             sigma2 += dx * (py * py - yi * yii)
-            sigma3 += dy * (py * px * px + yi * xi * xi + yii * xii * xii)
+            sigma3 += dy * (py * px * px + 2 * (yi * xi * xi + yii * xii * xii))
             sigma4 += dy * (xi * xi + xii * xii) * px
             sigma5 += dx * (yi * yi + yii * yii) * py
 
-- 
2.43.0


From a7ddd5412184baaa3b76e89c5570defeef3572c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:44 +0000
Subject: [PATCH 18/71] fix: inertias are transported through the mass center
 and do not alias their points

---
 meshmagick/inertia.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/meshmagick/inertia.py b/meshmagick/inertia.py
index e246c16..7ca32b7 100644
--- a/meshmagick/inertia.py
+++ b/meshmagick/inertia.py
@@ -43,13 +43,16 @@ class RigidBodyInertia(object):
         self._mass = float(mass)
 
         assert len(cog) == 3
-        self._cog = np.asarray(cog, dtype=float)
+        self._cog = np.array(cog, dtype=float)
+
+        # Mass center of the body, kept when the object is given another center of gravity by set_cog
+        self._mass_center = self._cog.copy()
 
         if point is None:
-            self._point = self._cog
+            self._point = self._cog.copy()
         else:
             assert len(point) == 3
-            self._point = np.asarray(point, dtype=float)
+            self._point = np.array(point, dtype=float)
 
         self._3d_rotational_inertia = np.array([[float(xx), -float(xy), -float(xz)],
                                                 [-float(xy), float(yy), -float(yz)],
@@ -83,10 +86,11 @@ class RigidBodyInertia(object):
     @reduction_point.setter
     def reduction_point(self, point):
         """Set the reduction point"""
-        mat_at_cog = self.at_cog.inertia_matrix
         assert len(point) == 3
-        self._point = np.asarray(point, dtype=float)
-        self._3d_rotational_inertia = mat_at_cog + self._huygens_transport()
+        point = np.array(point, dtype=float)
+        self._3d_rotational_inertia = \
+            self._3d_rotational_inertia - self._huygens_transport(self._point) + self._huygens_transport(point)
+        self._point = point
 
     @property
     def at_cog(self):
@@ -112,15 +116,14 @@ class RigidBodyInertia(object):
         """
         assert len(cog) == 3
         assert isinstance(cog, (tuple, list, np.ndarray))
-        self._cog = np.asarray(cog, dtype=float)
+        self._cog = np.array(cog, dtype=float)
 
     def shift_at_cog(self):
         """Shift the inertia matrix internally at cog.
 
         The reduction point is then cog.
         """
-        self._3d_rotational_inertia += self._huygens_transport()
-        self._point = self._cog
+        self.reduction_point = self._cog
 
     def is_at_cog(self):
         """Returns whether the object is expressed at cog
@@ -131,8 +134,8 @@ class RigidBodyInertia(object):
         """
         return np.all(self._point == self._cog)
 
-    def _huygens_transport(self):
-        p_g = self._cog - self._point
+    def _huygens_transport(self, point):
+        p_g = self._mass_center - point
         return self._mass * (np.dot(p_g, p_g) * np.eye(3) - np.outer(p_g, p_g))
 
     @property
-- 
2.43.0


From a822ab859651cb4eeca6f1ebb8a858dee22e5103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:44 +0000
Subject: [PATCH 19/71] fix: displacement_equilibrium reads the side from the
 clipper's error

---
 meshmagick/hydrostatics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshmagick/hydrostatics.py b/meshmagick/hydrostatics.py
index e6aa007..f5ac843 100644
--- a/meshmagick/hydrostatics.py
+++ b/meshmagick/hydrostatics.py
@@ -4,6 +4,7 @@
 
 import numpy as np
 import math
+import warnings
 
 from .mesh_clipper import MeshClipper
 from .rotations import cardan_to_rotmat, rotmat_to_cardan
@@ -234,8 +235,7 @@ def displacement_equilibrium(mesh, disp_tons, rho_water, grav, cog=np.zeros(3),
         try:
             hs_data = compute_hydrostatics(mesh, cog, rho_water, grav, z_corr=z_corr)
         except RuntimeError as err:
-            position = err.args[2]
-            if position == 'below':
+            if 'below' in err.args:
                 z_corr = -zmax + (zmax - zmin) * 1e-4  # FIXME: is this choice robust ?
                 hs_data = compute_hydrostatics(mesh, cog, rho_water, grav, z_corr=z_corr)
                 warnings.warn(
-- 
2.43.0


From 38cbd71488acf9cb50e6ff83fb0264f841877e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:08 +0000
Subject: [PATCH 20/71] fix: a hull only touching the free surface from below
 has no waterplane

---
 meshmagick/hydrostatics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/meshmagick/hydrostatics.py b/meshmagick/hydrostatics.py
index f5ac843..32a9bcc 100644
--- a/meshmagick/hydrostatics.py
+++ b/meshmagick/hydrostatics.py
@@ -62,6 +62,10 @@ def compute_hydrostatics(mesh, cog, rho_water, grav, rotmat_corr=np.eye(3), z_co
     ymax = []
 
     polygons = clipper.closed_polygons
+    if len(polygons) == 0:
+        # The highest points of the mesh only touch the free surface
+        raise RuntimeError("Mesh does not crosses the clipping plane", "below")
+
     for polygon in polygons:
         polyverts = clipper.clipped_crown_mesh.vertices[polygon]
 
-- 
2.43.0


From 4e122524b5d9507ac2c7244ffeced3018ae4c141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:50 +0000
Subject: [PATCH 21/71] fix: displacement_equilibrium keeps its correction
 between bounds and no longer crashes or gives up on reachable targets

---
 meshmagick/hydrostatics.py | 42 ++++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/meshmagick/hydrostatics.py b/meshmagick/hydrostatics.py
index 32a9bcc..e1dfd0d 100644
--- a/meshmagick/hydrostatics.py
+++ b/meshmagick/hydrostatics.py
@@ -63,8 +63,10 @@ def compute_hydrostatics(mesh, cog, rho_water, grav, rotmat_corr=np.eye(3), z_co
 
     polygons = clipper.closed_polygons
     if len(polygons) == 0:
-        # The highest points of the mesh only touch the free surface
-        raise RuntimeError("Mesh does not crosses the clipping plane", "below")
+        if clipper.upper_mesh.nb_faces == 0:
+            # The highest points of the mesh only touch the free surface
+            raise RuntimeError("Mesh does not crosses the clipping plane", "below")
+        raise RuntimeError("Mesh has no waterplane")
 
     for polygon in polygons:
         polyverts = clipper.clipped_crown_mesh.vertices[polygon]
@@ -230,6 +232,10 @@ def displacement_equilibrium(mesh, disp_tons, rho_water, grav, cog=np.zeros(3),
     _, _, _, _, zmin, zmax = mesh.axis_aligned_bbox
     z_relax = (zmax - zmin) / 5
 
+    # Bounds of the correction: the lowest one keeps the top of the mesh out of the vicinity of the free surface
+    z_limit = -zmax + max((zmax - zmin) * 1e-4, 2e-3)
+    z_low, z_high = z_limit, -zmin
+
     while True:
 
         if iter == itermax:
@@ -239,13 +245,15 @@ def displacement_equilibrium(mesh, disp_tons, rho_water, grav, cog=np.zeros(3),
         try:
             hs_data = compute_hydrostatics(mesh, cog, rho_water, grav, z_corr=z_corr)
         except RuntimeError as err:
-            if 'below' in err.args:
-                z_corr = -zmax + (zmax - zmin) * 1e-4  # FIXME: is this choice robust ?
-                hs_data = compute_hydrostatics(mesh, cog, rho_water, grav, z_corr=z_corr)
-                warnings.warn(
-                    "Impossible to reach a displacement of %.3f tons because of the mesh extend. Limited to %.3f tons" %
-                    (disp_tons, hs_data['disp_mass'] * 0.001))
-                return z_corr
+            if 'below' in err.args and z_corr != z_limit:
+                z_corr = z_limit
+                iter += 1
+                continue
+            elif 'above' in err.args and iter > 1:
+                z_high = z_corr
+                z_corr = (z_low + z_high) / 2
+                iter += 1
+                continue
             else:
                 raise err
 
@@ -260,11 +268,27 @@ def displacement_equilibrium(mesh, disp_tons, rho_water, grav, cog=np.zeros(3),
         if math.fabs(mass_residual / disp_kg) < reltol:
             break
 
+        if z_corr == z_limit and mass_residual < 0.:
+            warnings.warn(
+                "Impossible to reach a displacement of %.3f tons because of the mesh extend. Limited to %.3f tons" %
+                (disp_tons, hs_data['disp_mass'] * 0.001))
+            return z_corr
+
         # Relaxation of the correction: z correction is bounded by z_relax to avoid divergence
         if math.fabs(dz) > z_relax:
             dz = math.copysign(z_relax, dz)
 
+        # The correction must stay between those known to be too low and too high
+        if mass_residual > 0.:
+            z_low = z_corr
+        else:
+            z_high = z_corr
+
         z_corr += dz
+        if z_corr <= z_low and z_low == z_limit:
+            z_corr = z_limit
+        elif not z_low < z_corr < z_high:
+            z_corr = (z_low + z_high) / 2
 
         iter += 1
 
-- 
2.43.0


From 3be37dfc2d219a649792eb5759219c34f5f469d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:33 +0000
Subject: [PATCH 22/71] fix: waterlines touching each other at a vertex are not
 lost

---
 meshmagick/mesh_clipper.py | 118 ++++++++++++++-----------------------
 1 file changed, 45 insertions(+), 73 deletions(-)

diff --git a/meshmagick/mesh_clipper.py b/meshmagick/mesh_clipper.py
index 43aeae2..8fa9cdb 100644
--- a/meshmagick/mesh_clipper.py
+++ b/meshmagick/mesh_clipper.py
@@ -356,8 +356,7 @@ class MeshClipper(object):
 
         # Init
         crown_faces = list()
-        direct_boundary_edges = dict()
-        inv_boundary_edges = dict()
+        boundary_edges = list()
         intersections = list()
 
         index = crown_mesh.nb_vertices
@@ -656,9 +655,7 @@ class MeshClipper(object):
                 #          *0
                 face = np.roll(face, -v_below_face[0])
                 boundary_edge = None
-                for edge in ([face[2], face[1]], [face[3], face[2]]):
-                    direct_boundary_edges[edge[0]] = edge[1]
-                    inv_boundary_edges[edge[1]] = edge[0]
+                boundary_edges += [[face[2], face[1]], [face[3], face[2]]]
                 crown_faces.append(list(face))
 
             elif face_type == '130':
@@ -679,10 +676,8 @@ class MeshClipper(object):
                     pass
                 raise Exception("Face %u clipping case %s not known." % (face_id, face_type))
 
-            # Building boundary connectivity
             if boundary_edge is not None:
-                direct_boundary_edges[boundary_edge[0]] = boundary_edge[1]
-                inv_boundary_edges[boundary_edge[1]] = boundary_edge[0]
+                boundary_edges.append(boundary_edge)
 
         if len(intersections) > 0:
             vertices = np.concatenate((vertices, intersections))
@@ -693,75 +688,52 @@ class MeshClipper(object):
         # FIXME: potentiellement, un bug a ete introduit ici !!! --> l'update n'est plus bon sur les dictionnaires...
         new_id = clipped_crown_mesh.merge_duplicates(return_index=True, atol=1e-5)  # Warning: choosing a lower value
 
-        # Updating dictionaries
-        direct_boundary_edges = dict(
-            list(zip(new_id[list(direct_boundary_edges.keys())], new_id[list(direct_boundary_edges.values())])))
-        inv_boundary_edges = dict(list(zip(new_id[list(inv_boundary_edges.keys())], new_id[list(inv_boundary_edges.values())])))
+        # Building boundary connectivity. A vertex where lines touch each other starts and ends several edges
+        direct_boundary_edges = dict()
+        nb_ending_edges = dict()
+        for v0, v1 in new_id[np.array(boundary_edges, dtype=int).reshape((-1, 2))]:
+            if v0 != v1:
+                direct_boundary_edges.setdefault(v0, list()).append(v1)
+                nb_ending_edges[v1] = nb_ending_edges.get(v1, 0) + 1
 
-        # Ordering boundary edges in continuous lines
+        # Ordering boundary edges in continuous lines, beginning with those having a loose end
         closed_polygons = list()
         open_lines = list()
-        while True:
+        loose_ends = list()
+        for v0, next_vertices in direct_boundary_edges.items():
+            loose_ends += [v0] * (len(next_vertices) - nb_ending_edges.get(v0, 0))
+
+        while direct_boundary_edges:
+            is_open = len(loose_ends) > 0
+            line = [loose_ends.pop() if is_open else next(iter(direct_boundary_edges))]
+
+            while line[-1] in direct_boundary_edges and (is_open or len(line) == 1 or line[-1] != line[0]):
+                v0 = line[-1]
+                line.append(direct_boundary_edges[v0].pop())
+                if not direct_boundary_edges[v0]:
+                    del direct_boundary_edges[v0]
+
+            if is_open:
+                open_lines.append(line)
+            else:
+                closed_polygons.append(line)
+
+        if self._verbose:
+            print(("%u closed polygon\n%u open curve" % (len(closed_polygons), len(open_lines))))
+
+        if self._assert_closed_boundaries and len(open_lines) > 0:
             try:
-                line = list()
-                v0_init, v1 = direct_boundary_edges.popitem()
-                line.append(v0_init)
-                line.append(v1)
-                v0 = v1
-
-                while True:
-                    try:
-                        v1 = direct_boundary_edges.pop(v0)
-                        line.append(v1)
-                        v0 = v1
-                    except KeyError:
-                        if line[0] != line[-1]:
-                            # Trying to find an other queue
-                            queue = list()
-                            v0 = v0_init
-                            while True:
-                                try:
-                                    v1 = inv_boundary_edges[v0]
-                                    direct_boundary_edges.pop(v1)
-                                    queue.append(v1)
-                                    v0 = v1
-                                except:
-                                    queue.reverse()
-                                    line = queue + line
-                                    
-                                    # Trying to see if both end of line are not connected
-                                    pstart = clipped_crown_mesh.vertices[line[0]]
-                                    pend = clipped_crown_mesh.vertices[line[-1]]
-                                    
-                                    d = np.linalg.norm(pstart-pend)
-
-                                    open_lines.append(line)
-                                    break
-                        else:
-                            closed_polygons.append(line)
-                        break
-
-            except: # FIXME: specifier quelle exception est attendue ici !
-                # TODO: retirer les deux lines suivantes
-                if self._verbose:
-                    print(("%u closed polygon\n%u open curve" % (len(closed_polygons), len(open_lines))))
-
-                if self._assert_closed_boundaries:
-                    if len(open_lines) > 0:
-                        try:
-                            from . import mmio
-                            mmio.write_VTP('full_debug.vtp', self.source_mesh.vertices, self.source_mesh.faces)
-                            mmio.write_VTP('clipped_crown_debug.vtp', clipped_crown_mesh.vertices, clipped_crown_mesh.faces)
-                            mmio.write_VTP('crown_debug.vtp', crown_mesh.vertices, crown_mesh.faces)
-                        except:
-                            pass
-                        
-                        for line in open_lines:
-                            print(line)
-                            
-                        raise RuntimeError('Open intersection curve found with assert_closed_boundaries option enabled. Files full_debug.vtp, crown_debug.vtp and clipped_crown_debug.vtp written.')
-
-                break
+                from . import mmio
+                mmio.write_VTP('full_debug.vtp', self.source_mesh.vertices, self.source_mesh.faces)
+                mmio.write_VTP('clipped_crown_debug.vtp', clipped_crown_mesh.vertices, clipped_crown_mesh.faces)
+                mmio.write_VTP('crown_debug.vtp', crown_mesh.vertices, crown_mesh.faces)
+            except:
+                pass
+
+            for line in open_lines:
+                print(line)
+
+            raise RuntimeError('Open intersection curve found with assert_closed_boundaries option enabled. Files full_debug.vtp, crown_debug.vtp and clipped_crown_debug.vtp written.')
 
         output = {'clipped_crown_mesh': clipped_crown_mesh,
                   'closed_polygons': closed_polygons,
-- 
2.43.0


From 48a056e360c3c9f085087748ee5dda1825fec5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:19 +0000
Subject: [PATCH 23/71] fix: the frame of a plane follows every change of its
 normal

---
 meshmagick/mesh.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index 46713f6..f8b4701 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -189,6 +189,10 @@ class Plane(object):
         value = np.asarray(value, dtype=float)
         self._normal = value / np.linalg.norm(value)
 
+        # updating self._rot
+        theta_x, theta_y = self.get_normal_orientation_wrt_z()
+        self._rot = _get_rotation_matrix(theta_x, theta_y)
+
     @property
     def c(self):
         """Get the plane's scalar parameter"""
@@ -213,9 +217,6 @@ class Plane(object):
         rot_matrix = _get_rotation_matrix(theta_x, theta_y)
         self.normal = np.dot(rot_matrix, self.normal)
 
-        # updating self._rot
-        self._rot = np.dot(rot_matrix, self._rot)
-
     def set_normal_from_angles(self, theta_x, theta_y):
         """Set the normal orientation given angles theta_x and theta_y.
 
@@ -230,18 +231,13 @@ class Plane(object):
         theta = math.sqrt(theta_x * theta_x + theta_y * theta_y)
 
         if theta == 0.:
-            self.normal[:] = [0., 0., 1.]
-
-            # updating self._rot
-            self._rot = np.eye(3)
+            self.normal = [0., 0., 1.]
         else:
             stheta_theta = math.sin(theta) / theta
             ctheta = math.cos(theta)
-            self.normal[:] = np.array([stheta_theta * theta_y,
-                                       -stheta_theta * theta_x,
-                                       ctheta])
-            # Updating self._rot
-            self._rot = _get_rotation_matrix(theta_x, theta_y)
+            self.normal = np.array([stheta_theta * theta_y,
+                                    -stheta_theta * theta_x,
+                                    ctheta])
 
     def get_normal_orientation_wrt_z(self):
         """Returns the angles theta_x and theta_y giving the orientation of the plane normal"""
@@ -304,9 +300,7 @@ class Plane(object):
         """
         Flips the Normal of the plane
         """
-        self.normal *= -1
-        theta_x, theta_y = self.get_normal_orientation_wrt_z()
-        self._rot = _get_rotation_matrix(theta_x, theta_y)
+        self.normal = -self.normal
 
     def coord_in_plane(self, points):
         """
-- 
2.43.0


From 68bba76a44a19d1b5e55e7469f7ce0f69f6f333c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:19 +0000
Subject: [PATCH 24/71] fix: points of a plane have no third coordinate in its
 frame

---
 meshmagick/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index f8b4701..f5eee38 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -319,7 +319,7 @@ class Plane(object):
 
         # TODO: verifier effectivement que si on prend des points se trouvant dans le plan, leurs coordonnees dans le
         #  plan n'ont pas de composante z
-        return -self._scalar * self.normal + np.transpose(np.dot(self._rot, points.T))
+        return np.dot(points, self._rot) - np.array([0., 0., self._scalar])
 
     def get_edge_intersection(self, p0, p1):
         """
-- 
2.43.0


From 09b62fb1bf1a77efd6c6f6043b337ec2af2425fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:19 +0000
Subject: [PATCH 25/71] fix: an edge lying on a plane is refused by
 get_edge_intersection instead of giving nan

---
 meshmagick/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index f5eee38..6590d18 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -342,7 +342,7 @@ class Plane(object):
         p0n = np.dot(p0, self.normal)
         p1n = np.dot(p1, self.normal)
         t = (p0n - self._scalar) / (p0n - p1n)
-        if t < 0. or t > 1.:
+        if not 0. <= t <= 1.:
             raise RuntimeError('Intersection is outside the edge')
         return (1-t) * p0 + t * p1
 
-- 
2.43.0


From fbe254e802f5f54d547016a026342eae50c43a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:19 +0000
Subject: [PATCH 26/71] fix: projections of points with integer coordinates are
 not truncated

---
 meshmagick/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index 6590d18..0c30b56 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -361,7 +361,7 @@ class Plane(object):
             Coordinates of the projection points
         """
         # TODO: passer en vectoriel
-        projected_points = np.zeros_like(points)
+        projected_points = np.zeros_like(points, dtype=float)
         for point, projected_point in zip(points, projected_points):
             projected_point[:] = point - self.get_point_dist_wrt_plane(point) * self.normal
 
-- 
2.43.0


From ff6c48c7184fe88c761289537de82affb7bcecc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:19 +0000
Subject: [PATCH 27/71] fix: quaternions may be any iterable, as documented

---
 meshmagick/rotations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshmagick/rotations.py b/meshmagick/rotations.py
index a0f503d..66fba21 100644
--- a/meshmagick/rotations.py
+++ b/meshmagick/rotations.py
@@ -49,8 +49,8 @@ def is_unit_vector(vector):
 
 def quat_to_axis_angle(quat):
     assert is_unit_vector(quat)
-    assert quat.size == 4
     quat = np.asarray(quat, dtype=float)
+    assert quat.size == 4
     q0 = quat[0]
     d = 1. - q0*q0
 
@@ -75,8 +75,8 @@ def axis_angle_to_quat(axis, angle):
 
 def quat_to_rotmat(quat):
     assert is_unit_vector(quat)
-    assert quat.size == 4
     quat = np.asarray(quat, dtype=float)
+    assert quat.size == 4
 
     q0q0 = quat[0] * quat[0]
     q1q1 = quat[1] * quat[1]
-- 
2.43.0


From 11ea73f80971517ff3ae200bec82c44be49e68bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:19 +0000
Subject: [PATCH 28/71] fix: small rotations are not lost when converted to
 axis-angle

---
 meshmagick/rotations.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/meshmagick/rotations.py b/meshmagick/rotations.py
index 66fba21..2790c84 100644
--- a/meshmagick/rotations.py
+++ b/meshmagick/rotations.py
@@ -52,15 +52,15 @@ def quat_to_axis_angle(quat):
     quat = np.asarray(quat, dtype=float)
     assert quat.size == 4
     q0 = quat[0]
-    d = 1. - q0*q0
+    d = norm(quat[1:])
 
-    if np.isclose(d, 0.):
+    if d == 0.:
         angle = 0.
         axis = np.array((0, 0, 1), dtype=float)
 
     else:
-        angle = 2. * acos(q0)
-        axis = quat[1:] / sqrt(d)
+        angle = 2. * atan2(d, q0)
+        axis = quat[1:] / d
 
     return axis, angle
 
-- 
2.43.0


From 6b319cabcc0b3cd785b9e91021f27cc8b5ab6f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:43 +0000
Subject: [PATCH 29/71] fix: Cardan angles of rotations close to the gimbal
 lock

---
 meshmagick/rotations.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/meshmagick/rotations.py b/meshmagick/rotations.py
index 2790c84..378a187 100644
--- a/meshmagick/rotations.py
+++ b/meshmagick/rotations.py
@@ -189,8 +189,8 @@ def cardan_to_quat(phi, theta, psi):
 def rotmat_to_cardan(rotmat):
 
     r00 = rotmat[0, 0]
-    # r01 = rotmat[0, 1]
-    # r02 = rotmat[0, 2]
+    r01 = rotmat[0, 1]
+    r02 = rotmat[0, 2]
     r10 = rotmat[1, 0]
     r11 = rotmat[1, 1]
     r12 = rotmat[1, 2]
@@ -200,9 +200,10 @@ def rotmat_to_cardan(rotmat):
 
     if r20 < 1.:
         if r20 > -1.:
-            theta = asin(-r20)
             psi = atan2(r10, r00)
-            phi = atan2(r21, r22)
+            theta = atan2(-r20, sqrt(r00*r00 + r10*r10))
+            # Both formulas are those of the general case; they remain coherent with psi close to the gimbal lock
+            phi = atan2(sin(psi) * r02 - cos(psi) * r12, cos(psi) * r11 - sin(psi) * r01)
 
         else:  # r20 = -1
             # Not a unique solution: phi -psi = atan2(-r12, r11)
-- 
2.43.0


From 758fb1cf5d288344f6bad75a9e2dacf0d1e5d567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:41 +0000
Subject: [PATCH 30/71] fix: inertia of the hemisphere about its axis

---
 meshmagick/inertia.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshmagick/inertia.py b/meshmagick/inertia.py
index 7ca32b7..ea84536 100644
--- a/meshmagick/inertia.py
+++ b/meshmagick/inertia.py
@@ -329,7 +329,8 @@ def hemisphere(radius, density=1.):
     vol = 2 * pi * radius ** 3 / 3.
     mass = density * vol
 
-    Ixx = Iyy = Izz = 0.26 * mass * radius ** 2
+    Ixx = Iyy = 83. * mass * radius ** 2 / 320.
+    Izz = 2. * mass * radius ** 2 / 5.
 
     return RigidBodyInertia(mass, [0, 0, 0], Ixx, Iyy, Izz, 0, 0, 0)
 
-- 
2.43.0


From 5c0dc304da58f6f9ae07b744048fbf6a71f8c9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:41 +0000
Subject: [PATCH 31/71] fix: transverse inertia of the total cylindrical shell

---
 meshmagick/inertia.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/inertia.py b/meshmagick/inertia.py
index ea84536..e7a4fbc 100644
--- a/meshmagick/inertia.py
+++ b/meshmagick/inertia.py
@@ -572,7 +572,7 @@ def total_cylindrical_shell(R, H, density=densities.get_density('STEEL'), thickn
     sigma = density * thickness
     mass = sigma * surface
 
-    Ixx = Iyy = mass * (2 * R ** 2 * (R + 2 * H) + H ** 2 * (3 * R + H)) / 12. / (R + H)
+    Ixx = Iyy = mass * (3 * R ** 2 * (R + 2 * H) + H ** 2 * (3 * R + H)) / 12. / (R + H)
     Izz = mass * R ** 2 * ((R + 2 * H) / (R + H)) / 2.
 
     return RigidBodyInertia(mass, [0, 0, 0], Ixx, Iyy, Izz, 0, 0, 0)
-- 
2.43.0


From 79ef947df202c07cbe4b0f5cd3fa808ce2212103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 32/71] fix: writing a STL file modified the faces of the
 caller

---
 meshmagick/mmio.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 67679ae..2927e4f 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1724,6 +1724,7 @@ def write_STL(filename, vertices, faces):
     new_faces[:, :3] = new_faces[:, t1]
     new_faces[:, -1] = new_faces[:, 0]
     
+    faces = np.array(faces)  # The faces of the caller are left as they are
     faces[quads_ids, :3] = faces[:, t2][quads_ids]
     faces[quads_ids, -1] = faces[quads_ids, 0]
 
-- 
2.43.0


From 012fd335ce280882564caceb069061ab0b2fd703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 33/71] fix: number of faces in the header of NAT and GDF files
 of less than four faces

---
 meshmagick/mmio.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 2927e4f..ed59f0e 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1500,8 +1500,8 @@ def _build_vtkUnstructuredGrid(vertices, faces):
     
     import vtk
 
-    nv = max(np.shape(vertices))
-    nf = max(np.shape(faces))
+    nv = np.shape(vertices)[0]
+    nf = np.shape(faces)[0]
 
     vtk_mesh = vtk.vtkUnstructuredGrid()
     vtk_mesh.Allocate(nf, nf)
@@ -1584,8 +1584,8 @@ def write_NAT(filename, vertices, faces):
     
     ofile = open(filename, 'w')
 
-    nv = max(np.shape(vertices))
-    nf = max(np.shape(faces))
+    nv = np.shape(vertices)[0]
+    nf = np.shape(faces)[0]
 
     ofile.write('%6u%6u\n' % (0, 0))  # lire les symmetries dans args...
     ofile.write('%6u%6u\n' % (nv, nf))
@@ -1640,7 +1640,7 @@ def write_GDF(filename, vertices, faces):
         numpy array of the faces' nodes connectivities
     """
 
-    nf = max(np.shape(faces))
+    nf = np.shape(faces)[0]
 
     ofile = open(filename, 'w')
 
-- 
2.43.0


From 4737cedbcd7668d672bac9046bef0ae12dbc5833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 34/71] fix: numbers of nodes and faces run together in the
 header of large NAT files

---
 meshmagick/mmio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index ed59f0e..95f542b 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1588,7 +1588,7 @@ def write_NAT(filename, vertices, faces):
     nf = np.shape(faces)[0]
 
     ofile.write('%6u%6u\n' % (0, 0))  # lire les symmetries dans args...
-    ofile.write('%6u%6u\n' % (nv, nf))
+    ofile.write('%6u %6u\n' % (nv, nf))
     for vertex in vertices:
         ofile.write('%15.6E%15.6E%15.6E\n' % (vertex[0], vertex[1], vertex[2]))
     for cell in faces+1:
-- 
2.43.0


From 0f79a1dd40f375f369679964c5e55293a783a0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 35/71] fix: endless reading of truncated GDF files

---
 meshmagick/mmio.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 95f542b..ef88c78 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -785,7 +785,10 @@ def load_GDF(filename):
         face_coords = np.zeros((12,), dtype=float)
         
         while n_coords < 12:
-            line = np.array(ifile.readline().split())
+            line = ifile.readline()
+            if not line:
+                raise IOError("file %s ends before its %u panels are given" % (filename, nf))
+            line = np.array(line.split())
             face_coords[n_coords:n_coords+len(line)] = line
             n_coords += len(line)
 
-- 
2.43.0


From e66049d9332e94fb99e9c820a7c3656a58632f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 36/71] fix: merge the duplicate nodes of GDF files as
 documented, triangles were read as quadrangles

---
 meshmagick/mmio.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index ef88c78..0379b37 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -758,6 +758,7 @@ def load_GDF(filename):
     ----
     GDF files have a 1-indexing
     """
+    from .tools import merge_duplicate_rows
 
     _check_file(filename)
 
@@ -798,6 +799,10 @@ def load_GDF(filename):
 
     ifile.close()
 
+    # Merging duplicates nodes
+    vertices, new_id = merge_duplicate_rows(vertices, return_index=True)
+    faces = new_id[faces]
+
     return vertices, faces
 
 
-- 
2.43.0


From 57f07ffe1c1e7a9230c04895349ee24611a852ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 37/71] fix: written GDF files declared a symmetry the mesh
 does not have

---
 meshmagick/mmio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 0379b37..b3d4b58 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1655,7 +1655,7 @@ def write_GDF(filename, vertices, faces):
     ofile.write('GDF file generated by meshmagick on %s\n' % time.strftime('%c'))
 
     ofile.write('%16.6f%16.6f\n' % (100.0, 9.81))
-    ofile.write('%12u%12u\n' % (0, 1))  # TODO : mettre les symetries en argument
+    ofile.write('%12u%12u\n' % (0, 0))  # TODO : mettre les symetries en argument
     ofile.write('%12u\n' % nf)
 
     for cell in faces:
-- 
2.43.0


From 42cdb69c2f879440d521e2acb51b5e3ff35bb941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 38/71] fix: triangles of PNL files follow the convention of
 meshmagick

---
 meshmagick/mmio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index b3d4b58..7637858 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1137,7 +1137,7 @@ def load_PNL(filename, name=None):
             if nb_corners == 3:  # Triangle
                 assert len(data) == 3
                 faces[i, 0:3] = data
-                faces[i, 3] = faces[i, 2]  # Convention for triangles in Meshmagick: repeat last vertex
+                faces[i, 3] = faces[i, 0]  # Convention for triangles in Meshmagick: repeat first vertex
             elif int(nb_corners) == 4:  # Quadrangle
                 assert len(data) == 4
                 faces[i, :] = data
@@ -1816,7 +1816,7 @@ def write_PNL(filename, vertices, faces):
         f.write('   #Start Definition of Node Relations   ! panel_number  number_of_vertices   Vertex1_ID   Vertex2_ID   Vertex3_ID   (Vertex4_ID)\n')
         for i, face in enumerate(faces):
             face = face + 1
-            if face[2] == face[3]:  # Triangle
+            if face[0] == face[3]:  # Triangle
                 f.write("{:>5}{:>5}{:>10}{:>10}{:>10}\n".format(i+1, 3, *face[:3]))
             else:
                 f.write("{:>5}{:>5}{:>10}{:>10}{:>10}{:>10}\n".format(i+1, 4, *face))
-- 
2.43.0


From 1a9791e3675f61e7c86dc3ce4f35d94771327590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 39/71] fix: node numbers and several sections in HST files

---
 meshmagick/mmio.py | 49 ++++++++++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 23 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 7637858..9c59e08 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -20,6 +20,25 @@ def _check_file(filename):
     return
 
 
+def _renumber(faces, labels):
+    """Replaces the numbers that a file gives to its nodes by the positions of these nodes
+
+    Parameters
+    ----------
+    faces: sequence
+        nodes connectivities of the faces, with the numbers of the file
+    labels: sequence
+        numbers given by the file to its nodes, in the order of the file
+
+    Returns
+    -------
+    faces: ndarray
+        numpy array of the faces' nodes connectivities, 0-indexing
+    """
+    position = {label: idx for idx, label in enumerate(labels)}
+    return np.array([[position[node] for node in face] for face in faces], dtype=int)
+
+
 def load_mesh(filename, file_format):
     """Driver function that loads every mesh file format known by meshmagick and returns the node list and the
     connectivity array
@@ -142,37 +161,21 @@ def load_HST(filename):
     pattern_node_section = re.compile(node_section, re.MULTILINE)
     pattern_elem_section = re.compile(elem_section, re.MULTILINE)
 
-    vertices_tmp = []
+    labels = []
     vertices = []
-    nv = 0
     for node_section in pattern_node_section.findall(data):
         for node in pattern_node_line.findall(node_section):
-            vertices_tmp.append(list(map(float, node.split()[1:])))
-        nv_tmp = len(vertices_tmp)
-        vertices_tmp = np.asarray(vertices_tmp, dtype=float)
-        if nv == 0:
-            vertices = vertices_tmp.copy()
-            nv = nv_tmp
-        else:
-            vertices = np.concatenate((vertices, vertices_tmp))
-            nv += nv_tmp
+            node = node.split()
+            labels.append(int(node[0]))
+            vertices.append(list(map(float, node[1:])))
+    vertices = np.asarray(vertices, dtype=float)
 
-    faces_tmp = []
     faces = []
-    nf = 0
     for elem_section in pattern_elem_section.findall(data):
         for elem in pattern_elem_line.findall(elem_section):
-            faces_tmp.append(list(map(int, elem.split())))
-        nf_tmp = len(faces_tmp)
-        faces_tmp = np.asarray(faces_tmp, dtype=int)
-        if nf == 0:
-            faces = faces_tmp.copy()
-            nf = nf_tmp
-        else:
-            faces = np.concatenate((faces, faces_tmp))
-            nf += nf_tmp
+            faces.append(list(map(int, elem.split())))
 
-    return vertices, faces-1
+    return vertices, _renumber(faces, labels)
 
 
 def load_DAT(filename):
-- 
2.43.0


From 46616b3d0115bbc25d3615792b1d5c7e2f7d7682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 40/71] fix: several element sections and blank lines in DAT
 files

---
 meshmagick/mmio.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 9c59e08..fcb9388 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -198,10 +198,12 @@ def load_DAT(filename):
     
     nodes = []
     node_dict = {}
-    for inode, node_str in enumerate(node_sections[0].splitlines()):
+    for node_str in node_sections[0].splitlines():
         node_split = node_str.split()
+        if not node_split:
+            continue
+        node_dict[node_split[0]] = len(nodes)
         nodes.append(node_split[1:])
-        node_dict[node_split[0]] = inode
         
     vertices = np.array(nodes, dtype=float)
 
@@ -211,9 +213,11 @@ def load_DAT(filename):
     triangle_section_pattern = re.compile(r'ELEMENT\S+T3C000.+\s*((?:(?:\d+\s+){4})+)\*RETURN')
     triangle_sections = triangle_section_pattern.findall(data)
 
-    if len(triangle_sections) != 0:
-        for triangle in triangle_sections[0].splitlines():
+    for triangle_section in triangle_sections:
+        for triangle in triangle_section.splitlines():
             triangle_split = triangle.split()
+            if not triangle_split:
+                continue
 
             triangle = [
                 node_dict[triangle_split[1]],
@@ -228,9 +232,11 @@ def load_DAT(filename):
     quadrangle_section_pattern = re.compile(r'ELEMENT\S+Q4C000.+\s*((?:(?:\d+\s+){5})+)\*RETURN')
     quadrangle_sections = quadrangle_section_pattern.findall(data)
 
-    if len(quadrangle_sections) != 0:
-        for quadrangle in quadrangle_sections[0].splitlines():
+    for quadrangle_section in quadrangle_sections:
+        for quadrangle in quadrangle_section.splitlines():
             quadrangle_split = quadrangle.split()
+            if not quadrangle_split:
+                continue
 
             quadrangle = [
                 node_dict[quadrangle_split[1]],
-- 
2.43.0


From 3d4210e787c0c218fc58fd13b05d53ae87652c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 41/71] fix: node numbers of MSH files

---
 meshmagick/mmio.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index fcb9388..10e26d4 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -875,7 +875,9 @@ def load_MSH22(filename):
     nb_nodes, nodes_data = re.search(r'\$Nodes\n(\d+)\n(.+)\$EndNodes', data, re.DOTALL).groups()
     nb_elts, elts_data = re.search(r'\$Elements\n(\d+)\n(.+)\$EndElements', data, re.DOTALL).groups()
 
-    vertices = np.asarray(list(map(float, nodes_data.split())), dtype=float).reshape((-1, 4))[:, 1:]
+    nodes = nodes_data.split()
+    labels = list(map(int, nodes[::4]))
+    vertices = np.asarray(list(map(float, nodes)), dtype=float).reshape((-1, 4))[:, 1:]
     vertices = np.ascontiguousarray(vertices)
     faces = []
 
@@ -891,9 +893,7 @@ def load_MSH22(filename):
         quadrangle = quad_elt[-4:]
         faces.append(quadrangle)
 
-    faces = np.asarray(faces, dtype=int) - 1
-
-    return vertices, faces
+    return vertices, _renumber(faces, labels)
 
 
 def load_MSH41(filename):
@@ -901,10 +901,12 @@ def load_MSH41(filename):
 
     mesh = gmshparser.parse(filename)
 
+    labels = list()
     vertices = list()
     for entity in mesh.get_node_entities():
         for node in entity.get_nodes():
             coord = list(node.get_coordinates())
+            labels.append(node.get_tag())
             vertices.append(coord)
 
     # vertices = np.asarray(vertices)
@@ -923,9 +925,7 @@ def load_MSH41(filename):
                     face.append(face[0])
                 faces.append(face)
 
-    faces = np.asarray(faces) - 1
-
-    return vertices, faces
+    return vertices, _renumber(faces, labels)
 
 
 def load_MSH(filename):
-- 
2.43.0


From 93a0b88fb17f61112b9c59bc1659a7ea750d7893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 42/71] fix: MED files could not be read since numpy has no
 row_stack

---
 meshmagick/mmio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 10e26d4..74de571 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1022,7 +1022,7 @@ def load_MED(filename):
     if nb_quadrangles == 0:
         quadrangles = np.zeros((0, 4), dtype=int)
 
-    faces = np.row_stack([triangles, quadrangles])
+    faces = np.vstack([triangles, quadrangles])
 
     vertices = np.ascontiguousarray(vertices)
     return vertices, faces
-- 
2.43.0


From 903e976c58c4daca98bd0a1df9cc2ecdb4ff512b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 43/71] fix: node numbers and several element sections in RAD
 files

---
 meshmagick/mmio.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 74de571..fc6eb92 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -96,7 +96,7 @@ def load_RAD(filename):
     ifile.close()
 
     # node_line = r'\s*\d+(?:\s*' + real_str + '){3}'
-    node_line = r'\s*\d+\s*(' + real_str + r')\s*(' + real_str + r')\s*(' + real_str + ')'
+    node_line = r'\s*(\d+)\s*(' + real_str + r')\s*(' + real_str + r')\s*(' + real_str + ')'
     node_section = r'((?:' + node_line + ')+)'
 
     elem_line = r'^\s*(?:\d+\s+){6}\d+\s*[\r\n]+'
@@ -108,19 +108,20 @@ def load_RAD(filename):
     pattern_node_section = re.compile(node_section, re.MULTILINE)
     pattern_elem_section = re.compile(elem_section, re.MULTILINE)
 
+    labels = []
     vertices = []
     node_section = pattern_node_section.search(data).group(1)
     for node in pattern_node_line.finditer(node_section):
-        vertices.append(list(map(float, list(node.groups()))))
+        labels.append(int(node.group(1)))
+        vertices.append(list(map(float, node.groups()[1:])))
     vertices = np.asarray(vertices, dtype=float)
 
     faces = []
-    elem_section = pattern_elem_section.search(data).group(1)
-    for elem in pattern_elem_line.findall(elem_section):
-        faces.append(list(map(int, elem.strip().split()[3:])))
-    faces = np.asarray(faces, dtype=int) - 1
+    for elem_section in pattern_elem_section.finditer(data):
+        for elem in pattern_elem_line.findall(elem_section.group(1)):
+            faces.append(list(map(int, elem.strip().split()[3:])))
 
-    return vertices, faces
+    return vertices, _renumber(faces, labels)
 
 
 def load_HST(filename):
-- 
2.43.0


From b7afe7e1773c284f986507deac0acb9f08f2cd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:01 +0000
Subject: [PATCH 44/71] fix: node offset of the incremented files of an INP
 file

---
 meshmagick/mmio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index fc6eb92..2cdfca2 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -396,8 +396,8 @@ def load_INP(filename):
                 vertices[idx, :] = nodes.copy()
                 increment = False
             else:
-                vertices = np.concatenate((vertices, nodes))
                 nb_nodes = vertices.shape[0]
+                vertices = np.concatenate((vertices, nodes))
                 increment = True
         else:  # this is an ELEMENT section
             elem_section = np.asarray(mesh_files[file]['ELEM_SECTIONS'][mesh_files[file]['nb_elem_sections_used']],
-- 
2.43.0


From 8078eb3f0030b6098fbd8312fc2b5c834240198d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 45/71] fix: NAT and NEM files cut after their nodes were read
 as meshes without faces

---
 meshmagick/mmio.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 2cdfca2..1627345 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -743,6 +743,10 @@ def load_NAT(filename):
     faces = np.array(faces, dtype=int)
 
     ifile.close()
+
+    if vertices.shape != (nv, 3) or faces.shape != (nf, 4):
+        raise IOError("file %s does not hold the %u nodes and %u faces it announces" % (filename, nv, nf))
+
     return vertices, faces-1
 
 
@@ -1106,6 +1110,11 @@ def load_NEM(filename):
     faces = np.asarray(faces, dtype=int)
     faces -= 1
     
+    ifile.close()
+    
+    if vertices.shape != (nv, 3) or faces.shape != (nf, 4):
+        raise IOError("file %s does not hold the %u nodes and %u faces it announces" % (filename, nv, nf))
+    
     return vertices, faces
 
 
-- 
2.43.0


From fcf0321140823f6a3d3361e89d14c889e33293e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 46/71] fix: blanks at the end of the element lines of the
 files of an INP file

---
 meshmagick/mmio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 1627345..533dc96 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -321,7 +321,7 @@ def load_INP(filename):
         # patterns for recognition of sections
     node_line = r'\s*\d+(?:\s+' + real_str + '){3}'
     node_section = r'((?:' + node_line + ')+)'
-    elem_line = r'^ +\d+(?: +\d+){3,4}[\r\n]+'  # 3 -> triangle, 4 -> quadrangle
+    elem_line = r'^ +\d+(?: +\d+){3,4} *[\r\n]+'  # 3 -> triangle, 4 -> quadrangle
     elem_section = r'((?:' + elem_line + ')+)'
     pattern_node_line = re.compile(node_line, re.MULTILINE)
     pattern_elem_line = re.compile(elem_line, re.MULTILINE)
-- 
2.43.0


From 24e74a4d55841edb37631d8d24ca7e8b240c21bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:56 +0000
Subject: [PATCH 47/71] fix: planes with a null normal gave meshes full of NaN

---
 meshmagick/mesh.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index 0c30b56..d9a3f8a 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -161,9 +161,7 @@ class Plane(object):
     """
     def __init__(self, normal=(0., 0., 1.), scalar=0., name=None):
 
-        normal = np.asarray(normal, dtype=float)
-
-        self._normal = normal / np.linalg.norm(normal)
+        self._normal = self._unit_vector(normal)
         self._scalar = float(scalar)
 
         # Storing rotation matrix (redundant !) to speedup computations
@@ -178,6 +176,14 @@ class Plane(object):
                    (self._normal[0], self._normal[1], self._normal[2], self._scalar)
         return str_repr
 
+    @staticmethod
+    def _unit_vector(normal):
+        normal = np.asarray(normal, dtype=float)
+        norm = np.linalg.norm(normal)
+        if not norm > 0.:
+            raise ValueError('The normal of a plane must have a direction (got %s)' % normal)
+        return normal / norm
+
     @property
     def normal(self):
         """Get the plane's normal"""
@@ -186,8 +192,7 @@ class Plane(object):
     @normal.setter
     def normal(self, value):
         """Set the plane's normal"""
-        value = np.asarray(value, dtype=float)
-        self._normal = value / np.linalg.norm(value)
+        self._normal = self._unit_vector(value)
 
         # updating self._rot
         theta_x, theta_y = self.get_normal_orientation_wrt_z()
-- 
2.43.0


From 648af71f4ffed7f4133b91b6b1b458d798c68de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:56 +0000
Subject: [PATCH 48/71] fix: --mirror with no argument did not mirror through
 Oxy

---
 meshmagick/cli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/meshmagick/cli.py b/meshmagick/cli.py
index 7d53c65..09d2bc6 100755
--- a/meshmagick/cli.py
+++ b/meshmagick/cli.py
@@ -297,7 +297,7 @@ parser.add_argument('-sym', '--symmetrize', nargs='*', action='append', metavar=
                     Be careful that symmetry is applied before any rotation so as the plane
                     equation is defined in the initial frame of reference.""")
 
-parser.add_argument('--mirror', nargs='+', metavar='Arg',
+parser.add_argument('--mirror', nargs='*', metavar='Arg',
                     help="""Mirror the mesh through the specified plane. Plane may be specified
                     with reference planes keys (see --plane option), or by 4 scalars, or by the
                     id of a plane defined with the --plane option. By default, the Oxy plane
@@ -528,6 +528,8 @@ def main():
     # Mirroring the mesh
     if args.mirror is not None:
         sym_plane = Plane()
+        if len(args.mirror) == 0:
+            args.mirror = ['Oxy']
         print((args.mirror))
 
         if len(args.mirror) == 1:
-- 
2.43.0


From ff14cfb35000c18ba30d57aadcbe426792bae7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:56 +0000
Subject: [PATCH 49/71] fix: --rho-medium did not take the names of mediums

---
 meshmagick/cli.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/meshmagick/cli.py b/meshmagick/cli.py
index 09d2bc6..bf1f9c7 100755
--- a/meshmagick/cli.py
+++ b/meshmagick/cli.py
@@ -58,6 +58,17 @@ __all__ = ['main']
 
 
 
+def medium_density(value):
+    """Density given on the command line, by a number or by the name of a medium"""
+    try:
+        return float(value)
+    except ValueError:
+        try:
+            return densities.get_density(value)
+        except KeyError:
+            raise argparse.ArgumentTypeError('%s is neither a density nor a known medium' % value)
+
+
 def list_medium():
     return ', '.join(densities.list_medium())
 
@@ -315,7 +326,7 @@ parser.add_argument('-si', '--shell-inertia', action='store_true',
                     uniformly plain of a medium of density rho_medium in kg/m**3. Default
                     is 1023 kg/m**3.""")
 
-parser.add_argument('--rho-medium', type=float,
+parser.add_argument('--rho-medium', type=medium_density,
                     help="""The density (in kg/m**3) of the medium used for evaluation of
                     inertia parameters of the mesh. For the hypothesis of plain homogeneous
                     mesh, the default is that of salt water (1023 kg/m**3) . For the
-- 
2.43.0


From 792231300dc1c3c89015e1d64bf470c50f65f5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:06 +0000
Subject: [PATCH 50/71] fix: files that the VTK library could not read
 completely were loaded as smaller meshes

---
 meshmagick/mmio.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 533dc96..9a9703d 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -467,6 +467,15 @@ def load_TEC(filename):
     return vertices, faces
 
 
+def _update_vtk(reader):
+    """Runs a reader of the VTK library, which only prints its errors and returns what it has got so far"""
+    errors = list()
+    reader.AddObserver('ErrorEvent', lambda caller, event: errors.append(event))
+    reader.Update()
+    if errors or reader.GetErrorCode() != 0:
+        raise IOError('file %s could not be read completely' % reader.GetFileName())
+
+
 def load_VTU(filename):
     """Loads VTK file format in the new XML format (vtu file extension for unstructured meshes).
     
@@ -494,7 +503,7 @@ def load_VTU(filename):
     from vtk import vtkXMLUnstructuredGridReader
     reader = vtkXMLUnstructuredGridReader()
     reader.SetFileName(filename)
-    reader.Update()
+    _update_vtk(reader)
     vtk_mesh = reader.GetOutput()
 
     vertices, faces = _dump_vtk(vtk_mesh)
@@ -527,7 +536,7 @@ def load_VTP(filename):
     from vtk import vtkXMLPolyDataReader
     reader = vtkXMLPolyDataReader()
     reader.SetFileName(filename)
-    reader.Update()
+    _update_vtk(reader)
     vtk_mesh = reader.GetOutput()
 
     vertices, faces = _dump_vtk(vtk_mesh)
@@ -560,7 +569,7 @@ def load_VTK(filename):
     from vtk import vtkPolyDataReader
     reader = vtkPolyDataReader()
     reader.SetFileName(filename)
-    reader.Update()
+    _update_vtk(reader)
     vtk_mesh = reader.GetOutput()
 
     vertices, faces = _dump_vtk(vtk_mesh)
@@ -593,7 +602,7 @@ def load_OBJ(filename):
     from vtk import vtkOBJReader
     reader = vtkOBJReader()
     reader.SetFileName(filename)
-    reader.Update()
+    _update_vtk(reader)
     vtk_mesh = reader.GetOutput()
 
     vertices, faces = _dump_vtk(vtk_mesh)
@@ -658,7 +667,7 @@ def load_STL(filename):
 
     reader = vtkSTLReader()
     reader.SetFileName(filename)
-    reader.Update()
+    _update_vtk(reader)
 
     data = reader.GetOutputDataObject(0)
 
-- 
2.43.0


From 29a651b88dce2cbfdf05464487ab1ee4a00d510f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:06 +0000
Subject: [PATCH 51/71] fix: STL files with coordinates below the single
 precision range could not be read back

---
 meshmagick/mmio.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 9a9703d..4b6d3bb 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1771,6 +1771,9 @@ def write_STL(filename, vertices, faces):
 
     ofile.write('solid meshmagick\n')
 
+    # STL readers hold single precision coordinates and refuse the numbers that are below their range
+    tiny = np.finfo(np.float32).tiny
+
     for face in faces:
         if face[0] != face[3]:
             raise RuntimeError("""Only full triangle meshes are accepted in STL files.
@@ -1785,6 +1788,8 @@ def write_STL(filename, vertices, faces):
         n = np.cross(v1 - v0, v2 - v0)
         n /= np.linalg.norm(n)
 
+        n, v0, v1, v2 = (np.where(np.abs(v) < tiny, 0., v) for v in (n, v0, v1, v2))
+
         block_facet = ''.join(['  facet normal ', ''.join('%15.6e' % ni for ni in n) + '\n',
                                '    outer loop\n',
                                '      vertex', ''.join('%15.6e' % Vi for Vi in v0) + '\n',
-- 
2.43.0


From a05843544ef74a545200be4e0dfe9cb7b4e89735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:06 +0000
Subject: [PATCH 52/71] fix: vertices of MSH 4.1 files were returned as a list

---
 meshmagick/mmio.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 4b6d3bb..7b9571b 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -923,8 +923,7 @@ def load_MSH41(filename):
             labels.append(node.get_tag())
             vertices.append(coord)
 
-    # vertices = np.asarray(vertices)
-    # print(vertices)
+    vertices = np.array(vertices, dtype=float).reshape((-1, 3))
 
     faces = list()
     for entity in mesh.get_element_entities():
-- 
2.43.0


From d3ab1affed9d55c9a56a6e054f0a2160ab672e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:43 +0000
Subject: [PATCH 53/71] fix: VRML files that have been cut crashed the
 interpreter

---
 meshmagick/mmio.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 7b9571b..88a9d1b 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1069,6 +1069,11 @@ def load_WRL(filename):
         if not ver == '2.0':
             raise NotImplementedError('VRML loader only supports VRML 2.0 format (version %s given)' % ver)
 
+        # The importer of the VTK library crashes on a file that has been cut
+        text = re.sub(r'"[^"]*"|#.*', '', f.read())
+        if any(text.count(opening) != text.count(closing) for opening, closing in ('{}', '[]')):
+            raise IOError('file %s is not complete' % filename)
+
     importer = vtkVRMLImporter()
     importer.SetFileName(filename)
     importer.Update()
-- 
2.43.0


From 5cee43cf979d9b2325b0c5c00e371133e00de618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:43 +0000
Subject: [PATCH 54/71] fix: only the first shape of VRML files was loaded,
 without its transformations

---
 meshmagick/mmio.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 88a9d1b..f8871b9 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1080,9 +1080,24 @@ def load_WRL(filename):
 
     actors = importer.GetRenderer().GetActors()
     actors.InitTraversal()
-    dataset = actors.GetNextActor().GetMapper().GetInput()
 
-    return _dump_vtk(dataset)
+    if actors.GetNumberOfItems() == 0:
+        raise IOError('file %s holds no shape' % filename)
+
+    # Every shape of the file, where its transformations put it
+    vertices, faces = [np.zeros((0, 3))], [np.zeros((0, 4), dtype=int)]
+    nv = 0
+    actor = actors.GetNextActor()
+    while actor is not None:
+        shape_vertices, shape_faces = _dump_vtk(actor.GetMapper().GetInput())
+        actor.ComputeMatrix()
+        matrix = np.array([[actor.GetMatrix().GetElement(i, j) for j in range(4)] for i in range(3)])
+        vertices.append(np.dot(shape_vertices, matrix[:, :3].T) + matrix[:, 3])
+        faces.append(shape_faces + nv)
+        nv += len(shape_vertices)
+        actor = actors.GetNextActor()
+
+    return np.concatenate(vertices), np.concatenate(faces)
 
 
 def load_NEM(filename):
-- 
2.43.0


From 7df892b6eb79d9fcf81a7832365dd943e7693837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:32 +0000
Subject: [PATCH 55/71] fix: points, lines and other cells of VTK files were
 loaded as faces

---
 meshmagick/mmio.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index f8871b9..dcd7663 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -627,15 +627,21 @@ def _dump_vtk(vtk_mesh):
 
     nf = vtk_mesh.GetNumberOfCells()
     faces = np.zeros((nf, 4), dtype=int)
+    is_face = np.ones(nf, dtype=bool)
     for k in range(nf):
         cell = vtk_mesh.GetCell(k)
+        if cell.GetCellDimension() < 2:  # points and lines
+            is_face[k] = False
+            continue
         nv_facet = cell.GetNumberOfPoints()
+        if cell.GetClassName() not in ('vtkTriangle', 'vtkQuad', 'vtkPolygon') or nv_facet not in (3, 4):
+            raise NotImplementedError('only triangles and quadrangles can be loaded (%s given)' % cell.GetClassName())
         for l in range(nv_facet):
             faces[k][l] = cell.GetPointId(l)
         if nv_facet == 3:
             faces[k][3] = faces[k][0]
 
-    return vertices, faces
+    return vertices, faces[is_face]
 
 
 def load_STL(filename):
-- 
2.43.0


From 4fa82444122055e8c5bca3325bcb72e93783362e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:45 +0000
Subject: [PATCH 56/71] fix: edge statistics counted an edge of null length for
 every triangle

---
 meshmagick/mesh.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index d9a3f8a..b8e6425 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -2034,6 +2034,11 @@ class Mesh(object):
             edge = vertices[:, i, :] - vertices[:, i-1, :]
             edge_length[:, i] = np.sqrt(np.einsum('ij, ij -> i', edge, edge))
 
+        # A triangle repeats its first vertex and has no fourth edge
+        is_edge = np.ones((self.nb_faces, 4), dtype=bool)
+        is_edge[self.faces[:, 0] == self.faces[:, 3], 0] = False
+        edge_length = edge_length[is_edge]
+
         return edge_length.min(), edge_length.max(), edge_length.mean()
 
     @property
-- 
2.43.0


From a1ea7611db2fa18bf4178ec323c761d644c4e583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:45 +0000
Subject: [PATCH 57/71] fix: conformity of a mesh was judged on its first
 boundary only, and wrong projections

---
 meshmagick/mesh.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index b8e6425..d7fb224 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -1188,18 +1188,18 @@ class Mesh(object):
             y = proj0[:, 1]
             a0 = ((np.roll(y, -1)-y) * (np.roll(x, -1)+x)).sum()
 
-            y = proj1[:, 0]
-            z = proj1[:, 1]
+            y = proj1[:, 1]
+            z = proj1[:, 2]
             a1 = ((np.roll(y, -1)-y) * (np.roll(z, -1)+z)).sum()
 
             x = proj2[:, 0]
-            z = proj2[:, 1]
+            z = proj2[:, 2]
             a2 = ((np.roll(x, -1)-x) * (np.roll(z, -1)+z)).sum()
 
             if math.fabs(a0) < tol and math.fabs(a1) < tol and math.fabs(a2) < tol:
                 conformal = False
 
-            return conformal
+        return conformal
 
     def rotate_x(self, thetax):
         """Rotates the mesh around Ox axis.
-- 
2.43.0


From 249aa8a8eb21f62fbe5b6a292f2829307db98922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:11 +0000
Subject: [PATCH 58/71] fix: sections of one or two elements of RADIOSS files
 were lost

---
 meshmagick/mmio.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index dcd7663..b9cbf52 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -100,7 +100,8 @@ def load_RAD(filename):
     node_section = r'((?:' + node_line + ')+)'
 
     elem_line = r'^\s*(?:\d+\s+){6}\d+\s*[\r\n]+'
-    elem_section = r'((?:' + elem_line + '){3,})'
+    # An element section has a header, or is made of enough lines of that kind
+    elem_section = r'^/SHELL[^\r\n]*[\r\n]+((?:' + elem_line + ')+)|((?:' + elem_line + '){3,})'
 
     pattern_node_line = re.compile(node_line, re.MULTILINE)
     # pattern_node_line_group = re.compile(node_line, re.MULTILINE)
@@ -118,7 +119,7 @@ def load_RAD(filename):
 
     faces = []
     for elem_section in pattern_elem_section.finditer(data):
-        for elem in pattern_elem_line.findall(elem_section.group(1)):
+        for elem in pattern_elem_line.findall(elem_section.group(1) or elem_section.group(2)):
             faces.append(list(map(int, elem.strip().split()[3:])))
 
     return vertices, _renumber(faces, labels)
-- 
2.43.0


From 17371cb29ca4421a9b13cbe4b9a28aefdda46eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:11 +0000
Subject: [PATCH 59/71] fix: HST files cut inside a section were loaded as
 smaller meshes

---
 meshmagick/mmio.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index b9cbf52..66a3d4f 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -152,6 +152,10 @@ def load_HST(filename):
 
     import re
 
+    for section in ('COORDINATES', 'PANEL'):
+        if len(re.findall(r'^\s*%s\b' % section, data, re.MULTILINE)) > len(re.findall(r'^\s*END%s\b' % section, data, re.MULTILINE)):
+            raise IOError('section %s of file %s is not complete' % (section, filename))
+
     node_line = r'\s*\d+(?:\s+' + real_str + '){3}'
     node_section = r'((?:' + node_line + ')+)'
 
-- 
2.43.0


From 50af6aa008b72db783ce9024595e58e683a6c0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:41 +0000
Subject: [PATCH 60/71] fix: Diodore DAT files cut inside a section were loaded
 as smaller meshes

---
 meshmagick/mmio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 66a3d4f..995e9d3 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -215,6 +215,9 @@ def load_DAT(filename):
 
     faces = []
 
+    if re.search(r'ELEMENT\S+(?:T3C000|Q4C000)(?!.*\*RETURN)', data, re.DOTALL):
+        raise IOError('last ELEMENT section of file %s is not complete' % filename)
+
     # TRIANGLE FACES SECTION
     triangle_section_pattern = re.compile(r'ELEMENT\S+T3C000.+\s*((?:(?:\d+\s+){4})+)\*RETURN')
     triangle_sections = triangle_section_pattern.findall(data)
-- 
2.43.0


From a7b017c16f11fa6225fd6e430b4989015788be10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:41 +0000
Subject: [PATCH 61/71] fix: MSH files cut before their elements were loaded as
 meshes without faces

---
 meshmagick/mmio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 995e9d3..1f89d81 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -982,6 +982,9 @@ def load_MSH(filename):
     with open(filename, 'r') as file:
         data = file.read()
 
+    if '$EndElements' not in data:
+        raise IOError('file %s is not complete' % filename)
+
     version = float(re.search(r'\$MeshFormat\n(\d.\d).*\n\$EndMeshFormat', data, re.DOTALL).groups()[0])
 
     if 2 <= version < 3:
-- 
2.43.0


From f60a70ef174261a447fd9a71fd981b4601fe7383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:58 +0000
Subject: [PATCH 62/71] fix: STL files that have been cut could be loaded as
 binary ones

---
 meshmagick/mmio.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 1f89d81..28de200 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -679,6 +679,12 @@ def load_STL(filename):
 
     _check_file(filename)
 
+    # The reader of the VTK library may take a text file that has been cut for a binary one
+    with open(filename, 'rb') as f:
+        data = f.read()
+    if data.lstrip()[:5].lower() == b'solid' and b'\0' not in data and b'endsolid' not in data.lower():
+        raise IOError('file %s is not complete' % filename)
+
     reader = vtkSTLReader()
     reader.SetFileName(filename)
     _update_vtk(reader)
-- 
2.43.0


From 2f0a6278630fc20f3ad7ad9aa24c21ebb591ac65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:53 +0000
Subject: [PATCH 63/71] fix: Diodore DAT files were written without a space
 before negative coordinates of three-digit exponent

---
 meshmagick/mmio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 28de200..6c21bbe 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1278,7 +1278,7 @@ def write_DAT(filename, vertices, faces):
                     ''.join(
                         (
                             '{:8d}'.format(idx+1),
-                            ''.join('{:13.5E}'.format(elt) for elt in node)
+                            ''.join(' {:12.5E}'.format(elt) for elt in node)
                         )
                     ) for (idx, node) in enumerate(vertices)
                 ),
-- 
2.43.0


From 0753da0a53b7d1d7555666922fb2a9b1902f90e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:53 +0000
Subject: [PATCH 64/71] fix: VTK files cut before their polygons were loaded as
 meshes without faces

---
 meshmagick/mmio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 6c21bbe..a6dd17a 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -579,6 +579,8 @@ def load_VTK(filename):
     reader.SetFileName(filename)
     _update_vtk(reader)
     vtk_mesh = reader.GetOutput()
+    if vtk_mesh.GetNumberOfCells() == 0:  # Cut files are not always an error for the reader
+        raise IOError('file %s holds no face' % filename)
 
     vertices, faces = _dump_vtk(vtk_mesh)
     return vertices, faces
-- 
2.43.0


From 810fc507818fd81ec0e60dbcfed0d28ede6dbcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:03 +0000
Subject: [PATCH 65/71] fix: VTK files with points or lines, cut before their
 polygons, were loaded as meshes without faces

---
 meshmagick/mmio.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index a6dd17a..0645586 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -579,10 +579,11 @@ def load_VTK(filename):
     reader.SetFileName(filename)
     _update_vtk(reader)
     vtk_mesh = reader.GetOutput()
-    if vtk_mesh.GetNumberOfCells() == 0:  # Cut files are not always an error for the reader
-        raise IOError('file %s holds no face' % filename)
 
     vertices, faces = _dump_vtk(vtk_mesh)
+    if len(faces) == 0:  # Cut files are not always an error for the reader
+        raise IOError('file %s holds no face' % filename)
+
     return vertices, faces
 
 
-- 
2.43.0


From b324e1cc261f559e5aff3578a4a272d6c0788400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:27 +0000
Subject: [PATCH 66/71] fix: files whose faces refer to vertices that they do
 not hold were loaded

---
 meshmagick/mmio.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 0645586..b6264c1 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -66,6 +66,9 @@ def load_mesh(filename, file_format):
 
     vertices, faces = loader(filename)
 
+    if np.any(faces < 0) or np.any(faces >= len(vertices)):
+        raise IOError('faces of file %s refer to vertices that it does not hold' % filename)
+
     return vertices, faces
 
 
@@ -631,6 +634,8 @@ def _dump_vtk(vtk_mesh):
         numpy array of the faces' nodes connectivities
     """
 
+    from vtk import vtkIdList
+
     nv = vtk_mesh.GetNumberOfPoints()
     vertices = np.zeros((nv, 3), dtype=float)
     for k in range(nv):
@@ -639,7 +644,11 @@ def _dump_vtk(vtk_mesh):
     nf = vtk_mesh.GetNumberOfCells()
     faces = np.zeros((nf, 4), dtype=int)
     is_face = np.ones(nf, dtype=bool)
+    ids = vtkIdList()
     for k in range(nf):
+        vtk_mesh.GetCellPoints(k, ids)
+        if not all(0 <= ids.GetId(l) < nv for l in range(ids.GetNumberOfIds())):
+            raise IOError('a cell refers to points that do not exist')
         cell = vtk_mesh.GetCell(k)
         if cell.GetCellDimension() < 2:  # points and lines
             is_face[k] = False
-- 
2.43.0


From bd3d6680c90a9d2d0dc44bbc516fa14e6c2a800a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:27 +0000
Subject: [PATCH 67/71] fix: PNL files with coordinates that are not numbers,
 or faces of other than three or four corners, were loaded

---
 meshmagick/mmio.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index b6264c1..c558112 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1208,6 +1208,8 @@ def load_PNL(filename, name=None):
         f.readline()
         f.readline()
         vertices = np.genfromtxt((f.readline() for _ in range(nb_vertices)), usecols=(1, 2, 3))
+        if np.isnan(vertices).any():
+            raise IOError('coordinates of file %s are not all numbers' % filename)
         # Skip 3 more lines
         f.readline()
         f.readline()
@@ -1223,6 +1225,8 @@ def load_PNL(filename, name=None):
             elif int(nb_corners) == 4:  # Quadrangle
                 assert len(data) == 4
                 faces[i, :] = data
+            else:
+                raise IOError('only triangles and quadrangles can be loaded (%u corners given)' % nb_corners)
     faces = faces - 1  # Going from Fortran 1-based indices to Numpy 0-based indices
 
     return vertices, faces
-- 
2.43.0


From c7d98596d38c598821a8129f5fdb59e0a39e856a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:47 +0000
Subject: [PATCH 68/71] fix: elements of INP files that refer to nodes their
 DAT file does not hold were given nodes of another body

---
 meshmagick/mmio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index c558112..dd43df6 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -379,6 +379,8 @@ def load_INP(filename):
                 elem = list(map(int, elem.split()))
                 # for node in elem[1:]:
                 elem = id_new[elem[1:]].tolist()
+                if min(elem) < 0:
+                    raise IOError('elements of file %s refer to nodes that it does not hold' % (file + '.DAT'))
                 if len(elem) == 3:  # Case of a triangle, we repeat the first node at the last position
                     elem.append(elem[0])
 
-- 
2.43.0


From facc594db86d72868871c6206b6a853ad4e849dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:44 +0000
Subject: [PATCH 69/71] fix: degenerate faces were lost by STL files, and text
 STL files that are not well formed could be loaded as binary ones

---
 meshmagick/mmio.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index dd43df6..925d0ed 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -695,12 +695,14 @@ def load_STL(filename):
 
     # The reader of the VTK library may take a text file that has been cut for a binary one
     with open(filename, 'rb') as f:
-        data = f.read()
-    if data.lstrip()[:5].lower() == b'solid' and b'\0' not in data and b'endsolid' not in data.lower():
+        text = f.read().lower()
+    is_text = text.lstrip()[:5] == b'solid' and b'\0' not in text
+    if is_text and b'endsolid' not in text:
         raise IOError('file %s is not complete' % filename)
 
     reader = vtkSTLReader()
     reader.SetFileName(filename)
+    reader.MergingOff()  # when merging, it drops the degenerate faces
     _update_vtk(reader)
 
     data = reader.GetOutputDataObject(0)
@@ -710,6 +712,8 @@ def load_STL(filename):
     for k in range(nv):
         vertices[k] = np.array(data.GetPoint(k))
     nf = data.GetNumberOfCells()
+    if is_text and nf != text.count(b'endfacet'):
+        raise IOError('file %s could not be read completely' % filename)
     faces = np.zeros((nf, 4), dtype=int)
     for k in range(nf):
         cell = data.GetCell(k)
@@ -1846,7 +1850,9 @@ def write_STL(filename, vertices, faces):
         v2 = vertices[face[2], :]
 
         n = np.cross(v1 - v0, v2 - v0)
-        n /= np.linalg.norm(n)
+        norm = np.linalg.norm(n)
+        if norm > 0.:  # the normal of a degenerate face is null
+            n /= norm
 
         n, v0, v1, v2 = (np.where(np.abs(v) < tiny, 0., v) for v in (n, v0, v1, v2))
 
-- 
2.43.0


From a2d2e74cafb33d95d2f247a77a7f22fbd9eade23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:49 +0000
Subject: [PATCH 70/71] fix: --lpp and --orig-at-ap were ignored by the
 hydrostatics of the command line

---
 meshmagick/cli.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/meshmagick/cli.py b/meshmagick/cli.py
index bf1f9c7..29e0644 100755
--- a/meshmagick/cli.py
+++ b/meshmagick/cli.py
@@ -940,7 +940,8 @@ def main():
             hs_data = hs.compute_hydrostatics(mesh, np.zeros(3), water_density, grav, at_cog=False)
             xb, yb, _ = hs_data["buoyancy_center"]
             cog = np.array([xb, yb, zcog])
-            hs_data = hs.compute_hydrostatics(mesh, cog, water_density, grav, at_cog=True)
+            hs_data = hs.compute_hydrostatics(mesh, cog, water_density, grav, at_cog=True,
+                                              lpp=args.lpp, orig_at_ap=args.orig_at_ap)
 
         elif has_disp and not has_cog:
             print(">>>> Computing equilibrium of the hull for the given displacement of %f tons" % disp)
@@ -951,14 +952,16 @@ def main():
             hs_data = hs.compute_hydrostatics(mesh, np.zeros(3), water_density, grav, z_corr=z_corr, at_cog=False)
             xb, yb, _ = hs_data["buoyancy_center"]
             cog = np.array([xb, yb, zcog])
-            hs_data = hs.compute_hydrostatics(mesh, cog, water_density, grav, z_corr=z_corr, at_cog=True)
+            hs_data = hs.compute_hydrostatics(mesh, cog, water_density, grav, z_corr=z_corr, at_cog=True,
+                                              lpp=args.lpp, orig_at_ap=args.orig_at_ap)
 
         elif has_disp and has_cog:
             print(">>>> Computing equilibrium in 3DOF for the given displacement and COG")
             if has_zcog:
                 warn("zcog is redundant with cog, taking cog and ignoring zcog")
             z_corr, rotmat_corr = hs.full_equilibrium(mesh, cog, disp, water_density, grav, reltol=reltol, verbose=True)
-            hs_data = hs.compute_hydrostatics(mesh, cog, water_density, grav, z_corr=z_corr, rotmat_corr=rotmat_corr, at_cog=True)
+            hs_data = hs.compute_hydrostatics(mesh, cog, water_density, grav, z_corr=z_corr, rotmat_corr=rotmat_corr,
+                                              at_cog=True, lpp=args.lpp, orig_at_ap=args.orig_at_ap)
 
         elif not has_disp and has_cog:
             print(">>>> Computing equilibrium in 3DOF for the given COG, considering the current configuration presents the "
@@ -970,7 +973,7 @@ def main():
             disp = hs_data['disp_mass'] / 1000
             z_corr, rotmat_corr = hs.full_equilibrium(mesh, cog, disp, water_density, grav, reltol=reltol, verbose=True)
             hs_data = hs.compute_hydrostatics(mesh, cog, water_density, grav, z_corr=z_corr, rotmat_corr=rotmat_corr,
-                                              at_cog=True)
+                                              at_cog=True, lpp=args.lpp, orig_at_ap=args.orig_at_ap)
 
         mesh.rotate_matrix(rotmat_corr)
         mesh.translate_z(z_corr)
-- 
2.43.0


From 7398715457fb0ef7de0abe97c95b06e7990b25ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:37 +0000
Subject: [PATCH 71/71] fix: quadrangles that meet the clipping plane more than
 twice were cut along the wrong edges

---
 meshmagick/mesh_clipper.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/meshmagick/mesh_clipper.py b/meshmagick/mesh_clipper.py
index 8fa9cdb..5eb1fcc 100644
--- a/meshmagick/mesh_clipper.py
+++ b/meshmagick/mesh_clipper.py
@@ -361,9 +361,18 @@ class MeshClipper(object):
 
         index = crown_mesh.nb_vertices
 
+        # Faces to clip. A quadrangle that is not plane may meet the plane more than twice, it is then seen as two triangles
+        faces_to_clip = list()
         for face_id in range(crown_mesh.nb_faces):
-
             face = crown_mesh.get_face(face_id)
+            positions = vertices_above_mask[face].astype(int) - vertices_below_mask[face].astype(int)
+            nb_meetings = np.sum(positions == 0) + np.sum(positions * np.roll(positions, -1) < 0)
+            if len(face) == 4 and positions.max() > 0 > positions.min() and nb_meetings > 2:
+                faces_to_clip += [(face_id, face[[0, 1, 2]]), (face_id, face[[0, 2, 3]])]
+            else:
+                faces_to_clip.append((face_id, face))
+
+        for face_id, face in faces_to_clip:
 
             # # Determining the type of face clipping
             v_above_face = np.where(vertices_above_mask[face])[0]
@@ -578,9 +587,13 @@ class MeshClipper(object):
                 #    0|     |3
                 #     |     |
                 #    1*-----*2
-                if v_on_face[1] == v_on_face[0] + 1:
-                    face = np.roll(face, -v_on_face[1])
-                boundary_edge = [face[0], face[3]]
+                if v_on_face[1] == v_on_face[0] + 2:
+                    # The face only touches the plane at two opposite vertices
+                    boundary_edge = None
+                else:
+                    if v_on_face[1] == v_on_face[0] + 1:
+                        face = np.roll(face, -v_on_face[1])
+                    boundary_edge = [face[0], face[3]]
                 crown_faces.append(list(face))
 
             elif face_type == '012':  # Done
-- 
2.43.0

