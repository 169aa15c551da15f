From 0e9ef424d4bac44e079f59a9a91ae6cb72775bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 01/31] fix: split_zone_metric rolls the zone links back also
 when one half is empty

---
 crysgsu/gsu/grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 17c7aa2..49b2542 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -917,6 +917,8 @@ class Grid:
 
         # Prevent empty zone.
         if (zlc == 0) or (zrc == 0):
+            for f in zone.Faces:
+                f.Zone = zone
             return math.inf
 
         # Metric.
-- 
2.43.0


From a765ffc7401f60e9018062e3aeebb8dfa941b83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 02/31] fix: split_zone gives back the unsplit zone when no
 direction splits it

---
 crysgsu/gsu/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 49b2542..d11336a 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -977,7 +977,8 @@ class Grid:
         if min_metric is math.inf:
             print('Warning : bad metrics to split zone {0}'.format(zone.Name))
             # Replace to the end.
-            self.Zones.remove(zone)
+            self.Zones.remove(zl)
+            self.Zones.remove(zr)
             self.Zones.append(zone)
             return
 
-- 
2.43.0


From 94eb788bf6b6b80f2104322de00a9328dc91e9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 03/31] fix: Grid.print_info refers to gsu.ZonesAdjacencyMatrix

---
 crysgsu/gsu/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index d11336a..bbf5aa7 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -150,7 +150,7 @@ class Grid:
               '{2} faces, {3} zones'.format(len(self.Nodes), ec, fc, zc))
 
         # Zones adjacency matrix.
-        zam = ZonesAdjacencyMatrix(self.Edges, self.Zones)
+        zam = gsu.ZonesAdjacencyMatrix(self.Edges, self.Zones)
 
         # Edges statistics.
         if is_print_edges_statistics:
-- 
2.43.0


From fadfefa8faecf223564c11e2992847cf2e442aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 04/31] fix: Triangle.is_good uses math.sqrt

---
 crysgsu/geom/triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/geom/triangle.py b/crysgsu/geom/triangle.py
index ba9fc46..792d5d3 100644
--- a/crysgsu/geom/triangle.py
+++ b/crysgsu/geom/triangle.py
@@ -529,7 +529,7 @@ class Triangle:
         # Get all points.
         a, b, c = self.a(), self.b(), self.c()
 
-        return (a.dist_to(b) ** 2 + b.dist_to(c) ** 2 + c.dist_to(a) ** 2) / sqrt(self.area())
+        return (a.dist_to(b) ** 2 + b.dist_to(c) ** 2 + c.dist_to(a) ** 2) / math.sqrt(self.area())
 
 
 # ==================================================================================================
-- 
2.43.0


From 0d0ebf64cbf86f184cc5a6fe0e6fe213a8f21a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 05/31] fix: zone arrays do not use numpy.float, which numpy
 has removed

---
 crysgsu/gsu/zone.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crysgsu/gsu/zone.py b/crysgsu/gsu/zone.py
index 907bbdc..f20aa1b 100644
--- a/crysgsu/gsu/zone.py
+++ b/crysgsu/gsu/zone.py
@@ -205,10 +205,10 @@ class Zone:
         """
         gloids, ts, hws = list(), list(), list()
         his, htcs, betas = list(), list(), list()
-        mimp2s = np.zeros((len(self.Faces)), dtype=np.float)
-        vd2s =  np.zeros((len(self.Faces)), dtype=np.float)
+        mimp2s = np.zeros((len(self.Faces)), dtype=np.double)
+        vd2s =  np.zeros((len(self.Faces)), dtype=np.double)
         tauxs, tauys, tauzs = list(), list(), list()
-        recoveryfactors =  np.zeros((len(self.Faces)), dtype=np.float)
+        recoveryfactors =  np.zeros((len(self.Faces)), dtype=np.double)
 
         for f in self.Faces:
             gloids.append(f.GloId)
@@ -234,7 +234,7 @@ class Zone:
             n1, n2, n3 = f.Nodes[0].GloId, f.Nodes[1].GloId, f.Nodes[2].GloId
             assert not n1 == n2 == n3
             connectivity_list.append([n1, n2, n3])
-        return np.array(connectivity_list, dtype=np.float)
+        return np.array(connectivity_list, dtype=np.double)
 
     def get_variable(self, name):
         """Return numpy array of variable values.
-- 
2.43.0


From 5c379f0d2b2655437b3b8e61994049f1715e17a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 06/31] fix: null-space smoothing uses names that exist

---
 crysgsu/smoothing.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/crysgsu/smoothing.py b/crysgsu/smoothing.py
index 2adb569..99eb3d9 100644
--- a/crysgsu/smoothing.py
+++ b/crysgsu/smoothing.py
@@ -143,11 +143,11 @@ class NullSpaceSmoothing(Smoothing):
         -------
             numpy array (N_FACES, 3)
         """
-        N = node.Faces[0].get_triangle().normal_orth().coords_as_numpy()
+        N = node.Faces[0].get_triangle().normal_orth().coords_as_np()
         N = N.reshape((1, 3))
         for f in node.Faces[1:]:
-            normal = f.get_triangle().normal_orth().coords_as_numpy()
-            assert N.shape[1] == normal.shape[1], print(N.shape, normal.shape)
+            normal = f.get_triangle().normal_orth().coords_as_np()
+            assert N.shape[1] == normal.shape[0], print(N.shape, normal.shape)
             N = vstack((N, normal))
 
         return N
@@ -166,7 +166,7 @@ class NullSpaceSmoothing(Smoothing):
         -------
             Vector obj
         """
-        dv = Vect()
+        dv = geom.Vect()
         p = node.P
         weights = 0
 
@@ -179,7 +179,7 @@ class NullSpaceSmoothing(Smoothing):
             c = c - p
             weight = 1.0
 
-            assert isinstance(c, Vect)
+            assert isinstance(c, geom.Vect)
 
             c = c * weight
             dv = dv + c
@@ -195,14 +195,14 @@ class NullSpaceSmoothing(Smoothing):
         for i in range(0, self.num_iterations):
             shifts = []
             for n in self.grid.Nodes:
-                m = len(n.faces)
-                w = [f.get_triangle().area() for f in n.faces]
+                m = len(n.Faces)
+                w = [f.get_triangle().area() for f in n.Faces]
                 N = self.create_matrix_of_normals(n)
                 dv = self.get_laplacian(n)
 
                 assert N.shape == (m, 3)
                 assert len(w) == m
-                assert isinstance(dv, Vect)
+                assert isinstance(dv, geom.Vect)
 
                 W = diag(w)
                 NTW = dot(N.T, W)
@@ -231,9 +231,9 @@ class NullSpaceSmoothing(Smoothing):
                     ttT = dot(ns, ns.T)
                     t = self.st * dot(ttT, dv)
                     assert t.shape == (3, 1), 'Wrong shift shape'
-                    shift = Vect(real(t[0, 0]), real(t[1, 0]), real(t[2, 0]))
+                    shift = geom.Vect(real(t[0, 0]), real(t[1, 0]), real(t[2, 0]))
                 else:
-                    shift = Vect(0, 0, 0)
+                    shift = geom.Vect(0, 0, 0)
                 shifts.append(shift)
 
             Smoothing.apply_shifts(self, shifts)
-- 
2.43.0


From 50861dd881227d9586225a63d4de5530ef45851c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 07/31] fix: pseudo 2d mode of the remesher reads the
 coordinates that exist

---
 crysgsu/remeshing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crysgsu/remeshing.py b/crysgsu/remeshing.py
index 0261e5d..bde2c87 100644
--- a/crysgsu/remeshing.py
+++ b/crysgsu/remeshing.py
@@ -495,7 +495,7 @@ class TongRemesher:
 
         # Add nodes to appropriate classes with the same x, y coords.
         for node in self.grid.Nodes:
-            c = (int(node.P.x * big_value), int(node.P.y * big_value))
+            c = (int(node.P.X * big_value), int(node.P.Y * big_value))
             v = d.get(c)
             if v is not None:
                 v.append(node)
@@ -512,7 +512,7 @@ class TongRemesher:
                 raise Exception('pseudo_2d_oz mode is unable for pure 3d mesh (diff columns lens)')
             if len(v) == 1:
                 raise Exception('pseudo_2d_oz mode is unable for pure 3d mesh (column len = 1)')
-            v.sort(key=lambda n: n.P.z)
+            v.sort(key=lambda n: n.P.Z)
 
         # Set information to grid.
         self.grid.pseudo_2d_oz_columns = vs
@@ -525,7 +525,7 @@ class TongRemesher:
         """
 
         for n in self.grid.Nodes:
-            n.frozen_z = n.P.z
+            n.frozen_z = n.P.Z
 
     # ----------------------------------------------------------------------------------------------
 
@@ -619,7 +619,7 @@ class TongRemesher:
         for col in cols:
             for i, n in enumerate(col):
                 if i != mid_index:
-                    n.P.X, n.P.Y, n.P.Z = col[mid_index].x, col[mid_index].y, n.frozen_z
+                    n.P.X, n.P.Y, n.P.Z = col[mid_index].P.X, col[mid_index].P.Y, n.frozen_z
 
     # ----------------------------------------------------------------------------------------------
 
-- 
2.43.0


From 3d766d7a85a3596e3c3fe9439d0ed522f3f74371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 08/31] fix: refine imports Grid from the module that defines
 it

---
 crysgsu/refine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/refine.py b/crysgsu/refine.py
index a716b13..22e4efa 100644
--- a/crysgsu/refine.py
+++ b/crysgsu/refine.py
@@ -6,7 +6,7 @@ import os
 import time
 import functools
 import math
-from gsu.gsu import Grid
+from gsu.grid import Grid
 from gsu.node import Node
 from gsu.edge import Edge
 from gsu.face import Face
-- 
2.43.0


From 3170ffbc3d24cfc5a30deae19d4bca39c10bcdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 09/31] fix: refine handles a grid without intersections and
 orders triangles reproducibly

---
 crysgsu/refine.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crysgsu/refine.py b/crysgsu/refine.py
index 22e4efa..826bfcd 100644
--- a/crysgsu/refine.py
+++ b/crysgsu/refine.py
@@ -240,10 +240,10 @@ def refine_grid(grid_file, out_grid_file):
     res_intersect = triangles_cloud.intersection_with_triangles_cloud(triangles_cloud)
 
     # необходимо отсортировать по треугольникам и объединить точки пересечений по одному треугольнику в один список
-    # сортировка списка треугольников по id
-    res_intersect.sort(key=lambda list_of_tri_and_points: id(list_of_tri_and_points[0]))
+    # сортировка списка треугольников по номеру грани
+    res_intersect.sort(key=lambda list_of_tri_and_points: list_of_tri_and_points[0].BackRef.GloId)
     # первый элемент просто записываем в новый список
-    res_intersect_new_list = [res_intersect[0]]
+    res_intersect_new_list = res_intersect[:1]
     # остальные элементы сравниваем с предыдущими
     # если треугольники одинаковвые, то к предыдущему дописывем список точек
     # если треугольники разные - дописываем в новый список треугольник с точками
-- 
2.43.0


From d0ec08e58b5a0ad927b1f29563db683d05be7287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 10/31] fix: product of two vectors is the dot product, as the
 prizmatoid coefficients need

---
 crysgsu/geom/vect.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crysgsu/geom/vect.py b/crysgsu/geom/vect.py
index f226120..1de33da 100644
--- a/crysgsu/geom/vect.py
+++ b/crysgsu/geom/vect.py
@@ -232,6 +232,9 @@ class Vect:
         :param op: Vect, float ot int.
         :return:  Result (vector).
         """
+        if isinstance(op, Vect):
+            return Vect.dot_product(self, op)
+
         return Vect(self.X * op, self.Y * op, self.Z * op)
 
     # ----------------------------------------------------------------------------------------------
-- 
2.43.0


From 50e940b368748d2be6186f07bc42fa3595ab4786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 11/31] fix: Grid.clear resets the name and the border nodes
 counter too

---
 crysgsu/gsu/grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index bbf5aa7..606df7e 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -49,6 +49,8 @@ class Grid:
         self.Faces.clear()
         self.Zones.clear()
         self.RoundedCoordsBag.clear()
+        self.Name = ''
+        self.number_of_border_nodes = 0
 
     # ----------------------------------------------------------------------------------------------
 
-- 
2.43.0


From ed65bb892c55bb2c259385e05cfa4edaa305b9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 12/31] fix: a drop at rest in the air does not divide by zero

---
 crysgsu/drops.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crysgsu/drops.py b/crysgsu/drops.py
index e4bd951..442fb66 100644
--- a/crysgsu/drops.py
+++ b/crysgsu/drops.py
@@ -94,7 +94,10 @@ class Space:
         # Reynolds number and C_d.
         vsm = (v - v_air).mod()
         re = vsm * d / air_vis
-        if re <= 350.0:
+        if re == 0.0:
+            # No relative movement - no drag.
+            cd = 0.0
+        elif re <= 350.0:
             cd = (24.0 / re) * (1.0 + 0.166 * math.pow(re, 0.33))
         else:
             cd = 0.178 * math.pow(re, 0.217)
-- 
2.43.0


From 7ca96a932f534bcc9258a29325ea95a58b31583d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 13/31] fix: Grid.load keeps the sign = in the names of the
 grid and the zones

---
 crysgsu/gsu/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 606df7e..2e16584 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -495,7 +495,7 @@ class Grid:
                     # Comment.
                     pass
                 elif 'TITLE=' in line:
-                    self.Name = line.split('=')[1][1:-2]
+                    self.Name = line.split('=', 1)[1][1:-2]
                 elif 'VARIABLES=' in line:
                     variables_str = line.split('=')[-1][:-1]
                     variables = variables_str.replace('"', '').replace(',', '').split()
@@ -505,7 +505,7 @@ class Grid:
                 elif 'ZONE T=' in line:
 
                     # Create new zone.
-                    zone_name = line.split('=')[-1][1:-2]
+                    zone_name = line.split('=', 1)[1][1:-2]
                     zone = gsu.Zone(zone_name)
                     self.Zones.append(zone)
 
-- 
2.43.0


From a024d095e46310157c3721ac094034a0b606ff18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 14/31] fix: crys waits for its sends and for the barrier

---
 crysgsu/crys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crysgsu/crys.py b/crysgsu/crys.py
index bdefc1d..12444e4 100644
--- a/crysgsu/crys.py
+++ b/crysgsu/crys.py
@@ -116,7 +116,7 @@ def start_exchanges(mpi_borders, send_sb, recv_sb):
     for i in range(len(mpi_borders)):
         dest = list(mpi_borders.keys())[i]
         count = len(mpi_borders[dest])
-        comm.Isend(send_sb[i][:count], dest=dest)
+        requests.append(comm.Isend(send_sb[i][:count], dest=dest))
 
     for i in range(len(mpi_borders)):
         source = list(mpi_borders.keys())[i]
@@ -125,7 +125,7 @@ def start_exchanges(mpi_borders, send_sb, recv_sb):
         requests.append(req)
 
     MPI.Request.Waitall(requests)
-    comm.Ibarrier()
+    comm.Barrier()
 
 def get_from_superbuffer(mpi_borders, recv_sb, data):
     """Get data from recv superbuffer.
-- 
2.43.0


From ad118ef9afbb2595e04c9718669a92880dc325a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:40 +0000
Subject: [PATCH 15/31] fix: crys takes the gathered heights of a zone from the
 offset of that zone

---
 crysgsu/crys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/crys.py b/crysgsu/crys.py
index 12444e4..7393f3d 100644
--- a/crysgsu/crys.py
+++ b/crysgsu/crys.py
@@ -169,7 +169,7 @@ def remesh(rank, his):
 
     if rank == 0:
         for i, zone in enumerate(g.Zones):
-            for f, new_h in zip(zone.Faces, recvbuf[i * sendcounts[i] : (i + 1) * sendcounts[i]]):
+            for f, new_h in zip(zone.Faces, recvbuf[sum(sendcounts[:i]) : sum(sendcounts[:i + 1])]):
                 f.Data['Hi'] = new_h
 
         TongRemesher(mesh_filename=FILENAME, json_file=JSON, outdir=OUTDIR)(g)
-- 
2.43.0


From 0310bc6ee9b32a57a8cde4b3a49aab7a73224d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:40 +0000
Subject: [PATCH 16/31] fix: hi does not go past the end of the shorter arrays

---
 crysgsu/cpp/src/swim.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crysgsu/cpp/src/swim.cpp b/crysgsu/cpp/src/swim.cpp
index 40de135..8ae03c2 100644
--- a/crysgsu/cpp/src/swim.cpp
+++ b/crysgsu/cpp/src/swim.cpp
@@ -10,10 +10,19 @@ void hi(int n1, double *a1,
         int n2, double *a2,
         int n3, double *a3)
 {
-    (void) n2;
-    (void) n3;
+    int n = n1;
 
-    for (int i = 0; i < n1; i++)
+    if (n2 < n)
+    {
+        n = n2;
+    }
+
+    if (n3 < n)
+    {
+        n = n3;
+    }
+
+    for (int i = 0; i < n; i++)
     {
         a1[i] += 1;
         a2[i] += 2;
-- 
2.43.0


From 1825f562a55c739179a2b68038abc637cd552adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:40 +0000
Subject: [PATCH 17/31] fix: Lazurit cells are linked in the order of their
 data

---
 crysgsu/convert/lazurit_to_crystal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crysgsu/convert/lazurit_to_crystal.py b/crysgsu/convert/lazurit_to_crystal.py
index 614dfd2..994eda3 100644
--- a/crysgsu/convert/lazurit_to_crystal.py
+++ b/crysgsu/convert/lazurit_to_crystal.py
@@ -192,8 +192,8 @@ if __name__ == '__main__':
             of.write(' '.join(double_and_neg_list(selems[7 * hec: 8 * hec])) + '\n')
 
             # Печать линков.
-            for i in range(zone_i - 1):
-                for j in range(zone_j - 1):
+            for j in range(zone_j - 1):
+                for i in range(zone_i - 1):
                     ni00 = (i)     + (j)     * zone_i
                     ni01 = (i)     + (j + 1) * zone_i
                     ni10 = (i + 1) + (j)     * zone_i
-- 
2.43.0


From aea2eddea69e1d13f81ac10cd4c995b67652926b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:40 +0000
Subject: [PATCH 18/31] fix: Ansys conversion exports the values without losing
 digits

---
 crysgsu/convert/gsu_converter.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/crysgsu/convert/gsu_converter.py b/crysgsu/convert/gsu_converter.py
index fade935..ba62faf 100644
--- a/crysgsu/convert/gsu_converter.py
+++ b/crysgsu/convert/gsu_converter.py
@@ -415,31 +415,31 @@ class Grid:
             fl.write('ZONETYPE=FETRIANGLE\n')
             fl.write('VARLOCATION=([4-9]=CELLCENTERED)\n')
             for n in z.Nodes:
-                fl.write('%f ' % n.Point.X)
+                fl.write('%.18e ' % n.Point.X)
             fl.write('\n')
             for n in z.Nodes:
-                fl.write('%f ' % n.Point.Y)
+                fl.write('%.18e ' % n.Point.Y)
             fl.write('\n')
             for n in z.Nodes:
-                fl.write('%f ' % n.Point.Z)
+                fl.write('%.18e ' % n.Point.Z)
             fl.write('\n')
             for f in z.Faces:
-                fl.write('%f ' % f.HTC)
+                fl.write('%.18e ' % f.HTC)
             fl.write('\n')
             for f in z.Faces:
-                fl.write('%f ' % f.Beta)
+                fl.write('%.18e ' % f.Beta)
             fl.write('\n')
             for f in z.Faces:
-                fl.write('%f ' % f.Tau.X)
+                fl.write('%.18e ' % f.Tau.X)
             fl.write('\n')
             for f in z.Faces:
-                fl.write('%f ' % f.Tau.Y)
+                fl.write('%.18e ' % f.Tau.Y)
             fl.write('\n')
             for f in z.Faces:
-                fl.write('%f ' % f.Tau.Z)
+                fl.write('%.18e ' % f.Tau.Z)
             fl.write('\n')
             for f in z.Faces:
-                fl.write('%f ' % f.RecoveryFactor)
+                fl.write('%.18e ' % f.RecoveryFactor)
             fl.write('\n')
 
             # Осталось добавить линки.
-- 
2.43.0


From d1800a4892194e40c45e1f666b6db4e795a4428b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:40 +0000
Subject: [PATCH 19/31] fix: merge reads its source directory in a fixed order

---
 crysgsu/merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/merge.py b/crysgsu/merge.py
index 20d90ab..806b345 100644
--- a/crysgsu/merge.py
+++ b/crysgsu/merge.py
@@ -43,7 +43,7 @@ def merge(grid_file, src_dir, dst_dir):
           'src_dir={5}, dst_dir={6}'.format(grid_file, bs, nm, ts, sf,
                                             src_dir, dst_dir))
 
-    all_files = os.listdir(src_dir)
+    all_files = sorted(os.listdir(src_dir))
 
     # We have to analyze only our *.txt files.
     match_files = [fn for fn in all_files if utils.is_filename_correct_crys_txt_file(fn, nm)]
-- 
2.43.0


From ed5c9a4574b31f8529606b66941d88681c0b806b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 20/31] fix: without redistribution the remesher subtracts the
 ice it planned for the step

---
 crysgsu/remeshing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crysgsu/remeshing.py b/crysgsu/remeshing.py
index bde2c87..7e75ad0 100644
--- a/crysgsu/remeshing.py
+++ b/crysgsu/remeshing.py
@@ -784,8 +784,10 @@ class TongRemesher:
             # Apply this step only when option in on.
             if self.rest_volume_redistr:
                 face.rest_ice -= v
-                if face.rest_ice < 0.0:
-                    face.rest_ice = 0.0
+            else:
+                face.rest_ice -= face.ice_chunk
+            if face.rest_ice < 0.0:
+                face.rest_ice = 0.0
 
             face.actual_ice += v
 
-- 
2.43.0


From 6a3dfdc78ac30b575e97dc5e1985418dc8486d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 21/31] fix: divide_face keeps the orientation of the face

---
 crysgsu/gsu/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 2e16584..9397b4c 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1319,11 +1319,11 @@ class Grid:
         Grid.link_edge_face(e6, f3)
 
         Grid.link_node_face(n1, f1)
-        Grid.link_node_face(n1, f3)
         Grid.link_node_face(n2, f1)
         Grid.link_node_face(n2, f2)
         Grid.link_node_face(n3, f2)
         Grid.link_node_face(n3, f3)
+        Grid.link_node_face(n1, f3)
         Grid.link_node_face(n4, f1)
         Grid.link_node_face(n4, f2)
         Grid.link_node_face(n4, f3)
-- 
2.43.0


From da7fbf8d974e936d2433db27fa1df5c41c761e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 22/31] fix: collapse_face keeps the orientation of the faces

---
 crysgsu/gsu/grid.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 9397b4c..072706d 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -325,6 +325,26 @@ class Grid:
 
     # ----------------------------------------------------------------------------------------------
 
+    @staticmethod
+    def link_nodes_as_in_face(face, parent, replaced):
+        """
+        Link face with nodes of the parent face in the order of the parent,
+        so the orientation is kept.
+
+        :param face: face
+        :param parent: parent face
+        :param replaced: list of pairs (node of the parent, node to link instead of it)
+        """
+
+        for node in parent.Nodes:
+            for old, new in replaced:
+                if node is old:
+                    node = new
+                    break
+            Grid.link_node_face(node, face)
+
+    # ----------------------------------------------------------------------------------------------
+
     @staticmethod
     def link_edge_face(edge, face):
         """
@@ -1396,12 +1416,8 @@ class Grid:
             Grid.link_node_edge(n4, e5)
 
             # links
-            Grid.link_node_face(n1, f1)
-            Grid.link_node_face(n3, f1)
-            Grid.link_node_face(n4, f1)
-            Grid.link_node_face(n2, f2)
-            Grid.link_node_face(n3, f2)
-            Grid.link_node_face(n4, f2)
+            Grid.link_nodes_as_in_face(f1, face, [(n2, n4)])
+            Grid.link_nodes_as_in_face(f2, face, [(n1, n4)])
 
             Grid.link_edge_face(e1, f1)
             Grid.link_edge_face(e2, f1)
-- 
2.43.0


From 48791151432408978ce02ea64c00e5e2259af6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 23/31] fix: cut_edge keeps the orientation of the faces

---
 crysgsu/gsu/grid.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 072706d..bc6c478 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1541,18 +1541,10 @@ class Grid:
             Grid.link_node_edge(n4, e45)
             Grid.link_node_edge(n5, e45)
 
-            Grid.link_node_face(n5, f1_1)
-            Grid.link_node_face(n5, f1_2)
-            Grid.link_node_face(n5, f2_1)
-            Grid.link_node_face(n5, f2_2)
-            Grid.link_node_face(n1, f1_2)
-            Grid.link_node_face(n1, f2_1)
-            Grid.link_node_face(n2, f1_1)
-            Grid.link_node_face(n2, f2_2)
-            Grid.link_node_face(n3, f1_1)
-            Grid.link_node_face(n3, f1_2)
-            Grid.link_node_face(n4, f2_1)
-            Grid.link_node_face(n4, f2_2)
+            Grid.link_nodes_as_in_face(f1_1, f1, [(n1, n5)])
+            Grid.link_nodes_as_in_face(f1_2, f1, [(n2, n5)])
+            Grid.link_nodes_as_in_face(f2_1, f2, [(n2, n5)])
+            Grid.link_nodes_as_in_face(f2_2, f2, [(n1, n5)])
 
             Grid.link_edge_face(e15, f1_2)
             Grid.link_edge_face(e15, f2_1)
-- 
2.43.0


From fd21f4945553d9249bdea5bf36e7e44eccfb13a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 24/31] fix: cut_single_edge keeps the orientation of the face

---
 crysgsu/gsu/grid.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index bc6c478..af21993 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1717,12 +1717,8 @@ class Grid:
             Grid.link_node_edge(n2, e24)
             Grid.link_node_edge(n3, e34)
 
-            Grid.link_node_face(n3, f1)
-            Grid.link_node_face(n3, f2)
-            Grid.link_node_face(n4, f1)
-            Grid.link_node_face(n4, f2)
-            Grid.link_node_face(n1, f1)
-            Grid.link_node_face(n2, f2)
+            Grid.link_nodes_as_in_face(f1, face, [(n2, n4)])
+            Grid.link_nodes_as_in_face(f2, face, [(n1, n4)])
 
             Grid.link_edge_face(e34, f1)
             Grid.link_edge_face(e34, f2)
-- 
2.43.0


From d08448d08108e4cf37904cd9303a5f00ba98bec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 25/31] fix: cut_edge_with_two_nodes keeps the orientation of
 the faces

---
 crysgsu/gsu/grid.py | 36 +++++++++---------------------------
 1 file changed, 9 insertions(+), 27 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index af21993..b2dcc49 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1830,15 +1830,9 @@ class Grid:
             Grid.link_node_edge(n5, e35)
             Grid.link_node_edge(n5, e45)
 
-            Grid.link_node_face(n1, f1)
-            Grid.link_node_face(n2, f3)
-            Grid.link_node_face(n3, f1)
-            Grid.link_node_face(n3, f2)
-            Grid.link_node_face(n3, f3)
-            Grid.link_node_face(n4, f1)
-            Grid.link_node_face(n4, f2)
-            Grid.link_node_face(n5, f2)
-            Grid.link_node_face(n5, f3)
+            Grid.link_nodes_as_in_face(f1, face, [(n2, n4)])
+            Grid.link_nodes_as_in_face(f2, face, [(n1, n4), (n2, n5)])
+            Grid.link_nodes_as_in_face(f3, face, [(n1, n5)])
 
             Grid.link_edge_face(e14, f1)
             Grid.link_edge_face(e13, f1)
@@ -1947,24 +1941,12 @@ class Grid:
             Grid.link_node_edge(n6, e46)
             Grid.link_node_edge(n6, e56)
 
-            Grid.link_node_face(n1, f1)
-            Grid.link_node_face(n1, f4)
-            Grid.link_node_face(n2, f3)
-            Grid.link_node_face(n2, f6)
-            Grid.link_node_face(n3, f1)
-            Grid.link_node_face(n3, f2)
-            Grid.link_node_face(n3, f3)
-            Grid.link_node_face(n4, f1)
-            Grid.link_node_face(n4, f2)
-            Grid.link_node_face(n4, f4)
-            Grid.link_node_face(n4, f5)
-            Grid.link_node_face(n5, f2)
-            Grid.link_node_face(n5, f3)
-            Grid.link_node_face(n5, f5)
-            Grid.link_node_face(n5, f6)
-            Grid.link_node_face(n6, f4)
-            Grid.link_node_face(n6, f5)
-            Grid.link_node_face(n6, f6)
+            Grid.link_nodes_as_in_face(f1, face1, [(n2, n4)])
+            Grid.link_nodes_as_in_face(f2, face1, [(n1, n4), (n2, n5)])
+            Grid.link_nodes_as_in_face(f3, face1, [(n1, n5)])
+            Grid.link_nodes_as_in_face(f4, face2, [(n2, n4)])
+            Grid.link_nodes_as_in_face(f5, face2, [(n1, n4), (n2, n5)])
+            Grid.link_nodes_as_in_face(f6, face2, [(n1, n5)])
 
             Grid.link_edge_face(e14, f1)
             Grid.link_edge_face(e13, f1)
-- 
2.43.0


From 4d1de68eee2c30eeb11acdb01fbde97a1ec35a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 26/31] fix: a node that replaces another one takes its place
 in the faces

---
 crysgsu/gsu/node.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crysgsu/gsu/node.py b/crysgsu/gsu/node.py
index 5daa3cf..72d2802 100644
--- a/crysgsu/gsu/node.py
+++ b/crysgsu/gsu/node.py
@@ -82,10 +82,8 @@ class Node:
         n.Edges += self.Edges
         n.Faces += self.Faces
         for ed in self.Edges:
-            ed.Nodes.remove(self)
-            ed.Nodes += [n]
+            ed.Nodes = [n if node is self else node for node in ed.Nodes]
         for face in self.Faces:
-            face.Nodes.remove(self)
-            face.Nodes += [n]
+            face.Nodes = [n if node is self else node for node in face.Nodes]
 
 # ==================================================================================================
-- 
2.43.0


From 18b1b8d1215dd86ba5e9e968005613aff1e63f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 27/31] fix: collapse_edge leaves dense global identifiers

---
 crysgsu/gsu/grid.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index b2dcc49..23b47ad 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1629,12 +1629,9 @@ class Grid:
             n2.replacing_node(n1)
             self.del_node(n2)
 
-            self.Faces[-1].GloId = f1.GloId
-            self.Faces[-2].GloId = f2.GloId
-            self.Edges[-1].GloId = edge.GloId
-            self.Edges[-2].GloId = e1.GloId
-            self.Edges[-3].GloId = e2.GloId
-            self.Nodes[-1].GloId = n2.GloId
+            for items in (self.Faces, self.Edges, self.Nodes):
+                for i, item in enumerate(items):
+                    item.GloId = i
 
             return True
         else:
-- 
2.43.0


From 80132f3ad8517f4804dd823e4407b6736565b0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 28/31] fix: cut_edge leaves the parts of both faces in their
 own zones

---
 crysgsu/gsu/grid.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 23b47ad..37d1f90 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1484,6 +1484,7 @@ class Grid:
             data1 = f1.Data.copy()
             gloid1 = f1.GloId
             zone = f1.Zone
+            zone2 = f2.Zone
             data2 = f2.Data.copy()
             gloid2 = f2.GloId
 
@@ -1512,6 +1513,8 @@ class Grid:
             node = self.add_node(n5, True)
             if id(node) == id(n5):
                 zone.add_node(n5)
+                if zone2 is not zone:
+                    zone2.add_node(n5)
             else:
                 n5 = node
 
@@ -1561,12 +1564,15 @@ class Grid:
 
             zone.add_face(f1_1)
             zone.add_face(f1_2)
-            zone.add_face(f2_1)
-            zone.add_face(f2_2)
+            zone2.add_face(f2_1)
+            zone2.add_face(f2_2)
             zone.add_edge(e15)
             zone.add_edge(e25)
             zone.add_edge(e35)
-            zone.add_edge(e45)
+            zone2.add_edge(e45)
+            if zone2 is not zone:
+                zone2.add_edge(e15)
+                zone2.add_edge(e25)
 
             return True
         else:
-- 
2.43.0


From c79682f22ba1b96da29a3f86c68dbcdbcc2ba1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 29/31] fix: cut_edge_with_two_nodes leaves the parts of both
 faces in their own zones

---
 crysgsu/gsu/grid.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 37d1f90..7f28576 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1866,6 +1866,7 @@ class Grid:
             data1 = face1.Data.copy()
             gloid1 = face1.GloId
             zone = face1.Zone
+            zone2 = face2.Zone
             data2 = face2.Data.copy()
             gloid2 = face2.GloId
 
@@ -1897,12 +1898,16 @@ class Grid:
             node = self.add_node(n4, True)
             if id(node) == id(n4):
                 zone.add_node(n4)
+                if zone2 is not zone:
+                    zone2.add_node(n4)
             else:
                 n4 = node
             n5 = gsu.Node(p2)
             node = self.add_node(n5, True)
             if id(node) == id(n5):
                 zone.add_node(n5)
+                if zone2 is not zone:
+                    zone2.add_node(n5)
             else:
                 n5 = node
 
@@ -1973,16 +1978,20 @@ class Grid:
             zone.add_face(f1)
             zone.add_face(f2)
             zone.add_face(f3)
-            zone.add_face(f4)
-            zone.add_face(f5)
-            zone.add_face(f6)
+            zone2.add_face(f4)
+            zone2.add_face(f5)
+            zone2.add_face(f6)
             zone.add_edge(e14)
             zone.add_edge(e25)
             zone.add_edge(e45)
             zone.add_edge(e34)
             zone.add_edge(e35)
-            zone.add_edge(e46)
-            zone.add_edge(e56)
+            zone2.add_edge(e46)
+            zone2.add_edge(e56)
+            if zone2 is not zone:
+                zone2.add_edge(e14)
+                zone2.add_edge(e25)
+                zone2.add_edge(e45)
 
             return True
 
-- 
2.43.0


From d3e38ea3d73a85783012e105df38ae5f4dfda858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 30/31] fix: del_node takes the node from all of its zones

---
 crysgsu/gsu/grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 7f28576..c286ebf 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1267,7 +1267,9 @@ class Grid:
             for face in node.Faces:
                 if node in face.Nodes:
                     face.Nodes.remove(node)
-        node.Faces[0].Zone.Nodes.remove(node)
+        for z in self.Zones:
+            if node in z.Nodes:
+                z.Nodes.remove(node)
         self.Nodes.remove(node)
         self.RoundedCoordsBag.remove(node.RoundedCoords)
 
-- 
2.43.0


From 5c011431f26db798e5212c56e728cdda9a7fbc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:49 +0000
Subject: [PATCH 31/31] fix: refine failed when the neighbouring face had
 already cut the edge

---
 crysgsu/refine.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/crysgsu/refine.py b/crysgsu/refine.py
index 826bfcd..1f1920a 100644
--- a/crysgsu/refine.py
+++ b/crysgsu/refine.py
@@ -151,7 +151,13 @@ def refine_grid(grid_file, out_grid_file):
                         node1 = Node(n1)
                         node2 = Node(n2)
                         ed = [ed for ed in face.Edges if (ed.Nodes[0].P == node1.P and ed.Nodes[1].P == node2.P) or
-                              (ed.Nodes[1].P == node1.P and ed.Nodes[0].P == node2.P)][0]
+                              (ed.Nodes[1].P == node1.P and ed.Nodes[0].P == node2.P)]
+
+                        if not ed:
+                            # ребро уже разбито вместе с соседним треугольником
+                            continue
+
+                        ed = ed[0]
 
                         if len(ed.Faces) == 2:
                             g.cut_edge(ed, rebuilding_points[0][1])
@@ -180,8 +186,13 @@ def refine_grid(grid_file, out_grid_file):
                             node1 = Node(n1)
                             node2 = Node(n2)
                             ed = [ed for ed in face.Edges if (ed.Nodes[0].P == node1.P and ed.Nodes[1].P == node2.P) or
-                                  (ed.Nodes[1].P == node1.P and ed.Nodes[0].P == node2.P)][0]
-                            g.cut_edge_with_two_nodes(ed, rebuilding_points[0][1], rebuilding_points[1][1])
+                                  (ed.Nodes[1].P == node1.P and ed.Nodes[0].P == node2.P)]
+
+                            if not ed:
+                                # ребро уже разбито вместе с соседним треугольником
+                                continue
+
+                            g.cut_edge_with_two_nodes(ed[0], rebuilding_points[0][1], rebuilding_points[1][1])
 
                         else:
                             # TODO построить три новых треугольника в сетке на месте старого (две точки на двух ребрах)
-- 
2.43.0

