From afd495fdfbec7891d0b414c1833542d4362851aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 01/17] fix: MeshEditor stores the surviving cells at their new
 index

cleanMesh sized the new cell array for the surviving cells but filled it
at the old cell index, writing past its end (and leaving empty cells)
whenever a cell other than the last ones was deleted.
---
 src/MeshEditor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MeshEditor.cc b/src/MeshEditor.cc
index 1a32cfb..de2d0ac 100644
--- a/src/MeshEditor.cc
+++ b/src/MeshEditor.cc
@@ -713,7 +713,7 @@ cleanMesh(std::vector<unsigned>& cellMap,
         //POLY_ASSERT(faceMap.find(iface) != faceMap.end());
         if (mFaceMask[iface] == 1) {
           // int newFace = (*itr >= 0 ? faceMap[iface] : ~faceMap[iface]);
-          newCells[i].push_back( *itr < 0 ? ~faceMap[iface] : faceMap[iface]);
+          newCells[cellMap[i]].push_back( *itr < 0 ? ~faceMap[iface] : faceMap[iface]);
         }
       }
     }
-- 
2.43.0


From a23920ebc6aeef15c1555da2453900c283bd87ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 02/17] fix: MeshEditor keeps one send buffer per neighbor
 alive until the wait

flagEdgesForCleaning appended every neighbor's mask to one buffer while
sends from it were pending (so later neighbors received the first
neighbor's mask) and let the size it was sending go out of scope.
---
 src/MeshEditor.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/MeshEditor.cc b/src/MeshEditor.cc
index de2d0ac..7d6d4a8 100644
--- a/src/MeshEditor.cc
+++ b/src/MeshEditor.cc
@@ -2,6 +2,7 @@
 // MeshEditor
 //------------------------------------------------------------------------
 #include <limits>
+#include <list>
 #include <numeric>
 
 #include "polytope.hh"
@@ -378,14 +379,18 @@ flagEdgesForCleaning(const RealType edgeTol,
     }
     
     // Send the sharedEdgeMask to each neighbor asynchronously
-    vector<char> localBuffer;
+    list<vector<char> > localBuffers;
+    list<unsigned> localBufferSizes;
     vector<MPI_Request> sendRequests;
     sendRequests.reserve(2*mMesh.neighborDomains.size());
     ineighbor = 0;
     for (vector<unsigned>::const_iterator otherItr = mMesh.neighborDomains.begin();
          otherItr != mMesh.neighborDomains.end(); ++otherItr, ++ineighbor) {
+      localBuffers.push_back(vector<char>());
+      vector<char>& localBuffer = localBuffers.back();
       serialize(sharedEdgeMask[ineighbor], localBuffer);
-      unsigned localBufferSize = localBuffer.size();
+      localBufferSizes.push_back(localBuffer.size());
+      unsigned& localBufferSize = localBufferSizes.back();
       const unsigned otherProc = *otherItr;
       sendRequests.push_back(MPI_Request());
       MPI_Isend(&localBufferSize, 1, MPI_UNSIGNED, otherProc, 1, MPI_COMM_WORLD, &sendRequests.back());
-- 
2.43.0


From 4929cc21f6d03ffb3b6fe79a1e0186fa9a631d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:44 +0000
Subject: [PATCH 03/17] fix: DistributedTessellator sizes the shared lists when
 no communication info is requested

---
 src/DistributedTessellator.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DistributedTessellator.cc b/src/DistributedTessellator.cc
index afed0ed..711c9bd 100644
--- a/src/DistributedTessellator.cc
+++ b/src/DistributedTessellator.cc
@@ -242,6 +242,8 @@ computeDistributedTessellation(const vector<RealType>& points,
 
     // Store the collection of sorted neighbor domains
     mesh.neighborDomains = this->computeDomainNeighbors(points, visIntermediateMeshes);
+    mesh.sharedNodes.resize(mesh.neighborDomains.size());
+    mesh.sharedFaces.resize(mesh.neighborDomains.size());
 
     POLY_BEGIN_CONTRACT_SCOPE;
     {
-- 
2.43.0


From a2aa78309c724adfa39985c280fb6b96fcc7b335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:01 +0000
Subject: [PATCH 04/17] fix: DimensionTraits<3>::faceCentroid uses the face's
 node indices as node indices

---
 src/DimensionTraits.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DimensionTraits.hh b/src/DimensionTraits.hh
index a84190e..cc2c168 100644
--- a/src/DimensionTraits.hh
+++ b/src/DimensionTraits.hh
@@ -122,7 +122,7 @@ struct DimensionTraits<3, RealType> {
     for (typename std::vector<unsigned>::const_iterator itr = mesh.faces[iface].begin();
          itr != mesh.faces[iface].end();
          ++itr) {
-      ni = mesh.faces[iface][*itr];
+      ni = *itr;
       pface[0] += mesh.nodes[3*ni];
       pface[1] += mesh.nodes[3*ni + 1];
       pface[2] += mesh.nodes[3*ni + 2];
-- 
2.43.0


From d1c65b0331b800bc82aefd5ae39876545c85ff39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:01 +0000
Subject: [PATCH 05/17] fix: MeshEditor addresses border nodes with the mesh
 dimension

---
 src/MeshEditor.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MeshEditor.cc b/src/MeshEditor.cc
index 7d6d4a8..5649bd4 100644
--- a/src/MeshEditor.cc
+++ b/src/MeshEditor.cc
@@ -203,9 +203,9 @@ flagEdgesForCleaning(const RealType edgeTol,
     POLY_ASSERT(otherNodes.size() == 2);
     
     const bool collinear = 
-       geometry::collinear<Dimension, RealType>(&mMesh.nodes[2*(*nodeItr)],
-                                                &mMesh.nodes[2*otherNodes[0]],
-                                                &mMesh.nodes[2*otherNodes[1]],
+       geometry::collinear<Dimension, RealType>(&mMesh.nodes[Dimension*(*nodeItr)],
+                                                &mMesh.nodes[Dimension*otherNodes[0]],
+                                                &mMesh.nodes[Dimension*otherNodes[1]],
                                                 1.0e-8);
     if (not collinear) cornerNodes.insert(*nodeItr);// isCornerNode[*nodeItr] = 1;
   }
-- 
2.43.0


From a6fefd626f54acc41228556059915641e2f9c853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:38 +0000
Subject: [PATCH 06/17] fix: deleteCells and MeshEditor identify the boundary
 elements in the new numbering

---
 src/MeshEditor.cc  | 3 +++
 src/deleteCells.hh | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/MeshEditor.cc b/src/MeshEditor.cc
index 5649bd4..3bf5d97 100644
--- a/src/MeshEditor.cc
+++ b/src/MeshEditor.cc
@@ -744,6 +744,9 @@ cleanMesh(std::vector<unsigned>& cellMap,
     mMesh.sharedFaces[idomain] = newFaces;
   }
 
+  // The boundary elements have to be identified in the new numbering.
+  findBoundaryElements(mMesh, mMesh.boundaryFaces, mMesh.boundaryNodes);
+
   // If there was a convex hull in the mesh, it's probably no longer valid.
   mMesh.convexHull = PLC<Dimension, RealType>();
 
diff --git a/src/deleteCells.hh b/src/deleteCells.hh
index a15147b..821b7b0 100644
--- a/src/deleteCells.hh
+++ b/src/deleteCells.hh
@@ -154,6 +154,9 @@ deleteCells(Tessellation<Dimension, RealType>& mesh,
     mesh.sharedFaces[idomain] = newFaces;
   }
 
+  // The boundary elements have to be identified in the new numbering.
+  findBoundaryElements(mesh, mesh.boundaryFaces, mesh.boundaryNodes);
+
   // If there was a convex hull in the mesh, it's probably no longer valid.
   mesh.convexHull = PLC<Dimension, RealType>();
 
-- 
2.43.0


From 1a529259fc2ee89a86d214f526c4943dd55e5c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:15 +0000
Subject: [PATCH 07/17] fix: SiloWriter<3> keeps the face orientation in the
 connectivity array

---
 src/SiloWriter_3d.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/SiloWriter_3d.cc b/src/SiloWriter_3d.cc
index 70ddaed..1f897d9 100644
--- a/src/SiloWriter_3d.cc
+++ b/src/SiloWriter_3d.cc
@@ -345,8 +345,7 @@ write(const Tessellation<3, RealType>& mesh,
   for (int c = 0; c < numCells; ++c)
   {
     for (int f = 0; f < mesh.cells[c].size(); ++f) {
-      int j = mesh.cells[c][f];
-      conn.push_back(j < 0 ? ~j : j);
+      conn.push_back(mesh.cells[c][f]);
     }
   }
   for (int f = 0; f < mesh.faceCells.size(); ++f)
-- 
2.43.0


From 64ca953e2ebff380d78e43e8282afedd32169b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:33 +0000
Subject: [PATCH 08/17] fix: Silo writers store both cells of a face and
 describe the parts of the connectivity array with their real lengths

---
 src/SiloWriter_2d.cc | 6 +++---
 src/SiloWriter_3d.cc | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/SiloWriter_2d.cc b/src/SiloWriter_2d.cc
index 0a1449d..430f110 100644
--- a/src/SiloWriter_2d.cc
+++ b/src/SiloWriter_2d.cc
@@ -314,13 +314,13 @@ write(const Tessellation<2, RealType>& mesh,
   }
   for (int f = 0; f < mesh.faceCells.size(); ++f)
   {
-    conn.push_back(mesh.faceCells[f][0]);
-    conn.push_back(mesh.faceCells[f][0]);
+    conn.push_back(mesh.faceCells[f].front());
+    conn.push_back(mesh.faceCells[f].back());
   }
   elemnames[0] = strDup("ncellfaces");
   elemlengths[0] = numCells;
   elemnames[2] = strDup("facecells");
-  elemlengths[2] = conn.size() - 2*mesh.faces.size();
+  elemlengths[2] = 2*mesh.faceCells.size();
   elemnames[1] = strDup("cellfaces");
   elemlengths[1] = conn.size() - elemlengths[2] - elemlengths[0];
   DBPutCompoundarray(file, "conn", elemnames, elemlengths, 3, 
diff --git a/src/SiloWriter_3d.cc b/src/SiloWriter_3d.cc
index 1f897d9..f81497b 100644
--- a/src/SiloWriter_3d.cc
+++ b/src/SiloWriter_3d.cc
@@ -350,13 +350,13 @@ write(const Tessellation<3, RealType>& mesh,
   }
   for (int f = 0; f < mesh.faceCells.size(); ++f)
   {
-    conn.push_back(mesh.faceCells[f][0]);
-    conn.push_back(mesh.faceCells[f][0]);
+    conn.push_back(mesh.faceCells[f].front());
+    conn.push_back(mesh.faceCells[f].back());
   }
   elemnames[0] = strDup("ncellfaces");
   elemlengths[0] = numCells;
   elemnames[2] = strDup("facecells");
-  elemlengths[2] = conn.size() - 2*mesh.faces.size();
+  elemlengths[2] = 2*mesh.faceCells.size();
   elemnames[1] = strDup("cellfaces");
   elemlengths[1] = conn.size() - elemlengths[2] - elemlengths[0];
   DBPutCompoundarray(file, "conn", elemnames, elemlengths, 3, 
-- 
2.43.0


From 58acf6824122ce8bf791a27a48ede0d08ef9f912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:46 +0000
Subject: [PATCH 09/17] fix: SiloWriter<3> puts the master file into the
 requested directory

---
 src/SiloWriter_3d.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SiloWriter_3d.cc b/src/SiloWriter_3d.cc
index f81497b..4a9e448 100644
--- a/src/SiloWriter_3d.cc
+++ b/src/SiloWriter_3d.cc
@@ -500,9 +500,9 @@ write(const Tessellation<3, RealType>& mesh,
   {
     char masterFileName[1024];
     if (cycle >= 0)
-      snprintf(masterFileName, 1024, "%s-%d/%s-%d.silo", prefix.c_str(), nproc, prefix.c_str(), cycle);
+      snprintf(masterFileName, 1024, "%s/%s-%d.silo", masterDirName.c_str(), prefix.c_str(), cycle);
     else
-      snprintf(masterFileName, 1024, "%s-%d/%s.silo", prefix.c_str(), nproc, prefix.c_str());
+      snprintf(masterFileName, 1024, "%s/%s.silo", masterDirName.c_str(), prefix.c_str());
     int driver = DB_HDF5;
     DBfile* file = DBCreate(masterFileName, DB_CLOBBER, DB_LOCAL, "Master file", driver);
 
-- 
2.43.0


From bb40b851d1d343c9297f216dbde0b8ae916e70c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:24 +0000
Subject: [PATCH 10/17] fix: polytope_tessellation_new and _clear handle every
 member

---
 polytope_c/polytope_tessellation.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/polytope_c/polytope_tessellation.cc b/polytope_c/polytope_tessellation.cc
index 2414762..2b12d3f 100644
--- a/polytope_c/polytope_tessellation.cc
+++ b/polytope_c/polytope_tessellation.cc
@@ -24,6 +24,7 @@ polytope_tessellation_t* polytope_tessellation_new(int dimension)
   tess->num_faces = 0;
   tess->face_offsets = NULL;
   tess->face_nodes = NULL;
+  tess->face_cells = NULL;
   tess->num_neighbor_domains = 0;
   tess->neighbor_domains = NULL;
   tess->shared_node_domain_offsets = NULL;
@@ -78,14 +79,19 @@ void polytope_tessellation_clear(polytope_tessellation_t* tessellation)
   if (tessellation->boundary_nodes != NULL)
   {
     free(tessellation->boundary_nodes);
+    tessellation->num_boundary_nodes = 0;
+    tessellation->boundary_nodes = NULL;
   }
   if (tessellation->boundary_faces != NULL)
   {
     free(tessellation->boundary_faces);
+    tessellation->num_boundary_faces = 0;
+    tessellation->boundary_faces = NULL;
   }
   if (tessellation->face_cells != NULL)
   {
     free(tessellation->face_cells);
+    tessellation->face_cells = NULL;
   }
   if (tessellation->neighbor_domains != NULL)
   {
-- 
2.43.0


From 5de9d4b7020c838ca25d1fa87254708a08b84c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:24 +0000
Subject: [PATCH 11/17] fix: filling a C tessellation releases its previous
 contents

---
 polytope_c/polytope_tessellator.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/polytope_c/polytope_tessellator.cc b/polytope_c/polytope_tessellator.cc
index df67df5..2ecb955 100644
--- a/polytope_c/polytope_tessellator.cc
+++ b/polytope_c/polytope_tessellator.cc
@@ -21,6 +21,9 @@ void fill_plc(polytope_plc_t* c_plc,
 template <int Dimension>
 void fill_tessellation(const Tessellation<Dimension, polytope_real_t>& t, polytope_tessellation_t* tess)
 {
+  // Release whatever the tessellation held before.
+  polytope_tessellation_clear(tess);
+
   // Copy node coordinates.
   tess->num_nodes = t.nodes.size()/Dimension;
   tess->nodes = (polytope_real_t*)malloc(sizeof(polytope_real_t) * Dimension * tess->num_nodes);
-- 
2.43.0


From 8af09c27813f499944119070c2aef7836fd6f0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:24 +0000
Subject: [PATCH 12/17] fix: polytope_tessellator_name returns a string that
 outlives the call

---
 polytope_c/polytope_tessellator.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/polytope_c/polytope_tessellator.cc b/polytope_c/polytope_tessellator.cc
index 2ecb955..f092a4f 100644
--- a/polytope_c/polytope_tessellator.cc
+++ b/polytope_c/polytope_tessellator.cc
@@ -326,10 +326,12 @@ bool polytope_tessellator_handles_plcs(polytope_tessellator_t* tessellator)
 //------------------------------------------------------------------------
 const char* polytope_tessellator_name(polytope_tessellator_t* tessellator)
 {
+  static string name;
   if (tessellator->tess2 != NULL)
-    return tessellator->tess2->name().c_str();
+    name = tessellator->tess2->name();
   else
-    return tessellator->tess3->name().c_str();
+    name = tessellator->tess3->name();
+  return name.c_str();
 }
 //------------------------------------------------------------------------
 
-- 
2.43.0


From 4c10396de4ef1cd0d8fa6af704b8569ce40ebf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:03 +0000
Subject: [PATCH 13/17] fix: computeNormal computes the x component of the
 cross product

---
 src/convexIntersect.hh              | 2 +-
 src/polytope_geometric_utilities.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/convexIntersect.hh b/src/convexIntersect.hh
index 095a9c1..ca7ec46 100644
--- a/src/convexIntersect.hh
+++ b/src/convexIntersect.hh
@@ -95,7 +95,7 @@ void computeNormal(const RealType& ax, const RealType& ay, const RealType& az,
                    double& nx, double& ny, double& nz) {
   const double dx_ab = bx - ax, dy_ab = by - ay, dz_ab = bz - az;
   const double dx_ac = cx - ax, dy_ac = cy - ay, dz_ac = cz - az;
-  nx = dy_ab*dz_ac - dz_ab*dz_ac;
+  nx = dy_ab*dz_ac - dz_ab*dy_ac;
   ny = dz_ab*dx_ac - dx_ab*dz_ac;
   nz = dx_ab*dy_ac - dy_ab*dx_ac;
 }
diff --git a/src/polytope_geometric_utilities.hh b/src/polytope_geometric_utilities.hh
index 653504c..31730e9 100644
--- a/src/polytope_geometric_utilities.hh
+++ b/src/polytope_geometric_utilities.hh
@@ -1577,7 +1577,7 @@ computeNormal(const RealType& ax, const RealType& ay, const RealType& az,
               double& nx, double& ny, double& nz) {
   const double dx_ab = bx - ax, dy_ab = by - ay, dz_ab = bz - az;
   const double dx_ac = cx - ax, dy_ac = cy - ay, dz_ac = cz - az;
-  nx = dy_ab*dz_ac - dz_ab*dz_ac;
+  nx = dy_ab*dz_ac - dz_ab*dy_ac;
   ny = dz_ab*dx_ac - dx_ab*dz_ac;
   nz = dx_ab*dy_ac - dy_ab*dx_ac;
 }
-- 
2.43.0


From 628483864e627f1b47f0043932317b1b8a3ebc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:03 +0000
Subject: [PATCH 14/17] fix: a ray parallel to a plane lies in it when its
 origin does

---
 src/polytope_geometric_utilities.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polytope_geometric_utilities.hh b/src/polytope_geometric_utilities.hh
index 31730e9..aa9c44c 100644
--- a/src/polytope_geometric_utilities.hh
+++ b/src/polytope_geometric_utilities.hh
@@ -704,7 +704,7 @@ rayPlaneIntersection(const RealType* p_ray,
   const RealType delta[3] = {p_plane[0] - p_ray[0], p_plane[1] - p_ray[1], p_plane[2] - p_ray[2]};
   if (std::abs(ndots) < tol) {
     // Ray is parallel to the plane.
-    if (std::abs(dot<3, RealType>(p_ray, delta)) < tol) {
+    if (std::abs(dot<3, RealType>(n_plane, delta)) < tol) {
       // Ray is in the plane, just choose the origin point.
       result[0] = p_ray[0]; result[1] = p_ray[1]; result[2] = p_ray[2];
       return true;
-- 
2.43.0


From 556d530be013183f2054dce393050d5d0f11ac32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:22 +0000
Subject: [PATCH 15/17] fix: append to a group's Silo file instead of
 recreating it on every rank

---
 src/SiloWriter_2d.cc | 3 ++-
 src/SiloWriter_3d.cc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/SiloWriter_2d.cc b/src/SiloWriter_2d.cc
index 430f110..c70bd50 100644
--- a/src/SiloWriter_2d.cc
+++ b/src/SiloWriter_2d.cc
@@ -92,7 +92,8 @@ PMPIO_openFile(const char* filename,
   DBfile* file;
   if (iomode == PMPIO_WRITE)
   { 
-    file = DBCreate(filename, 0, DB_LOCAL, 0, driver);
+    // The first process in the group has created this file already.
+    file = DBOpen(filename, driver, DB_APPEND);
     DBMkDir(file, dirname);
     DBSetDir(file, dirname);
   }
diff --git a/src/SiloWriter_3d.cc b/src/SiloWriter_3d.cc
index 4a9e448..3c38bfa 100644
--- a/src/SiloWriter_3d.cc
+++ b/src/SiloWriter_3d.cc
@@ -117,7 +117,8 @@ PMPIO_openFile(const char* filename,
   DBfile* file;
   if (iomode == PMPIO_WRITE)
   { 
-    file = DBCreate(filename, 0, DB_LOCAL, 0, driver);
+    // The first process in the group has created this file already.
+    file = DBOpen(filename, driver, DB_APPEND);
     DBMkDir(file, dirname);
     DBSetDir(file, dirname);
   }
-- 
2.43.0


From c21293991b3a5ed9dbd78ecc90fdf1659a286084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:22 +0000
Subject: [PATCH 16/17] fix: write the names of tags to Silo files

---
 src/SiloUtils.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/SiloUtils.cc b/src/SiloUtils.cc
index 97e51b4..e77a4f6 100644
--- a/src/SiloUtils.cc
+++ b/src/SiloUtils.cc
@@ -37,8 +37,7 @@ writeTagsToFile(const map<string, vector<int>*>& tags,
   {
     vector<int>& tag = *iter->second;
     elemLengths.push_back(static_cast<int>(tag.size()));
-    string tagName;
-    elemNames.push_back(strDup(tagName.c_str()));
+    elemNames.push_back(strDup(iter->first.c_str()));
     for (size_t i = 0; i < tag.size(); ++i)
       tagData.push_back(tag[i]);
   }
-- 
2.43.0


From e1d27a5e25f0d2cf401aac21f3fc68a722c2584c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:01 +0000
Subject: [PATCH 17/17] fix: list the meshes of every process in Silo
 multi-block objects

---
 src/SiloWriter_2d.cc | 28 +++++++++++++++-------------
 src/SiloWriter_3d.cc | 28 +++++++++++++++-------------
 2 files changed, 30 insertions(+), 26 deletions(-)

diff --git a/src/SiloWriter_2d.cc b/src/SiloWriter_2d.cc
index c70bd50..72b05fa 100644
--- a/src/SiloWriter_2d.cc
+++ b/src/SiloWriter_2d.cc
@@ -399,7 +399,8 @@ write(const Tessellation<2, RealType>& mesh,
 
 #ifdef HAVE_MPI
   // Write the multi-block objects to the file if needed.
-  int numChunks = nproc / numFiles;
+  // The first (nproc % numFiles) groups have an extra process.
+  int numChunks = nproc / numFiles + (groupRank < nproc % numFiles ? 1 : 0);
   if (rankInGroup == 0)
   {
     vector<char*> meshNames(numChunks);
@@ -467,16 +468,17 @@ write(const Tessellation<2, RealType>& mesh,
     // cerr << "Opening MASTER file " << masterFileName << endl;
     DBfile* file = DBCreate(masterFileName, DB_CLOBBER, DB_LOCAL, "Master file", driver);
 
-    vector<char*> meshNames(numFiles*numChunks);
-    vector<int> meshTypes(numFiles*numChunks, DB_UCDMESH);
+    vector<char*> meshNames;
+    vector<int> meshTypes(nproc, DB_UCDMESH);
     vector<vector<char*> > varNames(nodeFields.size() +
         edgeFields.size() +
         faceFields.size() +
         cellFields.size());
-    vector<int> varTypes(numFiles*numChunks, DB_UCDVAR);
+    vector<int> varTypes(nproc, DB_UCDVAR);
     for (int i = 0; i < numFiles; ++i)
     {
-      for (int c = 0; c < numChunks; ++c)
+      int numFileChunks = nproc / numFiles + (i < nproc % numFiles ? 1 : 0);
+      for (int c = 0; c < numFileChunks; ++c)
       {
         // Mesh.
         char meshName[1024];
@@ -484,7 +486,7 @@ write(const Tessellation<2, RealType>& mesh,
           snprintf(meshName, 1024, "%d/%s-%d.silo:/domain_%d/mesh", i, prefix.c_str(), cycle, c);
         else
           snprintf(meshName, 1024, "%d/%s.silo:/domain_%d/mesh", i, prefix.c_str(), c);
-        meshNames[i*numChunks+c] = strDup(meshName);
+        meshNames.push_back(strDup(meshName));
 
         // Field data.
         int fieldIndex = 0;
@@ -503,21 +505,21 @@ write(const Tessellation<2, RealType>& mesh,
       DBAddOption(optlist, DBOPT_DTIME, &dtime);
 
     // Write the multimesh and variable data, and close the file.
-    DBPutMultimesh(file, "mesh", numFiles*numChunks, &meshNames[0], 
+    DBPutMultimesh(file, "mesh", nproc, &meshNames[0], 
         &meshTypes[0], optlist);
     int fieldIndex = 0;
-    putMultivarInFile<RealType>(nodeFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
-    putMultivarInFile<RealType>(edgeFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
-    putMultivarInFile<RealType>(faceFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
-    putMultivarInFile<RealType>(cellFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
+    putMultivarInFile<RealType>(nodeFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
+    putMultivarInFile<RealType>(edgeFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
+    putMultivarInFile<RealType>(faceFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
+    putMultivarInFile<RealType>(cellFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
     DBClose(file);
 
     // Clean up.
     DBFreeOptlist(optlist);
-    for (int i = 0; i < numFiles*numChunks; ++i)
+    for (int i = 0; i < nproc; ++i)
       free(meshNames[i]);
     for (int f = 0; f < varNames.size(); ++f)
-      for (int i = 0; i < numFiles*numChunks; ++i)
+      for (int i = 0; i < nproc; ++i)
         free(varNames[f][i]);
   }
 #else
diff --git a/src/SiloWriter_3d.cc b/src/SiloWriter_3d.cc
index 3c38bfa..d681b61 100644
--- a/src/SiloWriter_3d.cc
+++ b/src/SiloWriter_3d.cc
@@ -440,7 +440,8 @@ write(const Tessellation<3, RealType>& mesh,
 
 #ifdef HAVE_MPI
   // Write the multi-block objects to the file if needed.
-  int numChunks = nproc / numFiles;
+  // The first (nproc % numFiles) groups have an extra process.
+  int numChunks = nproc / numFiles + (groupRank < nproc % numFiles ? 1 : 0);
   if (rankInGroup == 0)
   {
     vector<char*> meshNames(numChunks);
@@ -507,16 +508,17 @@ write(const Tessellation<3, RealType>& mesh,
     int driver = DB_HDF5;
     DBfile* file = DBCreate(masterFileName, DB_CLOBBER, DB_LOCAL, "Master file", driver);
 
-    vector<char*> meshNames(numFiles*numChunks);
-    vector<int> meshTypes(numFiles*numChunks, DB_UCDMESH);
+    vector<char*> meshNames;
+    vector<int> meshTypes(nproc, DB_UCDMESH);
     vector<vector<char*> > varNames(nodeFields.size() +
                                     edgeFields.size() +
                                     faceFields.size() +
                                     cellFields.size());
-    vector<int> varTypes(numFiles*numChunks, DB_UCDVAR);
+    vector<int> varTypes(nproc, DB_UCDVAR);
     for (int i = 0; i < numFiles; ++i)
     {
-      for (int c = 0; c < numChunks; ++c)
+      int numFileChunks = nproc / numFiles + (i < nproc % numFiles ? 1 : 0);
+      for (int c = 0; c < numFileChunks; ++c)
       {
         // Mesh.
         char meshName[1024];
@@ -524,7 +526,7 @@ write(const Tessellation<3, RealType>& mesh,
           snprintf(meshName, 1024, "%d/%s-%d.silo:/domain_%d/mesh", i, prefix.c_str(), cycle, c);
         else
           snprintf(meshName, 1024, "%d/%s.silo:/domain_%d/mesh", i, prefix.c_str(), c);
-        meshNames[i*numChunks+c] = strDup(meshName);
+        meshNames.push_back(strDup(meshName));
 
         // Field data.
         int fieldIndex = 0;
@@ -543,21 +545,21 @@ write(const Tessellation<3, RealType>& mesh,
       DBAddOption(optlist, DBOPT_DTIME, &dtime);
 
     // Write the multimesh and variable data, and close the file.
-    DBPutMultimesh(file, "mesh", numFiles*numChunks, &meshNames[0], 
+    DBPutMultimesh(file, "mesh", nproc, &meshNames[0], 
                    &meshTypes[0], optlist);
     int fieldIndex = 0;
-    putMultivarInFile<RealType>(nodeFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
-    putMultivarInFile<RealType>(edgeFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
-    putMultivarInFile<RealType>(faceFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
-    putMultivarInFile<RealType>(cellFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
+    putMultivarInFile<RealType>(nodeFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
+    putMultivarInFile<RealType>(edgeFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
+    putMultivarInFile<RealType>(faceFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
+    putMultivarInFile<RealType>(cellFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
     DBClose(file);
 
     // Clean up.
     DBFreeOptlist(optlist);
-    for (int i = 0; i < numFiles*numChunks; ++i)
+    for (int i = 0; i < nproc; ++i)
       free(meshNames[i]);
     for (int f = 0; f < varNames.size(); ++f)
-      for (int i = 0; i < numFiles*numChunks; ++i)
+      for (int i = 0; i < nproc; ++i)
         free(varNames[f][i]);
   }
 #else
-- 
2.43.0

