From 2adf7c301a2122cb7dad05ea3fdabe78ef07a244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:32 +0000
Subject: [PATCH 01/78] fix: make_level() must not keep boundary flags of a
 previously generated level

---
 libdiskpp/include/diskpp/mesh/meshgen.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/mesh/meshgen.hpp b/libdiskpp/include/diskpp/mesh/meshgen.hpp
index 3d70a7a..8e06f27 100644
--- a/libdiskpp/include/diskpp/mesh/meshgen.hpp
+++ b/libdiskpp/include/diskpp/mesh/meshgen.hpp
@@ -795,7 +795,7 @@ public:
         std::sort(storage->edges.begin(), storage->edges.end());
 
         /* Boundary edges */
-        storage->boundary_info.resize( storage->edges.size() );
+        storage->boundary_info.assign( storage->edges.size(), boundary_descriptor() );
         for (const auto& [boundary, edges] : hm.boundary_edges)
         {
             for (const auto& edge : edges)
-- 
2.43.0


From ef7673ee4a1c3fd9b2e5353ff7a3dd25f82e1ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:20 +0000
Subject: [PATCH 02/78] fix: bounding_box must take the extrema of each
 coordinate separately

---
 libdiskpp/include/diskpp/mesh/mesh.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/libdiskpp/include/diskpp/mesh/mesh.hpp b/libdiskpp/include/diskpp/mesh/mesh.hpp
index 12c880b..decc47a 100644
--- a/libdiskpp/include/diskpp/mesh/mesh.hpp
+++ b/libdiskpp/include/diskpp/mesh/mesh.hpp
@@ -1037,17 +1037,13 @@ public:
                   itor != msh.points_end();
                   itor++)
         {
-            bool lt = false, gt = false;
             auto curpt = *itor;
 
             for (size_t i = 0; i < point_type::dimension; i++)
             {
-                lt = lt or (curpt[i] < m_bb_min[i]);
-                gt = gt or (curpt[i] > m_bb_max[i]);
+                if (curpt[i] < m_bb_min[i]) m_bb_min[i] = curpt[i];
+                if (curpt[i] > m_bb_max[i]) m_bb_max[i] = curpt[i];
             }
-            assert(lt != gt); //lt xor gt
-            if (lt) m_bb_min = curpt;
-            if (gt) m_bb_max = curpt;
         }
     }
 
-- 
2.43.0


From 9dc92ceaf0c0bfdb5fbd9ab92d42e8a2d1280886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:23 +0000
Subject: [PATCH 03/78] fix: mesh_hierarchy must reject the level just past the
 finest one

---
 libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp b/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
index e98b758..7cad847 100644
--- a/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
+++ b/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
@@ -353,7 +353,7 @@ class mesh_hierarchy
     size_t
     locate_recursive(const point_type& pt, size_t cur_level, size_t max_level, size_t tri_num)
     {
-        if (max_level > meshes.size())
+        if (max_level >= meshes.size())
             throw std::invalid_argument("inexistent mesh level");
 
         if (cur_level > max_level)
-- 
2.43.0


From 7a328cce013f1ced6d3c8824b68f765d3b110bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:23 +0000
Subject: [PATCH 04/78] fix: refined meshes of a hierarchy must carry subdomain
 information

---
 libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp b/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
index 7cad847..b0ca049 100644
--- a/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
+++ b/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
@@ -398,6 +398,15 @@ public:
             //next_mesh.statistics();
             meshes.push_back( next_mesh );
             auto c2f = make_coarse_to_fine_map(meshes[i], meshes[i+1]);
+
+            /* the children of a cell belong to the subdomain of the cell */
+            const auto& coarse_sd = meshes[i].backend_storage()->subdomain_info;
+            auto& fine_sd = meshes[i+1].backend_storage()->subdomain_info;
+            fine_sd.resize( meshes[i+1].cells_size() );
+            for (size_t j = 0; j < c2f.size() and j < coarse_sd.size(); j++)
+                for (auto& child : c2f[j])
+                    fine_sd.at(child) = coarse_sd[j];
+
             coarse_to_fine.push_back( std::move(c2f) );
         }
 
-- 
2.43.0


From 901529a656594bf59208b7fa012dc07afbfb8cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:59 +0000
Subject: [PATCH 05/78] fix: netgen and hex loaders must report a mesh file
 that cannot be opened

---
 libdiskpp/include/diskpp/loaders/loader_cartesian.hpp | 2 ++
 libdiskpp/include/diskpp/loaders/loader_netgen.hpp    | 4 ++++
 libdiskpp/src/common/mapped_file.cpp                  | 4 ++++
 3 files changed, 10 insertions(+)

diff --git a/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp b/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp
index df34061..db97328 100644
--- a/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp
@@ -131,6 +131,8 @@ class cartesian_mesh_loader<T, 3> : public mesh_loader<cartesian_mesh<T, 3>>
         size_t lines, linecount;
 
         mapped_file mf(filename);
+        if (!mf.is_open())
+            return false;
 
         // std::cout << green << " * * * Reading NETGEN format mesh * * * ";
         // std::cout << nocolor << std::endl;
diff --git a/libdiskpp/include/diskpp/loaders/loader_netgen.hpp b/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
index a05f33d..e6860fd 100644
--- a/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
@@ -117,6 +117,8 @@ class netgen_mesh_loader<T, 2> : public mesh_loader<simplicial_mesh<T, 2>>
         size_t lines, linecount;
 
         mapped_file mf(filename);
+        if (!mf.is_open())
+            return false;
 
         // std::cout << green << " * * * Reading NETGEN format mesh * * * ";
         // std::cout << nocolor << std::endl;
@@ -331,6 +333,8 @@ class netgen_mesh_loader<T, 3> : public mesh_loader<simplicial_mesh<T, 3>>
         size_t lines, linecount;
 
         mapped_file mf(filename);
+        if (!mf.is_open())
+            return false;
 
         /************************ Read points ************************/
         linecount = 0;
diff --git a/libdiskpp/src/common/mapped_file.cpp b/libdiskpp/src/common/mapped_file.cpp
index 45cf388..d3b4d5b 100644
--- a/libdiskpp/src/common/mapped_file.cpp
+++ b/libdiskpp/src/common/mapped_file.cpp
@@ -134,8 +134,12 @@ mapped_file::map(const std::string& name)
 bool
 mapped_file::unmap(void)
 {
+    if (!m_is_open)
+        return true;
+
     munmap((void *)m_addr, m_length);
     ::close(m_fd);
+    m_is_open = false;
     return true;
 }
 
-- 
2.43.0


From ac00a2bf4a8fec1ea95e0cb5c3ebf779e4fad928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:59 +0000
Subject: [PATCH 06/78] fix: medit and poly loaders must reject truncated files
 instead of looping

---
 libdiskpp/include/diskpp/loaders/loader_medit.hpp |  6 +++++-
 libdiskpp/include/diskpp/loaders/loader_poly.hpp  | 14 ++++++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/libdiskpp/include/diskpp/loaders/loader_medit.hpp b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
index f7245cf..69a50f4 100644
--- a/libdiskpp/include/diskpp/loaders/loader_medit.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
@@ -266,7 +266,11 @@ class medit_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
                 return false;
             }
 
-            ifs >> keyword;
+            if (!(ifs >> keyword))
+            {
+                std::cout << "Unexpected end of Medit file" << std::endl;
+                return false;
+            }
         }
 
         ifs.close();
diff --git a/libdiskpp/include/diskpp/loaders/loader_poly.hpp b/libdiskpp/include/diskpp/loaders/loader_poly.hpp
index 7b9878c..c41e1e0 100644
--- a/libdiskpp/include/diskpp/loaders/loader_poly.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_poly.hpp
@@ -175,7 +175,12 @@ class poly_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
 
         while (keyword != "**EndMesh")
         {
-            ifs >> keyword;
+            if (!(ifs >> keyword))
+            {
+                std::cout << "Unexpected end of file" << std::endl;
+                return false;
+            }
+
             if (keyword == "*Dimension")
             {
                 ifs >> dim;
@@ -416,7 +421,12 @@ class poly_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
 
         while (keyword != "**EndMesh")
         {
-            ifs >> keyword;
+            if (!(ifs >> keyword))
+            {
+                std::cout << "Unexpected end of file" << std::endl;
+                return false;
+            }
+
             if (keyword == "*Dimension")
             {
                 ifs >> dim;
-- 
2.43.0


From 6549b5f51f28c719df278b0c96bd19a458226f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:59 +0000
Subject: [PATCH 07/78] fix: load_mesh must report a mesh that could not be
 populated

---
 libdiskpp/include/diskpp/loaders/loader.hpp       | 3 +--
 libdiskpp/include/diskpp/loaders/loader_medit.hpp | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/libdiskpp/include/diskpp/loaders/loader.hpp b/libdiskpp/include/diskpp/loaders/loader.hpp
index f29ebd5..c3f4b21 100644
--- a/libdiskpp/include/diskpp/loaders/loader.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader.hpp
@@ -114,8 +114,7 @@ load_mesh(const char* filename, LT& loader, MT& msh)
     if (!success)
         return false;
 
-    loader.populate_mesh(msh);
-    return true;
+    return loader.populate_mesh(msh);
 }
 
 } // namespace priv
diff --git a/libdiskpp/include/diskpp/loaders/loader_medit.hpp b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
index 69a50f4..a5f4e3b 100644
--- a/libdiskpp/include/diskpp/loaders/loader_medit.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
@@ -712,7 +712,7 @@ class medit_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
             storage->boundary_info[conv_table[m_boundary_edges[i][0]]] = bi;
         }
 
-        return false;
+        return true;
     }
 };
 
-- 
2.43.0


From 52b3062195824975ae45e31fc75d8155d78fb8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:59 +0000
Subject: [PATCH 08/78] fix: FVCA6 edges must refer to zero-based nodes

---
 libdiskpp/include/diskpp/loaders/loader_fvca6.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp b/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
index fa621fe..f2b3ba4 100644
--- a/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
@@ -222,6 +222,8 @@ class fvca6_mesh_loader<T,3> : public mesh_loader<generic_mesh<T, 3>>
         {
             size_t v1, v2;
             ifs >> v1 >> v2;
+            v1 -= 1; //convert indices to zero-based
+            v2 -= 1;
 
             if (v1 > v2)
                 std::swap(v1, v2);
-- 
2.43.0


From c978cd9a51828331756a2c3805d8bed94cf9412f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:22 +0000
Subject: [PATCH 09/78] fix: meshes loaded from formats without subdomains must
 carry the default subdomain

---
 libdiskpp/include/diskpp/loaders/loader_cartesian.hpp | 4 ++++
 libdiskpp/include/diskpp/loaders/loader_fvca6.hpp     | 1 +
 libdiskpp/include/diskpp/loaders/loader_medit.hpp     | 2 ++
 libdiskpp/include/diskpp/loaders/loader_poly.hpp      | 2 ++
 libdiskpp/include/diskpp/loaders/loader_uniform.hpp   | 2 ++
 5 files changed, 11 insertions(+)

diff --git a/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp b/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp
index db97328..002663e 100644
--- a/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp
@@ -342,6 +342,8 @@ class cartesian_mesh_loader<T, 3> : public mesh_loader<cartesian_mesh<T, 3>>
 
         boundary_surfaces.clear();
 
+        storage->subdomain_info.resize(storage->volumes.size());
+
         return true;
     }
 };
@@ -555,6 +557,8 @@ class cartesian_mesh_loader<T, 2> : public mesh_loader<cartesian_mesh<T, 2>>
 
         boundary_edges.clear();
 
+        storage->subdomain_info.resize(storage->surfaces.size());
+
         return true;
     }
 };
diff --git a/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp b/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
index f2b3ba4..630ec4d 100644
--- a/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
@@ -328,6 +328,7 @@ public:
         storage->edges      = std::move(edges);
         storage->surfaces   = std::move(faces);
         storage->volumes    = std::move(volumes);
+        storage->subdomain_info.resize(storage->volumes.size());
 
         std::vector<size_t> bf(storage->surfaces.size());
         for (auto& vol : storage->volumes)
diff --git a/libdiskpp/include/diskpp/loaders/loader_medit.hpp b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
index a5f4e3b..cc5f0f4 100644
--- a/libdiskpp/include/diskpp/loaders/loader_medit.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
@@ -393,6 +393,7 @@ class medit_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
 
         std::sort(surfaces.begin(), surfaces.end());
         storage->surfaces = std::move(surfaces);
+        storage->subdomain_info.resize(storage->surfaces.size());
 
         return true;
     }
@@ -704,6 +705,7 @@ class medit_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
         storage->edges    = std::move(edges);
         storage->surfaces = std::move(faces);
         storage->volumes  = std::move(volumes);
+        storage->subdomain_info.resize(storage->volumes.size());
 
         storage->boundary_info.resize(storage->surfaces.size());
         for (size_t i = 0; i < m_boundary_edges.size(); i++)
diff --git a/libdiskpp/include/diskpp/loaders/loader_poly.hpp b/libdiskpp/include/diskpp/loaders/loader_poly.hpp
index c41e1e0..ce5b8a6 100644
--- a/libdiskpp/include/diskpp/loaders/loader_poly.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_poly.hpp
@@ -368,6 +368,7 @@ class poly_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
         storage->nodes    = std::move(m_nodes);
         storage->edges    = std::move(edges);
         storage->surfaces = std::move(faces);
+        storage->subdomain_info.resize(storage->surfaces.size());
 
         return true;
     }
@@ -668,6 +669,7 @@ class poly_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
         storage->edges    = std::move(edges);
         storage->surfaces = std::move(faces);
         storage->volumes  = std::move(volumes);
+        storage->subdomain_info.resize(storage->volumes.size());
 
         return true;
     }
diff --git a/libdiskpp/include/diskpp/loaders/loader_uniform.hpp b/libdiskpp/include/diskpp/loaders/loader_uniform.hpp
index e25e8b3..25b952f 100644
--- a/libdiskpp/include/diskpp/loaders/loader_uniform.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_uniform.hpp
@@ -92,6 +92,8 @@ class uniform_mesh_loader<T, 1> : public mesh_loader<generic_mesh<T, 1>>
         storage->boundary_info.at(0)             = bi;
         storage->boundary_info.at(num_nodes - 1) = bi;
 
+        storage->subdomain_info.resize(num_edges);
+
         return true;
     }
 };
-- 
2.43.0


From fed0d1c78ea1b2f5b71825c3f4f0c1eabd7040c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:08 +0000
Subject: [PATCH 10/78] fix: measure of a hexahedron asserted four points

---
 libdiskpp/include/diskpp/geometry/geometry_hexahedral.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/geometry/geometry_hexahedral.hpp b/libdiskpp/include/diskpp/geometry/geometry_hexahedral.hpp
index 860b8d1..0048b5f 100644
--- a/libdiskpp/include/diskpp/geometry/geometry_hexahedral.hpp
+++ b/libdiskpp/include/diskpp/geometry/geometry_hexahedral.hpp
@@ -267,7 +267,7 @@ measure(const cartesian_mesh<T,3>& msh,
         const typename cartesian_mesh<T,3>::cell& cl)
 {
     auto pts = points(msh, cl);
-    assert(pts.size() == 4);
+    assert(pts.size() == 8);
     auto v0 = (pts[1] - pts[0]).to_vector().norm();
     auto v1 = (pts[2] - pts[0]).to_vector().norm();
     auto v2 = (pts[4] - pts[0]).to_vector().norm();
-- 
2.43.0


From 9a7e698ae9975e5a456d20b08f2a51c957eb6000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:08 +0000
Subject: [PATCH 11/78] fix: normal of a 3D face whose first three points are
 aligned

---
 .../include/diskpp/geometry/geometry_all.hpp  | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/libdiskpp/include/diskpp/geometry/geometry_all.hpp b/libdiskpp/include/diskpp/geometry/geometry_all.hpp
index 7604282..7a9a2a7 100644
--- a/libdiskpp/include/diskpp/geometry/geometry_all.hpp
+++ b/libdiskpp/include/diskpp/geometry/geometry_all.hpp
@@ -413,9 +413,14 @@ normal(const Mesh<T, 3, Storage>& msh,
     auto pts = points(msh, fc);
     assert(pts.size() >= 3);
 
-    auto v0 = (pts[1] - pts[0]).to_vector();
-    auto v1 = (pts[2] - pts[1]).to_vector();
-    auto n = v0.cross(v1);
+    /* Area vector of the face: well defined also if the first points are aligned */
+    static_vector<T, 3> n = static_vector<T, 3>::Zero();
+    for (size_t i = 1; i < pts.size()-1; i++)
+    {
+        auto v0 = (pts[i] - pts[0]).to_vector();
+        auto v1 = (pts[i+1] - pts[0]).to_vector();
+        n += v0.cross(v1);
+    }
 
     auto cell_bar = barycenter(msh, cl);
     auto face_bar = barycenter(msh, fc);
@@ -447,9 +452,14 @@ normal(const Mesh<T, 3, Storage>& msh,
     auto pts = points(msh, fc);
     assert(pts.size() >= 3);
 
-    auto v0 = (pts[1] - pts[0]).to_vector();
-    auto v1 = (pts[2] - pts[1]).to_vector();
-    auto n = v0.cross(v1);
+    /* Area vector of the face: well defined also if the first points are aligned */
+    static_vector<T, 3> n = static_vector<T, 3>::Zero();
+    for (size_t i = 1; i < pts.size()-1; i++)
+    {
+        auto v0 = (pts[i] - pts[0]).to_vector();
+        auto v1 = (pts[i+1] - pts[0]).to_vector();
+        n += v0.cross(v1);
+    }
 
     return n/n.norm();
 }
-- 
2.43.0


From 8e7efd563a010cc95316f1e299f7e16ff6d63ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:08 +0000
Subject: [PATCH 12/78] fix: is_inside on 2D cells accepted every point

---
 .../include/diskpp/geometry/geometry_all.hpp    | 12 +++++++-----
 .../diskpp/geometry/geometry_hexahedral.hpp     | 17 +++++++++++++++++
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/libdiskpp/include/diskpp/geometry/geometry_all.hpp b/libdiskpp/include/diskpp/geometry/geometry_all.hpp
index 7a9a2a7..3a66940 100644
--- a/libdiskpp/include/diskpp/geometry/geometry_all.hpp
+++ b/libdiskpp/include/diskpp/geometry/geometry_all.hpp
@@ -288,13 +288,14 @@ is_inside(const Mesh<T, 2, Storage>&                      msh,
           const typename Mesh<T, 2, Storage>::cell&       cl,
           const typename Mesh<T, 2, Storage>::point_type& pt)
 {
-    /* Nodes MUST be ordered COUNTERCLOCKWISE and the polygon must be CONVEX */
+    /* Nodes MUST be ordered along the boundary and the polygon must be CONVEX */
     auto pts = points(msh, cl);
 
+    bool left = false, right = false;
     for (size_t i = 0; i < pts.size(); i++)
     {
         auto p0 = pts[i];
-        auto p1 = pts[i % pts.size()];
+        auto p1 = pts[(i+1) % pts.size()];
 
         auto x  = pt.x();
         auto y  = pt.y();
@@ -303,11 +304,12 @@ is_inside(const Mesh<T, 2, Storage>&                      msh,
         auto x1 = p1.x();
         auto y1 = p1.y();
 
-        if ((y - y0) * (x1 - x0) - (x - x0) * (y1 - y0) < 0.0)
-            return false;
+        auto side = (y - y0) * (x1 - x0) - (x - x0) * (y1 - y0);
+        left = left or (side > 0.0);
+        right = right or (side < 0.0);
     }
 
-    return true;
+    return not (left and right);
 }
 
 
diff --git a/libdiskpp/include/diskpp/geometry/geometry_hexahedral.hpp b/libdiskpp/include/diskpp/geometry/geometry_hexahedral.hpp
index 0048b5f..5e9c6d0 100644
--- a/libdiskpp/include/diskpp/geometry/geometry_hexahedral.hpp
+++ b/libdiskpp/include/diskpp/geometry/geometry_hexahedral.hpp
@@ -305,6 +305,23 @@ measure(const cartesian_mesh<T,3>& msh,
     return v0 * v1;
 }
 
+/* Points of cartesian cells are in lexicographical order, not along the boundary */
+template<typename T>
+bool
+is_inside(const cartesian_mesh<T,2>& msh,
+          const typename cartesian_mesh<T,2>::cell& cl,
+          const typename cartesian_mesh<T,2>::point_type& pt)
+{
+    auto pts = points(msh, cl);
+    assert(pts.size() == 4);
+    auto v0 = (pts[1] - pts[0]).to_vector();
+    auto v1 = (pts[2] - pts[0]).to_vector();
+    auto v = (pt - pts[0]).to_vector();
+    auto c0 = v.dot(v0);
+    auto c1 = v.dot(v1);
+    return c0 >= T(0) and c0 <= v0.dot(v0) and c1 >= T(0) and c1 <= v1.dot(v1);
+}
+
 } // namespace disk
 
 #endif /* _GEOMETRY_CARTESIAN_HPP_ */
-- 
2.43.0


From 8dbd38f8ca86fb4ea9e703940869e41283c2e082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:34 +0000
Subject: [PATCH 13/78] fix: outward normals and measure of nonconvex polygons

---
 .../diskpp/geometry/geometry_generic.hpp      | 40 +++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/libdiskpp/include/diskpp/geometry/geometry_generic.hpp b/libdiskpp/include/diskpp/geometry/geometry_generic.hpp
index 226f734..8994bd3 100644
--- a/libdiskpp/include/diskpp/geometry/geometry_generic.hpp
+++ b/libdiskpp/include/diskpp/geometry/geometry_generic.hpp
@@ -152,6 +152,46 @@ is_convex(const disk::generic_mesh<T,2>& msh,
 }
 
 
+/* Compute the outward unit normal to a face of a polygon. The polygon can be
+ * nonconvex: its boundary is followed to find on which side of the face the
+ * polygon is, as the barycenter does not tell it in general. */
+template<typename T>
+static_vector<T, 2>
+normal(const generic_mesh<T,2>& msh,
+    const typename generic_mesh<T,2>::cell& cl,
+    const typename generic_mesh<T,2>::face& fc)
+{
+    auto ptids = cl.point_ids();
+    auto pts = points(msh, cl);
+    auto fc_ptids = fc.point_ids();
+    assert(fc_ptids.size() == 2);
+
+    T area{};
+    static_vector<T, 2> n = static_vector<T, 2>::Zero();
+    for (size_t i = 0; i < pts.size(); i++)
+    {
+        auto j = (i+1)%pts.size();
+        auto v0 = pts[i] - pts[0];
+        auto v1 = pts[j] - pts[0];
+        area += v0.x()*v1.y() - v0.y()*v1.x();
+
+        if ( (ptids[i] == fc_ptids[0] and ptids[j] == fc_ptids[1]) or
+             (ptids[i] == fc_ptids[1] and ptids[j] == fc_ptids[0]) )
+        {
+            auto v = pts[j] - pts[i];
+            n(0) = v.y();
+            n(1) = -v.x();
+        }
+    }
+
+    assert(n.norm() > T(0)); /* fc must be a face of cl */
+
+    if ( area < T(0) )
+        return -n/n.norm();
+
+    return n/n.norm();
+}
+
 /**
   * \brief Return the volume of the specified 3D cell
   *
-- 
2.43.0


From e13b64a322d28f701c8ede4e2efce82a0633c3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:22 +0000
Subject: [PATCH 14/78] fix: area of a triangle with aligned vertices could be
 NaN

---
 libdiskpp/include/diskpp/common/simplicial_formula.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/common/simplicial_formula.hpp b/libdiskpp/include/diskpp/common/simplicial_formula.hpp
index c46a19a..c4e25ba 100644
--- a/libdiskpp/include/diskpp/common/simplicial_formula.hpp
+++ b/libdiskpp/include/diskpp/common/simplicial_formula.hpp
@@ -59,7 +59,10 @@ area_triangle_kahan(const point<T, N>& p0, const point<T, N>& p1, const point<T,
     const T b = length[1];
     const T c = length[0];
 
-    return T(0.25) * std::sqrt((a + (b + c)) * (c - (a - b)) * (c + (a - b)) * (a + (b - c)));
+    /* If the points are aligned the round-off can make this factor negative */
+    const T d = std::max(c - (a - b), T(0));
+
+    return T(0.25) * std::sqrt((a + (b + c)) * d * (c + (a - b)) * (a + (b - c)));
 }
 
 /**
-- 
2.43.0


From 537b24932980fab35583fe8b0cdef4ab28f8511f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:14 +0000
Subject: [PATCH 15/78] fix: area of a polygonal 3D face with aligned vertices
 was inaccurate

---
 libdiskpp/include/diskpp/geometry/geometry_generic.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libdiskpp/include/diskpp/geometry/geometry_generic.hpp b/libdiskpp/include/diskpp/geometry/geometry_generic.hpp
index 8994bd3..f84910a 100644
--- a/libdiskpp/include/diskpp/geometry/geometry_generic.hpp
+++ b/libdiskpp/include/diskpp/geometry/geometry_generic.hpp
@@ -228,13 +228,16 @@ measure(const generic_mesh<T,3>& msh, const typename generic_mesh<T,3>::face& fc
 {
     auto pts = points(msh, fc);
 
-    T acc{};
+    /* Area vector: accurate also if some of the points are aligned */
+    static_vector<T, 3> acc = static_vector<T, 3>::Zero();
     for (size_t i = 1; i < pts.size() - 1; i++)
     {
-        acc += area_triangle_kahan(pts.at(0), pts.at(i), pts.at(i + 1));
+        auto v0 = (pts.at(i) - pts.at(0)).to_vector();
+        auto v1 = (pts.at(i + 1) - pts.at(0)).to_vector();
+        acc += v0.cross(v1);
     }
 
-    return acc;
+    return acc.norm() / T(2);
 }
 
 /**
-- 
2.43.0


From 24b06eaa248b08a4be3f3069c147d549ba21c42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:02 +0000
Subject: [PATCH 16/78] fix: triangle split of 2D cartesian cells used points
 in lexicographical order as a cycle

---
 .../diskpp/geometry/geometry_hexahedral.hpp   | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/libdiskpp/include/diskpp/geometry/geometry_hexahedral.hpp b/libdiskpp/include/diskpp/geometry/geometry_hexahedral.hpp
index 5e9c6d0..72471a4 100644
--- a/libdiskpp/include/diskpp/geometry/geometry_hexahedral.hpp
+++ b/libdiskpp/include/diskpp/geometry/geometry_hexahedral.hpp
@@ -322,6 +322,30 @@ is_inside(const cartesian_mesh<T,2>& msh,
     return c0 >= T(0) and c0 <= v0.dot(v0) and c1 >= T(0) and c1 <= v1.dot(v1);
 }
 
+template<typename PtT, size_t N>
+class raw_simplex;
+
+/* Points of cartesian cells are in lexicographical order, not along the boundary */
+template<typename T>
+std::vector<raw_simplex<point<T,2>, 2>>
+split_in_raw_triangles(const cartesian_mesh<T,2>& msh,
+                       const typename cartesian_mesh<T,2>::cell& cl)
+{
+    auto pts = points(msh, cl);
+    assert(pts.size() == 4);
+    return { {pts[0], pts[1], pts[3]}, {pts[3], pts[2], pts[0]} };
+}
+
+template<typename T>
+std::vector<std::array<point_identifier<2>, 3>>
+split_in_raw_triangles_index(const cartesian_mesh<T,2>& msh,
+                             const typename cartesian_mesh<T,2>::cell& cl)
+{
+    auto ptids = cl.point_ids();
+    assert(ptids.size() == 4);
+    return { {ptids[0], ptids[1], ptids[3]}, {ptids[3], ptids[2], ptids[0]} };
+}
+
 } // namespace disk
 
 #endif /* _GEOMETRY_CARTESIAN_HPP_ */
-- 
2.43.0


From 124201bdd3a6eba1fd6d3ceb3c636b1f0e93a8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:52 +0000
Subject: [PATCH 17/78] fix: contact_boundary_id of a face returned the Robin
 boundary id

---
 .../include/diskpp/boundary_conditions/boundary_conditions.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/boundary_conditions/boundary_conditions.hpp b/libdiskpp/include/diskpp/boundary_conditions/boundary_conditions.hpp
index c2fc2ff..17607da 100644
--- a/libdiskpp/include/diskpp/boundary_conditions/boundary_conditions.hpp
+++ b/libdiskpp/include/diskpp/boundary_conditions/boundary_conditions.hpp
@@ -517,7 +517,7 @@ class BoundaryConditions
     size_t
     contact_boundary_id(const face_type& fc) const
     {
-        return robin_boundary_id(m_msh.lookup(fc));
+        return contact_boundary_id(m_msh.lookup(fc));
     }
 
     bool
-- 
2.43.0


From ac234547a05b363c0ccf764b11f255658e747b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:52 +0000
Subject: [PATCH 18/78] fix: declaring a boundary condition again counted its
 faces twice

---
 .../boundary_conditions.hpp                    | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/libdiskpp/include/diskpp/boundary_conditions/boundary_conditions.hpp b/libdiskpp/include/diskpp/boundary_conditions/boundary_conditions.hpp
index 17607da..88e6935 100644
--- a/libdiskpp/include/diskpp/boundary_conditions/boundary_conditions.hpp
+++ b/libdiskpp/include/diskpp/boundary_conditions/boundary_conditions.hpp
@@ -252,8 +252,9 @@ class BoundaryConditions
 
         for (size_t face_id : list_faces)
         {
+            if (not is_contact_face(size_t(face_id)))
+                m_contact_faces++;
             m_faces_is_contact.at(face_id) = std::make_tuple(true, btype, b_id, -1);
-            m_contact_faces++;
         }
     }
 
@@ -269,8 +270,9 @@ class BoundaryConditions
 
         for (size_t face_id : list_faces)
         {
+            if (not is_contact_face(size_t(face_id)))
+                m_contact_faces++;
             m_faces_is_contact.at(face_id) = std::make_tuple(true, btype, b_id, bcf_id);
-            m_contact_faces++;
         }
     }
 
@@ -287,8 +289,9 @@ class BoundaryConditions
 
             const auto face_id = m_msh.lookup(bfc);
 
+            if (not is_dirichlet_face(size_t(face_id)))
+                m_dirichlet_faces++;
             m_faces_is_dirichlet.at(face_id) = std::make_tuple(true, DIRICHLET, 0, bcf_id);
-            m_dirichlet_faces++;
         }
     }
 
@@ -304,8 +307,9 @@ class BoundaryConditions
 
         for (size_t face_id : list_faces)
         {
+            if (not is_robin_face(size_t(face_id)))
+                m_robin_faces++;
             m_faces_is_robin.at(face_id) = std::make_tuple(true, btype, b_id, bcf_id);
-            m_robin_faces++;
         }
     }
 
@@ -320,8 +324,9 @@ class BoundaryConditions
 
         for (size_t face_id : list_faces)
         {
+            if (not is_dirichlet_face(size_t(face_id)))
+                m_dirichlet_faces++;
             m_faces_is_dirichlet.at(face_id) = std::make_tuple(true, btype, b_id, bcf_id);
-            m_dirichlet_faces++;
         }
     }
 
@@ -336,8 +341,9 @@ class BoundaryConditions
 
         for (size_t face_id : list_faces)
         {
+            if (not is_neumann_face(size_t(face_id)))
+                m_neumann_faces++;
             m_faces_is_neumann.at(face_id) = std::make_tuple(true, btype, b_id, bcf_id);
-            m_neumann_faces++;
         }
     }
 
-- 
2.43.0


From 99285cce098c88d83417633f15fbef1d54fb2b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:06 +0000
Subject: [PATCH 19/78] fix: stokes_assembler::assemble_alg did not compile

---
 .../diskpp/methods/implementation_hho/assembler_hho.hpp       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
index 6ed23c3..1fb39a0 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
@@ -793,14 +793,14 @@ class stokes_assembler
             if (!asm_map[i].assemble())
                 continue;
 
-            RHS(asm_map[i]) += rhs(i);
+            RHS[asm_map[i]] += rhs(i);
 
             for (size_t j = 0; j < lhs_A.cols(); j++)
             {
                 if (asm_map[j].assemble())
                     triplets.push_back(Triplet<T>(asm_map[i], asm_map[j], lhs_A(i, j)));
                 else
-                    RHS(asm_map[i]) -= lhs_A(i, j) * dirichlet_data(j);
+                    RHS[asm_map[i]] -= lhs_A(i, j) * dirichlet_data(j);
             }
         }
 
-- 
2.43.0


From e45f03067fab8bd9c124cc74c3459acd8cb169c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:16 +0000
Subject: [PATCH 20/78] fix: quadrature on convex quadrilaterals of generic
 meshes was not exact for odd degrees

---
 .../include/diskpp/quadratures/bits/quad_phys_generic.hpp     | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/quadratures/bits/quad_phys_generic.hpp b/libdiskpp/include/diskpp/quadratures/bits/quad_phys_generic.hpp
index ce4683d..15d1075 100644
--- a/libdiskpp/include/diskpp/quadratures/bits/quad_phys_generic.hpp
+++ b/libdiskpp/include/diskpp/quadratures/bits/quad_phys_generic.hpp
@@ -104,7 +104,9 @@ integrate(const disk::generic_mesh<T, 2>& msh, const typename disk::generic_mesh
 
     if (pts.size() == 4 and convex)
     {
-        return disk::quadrature::tensorized_gauss_legendre(degree, pts[0], pts[1], pts[2], pts[3]);
+        /* The jacobian of the bilinear mapping is not constant: it raises by
+         * one the degree of the integrand in each reference direction. */
+        return disk::quadrature::tensorized_gauss_legendre(degree+1, pts[0], pts[1], pts[2], pts[3]);
     }
 
     if (convex)
-- 
2.43.0


From bebd4c25568fd5acc3f02334cf72495f62b65540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:18 +0000
Subject: [PATCH 21/78] fix: dunavant() accepted a degree beyond its last rule

---
 libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp b/libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp
index 83af5c3..143450f 100644
--- a/libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp
+++ b/libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp
@@ -289,7 +289,7 @@ std::vector<quadrature_point<T,DIM>>
 dunavant(size_t degree, const point<T,DIM>& p0, const point<T,DIM>& p1, const point<T,DIM>& p2)
 {
     auto max_degree = sizeof(priv::dunavant_rules)/sizeof(priv::dunavant_rule);
-    if (degree > max_degree)
+    if (degree >= max_degree)
         throw std::invalid_argument("Dunavant quadrature: degree too high");
 
     size_t rule_num = (degree == 0) ? 0 : degree - 1;
-- 
2.43.0


From f7f6a6edce36adb753efadb62cf959a592012547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:39 +0000
Subject: [PATCH 22/78] fix: coefficients of the derivatives of the Legendre
 polynomials of degree 8 and 10

---
 libdiskpp/include/diskpp/bases/bases_scalar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_scalar.hpp b/libdiskpp/include/diskpp/bases/bases_scalar.hpp
index be7a593..b64f8f7 100644
--- a/libdiskpp/include/diskpp/bases/bases_scalar.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_scalar.hpp
@@ -628,11 +628,11 @@ class legendre_1D
             case 5: val = (315 * pows[4] - 210 * pows[2] + 15) / 8; break;
             case 6: val = (1386 * pows[5] - 1260 * pows[3] + 210 * pows[1]) / 16; break;
             case 7: val = (3003 * pows[6] - 3465 * pows[4] + 945 * pows[2] - 35) / 16; break;
-            case 8: val = (51480 * pows[7] - 72012 * pows[5] + 27720 * pows[3] - 2520 * pows[1]) / 128; break;
+            case 8: val = (51480 * pows[7] - 72072 * pows[5] + 27720 * pows[3] - 2520 * pows[1]) / 128; break;
             case 9: val = (109395 * pows[8] - 180180 * pows[6] + 90090 * pows[4] - 13860 * pows[2] + 315) / 128; break;
             case 10:
                 val =
-                  (461890 * pows[9] - 875160 * pows[7] + 450450 * pows[5] - 120120 * pows[3] + 6930 * pows[1]) / 256;
+                  (461890 * pows[9] - 875160 * pows[7] + 540540 * pows[5] - 120120 * pows[3] + 6930 * pows[1]) / 256;
                 break;
         }
         return val / sqrt(T(2) / T(2 * degree + 1));
-- 
2.43.0


From 0f532d6c0ef6371f9637f49f3f75ab29a90b533f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:08 +0000
Subject: [PATCH 23/78] fix: the Legendre basis of a face in 2D was not
 orthonormal

---
 libdiskpp/include/diskpp/bases/bases_scalar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_scalar.hpp b/libdiskpp/include/diskpp/bases/bases_scalar.hpp
index b64f8f7..01999e1 100644
--- a/libdiskpp/include/diskpp/bases/bases_scalar.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_scalar.hpp
@@ -882,7 +882,7 @@ class scaled_legendre_scalar_basis<Mesh<T, 2, Storage>, typename Mesh<T, 2, Stor
     eval_functions(const point_type& pt) const
     {
         const auto        ep      = this->scaling_point(pt);
-        const scalar_type scaling = this->scaling_factor();
+        const scalar_type scaling = sqrt(this->scaling_factor());
 
         return leg_x.eval_functions(ep.x()) * scaling;
     }
-- 
2.43.0


From 9e74f21fc356cd957f84d77d02f878732068ca01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:08 +0000
Subject: [PATCH 24/78] fix: gradients of the harmonic functions missed the
 scaling of the argument

---
 libdiskpp/include/diskpp/bases/bases_scalar.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_scalar.hpp b/libdiskpp/include/diskpp/bases/bases_scalar.hpp
index 01999e1..8c8ab58 100644
--- a/libdiskpp/include/diskpp/bases/bases_scalar.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_scalar.hpp
@@ -1448,7 +1448,7 @@ public:
             auto hep = 2.0*(pt-bar)/diam; /* beware of scaling: must be the same in all dirs */
             gradient_type hg = eval_harmonic_gradients(hep);
             ret.block(ret.rows()-harmonic_part_size, 0, harmonic_part_size, 2) =
-                hg.block(hg.rows()-harmonic_part_size, 0, harmonic_part_size, 2);
+                (2.0/diam) * hg.block(hg.rows()-harmonic_part_size, 0, harmonic_part_size, 2);
         }
         return ret;
     }
@@ -1696,7 +1696,7 @@ public:
             auto hep = 2.0*(pt-bar)/diam; /* beware of scaling: must be the same in all dirs */
             gradient_type hg = eval_harmonic_gradients(hep);
             ret.block(ret.rows()-harmonic_part_size, 0, harmonic_part_size, 3) =
-                hg.block(hg.rows()-harmonic_part_size, 0, harmonic_part_size, 3);
+                (2.0/diam) * hg.block(hg.rows()-harmonic_part_size, 0, harmonic_part_size, 3);
         }
         return ret;
     }
@@ -1954,7 +1954,7 @@ public:
             auto hep = 2.0*(pt-bar)/diam; /* beware of scaling: must be the same in all dirs */
             gradient_type hg = eval_harmonic_gradients(hep);
             ret.block(ret.rows()-harmonic_part_size, 0, harmonic_part_size, 3) =
-                hg.block(hg.rows()-harmonic_part_size, 0, harmonic_part_size, 3);
+                (2.0/diam) * hg.block(hg.rows()-harmonic_part_size, 0, harmonic_part_size, 3);
         }
         return ret;
     }
-- 
2.43.0


From 5500872682ebcaa8b4ddcc9d5aa571f4a4622fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:08 +0000
Subject: [PATCH 25/78] fix: 3D harmonic basis divided by zero on the x axis
 through the barycenter

---
 .../include/diskpp/bases/bases_scalar.hpp     | 71 ++++++++++++-------
 1 file changed, 44 insertions(+), 27 deletions(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_scalar.hpp b/libdiskpp/include/diskpp/bases/bases_scalar.hpp
index 8c8ab58..a8aa428 100644
--- a/libdiskpp/include/diskpp/bases/bases_scalar.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_scalar.hpp
@@ -1759,25 +1759,19 @@ private:
         }
 
         auto R2 = bp.x()*bp.x() + bp.y()*bp.y() + bp.z()*bp.z();
-        auto r2 = bp.y()*bp.y() + bp.z()*bp.z();
-
-        for(int n = 0; n <= hmd; n++) {
-            for (int m = 0; m <= n; m++) {
-                if (n >= 2 && m < n) {
-                    auto multn = 2*(m+1);
-                    auto multd = (n+m+1)*r2;
-                    auto mult = multn/multd;
-                    auto c1 = (R2*Cs(n-1,m)-bp.x()*Cs(n,m))*bp.y();
-                    auto c2 = (R2*Ss(n-1,m)-bp.x()*Ss(n,m))*bp.z();
-                    Cs(n,m+1) = mult*(c1-c2);
-                    auto s1 = (R2*Ss(n-1,m)-bp.x()*Ss(n,m))*bp.y();
-                    auto s2 = (R2*Cs(n-1,m)-bp.x()*Cs(n,m))*bp.z();
-                    Ss(n,m+1) = mult*(s1+s2);
-                }
-                if (n >= 1 and m < 2 and n < hmd) {
-                    auto mult = 1.0/(n+m+1.0);
-                    Cs(n+1,m) = mult*( (2*n+1)*bp.x()*Cs(n,m) - (n-m)*R2*Cs(n-1, m) );
-                    Ss(n+1,m) = mult*( (2*n+1)*bp.x()*Ss(n,m) - (n-m)*R2*Ss(n-1, m) );
+
+        for (size_t m = 0; m <= hmd; m++) {
+            if (m >= 2) {
+                Cs(m,m) = bp.y()*Cs(m-1,m-1) - bp.z()*Ss(m-1,m-1);
+                Ss(m,m) = bp.y()*Ss(m-1,m-1) + bp.z()*Cs(m-1,m-1);
+            }
+            for (size_t n = m; n < hmd; n++) {
+                auto mult = 1.0/(n+m+1.0);
+                Cs(n+1,m) = mult*(2*n+1)*bp.x()*Cs(n,m);
+                Ss(n+1,m) = mult*(2*n+1)*bp.x()*Ss(n,m);
+                if (n > m) {
+                    Cs(n+1,m) -= mult*(n-m)*R2*Cs(n-1,m);
+                    Ss(n+1,m) -= mult*(n-m)*R2*Ss(n-1,m);
                 }
             }
         }
@@ -1820,22 +1814,45 @@ private:
         auto bsize = harmonic_basis_size(full_basis_degree, 3);
         auto [Cs, Ss] = eval_cs(bp);
         gradient_type ret = gradient_type::Zero(bsize, 3);
-        
-        auto r2 = bp.y()*bp.y() + bp.z()*bp.z();
+        auto R2 = bp.x()*bp.x() + bp.y()*bp.y() + bp.z()*bp.z();
+
+        /* Derivatives along y and z, by differentiating the recurrences of eval_cs() */
+        cs_matrix_type Cy = cs_matrix_type::Zero(hmd+1, hmd+1), Cz = Cy, Sy = Cy, Sz = Cy;
+        for (size_t m = 0; m <= hmd; m++) {
+            if (m >= 1) {
+                Cy(m,m) =  scalar_type(m)*Cs(m-1,m-1);
+                Cz(m,m) = -scalar_type(m)*Ss(m-1,m-1);
+                Sy(m,m) =  scalar_type(m)*Ss(m-1,m-1);
+                Sz(m,m) =  scalar_type(m)*Cs(m-1,m-1);
+            }
+            for (size_t n = m; n < hmd; n++) {
+                auto mult = 1.0/(n+m+1.0);
+                Cy(n+1,m) = mult*(2*n+1)*bp.x()*Cy(n,m);
+                Cz(n+1,m) = mult*(2*n+1)*bp.x()*Cz(n,m);
+                Sy(n+1,m) = mult*(2*n+1)*bp.x()*Sy(n,m);
+                Sz(n+1,m) = mult*(2*n+1)*bp.x()*Sz(n,m);
+                if (n > m) {
+                    Cy(n+1,m) -= mult*(n-m)*(R2*Cy(n-1,m) + 2.0*bp.y()*Cs(n-1,m));
+                    Cz(n+1,m) -= mult*(n-m)*(R2*Cz(n-1,m) + 2.0*bp.z()*Cs(n-1,m));
+                    Sy(n+1,m) -= mult*(n-m)*(R2*Sy(n-1,m) + 2.0*bp.y()*Ss(n-1,m));
+                    Sz(n+1,m) -= mult*(n-m)*(R2*Sz(n-1,m) + 2.0*bp.z()*Ss(n-1,m));
+                }
+            }
+        }
 
         size_t ofs = 1;
         for(size_t n = 1; n <= hmd; n++) {
             for (size_t m = 0; m <= n; m++) {
-                ret(ofs, 0) = (n-m)*Cs(n-1,m);
-                ret(ofs, 1) = (bp.y()/r2)*(n*Cs(n,m) - (n-m)*bp.x()*Cs(n-1,m)) + m*Ss(n,m)*bp.z()/r2;
-                ret(ofs, 2) = (bp.z()/r2)*(n*Cs(n,m) - (n-m)*bp.x()*Cs(n-1,m)) - m*Ss(n,m)*bp.y()/r2;
+                ret(ofs, 0) = scalar_type(n-m)*Cs(n-1,m);
+                ret(ofs, 1) = Cy(n,m);
+                ret(ofs, 2) = Cz(n,m);
                 ofs++;
             }
 
             for (size_t m = 1; m <= n; m++) {
-                ret(ofs, 0) = (n-m)*Ss(n-1,m);
-                ret(ofs, 1) = (bp.y()/r2)*(n*Ss(n,m) - (n-m)*bp.x()*Ss(n-1,m)) - m*Cs(n,m)*bp.z()/r2;
-                ret(ofs, 2) = (bp.z()/r2)*(n*Ss(n,m) - (n-m)*bp.x()*Ss(n-1,m)) + m*Cs(n,m)*bp.y()/r2;
+                ret(ofs, 0) = scalar_type(n-m)*Ss(n-1,m);
+                ret(ofs, 1) = Sy(n,m);
+                ret(ofs, 2) = Sz(n,m);
                 ofs++;
             }
         }
-- 
2.43.0


From 15d268cc8014ccde0a06adc56b305d633bc9f267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:08 +0000
Subject: [PATCH 26/78] fix: 3D vector Raviart-Thomas basis of degree 1 lacked
 its last function

---
 libdiskpp/include/diskpp/bases/bases_vector.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_vector.hpp b/libdiskpp/include/diskpp/bases/bases_vector.hpp
index ac47f94..a3ef5e2 100644
--- a/libdiskpp/include/diskpp/bases/bases_vector.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_vector.hpp
@@ -892,10 +892,9 @@ class scaled_monomial_vector_basis_RT<Mesh<T, 3, Storage>, typename Mesh<T, 3, S
         ret.block(0, 0, vector_basis.size(), 3) = vector_basis.eval_functions(pt);
 
         const auto sphi = scalar_basis.eval_functions(pt);
-        size_t     deg  = 0;
-        if (basis_degree > 2)
-            deg = basis_degree - 2;
-        const auto beg    = scalar_basis_size(deg, 3);
+        size_t     beg  = 0;
+        if (basis_degree >= 2)
+            beg = scalar_basis_size(basis_degree - 2, 3);
         const auto offset = vector_basis.size();
 
         const auto bx = (pt.x() - cell_bar.x());
@@ -922,10 +921,9 @@ class scaled_monomial_vector_basis_RT<Mesh<T, 3, Storage>, typename Mesh<T, 3, S
 
         const auto sphi  = scalar_basis.eval_functions(pt);
         const auto sdphi = scalar_basis.eval_gradients(pt);
-        size_t     deg   = 0;
-        if (basis_degree > 2)
-            deg = basis_degree - 2;
-        const auto beg    = scalar_basis_size(deg, 3);
+        size_t     beg   = 0;
+        if (basis_degree >= 2)
+            beg = scalar_basis_size(basis_degree - 2, 3);
         const auto offset = vector_basis.size();
 
         const auto bx = (pt.x() - cell_bar.x());
-- 
2.43.0


From 02bebf587838710889196a4623056e08df42703d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:26 +0000
Subject: [PATCH 27/78] fix: 3D symmetric Raviart-Thomas basis counted its
 functions in two dimensions

---
 libdiskpp/include/diskpp/bases/bases_matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_matrix.hpp b/libdiskpp/include/diskpp/bases/bases_matrix.hpp
index 057fc3c..9ef25f3 100644
--- a/libdiskpp/include/diskpp/bases/bases_matrix.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_matrix.hpp
@@ -752,7 +752,7 @@ class scaled_monomial_sym_matrix_basis_RT<Mesh<T, 3, Storage>, typename Mesh<T,
         const auto sphi = scalar_basis.eval_functions(pt);
         size_t     beg  = 0;
         if (basis_degree >= 2)
-            beg = scalar_basis_size(basis_degree - 2, 2);
+            beg = scalar_basis_size(basis_degree - 2, 3);
 
         const auto bx = (pt.x() - cell_bar.x());
         const auto by = (pt.y() - cell_bar.y());
-- 
2.43.0


From 53097b34e06156d5962b2f324ea9be7696310856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:26 +0000
Subject: [PATCH 28/78] fix: gradient of the new 1D basis of degree 0 wrote out
 of range

---
 libdiskpp/include/diskpp/bases/bases_new.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_new.hpp b/libdiskpp/include/diskpp/bases/bases_new.hpp
index 0146597..70e3d0a 100644
--- a/libdiskpp/include/diskpp/bases/bases_new.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_new.hpp
@@ -159,7 +159,8 @@ public:
         auto ep = phys2ref(pt);
 
         ret(0) = 0.;
-        ret(1) = scale_/h_;
+        if (degree_ > 0)
+            ret(1) = scale_/h_;
         for (size_t k = 2; k <= degree_; k++)
             ret(k) = ret(k-1)*k*ep.x()/(k-1);
 
-- 
2.43.0


From 99a7104099ae2bc954067e4815f69338fbcee9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:26 +0000
Subject: [PATCH 29/78] fix: reference frames of faces with aligned points

---
 libdiskpp/include/diskpp/bases/bases_all.hpp | 7 ++++---
 libdiskpp/include/diskpp/bases/bases_new.hpp | 6 ++++++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_all.hpp b/libdiskpp/include/diskpp/bases/bases_all.hpp
index 3ade87c..008b3b5 100644
--- a/libdiskpp/include/diskpp/bases/bases_all.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_all.hpp
@@ -449,15 +449,16 @@ class scaled_monomial_abstract_face_basis<Mesh<T, 3, Storage>, typename Mesh<T,
         const size_t npts = pts.size();
         for (size_t i = 1; i <= npts; i++)
         {
+            const size_t ic = i % npts;
             const size_t i0 = (i + 1) % npts;
             const size_t i1 = (i - 1) % npts;
-            v0              = (pts[i0] - pts[i]).to_vector();
-            v1              = (pts[i1] - pts[i]).to_vector();
+            v0              = (pts[i0] - pts[ic]).to_vector();
+            v1              = (pts[i1] - pts[ic]).to_vector();
 
             const vector_type v0n = v0 / v0.norm();
             const vector_type v1n = v1 / v1.norm();
 
-            if (v0n.dot(v1n) < 0.99) // we want at least 8 degrees angle
+            if (std::abs(v0n.dot(v1n)) < 0.99) // we want at least 8 degrees angle
             {
                 ok = true;
                 break;
diff --git a/libdiskpp/include/diskpp/bases/bases_new.hpp b/libdiskpp/include/diskpp/bases/bases_new.hpp
index 70e3d0a..a8c362a 100644
--- a/libdiskpp/include/diskpp/bases/bases_new.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_new.hpp
@@ -703,6 +703,12 @@ private:
         assert(pts.size() >= 3);
         vec_type u0 = (pts[1] - pts[0]).to_vector();
         vec_type u1 = (pts[2] - pts[0]).to_vector();
+        /* the first points of a face may be aligned: take the one farthest from the line */
+        for (size_t i = 3; i < pts.size(); i++) {
+            vec_type ui = (pts[i] - pts[0]).to_vector();
+            if (u0.cross(ui).norm() > u0.cross(u1).norm())
+                u1 = ui;
+        }
 
         //#if 0
         v0_ = u0;
-- 
2.43.0


From 8fa0ef3f2e9af924abba464edb6d3d190815dfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:29 +0000
Subject: [PATCH 30/78] fix: scale the harmonic functions, not their gradients,
 to make the two consistent

---
 libdiskpp/include/diskpp/bases/bases_scalar.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_scalar.hpp b/libdiskpp/include/diskpp/bases/bases_scalar.hpp
index a8aa428..95351cc 100644
--- a/libdiskpp/include/diskpp/bases/bases_scalar.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_scalar.hpp
@@ -1414,7 +1414,7 @@ public:
             assert(polynomial_max_degree < full_basis_degree);
             auto hep = 2.0*(pt-bar)/diam; /* beware of scaling: must be the same in all dirs */
             function_type hp = eval_harmonic(hep);
-            ret.tail(harmonic_part_size) = hp.tail(harmonic_part_size);
+            ret.tail(harmonic_part_size) = (diam/2.0) * hp.tail(harmonic_part_size);
         }
         return ret;
     }
@@ -1448,7 +1448,7 @@ public:
             auto hep = 2.0*(pt-bar)/diam; /* beware of scaling: must be the same in all dirs */
             gradient_type hg = eval_harmonic_gradients(hep);
             ret.block(ret.rows()-harmonic_part_size, 0, harmonic_part_size, 2) =
-                (2.0/diam) * hg.block(hg.rows()-harmonic_part_size, 0, harmonic_part_size, 2);
+                hg.block(hg.rows()-harmonic_part_size, 0, harmonic_part_size, 2);
         }
         return ret;
     }
@@ -1646,7 +1646,7 @@ public:
             assert(polynomial_max_degree < full_basis_degree);
             auto hep = 2.0*(pt-bar)/diam; /* beware of scaling: must be the same in all dirs */
             function_type hp = eval_harmonic(hep);
-            ret.tail(harmonic_part_size) = hp.tail(harmonic_part_size);
+            ret.tail(harmonic_part_size) = (diam/2.0) * hp.tail(harmonic_part_size);
         }
         return ret;
     }
@@ -1696,7 +1696,7 @@ public:
             auto hep = 2.0*(pt-bar)/diam; /* beware of scaling: must be the same in all dirs */
             gradient_type hg = eval_harmonic_gradients(hep);
             ret.block(ret.rows()-harmonic_part_size, 0, harmonic_part_size, 3) =
-                (2.0/diam) * hg.block(hg.rows()-harmonic_part_size, 0, harmonic_part_size, 3);
+                hg.block(hg.rows()-harmonic_part_size, 0, harmonic_part_size, 3);
         }
         return ret;
     }
@@ -1921,7 +1921,7 @@ public:
             assert(polynomial_max_degree < full_basis_degree);
             auto hep = 2.0*(pt-bar)/diam; /* beware of scaling: must be the same in all dirs */
             function_type hp = eval_harmonic(hep);
-            ret.tail(harmonic_part_size) = hp.tail(harmonic_part_size);
+            ret.tail(harmonic_part_size) = (diam/2.0) * hp.tail(harmonic_part_size);
         }
         return ret;
     }
@@ -1971,7 +1971,7 @@ public:
             auto hep = 2.0*(pt-bar)/diam; /* beware of scaling: must be the same in all dirs */
             gradient_type hg = eval_harmonic_gradients(hep);
             ret.block(ret.rows()-harmonic_part_size, 0, harmonic_part_size, 3) =
-                (2.0/diam) * hg.block(hg.rows()-harmonic_part_size, 0, harmonic_part_size, 3);
+                hg.block(hg.rows()-harmonic_part_size, 0, harmonic_part_size, 3);
         }
         return ret;
     }
-- 
2.43.0


From c89c14ea52d2b0a866477eaac6fe9cd8f66ffffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:27 +0000
Subject: [PATCH 31/78] fix: scalar interpolation with mesh degrees did not
 compile

---
 .../include/diskpp/methods/implementation_hho/methods_hho.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/methods_hho.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/methods_hho.hpp
index 9c076b7..53e1a7d 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/methods_hho.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/methods_hho.hpp
@@ -303,7 +303,7 @@ project_function(const Mesh&                      msh,
     const auto cdi    = degree_infos.cellDegreeInfo(msh, cl);
     const auto fcs_di = cdi.facesDegreeInfo();
 
-    const auto num_faces_dofs = scalar_faces_dofs(msh, cl, fcs_di);
+    const auto num_faces_dofs = scalar_faces_dofs(msh, fcs_di);
 
     const auto cbs = scalar_basis_size(cdi.cell_degree(), Mesh::dimension);
 
-- 
2.43.0


From 71fb121ce03e2fc4917ebc0247d5d8c24259bd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:27 +0000
Subject: [PATCH 32/78] fix: Raviart-Thomas gradient reconstruction did not
 compile, or used the wrong space

---
 .../methods/implementation_hho/vector_hho_gradrec.hpp       | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_gradrec.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_gradrec.hpp
index 2a726bf..eed9722 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_gradrec.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_gradrec.hpp
@@ -302,7 +302,7 @@ make_vector_hho_gradrec_RT(const Mesh& msh, const typename Mesh::cell_type& cl,
 
     const CellDegreeInfo<Mesh> cell_infos(msh, cl, di.cell_degree(), di.face_degree(), di.grad_degree());
 
-    return make_vector_hho_gradrec_impl(msh, cl, cell_infos, gb);
+    return priv::make_vector_hho_gradrec_impl(msh, cl, cell_infos, gb);
 }
 
 /**
@@ -332,9 +332,9 @@ std::pair<dynamic_matrix<typename Mesh::coordinate_type>, dynamic_matrix<typenam
 make_vector_hho_gradrec_RT(const Mesh& msh, const typename Mesh::cell_type& cl, const MeshDegreeInfo<Mesh>& msh_infos)
 {
     const auto cell_infos = msh_infos.cellDegreeInfo(msh, cl);
-    const auto gb         = make_vector_monomial_basis(msh, cl, cell_infos.grad_degree());
+    const auto gb         = make_vector_monomial_basis_RT(msh, cl, cell_infos.grad_degree());
 
-    return make_vector_hho_gradrec_impl(msh, cl, cell_infos, gb);
+    return priv::make_vector_hho_gradrec_impl(msh, cl, cell_infos, gb);
 }
 
 /**
-- 
2.43.0


From 75e3326d86c26cc625ce39f68706477b267e9d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:27 +0000
Subject: [PATCH 33/78] fix: fluxes of the dG stabilisation did not compile

---
 .../diskpp/methods/implementation_hho/scalar_stabilization.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/scalar_stabilization.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/scalar_stabilization.hpp
index d647491..a206465 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/scalar_stabilization.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/scalar_stabilization.hpp
@@ -1044,7 +1044,7 @@ make_scalar_dg_stabilization_fluxes(const Mesh&                     msh,
 {
     const auto stab    = make_scalar_dg_stabilization_diff(msh, cl, cell_infos, hF);
     const auto adjoint = make_scalar_stabilization_fluxes(msh, cl, cell_infos, stab, hF);
-    return adjoint * make_scalar_hho_difference(msh, cl, cell_infos, hF);
+    return adjoint * make_scalar_hho_difference(msh, cl, cell_infos);
 }
 
 /**
-- 
2.43.0


From 3562e639d91ee92e57b6bc2df63f4a2029dfe7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:27 +0000
Subject: [PATCH 34/78] fix: fluxes of the HHO stabilisation ignored the choice
 of the diameter

---
 .../diskpp/methods/implementation_hho/scalar_stabilization.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/scalar_stabilization.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/scalar_stabilization.hpp
index a206465..09ba202 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/scalar_stabilization.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/scalar_stabilization.hpp
@@ -936,7 +936,7 @@ make_scalar_hho_stabilization_fluxes(const Mesh&              msh,
     using T = typename Mesh::coordinate_type;
     typedef Matrix<T, Dynamic, Dynamic> matrix_type;
 
-    const matrix_type stab = make_scalar_hho_stabilization(msh, cl, reconstruction, cell_infos);
+    const matrix_type stab = make_scalar_hho_stabilization(msh, cl, reconstruction, cell_infos, hF);
 
     const auto celdeg = cell_infos.cell_degree();
 
-- 
2.43.0


From a6c8957e0c4939d2ccaa3c30f1a0a21a5c1d09fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:32 +0000
Subject: [PATCH 35/78] fix: vector reconstruction with mesh degrees did not
 compile

---
 .../diskpp/methods/implementation_hho/vector_hho_laplacian.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_laplacian.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_laplacian.hpp
index efc2e1f..f679c98 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_laplacian.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_laplacian.hpp
@@ -195,7 +195,7 @@ make_vector_hho_laplacian(const Mesh& msh, const typename Mesh::cell_type& cl, c
 {
     const auto hho_scalar_laplacian = make_scalar_hho_laplacian(msh, cl, mesh_infos);
 
-    return make_vector_hho_laplacian(msh, cl, mesh_infos.cellDegreeInfo(msh, cl), hho_scalar_laplacian);
+    return make_vector_hho_laplacian(msh, cl, mesh_infos, hho_scalar_laplacian);
 }
 
 template<typename Mesh>
-- 
2.43.0


From 04b097fe196cd5eeb176ec7daecf7527c6960af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:54 +0000
Subject: [PATCH 36/78] fix: complex interpolation on the faces was integrated
 on the cell

---
 libdiskpp/include/diskpp/methods/implementation_hho/curl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/curl.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/curl.hpp
index 384c96b..3937dd3 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/curl.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/curl.hpp
@@ -401,7 +401,7 @@ maxwell_prj(const Mesh& msh, const typename Mesh::cell_type& cl,
     {
         const auto& fc = fcs[i];
         const auto fb = make_vector_monomial_tangential_basis(msh, fc, hdi.face_degree());
-        const auto qps_f = integrate(msh, cl, 2*hdi.face_degree());
+        const auto qps_f = integrate(msh, fc, 2*hdi.face_degree());
         dynamic_matrix<T> fmat = dynamic_matrix<T>::Zero(fbs, fbs);
         dynamic_matrix<T> frhs = dynamic_vector<T>::Zero(fbs);
         for (const auto& qp : qps_f)
-- 
2.43.0


From da14f78c60f471fb9cdc582043bb9cc862e43f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:09 +0000
Subject: [PATCH 37/78] fix: offsets of the faces of a cell did not compile

---
 .../include/diskpp/methods/implementation_hho/utils_hho.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/utils_hho.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/utils_hho.hpp
index 1d89945..2bb19ca 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/utils_hho.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/utils_hho.hpp
@@ -321,7 +321,7 @@ scalar_faces_offset(const Mesh& msh, const typename Mesh::cell_type& cl, const M
     for (auto fc : fcs)
     {
         ret.push_back(num_dofs);
-        num_dofs += scalar_face_dofs(msh, fc);
+        num_dofs += scalar_face_dofs(msh, degree_infos.degreeInfo(msh, fc));
     }
 
     return ret;
@@ -340,7 +340,7 @@ vector_faces_offset(const Mesh& msh, const typename Mesh::cell_type& cl, const M
     for (auto fc : fcs)
     {
         ret.push_back(num_dofs);
-        num_dofs += vector_face_dofs(msh, fc);
+        num_dofs += vector_face_dofs(msh, degree_infos.degreeInfo(msh, fc));
     }
 
     return ret;
-- 
2.43.0


From 30095a038499993481310856bc20cb5fb6a4043d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:28 +0000
Subject: [PATCH 38/78] fix: tolerance of the conjugate gradient could not be
 configured

---
 libdiskpp/include/diskpp/solvers/solver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/solvers/solver.hpp b/libdiskpp/include/diskpp/solvers/solver.hpp
index 7aa98c7..e956d21 100644
--- a/libdiskpp/include/diskpp/solvers/solver.hpp
+++ b/libdiskpp/include/diskpp/solvers/solver.hpp
@@ -165,7 +165,7 @@ conjugated_gradient(sol::state&                                lua,
     conjugated_gradient_params<T> cgp;
 
     cgp.max_iter = lua["solver"]["cg"]["max_iter"].get_or(1000);
-    cgp.rr_tol   = lua["sover"]["cg"]["rr_tol"].get_or(1e-8);
+    cgp.rr_tol   = lua["solver"]["cg"]["rr_tol"].get_or(1e-8);
     cgp.rr_max   = lua["solver"]["cg"]["rr_max"].get_or(20.0);
     cgp.verbose  = lua["solver"]["cg"]["verbose"].get_or(false);
 
-- 
2.43.0


From 80776bfe790179ba0b1d1bf2502bc82c4c3a85b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:28 +0000
Subject: [PATCH 39/78] fix: expansion of the VEM condensation did not compile

---
 .../diskpp/methods/implementation_vem/methods_vem_2d.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp b/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp
index f52b55e..0d538b4 100644
--- a/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp
@@ -213,7 +213,7 @@ schur(const dynamic_matrix<T>& L, const dynamic_vector<T>& R, size_t n_bndunks)
     return std::pair(Lc, Rc);
 }
 
-template<typename Basis, typename T>
+template<typename T>
 auto
 deschur(const dynamic_matrix<T>& lhs, const dynamic_vector<T>& rhs,
     const dynamic_vector<T>& solF, size_t n_bndunks)
-- 
2.43.0


From 4e9e803017b6feb327877286d83ae26e2a9d7c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:22 +0000
Subject: [PATCH 40/78] fix: Neumann data on faces with partial Dirichlet
 conditions (assembler_mechanics)

---
 .../implementation_hho/assembler_hho.hpp      | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
index 1fb39a0..bf979a4 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
@@ -2249,6 +2249,7 @@ class assembler_mechanics
 
                     if (bnd.is_dirichlet_face(face_id))
                     {
+                        size_t ind_sol = 0;
                         switch (bnd.dirichlet_boundary_type(face_id))
                         {
                             case disk::DIRICHLET:
@@ -2267,10 +2268,10 @@ class assembler_mechanics
                             {
                                 for (size_t i = 0; i < num_face_dofs; i += dimension)
                                 {
-                                    RHS(face_offset + i + 1) += neumann(i + 1);
+                                    RHS(face_offset + ind_sol++) += neumann(i + 1);
                                     if (dimension == 3)
                                     {
-                                        RHS(face_offset + i + 2) += neumann(i + 2);
+                                        RHS(face_offset + ind_sol++) += neumann(i + 2);
                                     }
                                 }
                                 break;
@@ -2279,10 +2280,10 @@ class assembler_mechanics
                             {
                                 for (size_t i = 0; i < num_face_dofs; i += dimension)
                                 {
-                                    RHS(face_offset + i) = neumann(i);
+                                    RHS(face_offset + ind_sol++) += neumann(i);
                                     if (dimension == 3)
                                     {
-                                        RHS(face_offset + i + 2) += neumann(i + 2);
+                                        RHS(face_offset + ind_sol++) += neumann(i + 2);
                                     }
                                 }
 
@@ -2294,8 +2295,8 @@ class assembler_mechanics
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < num_face_dofs; i += dimension)
                                 {
-                                    RHS(face_offset + i) += neumann(i);
-                                    RHS(face_offset + i + 1) += neumann(i + 1);
+                                    RHS(face_offset + ind_sol++) += neumann(i);
+                                    RHS(face_offset + ind_sol++) += neumann(i + 1);
                                 }
                                 break;
                             }
@@ -2305,7 +2306,7 @@ class assembler_mechanics
                                 {
                                     if (dimension == 3)
                                     {
-                                        RHS(face_offset + i + 2) += neumann(i + 2);
+                                        RHS(face_offset + ind_sol++) += neumann(i + 2);
                                     }
                                 }
                                 break;
@@ -2316,7 +2317,7 @@ class assembler_mechanics
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < num_face_dofs; i += dimension)
                                 {
-                                    RHS(face_offset + i + 1) += neumann(i + 1);
+                                    RHS(face_offset + ind_sol++) += neumann(i + 1);
                                 }
                                 break;
                             }
@@ -2326,7 +2327,7 @@ class assembler_mechanics
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < num_face_dofs; i += dimension)
                                 {
-                                    RHS(face_offset + i) += neumann(i);
+                                    RHS(face_offset + ind_sol++) += neumann(i);
                                 }
                                 break;
                             }
-- 
2.43.0


From 696b27f3c34ed5b78289e81438268bed5748f98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:22 +0000
Subject: [PATCH 41/78] fix: Neumann data on faces with partial Dirichlet
 conditions (vector_primal_hho_assembler)

---
 .../implementation_hho/assembler_hho.hpp      | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
index bf979a4..494ab5d 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
@@ -3829,6 +3829,7 @@ class vector_primal_hho_assembler
 
                     if (bnd.is_dirichlet_face(face_id))
                     {
+                        size_t ind_sol = 0;
                         switch (bnd.dirichlet_boundary_type(face_id))
                         {
                             case DIRICHLET:
@@ -3847,10 +3848,10 @@ class vector_primal_hho_assembler
                             {
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i + 1, neumann(i + 1)));
+                                    duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i + 1)));
                                     if (Mesh::dimension == 3)
                                     {
-                                        duos.push_back(std::make_pair(compress_offset + i + 2, neumann(i + 2)));
+                                        duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i + 2)));
                                     }
                                 }
                                 break;
@@ -3859,10 +3860,10 @@ class vector_primal_hho_assembler
                             {
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i, neumann(i)));
+                                    duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i)));
                                     if (Mesh::dimension == 3)
                                     {
-                                        duos.push_back(std::make_pair(compress_offset + i, neumann(i + 2)));
+                                        duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i + 2)));
                                     }
                                 }
 
@@ -3874,8 +3875,8 @@ class vector_primal_hho_assembler
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i, neumann(i)));
-                                    duos.push_back(std::make_pair(compress_offset + i + 1, neumann(i + 1)));
+                                    duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i)));
+                                    duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i + 1)));
                                 }
                                 break;
                             }
@@ -3885,7 +3886,7 @@ class vector_primal_hho_assembler
                                 {
                                     if (Mesh::dimension == 3)
                                     {
-                                        duos.push_back(std::make_pair(compress_offset + i + 2, neumann(i + 2)));
+                                        duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i + 2)));
                                     }
                                 }
                                 break;
@@ -3896,7 +3897,7 @@ class vector_primal_hho_assembler
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i + 1, neumann(i + 1)));
+                                    duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i + 1)));
                                 }
                                 break;
                             }
@@ -3906,7 +3907,7 @@ class vector_primal_hho_assembler
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i, neumann(i)));
+                                    duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i)));
                                 }
                                 break;
                             }
-- 
2.43.0


From 050743d29e005f516a13ef98b0673d8cefa02934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:22 +0000
Subject: [PATCH 42/78] fix: Neumann data on faces with partial Dirichlet
 conditions (vector_mechanics_hho_assembler)

---
 .../implementation_hho/assembler_hho.hpp      | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
index 494ab5d..a261c51 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
@@ -4668,6 +4668,7 @@ class vector_mechanics_hho_assembler
 
                     if (bnd.is_dirichlet_face(face_id))
                     {
+                        size_t ind_sol = 0;
                         switch (bnd.dirichlet_boundary_type(face_id))
                         {
                             case DIRICHLET:
@@ -4686,10 +4687,10 @@ class vector_mechanics_hho_assembler
                             {
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i + 1, neumann(i + 1)));
+                                    duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i + 1)));
                                     if (Mesh::dimension == 3)
                                     {
-                                        duos.push_back(std::make_pair(compress_offset + i + 2, neumann(i + 2)));
+                                        duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i + 2)));
                                     }
                                 }
                                 break;
@@ -4698,10 +4699,10 @@ class vector_mechanics_hho_assembler
                             {
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i, neumann(i)));
+                                    duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i)));
                                     if (Mesh::dimension == 3)
                                     {
-                                        duos.push_back(std::make_pair(compress_offset + i, neumann(i + 2)));
+                                        duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i + 2)));
                                     }
                                 }
 
@@ -4713,8 +4714,8 @@ class vector_mechanics_hho_assembler
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i, neumann(i)));
-                                    duos.push_back(std::make_pair(compress_offset + i + 1, neumann(i + 1)));
+                                    duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i)));
+                                    duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i + 1)));
                                 }
                                 break;
                             }
@@ -4724,7 +4725,7 @@ class vector_mechanics_hho_assembler
                                 {
                                     if (Mesh::dimension == 3)
                                     {
-                                        duos.push_back(std::make_pair(compress_offset + i + 2, neumann(i + 2)));
+                                        duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i + 2)));
                                     }
                                 }
                                 break;
@@ -4735,7 +4736,7 @@ class vector_mechanics_hho_assembler
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i + 1, neumann(i + 1)));
+                                    duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i + 1)));
                                 }
                                 break;
                             }
@@ -4745,7 +4746,7 @@ class vector_mechanics_hho_assembler
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i, neumann(i)));
+                                    duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i)));
                                 }
                                 break;
                             }
-- 
2.43.0


From b6e179faf6acf9cbe9b2db41026859bee4632ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:40 +0000
Subject: [PATCH 43/78] fix: local solution of the vector primal assembler did
 not compile

---
 .../include/diskpp/methods/implementation_hho/assembler_hho.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
index a261c51..6a06d70 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
@@ -3179,7 +3179,7 @@ class vector_primal_hho_assembler
     {
         const auto face_id = msh.lookup(fc);
 
-        const auto n_face_dofs = num_faces_dofs(face_id);
+        const auto n_face_dofs = num_face_dofs(face_id);
 
         vector_type ret = vector_type::Zero(n_face_dofs);
 
-- 
2.43.0


From 5dbee3e57bea81e6be563d6c16eefb5812d71d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:05 +0000
Subject: [PATCH 44/78] fix: last time step lost because of rounding errors

---
 .../include/diskpp/mechanics/NewtonSolver/TimeManager.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/NewtonSolver/TimeManager.hpp b/libdiskpp/include/diskpp/mechanics/NewtonSolver/TimeManager.hpp
index 90c178e..220bf4f 100644
--- a/libdiskpp/include/diskpp/mechanics/NewtonSolver/TimeManager.hpp
+++ b/libdiskpp/include/diskpp/mechanics/NewtonSolver/TimeManager.hpp
@@ -136,9 +136,13 @@ class ListOfTimeStep
 
         for (I i = 0; i < n_step; i++)
         {
-            if ((start_time + (i + 1) * delta_t) <= user_end_time)
+            const T step_start = start_time + i * delta_t;
+            const T step_end   = (i + 1 == n_step) ? end_time : start_time + (i + 1) * delta_t;
+
+            // up to rounding errors on the end of the step
+            if (step_end <= user_end_time + T(1E-6) * delta_t)
             {
-                const TimeStep<T> step(start_time + i * delta_t, start_time + (i + 1) * delta_t, level);
+                const TimeStep<T> step(step_start, step_end, level);
                 list_steps.push_back(step);
             }
         }
-- 
2.43.0


From cea011cacffd95dc1842ef44c36d1cd71e321b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:05 +0000
Subject: [PATCH 45/78] fix: getGradDegree returned the degree of the faces

---
 .../diskpp/mechanics/NewtonSolver/NewtonSolverParameters.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolverParameters.hpp b/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolverParameters.hpp
index e074c5a..8dbb3f4 100755
--- a/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolverParameters.hpp
+++ b/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolverParameters.hpp
@@ -351,7 +351,7 @@ class NewtonSolverParameter
     int
     getGradDegree() const
     {
-        return m_face_degree;
+        return m_grad_degree;
     }
 
     void
-- 
2.43.0


From 324e136cbdeb60d23c242f4b8f54148ee171983d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:05 +0000
Subject: [PATCH 46/78] fix: endless loop on a parameters file without
 EndParameters

---
 .../mechanics/NewtonSolver/NewtonSolverParameters.hpp       | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolverParameters.hpp b/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolverParameters.hpp
index 8dbb3f4..b67b84c 100755
--- a/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolverParameters.hpp
+++ b/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolverParameters.hpp
@@ -310,7 +310,11 @@ class NewtonSolverParameter
                 return false;
             }
 
-            ifs >> keyword;
+            if (!(ifs >> keyword))
+            {
+                std::cout << "Expected keyword \"EndParameters\" line: " << line << std::endl;
+                return false;
+            }
             line++;
         }
 
-- 
2.43.0


From d65055dbe7c4ecf428d628898963a9f9e3258322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:05 +0000
Subject: [PATCH 47/78] fix: quadrature of the behavior used the rejected
 degree of the gradient

---
 .../include/diskpp/mechanics/NewtonSolver/NewtonSolver.hpp      | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolver.hpp b/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolver.hpp
index d95e4dd..33b7e65 100644
--- a/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolver.hpp
+++ b/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolver.hpp
@@ -323,6 +323,8 @@ class NewtonSolver
             grad_degree = face_degree;
         }
 
+        m_rp.m_grad_degree = grad_degree;
+
         if (m_verbose)
         {
             m_rp.infos();
-- 
2.43.0


From c2d63c19ce6b0eeeb43fed016a09cc49368f2178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:46 +0000
Subject: [PATCH 48/78] fix: Newmark scheme of the nonlinear mechanics solver

---
 .../diskpp/mechanics/NewtonSolver/NewtonIteration.hpp      | 7 ++++---
 .../diskpp/mechanics/NewtonSolver/NewtonSolverComput.hpp   | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonIteration.hpp b/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonIteration.hpp
index a0d124f..ff5ae2c 100755
--- a/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonIteration.hpp
+++ b/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonIteration.hpp
@@ -171,7 +171,7 @@ class NewtonIteration
 
                 auto uT        = m_displ[cl_id].head(num_cell_dofs);
                 auto acce_pred = -uT / (beta * dt * dt) - m_velocity[cl_id] / (beta * dt) -
-                                 dt * dt / 2.0 * (1.0 - 2.0 * beta) * m_acce[cl_id];
+                                 (1.0 - 2.0 * beta) / (2.0 * beta) * m_acce[cl_id];
 
                 m_acce_pred.push_back(acce_pred);
             }
@@ -430,9 +430,10 @@ class NewtonIteration
                 auto        gamma   = dyna_rp["gamma"];
                 scalar_type dt      = m_time_step.increment_time();
 
-                m_acce.at(cell_i) = xT / (beta * dt * dt) + m_acce_pred.at(cell_i);
+                m_acce.at(cell_i) =
+                  m_displ.at(cell_i).head(xT.size()) / (beta * dt * dt) + m_acce_pred.at(cell_i);
                 m_velocity.at(cell_i) =
-                  m_velocity_p.at(cell_i) + dt * ((1.0 - gamma) * m_acce.at(cell_i) + gamma * m_acce.at(cell_i));
+                  m_velocity_p.at(cell_i) + dt * ((1.0 - gamma) * m_acce_p.at(cell_i) + gamma * m_acce.at(cell_i));
             }
 
             // std::cout << "KT_F " << m_AL[cell_i].norm() << std::endl;
diff --git a/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolverComput.hpp b/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolverComput.hpp
index b1df5a6..66bbce5 100644
--- a/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolverComput.hpp
+++ b/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolverComput.hpp
@@ -546,7 +546,7 @@ class mechanical_computation
             RTF.head(cell_basis_size) -= F_iner;
 
             // std::cout << mass_mat.cols() << ", " << aT_pred.rows() << std::endl;
-            RTF.head(cell_basis_size) += mass_mat * aT_pred;
+            RTF.head(cell_basis_size) -= mass_mat * aT_pred;
         }
         tc.toc();
         time_dyna += tc.elapsed();
-- 
2.43.0


From 04d4b69cf8b33ff2ac7466c1888d38d53f5b2316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:46 +0000
Subject: [PATCH 49/78] fix: H1 error of an unstabilized nonlinear mechanics
 solver

---
 .../include/diskpp/mechanics/NewtonSolver/NewtonSolver.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolver.hpp b/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolver.hpp
index 33b7e65..22189fb 100644
--- a/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolver.hpp
+++ b/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolver.hpp
@@ -777,7 +777,7 @@ class NewtonSolver
                 }
             }
 
-            const auto Ah = grad + stab;
+            const matrix_type Ah = (stab.size() > 0) ? matrix_type(grad + stab) : grad;
 
             const vector_type comp_dof = m_displ.at(cell_i);
             const vector_type true_dof = project_function(m_msh, cl, m_degree_infos, as, 2);
-- 
2.43.0


From 2add14a41e8a16e8c785d8052a2b569fe7d45a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:46 +0000
Subject: [PATCH 50/78] fix: printSolutionCell did not compile

---
 .../include/diskpp/mechanics/NewtonSolver/NewtonSolver.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolver.hpp b/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolver.hpp
index 22189fb..19981a5 100644
--- a/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolver.hpp
+++ b/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolver.hpp
@@ -679,7 +679,7 @@ class NewtonSolver
         std::cout << "Solution at the cells:" << std::endl;
         for (auto& cl : m_msh)
         {
-            const auto di            = m_degree_infos.degreeInfo(m_msh, cl);
+            const auto di            = m_degree_infos.cellDegreeInfo(m_msh, cl);
             const auto num_cell_dofs = vector_basis_size(di.cell_degree(), mesh_type::dimension, mesh_type::dimension);
             std::cout << "cell " << cell_i << ": " << std::endl;
             std::cout << m_displ.at(cell_i++).head(num_cell_dofs).transpose() << std::endl;
-- 
2.43.0


From 5ca6c59b02510b8586511d1706f06d0f0421d8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:46 +0000
Subject: [PATCH 51/78] fix: setters of the degree informations did not compile

---
 libdiskpp/include/diskpp/adaptivity/adaptivity.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/adaptivity/adaptivity.hpp b/libdiskpp/include/diskpp/adaptivity/adaptivity.hpp
index 61d3fb1..47eb9ad 100644
--- a/libdiskpp/include/diskpp/adaptivity/adaptivity.hpp
+++ b/libdiskpp/include/diskpp/adaptivity/adaptivity.hpp
@@ -336,7 +336,7 @@ class MeshDegreeInfo
     degreeInfo(const MeshType& msh, const cell_type& cl, const DegreeInfo& di)
     {
         const auto cell_id             = msh.lookup(cl);
-        return m_cells_degree[cell_id] = di;
+        m_cells_degree[cell_id]        = di;
     }
 
     DegreeInfo
@@ -366,7 +366,7 @@ class MeshDegreeInfo
     degreeInfo(const MeshType& msh, const face_type& fc, const DegreeInfo& di)
     {
         const auto face_id             = msh.lookup(fc);
-        return m_faces_degree[face_id] = di;
+        m_faces_degree[face_id]        = di;
     }
 
     std::vector<DegreeInfo>
-- 
2.43.0


From f8fcfc88b4b052992bfc7383f098d25ea51b9e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 52/78] fix: second derivative of the jacobian

The header did not compile (misspelled include) and one entry of the 3D
second derivative of the determinant used the transposed coefficient.
---
 .../diskpp/mechanics/behaviors/maths_jacobian_derivate.hpp    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/maths_jacobian_derivate.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/maths_jacobian_derivate.hpp
index 3bf5d01..c612fef 100755
--- a/libdiskpp/include/diskpp/mechanics/behaviors/maths_jacobian_derivate.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/maths_jacobian_derivate.hpp
@@ -26,7 +26,7 @@
 #pragma once
 
 #include "diskpp/common/eigen.hpp"
-#include "diskpp/mechanics/bevaviors/maths_tensor.hpp"
+#include "diskpp/mechanics/behaviors/maths_tensor.hpp"
 
 namespace disk
 {
@@ -137,7 +137,7 @@ JacobianSecondDerivate(const static_matrix<T, 3, 3>& M)
     ret(5, 3) = -M(0, 2);
     ret(6, 1) = M(1, 2);
     ret(6, 2) = -M(1, 1);
-    ret(6, 3) = -M(2, 1);
+    ret(6, 3) = -M(1, 2);
     ret(7, 1) = -M(0, 2);
     ret(7, 2) = M(0, 1);
     ret(7, 3) = M(0, 2);
-- 
2.43.0


From ef848fc960adcf287523e741d132e3fdcd3665fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 53/78] fix: linearized strain

The linearized strain is the symmetric part of the gradient.
---
 libdiskpp/include/diskpp/mechanics/deformation_tensors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/mechanics/deformation_tensors.hpp b/libdiskpp/include/diskpp/mechanics/deformation_tensors.hpp
index c984050..e94f02a 100755
--- a/libdiskpp/include/diskpp/mechanics/deformation_tensors.hpp
+++ b/libdiskpp/include/diskpp/mechanics/deformation_tensors.hpp
@@ -41,7 +41,7 @@ template<typename T, int DIM>
 static_matrix<T, DIM, DIM>
 convertGtoLinearizedStrain(const static_matrix<T, DIM, DIM>& Gradient)
 {
-    return 0.5 * Gradient * Gradient.transpose();
+    return T(0.5) * (Gradient + Gradient.transpose());
 }
 
 // Compute F = G + I
-- 
2.43.0


From b488823e3514a8a6157f417797821d37e0b0c5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 54/78] fix: energy of the hyperelastic laws

The volumetric function of type 4 did not match its derivatives (and was
singular at rest), and the energy of the Neohookean law did not compile.
---
 .../mechanics/behaviors/laws/Cavitation/Cavitation_qp.hpp     | 2 +-
 .../mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/laws/Cavitation/Cavitation_qp.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/laws/Cavitation/Cavitation_qp.hpp
index 64a7221..ab8f40d 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/laws/Cavitation/Cavitation_qp.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/laws/Cavitation/Cavitation_qp.hpp
@@ -85,7 +85,7 @@ class Cavitation_qp : public law_qp_bones<T, DIM>
             case 1: return log(J);
             case 2: return (J - 1.0);
             case 3: return log10(J);
-            case 4: return 1.0 / (1.0 - J);
+            case 4: return 1.0 - 1.0 / J;
             case 5: return (J * J - 1.0);
             case 6: return sqrt((J * J - 1.0 - 2.0 * log(J)) / 2.0);
 
diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp
index 56628c7..e79f24d 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp
@@ -84,7 +84,7 @@ class Neohookean_qp : public law_qp_bones<T, DIM>
             case 1: return log(J);
             case 2: return (J - 1.0);
             case 3: return log10(J);
-            case 4: return 1.0 / (1.0 - J);
+            case 4: return 1.0 - 1.0 / J;
             case 5: return (J * J - 1.0);
             case 6: return sqrt((J * J - 1.0 - 2.0 * log(J)) / 2.0);
 
@@ -202,7 +202,7 @@ class Neohookean_qp : public law_qp_bones<T, DIM>
             throw std::invalid_argument(mess);
         }
 
-        const static_matrix_type3D C = convertFtoCauchyGreenRight(this->m_estrain_curr);
+        const static_matrix_type3D C = mechanics::convertFtoCauchyGreenRight(this->m_estrain_curr);
 
         const scalar_type Wiso = data.getMu() / 2.0 * (C.trace() - 3);
         const scalar_type Wvol =
-- 
2.43.0


From f64a2723ad8c2a9e54e4744e4c219815157d631c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 55/78] fix: plastic laws rejected volumetric strains

The trace of the trial deviator has to be compared with the stress, and not
with the deviator, which is only made of rounding errors if the strain is
purely volumetric.
---
 .../laws/IsotropicHardeningVMis/IsotropicHardeningVMis_qp.hpp   | 2 +-
 .../LinearIsotropicAndKinematicHardening_qp.hpp                 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/laws/IsotropicHardeningVMis/IsotropicHardeningVMis_qp.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/laws/IsotropicHardeningVMis/IsotropicHardeningVMis_qp.hpp
index b871df6..9691d2a 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/laws/IsotropicHardeningVMis/IsotropicHardeningVMis_qp.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/laws/IsotropicHardeningVMis/IsotropicHardeningVMis_qp.hpp
@@ -202,7 +202,7 @@ class IsotropicHardeningVMis_qp : public law_qp_bones<T, DIM>
             // std::cout << "se_eq: " << se_eq << ", Rp " << Rp0 + H0 * (m_p_prev - p0) << ", Phi: " << Phi_trial0 <<
             // std::endl;
 
-            if ((std::abs(se.trace()) / se.norm()) > 1E-8)
+            if (std::abs(se.trace()) > 1E-8 * (2 * data.getMu() * estrain_trial.norm()))
             {
                 // std::cout << std::abs(se.trace()) << ", " << se.norm() << ", " << (std::abs(se.trace()) / se.norm())
                 //           << std::endl;
diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/laws/LinearIsotropicAndKinematicHardening/LinearIsotropicAndKinematicHardening_qp.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/laws/LinearIsotropicAndKinematicHardening/LinearIsotropicAndKinematicHardening_qp.hpp
index 0a37fa8..792f77d 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/laws/LinearIsotropicAndKinematicHardening/LinearIsotropicAndKinematicHardening_qp.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/laws/LinearIsotropicAndKinematicHardening/LinearIsotropicAndKinematicHardening_qp.hpp
@@ -170,7 +170,7 @@ class LinearIsotropicAndKinematicHardening_qp : public law_qp_bones<T, DIM>
             throw std::invalid_argument(mess);
         }
 
-        if ((std::abs(se.trace()) / se.norm()) > 1E-8)
+        if (std::abs(se.trace()) > 1E-8 * (2 * data.getMu() * estrain_trial.norm() + X_prev.norm()))
         {
             const std::string mess = "Se_trace= " + std::to_string(se.trace()) + " <= 0";
             throw std::invalid_argument(mess);
-- 
2.43.0


From 1745adf273d28376dedc5e3a9fa3705dc804b0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 56/78] fix: conversion of 3D symmetric tensors from MGIS

The component 12 of a symmetric tensor was lost, and fourth order tensors
used another order of the components than second order ones, and wrong
factors for some of them.
---
 .../mechanics/behaviors/tensor_conversion.hpp | 107 +++---------------
 1 file changed, 17 insertions(+), 90 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/tensor_conversion.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/tensor_conversion.hpp
index 51d4cd9..d9f87ac 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/tensor_conversion.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/tensor_conversion.hpp
@@ -285,7 +285,7 @@ convertMatrixFromMgis(const std::vector<T2>& mat_vec, static_matrix<T, 3, 3>& ma
             mat(1, 0)    = mat(0, 1);
             mat(0, 2)    = mat_vec[4] / sqrt(2.);
             mat(2, 0)    = mat(0, 2);
-            mat(0, 1)    = mat_vec[5] / sqrt(2.);
+            mat(1, 2)    = mat_vec[5] / sqrt(2.);
             mat(2, 1)    = mat(1, 2);
             break;
         }
@@ -388,96 +388,23 @@ convertTensorFromMgis(const std::vector<T2>& tens_vec, static_tensor<T, 3>& tens
 
         case 36:
         {
+            // symmetric tensors are ordered as in convertMatrixToMgis
+            const int row[6] = {0, 1, 2, 0, 0, 1};
+            const int col[6] = {0, 1, 2, 1, 2, 2};
+
             const T rac2 = sqrt(2.);
-            coeff<T, 3>(tens, 0, 0, 0, 0, tens_vec[0]);
-            coeff<T, 3>(tens, 0, 0, 1, 1, tens_vec[1]);
-            coeff<T, 3>(tens, 0, 0, 2, 2, tens_vec[2]);
-            coeff<T, 3>(tens, 0, 0, 1, 2, tens_vec[3] / rac2);
-            coeff<T, 3>(tens, 0, 0, 2, 1, coeff<T, 3>(tens, 0, 0, 1, 2));
-            coeff<T, 3>(tens, 0, 0, 2, 0, tens_vec[4] / rac2);
-            coeff<T, 3>(tens, 0, 0, 0, 2, coeff<T, 3>(tens, 0, 0, 2, 0));
-            coeff<T, 3>(tens, 0, 0, 0, 1, tens_vec[5] / rac2);
-            coeff<T, 3>(tens, 0, 0, 1, 0, coeff<T, 3>(tens, 0, 0, 0, 1));
-            //
-            coeff<T, 3>(tens, 1, 1, 0, 0, tens_vec[6]);
-            coeff<T, 3>(tens, 1, 1, 1, 1, tens_vec[7]);
-            coeff<T, 3>(tens, 1, 1, 2, 2, tens_vec[8]);
-            coeff<T, 3>(tens, 1, 1, 1, 2, tens_vec[9] / rac2);
-            coeff<T, 3>(tens, 1, 1, 2, 1, coeff<T, 3>(tens, 1, 1, 1, 2));
-            coeff<T, 3>(tens, 1, 1, 2, 0, tens_vec[10] / rac2);
-            coeff<T, 3>(tens, 1, 1, 0, 2, coeff<T, 3>(tens, 1, 1, 2, 0));
-            coeff<T, 3>(tens, 1, 1, 0, 1, tens_vec[11] / rac2);
-            coeff<T, 3>(tens, 1, 1, 1, 0, coeff<T, 3>(tens, 1, 1, 0, 1));
-            //
-            coeff<T, 3>(tens, 2, 2, 0, 0, tens_vec[12]);
-            coeff<T, 3>(tens, 2, 2, 1, 1, tens_vec[13]);
-            coeff<T, 3>(tens, 2, 2, 2, 2, tens_vec[14]);
-            coeff<T, 3>(tens, 2, 2, 1, 2, tens_vec[15] / rac2);
-            coeff<T, 3>(tens, 2, 2, 2, 1, coeff<T, 3>(tens, 2, 2, 1, 2));
-            coeff<T, 3>(tens, 2, 2, 2, 0, tens_vec[16] / rac2);
-            coeff<T, 3>(tens, 2, 2, 0, 2, coeff<T, 3>(tens, 2, 2, 2, 0));
-            coeff<T, 3>(tens, 2, 2, 0, 1, tens_vec[17] / rac2);
-            coeff<T, 3>(tens, 2, 2, 1, 0, coeff<T, 3>(tens, 2, 2, 0, 1));
-            //
-            coeff<T, 3>(tens, 1, 2, 0, 0, tens_vec[18] / rac2);
-            coeff<T, 3>(tens, 1, 2, 1, 1, tens_vec[19] / rac2);
-            coeff<T, 3>(tens, 1, 2, 2, 2, tens_vec[20] / rac2);
-            coeff<T, 3>(tens, 1, 2, 1, 2, tens_vec[21] / 2.);
-            coeff<T, 3>(tens, 1, 2, 2, 1, coeff<T, 3>(tens, 1, 2, 1, 2));
-            coeff<T, 3>(tens, 1, 2, 2, 0, tens_vec[22] / 2.);
-            coeff<T, 3>(tens, 1, 2, 0, 2, coeff<T, 3>(tens, 1, 2, 2, 0));
-            coeff<T, 3>(tens, 1, 2, 0, 1, tens_vec[23] / 2.);
-            coeff<T, 3>(tens, 1, 2, 1, 0, coeff<T, 3>(tens, 1, 2, 0, 1));
-            //
-            coeff<T, 3>(tens, 2, 0, 0, 0, tens_vec[24] / rac2);
-            coeff<T, 3>(tens, 2, 0, 1, 1, tens_vec[25] / rac2);
-            coeff<T, 3>(tens, 2, 0, 2, 2, tens_vec[26] / rac2);
-            coeff<T, 3>(tens, 2, 0, 1, 2, tens_vec[27] / 2.);
-            coeff<T, 3>(tens, 2, 0, 2, 1, coeff<T, 3>(tens, 2, 0, 1, 2));
-            coeff<T, 3>(tens, 2, 0, 2, 0, tens_vec[28] / 2.);
-            coeff<T, 3>(tens, 2, 0, 0, 2, coeff<T, 3>(tens, 2, 0, 2, 0));
-            coeff<T, 3>(tens, 2, 0, 0, 1, tens_vec[29] / 2.);
-            coeff<T, 3>(tens, 2, 0, 1, 0, coeff<T, 3>(tens, 2, 0, 0, 1));
-            //
-            coeff<T, 3>(tens, 0, 1, 0, 0, tens_vec[30] / rac2);
-            coeff<T, 3>(tens, 0, 1, 1, 1, tens_vec[31] / rac2);
-            coeff<T, 3>(tens, 0, 1, 2, 2, tens_vec[32] / 2.);
-            coeff<T, 3>(tens, 0, 1, 1, 2, tens_vec[33] / 2.);
-            coeff<T, 3>(tens, 0, 1, 2, 1, coeff<T, 3>(tens, 0, 1, 1, 2));
-            coeff<T, 3>(tens, 0, 1, 2, 0, tens_vec[34] / rac2);
-            coeff<T, 3>(tens, 0, 1, 0, 2, coeff<T, 3>(tens, 0, 1, 2, 0));
-            coeff<T, 3>(tens, 0, 1, 0, 1, tens_vec[35] / 2.);
-            coeff<T, 3>(tens, 0, 1, 1, 0, coeff<T, 3>(tens, 0, 1, 0, 1));
-            //
-            coeff<T, 3>(tens, 2, 1, 0, 0, coeff<T, 3>(tens, 1, 2, 0, 0));
-            coeff<T, 3>(tens, 2, 1, 1, 1, coeff<T, 3>(tens, 1, 2, 1, 1));
-            coeff<T, 3>(tens, 2, 1, 2, 2, coeff<T, 3>(tens, 1, 2, 2, 2));
-            coeff<T, 3>(tens, 2, 1, 1, 2, coeff<T, 3>(tens, 1, 2, 1, 2));
-            coeff<T, 3>(tens, 2, 1, 2, 1, coeff<T, 3>(tens, 1, 2, 2, 1));
-            coeff<T, 3>(tens, 2, 1, 2, 0, coeff<T, 3>(tens, 1, 2, 2, 0));
-            coeff<T, 3>(tens, 2, 1, 0, 2, coeff<T, 3>(tens, 1, 2, 0, 2));
-            coeff<T, 3>(tens, 2, 1, 0, 1, coeff<T, 3>(tens, 1, 2, 0, 1));
-            coeff<T, 3>(tens, 2, 1, 1, 0, coeff<T, 3>(tens, 1, 2, 1, 0));
-            //
-            coeff<T, 3>(tens, 0, 2, 0, 0, coeff<T, 3>(tens, 2, 0, 0, 0));
-            coeff<T, 3>(tens, 0, 2, 1, 1, coeff<T, 3>(tens, 2, 0, 1, 1));
-            coeff<T, 3>(tens, 0, 2, 2, 2, coeff<T, 3>(tens, 2, 0, 2, 2));
-            coeff<T, 3>(tens, 0, 2, 1, 2, coeff<T, 3>(tens, 2, 0, 1, 2));
-            coeff<T, 3>(tens, 0, 2, 2, 1, coeff<T, 3>(tens, 2, 0, 2, 1));
-            coeff<T, 3>(tens, 0, 2, 2, 0, coeff<T, 3>(tens, 2, 0, 2, 0));
-            coeff<T, 3>(tens, 0, 2, 0, 2, coeff<T, 3>(tens, 2, 0, 0, 2));
-            coeff<T, 3>(tens, 0, 2, 0, 1, coeff<T, 3>(tens, 2, 0, 0, 1));
-            coeff<T, 3>(tens, 0, 2, 1, 0, coeff<T, 3>(tens, 2, 0, 1, 0));
-            //
-            coeff<T, 3>(tens, 1, 0, 0, 0, coeff<T, 3>(tens, 0, 1, 0, 0));
-            coeff<T, 3>(tens, 1, 0, 1, 1, coeff<T, 3>(tens, 0, 1, 1, 1));
-            coeff<T, 3>(tens, 1, 0, 2, 2, coeff<T, 3>(tens, 0, 1, 2, 2));
-            coeff<T, 3>(tens, 1, 0, 1, 2, coeff<T, 3>(tens, 0, 1, 1, 2));
-            coeff<T, 3>(tens, 1, 0, 2, 1, coeff<T, 3>(tens, 0, 1, 2, 1));
-            coeff<T, 3>(tens, 1, 0, 2, 0, coeff<T, 3>(tens, 0, 1, 2, 0));
-            coeff<T, 3>(tens, 1, 0, 0, 2, coeff<T, 3>(tens, 0, 1, 0, 2));
-            coeff<T, 3>(tens, 1, 0, 0, 1, coeff<T, 3>(tens, 0, 1, 0, 1));
-            coeff<T, 3>(tens, 1, 0, 1, 0, coeff<T, 3>(tens, 0, 1, 1, 0));
+            for (int a = 0; a < 6; a++)
+            {
+                for (int b = 0; b < 6; b++)
+                {
+                    const T val = tens_vec[6 * a + b] / ((a < 3 ? T(1) : rac2) * (b < 3 ? T(1) : rac2));
+
+                    coeff<T, 3>(tens, row[a], col[a], row[b], col[b], val);
+                    coeff<T, 3>(tens, row[a], col[a], col[b], row[b], val);
+                    coeff<T, 3>(tens, col[a], row[a], row[b], col[b], val);
+                    coeff<T, 3>(tens, col[a], row[a], col[b], row[b], val);
+                }
+            }
             break;
         }
 
-- 
2.43.0


From 33632eb2da2193417a74f02ca1ee16b4503b0b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 57/78] fix: derivative of the norm of the deviator

---
 .../include/diskpp/mechanics/behaviors/maths_utils.hpp    | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/maths_utils.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/maths_utils.hpp
index d5aac1c..0d7c599 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/maths_utils.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/maths_utils.hpp
@@ -52,13 +52,7 @@ template<typename T, int DIM>
 static_matrix<T, DIM, DIM>
 NormFroFirstDerivate(const static_matrix<T, DIM, DIM>& dev)
 {
-    const T normFrodev    = dev.norm();
-    const T normFrodev3_2 = normFrodev * std::sqrt(normFrodev);
-
-    auto mat = dev;
-    mat.diagonal() *= (1 - 1.0 / T(DIM));
-
-    return -mat / normFrodev3_2;
+    return dev / dev.norm();
 }
 
 } // end disk
\ No newline at end of file
-- 
2.43.0


From 40ae3df21a08b3e6e993dd717d9355bb0dc0a855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 58/78] fix: projectStressOnCell of a behavior did not compile

---
 .../mechanics/behaviors/laws/behaviorlaws.hpp      | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/laws/behaviorlaws.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/laws/behaviorlaws.hpp
index 1a067b2..1e2f16d 100755
--- a/libdiskpp/include/diskpp/mechanics/behaviors/laws/behaviorlaws.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/laws/behaviorlaws.hpp
@@ -511,14 +511,14 @@ class Behavior
     {
         switch (m_id)
         {
-            case 100: return m_elastic.projectStressOnCell(msh, cl, hdi, m_data); break;
-            case 101: return m_linearHard.projectStressOnCell(msh, cl, hdi, m_data); break;
-            case 102: return m_nonlinearHard.projectStressOnCell(msh, cl, hdi, m_data); break;
-            case 103: return m_henckymises.projectStressOnCell(msh, cl, hdi, m_data); break;
-            case 200: return m_neohokean.projectStressOnCell(msh, cl, hdi, m_data); break;
-            case 201: return m_cavitation.projectStressOnCell(msh, cl, hdi, m_data); break;
+            case 100: return m_elastic.getCellQPs(msh.lookup(cl)).projectStressOnCell(msh, cl, hdi, m_data); break;
+            case 101: return m_linearHard.getCellQPs(msh.lookup(cl)).projectStressOnCell(msh, cl, hdi, m_data); break;
+            case 102: return m_nonlinearHard.getCellQPs(msh.lookup(cl)).projectStressOnCell(msh, cl, hdi, m_data); break;
+            case 103: return m_henckymises.getCellQPs(msh.lookup(cl)).projectStressOnCell(msh, cl, hdi, m_data); break;
+            case 200: return m_neohokean.getCellQPs(msh.lookup(cl)).projectStressOnCell(msh, cl, hdi, m_data); break;
+            case 201: return m_cavitation.getCellQPs(msh.lookup(cl)).projectStressOnCell(msh, cl, hdi, m_data); break;
 #ifdef HAVE_MGIS
-            case 500: return m_mfront.projectStressOnCell(msh, cl, hdi, m_data); break;
+            case 500: return m_mfront.getCellQPs(msh.lookup(cl)).projectStressOnCell(msh, cl, hdi, m_data); break;
 #endif
 
             default: throw std::invalid_argument("Behavior error: Unknown id law");
-- 
2.43.0


From 0ecd02f1a82b6a1a7eb80d518ac5d6cfb79f6344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 59/78] fix: logarithmic strain with close principal stretches

The coefficient eta was wrong if the two largest principal stretches are
equal, and the coefficients lost all their digits (up to stresses and
tangent moduli off by orders of magnitude) if two of them differ by little
more than rounding errors. Evaluate them as divided differences.
---
 .../logarithmic_strain/logarithmic_tools.hpp  | 230 +++---------------
 1 file changed, 30 insertions(+), 200 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp
index 32a8190..b181bb2 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp
@@ -184,105 +184,49 @@ compute_Mij(const std::array<static_vector<T, 3>, 3>& Ni,
     return Mij;
 }
 
-enum EigenCase
-{
-    THREE_EQUAL,
-    TWO_EQUAL01,
-    TWO_EQUAL02,
-    TWO_EQUAL12,
-    THREE_DIFF
-};
-
 namespace priv
 {
-template<class T>
-typename std::enable_if<!std::numeric_limits<T>::is_integer, bool>::type
-almost_equal(T x, T y, int ulp = 2)
-{
-    // the machine epsilon has to be scaled to the magnitude of the values used
-    // and multiplied by the desired precision in ULPs (units in the last place)
-    return std::abs(x - y) <= std::numeric_limits<T>::epsilon() * std::abs(x + y) * ulp
-           // unless the result is subnormal
-           || std::abs(x - y) < std::numeric_limits<T>::min();
-}
+// Divided differences of the function e(x) = log(x) / 2. The direct formulas loose all
+// their digits if the eigenvalues are close to each other
 
 template<typename T>
-int
-selectCase(const static_vector<T, 3>& lambda_i)
+T
+log_difference(const T x, const T y)
 {
-    if (almost_equal(lambda_i(0), lambda_i(1)))
-    {
-        if (almost_equal(lambda_i(1), lambda_i(2)))
-        {
-            return THREE_EQUAL;
-        }
-        else
-        {
-            return TWO_EQUAL01;
-        }
-    }
-    else
-    {
-        if (almost_equal(lambda_i(1), lambda_i(2)))
-        {
-            return TWO_EQUAL12;
-        }
-        else if (almost_equal(lambda_i(0), lambda_i(2)))
-        {
-            return TWO_EQUAL02;
-        }
-        else
-        {
-            return THREE_DIFF;
-        }
-    }
-
-    return -1;
+    return x == y ? T(1) / (T(2) * x) : std::log1p((x - y) / y) / (T(2) * (x - y));
 }
 
-// lambda_0 != lambda_1 != lambda_2 && lambda_0 < lambda_1 < lambda_2
 template<typename T>
-std::tuple<static_matrix<T, 3, 3>, static_matrix<T, 3, 3>, T>
-compute_three_diff(const static_vector<T, 3>& lambda_i, const static_vector<T, 3>& ei, const static_vector<T, 3>& di)
+T
+log_difference(const T x, const T y, const T z)
 {
-    T                      eta   = T(0);
-    static_matrix<T, 3, 3> theta = static_matrix<T, 3, 3>::Zero();
-    static_matrix<T, 3, 3> xi    = static_matrix<T, 3, 3>::Zero();
+    const T a = std::min(std::min(x, y), z);
+    const T c = std::max(std::max(x, y), z);
+    const T b = std::max(std::min(x, y), std::min(std::max(x, y), z));
 
-    for (int i = 0; i < 3; i++)
-    {
-        for (int j = 0; j < 3; j++)
-        {
-            if (j != i)
-            {
-                const T lilj = lambda_i(i) - lambda_i(j);
-                theta(i, j)  = (ei(i) - ei(j)) / lilj;
-                xi(i, j)     = (theta(i, j) - di(j) / T(2)) / lilj;
+    if (c - a > T(0.01) * c)
+        return (log_difference(c, b) - log_difference(b, a)) / (c - a);
 
-                for (int k = 0; k < 3; k++)
-                {
-                    if (k != i && k != j)
-                    {
-                        const T lilk = lambda_i(i) - lambda_i(k);
-                        eta += ei(i) / (T(2) * lilj * lilk);
-                    }
-                }
-            }
-        }
+    // Taylor expansion around b
+    const T u = (a - b) / b, v = (c - b) / b;
+    T       h = T(1), un = T(1), sign = T(-1), ret = T(0);
+
+    for (int n = 2; n <= 12; n++)
+    {
+        ret += sign * h / T(n);
+        un *= u;
+        h    = v * h + un;
+        sign = -sign;
     }
 
-    return std::make_tuple(theta, xi, eta);
+    return ret / (T(2) * b * b);
+}
 }
 
-// lambda_0 == lambda_1 == lambda_2
 template<typename T>
 std::tuple<static_matrix<T, 3, 3>, static_matrix<T, 3, 3>, T>
-compute_three_equal(const static_vector<T, 3>& di, const static_vector<T, 3>& fi)
+compute_coefficient(const static_vector<T, 3>& lambda_i)
 {
-    const T d = di(0) / T(2);
-    const T f = fi(0) / T(8);
-
-    const T                eta   = f;
     static_matrix<T, 3, 3> theta = static_matrix<T, 3, 3>::Zero();
     static_matrix<T, 3, 3> xi    = static_matrix<T, 3, 3>::Zero();
 
@@ -292,128 +236,16 @@ compute_three_equal(const static_vector<T, 3>& di, const static_vector<T, 3>& fi
         {
             if (j != i)
             {
-                theta(i, j) = d;
-                xi(i, j)    = f;
+                theta(i, j) = priv::log_difference(lambda_i(i), lambda_i(j));
+                xi(i, j)    = priv::log_difference(lambda_i(i), lambda_i(j), lambda_i(j));
             }
         }
     }
 
-    return std::make_tuple(theta, xi, eta);
-}
-
-// lambda_0 == lambda_1 != lambda_2
-template<typename T>
-std::tuple<static_matrix<T, 3, 3>, static_matrix<T, 3, 3>, T>
-compute_two_equal(const static_vector<T, 3>& lambda_i,
-                  const static_vector<T, 3>& ei,
-                  const static_vector<T, 3>& di,
-                  const static_vector<T, 3>& fi,
-                  const int                  CASE)
-{
-    T                      eta   = T(0);
-    static_matrix<T, 3, 3> theta = static_matrix<T, 3, 3>::Zero();
-    static_matrix<T, 3, 3> xi    = static_matrix<T, 3, 3>::Zero();
-
-    switch (CASE)
-    {
-        case TWO_EQUAL01:
-        {
-            theta(0, 1) = di(0) / T(2);
-            theta(1, 0) = theta(0, 1);
-
-            theta(0, 2) = (ei(0) - ei(2)) / (lambda_i(0) - lambda_i(2));
-            theta(2, 0) = theta(0, 2);
-
-            theta(1, 2) = (ei(1) - ei(2)) / (lambda_i(1) - lambda_i(2));
-            theta(2, 1) = theta(1, 2);
-
-            xi(0, 1) = fi(0) / T(8);
-            xi(1, 0) = xi(0, 1);
-
-            xi(0, 2) = (theta(0, 2) - di(2) / T(2)) / (lambda_i(0) - lambda_i(2));
-            xi(2, 0) = (theta(2, 0) - di(0) / T(2)) / (lambda_i(2) - lambda_i(0));
-
-            xi(1, 2) = (theta(1, 2) - di(2) / T(2)) / (lambda_i(1) - lambda_i(2));
-            xi(2, 1) = (theta(2, 1) - di(1) / T(2)) / (lambda_i(2) - lambda_i(1));
-
-            eta = xi(2, 0);
-
-            break;
-        }
-        case TWO_EQUAL02:
-        {
-            theta(0, 1) = (ei(0) - ei(1)) / (lambda_i(0) - lambda_i(1));
-            theta(1, 0) = theta(0, 1);
-
-            theta(0, 2) = di(0) / T(2);
-            theta(2, 0) = theta(0, 2);
-
-            theta(1, 2) = (ei(1) - ei(2)) / (lambda_i(1) - lambda_i(2));
-            theta(2, 1) = theta(1, 2);
-
-            xi(0, 1) = (theta(0, 1) - di(1) / T(2)) / (lambda_i(0) - lambda_i(1));
-            xi(1, 0) = (theta(1, 0) - di(0) / T(2)) / (lambda_i(1) - lambda_i(0));
-
-            xi(0, 2) = fi(0) / T(8);
-            xi(2, 0) = xi(0, 2);
-
-            xi(1, 2) = (theta(1, 2) - di(2) / T(2)) / (lambda_i(1) - lambda_i(2));
-            xi(2, 1) = (theta(2, 1) - di(1) / T(2)) / (lambda_i(2) - lambda_i(1));
-
-            eta = xi(0, 1);
-            break;
-        }
-        case TWO_EQUAL12:
-        {
-            theta(0, 1) = (ei(0) - ei(1)) / (lambda_i(0) - lambda_i(1));
-            theta(1, 0) = theta(0, 1);
-
-            theta(0, 2) = (ei(0) - ei(2)) / (lambda_i(0) - lambda_i(2));
-            theta(2, 0) = theta(0, 2);
-
-            theta(1, 2) = di(0) / T(2);
-            theta(2, 1) = theta(1, 2);
-
-            xi(0, 1) = (theta(0, 1) - di(1) / T(2)) / (lambda_i(0) - lambda_i(1));
-            xi(1, 0) = (theta(1, 0) - di(0) / T(2)) / (lambda_i(1) - lambda_i(0));
-
-            xi(0, 2) = (theta(0, 2) - di(2) / T(2)) / (lambda_i(0) - lambda_i(2));
-            xi(2, 0) = (theta(2, 0) - di(0) / T(2)) / (lambda_i(2) - lambda_i(0));
-
-            xi(1, 2) = fi(0) / T(8);
-            xi(2, 1) = xi(1, 2);
-
-            eta = xi(1, 2);
-            break;
-        }
-        default: std::invalid_argument("LogarithmicStrain: Wrong case");
-    }
+    const T eta = priv::log_difference(lambda_i(0), lambda_i(1), lambda_i(2));
 
     return std::make_tuple(theta, xi, eta);
 }
-}
-
-template<typename T>
-std::tuple<static_matrix<T, 3, 3>, static_matrix<T, 3, 3>, T>
-compute_coefficient(const static_vector<T, 3>& lambda_i,
-                    const static_vector<T, 3>& ei,
-                    const static_vector<T, 3>& di,
-                    const static_vector<T, 3>& fi)
-{
-    const int evcase = priv::selectCase(lambda_i);
-    // std::cout << "CASE: " << evcase << std::endl;
-    switch (evcase)
-    {
-        case THREE_DIFF: return priv::compute_three_diff(lambda_i, ei, di); break;
-        case TWO_EQUAL01: return priv::compute_two_equal(lambda_i, ei, di, fi, TWO_EQUAL01); break;
-        case TWO_EQUAL02: return priv::compute_two_equal(lambda_i, ei, di, fi, TWO_EQUAL02); break;
-        case TWO_EQUAL12: return priv::compute_two_equal(lambda_i, ei, di, fi, TWO_EQUAL12); break;
-        case THREE_EQUAL: return priv::compute_three_equal(di, fi); break;
-        default: std::invalid_argument("LogarithmicStrain: Wrong case");
-    }
-
-    return std::make_tuple(static_matrix<T, 3, 3>::Zero(), static_matrix<T, 3, 3>::Zero(), T(0));
-}
 
 // compute projector tensor
 template<typename T>
@@ -437,12 +269,11 @@ compute_projector(const static_matrix<T, 3, 3>& F,
     const std::array<vector_type, 3> ni = compute_ni(F, Ni);
 
     // compute quantites
-    const vector_type ei   = compute_ei(lambda_i);
     const vector_type di   = compute_di(lambda_i);
     const vector_type fi   = compute_fi(lambda_i);
     const matrix_type zeta = compute_zeta(stress_T, Ni);
 
-    const auto        coefficient = compute_coefficient(lambda_i, ei, di, fi);
+    const auto        coefficient = compute_coefficient(lambda_i);
     const matrix_type theta       = std::get<0>(coefficient);
     const matrix_type xi          = std::get<1>(coefficient);
     const T           eta         = std::get<2>(coefficient);
@@ -552,12 +383,11 @@ compute_projector_PK2(const static_matrix<T, 3, 3>& stress_T,
     const std::array<vector_type, 3> Ni = compute_Ni(evec);
 
     // compute quantites
-    const vector_type ei   = compute_ei(lambda_i);
     const vector_type di   = compute_di(lambda_i);
     const vector_type fi   = compute_fi(lambda_i);
     const matrix_type zeta = compute_zeta(stress_T, Ni);
 
-    const auto        coefficient = compute_coefficient(lambda_i, ei, di, fi);
+    const auto        coefficient = compute_coefficient(lambda_i);
     const matrix_type theta       = std::get<0>(coefficient);
     const matrix_type xi          = std::get<1>(coefficient);
     const T           eta         = std::get<2>(coefficient);
-- 
2.43.0


From 86bb41f7e146122d14b41de41ed506d7b2e4119a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 60/78] fix: plastic strains that come back to zero were
 rejected

After a reversed loading that brings the plastic strain back to zero only
rounding errors are left of it, and the trace of rounding errors is not small
in comparison with their norm: the law threw. Compare with the cumulated
plastic strain instead.
---
 .../LinearIsotropicAndKinematicHardening_qp.hpp               | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/laws/LinearIsotropicAndKinematicHardening/LinearIsotropicAndKinematicHardening_qp.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/laws/LinearIsotropicAndKinematicHardening/LinearIsotropicAndKinematicHardening_qp.hpp
index 792f77d..bdeaf7b 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/laws/LinearIsotropicAndKinematicHardening/LinearIsotropicAndKinematicHardening_qp.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/laws/LinearIsotropicAndKinematicHardening/LinearIsotropicAndKinematicHardening_qp.hpp
@@ -164,7 +164,7 @@ class LinearIsotropicAndKinematicHardening_qp : public law_qp_bones<T, DIM>
         const scalar_type          se_eq         = this->sigmaeq(se);
         const scalar_type          Phi_trial     = se_eq - data.getSigma_y0() - data.getH() * m_p_prev;
 
-        if ((std::abs(X_prev.trace()) / X_prev.norm()) > 1E-8)
+        if (std::abs(X_prev.trace()) > 1E-8 * std::abs(data.getK()) * (m_p_prev + this->m_estrain_prev.norm()))
         {
             const std::string mess = "X_trace= " + std::to_string(X_prev.trace()) + " <= 0";
             throw std::invalid_argument(mess);
@@ -222,7 +222,7 @@ class LinearIsotropicAndKinematicHardening_qp : public law_qp_bones<T, DIM>
             m_p_curr             = m_p_prev;
         }
 
-        if ((std::abs(m_pstrain_curr.trace()) / m_pstrain_curr.norm()) > 1E-8)
+        if (std::abs(m_pstrain_curr.trace()) > 1E-8 * (m_p_curr + estrain_trial.norm()))
         {
             const std::string mess = "eps_p= " + std::to_string(m_pstrain_curr.trace()) + " <= 0";
             throw std::invalid_argument(mess);
-- 
2.43.0


From 3419385d4216effd29d4919f4b868a537c62bb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:12 +0000
Subject: [PATCH 61/78] fix: PostMesh of a 1D mesh did not compile

---
 libdiskpp/include/diskpp/output/postMesh.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/output/postMesh.hpp b/libdiskpp/include/diskpp/output/postMesh.hpp
index 8a7375f..a28a0a8 100644
--- a/libdiskpp/include/diskpp/output/postMesh.hpp
+++ b/libdiskpp/include/diskpp/output/postMesh.hpp
@@ -66,7 +66,8 @@ class PostMesh<generic_mesh<T, 1>>
    {
       list_cell_nodes.reserve(msh.cells_size());
       for (auto& cl : msh) {
-         list_cell_nodes.push_back(cell_nodes(msh, cl));
+         const auto pts_cell = cell_nodes(msh, cl);
+         list_cell_nodes.push_back(list_type(pts_cell.begin(), pts_cell.end()));
       }
    };
 
-- 
2.43.0


From d6b5207b723b66f2240f526b7b98cc762ef4574c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:31 +0000
Subject: [PATCH 62/78] fix: silo expressions and vector variables reported
 success on a closed database

---
 libdiskpp/include/diskpp/output/silo.hpp | 26 ++++++++++++++----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/libdiskpp/include/diskpp/output/silo.hpp b/libdiskpp/include/diskpp/output/silo.hpp
index dbf5662..9be743f 100644
--- a/libdiskpp/include/diskpp/output/silo.hpp
+++ b/libdiskpp/include/diskpp/output/silo.hpp
@@ -806,14 +806,14 @@ public:
                       variable_centering_t centering)
     {
         Eigen::Matrix<T, Eigen::Dynamic, 1> c = var.col(0);
-        add_variable(mesh_name, var_name+"_x", c, centering);
+        bool ok = add_variable(mesh_name, var_name+"_x", c, centering);
         c = var.col(1);
-        add_variable(mesh_name, var_name+"_y", c, centering);
+        ok = add_variable(mesh_name, var_name+"_y", c, centering) && ok;
         std::stringstream exprss;
         exprss << "{" << var_name << "_x" << ", " << var_name << "_y" << "}";
-        add_expression(var_name, exprss.str().c_str(), DB_VARTYPE_VECTOR);
+        ok = add_expression(var_name, exprss.str().c_str(), DB_VARTYPE_VECTOR) && ok;
 
-        return true;
+        return ok;
     }
 
     template<typename T>
@@ -823,17 +823,17 @@ public:
                       variable_centering_t centering)
     {
         Eigen::Matrix<T, Eigen::Dynamic, 1> c = var.col(0);
-        add_variable(mesh_name, var_name+"_x", c, centering);
+        bool ok = add_variable(mesh_name, var_name+"_x", c, centering);
         c = var.col(1);
-        add_variable(mesh_name, var_name+"_y", c, centering);
+        ok = add_variable(mesh_name, var_name+"_y", c, centering) && ok;
         c = var.col(2);
-        add_variable(mesh_name, var_name+"_z", c, centering);
+        ok = add_variable(mesh_name, var_name+"_z", c, centering) && ok;
         std::stringstream exprss;
         exprss << "{" << var_name << "_x" << ", " << var_name << "_y";
         exprss << ", " << var_name << "_z" << "}";
-        add_expression(var_name, exprss.str().c_str(), DB_VARTYPE_VECTOR);
+        ok = add_expression(var_name, exprss.str().c_str(), DB_VARTYPE_VECTOR) && ok;
 
-        return true;
+        return ok;
     }
 
     /* Scalar variable, REAL case */
@@ -903,12 +903,16 @@ public:
                         const std::string& expr_definition,
                         int expr_type)
     {
+        if (!m_siloDb) {
+            std::cout << "add_expression(): Database not opened." << std::endl;
+            return false;
+        }
+
         std::stringstream ss;
         ss << "def_" << expr_name;
         const char *name[] = { expr_name.c_str() };
         const char *def[] = { expr_definition.c_str() };
-        DBPutDefvars(m_siloDb, ss.str().c_str(), 1, name, &expr_type, def, NULL);
-        return true;
+        return DBPutDefvars(m_siloDb, ss.str().c_str(), 1, name, &expr_type, def, NULL) == 0;
     }
 };
 
-- 
2.43.0


From b1e3d75688ba41d0add492f291775105e164268b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:33 +0000
Subject: [PATCH 63/78] fix: cells of 1D meshes were converted twice to gmsh

---
 .../include/diskpp/output/gmshConvertMesh.hpp | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/libdiskpp/include/diskpp/output/gmshConvertMesh.hpp b/libdiskpp/include/diskpp/output/gmshConvertMesh.hpp
index 76b4df2..553cd4f 100755
--- a/libdiskpp/include/diskpp/output/gmshConvertMesh.hpp
+++ b/libdiskpp/include/diskpp/output/gmshConvertMesh.hpp
@@ -243,21 +243,21 @@ convertMesh(const Mesh& mesh)
    }
    assert(storage->points.size() == msh.getNumberofNodes());
 
-   // conversion edge
-   size_t nb_edge(0);
-   for (auto edge : storage->edges) {
-      nb_edge += 1;
-      auto list_nodes = edge.point_ids();
-      assert(list_nodes.size() == 2);
-      std::vector<size_t> index_nodes;
-      for (size_t i = 0; i < 2; i++) {
-         index_nodes.push_back(list_nodes[i] + 1);
-      }
+   // conversion edge (in 1D the edges are the cells, which are converted below)
+   if (DIM > 1) {
+      for (auto edge : storage->edges) {
+         auto list_nodes = edge.point_ids();
+         assert(list_nodes.size() == 2);
+         std::vector<size_t> index_nodes;
+         for (size_t i = 0; i < 2; i++) {
+            index_nodes.push_back(list_nodes[i] + 1);
+         }
 
-      gmsh::Edge new_edge(index_nodes, msh.getNumberofElements() + 1, 0, 0);
-      msh.addEdge(new_edge);
+         gmsh::Edge new_edge(index_nodes, msh.getNumberofElements() + 1, 0, 0);
+         msh.addEdge(new_edge);
+      }
+      assert(storage->edges.size() == msh.getEdges().size());
    }
-   assert(storage->edges.size() == msh.getEdges().size());
 
    for (auto& cl : mesh) {
       auto                    nodes_id = cell_nodes(mesh, cl);
-- 
2.43.0


From 55355942ee1ededf420602fd58093d056b1ec18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:33 +0000
Subject: [PATCH 64/78] fix: dump_netgen_format lost digits of the points and
 the boundary numbers

---
 libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp b/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
index b0ca049..91c080e 100644
--- a/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
+++ b/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
@@ -22,6 +22,8 @@
 
 #include <iostream>
 #include <fstream>
+#include <iomanip>
+#include <limits>
 #include <vector>
 #include <array>
 #include <map>
@@ -451,6 +453,7 @@ void
 dump_netgen_format(const disk::simplicial_mesh<T,2>& msh, const std::string& filename)
 {
     std::ofstream ofs(filename);
+    ofs << std::setprecision(std::numeric_limits<T>::max_digits10);
 
     ofs << msh.points_size() << std::endl;
     for (auto itor = msh.points_begin(); itor != msh.points_end(); itor++)
@@ -472,7 +475,7 @@ dump_netgen_format(const disk::simplicial_mesh<T,2>& msh, const std::string& fil
     {
         auto face = *itor;
         auto ptids = face.point_ids();
-        ofs << "1 ";
+        ofs << msh.boundary_id(face) << " ";
         for (auto& pi : ptids)
             ofs << pi+1 << " ";
         ofs << std::endl;
-- 
2.43.0


From 57269af1288a6f3b11f1b9b3bbe38a4d186c6868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:17 +0000
Subject: [PATCH 65/78] fix: orientation of polygonal faces in silo files

---
 libdiskpp/include/diskpp/output/silo.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/libdiskpp/include/diskpp/output/silo.hpp b/libdiskpp/include/diskpp/output/silo.hpp
index 9be743f..32fb0ff 100644
--- a/libdiskpp/include/diskpp/output/silo.hpp
+++ b/libdiskpp/include/diskpp/output/silo.hpp
@@ -73,9 +73,15 @@ silo_face_orientation(const Mesh<T, 3, Storage>& msh,
     auto pts = points(msh, fc);
     assert(pts.size() >= 3);
 
-    auto v0 = (pts[1] - pts[0]).to_vector();
-    auto v1 = (pts[2] - pts[1]).to_vector();
-    auto n = v0.cross(v1);
+    /* Area vector of the face: the first three points can be aligned, or
+     * be at a reflex corner. */
+    static_vector<T, 3> n = static_vector<T, 3>::Zero();
+    for (size_t i = 1; i + 1 < pts.size(); i++)
+    {
+        static_vector<T, 3> v0 = (pts[i] - pts[0]).to_vector();
+        static_vector<T, 3> v1 = (pts[i+1] - pts[0]).to_vector();
+        n += v0.cross(v1);
+    }
 
     auto cell_bar = barycenter(msh, cl);
     auto face_bar = barycenter(msh, fc);
-- 
2.43.0


From 1c88c7f5efc8d60eec6b9bff2fb64e8a06e3097e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:17 +0000
Subject: [PATCH 66/78] fix: conversion of nonconvex polygons to gmsh

---
 libdiskpp/include/diskpp/output/gmshConvertMesh.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libdiskpp/include/diskpp/output/gmshConvertMesh.hpp b/libdiskpp/include/diskpp/output/gmshConvertMesh.hpp
index 553cd4f..eb068b0 100755
--- a/libdiskpp/include/diskpp/output/gmshConvertMesh.hpp
+++ b/libdiskpp/include/diskpp/output/gmshConvertMesh.hpp
@@ -266,6 +266,16 @@ convertMesh(const Mesh& mesh)
          list_nodes.push_back(msh.getNode(nodes_id[i]));
       }
 
+      if constexpr (std::is_same_v<Mesh, generic_mesh<typename Mesh::coordinate_type, 2>>) {
+         // the nodes of a nonconvex polygon cannot be sorted by angle
+         if (!is_convex(mesh, cl)) {
+            for (auto& tri : split_in_raw_triangles_index(mesh, cl)) {
+               add_element(msh, {msh.getNode(tri[0]), msh.getNode(tri[1]), msh.getNode(tri[2])});
+            }
+            continue;
+         }
+      }
+
       add_element(msh, list_nodes);
    }
 
-- 
2.43.0


From 52341f9d56e6698f053f460dfcea6fef24a9e7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:17 +0000
Subject: [PATCH 67/78] fix: conversion of generic hexahedra to gmsh

---
 .../include/diskpp/output/gmshConvertMesh.hpp | 65 +++++++++++++++++++
 1 file changed, 65 insertions(+)

diff --git a/libdiskpp/include/diskpp/output/gmshConvertMesh.hpp b/libdiskpp/include/diskpp/output/gmshConvertMesh.hpp
index eb068b0..9e72838 100755
--- a/libdiskpp/include/diskpp/output/gmshConvertMesh.hpp
+++ b/libdiskpp/include/diskpp/output/gmshConvertMesh.hpp
@@ -25,6 +25,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <array>
 #include <cassert>
 #include <string>
@@ -221,6 +222,55 @@ add_element(gmsh::Gmesh& gmsh, const std::vector<gmsh::Node>& list_nodes)
       assert(false);
 }
 
+/* Nodes of a generic cell which is an hexahedron, in the order of gmsh: the nodes of
+ * a face, then the nodes linked to them by an edge. Empty if it is not an hexahedron. */
+template<typename Mesh>
+std::vector<size_t>
+hexahedron_nodes(const Mesh& mesh, const typename Mesh::cell& cl)
+{
+   using T = typename Mesh::coordinate_type;
+   std::vector<std::vector<size_t>> quads;
+   for (auto& fc : faces(mesh, cl)) {
+      auto ids = fc.point_ids();
+      quads.push_back(std::vector<size_t>(ids.begin(), ids.end()));
+      if (ids.size() != 4)
+         return {};
+   }
+   if (quads.size() != 6)
+      return {};
+
+   const auto bottom = quads[0];
+   auto       ret    = bottom;
+   for (auto node : bottom) {
+      for (size_t q = 1, found = 0; q < quads.size() && !found; q++) {
+         for (size_t i = 0; i < 4; i++) {
+            for (size_t j : {(i + 1) % 4, (i + 3) % 4}) {
+               const bool up = quads[q][i] == node && std::count(bottom.begin(), bottom.end(), quads[q][j]) == 0;
+               if (up && !found) {
+                  ret.push_back(quads[q][j]);
+                  found = 1;
+               }
+            }
+         }
+      }
+   }
+
+   if (ret.size() != 8)
+      return {};
+
+   // counterclockwise seen from inside
+   const auto&                pts = mesh.backend_storage()->points;
+   const static_vector<T, 3> d0  = (pts[ret[2]] - pts[ret[0]]).to_vector();
+   const static_vector<T, 3> d1  = (pts[ret[3]] - pts[ret[1]]).to_vector();
+   const static_vector<T, 3> up  = (pts[ret[4]] - pts[ret[0]]).to_vector();
+   if (d0.cross(d1).dot(up) < T(0)) {
+      std::swap(ret[1], ret[3]);
+      std::swap(ret[5], ret[7]);
+   }
+
+   return ret;
+}
+
 template<typename Mesh>
 gmsh::Gmesh
 convertMesh(const Mesh& mesh)
@@ -276,6 +326,21 @@ convertMesh(const Mesh& mesh)
          }
       }
 
+      if constexpr (std::is_same_v<Mesh, generic_mesh<typename Mesh::coordinate_type, 3>>) {
+         // the nodes of a cartesian cell are sorted by coordinate, not those of a generic one
+         if (nodes_id.size() == 8) {
+            const auto hexa_nodes = hexahedron_nodes(mesh, cl);
+            if (hexa_nodes.size() == 8) {
+               std::vector<size_t> index_nodes;
+               for (auto& id : hexa_nodes)
+                  index_nodes.push_back(id + 1);
+               gmsh::Hexahedron new_hexa(index_nodes, msh.getNumberofElements() + 1, 0, 0);
+               msh.addHexahedron(new_hexa);
+            }
+            continue;
+         }
+      }
+
       add_element(msh, list_nodes);
    }
 
-- 
2.43.0


From 46db701afdba425c1824af5251743c43911bc164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:27 +0000
Subject: [PATCH 68/78] fix: recompute() of the VEM dof mapper forgets the
 previous numbering

---
 .../diskpp/methods/implementation_vem/methods_vem_2d.hpp      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp b/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp
index 0d538b4..6636ca2 100644
--- a/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp
@@ -121,6 +121,10 @@ public:
 
         size_t pts_base = msh.points_size();
 
+        l2g_byface.clear();
+        l2g_bycell.clear();
+        bnd_face_dofs.clear();
+
         /* For each edge in the mesh (edges are ordered lexicographically)
          * compute the offset of all its edge-based dofs */
         for (auto& fc : faces(msh)) {
-- 
2.43.0


From 38e000707742ddf00f0f7bbee1618e59b7987aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:27 +0000
Subject: [PATCH 69/78] fix: elliptic projector of the lowest order VEM on
 general polygons

---
 .../methods/implementation_vem/methods_vem_2d.hpp     | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp b/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp
index 6636ca2..c6425c8 100644
--- a/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp
@@ -292,6 +292,17 @@ matrix_G(const Mesh&    msh,
     const auto cb  = make_scalar_monomial_basis(msh, cl, degree);
     dynamic_matrix<T> stiffness = make_stiffness_matrix(msh, cl, cb);
 
+    if (degree == 1)
+    {
+        /* The mean is taken on the vertices, as in matrix_B() */
+        const auto pts = points(msh, cl);
+        for (auto& pt : pts)
+            stiffness.row(0) += cb.eval_functions(pt).transpose();
+        stiffness.row(0) /= pts.size();
+
+        return stiffness;
+    }
+
     const auto qps = integrate(msh, cl, 2 * (degree - 1));
     for (auto& qp : qps)
     {
-- 
2.43.0


From e510e0f9767dec026f264e609d165f1c891ea425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:27 +0000
Subject: [PATCH 70/78] fix: moments of the elliptic projection in the VEM L2
 projector

---
 .../diskpp/methods/implementation_vem/methods_vem_2d.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp b/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp
index c6425c8..f24ce58 100644
--- a/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp
@@ -558,6 +558,11 @@ projector_zero(const Mesh& msh,
 
     matrix_t H = make_mass_matrix(msh, cl, pb);
 
+    /* Moments of the elliptic projection, which has degree `degree` */
+    const auto mb = make_scalar_monomial_basis(msh, cl, std::max(degree, proj_degree));
+    const auto nbs = scalar_basis_size(degree, Mesh::dimension);
+    matrix_t M = make_mass_matrix(msh, cl, mb).block(0, 0, pbs, nbs);
+
     const auto num_faces = howmany_faces(msh, cl);
     const auto offset = num_faces * degree;
 
@@ -565,7 +570,7 @@ projector_zero(const Mesh& msh,
     if (degree == 1)
     {
         C.resize(pbs, offset);
-        C = H * PIN_star.block(0, 0, pbs, offset);
+        C = M * PIN_star;
     }
     else
     {
@@ -575,7 +580,7 @@ projector_zero(const Mesh& msh,
 
         C.block(0, offset, lbs, lbs) = matrix_t::Identity(lbs, lbs) * measure(msh, cl);
         C.block(lbs, 0, pbs - lbs, num_dofs) =
-            H.block(lbs, 0, pbs - lbs, pbs) * PIN_star.block(0, 0, pbs, num_dofs);
+            M.block(lbs, 0, pbs - lbs, nbs) * PIN_star;
     }
 
     //std::cout << "PIN* \n" << PIN_star << std::endl;
-- 
2.43.0


From b3b83432c41ed01a7b27bbfc02e2236275c27f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:41 +0000
Subject: [PATCH 71/78] fix: integrate_on_primal_faces() on tetrahedra, a
 tetrahedron has four faces

---
 .../include/diskpp/methods/implementation_dga/methods_dga.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp b/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp
index 316cfa2..474a2eb 100644
--- a/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp
@@ -481,7 +481,7 @@ integrate_on_primal_faces(const simplicial_mesh<T, 3>& mesh,
                           const typename simplicial_mesh<T, 3>::volume_type& vol,
                           const vec3<T> vecf)
 {
-    Eigen::Matrix<T, 3, 1> ret;
+    Eigen::Matrix<T, 4, 1> ret;
 
     auto pav = primal_area_vectors(mesh, vol);
 
-- 
2.43.0


From 7f86b8a9ebbad078e4b715151508c037c1ed0e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:34 +0000
Subject: [PATCH 72/78] fix: orientation of the dual edges of a triangle of a
 tetrahedron

---
 .../include/diskpp/methods/implementation_dga/methods_dga.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp b/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp
index 474a2eb..91bf6a9 100644
--- a/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp
@@ -334,8 +334,8 @@ dual_edge_vectors(const simplicial_mesh<T, 3>& mesh,
     auto edgs = edges(mesh, t);
 
     ret[0] =  ( face_bar - barycenter(mesh, edgs[0]) ).to_vector() * sign;
-    ret[1] =  ( face_bar - barycenter(mesh, edgs[1]) ).to_vector() * sign;
-    ret[2] = -( face_bar - barycenter(mesh, edgs[2]) ).to_vector() * sign;
+    ret[1] = -( face_bar - barycenter(mesh, edgs[1]) ).to_vector() * sign;
+    ret[2] =  ( face_bar - barycenter(mesh, edgs[2]) ).to_vector() * sign;
 
     return ret;
 }
-- 
2.43.0


From e83272c139e6648d7bec39373f7b566bf8e7dc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:34 +0000
Subject: [PATCH 73/78] fix: normals of the edges of a triangle point out of it

The opposite of a temporary was also kept beyond its life.
---
 .../diskpp/methods/implementation_dga/methods_dga.hpp       | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp b/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp
index 91bf6a9..c7069d1 100644
--- a/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp
@@ -574,9 +574,9 @@ normals(const simplicial_mesh<T, 3>& mesh,
 
     auto normal = priv::cross(pev[0], pev[2]);
 
-    auto n0 =  priv::cross(pev[0], normal);
-    auto n1 =  priv::cross(pev[1], normal);
-    auto n2 = -priv::cross(pev[2], normal);
+    vec3<T> n0 =  priv::cross(pev[0], normal);
+    vec3<T> n1 = -priv::cross(pev[1], normal);
+    vec3<T> n2 =  priv::cross(pev[2], normal);
 
     ret[0] = n0/n0.norm();
     ret[1] = n1/n1.norm();
-- 
2.43.0


From beea1d54f98e5486d57990ece6722c7a97f59aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:44 +0000
Subject: [PATCH 74/78] fix: faces without unknowns do not take place among the
 unknowns of a cell with contact

---
 .../NewtonSolver/NewtonSolverContact.hpp       | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolverContact.hpp b/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolverContact.hpp
index 40856e7..64d20c8 100644
--- a/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolverContact.hpp
+++ b/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolverContact.hpp
@@ -480,7 +480,8 @@ class contact_contribution
                     }
                 }
             }
-            offset += fbs;
+            if (fdi.hasUnknowns())
+                offset += fbs;
         }
 
         return lhs;
@@ -564,7 +565,8 @@ class contact_contribution
                     }
                 }
             }
-            offset += fbs;
+            if (fdi.hasUnknowns())
+                offset += fbs;
         }
         return rhs;
     }
@@ -645,7 +647,8 @@ class contact_contribution
                     }
                 }
             }
-            offset += fbs;
+            if (fdi.hasUnknowns())
+                offset += fbs;
         }
         return rhs;
     }
@@ -726,7 +729,8 @@ class contact_contribution
                     }
                 }
             }
-            offset += fbs;
+            if (fdi.hasUnknowns())
+                offset += fbs;
         }
 
         return lhs;
@@ -793,7 +797,8 @@ class contact_contribution
                     }
                 }
             }
-            offset += fbs;
+            if (fdi.hasUnknowns())
+                offset += fbs;
         }
         return rhs;
     }
@@ -867,7 +872,8 @@ class contact_contribution
                     }
                 }
             }
-            offset += fbs;
+            if (fdi.hasUnknowns())
+                offset += fbs;
         }
 
         return lhs;
-- 
2.43.0


From 430bb104186b36465efbea484efb65bb0eec0380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:14 +0000
Subject: [PATCH 75/78] fix: vector_laplacian: integrate the Dirichlet data
 accurately enough

The assembler was called with its default quadrature degree, twice the face
degree, which does not integrate the product of the data by the face basis
exactly when the solution belongs to the reconstruction space. On a polygonal
face and with piecewise constants, the data were taken at the average of the
vertices. Do as linear_elasticity does.
---
 apps/vector_laplacian/src/vector_laplacian_solver.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/vector_laplacian/src/vector_laplacian_solver.hpp b/apps/vector_laplacian/src/vector_laplacian_solver.hpp
index 8a902c0..a8f5ea1 100755
--- a/apps/vector_laplacian/src/vector_laplacian_solver.hpp
+++ b/apps/vector_laplacian/src/vector_laplacian_solver.hpp
@@ -205,7 +205,7 @@ class vector_laplacian_solver
           tc.toc();
           ai.time_statcond += tc.elapsed();
 
-          m_assembler.assemble(m_msh, cl, m_bnd, std::get<0>(scnp));
+          m_assembler.assemble(m_msh, cl, m_bnd, std::get<0>(scnp), 2);
       }
 
       m_assembler.impose_neumann_boundary_conditions(m_msh, m_bnd);
@@ -257,7 +257,7 @@ class vector_laplacian_solver
 
       m_solution_data.reserve(m_msh.cells_size());
 
-      const auto solF = m_assembler.expand_solution(m_msh, m_bnd, m_system_solution);
+      const auto solF = m_assembler.expand_solution(m_msh, m_bnd, m_system_solution, 2);
 
       timecounter tc;
       tc.tic();
-- 
2.43.0


From cdab361e1bc60af3e9e2242bdcce83fbdd00749a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:50 +0000
Subject: [PATCH 76/78] fix: stokes_assembler: project the boundary velocity
 once

assemble() projected the Dirichlet data with a quadrature increment equal to
the face degree, take_velocity() with 2. With piecewise constants the former
takes the data at the average of the vertices of the face, so the velocity in
the cell and the one given back on the boundary did not agree.
---
 .../include/diskpp/methods/implementation_hho/assembler_hho.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
index 6a06d70..6060e1d 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
@@ -684,7 +684,7 @@ class stokes_assembler
                 auto dirichlet_fun = m_bnd.dirichlet_boundary_func(face_id);
 
                 dirichlet_data.block(cbs_A + face_i * fbs_A, 0, fbs_A, 1) =
-                  project_function(msh, fc, di.face_degree(), dirichlet_fun, di.face_degree());
+                  project_function(msh, fc, di.face_degree(), dirichlet_fun, 2);
             }
         }
 
-- 
2.43.0


From 129855dac93fc6baf7b264a4fb37d8e20a79dae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:01 +0000
Subject: [PATCH 77/78] fix: rational numbers with negative denominators (sign
 of gcd, division by a negative integer)

---
 libdiskpp/include/diskpp/mesh/rational.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/mesh/rational.hpp b/libdiskpp/include/diskpp/mesh/rational.hpp
index 320e067..3f22073 100644
--- a/libdiskpp/include/diskpp/mesh/rational.hpp
+++ b/libdiskpp/include/diskpp/mesh/rational.hpp
@@ -47,7 +47,7 @@ template<typename I>
 I gcd(I a, I b)
 {
     if (b == 0)
-       return a;
+       return (a < 0) ? -a : a;
 
     return gcd(b, a%b);
 }
@@ -215,6 +215,7 @@ public:
     rational operator/=(I other)
     {
         m_den *= other;
+        adjust_signs();
         assert(m_den != 0);
         return *this;
     }
-- 
2.43.0


From f14634ddaa495078f8955b8132533c0cd35835ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:37 +0000
Subject: [PATCH 78/78] fix: measure of a triangle with rational coordinates
 was twice its area

---
 libdiskpp/include/diskpp/geometry/geometry_simplicial.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/geometry/geometry_simplicial.hpp b/libdiskpp/include/diskpp/geometry/geometry_simplicial.hpp
index 798ecc6..01610c4 100644
--- a/libdiskpp/include/diskpp/geometry/geometry_simplicial.hpp
+++ b/libdiskpp/include/diskpp/geometry/geometry_simplicial.hpp
@@ -357,7 +357,7 @@ measure(const simplicial_mesh<rational<T>, 2>&                msh,
     const auto d0 = (pts[1] - pts[0]);
     const auto d1 = (pts[2] - pts[0]);
 
-    const auto area = d0.x() * d1.y() - d1.x() * d0.y();
+    const auto area = (d0.x() * d1.y() - d1.x() * d0.y()) / T(2);
 
     if (signed_volume)
     {
-- 
2.43.0

