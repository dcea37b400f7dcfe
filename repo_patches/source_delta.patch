From dfdd79434a9ab17e65ff928d473e28734cb12524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:59 +0000
Subject: [PATCH 01/17] fix: multiply every column in rectangular Mat products

---
 include/um2/math/mat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/um2/math/mat.hpp b/include/um2/math/mat.hpp
index 7f00676..18693cf 100644
--- a/include/um2/math/mat.hpp
+++ b/include/um2/math/mat.hpp
@@ -238,7 +238,7 @@ operator*(Mat<M, N, T> const & a, Mat<N, P, T> const & b) noexcept -> Mat<M, P,
 #pragma GCC diagnostic push
 #pragma GCC diagnostic ignored "-Wuninitialized"
   Mat<M, P, T> result;
-  for (Int i = 0; i < N; ++i) {
+  for (Int i = 0; i < P; ++i) {
     result.col(i) = a * b.col(i);
   }
   return result;
-- 
2.43.0


From 03aadfd6e65248c6667ac0a59546dfb4138765e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:45 +0000
Subject: [PATCH 02/17] fix: flip all mid-edge nodes of eight-node
 quadrilaterals

---
 include/um2/geometry/quadratic_quadrilateral.hpp | 1 +
 include/um2/mesh/face_vertex_mesh.hpp            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/um2/geometry/quadratic_quadrilateral.hpp b/include/um2/geometry/quadratic_quadrilateral.hpp
index e2d4bab..2640bf0 100644
--- a/include/um2/geometry/quadratic_quadrilateral.hpp
+++ b/include/um2/geometry/quadratic_quadrilateral.hpp
@@ -273,6 +273,7 @@ QuadraticQuadrilateral<D, T>::flip() noexcept
 {
   um2::swap(_v[1], _v[3]);
   um2::swap(_v[4], _v[7]);
+  um2::swap(_v[5], _v[6]);
 }
 
 //==============================================================================
diff --git a/include/um2/mesh/face_vertex_mesh.hpp b/include/um2/mesh/face_vertex_mesh.hpp
index 8a35846..b7944f0 100644
--- a/include/um2/mesh/face_vertex_mesh.hpp
+++ b/include/um2/mesh/face_vertex_mesh.hpp
@@ -422,6 +422,7 @@ FaceVertexMesh<P, N>::flipFace(Int i) noexcept
   } else if constexpr (P == 2 && N == 8) {
     um2::swap(_fv[i][1], _fv[i][3]);
     um2::swap(_fv[i][4], _fv[i][7]);
+    um2::swap(_fv[i][5], _fv[i][6]);
   }
 }
 
-- 
2.43.0


From 3f0a70b1096bd0511888ef09f21d0c0ab59f208f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:52 +0000
Subject: [PATCH 03/17] fix: call the box accessors in the RegularGrid box
 constructor

---
 include/um2/mesh/regular_grid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/um2/mesh/regular_grid.hpp b/include/um2/mesh/regular_grid.hpp
index 76f2a26..8f5d1d7 100644
--- a/include/um2/mesh/regular_grid.hpp
+++ b/include/um2/mesh/regular_grid.hpp
@@ -165,8 +165,8 @@ HOSTDEV constexpr RegularGrid<D, T>::RegularGrid(Point<D, T> const & minima,
 template <Int D, class T>
 HOSTDEV constexpr RegularGrid<D, T>::RegularGrid(
     AxisAlignedBox<D, T> const & box) noexcept
-    : _minima(box.minima),
-      _spacing(box.maxima - box.minima)
+    : _minima(box.minima()),
+      _spacing(box.maxima() - box.minima())
 {
   for (Int i = 0; i < D; ++i) {
     _num_cells[i] = 1;
-- 
2.43.0


From 7cbf5c7301e53a2cc51a2afc37301488385cfb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:12:40 +0000
Subject: [PATCH 04/17] fix: overwrite the output in the built-in matmul

---
 include/um2/math/matrix.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/um2/math/matrix.hpp b/include/um2/math/matrix.hpp
index e8b7c35..38c92f1 100644
--- a/include/um2/math/matrix.hpp
+++ b/include/um2/math/matrix.hpp
@@ -475,6 +475,7 @@ matmul(Matrix<T> & c, Matrix<T> const & a, Matrix<T> const & b)
   ASSERT(c.rows() == a.rows());
   ASSERT(c.cols() == b.cols());
 
+  c.zero();
   for (Int i = 0; i < a.rows(); ++i) {
     for (Int j = 0; j < b.cols(); ++j) {
       for (Int k = 0; k < a.cols(); ++k) {
-- 
2.43.0


From e9c08d0a68428f30325c3e759f3528579a22d976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:50:25 +0000
Subject: [PATCH 05/17] fix: do not add a mesh when addRectangularPinMesh is
 refused

The empty mesh was appended before the arguments were checked, so an
invalid request left it behind when errors do not exit the program.
---
 src/mpact/model.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index 9e4a9b8..4a4fa96 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -718,8 +718,6 @@ Model::addRectangularPinMesh(Vec2F const xy_extents, Int const nx_faces,
 {
   Int const mesh_id = _quads.size();
   LOG_DEBUG("Adding rectangular pin mesh ", mesh_id);
-  _quads.emplace_back();
-  auto & mesh = _quads.back();
 
   if (xy_extents[0] <= 0 || xy_extents[1] <= 0) {
     logger::error("Pin dimensions must be positive");
@@ -730,6 +728,9 @@ Model::addRectangularPinMesh(Vec2F const xy_extents, Int const nx_faces,
     return -1;
   }
 
+  _quads.emplace_back();
+  auto & mesh = _quads.back();
+
   // Make the vertices
   auto & vertices = mesh.vertices();
   vertices.resize((nx_faces + 1) * (ny_faces + 1));
-- 
2.43.0


From d6be46b8a28f2a7a00131d3e70d9b700e12d477d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:50:25 +0000
Subject: [PATCH 06/17] fix: leave the model unchanged when
 addCylindricalPinCell is refused

The mesh was added before the materials were checked, and a refused
mesh still produced a coarse cell without a mesh.
---
 src/mpact/model.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index 4a4fa96..e343093 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -658,10 +658,6 @@ Model::addCylindricalPinCell(Float const pitch, Vector<Float> const & radii,
                              Vector<Int> const & num_rings, Int const num_azimuthal,
                              Int const mesh_order) -> Int
 {
-  // Make the mesh
-  Int const mesh_id =
-      addCylindricalPinMesh(pitch, radii, num_rings, num_azimuthal, mesh_order);
-
   // We need 1 more material than the number of rings
   if (materials.size() != num_rings.size() + 1) {
     logger::error("The number of materials must be one more than the number of rings");
@@ -685,6 +681,13 @@ Model::addCylindricalPinCell(Float const pitch, Vector<Float> const & radii,
     }
   }
 
+  // Make the mesh
+  Int const mesh_id =
+      addCylindricalPinMesh(pitch, radii, num_rings, num_azimuthal, mesh_order);
+  if (mesh_id == -1) {
+    return -1;
+  }
+
   Vec2F const xy_extents(pitch, pitch);
   MeshType const mesh_type = mesh_order == 1 ? MeshType::Quad : MeshType::QuadraticQuad;
 
-- 
2.43.0


From 348cb4833d43268a6510b6478d86e1f187987cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:06:52 +0000
Subject: [PATCH 07/17] fix: keep the value when an element of a full vector is
 appended to it

push_back and emplace_back moved the old elements to the new buffer before
constructing the new element.  When the argument refers to an element of the
same vector, the new element was copied from a moved-from object.
---
 include/um2/stdlib/vector.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/um2/stdlib/vector.hpp b/include/um2/stdlib/vector.hpp
index 6560658..43bf419 100644
--- a/include/um2/stdlib/vector.hpp
+++ b/include/um2/stdlib/vector.hpp
@@ -362,8 +362,10 @@ Vector<T>::emplaceBackSlowPath(Args &&... args) noexcept -> Ptr
 {
   Vector<T> temp;
   temp.allocate(recommend(size() + 1));
+  // The arguments may refer to an element of this vector, so construct the new
+  // element before the old ones are moved from
+  um2::construct_at(temp._begin + size(), um2::forward<Args>(args)...);
   swapBuffers(temp);
-  um2::construct_at(_end, um2::forward<Args>(args)...);
   ++_end;
   return _end;
 }
@@ -376,8 +378,10 @@ Vector<T>::pushBackSlowPath(U && value) noexcept -> Ptr
 {
   Vector<T> temp;
   temp.allocate(recommend(size() + 1));
+  // The arguments may refer to an element of this vector, so construct the new
+  // element before the old ones are moved from
+  um2::construct_at(temp._begin + size(), um2::forward<U>(value));
   swapBuffers(temp);
-  um2::construct_at(_end, um2::forward<U>(value));
   ++_end;
   return _end;
 }
-- 
2.43.0


From efe106b3b3f2c00cc87fe8fa604208627ddecf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:11:50 +0000
Subject: [PATCH 08/17] fix: allow empty string views

Copying or comparing an empty string aborted because the view constructor
asserted a positive length.
---
 include/um2/stdlib/string_view.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/um2/stdlib/string_view.hpp b/include/um2/stdlib/string_view.hpp
index 95bacd8..c8836f1 100644
--- a/include/um2/stdlib/string_view.hpp
+++ b/include/um2/stdlib/string_view.hpp
@@ -228,7 +228,6 @@ HOSTDEV constexpr StringView::StringView(char const * s, uint64_t size) noexcept
       _size(size)
 {
   ASSERT(s != nullptr);
-  ASSERT(size > 0);
 }
 
 HOSTDEV constexpr StringView::StringView(char const * s) noexcept
-- 
2.43.0


From b58d5ea351075311a18c18a25816deafb171a4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:51:50 +0000
Subject: [PATCH 09/17] fix: reject cell indices outside a grid

The index check of rectilinear grids allowed one cell too many, and neither
grid kind rejected negative indices, so a neighbouring row was returned.
---
 include/um2/mesh/rectilinear_grid.hpp | 3 ++-
 include/um2/mesh/regular_grid.hpp     | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/um2/mesh/rectilinear_grid.hpp b/include/um2/mesh/rectilinear_grid.hpp
index 16a7250..e71184a 100644
--- a/include/um2/mesh/rectilinear_grid.hpp
+++ b/include/um2/mesh/rectilinear_grid.hpp
@@ -350,7 +350,8 @@ PURE HOSTDEV [[nodiscard]] constexpr auto
 RectilinearGrid<D, T>::getFlatIndex(Vec<D, Int> const & index) const noexcept -> Int
 {
   for (Int i = 0; i < D; ++i) {
-    ASSERT(index[i] < _divs[i].size());
+    ASSERT(0 <= index[i]);
+    ASSERT(index[i] < numCells(i));
   }
   // For D = 1, 2, 3, write out the explicit formulas
   if constexpr (D == 1) {
diff --git a/include/um2/mesh/regular_grid.hpp b/include/um2/mesh/regular_grid.hpp
index 8f5d1d7..71e4da8 100644
--- a/include/um2/mesh/regular_grid.hpp
+++ b/include/um2/mesh/regular_grid.hpp
@@ -309,6 +309,7 @@ PURE HOSTDEV [[nodiscard]] constexpr auto
 RegularGrid<D, T>::getFlatIndex(Vec<D, Int> const & index) const noexcept -> Int
 {
   for (Int i = 0; i < D; ++i) {
+    ASSERT(0 <= index[i]);
     ASSERT(index[i] < _num_cells[i]);
   }
   // For D = 1, 2, 3, write out the explicit formulas
-- 
2.43.0


From b5ce6fefd6fcc46f0e92f00c6edd18d78fc514ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:30:38 +0000
Subject: [PATCH 10/17] fix: clear the data of an element set without data

Reading a set that has no data left the caller with the data of the set
read before.
---
 src/mesh/polytope_soup.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index f9af604..3f2948c 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -74,9 +74,7 @@ PolytopeSoup::getElset(Int const i, String & name, Vector<Int> & ids,
   auto const n = iend - istart;
   ids.resize(n);
   um2::copy(_elset_ids.cbegin() + istart, _elset_ids.cbegin() + iend, ids.begin());
-  if (!_elset_data[i].empty()) {
-    data = _elset_data[i];
-  }
+  data = _elset_data[i];
 }
 
 void
@@ -90,9 +88,7 @@ PolytopeSoup::getElset(String const & name, Vector<Int> & ids, Vector<Float> & d
       auto const n = iend - istart;
       ids.resize(n);
       um2::copy(_elset_ids.cbegin() + istart, _elset_ids.cbegin() + iend, ids.begin());
-      if (!_elset_data[i].empty()) {
-        data = _elset_data[i];
-      }
+      data = _elset_data[i];
       return;
     }
   }
-- 
2.43.0


From 673e239047a0cf5d3e2a7bd39a737a730efe7239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:30:38 +0000
Subject: [PATCH 11/17] fix: append an empty soup and append a soup to itself

Both read past the end of the element offsets or vertices.
---
 src/mesh/polytope_soup.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index 3f2948c..00c07b1 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -253,6 +253,11 @@ auto
 // NOLINTNEXTLINE(readability-function-cognitive-complexity)
 PolytopeSoup::operator+=(PolytopeSoup const & other) noexcept -> PolytopeSoup &
 {
+  if (this == &other) {
+    PolytopeSoup const copy(other);
+    return *this += copy;
+  }
+
   // Vertices
   auto const this_num_verts = numVertices();
   auto const other_num_verts = other.numVertices();
@@ -268,10 +273,12 @@ PolytopeSoup::operator+=(PolytopeSoup const & other) noexcept -> PolytopeSoup &
             _element_types.begin() + this_num_elems);
 
   // Element offsets
-  Int const last_offset = _element_offsets.empty() ? 0 : _element_offsets.back();
-  _element_offsets.resize(this_num_elems + other_num_elems + 1);
-  for (Int i = 0; i < other_num_elems + 1; ++i) {
-    _element_offsets[this_num_elems + i] = other._element_offsets[i] + last_offset;
+  if (other_num_elems != 0) {
+    Int const last_offset = _element_offsets.empty() ? 0 : _element_offsets.back();
+    _element_offsets.resize(this_num_elems + other_num_elems + 1);
+    for (Int i = 0; i < other_num_elems + 1; ++i) {
+      _element_offsets[this_num_elems + i] = other._element_offsets[i] + last_offset;
+    }
   }
 
   // Element connectivity
-- 
2.43.0


From ecde65973b95227e4544557d2fd619d5bbc17aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:30:38 +0000
Subject: [PATCH 12/17] fix: copy all vertices of a soup that is not planar

The loop stopped at the first vertex off the plane, leaving the others at
the origin.
---
 src/mesh/face_vertex_mesh.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mesh/face_vertex_mesh.cpp b/src/mesh/face_vertex_mesh.cpp
index 58e7d88..c837d92 100644
--- a/src/mesh/face_vertex_mesh.cpp
+++ b/src/mesh/face_vertex_mesh.cpp
@@ -75,7 +75,9 @@ FaceVertexMesh<P, N>::FaceVertexMesh(PolytopeSoup const & soup, bool validate)
     auto const & p = soup.getVertex(i);
     _v[i][0] = p[0];
     _v[i][1] = p[1];
-    if (um2::abs(p[2] - z) > epsDistance<Float>()) {
+  }
+  for (Int i = 0; i < num_vertices; ++i) {
+    if (um2::abs(soup.getVertex(i)[2] - z) > epsDistance<Float>()) {
       LOG_WARN(
           "Constructing a FaceVertexMesh from a PolytopeSoup with non-planar vertices");
       break;
-- 
2.43.0


From ac6bb9f07627209c3e7c4d446ae229021619291a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:30:38 +0000
Subject: [PATCH 13/17] fix: sort meshes away from the origin along the Morton
 curve

Coordinates were scaled but not shifted to the unit square.
---
 src/mesh/face_vertex_mesh.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mesh/face_vertex_mesh.cpp b/src/mesh/face_vertex_mesh.cpp
index c837d92..ce00929 100644
--- a/src/mesh/face_vertex_mesh.cpp
+++ b/src/mesh/face_vertex_mesh.cpp
@@ -135,6 +135,9 @@ FaceVertexMesh<P, N>::mortonSortFaces() noexcept
   // all faces.
   auto const aabb = boundingBox();
   Vec2F const inv_scale = 1 / aabb.extents();
+  for (auto & centroid : centroids) {
+    centroid -= aabb.minima();
+  }
 
   // Get the permutation vector which sorts the centroids according to the morton
   // encoding.
@@ -163,7 +166,11 @@ FaceVertexMesh<P, N>::mortonSortVertices() noexcept
   Int const num_verts = numVertices();
   Vector<Int> perm(num_verts);
   Vector<Int> inv_perm(num_verts);
-  mortonSortPermutation(_v.cbegin(), _v.cend(), perm.begin(), inv_scale);
+  Vector<Point2F> shifted = _v;
+  for (auto & p : shifted) {
+    p -= aabb.minima();
+  }
+  mortonSortPermutation(shifted.cbegin(), shifted.cend(), perm.begin(), inv_scale);
   invertPermutation(perm.cbegin(), perm.cend(), inv_perm.begin());
 
   // Sort the vertices according to the permutation vector.
-- 
2.43.0


From c0eb4dbad9543531fbae83a89ed4273d7985a56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:30:38 +0000
Subject: [PATCH 14/17] fix: report a face listed twice as overlapping

Two edges of the same orientation were taken for an interior edge.
---
 src/mesh/face_vertex_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/face_vertex_mesh.cpp b/src/mesh/face_vertex_mesh.cpp
index ce00929..633d3dd 100644
--- a/src/mesh/face_vertex_mesh.cpp
+++ b/src/mesh/face_vertex_mesh.cpp
@@ -382,7 +382,7 @@ checkManifoldWatertight(FaceVertexMesh<P, N> const & mesh)
   for (Int i = 0; i < edge_counts.size(); ++i) {
     auto const & edge_count = edge_counts[i];
     Int const sum = edge_count[0] + edge_count[1];
-    if (sum > 2) {
+    if (edge_count[0] > 1 || edge_count[1] > 1) {
       LOG_ERROR("Mesh has overlapping faces");
       return;
     }
-- 
2.43.0


From f9a74a258266ee41f2d7fddf2197e0367df09e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:44:23 +0000
Subject: [PATCH 15/17] fix: keep a lattice's own number when reading a model

---
 src/mpact/model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index e343093..0212391 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -2600,7 +2600,7 @@ readXDMFFile(String const & filename, Model & model)
       }
 
       LOG_DEBUG("New lattice ID: ", lattice_id);
-      lattice_ids.emplace_back(assembly_id);
+      lattice_ids.emplace_back(lattice_id);
 
       // Get NX by NY size of the lattice
       Int lattice_nx = 0;
-- 
2.43.0


From 6a2126bab86b883a0e45364ca4072a0fcfe7208c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:17:27 +0000
Subject: [PATCH 16/17] fix: build the model without HDF5 or pugixml

The XDMF functions of the model used HDF5 and pugixml even when the
library is configured without them, so model.cpp did not compile.
Reading and writing XDMF files is now only compiled when XDMF is enabled.
---
 src/mpact/model.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index 0212391..044fb10 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -1529,6 +1529,7 @@ Model::operator PolytopeSoup() const noexcept
 namespace
 {
 
+#if UM2_HAS_XDMF
 void
 // NOLINTNEXTLINE(readability-function-cognitive-complexity)
 writeXDMFFile(String const & filepath, Model const & model,
@@ -1951,6 +1952,7 @@ writeXDMFFile(String const & filepath, Model const & model,
 
   LOG_INFO("XDMF file written successfully");
 } // writeXDMFFile
+#endif // UM2_HAS_XDMF
 
 void
 writeInputFile(String const & filename, Model const & model)
@@ -2221,11 +2223,17 @@ void
 Model::write(String const & filename, bool const write_knudsen_data,
              bool const write_xsec_data) const
 {
+#if UM2_HAS_XDMF
   if (filename.ends_with(".xdmf")) {
     writeXDMFFile(filename, *this, write_knudsen_data, write_xsec_data);
   } else {
     logger::error("Unsupported file format.");
   }
+#else
+  (void)write_knudsen_data;
+  (void)write_xsec_data;
+  logger::error("Unsupported file format.");
+#endif
   // Write the MPACT input file
   writeInputFile(filename, *this);
   // Write the volumes of each material
@@ -2234,6 +2242,7 @@ Model::write(String const & filename, bool const write_knudsen_data,
   writeCrossSections(filename, *this);
 }
 
+#if UM2_HAS_XDMF
 //==============================================================================
 // readXDMFFile
 //==============================================================================
@@ -2961,6 +2970,8 @@ readXDMFFile(String const & filename, Model & model)
 
 } // namespace
 
+#endif // UM2_HAS_XDMF
+
 //==============================================================================
 // read
 //==============================================================================
@@ -2968,11 +2979,13 @@ readXDMFFile(String const & filename, Model & model)
 void
 Model::read(String const & filename)
 {
+#if UM2_HAS_XDMF
   if (filename.ends_with(".xdmf")) {
     readXDMFFile(filename, *this);
-  } else {
-    logger::error("Unsupported file format.");
+    return;
   }
+#endif
+  logger::error("Unsupported file format.");
 }
 
 //==============================================================================
-- 
2.43.0


From a231ec9b98e99a11a88367593ad93470a967f36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:17:27 +0000
Subject: [PATCH 17/17] fix: compile the length of one-dimensional quadratic
 segments

isStraight used the cross product, which has no one-dimensional form.
A segment on a line is always straight.
---
 include/um2/geometry/quadratic_segment.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/um2/geometry/quadratic_segment.hpp b/include/um2/geometry/quadratic_segment.hpp
index 47b58ec..807c385 100644
--- a/include/um2/geometry/quadratic_segment.hpp
+++ b/include/um2/geometry/quadratic_segment.hpp
@@ -282,10 +282,13 @@ isStraight(QuadraticSegment<D, T> const & q) noexcept -> bool
   if (v20_sq >= v10_sq) {
     return false;
   }
-  auto const cp = v10.cross(v20);
-  if constexpr (D == 2) {
+  if constexpr (D == 1) {
+    return true;
+  } else if constexpr (D == 2) {
+    auto const cp = v10.cross(v20);
     return (cp * cp) / v10_sq < epsDistance2<T>();
   } else {
+    auto const cp = v10.cross(v20);
     return cp.squaredNorm() / v10_sq < epsDistance2<T>();
   }
 }
-- 
2.43.0

