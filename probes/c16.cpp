#include "probe.hpp"
#include "../src/um2c.cpp"
#include "../src/mpact/model.cpp"
#include "../src/mesh/face_vertex_mesh.cpp"
#include "../src/physics/material.cpp"
#include "../src/physics/cross_section.cpp"
#include "world.hpp"
// clang-format off
#define P(name) extern "C" void probe_##name(double const * __restrict in, MatID const * __restrict mats, double * __restrict out, void const ** __restrict ptr)
P(parts)
{
  Model model;
  worldParts(model);
  worldPartValues(model, in);
  void * const m = &model;
  Int a, b;
  Float x;
  Int k = 0;
  um2MPACTNumCoarseCells(m, &a); out[k++] = a;
  um2MPACTNumRTMs(m, &a); out[k++] = a;
  um2MPACTNumLattices(m, &a); out[k++] = a;
  um2MPACTNumAssemblies(m, &a); out[k++] = a;
  um2MPACTCoreNumCells(m, &a, &b); out[k++] = a; out[k++] = b;
  k = 10;
  for (Int i = 0; i < 3; ++i) { um2MPACTAssemblyNumCells(m, i, &a); out[k++] = a; }
  for (Int i = 0; i < 2; ++i) { um2MPACTLatticeNumCells(m, i, &a, &b); out[k++] = a; out[k++] = b; }
  for (Int i = 0; i < 4; ++i) { um2MPACTRTMNumCells(m, i, &a, &b); out[k++] = a; out[k++] = b; }
  k = 40;
  for (Int i = 0; i < 4; ++i) { um2MPACTRTMWidth(m, i, &x); out[k++] = x; um2MPACTRTMHeight(m, i, &x); out[k++] = x; }
  k = 50;
  Float h[4];
  for (Int i = 0; i < 3; ++i) { um2MPACTAssemblyHeights(m, i, h); for (Int j = 0; j < model.getAssembly(i).children().size(); ++j) out[k++] = h[j]; }
  k = 100;
  for (Int i = 0; i < 3; ++i) for (Int j = 0; j < 2; ++j) { um2MPACTCoreGetChild(m, i, j, &a); out[k++] = a; }
  for (Int i = 0; i < 3; ++i) for (Int j = 0; j < model.getAssembly(i).children().size(); ++j) { um2MPACTAssemblyGetChild(m, i, j, &a); out[k++] = a; }
  for (Int n = 0; n < 2; ++n) for (Int i = 0; i < 2; ++i) for (Int j = 0; j < 3; ++j) { um2MPACTLatticeGetChild(m, n, i, j, &a); out[k++] = a; }
  for (Int n = 0; n < 4; ++n) for (Int i = 0; i < 2; ++i) for (Int j = 0; j < (n == 2 ? 2 : 1); ++j) { um2MPACTRTMGetChild(m, n, i, j, &a); out[k++] = a; }
}
[[gnu::noinline]] static void
cells(Model & model, double const * in, MatID const * mats)
{
  for (Int i = 0; i < 8; ++i) model.addCoarseCell({1, 1});
  worldMeshes(model);
  worldMeshValues(model, in);
  worldCellMeshes(model);
  worldCellValues(model, in, mats);
}
P(cells)
{
  Model model;
  cells(model, in, mats);
  void * const m = &model;
  for (Int i = 0; i < 8; ++i) {
    double * o = out + 20 * i;
    Int a;
    Float x, y;
    um2MPACTCoarseCellNumFaces(m, i, &a); o[0] = a;
    um2MPACTCoarseCellWidth(m, i, &x); o[1] = x;
    um2MPACTCoarseCellHeight(m, i, &y); o[2] = y;
    MatID ids[4];
    um2MPACTCoarseCellMaterialIDs(m, i, ids);
    Float ar[4];
    um2MPACTCoarseCellFaceAreas(m, i, ar);
    for (Int j = 0; j < CELLS[i].faces; ++j) {
      o[3 + j] = ids[j];
      o[6 + j] = ar[j];
      um2MPACTCoarseCellFaceCentroid(m, i, j, &x, &y);
      o[9 + 2 * j] = x;
      o[10 + 2 * j] = y;
    }
  }
}
P(data)
{
  Model model;
  cells(model, in, mats);
  void * const m = &model;
  for (Int i = 0; i < 8; ++i) {
    double * o = out + 100 * i;
    Int t, nv, nf;
    Float * v;
    Int * fv;
    um2MPACTCoarseCellFaceData(m, i, &t, &nv, &nf, &v, &fv);
    o[0] = t; o[1] = nv; o[2] = nf;
    for (Int j = 0; j < 2 * nv; ++j) o[10 + j] = v[j];
    Int const n = t == static_cast<Int>(MeshType::Tri) ? 3 : t == static_cast<Int>(MeshType::Quad) ? 4 : t == static_cast<Int>(MeshType::QuadraticTri) ? 6 : 8;
    for (Int j = 0; j < nf * n; ++j) o[40 + j] = fv[j];
    um2Free(v);
    um2Free(fv);
  }
}
static inline auto
meshOf(Model const & m, CellMesh const & c) -> void const *
{
  switch (c.type) {
  case MeshType::Tri: return &m.getTriMesh(c.id);
  case MeshType::Quad: return &m.getQuadMesh(c.id);
  case MeshType::QuadraticTri: return &m.getTri6Mesh(c.id);
  default: return &m.getQuad8Mesh(c.id);
  }
}
P(find)
{
  Model model;
  cells(model, in, mats);
  void * const m = &model;
  for (Int i = 0; i < 8; ++i) {
    Int a;
    ptr[i] = meshOf(model, CELLS[i]);
    um2MPACTCoarseCellFaceContaining(m, i, in[950 + 2 * i], in[951 + 2 * i], &a);
    out[i] = a;
  }
}
P(cross)
{
  Model model;
  cells(model, in, mats);
  void * const m = &model;
  for (Int i = 0; i < 8; ++i) {
    Int n;
    ptr[i] = meshOf(model, CELLS[i]);
    double const * r = in + 950 + 4 * i;
    Float b[8];
    um2MPACTIntersectCoarseCell(m, i, r[0], r[1], r[2], r[3], b, &n);
    out[10 * i] = n;
    for (Int j = 0; j < n; ++j) out[10 * i + 1 + j] = b[j];
  }
}
[[gnu::noinline]] static void
badCell(Model & model)
{
  for (Int i = 0; i < 2; ++i) model.addCoarseCell({1, 1});
  worldMeshes(model);
  auto & c = const_cast<Model::CoarseCell &>(model.getCoarseCell(1));
  c.mesh_id = 0;
  c.mesh_type = MeshType::Invalid;
}
P(bad_areas) { Model model; badCell(model); Float a[8]; um2MPACTCoarseCellFaceAreas(&model, 1, a); }
P(bad_find) { Model model; badCell(model); Int a = 0; um2MPACTCoarseCellFaceContaining(&model, 1, in[0], in[1], &a); }
P(bad_centroid) { Model model; badCell(model); Float a, b; um2MPACTCoarseCellFaceCentroid(&model, 1, 0, &a, &b); }
P(bad_cross) { Model model; badCell(model); Float a[8]; Int n = 0; um2MPACTIntersectCoarseCell(&model, 1, in[0], in[1], in[2], in[3], a, &n); out[0] = n; }
P(bad_data) { Model model; badCell(model); Int t, nv, nf; Float * v; Int * fv; um2MPACTCoarseCellFaceData(&model, 1, &t, &nv, &nf, &v, &fv); }
// heights: thicknesses 1, 2, 1 + small, ...
P(heights)
{
  Model model;
  worldParts(model);
  Float const z[3][4] = {{0, 3, 5, 5}, {0, 2, 5, 9}, {0, 4, 4, 4}};
  for (Int i = 0; i < 3; ++i) { auto & v = const_cast<RectilinearGrid1F &>(model.getAssembly(i).grid()).divs(0); for (Int j = 0; j < v.size(); ++j) v[j] = in[i] + z[i][j]; }
  Int n;
  Int * ids;
  Float * h;
  um2MPACTLatticeHeights(&model, &n, &ids, &h);
  out[0] = n;
  for (Int i = 0; i < n; ++i) { out[1 + 2 * i] = ids[i]; out[2 + 2 * i] = h[i]; }
  um2Free(ids); um2Free(h);
  um2MPACTRTMHeights(&model, &n, &ids, &h);
  out[100] = n;
  for (Int i = 0; i < n; ++i) { out[101 + 2 * i] = ids[i]; out[102 + 2 * i] = h[i]; }
  um2Free(ids); um2Free(h);
  um2MPACTCoarseCellHeights(&model, &n, &ids, &h);
  out[200] = n;
  for (Int i = 0; i < n; ++i) { out[201 + 2 * i] = ids[i]; out[202 + 2 * i] = h[i]; }
  um2Free(ids); um2Free(h);
}
P(misc)
{
  int n;
  um2SizeOfInt(&n); out[0] = n;
  um2SizeOfFloat(&n); out[1] = n;
  void * p;
  um2Malloc(&p, 24);
  auto * d = static_cast<double *>(p);
  d[2] = in[0];
  out[2] = d[2];
  um2Free(p);
  void * m;
  um2NewMPACTModel(&m);
  auto * model = reinterpret_cast<Model *>(m);
  out[3] = model->numCoarseCells(); out[4] = model->numRTMs(); out[5] = model->numLattices(); out[6] = model->numAssemblies(); out[7] = model->materials().size();
  um2DeleteMPACTModel(m);
}
P(read) { void * m = nullptr; um2ReadMPACTModel("abc.xdmf", &m); ptr[0] = m; }
// ids that do not exist
#define BAD(name, call) P(id_##name) { Model model; worldParts(model); void * const m = &model; Int const id = static_cast<Int>(mats[0]); Int a, b; Float x[9]; (void)a; (void)b; (void)x; call; }
BAD(asy_num, um2MPACTAssemblyNumCells(m, id, &a))
BAD(lat_num, um2MPACTLatticeNumCells(m, id, &a, &b))
BAD(rtm_num, um2MPACTRTMNumCells(m, id, &a, &b))
BAD(core_x, um2MPACTCoreGetChild(m, id, 0, &a))
BAD(core_y, um2MPACTCoreGetChild(m, 0, id, &a))
BAD(core_neg, um2MPACTCoreGetChild(m, -1, id, &a))
BAD(lat_x, um2MPACTLatticeGetChild(m, 0, id, 0, &a))
BAD(lat_y, um2MPACTLatticeGetChild(m, 0, 0, id, &a))
BAD(lat_neg, um2MPACTLatticeGetChild(m, 0, -1, id, &a))
BAD(rtm_x, um2MPACTRTMGetChild(m, 2, id, 0, &a))
BAD(rtm_y, um2MPACTRTMGetChild(m, 2, 0, id, &a))
BAD(rtm_neg, um2MPACTRTMGetChild(m, 2, -1, id, &a))
BAD(asy_child, um2MPACTAssemblyGetChild(m, id, 0, &a))
BAD(asy_i, um2MPACTAssemblyGetChild(m, 0, id, &a))
BAD(lat_child, um2MPACTLatticeGetChild(m, id, 0, 0, &a))
BAD(rtm_child, um2MPACTRTMGetChild(m, id, 0, 0, &a))
BAD(cell_faces, um2MPACTCoarseCellNumFaces(m, id, &a))
BAD(cell_width, um2MPACTCoarseCellWidth(m, id, x))
BAD(cell_height, um2MPACTCoarseCellHeight(m, id, x))
BAD(cell_areas, um2MPACTCoarseCellFaceAreas(m, id, x))
BAD(rtm_width, um2MPACTRTMWidth(m, id, x))
BAD(rtm_height, um2MPACTRTMHeight(m, id, x))
BAD(asy_heights, um2MPACTAssemblyHeights(m, id, x))
// clang-format on
