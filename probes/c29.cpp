#include "probe.hpp"
#include "../src/mpact/model.cpp"
#include "../src/mesh/face_vertex_mesh.cpp"
#include "../src/physics/material.cpp"
#include "../src/physics/cross_section.cpp"
using mpact::Model;
#define PIN(name) extern "C" void probe_##name(double const * __restrict in, double * __restrict out)
// mesh of a pin of pitch in[0] and radii in[1...]: returned id, number of meshes, then vertices from out[10], faces from out[1000]
template <Int ORDER, Int NA, Int... RINGS>
static inline void
pin(double const * in, double * out)
{
  Model m;
  Int constexpr n = sizeof...(RINGS);
  Vector<Int> const rings = {RINGS...};
  Vector<Float> radii(n);
  for (Int i = 0; i < n; ++i) radii[i] = in[1 + i];
  out[0] = m.addCylindricalPinMesh(in[0], radii, rings, NA, ORDER);
  out[1] = m.quadMeshes().size();
  out[2] = m.quad8Meshes().size();
  if (m.quadMeshes().size() + m.quad8Meshes().size() == 0) return;
  auto const dump = [&](auto const & q) {
    out[3] = q.numVertices();
    out[4] = q.numFaces();
    for (Int i = 0; i < q.numVertices(); ++i) {
      out[10 + 2 * i] = q.getVertex(i)[0];
      out[11 + 2 * i] = q.getVertex(i)[1];
    }
    for (Int i = 0; i < q.numFaces(); ++i)
      for (Int j = 0; j < 4 * ORDER; ++j) out[1000 + i * 4 * ORDER + j] = q.faceVertexConn()[i][j];
  };
  if constexpr (ORDER == 1)
    dump(m.getQuadMesh(0));
  else
    dump(m.getQuad8Mesh(0));
}
PIN(lin_8_1) { pin<1, 8, 1>(in, out); }
PIN(lin_8_2) { pin<1, 8, 2>(in, out); }
PIN(lin_8_21) { pin<1, 8, 2, 1>(in, out); }
PIN(lin_16_111) { pin<1, 16, 1, 1, 1>(in, out); }
PIN(quad_8_1) { pin<2, 8, 1>(in, out); }
PIN(quad_8_2) { pin<2, 8, 2>(in, out); }
PIN(quad_8_21) { pin<2, 8, 2, 1>(in, out); }
PIN(quad_16_111) { pin<2, 16, 1, 1, 1>(in, out); }
// requests that must be refused: order in[...] fixed per probe
template <Int ORDER, Int NA>
static inline void
refused(double const * in, double * out, Vector<Float> const & radii, Vector<Int> const & rings)
{
  Model m;
  out[0] = m.addCylindricalPinMesh(in[0], radii, rings, NA, ORDER);
  out[1] = m.quadMeshes().size();
  out[2] = m.quad8Meshes().size();
}
PIN(order0) { refused<0, 8>(in, out, {in[1]}, {1}); }
PIN(order3) { refused<3, 8>(in, out, {in[1]}, {1}); }
PIN(lin_na4) { refused<1, 4>(in, out, {in[1]}, {1}); }
PIN(lin_na12) { refused<1, 12>(in, out, {in[1]}, {1}); }
PIN(quad_na4) { refused<2, 4>(in, out, {in[1]}, {1}); }
PIN(quad_na12) { refused<2, 12>(in, out, {in[1]}, {1}); }
PIN(lin_count) { refused<1, 8>(in, out, {in[1]}, {1, 1}); }
PIN(quad_count) { refused<2, 8>(in, out, {in[1], in[2]}, {1}); }
// pin cell: materials are found by name, rings take the material of their region
template <Int ORDER>
static inline void
pinCell(double const * in, double * out, Int const (&names)[3], Int nmat)
{
  Model m;
  Material mats[4];
  mats[0].setName("a");
  mats[1].setName("b");
  mats[2].setName("c");
  mats[3].setName("d");
  m.addMaterial(mats[2], false);
  m.addMaterial(mats[0], false);
  m.addMaterial(mats[1], false);
  Vector<Material> list;
  for (Int i = 0; i < nmat; ++i) list.push_back(mats[names[i]]);
  m.addCoarseCell({3, 4});
  out[0] = m.addCylindricalPinCell(in[0], {in[1], in[2]}, list, {2, 1}, 8, ORDER);
  out[1] = m.quadMeshes().size();
  out[2] = m.quad8Meshes().size();
  out[3] = m.numCoarseCells();
  if (m.numCoarseCells() < 2) return;
  auto const & cc = m.getCoarseCell(1);
  out[4] = cc.xy_extents[0];
  out[5] = cc.xy_extents[1];
  out[6] = static_cast<Int>(cc.mesh_type);
  out[7] = cc.mesh_id;
  out[8] = cc.material_ids.size();
  if (cc.material_ids.size() != 32) return;
  for (Int i = 0; i < 32; ++i) out[10 + i] = cc.material_ids[i];
}
PIN(cell_lin) { pinCell<1>(in, out, {0, 1, 2}, 3); }
PIN(cell_quad) { pinCell<2>(in, out, {2, 0, 0}, 3); }
PIN(cell_missing) { pinCell<1>(in, out, {0, 3, 2}, 3); }
PIN(cell_few) { pinCell<2>(in, out, {0, 1, 2}, 2); }
PIN(cell_order) { pinCell<3>(in, out, {0, 1, 2}, 3); }
