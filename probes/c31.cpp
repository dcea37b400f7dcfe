// Data of solver output and imported meshes: cell meshes of a model, powers of regions, sources of faces.
#include "probe.hpp"
#include "../src/mpact/model.cpp"
#include "../src/mpact/powers.cpp"
#include "../src/mpact/source.cpp"
#include "../src/mesh/polytope_soup.cpp"
#include "../src/mesh/face_vertex_mesh.cpp"
#include "../src/physics/material.cpp"
#include "../src/physics/cross_section.cpp"
// clang-format off
using mpact::Model;
#define P(name) extern "C" void probe_##name(double const * __restrict in, double * __restrict out)
using E = VTKElemType;
static double const * IN;
static Int FILE_ID;
// One cell of a kind with corner (x, y), sides sx and sy: as two triangles or one quadrilateral
[[gnu::noinline]] static void
addCell(PolytopeSoup & s, Int k, Float x, Float y, Float sx, Float sy)
{
  static constexpr Float C[9][2] = {{0, 0}, {1, 0}, {1, 1}, {0, 1}, {0.5, 0}, {1, 0.5}, {0.5, 1}, {0, 0.5}, {0.5, 0.5}};
  Int const n = k < 2 ? 4 : k == 2 ? 9 : 8;
  Int v[9];
  for (Int i = 0; i < n; ++i) v[i] = s.addVertex(x + sx * C[i][0], y + sy * C[i][1]);
  if (k == 0) {
    s.addElement(E::Triangle, {v[0], v[1], v[2]});
    s.addElement(E::Triangle, {v[2], v[3], v[0]});
  } else if (k == 1) {
    s.addElement(E::Quad, {v[0], v[1], v[2], v[3]});
  } else if (k == 2) {
    s.addElement(E::QuadraticTriangle, {v[0], v[1], v[2], v[4], v[5], v[8]});
    s.addElement(E::QuadraticTriangle, {v[2], v[3], v[0], v[6], v[7], v[8]});
  } else {
    s.addElement(E::QuadraticQuad, {v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]});
  }
}
// the contents of the file that is read
static constexpr Int ORDER[6] = {3, 0, 2, 1, 2, 0};       // kinds of the cells in the file
static constexpr Int CELL_OF[6] = {2, 0, 3, 1, 4, 5};     // and their numbers
[[gnu::noinline]] static void
cellsFile(PolytopeSoup & s)
{
  Vector<Int> mats[3];
  Vector<Int> of[6];
  for (Int c = 0; c < 6; ++c) {
    Int const first = s.numElements();
    addCell(s, ORDER[c], IN[2 * c], IN[2 * c + 1], 1 + c, 2 + c);
    for (Int i = first; i < s.numElements(); ++i) {
      of[CELL_OF[c]].push_back(i);
      mats[(i + c) % 3].push_back(i);
    }
  }
  s.addElset("All", {0});
  s.addElset("Coarse_Cell_00000", of[0]);
  s.addElset("Coarse_Cell_00001", of[1]);
  s.addElset("Coarse_Cell_00002", of[2]);
  s.addElset("Coarse_Cell_00003", of[3]);
  s.addElset("Coarse_Cell_00004", of[4]);
  s.addElset("Coarse_Cell_00005", of[5]);
  s.addElset("Material_Ma", mats[0]);
  s.addElset("Material_Mb", mats[1]);
  s.addElset("Material_Mc", mats[2]);
}
// cells of a 7 x 3 lattice; every fourth face is without power
static constexpr Int CELLS_AT[4][10] = {{0, 2, 4, 3, 14, 6, 1, 9, 12, 15}, {6, 4, 2, 20, 0, 5, 16, 18, 3, 1}, {0, 16, 2, 14, 1, 15, 6, 4, 20, 5}, {0, 4, 2, 30, 1, 3, 20, 28, 18, 33}};
static Int LAYOUT;
[[gnu::noinline]] static void
powersFile(PolytopeSoup & s)
{
  for (Int const c : CELLS_AT[LAYOUT]) addCell(s, FILE_ID, c % 7, c / 7, 1, 1);
  Vector<Int> ids(s.numElements());
  Vector<Float> power(s.numElements());
  for (Int i = 0; i < ids.size(); ++i) {
    ids[i] = i;
    power[i] = i % 4 == 3 ? 0.0 : IN[i];
  }
  s.addElset("other", {1});
  s.addElset("power", ids, power);
}
[[gnu::noinline]] static void
sourceFile(PolytopeSoup & s)
{
  for (Int i = 0; i < (FILE_ID % 2 == 0 ? 2 : 4); ++i) addCell(s, FILE_ID, i, 0, 1, 1);
  Vector<Int> ids(s.numElements());
  Vector<Float> mat(s.numElements()), f1(s.numElements()), f2(s.numElements());
  for (Int i = 0; i < ids.size(); ++i) {
    ids[i] = i;
    mat[i] = 3 - i % 3;
    f1[i] = IN[i];
    f2[i] = IN[10 + i];
  }
  s.addElset("flux_002", ids, f2);
  s.addElset("flux_001", ids, f1);
  s.addElset("material", ids, mat);
}
extern "C" [[gnu::noinline]] void
probe_file(PolytopeSoup * s)
{
  if (FILE_ID < 0) cellsFile(*s);
  else powersFile(*s);
}
[[gnu::noinline]] static void
threeMaterials(Vector<Material> & ms, double const * in)
{
  ms.resize(3);
  for (Int i = 0; i < 3; ++i) {
    XSec xs(2);
    xs.isMacro() = true;
    for (Int g = 0; g < 2; ++g) {
      xs.a()[g] = 1;
      xs.f()[g] = 1;
      xs.tr()[g] = 1;
      xs.nuf()[g] = in[50 + 10 * i + g];
      xs.s()[g] = in[52 + 10 * i + g];
    }
    ms[i].xsec() = xs;
    ms[i].setName(i == 0 ? "Ma" : i == 1 ? "Mb" : "Mc");
  }
}
template <class M>
[[gnu::noinline]] static double *
dump(double * o, M const & m)
{
  *o++ = m.numVertices();
  *o++ = m.numFaces();
  for (Int i = 0; i < m.numFaces(); ++i)
    for (Int const v : m.faceVertexConn()[i]) for (Int d = 0; d < 2; ++d) *o++ = m.getVertex(v)[d];
  return o;
}
P(import) {
  IN = in;
  FILE_ID = -1;
  Model m;
  Vector<Material> ms;
  threeMaterials(ms, in);
  for (auto const & mat : ms) m.addMaterial(mat, false);
  Int where[6];
  for (Int c = 0; c < 6; ++c) where[CELL_OF[c]] = c;
  for (Int i = 0; i < 6; ++i) m.addCoarseCell(Vec2F(1 + where[i], 2 + where[i]));
  m.importCoarseCellMeshes("cells.inp");
  double * o = out;
  for (Int i = 0; i < 6; ++i) {
    auto const & c = m.getCoarseCell(i);
    *o++ = static_cast<Int>(c.mesh_type);
    *o++ = c.mesh_id;
    *o++ = c.material_ids.size();
    for (auto const id : c.material_ids) *o++ = id;
    if (c.mesh_type == MeshType::Tri) o = dump(o, m.getTriMesh(c.mesh_id));
    else if (c.mesh_type == MeshType::Quad) o = dump(o, m.getQuadMesh(c.mesh_id));
    else if (c.mesh_type == MeshType::QuadraticTri) o = dump(o, m.getTri6Mesh(c.mesh_id));
    else if (c.mesh_type == MeshType::QuadraticQuad) o = dump(o, m.getQuad8Mesh(c.mesh_id));
  }
  *o++ = m.triMeshes().size();
  *o++ = m.quadMeshes().size();
  *o++ = m.tri6Meshes().size();
  *o++ = m.quad8Meshes().size();
}
#define POWERS(name, kind, layout) P(powers_##name) { \
  IN = in; FILE_ID = kind; LAYOUT = layout; \
  auto const v = mpact::getPowers("fsr.xdmf"); \
  double * o = out; \
  *o++ = v.size(); \
  for (auto const & p : v) { *o++ = p.first; *o++ = p.second[0]; *o++ = p.second[1]; } \
}
POWERS(tri, 0, 0)
POWERS(quad, 1, 0)
POWERS(tri6, 2, 0)
POWERS(quad8, 3, 0)
POWERS(quad_1, 1, 1)
POWERS(quad_2, 1, 2)
POWERS(tri_2, 0, 2)
POWERS(quad_3, 1, 3)
#define SOURCE(name, kind) P(source_##name) { \
  IN = in; FILE_ID = kind; \
  PolytopeSoup s; \
  sourceFile(s); \
  Vector<Material> ms; \
  threeMaterials(ms, in); \
  auto const v = mpact::getSource(s, ms); \
  double * o = out; \
  *o++ = v.size(); \
  for (auto const & p : v) { *o++ = p[0]; *o++ = p[1]; } \
}
SOURCE(tri, 0)
SOURCE(quad, 1)
SOURCE(tri6, 2)
SOURCE(quad8, 3)
// two kinds at once, and a kind that is not supported
P(mixed) {
  IN = in;
  PolytopeSoup s;
  addCell(s, 0, 0, 0, 1, 1);
  addCell(s, 1, 1, 0, 1, 1);
  Vector<Material> ms;
  threeMaterials(ms, in);
  out[0] = mpact::getSource(s, ms).size();
}
P(lines) {
  PolytopeSoup s;
  s.addVertex(0, 0);
  s.addVertex(1, 0);
  s.addElement(E::Line, {0, 1});
  Vector<Material> ms;
  threeMaterials(ms, in);
  out[0] = mpact::getSource(s, ms).size();
}
