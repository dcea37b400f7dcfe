// The model flattened: to a soup, to files, to lists.  Four cells, one of every mesh kind.
#include "probe.hpp"
#include "../src/mpact/model.cpp"
#if UM2_HAS_XDMF
// grids written to file come to the probe instead
namespace um2 {
void writeToFile(String const & name, pugi::xml_node & xdomain, H5::H5File & h5file, String const & h5filename,
                 String const & h5path, PolytopeSoup const & soup, Point3F const & origin = {0, 0, 0});
}
#define writeXDMFUniformGrid writeToFile
#define readXDMFUniformGrid readFromFile
namespace um2 {
void readFromFile(pugi::xml_node const & xgrid, H5::H5File const & h5file, String const & h5filename, PolytopeSoup & soup);
}
#endif
#include "../src/mesh/polytope_soup.cpp"
#undef writeXDMFUniformGrid
#undef readXDMFUniformGrid
#include "../src/mesh/face_vertex_mesh.cpp"
#include "../src/physics/material.cpp"
#include "../src/physics/cross_section.cpp"
#include "world.hpp"
// clang-format off
#define P(name) extern "C" void probe_##name(double const * __restrict in, double * __restrict out)
using E = VTKElemType;
// vertices, elements and sets, one number after the other
[[gnu::noinline]] static auto
dump(double * o, PolytopeSoup const & s) -> double *
{
  *o++ = s.numVertices();
  for (Int i = 0; i < s.numVertices(); ++i) for (Int d = 0; d < 3; ++d) *o++ = s.getVertex(i)[d];
  *o++ = s.numElements();
  E type;
  Vector<Int> conn;
  for (Int i = 0; i < s.numElements(); ++i) {
    s.getElement(i, type, conn);
    *o++ = static_cast<Int>(type);
    *o++ = conn.size();
    for (Int const v : conn) *o++ = v;
  }
  *o++ = s.numElsets();
  for (Int i = 0; i < s.numElsets(); ++i) {
    String name;
    Vector<Int> ids;
    Vector<Float> data = {1, 2};
    s.getElset(i, name, ids, data);
    *o++ = name.size();
    for (Int k = 0; k < name.size(); ++k) *o++ = name.data()[k];
    *o++ = ids.size();
    for (Int const v : ids) *o++ = v;
    *o++ = data.size();
    for (Float const v : data) *o++ = v;
  }
  return o;
}
static double * O;
static PolytopeSoup * GRIDS;
static String * NAMES;
static Int NGRIDS;
#if UM2_HAS_XDMF
static double *
text(double * o, String const & s)
{
  *o++ = s.size();
  for (Int k = 0; k < s.size(); ++k) *o++ = s.data()[k];
  return o;
}
namespace um2 {
[[gnu::noinline]] void
writeXDMFUniformGrid(String const & name, pugi::xml_node & xdomain, H5::H5File &, String const & h5filename, String const & h5path,
                     PolytopeSoup const & soup, Point3F const & origin)
{
  pugi::xml_node x = xdomain.append_child("Grid");
  x.append_attribute("Name") = name.data();
  if (O == nullptr) {
    NAMES[NGRIDS] = name;
    GRIDS[NGRIDS] = soup;
    GRIDS[NGRIDS++].translate(origin);
    return;
  }
  O = text(text(text(O, name), h5filename), h5path);
  for (Int d = 0; d < 3; ++d) *O++ = origin[d];
  O = dump(O, soup);
}
[[gnu::noinline]] void
readXDMFUniformGrid(pugi::xml_node const & xgrid, H5::H5File const &, String const &, PolytopeSoup & soup)
{
  String const name = xgrid.attribute("Name").value();
  for (Int i = 0; i < NGRIDS; ++i)
    if (NAMES[i] == name) soup = GRIDS[i];
}
}
#endif
static constexpr MatID MATS[4][3] = {{1, 0}, {2, 0, 2}, {0, 1, 1}, {1}};
[[gnu::noinline]] static void
smallMaterials(Model & m, double const * in)
{
  for (Int i = 0; i < 3; ++i) {
    XSec xs(2);
    xs.isMacro() = true;
    xs.isFissile() = true;
    double const * x = in + 1000 + 20 * i;
    for (Int g = 0; g < 2; ++g) {
      xs.a()[g] = x[g];
      xs.f()[g] = x[2 + g];
      xs.nuf()[g] = x[4 + g];
      xs.tr()[g] = x[6 + g];
      xs.s()[g] = x[8 + g];
      for (Int h = 0; h < 2; ++h) xs.ss()(h, g) = x[10 + 2 * g + h];
    }
    Material mat;
    mat.xsec() = xs;
    mat.setName(i == 0 ? "Ma" : i == 1 ? "Mbb" : "Mc");
    m.addMaterial(mat, false);
  }
}
[[gnu::noinline]] static void
smallCells(Model & m, double const * in)
{
  worldMeshes(m);
  worldMeshValues(m, in);
  m.addCoarseCell(Vec2F(1, 2));
  m.addCoarseCell(Vec2F(1, 2));
  m.addCoarseCell(Vec2F(2, 1));
  m.addCoarseCell(Vec2F(2, 1));
  m.addRTM({{0, 1}});
  m.addRTM({{2}, {3}});
  for (Int i = 0; i < 4; ++i) {
    auto & c = const_cast<Model::CoarseCell &>(m.getCoarseCell(i));
    c.mesh_type = CELLS[i].type;
    c.mesh_id = CELLS[i].id;
    c.material_ids.resize(CELLS[i].faces);
    for (Int j = 0; j < CELLS[i].faces; ++j) c.material_ids[j] = MATS[i][j];
  }
}
[[gnu::noinline]] static void
smallValues(Model & m, double const * in)
{
  for (Int i = 0; i < 2; ++i)
    for (Int d = 0; d < 2; ++d) setDivs(m.getRTM(i).grid(), d, in + 600 + 20 * i + 10 * d);
  for (Int i = 0; i < 2; ++i) {
    auto const & g = m.getLattice(i).grid();
    double const * p = in + 700 + 10 * i;
    const_cast<RegularGrid2F &>(g) = RegularGrid2F(Point2F(p[0], p[1]), Vec2F(p[2], p[3]), g.numCells());
  }
  for (Int i = 0; i < 2; ++i) setDivs(m.getAssembly(i).grid(), 0, in + 800 + 10 * i);
  for (Int d = 0; d < 2; ++d) setDivs(m.getCore().grid(), d, in + 900 + 10 * d);
}
[[gnu::noinline]] static void
wide(Model & m, double const * in)
{
  smallCells(m, in);
  m.addLattice({{0, 1}});
  m.addLattice({{1, 0}});
  m.addAssembly({0, 1}, {0, 1, 3});
  m.addAssembly({1}, {0, 3});
  m.addCore({{1}, {0}});
  smallValues(m, in);
  smallMaterials(m, in);
}
[[gnu::noinline]] static void
tall(Model & m, double const * in)
{
  smallCells(m, in);
  m.addLattice({{0}, {1}});
  m.addLattice({{1}, {0}});
  m.addAssembly({0, 1}, {0, 1, 3});
  m.addAssembly({1}, {0, 3});
  m.addCore({{0, 1}});
  smallValues(m, in);
  smallMaterials(m, in);
}
[[gnu::noinline]] static auto
list(double * o, Vector<Float> const & v) -> double *
{
  *o++ = v.size();
  for (Float const x : v) *o++ = x;
  return o;
}
[[gnu::noinline]] static void
back(Model & m, double const * in)
{
  smallCells(m, in);
  m.addLattice({{0}, {1}});
  m.addLattice({{1}, {0}});
  m.addAssembly({0, 1}, {0, 1, 3});
  m.addAssembly({1, 1}, {0, 2, 3});
  m.addCore({{1, 0}, {1, 1}});
  smallMaterials(m, in);
}
[[gnu::noinline]] static void
front(Model & m, double const * in)
{
  smallCells(m, in);
  m.addLattice({{0, 1}});
  m.addLattice({{1, 0}});
  m.addLattice({{1, 1}});
  m.addAssembly({2, 1, 0}, {0, 1, 2, 3});
  m.addAssembly({1, 2, 1}, {0, 0.5, 2, 3});
  m.addCore({{1}, {0}});
  smallMaterials(m, in);
}
template <class M, Int N>
static auto
mesh(double * o, M const & m) -> double *
{
  *o++ = m.numVertices();
  for (auto const & v : m.vertices()) for (Int d = 0; d < 2; ++d) *o++ = v[d];
  *o++ = m.numFaces();
  for (auto const & f : m.faceVertexConn()) for (Int j = 0; j < N; ++j) *o++ = f[j];
  return o;
}
template <class G>
static auto
part(double * o, G const & p) -> double *
{
  for (Int d = 0; d < 2; ++d) *o++ = p.grid().numCells(d);
  for (auto const c : p.children()) *o++ = c;
  return o;
}
[[gnu::noinline]] static auto
modelText(double * o, Model const & m) -> double *
{
  *o++ = m.materials().size();
  for (auto const & x : m.materials()) {
    *o++ = x.getName().size();
    for (Int k = 0; k < x.getName().size(); ++k) *o++ = x.getName().data()[k];
  }
  o = part(o, m.getCore());
  *o++ = m.assemblies().size();
  for (auto const & a : m.assemblies()) {
    *o++ = a.children().size();
    for (auto const c : a.children()) *o++ = c;
    for (auto const z : a.grid().divs(0)) *o++ = z;
  }
  *o++ = m.lattices().size();
  for (auto const & l : m.lattices()) o = part(o, l);
  *o++ = m.rtms().size();
  for (auto const & r : m.rtms()) o = part(o, r);
  *o++ = m.coarseCells().size();
  for (auto const & c : m.coarseCells()) {
    for (Int d = 0; d < 2; ++d) *o++ = c.xy_extents[d];
    *o++ = c.material_ids.size();
    for (auto const i : c.material_ids) *o++ = i;
    *o++ = static_cast<Int>(c.mesh_type);
    switch (c.mesh_type) {
    case MeshType::Tri: o = mesh<TriFVM, 3>(o, m.getTriMesh(c.mesh_id)); break;
    case MeshType::Quad: o = mesh<QuadFVM, 4>(o, m.getQuadMesh(c.mesh_id)); break;
    case MeshType::QuadraticTri: o = mesh<Tri6FVM, 6>(o, m.getTri6Mesh(c.mesh_id)); break;
    case MeshType::QuadraticQuad: o = mesh<Quad8FVM, 8>(o, m.getQuad8Mesh(c.mesh_id)); break;
    default: *o++ = -1;
    }
  }
  return o;
}
#define READ(name) P(read_##name) { \
  PolytopeSoup grids[40]; String names[40]; GRIDS = grids; NAMES = names; NGRIDS = 0; O = nullptr; \
  Model m; name(m, in); mpact::writeXDMFFile("dir/n.xdmf", m, false, false); \
  Model n; n.read("dir/n.xdmf"); double * const end = modelText(out, n); *end = -1; }
READ(back)
READ(front)
#define BOTH(name, ...) \
P(name##_wide) { Model m; wide(m, in); __VA_ARGS__ } \
P(name##_tall) { Model m; tall(m, in); __VA_ARGS__ }
BOTH(soup, dump(out, PolytopeSoup(m));)
BOTH(chords, list(out, m.getMeanChordLengths());)
BOTH(volumes, mpact::writeMaterialVolumes("dir/n.xdmf", m);)
BOTH(xdmf, O = out; mpact::writeXDMFFile("dir/n.xdmf", m, false, false); *O = -1;)
BOTH(xdmf_kn, O = out; mpact::writeXDMFFile("dir/n.xdmf", m, true, false); *O = -1;)
BOTH(xdmf_xs, O = out; mpact::writeXDMFFile("dir/n.xdmf", m, false, true); *O = -1;)
P(xs)
{
  Model m;
  wide(m, in);
  for (Int i = 0; i < 4; ++i) {
    auto const xs = m.getCoarseCellHomogenizedXSec(i);
    double * o = out + 30 * i;
    *o++ = xs.numGroups();
    *o++ = xs.isMacro();
    *o++ = xs.isFissile();
    for (Int g = 0; g < 2; ++g) {
      *o++ = xs.a()[g];
      *o++ = xs.f()[g];
      *o++ = xs.nuf()[g];
      *o++ = xs.tr()[g];
      *o++ = xs.s()[g];
      for (Int h = 0; h < 2; ++h) *o++ = xs.ss()(h, g);
    }
  }
}
#define NOKIND(name, ...) P(name##_nokind) { Model m; wide(m, in); const_cast<Model::CoarseCell &>(m.getCoarseCell(2)).mesh_type = MeshType::TriQuad; __VA_ARGS__ }
NOKIND(soup, PolytopeSoup const s(m);)
NOKIND(xdmf, O = out; mpact::writeXDMFFile("dir/n.xdmf", m, false, false);)
NOKIND(xs, out[0] = m.getCoarseCellHomogenizedXSec(2).numGroups();)
P(cross) { Model m; wide(m, in); mpact::writeCrossSections("dir/n.xdmf", m); }
