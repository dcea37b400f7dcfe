#include "probe.hpp"
#include "../src/mpact/model.cpp"
#include "../src/mesh/face_vertex_mesh.cpp"
#include "../src/physics/material.cpp"
#include "../src/physics/cross_section.cpp"
using mpact::Model;
// a mesh of n faces, all over the same corner vertices
template <class M, Int N>
static inline void
addMesh(Model & m, Int n, Int (Model::*add)(M const &))
{
  M mesh;
  mesh.vertices().resize(3);
  mesh.vertices()[0] = {0, 0};
  mesh.vertices()[1] = {1, 0};
  mesh.vertices()[2] = {0, 1};
  mesh.faceVertexConn().resize(n);
  for (Int i = 0; i < n; ++i)
    for (Int j = 0; j < N; ++j) mesh.faceVertexConn()[i][j] = j % 3;
  (void)(m.*add)(mesh);
}
static inline void
meshes(Model & m)
{
  auto tri = &Model::addTriMesh;
  (void)tri;
  addMesh<TriFVM, 3>(m, 1, &Model::addTriMesh);
  addMesh<QuadFVM, 4>(m, 2, &Model::addQuadMesh);
  addMesh<QuadFVM, 4>(m, 1, &Model::addQuadMesh);
  addMesh<Tri6FVM, 6>(m, 1, &Model::addTri6Mesh);
  addMesh<Tri6FVM, 6>(m, 3, &Model::addTri6Mesh);
  addMesh<Tri6FVM, 6>(m, 2, &Model::addTri6Mesh);
  addMesh<Quad8FVM, 8>(m, 3, &Model::addQuad8Mesh);
  addMesh<Quad8FVM, 8>(m, 2, &Model::addQuad8Mesh);
  addMesh<Quad8FVM, 8>(m, 2, &Model::addQuad8Mesh);
  addMesh<Quad8FVM, 8>(m, 1, &Model::addQuad8Mesh);
}
static inline void
sizes(double * out, Model const & m)
{
  out[0] = m.numCoarseCells();
  out[1] = m.numRTMs();
  out[2] = m.numLattices();
  out[3] = m.numAssemblies();
  out[4] = m.core().children().size();
  out[5] = m.materials().size();
  out[6] = m.triMeshes().size();
  out[7] = m.quadMeshes().size();
  out[8] = m.tri6Meshes().size();
  out[9] = m.quad8Meshes().size();
}
//---------------------------------------------------------------------------
// base model: three unit cells, one 2x1 module, one 1x2 lattice (and a 1x1 one), one assembly
static inline void
base(Model & m, Int levels)
{
  for (Int i = 0; i < 5; ++i) m.addCoarseCell({1, 1});
  if (levels > 0) {
    m.addRTM({{0, 1}});
    m.addRTM({{2, 2}});
  }
  if (levels > 1) {
    m.addLattice({{0}, {1}});
    m.addLattice({{1}, {0}});
    m.addLattice({{0}});
  }
  if (levels > 2) m.addAssembly({0, 1}, {0, 1, 3});
  if (levels > 3)
    for (Int i = 1; i < 4; ++i) m.addAssembly({1, 0}, {0, 2, 3});
  if (levels > 4) m.addCore({{0, 1}});
}
struct W {
  double * o;
  void
  operator()(double x)
  {
    *o++ = x;
  }
};
static inline void
rtm(W & w, Model::RTM const & r, Int nx, Int ny)
{
  w(r.grid().divs(0).size());
  w(r.grid().divs(1).size());
  for (Int i = 0; i <= nx; ++i) w(r.grid().divs(0)[i]);
  for (Int i = 0; i <= ny; ++i) w(r.grid().divs(1)[i]);
  w(r.children().size());
  for (Int i = 0; i < nx * ny; ++i) w(r.children()[i]);
}
static inline void
lattice(W & w, Model::Lattice const & l, Int n)
{
  w(l.grid().minima()[0]);
  w(l.grid().minima()[1]);
  w(l.grid().spacing()[0]);
  w(l.grid().spacing()[1]);
  w(l.grid().numCells()[0]);
  w(l.grid().numCells()[1]);
  w(l.children().size());
  for (Int i = 0; i < n; ++i) w(l.children()[i]);
}
static inline void
assembly(W & w, Model::Assembly const & a, Int n)
{
  w(a.grid().divs(0).size());
  for (Int i = 0; i <= n; ++i) w(a.grid().divs(0)[i]);
  w(a.children().size());
  for (Int i = 0; i < n; ++i) w(a.children()[i]);
}
// everything the base model contains
static inline void
contents(W & w, Model const & m, Int levels)
{
  for (Int i = 0; i < 5; ++i) {
    w(m.getCoarseCell(i).xy_extents[0]);
    w(m.getCoarseCell(i).xy_extents[1]);
    w(static_cast<Int>(m.getCoarseCell(i).mesh_type));
    w(m.getCoarseCell(i).mesh_id);
    w(m.getCoarseCell(i).material_ids.size());
  }
  if (levels > 0) {
    rtm(w, m.getRTM(0), 2, 1);
    rtm(w, m.getRTM(1), 2, 1);
  }
  if (levels > 1) {
    lattice(w, m.getLattice(0), 2);
    lattice(w, m.getLattice(1), 2);
    lattice(w, m.getLattice(2), 1);
  }
  if (levels > 2) assembly(w, m.getAssembly(0), 2);
  if (levels > 3)
    for (Int i = 1; i < 4; ++i) assembly(w, m.getAssembly(i), 2);
  if (levels > 4) rtm(w, m.core(), 2, 1);
}

#define EDIT(name, ...) extern "C" void probe_##name(double const * __restrict in, double * __restrict out, __VA_ARGS__)
// before the edit: sizes in out[10...], contents in out[500...]; after it: out[0...], out[100...]; number of content values in out[21]
static inline void
before(double * out, Model const & m, Int levels)
{
  sizes(out + 10, m);
  W w{out + 500};
  contents(w, m, levels);
}
static inline void
after(double * out, Model const & m, Int levels)
{
  sizes(out, m);
  W w{out + 100};
  contents(w, m, levels);
  out[21] = static_cast<double>(w.o - (out + 100));
}
template <Int N>
static inline void
cell(double const * in, double * out, Int type, Int id, int8_t const * mats)
{
  Model m;
  for (Int i = 0; i < 6; ++i) m.addMaterial(Material(), false);
  meshes(m);
  base(m, 0);
  before(out, m, 0);
  Vector<MatID> ids(N);
  for (Int i = 0; i < N; ++i) ids[i] = mats[i];
  out[20] = m.addCoarseCell({in[0], in[1]}, static_cast<MeshType>(type), id, ids);
  after(out, m, 0);
  auto const & cc = m.coarseCells().back();
  W w{out + 30};
  w(cc.xy_extents[0]);
  w(cc.xy_extents[1]);
  w(static_cast<Int>(cc.mesh_type));
  w(cc.mesh_id);
  w(cc.material_ids.size());
  if (cc.material_ids.size() == N)
    for (Int i = 0; i < N; ++i) w(cc.material_ids[i]);
}
#define CELL(N) EDIT(cell##N, Int type, Int id, int8_t const * __restrict mats) { cell<N>(in, out, type, id, mats); }
CELL(1) CELL(2) CELL(3)
EDIT(rtm12, Int a, Int b)
{
  Model m;
  base(m, 1);
  before(out, m, 1);
  out[20] = m.addRTM({{a, b}});
  after(out, m, 1);
  W n{out + 30};
  rtm(n, m.rtms().back(), 2, 1);
}
EDIT(rtm21, Int a, Int b)
{
  Model m;
  base(m, 0);
  before(out, m, 0);
  out[20] = m.addRTM({{a}, {b}});
  after(out, m, 0);
  if (m.numRTMs() == 1) {
    W n{out + 30};
    rtm(n, m.getRTM(0), 1, 2);
  }
}
// extents that differ from the other modules'
EDIT(rtmext, Int)
{
  if (in[0] <= 0 || in[1] <= 0 || in[2] <= 0) return;
  if (in[0] <= 1 || in[1] <= 1 || in[2] <= 1) return;
  Model m;
  m.addCoarseCell({in[0], in[2]});
  m.addCoarseCell({in[1], in[2]});
  m.addRTM({{0, 1}});
  sizes(out + 10, m);
  out[20] = m.addRTM({{0, 0}});
  sizes(out, m);
  W n{out + 30};
  rtm(n, m.getRTM(0), 2, 1);
}
EDIT(lattice22, Int a, Int b, Int c, Int d)
{
  Model m;
  base(m, 2);
  before(out, m, 2);
  out[20] = m.addLattice({{a, b}, {c, d}});
  after(out, m, 2);
  if (m.numLattices() == 4) {
    W n{out + 30};
    lattice(n, m.lattices().back(), 4);
  }
}
EDIT(latticeragged, Int a, Int b, Int c)
{
  Model m;
  base(m, 2);
  before(out, m, 2);
  out[20] = m.addLattice({{a, b}, {c}});
  after(out, m, 2);
}
EDIT(assembly0, Int a, Int b)
{
  Model m;
  base(m, 2);
  before(out, m, 2);
  out[20] = m.addAssembly({a, b}, {in[0], in[1], in[2]});
  after(out, m, 2);
  if (m.numAssemblies() == 1) {
    W n{out + 30};
    assembly(n, m.getAssembly(0), 2);
  }
}
EDIT(assembly1, Int a)
{
  Model m;
  base(m, 3);
  before(out, m, 3);
  out[20] = m.addAssembly({a}, {in[0], in[1]});
  after(out, m, 3);
  if (m.numAssemblies() == 2) {
    W n{out + 30};
    assembly(n, m.getAssembly(1), 1);
  }
}
// the first assembly is the two-dimensional special case
EDIT(assembly2, Int a)
{
  Model m;
  base(m, 2);
  m.addAssembly({0}, {-0.5, 0.5});
  before(out, m, 2);
  out[20] = m.addAssembly({a}, {in[0], in[1]});
  after(out, m, 2);
  if (m.numAssemblies() == 2) {
    W n{out + 30};
    assembly(n, m.getAssembly(1), 1);
  }
}
EDIT(assemblycount, Int a, Int b)
{
  Model m;
  base(m, 2);
  before(out, m, 2);
  out[20] = m.addAssembly({a, b}, {in[0], in[1]});
  after(out, m, 2);
}
EDIT(core, Int a, Int b)
{
  Model m;
  base(m, 4);
  before(out, m, 4);
  out[20] = m.addCore({{a, b}});
  after(out, m, 4);
  if (!m.core().children().empty()) {
    W n{out + 30};
    rtm(n, m.core(), 2, 1);
  }
}
EDIT(core2, Int a, Int b)
{
  Model m;
  base(m, 5);
  before(out, m, 5);
  out[20] = m.addCore({{a, b}});
  after(out, m, 5);
}
// generated meshes
template <Int NX, Int NY>
static inline void
rect(double const * in, double * out)
{
  Model m;
  m.addMaterial(Material(), false);
  meshes(m);
  base(m, 0);
  before(out, m, 0);
  out[20] = m.addRectangularPinMesh({in[0], in[1]}, NX, NY);
  after(out, m, 0);
  if (m.quadMeshes().size() == 3) {
    W w{out + 30};
    auto const & q = m.getQuadMesh(2);
    w(q.numVertices());
    w(q.numFaces());
    for (Int i = 0; i < q.numVertices(); ++i) {
      w(q.getVertex(i)[0]);
      w(q.getVertex(i)[1]);
    }
    for (Int i = 0; i < q.numFaces(); ++i)
      for (Int j = 0; j < 4; ++j) w(q.faceVertexConn()[i][j]);
  }
}
EDIT(rect11, Int) { rect<1, 1>(in, out); }
EDIT(rect21, Int) { rect<2, 1>(in, out); }
EDIT(rect23, Int) { rect<2, 3>(in, out); }
EDIT(rect01, Int) { rect<0, 1>(in, out); }
EDIT(rectm1, Int) { rect<-1, 1>(in, out); }
EDIT(rect10, Int) { rect<1, 0>(in, out); }
EDIT(rect1m, Int) { rect<1, -1>(in, out); }
// a grid of empty cells
EDIT(grid21, Int)
{
  Model m;
  sizes(out + 10, m);
  m.addCoarseGrid({in[0], in[1]}, {2, 3});
  sizes(out, m);
  if (m.core().children().empty()) return;
  W w{out + 30};
  for (Int i = 0; i < 6; ++i) {
    w(m.getCoarseCell(i).xy_extents[0]);
    w(m.getCoarseCell(i).xy_extents[1]);
    w(m.getCoarseCell(i).mesh_id);
  }
  for (Int i = 0; i < 6; ++i) rtm(w, m.getRTM(i), 1, 1);
  lattice(w, m.getLattice(0), 6);
  assembly(w, m.getAssembly(0), 1);
  rtm(w, m.core(), 1, 1);
}
