#pragma once
// A model of ten meshes, eight cells, four modules, two lattices, three assemblies and a core.  It is put
// together through the public interface; the numbers are then replaced by the inputs of the probe.
using mpact::Model;
template <class M, Int N, Int (Model::*add)(M const &)>
[[gnu::noinline]] static void
addMesh(Model & m)
{
  // straight-sided
  static constexpr double QUADS[8][2] = {{0, 0}, {1, 0}, {1, 1}, {0, 1}, {0.5, 0}, {1, 0.5}, {0.5, 1}, {0, 0.5}};
  static constexpr double TRIS[6][2] = {{0, 0}, {1, 0}, {0, 1}, {0.5, 0}, {0.5, 0.5}, {0, 0.5}};
  M mesh;
  mesh.vertices().resize(N);
  mesh.faceVertexConn().resize(1);
  for (Int j = 0; j < N; ++j) {
    double const * const p = N % 3 == 0 ? TRIS[j] : QUADS[j];
    mesh.vertices()[j] = {p[0], p[1]};
    mesh.faceVertexConn()[0][j] = j;
  }
  (void)(m.*add)(mesh);
}
// nf faces over nv vertices: face f lists f, f + 1, f + 2, ... (f odd: backwards)
template <class M, Int N>
[[gnu::noinline]] static void
setMesh(M const & c, double const * in, Int nv, Int nf)
{
  auto & mesh = const_cast<M &>(c);
  mesh.vertices().resize(nv);
  for (Int i = 0; i < nv; ++i) mesh.vertices()[i] = Point2F(in[2 * i], in[2 * i + 1]);
  mesh.faceVertexConn().resize(nf);
  for (Int f = 0; f < nf; ++f)
    for (Int j = 0; j < N; ++j) mesh.faceVertexConn()[f][j] = (f % 2 == 0 ? f + j : nv + f - j) % nv;
}
[[gnu::noinline]] static void
worldMeshes(Model & m)
{
  addMesh<TriFVM, 3, &Model::addTriMesh>(m);
  addMesh<TriFVM, 3, &Model::addTriMesh>(m);
  addMesh<QuadFVM, 4, &Model::addQuadMesh>(m);
  addMesh<QuadFVM, 4, &Model::addQuadMesh>(m);
  addMesh<QuadFVM, 4, &Model::addQuadMesh>(m);
  addMesh<Tri6FVM, 6, &Model::addTri6Mesh>(m);
  addMesh<Tri6FVM, 6, &Model::addTri6Mesh>(m);
  addMesh<Quad8FVM, 8, &Model::addQuad8Mesh>(m);
  addMesh<Quad8FVM, 8, &Model::addQuad8Mesh>(m);
  addMesh<Quad8FVM, 8, &Model::addQuad8Mesh>(m);
}
[[gnu::noinline]] static void
worldMeshValues(Model & m, double const * in)
{
  setMesh<TriFVM, 3>(m.getTriMesh(0), in, 4, 2);
  setMesh<TriFVM, 3>(m.getTriMesh(1), in + 40, 5, 3);
  setMesh<QuadFVM, 4>(m.getQuadMesh(0), in + 80, 5, 1);
  setMesh<QuadFVM, 4>(m.getQuadMesh(1), in + 120, 6, 2);
  setMesh<QuadFVM, 4>(m.getQuadMesh(2), in + 160, 7, 3);
  setMesh<Tri6FVM, 6>(m.getTri6Mesh(0), in + 200, 6, 1);
  setMesh<Tri6FVM, 6>(m.getTri6Mesh(1), in + 240, 7, 2);
  setMesh<Quad8FVM, 8>(m.getQuad8Mesh(0), in + 280, 8, 1);
  setMesh<Quad8FVM, 8>(m.getQuad8Mesh(1), in + 320, 9, 2);
  setMesh<Quad8FVM, 8>(m.getQuad8Mesh(2), in + 360, 10, 3);
}
[[gnu::noinline]] static void
worldParts(Model & m)
{
  // the cells get their meshes later
  for (Int i = 0; i < 8; ++i) m.addCoarseCell(Vec2F(1.0, i < 4 ? 1.0 : 0.5));
  m.addRTM({{0, 1}});
  m.addRTM({{2, 3}});
  m.addRTM({{4, 5}, {6, 7}});
  m.addRTM({{3, 0}});
  m.addLattice({{0, 1}, {3, 0}, {1, 3}});
  m.addLattice({{2, 2}, {2, 1}, {0, 2}});
  m.addAssembly({0, 1}, {0, 1, 3});
  m.addAssembly({1, 0, 1}, {0, 1, 2, 3});
  m.addAssembly({0}, {0, 3});
  m.addCore({{0, 1, 2}, {2, 0, 1}});
}
struct CellMesh {
  MeshType type;
  Int id;
  Int faces;
};
static constexpr CellMesh CELLS[8] = {
    {MeshType::QuadraticTri, 1, 2}, {MeshType::Tri, 1, 3}, {MeshType::QuadraticQuad, 2, 3}, {MeshType::Quad, 0, 1},
    {MeshType::Tri, 0, 2},          {MeshType::Quad, 2, 3}, {MeshType::QuadraticQuad, 1, 2}, {MeshType::QuadraticTri, 0, 1}};
[[gnu::noinline]] static void
worldCellMeshes(Model & m)
{
  for (Int i = 0; i < 8; ++i) {
    auto & c = const_cast<Model::CoarseCell &>(m.getCoarseCell(i));
    c.mesh_type = CELLS[i].type;
    c.mesh_id = CELLS[i].id;
    c.material_ids.resize(CELLS[i].faces);
  }
}
[[gnu::noinline]] static void
worldCellValues(Model & m, double const * in, MatID const * mats)
{
  for (Int i = 0; i < 8; ++i) {
    auto & c = const_cast<Model::CoarseCell &>(m.getCoarseCell(i));
    c.xy_extents = Vec2F(in[500 + 2 * i], in[501 + 2 * i]);
    for (Int j = 0; j < CELLS[i].faces; ++j) c.material_ids[j] = mats[10 * i + j];
  }
}
template <class G>
[[gnu::noinline]] static void
setDivs(G const & g, Int d, double const * in)
{
  auto & v = const_cast<G &>(g).divs(d);
  for (Int i = 0; i < v.size(); ++i) v[i] = in[i];
}
[[gnu::noinline]] static void
worldPartValues(Model & m, double const * in)
{
  for (Int i = 0; i < 4; ++i)
    for (Int d = 0; d < 2; ++d) setDivs(m.getRTM(i).grid(), d, in + 600 + 20 * i + 10 * d);
  for (Int i = 0; i < 2; ++i) {
    auto const & g = m.getLattice(i).grid();
    double const * p = in + 700 + 10 * i;
    const_cast<RegularGrid2F &>(g) = RegularGrid2F(Point2F(p[0], p[1]), Vec2F(p[2], p[3]), g.numCells());
  }
  for (Int i = 0; i < 3; ++i) setDivs(m.getAssembly(i).grid(), 0, in + 800 + 10 * i);
  for (Int d = 0; d < 2; ++d) setDivs(m.getCore().grid(), d, in + 900 + 10 * d);
}
