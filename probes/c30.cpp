// Mesh queries: containment, ray crossings, bounding box, validation.
#include "probe.hpp"
#include "../src/mesh/face_vertex_mesh.cpp"
// clang-format off
#define P(name) extern "C" void probe_##name(double const * __restrict in, double * __restrict out)
template <class M, Int N>
[[gnu::noinline]] static void
mesh(M & m, double const * in, Int nv, Int nf, Int const * conn)
{
  m.vertices().resize(nv);
  for (Int i = 0; i < nv; ++i) m.vertices()[i] = Point2F(in[2 * i], in[2 * i + 1]);
  m.faceVertexConn().resize(nf);
  for (Int f = 0; f < nf; ++f) for (Int j = 0; j < N; ++j) m.faceVertexConn()[f][j] = conn[N * f + j];
}
static constexpr Int TRIS[] = {0, 1, 2, 2, 3, 0, 4, 1, 3};
static constexpr Int QUADS[] = {0, 1, 2, 3, 3, 2, 4, 5, 5, 1, 0, 4};
static constexpr Int TRI6S[] = {0, 1, 2, 3, 4, 5, 7, 6, 5, 4, 3, 2, 1, 0, 2, 4, 6, 3};
static constexpr Int QUAD8S[] = {0, 1, 2, 3, 4, 5, 6, 7, 9, 8, 7, 6, 5, 4, 3, 2, 1, 3, 5, 7, 9, 0, 2, 4};
#define MESH(name, M, N, nv, conn) \
P(find_##name) { M m; mesh<M, N>(m, in, nv, 3, conn); out[0] = m.faceContaining(Point2F(in[100], in[101])); } \
P(ray_##name) { M m; mesh<M, N>(m, in, nv, 3, conn); Float c[40]; Ray2F const r(Point2F(in[100], in[101]), Vec2F(in[102], in[103])); \
  Int const n = m.intersect(r, c); out[0] = n; for (Int i = 0; i < n; ++i) out[1 + i] = c[i]; } \
P(rays_##name) { M m; mesh<M, N>(m, in, nv, 3, conn); Float c[40]; Int o[4]; Int f[3]; Ray2F const r(Point2F(in[100], in[101]), Vec2F(in[102], in[103])); \
  Vec2I const n = m.intersect(r, c, o, f); out[0] = n[0]; out[1] = n[1]; \
  for (Int i = 0; i <= n[1]; ++i) out[2 + i] = o[i]; for (Int i = 0; i < n[1]; ++i) out[10 + i] = f[i]; for (Int i = 0; i < n[0]; ++i) out[20 + i] = c[i]; }
MESH(tri, TriFVM, 3, 5, TRIS)
MESH(quad, QuadFVM, 4, 6, QUADS)
MESH(tri6, Tri6FVM, 6, 8, TRI6S)
MESH(quad8, Quad8FVM, 8, 10, QUAD8S)
template <class M>
static void
box(double * out, M const & m)
{
  auto const b = m.boundingBox();
  for (Int d = 0; d < 2; ++d) { out[d] = b.minima()[d]; out[2 + d] = b.maxima()[d]; }
}
P(box_tri) { TriFVM m; mesh<TriFVM, 3>(m, in, 4, 2, TRIS); box(out, m); }
P(box_quad) { QuadFVM m; mesh<QuadFVM, 4>(m, in, 4, 1, QUADS); box(out, m); }
P(box_tri6) { Tri6FVM m; mesh<Tri6FVM, 6>(m, in, 8, 3, TRI6S); box(out, m); }
P(box_quad8) { Quad8FVM m; mesh<Quad8FVM, 8>(m, in, 10, 3, QUAD8S); box(out, m); }
// hits of three faces sorted along the ray: sizes 2, 2, 1 and 4, 2
P(sort)
{
  Int const offsets[] = {0, 2, 4, 5}, faces[] = {7, 3, 5};
  Float c[5];
  Int o[4], f[3], perm[3];
  sortRayMeshIntersections(in, offsets, faces, c, o, f, perm, {5, 3});
  for (Int i = 0; i < 5; ++i) out[i] = c[i];
  for (Int i = 0; i < 4; ++i) out[5 + i] = o[i];
  for (Int i = 0; i < 3; ++i) out[10 + i] = f[i];
}
P(sort2)
{
  Int const offsets[] = {0, 4, 6}, faces[] = {2, 9};
  Float c[6];
  Int o[3], f[2], perm[2];
  sortRayMeshIntersections(in, offsets, faces, c, o, f, perm, {6, 2});
  for (Int i = 0; i < 6; ++i) out[i] = c[i];
  for (Int i = 0; i < 3; ++i) out[6 + i] = o[i];
  for (Int i = 0; i < 2; ++i) out[10 + i] = f[i];
}
// validation: connectivity from the inputs (whole numbers)
template <class M, Int N>
[[gnu::noinline]] static void
validate(double * out, double const * in, Int const * ii)
{
  M m;
  Int const nv = ii[0], nf = ii[1];
  mesh<M, N>(m, in, nv, nf, ii + 2);
  m.validate();
  for (Int f = 0; f < nf; ++f) for (Int j = 0; j < N; ++j) out[N * f + j] = m.getFaceConn(f)[j];
}
#define V(name, M, N) extern "C" void probe_validate_##name(double const * __restrict in, Int const * __restrict ii, double * __restrict out) { validate<M, N>(out, in, ii); }
V(tri, TriFVM, 3)
V(quad, QuadFVM, 4)
V(tri6, Tri6FVM, 6)
V(quad8, Quad8FVM, 8)
