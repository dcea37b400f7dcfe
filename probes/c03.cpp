#include "probe.hpp"
#include <um2/mesh/face_vertex_mesh.hpp>
// edges of a polygon: nv points per edge, laid out consecutively; then the edges after flip()
#define EDGES(name, TYPE, PP, D)                                                             \
  PROBE(name##D)                                                                         \
  {                                                                                      \
    using P = TYPE<D, F64>;                                                              \
    P p = mk<P, D>(in);                                                                  \
    constexpr Int ne = polygonNumEdges<PP, P::N>();                                    \
    constexpr Int nv = PP + 1;                                                           \
    for (Int e = 0; e < ne; ++e) {                                                       \
      auto const edge = p.getEdge(e);                                                    \
      for (Int k = 0; k < nv; ++k)                                                       \
        put<D>(out + (e * nv + k) * D, edge[k]);                                         \
    }                                                                                    \
    p.flip();                                                                            \
    for (Int e = 0; e < ne; ++e) {                                                       \
      auto const edge = p.getEdge(e);                                                    \
      for (Int k = 0; k < nv; ++k)                                                       \
        put<D>(out + ((ne + e) * nv + k) * D, edge[k]);                                  \
    }                                                                                    \
    for (Int i = 0; i < P::N; ++i)                                                       \
      put<D>(out + (2 * ne * nv + i) * D, p[i]);                                         \
  }
EDGES(tri, Triangle, 1, 2)
EDGES(tri, Triangle, 1, 3)
EDGES(quad, Quadrilateral, 1, 2)
EDGES(quad, Quadrilateral, 1, 3)
EDGES(tri6, QuadraticTriangle, 2, 2)
EDGES(tri6, QuadraticTriangle, 2, 3)
EDGES(quad8, QuadraticQuadrilateral, 2, 2)
EDGES(quad8, QuadraticQuadrilateral, 2, 3)
#define LINP(name, TYPE)                                                                 \
  PROBE(lin_##name)                                                                      \
  {                                                                                      \
    auto const l = linearPolygon(mk<TYPE<2, F64>, 2>(in));                               \
    for (Int i = 0; i < l.N; ++i) put<2>(out + 2 * i, l[i]);                             \
  }
LINP(tri6, QuadraticTriangle)
LINP(quad8, QuadraticQuadrilateral)

// a mesh and a face number: edges by the mesh, by the polygon of that face, and connectivity
#define MESH(name, P, N)                                                                 \
  extern "C" void probe_m_##name(FaceVertexMesh<P, N> const & m, Int f, double * out)    \
  {                                                                                      \
    constexpr Int ne = polygonNumEdges<P, N>();                                          \
    constexpr Int nv = P + 1;                                                            \
    auto const face = m.getFace(f);                                                      \
    for (Int e = 0; e < ne; ++e) {                                                       \
      auto const a = m.getEdge(f, e);                                                    \
      auto const b = face.getEdge(e);                                                    \
      for (Int k = 0; k < nv; ++k) {                                                     \
        put<2>(out + 4 * (e * nv + k), a[k]);                                            \
        put<2>(out + 4 * (e * nv + k) + 2, b[k]);                                        \
      }                                                                                  \
    }                                                                                    \
  }                                                                                      \
  extern "C" void probe_c_##name(FaceVertexMesh<P, N> & m, Int f, Int * out)             \
  {                                                                                      \
    constexpr Int ne = polygonNumEdges<P, N>();                                          \
    constexpr Int nv = P + 1;                                                            \
    for (Int e = 0; e < ne; ++e)                                                         \
      for (Int k = 0; k < nv; ++k) out[e * nv + k] = m.getEdgeConn(f, e)[k];             \
    for (Int k = 0; k < N; ++k) out[2 * ne * nv + k] = m.getFaceConn(f)[k];              \
    m.flipFace(f);                                                                       \
    for (Int e = 0; e < ne; ++e)                                                         \
      for (Int k = 0; k < nv; ++k) out[(ne + e) * nv + k] = m.getEdgeConn(f, e)[k];      \
  }
MESH(tri, 1, 3)
MESH(quad, 1, 4)
MESH(tri6, 2, 6)
MESH(quad8, 2, 8)
