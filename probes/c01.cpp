#include "probe.hpp"
// in: N*D vertex coordinates, then r (, s);  out: D point, then D (, D) Jacobian columns
#define SEG(name, TYPE, D)                                                               \
  PROBE(name)                                                                            \
  {                                                                                      \
    using P = TYPE<D, F64>;                                                              \
    P const p = mk<P, D>(in);                                                            \
    F64 const r = in[P::N * D];                                                          \
    put<D>(out, p(r));                                                                   \
    put<D>(out + D, p.jacobian(r));                                                      \
  }
#define FACE(name, TYPE, D)                                                              \
  PROBE(name)                                                                            \
  {                                                                                      \
    using P = TYPE<D, F64>;                                                              \
    P const p = mk<P, D>(in);                                                            \
    F64 const r = in[P::N * D];                                                          \
    F64 const s = in[P::N * D + 1];                                                      \
    put<D>(out, p(r, s));                                                                \
    auto const j = p.jacobian(r, s);                                                     \
    put<D>(out + D, j.col(0));                                                           \
    put<D>(out + 2 * D, j.col(1));                                                       \
  }
SEG(line_1, LineSegment, 1)
SEG(line_2, LineSegment, 2)
SEG(line_3, LineSegment, 3)
SEG(qseg_1, QuadraticSegment, 1)
SEG(qseg_2, QuadraticSegment, 2)
SEG(qseg_3, QuadraticSegment, 3)
FACE(tri_2, Triangle, 2)
FACE(tri_3, Triangle, 3)
FACE(quad_2, Quadrilateral, 2)
FACE(quad_3, Quadrilateral, 3)
FACE(tri6_2, QuadraticTriangle, 2)
FACE(tri6_3, QuadraticTriangle, 3)
FACE(quad8_2, QuadraticQuadrilateral, 2)
FACE(quad8_3, QuadraticQuadrilateral, 3)
// the polynomial form of a quadratic segment
#define COEF(name, D)                                                                    \
  PROBE(name)                                                                            \
  {                                                                                      \
    using P = QuadraticSegment<D, F64>;                                                  \
    P const p = mk<P, D>(in);                                                            \
    auto const c = p.getPolyCoeffs();                                                    \
    put<D>(out, c[0]);                                                                   \
    put<D>(out + D, c[1]);                                                               \
    put<D>(out + 2 * D, c[2]);                                                           \
  }
COEF(coef_2, 2)
COEF(coef_3, 3)
