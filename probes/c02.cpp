#include "probe.hpp"
// out: [0] area, [1..2] centroid, [3] perimeter, [4] mean chord length
#define FULL(name, TYPE)                                                                 \
  PROBE(name)                                                                            \
  {                                                                                      \
    using P = TYPE<2, F64>;                                                              \
    P const p = mk<P, 2>(in);                                                            \
    out[0] = p.area();                                                                   \
    put<2>(out + 1, p.centroid());                                                       \
    out[3] = p.perimeter();                                                              \
  }                                                                                      \
  PROBE(name##_mcl)                                                                      \
  {                                                                                      \
    using P = TYPE<2, F64>;                                                              \
    P const p = mk<P, 2>(in);                                                            \
    out[0] = p.meanChordLength();                                                        \
  }
FULL(tri, Triangle)
FULL(quad, Quadrilateral)
FULL(tri6, QuadraticTriangle)
FULL(quad8, QuadraticQuadrilateral)
#define GEN(name, TYPE)                                                                  \
  PROBE(name##_gen)                                                                      \
  {                                                                                      \
    using P = TYPE<2, F64>;                                                              \
    P const p = mk<P, 2>(in);                                                            \
    out[0] = um2::area<P::N, F64>(p);                                                    \
    put<2>(out + 1, um2::centroid<P::N, F64>(p));                                        \
  }
GEN(tri, Triangle)
GEN(quad, Quadrilateral)
PROBE(tri3d)
{
  auto const p = mk<Triangle<3, F64>, 3>(in);
  out[0] = p.area();
  put<3>(out + 1, p.centroid());
  out[4] = p.perimeter();
}
PROBE(quad3d)
{
  auto const p = mk<Quadrilateral<3, F64>, 3>(in);
  out[0] = p.perimeter();
}
PROBE(encl)
{
  auto const q = mk<QuadraticSegment<2, F64>, 2>(in);
  out[0] = um2::enclosedArea(q);
  put<2>(out + 1, um2::enclosedCentroid(q));
}
#define LEN(name, TYPE, D)                                                               \
  PROBE(name)                                                                            \
  {                                                                                      \
    auto const q = mk<TYPE<D, F64>, D>(in);                                              \
    out[0] = q.length();                                                                 \
  }
LEN(len_line1, LineSegment, 1)
LEN(len_line2, LineSegment, 2)
LEN(len_line3, LineSegment, 3)
PROBE(qlen2)
{
  auto const q = mk<QuadraticSegment<2, F64>, 2>(in);
  out[0] = q.length();
  out[1] = um2::isStraight(q) ? 1 : 0;
}
PROBE(qlen3)
{
  auto const q = mk<QuadraticSegment<3, F64>, 3>(in);
  out[0] = q.length();
  out[1] = um2::isStraight(q) ? 1 : 0;
}
