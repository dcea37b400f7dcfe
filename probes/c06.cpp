#include "probe.hpp"
#include <um2/geometry/ray.hpp>
// in: vertices, then ray origin (2) and direction (2); out[0] = hits, out[1..] = parameters
PROBE(line)
{
  auto const l = mk<LineSegment<2, F64>, 2>(in);
  Ray2<F64> const ray(pt<2>(in + 4), pt<2>(in + 6));
  out[0] = l.intersect(ray, out + 1);
}
PROBE(qseg)
{
  auto const q = mk<QuadraticSegment<2, F64>, 2>(in);
  Ray2<F64> const ray(pt<2>(in + 6), pt<2>(in + 8));
  out[0] = q.intersect(ray, out + 1);
}
#define POLY(name, TYPE)                                                                 \
  PROBE(name)                                                                            \
  {                                                                                      \
    using P = TYPE<2, F64>;                                                              \
    auto const p = mk<P, 2>(in);                                                         \
    Ray2<F64> const ray(pt<2>(in + 2 * P::N), pt<2>(in + 2 * P::N + 2));                 \
    out[0] = p.intersect(ray, out + 1);                                                  \
  }
POLY(tri, Triangle)
POLY(quad, Quadrilateral)
POLY(tri6, QuadraticTriangle)
POLY(quad8, QuadraticQuadrilateral)
#define BOX(D)                                                                           \
  PROBE(box##D)                                                                          \
  {                                                                                      \
    AxisAlignedBox<D, F64> const b(pt<D>(in), pt<D>(in + D));                            \
    Ray<D, F64> const ray(pt<D>(in + 2 * D), pt<D>(in + 3 * D));                         \
    put<2>(out, b.intersect(ray, pt<D>(in + 4 * D)));                                    \
  }                                                                                      \
  PROBE(boxr##D)                                                                         \
  {                                                                                      \
    AxisAlignedBox<D, F64> const b(pt<D>(in), pt<D>(in + D));                            \
    Ray<D, F64> const ray(pt<D>(in + 2 * D), pt<D>(in + 3 * D));                         \
    put<2>(out, b.intersect(ray));                                                       \
    put<2>(out + 2, b.intersect(ray, ray.inverseDirection()));                           \
    put<D>(out + 4, ray.inverseDirection());                                             \
    put<D>(out + 4 + D, ray(in[4 * D]));                                                 \
  }
BOX(1)
BOX(2)
BOX(3)
