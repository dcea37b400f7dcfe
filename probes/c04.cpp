#include "probe.hpp"
#include <um2/math/mat.hpp>
#include <um2/geometry/axis_aligned_box.hpp>
#include <um2/math/stats.hpp>
#define VECOPS(D)                                                                        \
  PROBE(arith##D)                                                                        \
  {                                                                                      \
    auto const u = pt<D>(in);                                                            \
    auto const v = pt<D>(in + D);                                                        \
    double const s = in[2 * D];                                                          \
    int k = 0;                                                                           \
    auto emit = [&](Vec<D, F64> const & w) { put<D>(out + D * k, w); ++k; };             \
    emit(-u);                                                                            \
    emit(u + v);                                                                         \
    emit(u - v);                                                                         \
    emit(u * v);                                                                         \
    emit(u / v);                                                                         \
    emit(s + u);                                                                         \
    emit(u + s);                                                                         \
    emit(s - u);                                                                         \
    emit(u - s);                                                                         \
    emit(s * u);                                                                         \
    emit(u * s);                                                                         \
    emit(u / s);                                                                         \
    emit(s / u);                                                                         \
    emit(Vec<D, F64>::zero());                                                           \
    emit(u * 3);                                                                         \
    emit(7 + u);                                                                         \
    emit(u / 5);                                                                         \
    emit(u - 2);                                                                         \
    auto w = u;                                                                          \
    w = s;                                                                               \
    emit(w);                                                                             \
    emit(midpoint<D, F64>(u, v));                                                        \
  }                                                                                      \
  PROBE(scal##D)                                                                         \
  {                                                                                      \
    auto const u = pt<D>(in);                                                            \
    auto const v = pt<D>(in + D);                                                        \
    out[0] = u.dot(v);                                                                   \
    out[1] = dot(u, v);                                                                  \
    out[2] = u.squaredNorm();                                                            \
    out[3] = squaredNorm(u);                                                             \
    out[4] = u.norm();                                                                   \
    out[5] = norm(u);                                                                    \
    out[6] = u.squaredDistanceTo(v);                                                     \
    out[7] = u.distanceTo(v);                                                            \
    put<D>(out + 8, u.normalized());                                                     \
    put<D>(out + 8 + D, normalized(u));                                                  \
  }                                                                                      \
  PROBE(cmp##D)                                                                          \
  {                                                                                      \
    auto const u = pt<D>(in);                                                            \
    auto const v = pt<D>(in + D);                                                        \
    out[0] = u == v;                                                                     \
    out[1] = u != v;                                                                     \
    out[2] = u < v;                                                                      \
    out[3] = u > v;                                                                      \
    out[4] = u <= v;                                                                     \
    out[5] = u >= v;                                                                     \
    out[6] = u.isApprox(v, in[2 * D]);                                                   \
    out[7] = u.isApprox(v);                                                              \
    out[8] = epsDistance<F64>();                                                         \
  }                                                                                      \
  PROBE(minmax##D)                                                                       \
  {                                                                                      \
    auto const u = pt<D>(in);                                                            \
    auto const v = pt<D>(in + D);                                                        \
    put<D>(out, um2::min(u, v));                                                         \
    put<D>(out + D, um2::max(u, v));                                                     \
  }
VECOPS(1)
VECOPS(2)
VECOPS(3)
VECOPS(4)

PROBE(cross)
{
  auto const u = pt<3>(in);
  auto const v = pt<3>(in + 3);
  put<3>(out, u.cross(v));
  put<3>(out + 3, cross(u, v));
  auto const a = pt<2>(in);
  auto const b = pt<2>(in + 2);
  out[6] = a.cross(b);
  out[7] = cross(a, b);
  out[8] = det2x2(in[0], in[1], in[2], in[3]);
}

template <Int M, Int N>
static inline auto mat(double const * in) -> Mat<M, N, F64>
{
  Mat<M, N, F64> m;
  for (Int j = 0; j < N; ++j)
    for (Int i = 0; i < M; ++i)
      m.col(j)[i] = in[j * M + i];
  return m;
}
template <Int M, Int N>
static inline void putm(double * out, Mat<M, N, F64> const & m)
{
  for (Int j = 0; j < N; ++j)
    for (Int i = 0; i < M; ++i)
      out[j * M + i] = m(i, j);
}
#define MATOPS(M, N)                                                                     \
  PROBE(mat##M##N)                                                                       \
  {                                                                                      \
    auto const a = mat<M, N>(in);                                                        \
    auto const b = mat<M, N>(in + M * N);                                                \
    putm<M, N>(out, a + b);                                                              \
    putm<M, N>(out + M * N, a - b);                                                      \
    put<M>(out + 2 * M * N, a * pt<N>(in + M * N));                                      \
    for (Int i = 0; i < M * N; ++i) out[2 * M * N + M + i] = a(i);                       \
    putm<M, N>(out + 3 * M * N + M, Mat<M, N, F64>::zero());                             \
  }
MATOPS(2, 2)
MATOPS(3, 2)
MATOPS(2, 3)
MATOPS(3, 3)
MATOPS(4, 4)
#define MATMUL(M, N, P)                                                                  \
  PROBE(mm##M##N##P) { putm<M, P>(out, mat<M, N>(in) * mat<N, P>(in + M * N)); }
MATMUL(2, 2, 2)
MATMUL(3, 3, 3)
MATMUL(2, 3, 2)
MATMUL(3, 2, 3)
MATMUL(2, 2, 3)
MATMUL(3, 3, 2)
PROBE(ident)
{
  putm<2, 2>(out, Mat<2, 2, F64>::identity());
  putm<3, 3>(out + 4, Mat<3, 3, F64>::identity());
}
PROBE(inv) { putm<2, 2>(out, inv(mat<2, 2>(in))); }
PROBE(rot) { putm<2, 2>(out, makeRotationMatrix(in[0])); }

#define BOX(D)                                                                           \
  PROBE(box##D)                                                                          \
  {                                                                                      \
    AxisAlignedBox<D, F64> const a(pt<D>(in), pt<D>(in + D));                            \
    put<D>(out, a.minima());                                                             \
    put<D>(out + D, a.maxima());                                                         \
    put<D>(out + 2 * D, a.extents());                                                    \
    put<D>(out + 3 * D, a.centroid());                                                   \
    for (Int i = 0; i < D; ++i) {                                                        \
      out[4 * D + i] = a.minima(i);                                                      \
      out[5 * D + i] = a.maxima(i);                                                      \
      out[6 * D + i] = a.extents(i);                                                     \
    }                                                                                    \
    auto s = a;                                                                          \
    s.scale(in[4 * D]);                                                                  \
    put<D>(out + 7 * D, s.minima());                                                     \
    put<D>(out + 8 * D, s.maxima());                                                     \
  }                                                                                      \
  PROBE(boxu##D)                                                                         \
  {                                                                                      \
    AxisAlignedBox<D, F64> const a(pt<D>(in), pt<D>(in + D));                            \
    AxisAlignedBox<D, F64> const b(pt<D>(in + 2 * D), pt<D>(in + 3 * D));                \
    auto const u = a + b;                                                                \
    put<D>(out, u.minima());                                                             \
    put<D>(out + D, u.maxima());                                                         \
    auto const p = a + pt<D>(in + 2 * D);                                                \
    put<D>(out + 2 * D, p.minima());                                                     \
    put<D>(out + 3 * D, p.maxima());                                                     \
    auto const e = AxisAlignedBox<D, F64>::empty();                                      \
    put<D>(out + 4 * D, e.minima());                                                     \
    put<D>(out + 5 * D, e.maxima());                                                     \
    out[6 * D] = infDistance<F64>();                                                     \
  }                                                                                      \
  PROBE(boxc##D)                                                                         \
  {                                                                                      \
    AxisAlignedBox<D, F64> const a(pt<D>(in), pt<D>(in + D));                            \
    out[0] = a.contains(pt<D>(in + 2 * D));                                              \
  }                                                                                      \
  PROBE(boxi##D)                                                                         \
  {                                                                                      \
    AxisAlignedBox<D, F64> const a(pt<D>(in), pt<D>(in + D));                            \
    AxisAlignedBox<D, F64> const b(pt<D>(in + 2 * D), pt<D>(in + 3 * D));                \
    out[0] = a.intersects(b);                                                            \
  }                                                                                      \
  PROBE(boxp##D)                                                                         \
  {                                                                                      \
    Point<D, F64> const p[3] = {pt<D>(in), pt<D>(in + D), pt<D>(in + 2 * D)};            \
    auto const u = boundingBox(p, 3);                                                    \
    put<D>(out, u.minima());                                                             \
    put<D>(out + D, u.maxima());                                                         \
  }
BOX(1)
BOX(2)
BOX(3)
