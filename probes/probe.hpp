#pragma once
// Helpers of the probe translation units.  A probe only instantiates repository code on
// inputs in[] and lays the results out in out[]; it is compiled to IR and never run.
#include <um2/config.hpp>
#include <um2/geometry/line_segment.hpp>
#include <um2/geometry/quadratic_segment.hpp>
#include <um2/geometry/triangle.hpp>
#include <um2/geometry/quadrilateral.hpp>
#include <um2/geometry/quadratic_triangle.hpp>
#include <um2/geometry/quadratic_quadrilateral.hpp>
using namespace um2;
using F64 = double;
#define PROBE(name) extern "C" void probe_##name(double const * __restrict in, double * __restrict out)

template <Int D>
static inline auto pt(double const * in) -> Point<D, F64>
{
  Point<D, F64> p;
  for (Int i = 0; i < D; ++i) p[i] = in[i];
  return p;
}

template <Int D>
static inline void put(double * out, Vec<D, F64> const & v)
{
  for (Int i = 0; i < D; ++i) out[i] = v[i];
}

template <class Poly, Int D>
static inline auto mk(double const * in) -> Poly
{
  Poly p;
  for (Int i = 0; i < Poly::N; ++i) p[i] = pt<D>(in + D * i);
  return p;
}
