#include "probe.hpp"
#include <um2/math/cubic_equation.hpp>
#include <um2/math/quadratic_equation.hpp>
#include <um2/math/stats.hpp>
// statistics of in[0..N)
#define STATS(N)                                                                         \
  PROBE(sum##N) { out[0] = um2::sum(in, in + N); }                                       \
  PROBE(mean##N) { out[0] = um2::mean(in, in + N); }                                     \
  PROBE(median##N) { out[0] = um2::median(in, in + N); }
#define VAR(N)                                                                           \
  PROBE(variance##N) { out[0] = um2::variance(in, in + N); }                             \
  PROBE(stddev##N) { out[0] = um2::stdDev(in, in + N); }
STATS(1)
STATS(2)
STATS(3)
STATS(4)
STATS(5)
STATS(8)
VAR(2)
VAR(3)
VAR(4)
VAR(5)
PROBE(bigsum128) { out[0] = um2::sum(in, in + 128); }
PROBE(bigsum129) { out[0] = um2::sum(in, in + 129); }
PROBE(bigsum130) { out[0] = um2::sum(in, in + 130); }
PROBE(bigsum257) { out[0] = um2::sum(in, in + 257); }
PROBE(quadratic) { put<2>(out, um2::solveQuadratic(in[0], in[1], in[2])); }
PROBE(disc) { out[0] = um2::quadraticDiscriminant(in[0], in[1], in[2]); }
PROBE(cubic) { put<3>(out, um2::solveCubic(in[0], in[1], in[2], in[3])); }
