#include <um2/config.hpp>
#include <um2/geometry/modular_rays.hpp>
extern "C" void probe_params(double const * __restrict in, int const * __restrict, double * __restrict out, int * __restrict io)
{
  um2::AxisAlignedBox2<double> const box(um2::Point2<double>(in[0], in[1]), um2::Point2<double>(in[2], in[3]));
  um2::ModularRayParams<double> const p(in[4], in[5], box);
  io[0] = p.getNumXRays();
  io[1] = p.getNumYRays();
  io[2] = p.getTotalNumRays();
  auto const s = p.getSpacing();
  auto const d = p.getDirection();
  out[0] = s[0];
  out[1] = s[1];
  out[2] = d[0];
  out[3] = d[1];
}
extern "C" void probe_ray(double const * __restrict in, int const * __restrict ii, double * __restrict out, int * __restrict io)
{
  um2::AxisAlignedBox2<double> const box(um2::Point2<double>(in[0], in[1]), um2::Point2<double>(in[2], in[3]));
  um2::ModularRayParams<double> const p(in[4], in[5], box);
  auto const s = p.getSpacing();
  auto const d = p.getDirection();
  out[0] = s[0];
  out[1] = s[1];
  out[2] = d[0];
  out[3] = d[1];
  io[0] = p.getNumXRays();
  io[1] = p.getNumYRays();
  auto const r = p.getRay(ii[0]);
  out[4] = r.origin()[0];
  out[5] = r.origin()[1];
  out[6] = r.direction()[0];
  out[7] = r.direction()[1];
}
