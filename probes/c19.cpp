#include "probe.hpp"
#include "../src/physics/cross_section.cpp"
#include "../src/physics/cross_section_library.cpp"
#include "../src/physics/nuclide.cpp"
#include "../src/physics/material.cpp"
// layout of one cross section in in[]: a[G] f[G] nuf[G] tr[G] s[G] ss[G*G] (column-major: to, from)
#define XS(G) (5 * (G) + (G) * (G))
static inline auto mkxs(double const * in, Int G, bool macro, bool fissile) -> XSec
{
  XSec x(G);
  for (Int g = 0; g < G; ++g) {
    x.a()[g] = in[g];
    x.f()[g] = in[G + g];
    x.nuf()[g] = in[2 * G + g];
    x.tr()[g] = in[3 * G + g];
    x.s()[g] = in[4 * G + g];
    for (Int h = 0; h < G; ++h) x.ss()(h, g) = in[5 * G + G * g + h];
  }
  x.isMacro() = macro;
  x.isFissile() = fissile;
  return x;
}
static inline void putxs(double * out, XSec const & x, Int G)
{
  for (Int g = 0; g < G; ++g) {
    out[g] = x.a()[g];
    out[G + g] = x.f()[g];
    out[2 * G + g] = x.nuf()[g];
    out[3 * G + g] = x.tr()[g];
    out[4 * G + g] = x.s()[g];
    for (Int h = 0; h < G; ++h) out[5 * G + G * g + h] = x.ss()(h, g);
  }
  out[XS(G)] = x.isMacro();
  out[XS(G) + 1] = x.isFissile();
  out[XS(G) + 2] = x.numGroups();
  out[XS(G) + 3] = x.a().size();
  out[XS(G) + 4] = x.f().size();
  out[XS(G) + 5] = x.nuf().size();
  out[XS(G) + 6] = x.tr().size();
  out[XS(G) + 7] = x.s().size();
  out[XS(G) + 8] = x.ss().rows();
  out[XS(G) + 9] = x.ss().cols();
}
// in: temperature, temperatures[T], cross sections; flags: macro, fissile
#define INTERP(T, G)                                                                     \
  extern "C" void probe_interp##T##x##G(double const * __restrict in, double * __restrict out, bool m, bool f) \
  {                                                                                      \
    Nuclide n;                                                                           \
    for (Int i = 0; i < T; ++i) n.temperatures().emplace_back(in[1 + i]);                \
    for (Int i = 0; i < T; ++i) n.xs().emplace_back(mkxs(in + 1 + T + i * XS(G), G, m, f)); \
    putxs(out, n.interpXS(in[0]), G);                                                    \
  }
INTERP(1, 2)
INTERP(2, 1)
INTERP(2, 2)
INTERP(3, 2)
INTERP(4, 1)
#define COLLAPSE(G)                                                                      \
  extern "C" void probe_collapse##G(double const * __restrict in, double * __restrict out, bool m, bool f) \
  {                                                                                      \
    putxs(out, mkxs(in, G, m, f).collapseTo1GroupAvg(), 1);                              \
  }                                                                                      \
  extern "C" void probe_total##G(double const * __restrict in, double * __restrict out, bool m, bool f) \
  {                                                                                      \
    auto const x = mkxs(in, G, m, f);                                                    \
    for (Int g = 0; g < G; ++g) out[g] = x.t(g);                                         \
  }                                                                                      \
  extern "C" void probe_validate##G(double const * __restrict in, double * __restrict, bool m, bool f) \
  {                                                                                      \
    mkxs(in, G, m, f).validate();                                                        \
  }
COLLAPSE(1)
COLLAPSE(2)
COLLAPSE(3)
// a material of three nuclides (two temperatures, one temperature, three temperatures) of a library of four
// in: material temperature, number densities[3], then the nuclides' temperatures and cross sections
#define POPULATE(G)                                                                      \
  extern "C" void probe_populate##G(double const * __restrict in, double * __restrict out, bool f0, bool f1, bool f2) \
  {                                                                                      \
    XSLibrary lib;                                                                       \
    for (Int g = 0; g < G; ++g) lib.groupBounds().emplace_back(1.0 + g);                 \
    Int const zaid[4] = {8016, 92235, 1001, 92238};                                      \
    Int const nt[4] = {2, 3, 2, 1};                                                      \
    bool const fis[4] = {f0, f1, true, f2};                                              \
    double const * p = in + 4;                                                           \
    for (Int k = 0; k < 4; ++k) {                                                        \
      Nuclide n;                                                                         \
      n.zaid() = zaid[k];                                                                \
      n.mass() = 1;                                                                      \
      n.isFissile() = fis[k];                                                            \
      for (Int i = 0; i < nt[k]; ++i) n.temperatures().emplace_back(*p++);               \
      for (Int i = 0; i < nt[k]; ++i, p += XS(G)) n.xs().emplace_back(mkxs(p, G, false, fis[k])); \
      lib.nuclides().emplace_back(n);                                                    \
    }                                                                                    \
    Material m;                                                                          \
    m.setName("M");                                                                      \
    m.setTemperature(in[0]);                                                             \
    m.setDensity(1);                                                                     \
    m.addNuclide(92238, in[1]);                                                          \
    m.addNuclide(8016, in[2]);                                                           \
    m.addNuclide(92235, in[3]);                                                          \
    m.populateXSec(lib);                                                                 \
    putxs(out, m.xsec(), G);                                                             \
  }
POPULATE(1)
POPULATE(2)
