#include "probe.hpp"
#include "../src/physics/cross_section.cpp"
#include "../src/physics/cross_section_library.cpp"
#include "../src/physics/nuclide.cpp"
#include "../src/physics/material.cpp"
// the nuclides of a material: count, then (zaid, number density) pairs
static inline void putmat(double * out, Material const & m)
{
  Int const n = m.numNuclides();
  out[0] = n;
  out[1] = m.numDensities().size();
  for (Int i = 0; i < n; ++i) {
    out[2 + 2 * i] = m.zaid(i);
    out[3 + 2 * i] = m.numDensity(i);
  }
}
extern "C" void probe_add(double const * __restrict in, double * __restrict out, Int z0, Int z1, Int z2)
{
  Material m;
  m.addNuclide(z0, in[0]);
  m.addNuclide(z1, in[1]);
  m.addNuclide(z2, in[2]);
  putmat(out, m);
}
extern "C" void probe_wt(double const * __restrict in, double * __restrict out, Int zaid)
{
  Material m;
  m.setDensity(in[0]);
  m.addNuclideWt(zaid, in[1]);
  putmat(out, m);
}
extern "C" void probe_at(double const * __restrict in, double * __restrict out)
{
  Material m;
  m.setDensity(in[0]);
  Vector<String> s;
  s.emplace_back("H1");
  s.emplace_back("O16");
  s.emplace_back("U235");
  Vector<Float> p;
  p.emplace_back(in[1]);
  p.emplace_back(in[2]);
  p.emplace_back(in[3]);
  m.addNuclidesAtomPercent(s, p);
  putmat(out, m);
}
PROBE(sym)
{
  Material m;
  m.setDensity(in[0]);
  m.addNuclide("U235", in[1]);
  m.addNuclideWt("Pu239", in[2]);
  putmat(out, m);
}
PROBE(uo2)
{
  Material m;
  m.setDensity(in[0]);
  m.setUO2(in[1], in[2]);
  putmat(out, m);
}
PROBE(uo2zero)
{
  Material m;
  m.setDensity(in[0]);
  m.setUO2(in[1], 0);
  putmat(out, m);
}
PROBE(uo2plain)
{
  Material m;
  m.setDensity(in[0]);
  m.setUO2(in[1]);
  putmat(out, m);
}
// symbols of one and two letters, the letters are inputs
extern "C" Int probe_zaid1(char const * __restrict in)
{
  String s("H123");
  s.data()[0] = in[0];
  return toZAID(s);
}
extern "C" Int probe_zaid2(char const * __restrict in)
{
  String s("He123");
  s.data()[0] = in[0];
  s.data()[1] = in[1];
  return toZAID(s);
}
// tables
extern "C" void probe_masses(double * __restrict out)
{
  out[0] = ZAID_ATOMIC_MASS.size();
  for (Int i = 0; i < ZAID_ATOMIC_MASS.size(); ++i) {
    out[1 + 2 * i] = ZAID_ATOMIC_MASS[i].first;
    out[2 + 2 * i] = ZAID_ATOMIC_MASS[i].second;
  }
}
extern "C" void probe_c5g7(double * __restrict out)
{
  auto const m = getC5G7Materials();
  for (Int k = 0; k < 7; ++k) {
    double * o = out + 120 * k;
    XSec const & x = m[k].xsec();
    Int const G = 7;
    for (Int g = 0; g < G; ++g) {
      o[g] = x.a()[g];
      o[G + g] = x.f()[g];
      o[2 * G + g] = x.nuf()[g];
      o[3 * G + g] = x.tr()[g];
      o[4 * G + g] = x.s()[g];
      for (Int h = 0; h < G; ++h) o[5 * G + G * g + h] = x.ss()(h, g);
    }
    o[84] = x.numGroups();
    o[85] = x.isMacro();
    o[86] = x.isFissile();
    o[87] = m[k].getName().size();
    for (Int j = 0; j < m[k].getName().size(); ++j) o[88 + j] = m[k].getName().data()[j];
  }
}
