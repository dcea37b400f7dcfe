// Element soups and face-vertex meshes: contents after every edit and conversion.
#include "probe.hpp"
#include "../src/mesh/polytope_soup.cpp"
#include "../src/mesh/face_vertex_mesh.cpp"
// clang-format off
#define P(name) extern "C" void probe_##name(double const * __restrict in, double * __restrict out)
using E = VTKElemType;

// vertices, elements and sets, one number after the other
[[gnu::noinline]] static auto
dump(double * o, PolytopeSoup const & s) -> double *
{
  *o++ = s.numVertices();
  for (Int i = 0; i < s.numVertices(); ++i) for (Int d = 0; d < 3; ++d) *o++ = s.getVertex(i)[d];
  *o++ = s.numElements();
  E type;
  Vector<Int> conn;
  for (Int i = 0; i < s.numElements(); ++i) {
    s.getElement(i, type, conn);
    *o++ = static_cast<Int>(type);
    *o++ = conn.size();
    for (Int const v : conn) *o++ = v;
  }
  *o++ = s.numElsets();
  for (Int i = 0; i < s.numElsets(); ++i) {
    String name;
    Vector<Int> ids;
    Vector<Float> data = {1, 2};
    s.getElset(i, name, ids, data);
    *o++ = name.size();
    for (Int k = 0; k < name.size(); ++k) *o++ = name.data()[k];
    *o++ = ids.size();
    for (Int const v : ids) *o++ = v;
    *o++ = data.size();
    for (Float const v : data) *o++ = v;
  }
  return o;
}

// the same, elements given by the coordinates of their vertices
[[gnu::noinline]] static auto
shapes(double * o, PolytopeSoup const & s) -> double *
{
  *o++ = s.numVertices();
  *o++ = s.numElements();
  E type;
  Vector<Int> conn;
  for (Int i = 0; i < s.numElements(); ++i) {
    s.getElement(i, type, conn);
    *o++ = static_cast<Int>(type);
    *o++ = conn.size();
    for (Int const v : conn) for (Int d = 0; d < 3; ++d) *o++ = s.getVertex(v)[d];
  }
  *o++ = s.numElsets();
  for (Int i = 0; i < s.numElsets(); ++i) {
    String name;
    Vector<Int> ids;
    Vector<Float> data = {1, 2};
    s.getElset(i, name, ids, data);
    *o++ = name.size();
    for (Int k = 0; k < name.size(); ++k) *o++ = name.data()[k];
    *o++ = ids.size();
    for (Int const v : ids) *o++ = v;
    *o++ = data.size();
    for (Float const v : data) *o++ = v;
  }
  return o;
}

[[gnu::noinline]] static auto
numbers(double const * in, Int n) -> Vector<Float>
{
  Vector<Float> v(n);
  for (Int i = 0; i < n; ++i) v[i] = in[i];
  return v;
}

// Soup 1: 9 vertices, quadrilateral, triangle, six-node triangle, triangle; sets q, a, m, b added in that order
// (b and q with data)
[[gnu::noinline]] static void
first(PolytopeSoup & s, double const * in)
{
  for (Int i = 0; i < 9; ++i) s.addVertex(in[3 * i], in[3 * i + 1], in[3 * i + 2]);
  s.addElement(E::Quad, {8, 1, 2, 7});
  s.addElement(E::Triangle, {3, 0, 7});
  s.addElement(E::QuadraticTriangle, {6, 5, 4, 3, 2, 1});
  s.addElement(E::Triangle, {2, 4, 8});
  s.addElset("q", {1, 2, 3}, numbers(in + 100, 3));
  s.addElset("a", {0, 3});
  s.addElset("m", {1});
  s.addElset("b", {0, 1}, numbers(in + 110, 2));
}

// Soup 2: 5 vertices, two triangles; sets n, m, q
[[gnu::noinline]] static void
second(PolytopeSoup & s, double const * in)
{
  for (Int i = 0; i < 5; ++i) s.addVertex(Point3F(in[200 + 3 * i], in[201 + 3 * i], in[202 + 3 * i]));
  s.addElement(E::Triangle, {4, 3, 2});
  s.addElement(E::Triangle, {0, 1, 4});
  s.addElset("q", {0, 1}, numbers(in + 220, 2));
  s.addElset("n", {1}, numbers(in + 230, 1));
  s.addElset("m", {0, 1});
}

P(add)
{
  PolytopeSoup s;
  double * o = dump(out, s);
  *o++ = s.addVertex(in[0], in[1], in[2]);
  *o++ = s.addVertex(Point3F(in[3], in[4], in[5]));
  *o++ = s.addVertex(in[6], in[7]);
  *o++ = s.addElement(E::Triangle, {2, 0, 1});
  *o++ = s.addElement(E::Line, {1, 2});
  *o++ = s.addElset("x", {1});
  *o++ = s.addElset("long_name_of_a_set_that_is_not_short", {0, 1}, numbers(in + 10, 2));
  o = dump(o, s);
  s.reserveMoreVertices(3);
  s.reserveMoreElements(E::Quad, 2);
  o = dump(o, s);
  for (auto const & t : s.getElemTypes()) *o++ = static_cast<Int>(t);
}
P(refuse)
{
  PolytopeSoup s;
  second(s, in);
  double * o = out;
  *o++ = s.addElset("m", {0});
  *o++ = s.addElset("new", {});
  *o++ = s.addElset("new", {0, 1}, numbers(in + 10, 1));
  dump(o, s);
}
P(build)
{
  PolytopeSoup s;
  first(s, in);
  double * o = dump(out, s);
  for (auto const & t : s.getElemTypes()) *o++ = static_cast<Int>(t);
  *o++ = s.vertices().size();
  *o++ = s.elementTypes().size();
  for (auto const & t : s.elementTypes()) *o++ = static_cast<Int>(t);
  for (Int const v : s.elementOffsets()) *o++ = v;
  for (Int const v : s.elementConnectivity()) *o++ = v;
  for (Int const v : s.elsetOffsets()) *o++ = v;
  for (Int const v : s.elsetIDs()) *o++ = v;
  Vector<Int> ids = {7, 7};
  Vector<Float> data = {1, 2};
  for (char const * n : {"m", "q", "b", "a"}) {
    s.getElset(n, ids, data);
    *o++ = ids.size();
    for (Int const v : ids) *o++ = v;
    *o++ = data.size();
    for (Float const v : data) *o++ = v;
  }
}
P(move)
{
  PolytopeSoup s;
  first(s, in);
  s.translate(Point3F(in[300], in[301], in[302]));
  dump(out, s);
}
P(sort)
{
  PolytopeSoup s;
  first(s, in);
  s.sortElsets();
  double * o = dump(out, s);
  // numbers out of order (only without assertions)
  PolytopeSoup t;
  second(t, in);
  t.addElement(E::Triangle, {1, 2, 3});
  t.addElset("c", {2, 0, 1}, numbers(in + 240, 3));
  t.addElset("c0", {1, 2, 0});
  t.sortElsets();
  dump(o, t);
}
P(append)
{
  PolytopeSoup a, b;
  first(a, in);
  second(b, in);
  a.sortElsets();
  b.sortElsets();
  PolytopeSoup ab = a;
  ab += b;
  double * o = dump(out, ab);
  PolytopeSoup ba = b;
  ba += a;
  o = dump(o, ba);
  o = dump(o, a);
  o = dump(o, b);
}
P(append_empty)
{
  PolytopeSoup a, b, e, f;
  first(a, in);
  second(b, in);
  a.sortElsets();
  b.sortElsets();
  e += b;
  double * o = dump(out, e);
  e += f;
  o = dump(o, e);
  f.addVertex(in[0], in[1], in[2]);
  e += f;
  o = dump(o, e);
  // without sets
  PolytopeSoup g;
  g.addVertex(in[3], in[4], in[5]);
  g.addVertex(in[6], in[7], in[8]);
  g.addElement(E::Line, {1, 0});
  e += g;
  o = dump(o, e);
  g += b;
  o = dump(o, g);
  g += g;
  o = dump(o, g);
}
#define SUBSET(n) P(subset_##n) { PolytopeSoup a; first(a, in); PolytopeSoup s; a.getSubset(#n, s); double * o = shapes(out, s); dump(o, a); }
SUBSET(q)
SUBSET(a)
SUBSET(m)
SUBSET(b)
SUBSET(none)
P(compare)
{
  double * o = out;
  PolytopeSoup a;
  first(a, in);
  { PolytopeSoup b; first(b, in); *o++ = a.compare(b) == 0; }
  { PolytopeSoup b; second(b, in); *o++ = a.compare(b) == 0; }
  { PolytopeSoup b; first(b, in); b.addVertex(in[0], in[1], in[2]); *o++ = a.compare(b) == 0; *o++ = b.compare(a) == 0; }
  { PolytopeSoup b; first(b, in); b.addElement(E::Line, {0, 1}); *o++ = a.compare(b) == 0; }
  { PolytopeSoup b; first(b, in); b.addElset("z", {0}); *o++ = a.compare(b) == 0; }
  { PolytopeSoup b, c, d; for (Int i = 0; i < 5; ++i) { b.addVertex(in[i], 0, 0); c.addVertex(in[i], 0, 0); d.addVertex(in[i], 0, 0); }
    b.addElement(E::Triangle, {0, 1, 2}); c.addElement(E::Triangle, {0, 2, 1}); d.addElement(E::Triangle, {0, 1, 2});
    *o++ = b.compare(c) == 0;
    b.addElset("s", {0}, numbers(in + 100, 1)); d.addElset("s", {0}); *o++ = b.compare(d) == 0; *o++ = d.compare(b) == 0; }
  { PolytopeSoup b, c; for (Int i = 0; i < 3; ++i) { b.addVertex(in[i], 0, 0); c.addVertex(in[i], 0, 0); }
    b.addElement(E::Triangle, {0, 1, 2}); c.addElement(E::Triangle, {0, 1, 2});
    b.addElset("s", {0}, numbers(in + 100, 1)); c.addElset("s", {0}, numbers(in + 101, 1)); *o++ = b.compare(c) == 0; }
  { PolytopeSoup b, c; for (Int i = 0; i < 3; ++i) { b.addVertex(in[i], 0, 0); c.addVertex(in[i], 0, 0); }
    for (Int k = 0; k < 2; ++k) { b.addElement(E::Triangle, {0, 1, 2}); c.addElement(E::Triangle, {0, 1, 2}); }
    b.addElset("s", {0}); c.addElset("s", {1}); *o++ = b.compare(c) == 0; }
  { PolytopeSoup b, c; for (Int i = 0; i < 3; ++i) { b.addVertex(in[i], 0, 0); c.addVertex(in[i], 0, 0); }
    b.addElement(E::Triangle, {0, 1, 2}); c.addElement(E::Line, {0, 1}); *o++ = b.compare(c) == 0; }
  { PolytopeSoup b, c; b.addVertex(in[0], in[1], in[2]); c.addVertex(in[3], in[4], in[5]); *o++ = b.compare(c) == 0; }
  for (Int d = 0; d < 6; ++d) {
    PolytopeSoup b, c;
    for (Int i = 0; i < 2; ++i) {
      Point3F p(in[3 * i], in[3 * i + 1], in[3 * i + 2]);
      b.addVertex(p);
      if (d / 3 == i) p[d % 3] += 0.125;
      c.addVertex(p);
    }
    *o++ = b.compare(c) == 0;
  }
}
//--- face-vertex meshes: nv vertices, face f lists f, f + 1, ... (f odd: backwards)
template <Int N>
static auto
node(Int nv, Int f, Int j) -> Int
{
  return (f % 2 == 0 ? f + j : nv + f - j) % nv;
}
template <Int N>
[[gnu::noinline]] static void
soup(PolytopeSoup & s, double const * in, Int nv, Int nf, E type)
{
  for (Int i = 0; i < nv; ++i) s.addVertex(in[3 * i], in[3 * i + 1], in[3 * i + 2]);
  Vector<Int> c(N);
  for (Int f = 0; f < nf; ++f) {
    for (Int j = 0; j < N; ++j) c[j] = node<N>(nv, f, j);
    s.addElement(type, c);
  }
}
template <class M, Int N>
[[gnu::noinline]] static auto
dumpMesh(double * o, M const & m) -> double *
{
  *o++ = m.numVertices();
  for (Int i = 0; i < m.numVertices(); ++i) for (Int d = 0; d < 2; ++d) *o++ = m.getVertex(i)[d];
  *o++ = m.numFaces();
  for (Int i = 0; i < m.numFaces(); ++i) for (Int j = 0; j < N; ++j) *o++ = m.getFaceConn(i)[j];
  return o;
}
template <class M, Int N>
[[gnu::noinline]] static void
mesh(M & m, double const * in, Int nv, Int nf)
{
  for (Int i = 0; i < nv; ++i) m.addVertex(Point2F(in[2 * i], in[2 * i + 1]));
  Vec<N, Int> c;
  for (Int f = 0; f < nf; ++f) {
    for (Int j = 0; j < N; ++j) c[j] = node<N>(nv, f, j);
    m.addFace(c);
  }
}
template <class M, Int N>
[[gnu::noinline]] static auto
faces(double * o, M const & m) -> double *
{
  // vertices, and the faces by the coordinates of their vertices
  for (Int i = 0; i < m.numVertices(); ++i) for (Int d = 0; d < 2; ++d) *o++ = m.getVertex(i)[d];
  for (Int i = 0; i < m.numFaces(); ++i) {
    auto const f = m.getFace(i);
    for (Int j = 0; j < N; ++j) for (Int d = 0; d < 2; ++d) *o++ = f[j][d];
  }
  return o;
}
template <class M>
[[gnu::noinline]] static auto
adjacency(double * o, M const & m) -> double *
{
  for (Int i = 0; i < m.numVertices(); ++i) {
    Int const b = m.vertexFaceOffsets()[i], e = m.vertexFaceOffsets()[i + 1];
    *o++ = e - b;
    for (Int k = b; k < e; ++k) *o++ = m.vertexFaceConn()[k];
  }
  *o++ = m.vertexFaceConn().size();
  return o;
}
#define MESH(name, M, N, nv, nf, type) \
P(from_##name) { PolytopeSoup s; soup<N>(s, in, nv, nf, type); M const m(s, false); dumpMesh<M, N>(out, m); } \
P(from_wrong_##name) { PolytopeSoup s; soup<N>(s, in, nv, nf, N == 3 ? E::Quad : E::Triangle); M const m(s, false); } \
P(from_mixed_##name) { PolytopeSoup s; soup<N>(s, in, nv, nf, type); s.addElement(E::Line, {0, 1}); M const m(s, false); } \
P(to_##name) { M m; mesh<M, N>(m, in, nv, nf); PolytopeSoup s = m; dump(out, s); } \
P(vf_##name) { M m; mesh<M, N>(m, in, nv, nf); m.populateVF(); double * o = adjacency(out, m); m.addVertex({in[0], in[1]}); m.populateVF(); adjacency(o, m); } \
P(morton_##name) { M m; mesh<M, N>(m, in, nv, nf); m.populateVF(); m.mortonSort(); double * o = faces<M, N>(out, m); adjacency(o, m); } \
P(plain_##name) { M m; mesh<M, N>(m, in, nv, nf); m.mortonSort(); faces<M, N>(out, m); }
MESH(tri, TriFVM, 3, 5, 3, E::Triangle)
MESH(quad, QuadFVM, 4, 6, 3, E::Quad)
MESH(tri6, Tri6FVM, 6, 8, 3, E::QuadraticTriangle)
MESH(quad8, Quad8FVM, 8, 10, 3, E::QuadraticQuad)
