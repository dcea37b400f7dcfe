#include <um2/config.hpp>
#include <um2/mesh/element_types.hpp>
extern "C" void probe_verts(signed char const * __restrict in, int * __restrict out)
{
  out[0] = um2::verticesPerElem(static_cast<um2::VTKElemType>(in[0]));
}
extern "C" void probe_infer(int const * __restrict in, int * __restrict out)
{
  out[0] = static_cast<int>(um2::inferVTKElemType(in[0]));
}
extern "C" void probe_x2v(signed char const * __restrict in, int * __restrict out)
{
  out[0] = static_cast<int>(um2::xdmfToVTKElemType(in[0]));
}
extern "C" void probe_v2x(signed char const * __restrict in, int * __restrict out)
{
  out[0] = static_cast<int>(um2::vtkToXDMFElemType(static_cast<um2::VTKElemType>(in[0])));
}
extern "C" void probe_mesh0(signed char const * __restrict, int * __restrict out)
{
  um2::Vector<um2::VTKElemType> const v;
  out[0] = static_cast<int>(um2::getMeshType(v));
}
extern "C" void probe_mesh1(signed char const * __restrict in, int * __restrict out)
{
  um2::Vector<um2::VTKElemType> v(1);
  v[0] = static_cast<um2::VTKElemType>(in[0]);
  out[0] = static_cast<int>(um2::getMeshType(v));
}
extern "C" void probe_mesh2(signed char const * __restrict in, int * __restrict out)
{
  um2::Vector<um2::VTKElemType> v(2);
  v[0] = static_cast<um2::VTKElemType>(in[0]);
  v[1] = static_cast<um2::VTKElemType>(in[1]);
  out[0] = static_cast<int>(um2::getMeshType(v));
}
extern "C" void probe_mesh3(signed char const * __restrict in, int * __restrict out)
{
  um2::Vector<um2::VTKElemType> v(3);
  v[0] = static_cast<um2::VTKElemType>(in[0]);
  v[1] = static_cast<um2::VTKElemType>(in[1]);
  v[2] = static_cast<um2::VTKElemType>(in[2]);
  out[0] = static_cast<int>(um2::getMeshType(v));
}
#define NAMES(E, o)                                                                      \
  out[o + 0] = static_cast<int>(um2::E::Invalid);                                        \
  out[o + 1] = static_cast<int>(um2::E::Vertex);                                         \
  out[o + 2] = static_cast<int>(um2::E::Line);                                           \
  out[o + 3] = static_cast<int>(um2::E::Triangle);                                       \
  out[o + 4] = static_cast<int>(um2::E::Quad);                                           \
  out[o + 5] = static_cast<int>(um2::E::QuadraticEdge);                                  \
  out[o + 6] = static_cast<int>(um2::E::QuadraticTriangle);                              \
  out[o + 7] = static_cast<int>(um2::E::QuadraticQuad);
extern "C" void probe_codes(int const * __restrict, int * __restrict out)
{
  NAMES(VTKElemType, 0)
  NAMES(XDMFElemType, 8)
  out[16] = static_cast<int>(um2::MeshType::Invalid);
  out[17] = static_cast<int>(um2::MeshType::Tri);
  out[18] = static_cast<int>(um2::MeshType::Quad);
  out[19] = static_cast<int>(um2::MeshType::TriQuad);
  out[20] = static_cast<int>(um2::MeshType::QuadraticTri);
  out[21] = static_cast<int>(um2::MeshType::QuadraticQuad);
  out[22] = static_cast<int>(um2::MeshType::QuadraticTriQuad);
}
