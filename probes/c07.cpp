#include <um2/config.hpp>
#include <um2/math/morton.hpp>
#define ENC(name, U)                                                                     \
  extern "C" void probe_enc2_##name(U const * __restrict in, U * __restrict out)         \
  {                                                                                      \
    out[0] = um2::mortonEncode(in[0], in[1]);                                            \
  }                                                                                      \
  extern "C" void probe_enc3_##name(U const * __restrict in, U * __restrict out)         \
  {                                                                                      \
    out[0] = um2::mortonEncode(in[0], in[1], in[2]);                                     \
  }                                                                                      \
  extern "C" void probe_dec2_##name(U const * __restrict in, U * __restrict out)         \
  {                                                                                      \
    um2::mortonDecode(in[0], out[0], out[1]);                                            \
  }                                                                                      \
  extern "C" void probe_dec3_##name(U const * __restrict in, U * __restrict out)         \
  {                                                                                      \
    um2::mortonDecode(in[0], out[0], out[1], out[2]);                                    \
  }                                                                                      \
  extern "C" void probe_max_##name(U const * __restrict, U * __restrict out)             \
  {                                                                                      \
    out[0] = um2::max_2d_morton_coord<U>;                                                \
    out[1] = um2::max_3d_morton_coord<U>;                                                \
  }
ENC(32, uint32_t)
ENC(64, uint64_t)
#define FENC(name, U, T)                                                                 \
  extern "C" void probe_enc2_##name(T const * __restrict in, U * __restrict out)         \
  {                                                                                      \
    out[0] = um2::mortonEncode<U>(in[0], in[1]);                                         \
  }                                                                                      \
  extern "C" void probe_enc3_##name(T const * __restrict in, U * __restrict out)         \
  {                                                                                      \
    out[0] = um2::mortonEncode<U>(in[0], in[1], in[2]);                                  \
  }                                                                                      \
  extern "C" void probe_dec2_##name(U const * __restrict in, T * __restrict out)         \
  {                                                                                      \
    um2::mortonDecode(in[0], out[0], out[1]);                                            \
  }                                                                                      \
  extern "C" void probe_dec3_##name(U const * __restrict in, T * __restrict out)         \
  {                                                                                      \
    um2::mortonDecode(in[0], out[0], out[1], out[2]);                                    \
  }
FENC(f32, uint32_t, float)
FENC(d32, uint32_t, double)
FENC(d64, uint64_t, double)
