#include <um2/config.hpp>
#include <um2/math/matrix.hpp>
#include <type_traits>
#if UM2_USE_BLAS_LAPACK
#  include "../src/math/matrix.cpp"
#endif

template <class T>
static inline um2::Matrix<T>
mat(int r, int c, T const * p)
{
  um2::Matrix<T> m(r, c);
  for (int j = 0; j < c; ++j) {
    for (int i = 0; i < r; ++i) {
      m(i, j) = p[j * r + i];
    }
  }
  return m;
}
template <class T>
static inline void
put(T * out, um2::Matrix<T> const & m)
{
  for (int j = 0; j < m.cols(); ++j) {
    for (int i = 0; i < m.rows(); ++i) {
      out[j * m.rows() + i] = m(i, j);
    }
  }
}
template <class T>
static inline um2::Vector<T>
vec(int n, T const * p)
{
  um2::Vector<T> v(n);
  for (int i = 0; i < n; ++i) {
    v[i] = p[i];
  }
  return v;
}
#define P(name, T)                                                                       \
  extern "C" void probe_##name(T const * __restrict in, T * __restrict out, int * __restrict io)
// products of an R x K matrix with a K x C matrix / K vector; inputs are written back after the results
#define PROD(nm, T, R, K, C)                                                             \
  P(mul_##nm##_##R##K##C, T)                                                             \
  {                                                                                      \
    auto const a = mat<T>(R, K, in);                                                     \
    auto const b = mat<T>(K, C, in + (R * K));                                           \
    auto const c = a * b;                                                                \
    io[0] = c.rows();                                                                    \
    io[1] = c.cols();                                                                    \
    put(out, c);                                                                         \
    put(out + R * C, a);                                                                 \
    put(out + R * C + R * K, b);                                                         \
  }                                                                                      \
  P(matmul_##nm##_##R##K##C, T)                                                          \
  {                                                                                      \
    auto const a = mat<T>(R, K, in);                                                     \
    auto const b = mat<T>(K, C, in + (R * K));                                           \
    auto c = mat<T>(R, C, in + (R * K) + K * C);                                         \
    um2::matmul(c, a, b);                                                                \
    io[0] = c.rows();                                                                    \
    io[1] = c.cols();                                                                    \
    put(out, c);                                                                         \
    put(out + R * C, a);                                                                 \
    put(out + R * C + R * K, b);                                                         \
  }                                                                                      \
  P(mv_##nm##_##R##K##C, T)                                                              \
  {                                                                                      \
    auto const a = mat<T>(R, K, in);                                                     \
    auto const x = vec<T>(K, in + (R * K));                                              \
    auto const y = a * x;                                                                \
    io[0] = y.size();                                                                    \
    for (int i = 0; i < R; ++i) {                                                        \
      out[i] = y[i];                                                                     \
    }                                                                                    \
    put(out + R, a);                                                                     \
    for (int i = 0; i < K; ++i) {                                                        \
      out[R + R * K + i] = x[i];                                                         \
    }                                                                                    \
  }
// element-wise operations on two R x C matrices
#define ELEM(nm, T, R, C)                                                                \
  P(elem_##nm##_##R##C, T)                                                               \
  {                                                                                      \
    constexpr int n = R * C;                                                             \
    auto const a = mat<T>(R, C, in);                                                     \
    auto const b = mat<T>(R, C, in + n);                                                 \
    auto const s = a + b;                                                                \
    auto const d = a - b;                                                                \
    put(out, s);                                                                         \
    put(out + n, d);                                                                     \
    auto p = mat<T>(R, C, in);                                                           \
    p += b;                                                                              \
    put(out + 2 * n, p);                                                                 \
    auto q = mat<T>(R, C, in);                                                           \
    q -= b;                                                                              \
    put(out + 3 * n, q);                                                                 \
    auto m = mat<T>(R, C, in);                                                           \
    m *= in[2 * n];                                                                      \
    put(out + 4 * n, m);                                                                 \
    put(out + 5 * n, a);                                                                 \
    put(out + 6 * n, b);                                                                 \
    auto z = mat<T>(R, C, in);                                                           \
    z.zero();                                                                            \
    put(out + 7 * n, z);                                                                 \
    um2::Matrix<T> const f(R, C, in[2 * n]);                                             \
    put(out + 8 * n, f);                                                                 \
    for (int k = 0; k < n; ++k) {                                                        \
      out[9 * n + k] = a(k);                                                             \
      out[10 * n + k] = a.data()[k];                                                     \
      out[11 * n + k] = a.asVector()[k];                                                 \
      out[12 * n + k] = *(a.begin() + k);                                                \
    }                                                                                    \
    io[0] = a.rows();                                                                    \
    io[1] = a.cols();                                                                    \
    io[2] = s.rows();                                                                    \
    io[3] = s.cols();                                                                    \
    io[4] = d.rows();                                                                    \
    io[5] = d.cols();                                                                    \
    io[6] = static_cast<int>(a.end() - a.begin());                                       \
    io[7] = a.asVector().size();                                                         \
  }
#define SQUARE(nm, T, N)                                                                 \
  P(square_##nm##_##N, T)                                                                \
  {                                                                                      \
    auto t = mat<T>(N, N, in);                                                           \
    t.transpose();                                                                       \
    put(out, t);                                                                         \
    auto const e = um2::Matrix<T>::identity(N);                                          \
    put(out + N * N, e);                                                                 \
    io[0] = t.rows();                                                                    \
    io[1] = t.cols();                                                                    \
    io[2] = e.rows();                                                                    \
    io[3] = e.cols();                                                                    \
  }
#if UM2_USE_BLAS_LAPACK
#  define SOLVE(nm, T, N, C)                                                             \
    P(solve_##nm##_##N##C, T)                                                            \
    {                                                                                    \
      auto const a = mat<T>(N, N, in);                                                   \
      auto const b = mat<T>(N, C, in + N * N);                                           \
      auto const x = um2::linearSolve(a, b);                                             \
      put(out, x);                                                                       \
      put(out + N * C, a);                                                               \
      put(out + N * C + N * N, b);                                                       \
      io[0] = x.rows();                                                                  \
      io[1] = x.cols();                                                                  \
    }                                                                                    \
    P(solvein_##nm##_##N##C, T)                                                          \
    {                                                                                    \
      auto a = mat<T>(N, N, in);                                                         \
      auto b = mat<T>(N, C, in + N * N);                                                 \
      um2::Vector<Int> p(N);                                                             \
      um2::linearSolve(a, b, p);                                                         \
      put(out, b);                                                                       \
      io[0] = b.rows();                                                                  \
      io[1] = b.cols();                                                                  \
    }
#  define EIG(nm, T, C, N)                                                               \
    extern "C" void probe_eig_##nm##_##N(T const * __restrict in, C * __restrict out,    \
                                         T * __restrict back, int * __restrict io)      \
    {                                                                                    \
      auto const a = mat<T>(N, N, in);                                                   \
      auto const w = um2::eigvals(a);                                                    \
      io[0] = w.size();                                                                  \
      for (int i = 0; i < N; ++i) {                                                      \
        out[i] = w[i];                                                                   \
      }                                                                                  \
      put(back, a);                                                                      \
    }
#else
#  define SOLVE(nm, T, N, C)
#  define EIG(nm, T, C, N)
#endif
#define ALL(nm, T)                                                                       \
  PROD(nm, T, 2, 3, 4)                                                                   \
  PROD(nm, T, 3, 1, 2)                                                                   \
  PROD(nm, T, 1, 4, 1)                                                                   \
  ELEM(nm, T, 2, 3)                                                                      \
  ELEM(nm, T, 3, 1)                                                                      \
  SQUARE(nm, T, 1)                                                                       \
  SQUARE(nm, T, 2)                                                                       \
  SQUARE(nm, T, 4)                                                                       \
  SOLVE(nm, T, 2, 1)                                                                     \
  SOLVE(nm, T, 2, 3)
ALL(f, float)
ALL(d, double)
ALL(cf, Complex<float>)
ALL(cd, Complex<double>)
EIG(f, float, Complex<float>, 2)
EIG(d, double, Complex<double>, 3)
EIG(cf, Complex<float>, Complex<float>, 3)
EIG(cd, Complex<double>, Complex<double>, 2)
