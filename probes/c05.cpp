#include "probe.hpp"
#include <um2/mesh/rectilinear_partition.hpp>
#include <um2/mesh/regular_partition.hpp>
#define GPROBE(name)                                                                     \
  extern "C" void probe_##name(double const * __restrict in, Int const * __restrict ii,  \
                               double * __restrict out, Int * __restrict io)
template <Int D>
static inline auto ivec(Int const * in) -> Vec<D, Int>
{
  Vec<D, Int> p;
  for (Int i = 0; i < D; ++i) p[i] = in[i];
  return p;
}
template <Int D>
static inline void iput(Int * out, Vec<D, Int> const & v)
{
  for (Int i = 0; i < D; ++i) out[i] = v[i];
}
template <Int D, class F>
static inline auto with(Int const * i, F f)
{
  if constexpr (D == 1) return f(i[0]);
  else if constexpr (D == 2) return f(i[0], i[1]);
  else if constexpr (D == 3) return f(i[0], i[1], i[2]);
  else return f(i[0], i[1], i[2], i[3]);
}
template <Int D>
static inline auto box(double const * in) -> AxisAlignedBox<D, F64>
{
  return {pt<D>(in), pt<D>(in + D)};
}
template <Int D>
static inline void putbox(double * out, AxisAlignedBox<D, F64> const & b)
{
  put<D>(out, b.minima());
  put<D>(out + D, b.maxima());
}
// Everything a grid says about itself and about the cell ii.
template <Int D, class G>
static inline void describe(G const & g, Int const * ii, double * out, Int * io)
{
  put<D>(out, g.minima());
  put<D>(out + D, g.maxima());
  put<D>(out + 2 * D, g.extents());
  putbox<D>(out + 3 * D, g.boundingBox());
  for (Int i = 0; i < D; ++i) {
    out[5 * D + i] = g.minima(i);
    out[6 * D + i] = g.maxima(i);
    out[7 * D + i] = g.extents(i);
    io[D + i] = g.numCells(i);
  }
  iput<D>(io, g.numCells());
  io[2 * D] = g.totalNumCells();
  io[2 * D + 1] = g.getFlatIndex(ivec<D>(ii));
  io[2 * D + 2] = with<D>(ii, [&](auto... a) { return g.getFlatIndex(a...); });
  putbox<D>(out + 8 * D, with<D>(ii, [&](auto... a) { return g.getBox(a...); }));
}
// regular grid: in = minima, spacing; ii = number of cells, cell index
#define REG(D)                                                                           \
  GPROBE(reg##D)                                                                         \
  {                                                                                      \
    RegularGrid<D, F64> const g(pt<D>(in), pt<D>(in + D), ivec<D>(ii));                  \
    describe<D>(g, ii + D, out, io);                                                     \
    put<D>(out + 10 * D,                                                                 \
           with<D>(ii + D, [&](auto... a) { return g.getCellCentroid(a...); }));         \
    put<D>(out + 11 * D, g.spacing());                                                   \
    for (Int i = 0; i < D; ++i) out[12 * D + i] = g.spacing(i);                          \
  }                                                                                      \
  GPROBE(regbox##D)                                                                      \
  {                                                                                      \
    RegularGrid<D, F64> const g(box<D>(in));                                             \
    put<D>(out, g.minima());                                                             \
    put<D>(out + D, g.spacing());                                                        \
    iput<D>(io, g.numCells());                                                           \
  }                                                                                      \
  GPROBE(regpoint##D)                                                                    \
  {                                                                                      \
    RegularGrid<D, F64> const g(pt<D>(in), pt<D>(in + D), ivec<D>(ii));                  \
    iput<D>(io, g.getCellIndexContaining(pt<D>(in + 2 * D)));                            \
  }                                                                                      \
  GPROBE(reghit##D)                                                                      \
  {                                                                                      \
    RegularGrid<D, F64> const g(pt<D>(in), pt<D>(in + D), ivec<D>(ii));                  \
    iput<2 * D>(io, g.getCellIndicesIntersecting(box<D>(in + 2 * D)));                   \
  }
REG(1)
REG(2)
REG(3)
GPROBE(regflat4)
{
  RegularGrid<4, F64> const g(pt<4>(in), pt<4>(in + 4), ivec<4>(ii));
  io[0] = g.getFlatIndex(ivec<4>(ii + 4));
}
// rectilinear grid with given numbers of divisions; every cell is described
template <Int D, Int... N>
static inline auto rect(double const * in) -> RectilinearGrid<D, F64>
{
  RectilinearGrid<D, F64> g;
  Int const n[D] = {N...};
  Int k = 0;
  for (Int d = 0; d < D; ++d) {
    g.divs(d).resize(n[d]);
    for (Int i = 0; i < n[d]; ++i) g.divs(d)[i] = in[k++];
  }
  return g;
}
#define RECT(name, D, I, ...)                                                            \
  GPROBE(name)                                                                           \
  {                                                                                      \
    Int const idx[D] = I;                                                                \
    auto const g = rect<D, __VA_ARGS__>(in);                                             \
    describe<D>(g, idx, out, io);                                                        \
  }
#define L1(a) {a}
#define L2(a, b) {a, b}
#define L3(a, b, c) {a, b, c}
RECT(rect1_0, 1, L1(0), 4)
RECT(rect1_1, 1, L1(1), 4)
RECT(rect1_2, 1, L1(2), 4)
RECT(rect2_00, 2, L2(0, 0), 3, 4)
RECT(rect2_10, 2, L2(1, 0), 3, 4)
RECT(rect2_01, 2, L2(0, 1), 3, 4)
RECT(rect2_12, 2, L2(1, 2), 3, 4)
RECT(rect3_000, 3, L3(0, 0, 0), 3, 4, 5)
RECT(rect3_100, 3, L3(1, 0, 0), 3, 4, 5)
RECT(rect3_010, 3, L3(0, 1, 0), 3, 4, 5)
RECT(rect3_001, 3, L3(0, 0, 1), 3, 4, 5)
RECT(rect3_123, 3, L3(1, 2, 3), 3, 4, 5)
// rectilinear grid of one box
#define RBOX(D)                                                                          \
  GPROBE(rectbox##D)                                                                     \
  {                                                                                      \
    RectilinearGrid<D, F64> const g(box<D>(in));                                         \
    put<D>(out, g.minima());                                                             \
    put<D>(out + D, g.maxima());                                                         \
    iput<D>(io, g.numCells());                                                           \
  }
RBOX(1)
RBOX(2)
RBOX(3)
// rectilinear grid and partition of rows of cells (NR x NC); in = widths, then heights, top row first
template <Int NR, Int NC>
static inline void cells(double const * in, Vector<Vec2<F64>> & dxdy, Vector<Vector<Int>> & ids)
{
  dxdy.resize(NR * NC);
  ids.resize(NR);
  for (Int r = 0; r < NR; ++r) {
    ids[r].resize(NC);
    for (Int c = 0; c < NC; ++c) {
      ids[r][c] = r * NC + c;
      dxdy[r * NC + c] = Vec2<F64>(in[c], in[NC + r]);
    }
  }
}
#define CELLS(NR, NC)                                                                    \
  GPROBE(cells##NR##NC)                                                                  \
  {                                                                                      \
    Vector<Vec2<F64>> dxdy;                                                              \
    Vector<Vector<Int>> ids;                                                             \
    cells<NR, NC>(in, dxdy, ids);                                                        \
    RectilinearPartition<2, Int> const p(dxdy, ids);                                     \
    auto const & g = p.grid();                                                           \
    for (Int j = 0; j < NR; ++j) {                                                       \
      for (Int i = 0; i < NC; ++i) {                                                     \
        putbox<2>(out + 4 * (j * NC + i), g.getBox(i, j));                               \
        io[j * NC + i] = p.getChild(i, j);                                               \
        io[NR * NC + j * NC + i] = p.children()[j * NC + i];                             \
      }                                                                                  \
    }                                                                                    \
    iput<2>(io + 2 * NR * NC, g.numCells());                                             \
  }
CELLS(1, 1)
CELLS(1, 3)
CELLS(2, 2)
CELLS(3, 2)
// rectilinear grid of 2 x 2 boxes given in some order; in = widths, heights, lower corner
#define BOXES(name, ...)                                                                 \
  GPROBE(boxes##name)                                                                    \
  {                                                                                      \
    Int const order[4] = {__VA_ARGS__};                                                  \
    double const x[3] = {in[4], in[4] + in[0], in[4] + in[0] + in[1]};                   \
    double const y[3] = {in[5], in[5] + in[2], in[5] + in[2] + in[3]};                   \
    Vector<AxisAlignedBox<2, F64>> b(4);                                                 \
    for (Int k = 0; k < 4; ++k) {                                                        \
      Int const i = order[k] % 2, j = order[k] / 2;                                      \
      b[k] = {Point<2, F64>(x[i], y[j]), Point<2, F64>(x[i + 1], y[j + 1])};             \
    }                                                                                    \
    RectilinearGrid<2, F64> const g(b);                                                  \
    for (Int k = 0; k < 4; ++k) putbox<2>(out + 4 * k, g.getBox(k % 2, k / 2));          \
  }
BOXES(3210, 3, 2, 1, 0)
BOXES(2031, 2, 0, 3, 1)
// partitions built from a grid and its children
GPROBE(regpart)
{
  RegularGrid<2, F64> const g(pt<2>(in), pt<2>(in + 2), Vec<2, Int>(3, 2));
  Vector<Int> c(6);
  for (Int i = 0; i < 6; ++i) c[i] = ii[i];
  RegularPartition<2, Int> p(g, c);
  auto const & q = p;
  for (Int j = 0; j < 2; ++j)
    for (Int i = 0; i < 3; ++i) {
      io[j * 3 + i] = p.getChild(i, j);
      io[6 + j * 3 + i] = q.getChild(i, j);
      io[12 + j * 3 + i] = q.children()[j * 3 + i];
    }
  put<2>(out, q.grid().minima());
  put<2>(out + 2, q.grid().spacing());
}
GPROBE(rectpart)
{
  auto const g = rect<2, 4, 3>(in);
  Vector<Int> c(6);
  for (Int i = 0; i < 6; ++i) c[i] = ii[i];
  RectilinearPartition<2, Int> p(g, c);
  auto const & q = p;
  for (Int j = 0; j < 2; ++j)
    for (Int i = 0; i < 3; ++i) {
      io[j * 3 + i] = p.getChild(i, j);
      io[6 + j * 3 + i] = q.getChild(i, j);
      io[12 + j * 3 + i] = q.children()[j * 3 + i];
    }
  put<2>(out, q.grid().minima());
  put<2>(out + 2, q.grid().maxima());
  p.clear();
  io[18] = p.children().size();
  io[19] = p.grid().divs(0).size();
  io[20] = p.grid().divs(1).size();
}
