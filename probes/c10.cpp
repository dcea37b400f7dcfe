// Containers: constructors, assignments and modifiers on symbolic elements.
#include <um2/config.hpp>
#include <um2/stdlib/vector.hpp>
#include <um2/stdlib/string.hpp>
#include <utility>
using namespace um2;

using V = Vector<double>;
using N = Vector<Vector<double>>;
using S = Vector<String>;

#define P(name) extern "C" void probe_##name(double const * __restrict in, char const * __restrict txt, double * __restrict out, void const ** __restrict ptr)

static inline void dump(double * out, void const ** ptr, Int k, V const & v)
{
  double * o = out + 100 * k;
  o[0] = v.size();
  o[1] = v.capacity();
  o[2] = v.empty() ? 1 : 0;
  for (Int i = 0; i < v.size(); ++i) o[3 + i] = v[i];
  ptr[k] = v.data();
}

static inline void dump(double * out, void const ** ptr, Int k, N const & v)
{
  double * o = out + 100 * k;
  o[0] = v.size();
  o[1] = v.capacity();
  o[2] = v.empty() ? 1 : 0;
  Int c = 3;
  for (Int i = 0; i < v.size(); ++i) {
    o[c++] = v[i].size();
    for (Int j = 0; j < v[i].size(); ++j) o[c++] = v[i][j];
  }
  ptr[k] = v.data();
}

static inline void dump(double * out, void const ** ptr, Int k, String const & s)
{
  double * o = out + 100 * k;
  o[0] = s.size();
  o[1] = s.capacity();
  o[2] = s.empty() ? 1 : 0;
  for (Int i = 0; i < s.size() + 1; ++i) o[3 + i] = s.data()[i];
  ptr[k] = s.data();
}

template <class T>
static inline void fill(T & v, double const * in, Int n)
{
  for (Int i = 0; i < n; ++i) v[i] = in[i];
}

// n numbers, or n rows of 2, 1, 2, 1, ... numbers
template <class T>
static inline auto mk(double const * in, Int n) -> T
{
  T v;
  v.reserve(n);
  if constexpr (std::is_same_v<T, V>) {
    for (Int i = 0; i < n; ++i) v.push_back(in[i]);
  } else {
    for (Int i = 0; i < n; ++i) {
      V r(i % 2 ? 1 : 2);
      r[0] = in[2 * i];
      if (i % 2 == 0) r[1] = in[2 * i + 1];
      v.push_back(um2::move(r));
    }
  }
  return v;
}

#define BOTH(name, body)                                                       \
  P(v_##name) { using T = V; body }                                            \
  P(n_##name) { using T = N; body }

// clang-format off
BOTH(none, T a; dump(out, ptr, 0, a);)
P(v_size) { V a(3); fill(a, in, 3); dump(out, ptr, 0, a); }
P(n_size) { N a(3); a[1].push_back(in[0]); dump(out, ptr, 0, a); }
P(v_value) { V a(3, in[0]); dump(out, ptr, 0, a); }
P(n_value) { V r(2, in[0]); N a(3, r); r[0] = in[1]; dump(out, ptr, 0, a); dump(out, ptr, 1, r); }
BOTH(copy0, T a; T b(a); dump(out, ptr, 0, a); dump(out, ptr, 1, b);)
BOTH(copy3, T a = mk<T>(in, 3); T b(a); dump(out, ptr, 0, a); dump(out, ptr, 1, b);)
BOTH(copycap, T a = mk<T>(in, 2); a.reserve(7); T b(a); dump(out, ptr, 0, a); dump(out, ptr, 1, b);)
BOTH(move3, T a = mk<T>(in, 3); T b(um2::move(a)); dump(out, ptr, 0, a); dump(out, ptr, 1, b);)
BOTH(range, T a = mk<T>(in, 4); T b(a.begin() + 1, a.begin() + 3); dump(out, ptr, 0, a); dump(out, ptr, 1, b);)
BOTH(range0, T a = mk<T>(in, 2); T b(a.begin() + 1, a.begin() + 1); dump(out, ptr, 0, a); dump(out, ptr, 1, b);)
P(v_list) { V a = {in[0], in[1], in[2]}; dump(out, ptr, 0, a); }
P(v_assignlist) { V a = mk<V>(in, 2); a = {in[2], in[3], in[4]}; dump(out, ptr, 0, a); }
// copy assignment: to empty, enough capacity (fewer / more elements), too little capacity, from empty, to itself
BOTH(assign_e3, T a = mk<T>(in, 3); T b; b = a; dump(out, ptr, 0, a); dump(out, ptr, 1, b);)
BOTH(assign_42, T a = mk<T>(in, 2); T b = mk<T>(in + 8, 4); b = a; dump(out, ptr, 0, a); dump(out, ptr, 1, b);)
BOTH(assign_24c, T a = mk<T>(in, 4); T b = mk<T>(in + 8, 2); b.reserve(6); b = a; dump(out, ptr, 0, a); dump(out, ptr, 1, b);)
BOTH(assign_24, T a = mk<T>(in, 4); T b = mk<T>(in + 8, 2); b = a; dump(out, ptr, 0, a); dump(out, ptr, 1, b);)
BOTH(assign_15c, T a = mk<T>(in, 5); T b = mk<T>(in + 10, 1); b.reserve(9); b = a; dump(out, ptr, 0, a); dump(out, ptr, 1, b);)
BOTH(assign_34c, T a = mk<T>(in, 4); T b = mk<T>(in + 10, 3); b.reserve(9); b = a; dump(out, ptr, 0, a); dump(out, ptr, 1, b);)
BOTH(assign_51, T a = mk<T>(in, 1); T b = mk<T>(in + 2, 5); b = a; dump(out, ptr, 0, a); dump(out, ptr, 1, b);)
BOTH(assign_30, T a; T b = mk<T>(in, 3); b = a; dump(out, ptr, 0, a); dump(out, ptr, 1, b);)
BOTH(assign_33, T a = mk<T>(in, 3); T b = mk<T>(in + 6, 3); b = a; dump(out, ptr, 0, a); dump(out, ptr, 1, b);)
BOTH(assign_self, T a = mk<T>(in, 3); T & r = a; a = r; dump(out, ptr, 0, a);)
BOTH(massign_23, T a = mk<T>(in, 3); T b = mk<T>(in + 8, 2); b = um2::move(a); dump(out, ptr, 0, a); dump(out, ptr, 1, b);)
BOTH(massign_03, T a = mk<T>(in, 3); T b; b = um2::move(a); dump(out, ptr, 0, a); dump(out, ptr, 1, b);)
BOTH(massign_20, T a; T b = mk<T>(in, 2); b = um2::move(a); dump(out, ptr, 0, a); dump(out, ptr, 1, b);)
BOTH(massign_self, T a = mk<T>(in, 3); T & r = a; a = um2::move(r); dump(out, ptr, 0, a);)
BOTH(reuse, T a = mk<T>(in, 3); T b(um2::move(a)); a = b; a.pop_back(); dump(out, ptr, 0, a); dump(out, ptr, 1, b);)
// growth
BOTH(reserve, T a = mk<T>(in, 3); a.reserve(8); dump(out, ptr, 0, a);)
BOTH(reserve_less, T a = mk<T>(in, 3); a.reserve(2); dump(out, ptr, 0, a);)
BOTH(reserve0, T a; a.reserve(4); dump(out, ptr, 0, a);)
P(v_push) { V a; for (Int i = 0; i < 6; ++i) a.push_back(in[i]); dump(out, ptr, 0, a); }
P(n_push) { N a; for (Int i = 0; i < 5; ++i) { V r(1, in[i]); a.push_back(r); r[0] = in[9]; } dump(out, ptr, 0, a); }
P(n_pushm) { N a; for (Int i = 0; i < 5; ++i) { V r(1, in[i]); a.push_back(um2::move(r)); } dump(out, ptr, 0, a); }
P(v_emplace) { V a; for (Int i = 0; i < 6; ++i) a.emplace_back(in[i]); dump(out, ptr, 0, a); }
P(n_emplace) { N a; for (Int i = 0; i < 5; ++i) a.emplace_back(1, in[i]); dump(out, ptr, 0, a); }
BOTH(push_own_full, T a = mk<T>(in, 3); a.push_back(a[0]); dump(out, ptr, 0, a);)
BOTH(push_own_room, T a = mk<T>(in, 3); a.reserve(6); a.push_back(a[2]); dump(out, ptr, 0, a);)
BOTH(emplace_own_full, T a = mk<T>(in, 2); a.emplace_back(a[0]); dump(out, ptr, 0, a);)
BOTH(pop, T a = mk<T>(in, 3); a.pop_back(); dump(out, ptr, 0, a);)
BOTH(poppush, T a = mk<T>(in, 3); T b = mk<T>(in + 8, 1); a.pop_back(); a.push_back(b[0]); dump(out, ptr, 0, a);)
BOTH(clear, T a = mk<T>(in, 3); a.clear(); dump(out, ptr, 0, a);)
BOTH(clearpush, T a = mk<T>(in, 3); T b = mk<T>(in + 8, 1); a.clear(); a.push_back(b[0]); dump(out, ptr, 0, a);)
BOTH(shrink, T a = mk<T>(in, 4); a.resize(2); dump(out, ptr, 0, a);)
BOTH(resize0, T a = mk<T>(in, 4); a.resize(0); dump(out, ptr, 0, a);)
BOTH(resize_same, T a = mk<T>(in, 3); a.resize(3); dump(out, ptr, 0, a);)
P(v_grow) { V a = mk<V>(in, 2); a.resize(5); a[2] = in[2]; a[3] = in[3]; a[4] = in[4]; dump(out, ptr, 0, a); }
P(v_growroom) { V a = mk<V>(in, 2); a.reserve(8); a.resize(5); a[2] = in[2]; a[3] = in[3]; a[4] = in[4]; dump(out, ptr, 0, a); }
P(n_grow) { N a = mk<N>(in, 2); a.resize(5); dump(out, ptr, 0, a); }
P(n_growroom) { N a = mk<N>(in, 2); a.reserve(8); a.resize(5); dump(out, ptr, 0, a); }
P(n_shrinkgrow) { N a = mk<N>(in, 3); a.resize(1); a.resize(3); dump(out, ptr, 0, a); }
P(v_swap) { V a = mk<V>(in, 2); V b = mk<V>(in + 2, 3); std::swap(a, b); dump(out, ptr, 0, a); dump(out, ptr, 1, b); }
P(v_access) { V a = mk<V>(in, 3); V const & c = a; out[0] = a.front(); out[1] = a.back(); out[2] = c.front(); out[3] = c.back(); a.front() = in[3]; a.back() = in[4]; Int k = 4; for (auto x : a) out[k++] = x; for (auto x : c) out[k++] = x; out[k++] = *c.cbegin(); out[k++] = *(c.cend() - 1); out[k++] = c.data()[1]; out[k++] = a.data()[1]; }
P(v_compare) { V a = mk<V>(in, 2); V b = mk<V>(in + 2, 2); V c = mk<V>(in + 2, 1); out[0] = a == b; out[1] = a != b; out[2] = a < b; out[3] = a > b; out[4] = a <= b; out[5] = a >= b; out[6] = a == c; out[7] = a < c; out[8] = c < a; out[9] = a != c; out[10] = a <= c; out[11] = a >= c; }

// ---- text: n characters of txt
static inline auto str(char const * txt, Int n) -> String
{
  if (n == 0) return {};
  return String(StringView(txt, static_cast<uint64_t>(n)));
}
#define LEN(f) f(0) f(1) f(5) f(22) f(23) f(24) f(40)
#define ONE(n) P(s_make##n) { String a = str(txt, n); dump(out, ptr, 0, a); }                                    \
  P(s_copy##n) { String a = str(txt, n); String b(a); dump(out, ptr, 0, a); dump(out, ptr, 1, b); }             \
  P(s_move##n) { String a = str(txt, n); String b(um2::move(a)); dump(out, ptr, 0, a); dump(out, ptr, 1, b); } \
  P(s_self##n) { String a = str(txt, n); String & r = a; a = r; dump(out, ptr, 0, a); }                         \
  P(s_mself##n) { String a = str(txt, n); String & r = a; a = um2::move(r); dump(out, ptr, 0, a); }
LEN(ONE)
#define TWO(n, m) P(s_assign##n##_##m) { String a = str(txt, n); String b = str(txt + 50, m); b = a; dump(out, ptr, 0, a); dump(out, ptr, 1, b); }    \
  P(s_massign##n##_##m) { String a = str(txt, n); String b = str(txt + 50, m); b = um2::move(a); dump(out, ptr, 0, a); dump(out, ptr, 1, b); }
#define FROM(n) TWO(n, 0) TWO(n, 5) TWO(n, 22) TWO(n, 23) TWO(n, 40)
FROM(5) FROM(22) FROM(23) FROM(30) FROM(45)
TWO(0, 0)
P(s_massign0_5) { String a; String b = str(txt + 50, 5); b = um2::move(a); dump(out, ptr, 0, a); dump(out, ptr, 1, b); }
P(s_massign0_23) { String a; String b = str(txt + 50, 23); b = um2::move(a); dump(out, ptr, 0, a); dump(out, ptr, 1, b); }
#define APP(n, m) P(s_append##n##_##m) { String a = str(txt, n); a.append(txt + 50, m); dump(out, ptr, 0, a); } \
  P(s_plus##n##_##m) { String a = str(txt, n); String b = str(txt + 50, m); String c = a + b; dump(out, ptr, 0, a); dump(out, ptr, 1, b); dump(out, ptr, 2, c); }
#define APPS(n) APP(n, 1) APP(n, 5) APP(n, 18) APP(n, 25)
APPS(0) APPS(4) APPS(5) APPS(17) APPS(21) APPS(22) APPS(23) APPS(40)
#define SELF(n) P(s_appself##n) { String a = str(txt, n); a += a; dump(out, ptr, 0, a); }
SELF(5) SELF(11) SELF(12) SELF(22) SELF(23) SELF(30)
P(s_twice) { String a = str(txt, 20); a.append(txt + 50, 20); a.append(txt + 80, 3); a.append(txt + 90, 8); dump(out, ptr, 0, a); }
P(s_shorten) { String a = str(txt, 40); String b = str(txt + 50, 3); a = b; a.append(txt + 60, 30); dump(out, ptr, 0, a); dump(out, ptr, 1, b); }
P(s_lengthen) { String a = str(txt, 3); String b = str(txt + 50, 30); a = b; a.append(txt + 80, 2); dump(out, ptr, 0, a); dump(out, ptr, 1, b); }
#define SUB(n, p, c) P(s_sub##n##_##p##_##c) { String a = str(txt, n); String b = a.substr(p, c); dump(out, ptr, 0, a); dump(out, ptr, 1, b); }
SUB(10, 0, 4) SUB(10, 3, 4) SUB(10, 7, 9) SUB(10, 10, 2) SUB(40, 1, 22) SUB(40, 2, 23) SUB(40, 15, 60) SUB(40, 30, 10)
P(s_access) { String a = str(txt, 4); String const & c = a; out[0] = a.front(); out[1] = a.back(); out[2] = c.front(); out[3] = c.back(); out[4] = *c.cbegin(); out[5] = *(c.cend() - 1); Int k = 6; for (char x : a) out[k++] = x; for (char x : c) out[k++] = x; StringView v = a; out[k++] = static_cast<double>(v.size()); out[k++] = v.data()[3]; }
P(s_literal) { String a("abc"); String b("a string that needs a buffer of its own"); dump(out, ptr, 0, a); dump(out, ptr, 1, b); }
P(s_vector) { S a; a.push_back(str(txt, 5)); a.push_back(str(txt + 50, 30)); a.emplace_back(String(a[0])); S b(a); a[1] = a[0]; dump(out, ptr, 0, a[0]); dump(out, ptr, 1, a[1]); dump(out, ptr, 2, a[2]); dump(out, ptr, 3, b[0]); dump(out, ptr, 4, b[1]); dump(out, ptr, 5, b[2]); }
static inline void cmps(double * out, String const & a, String const & b)
{
  out[0] = a == b; out[1] = a != b; out[2] = a < b; out[3] = a > b; out[4] = a <= b; out[5] = a >= b;
}
P(s_compare) { String a = str(txt, 3); cmps(out, a, str(txt + 50, 3)); cmps(out + 6, a, str(txt + 50, 2)); cmps(out + 12, str(txt + 50, 2), a); }
P(s_match) { String a = str(txt, 3); out[0] = a.starts_with(StringView(txt + 50, static_cast<uint64_t>(2))); out[1] = a.ends_with(StringView(txt + 50, static_cast<uint64_t>(2))); out[2] = a.starts_with(txt[50]); out[3] = a.ends_with(txt[50]); out[4] = a.starts_with(StringView(txt + 50, static_cast<uint64_t>(4))); out[5] = a.ends_with(StringView(txt + 50, static_cast<uint64_t>(4))); out[6] = a.find_last_of(txt[50]); out[7] = a.find_last_of(txt[50], 1); out[8] = a.starts_with(StringView(txt + 50, static_cast<uint64_t>(3))); out[9] = a.ends_with(StringView(txt + 50, static_cast<uint64_t>(3))); }
P(s_empty) { String a; String b = str(txt, 2); out[0] = a == a; out[1] = a == b; out[2] = a < b; out[3] = b < a; out[4] = a.starts_with('x'); out[5] = a.ends_with('x'); out[6] = b.starts_with(StringView(txt, static_cast<uint64_t>(0))); }
// clang-format on
