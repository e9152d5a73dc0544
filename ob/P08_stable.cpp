// The compensated algorithms on arrays of any length: every element enters once, in order, together with the rounding
// error of its step, and no other value enters.
#include "ob.hpp"
#include <algorithm>
#include <cassert>
#include <chrono>
#include <cmath>
#include <cstring>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <memory>
#include <numbers>
#include <numeric>
#include <optional>
#include <random>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>
#define volatile  // only keeps a compiler from reassociating, which it must not do anyway
#include "sv.hpp"
using namespace spp;
// the magnitude and the rounding error of a product: here any functions of their arguments (which, P02 and P08_parts say)
namespace spp {
[[gnu::const]] float magnitude(float);
template <> inline Strict<float> abss(Strict<float> x) { return Strict{magnitude(x.val())}; }
[[gnu::const]] double magnitude(double);
template <> inline Strict<double> abss(Strict<double> x) { return Strict{magnitude(x.val())}; }
[[gnu::const]] long double magnitude(long double);
template <> inline Strict<long double> abss(Strict<long double> x) { return Strict{magnitude(x.val())}; }
[[gnu::const]] float error_of(float, float);
template <> inline use::StrictPair<Strict<float>> two_prods(Strict<float> x, Strict<float> y) {
   return {Strict{x.val() * y.val()}, Strict{error_of(x.val(), y.val())}};
}
[[gnu::const]] double error_of(double, double);
template <> inline use::StrictPair<Strict<double>> two_prods(Strict<double> x, Strict<double> y) {
   return {Strict{x.val() * y.val()}, Strict{error_of(x.val(), y.val())}};
}
[[gnu::const]] long double error_of(long double, long double);
template <> inline use::StrictPair<Strict<long double>> two_prods(Strict<long double> x, Strict<long double> y) {
   return {Strict{x.val() * y.val()}, Strict{error_of(x.val(), y.val())}};
}
} // namespace spp
#define PROBE                                                     \
      long i = pos_.val();                                        \
      in &= (i == next);                                          \
      T v = at_(b, i);
#define FOLD1(n, ...)                                             \
   long next = 0;                                                 \
   bool in = true;                                                \
   auto e = generate(irange(n), [&](auto pos_) {                  \
      PROBE                                                       \
      __VA_ARGS__                                                 \
      next = i + 1;                                               \
      return S_<T>{v};                                            \
   });
#define FOLD2(m, n, ...)                                          \
   long next = 0;                                                 \
   bool in = true;                                                \
   auto positions = irange((m) * (n));                            \
   auto e = generate(positions.view2D(m, n), [&](auto pos_) {     \
      PROBE                                                       \
      __VA_ARGS__                                                 \
      next = i + 1;                                               \
      return S_<T>{v};                                            \
   });
#define SAME(call, ...)               \
   T r = (call).val();                \
   PROVE(in);                         \
   PROVE(next == n);                  \
   PROVE(same(r, T(__VA_ARGS__)));    \
   LIVE();
// Neumaier's sum s + c of the values w
#define SUM(...)                                   \
   const T w = __VA_ARGS__, t = s + w;             \
   T u;                                            \
   if(abss(S_<T>{s}) >= abss(S_<T>{w}))            \
      u = (s - t) + w;                             \
   else                                            \
      u = (w - t) + s;                             \
   c += u;                                         \
   s = t;
// the dot product p + s of Ogita, Rump and Oishi
#define DOT(x, y)                                               \
   const T h = (x) * (y), er = error_of(x, y);               \
   const T q = p + h, z = q - p, f = (p - (q - z)) + (h - z);   \
   s = i == 0 ? er : s + (f + er);                              \
   p = i == 0 ? h : q;
namespace total {
#define SUMS(name, w, call, result)                                              \
   template <class T> OB void name(const Array1D<T>& b) {                        \
      long n = len(b);                                                           \
      REQUIRE(n > 0);                                                            \
      T s = 0, c = 0;                                                            \
      FOLD1(n, SUM(w))                                                           \
      SAME(call, result)                                                         \
   }                                                                             \
   template <class T> OB void name##_2(const Array1D<T>& b, long m, long k) {    \
      REQUIRE(m > 0);                                                            \
      REQUIRE(k > 0);                                                            \
      long n = m * k;                                                            \
      REQUIRE(n > 0);                                                            \
      T s = 0, c = 0;                                                            \
      FOLD2(m, k, SUM(w))                                                        \
      SAME(call, result)                                                         \
   }
SUMS(sum, v, stable_sum(e), s + c)
SUMS(mean, v, stable_mean(e), T(s + c) / T(n))
SUMS(sum_neg, -v, stable_sum(-e), s + c)
SUMS(norm1, abss(S_<T>{v}).val(), stable_norm1(e), s + c)
SUMS(norm1s, abss(S_<T>{v}).val(), stable_norm1_scaled(e), T(s + c) / T(n))
#define DOTS(name, x, y, call, result)                                                              \
   template <class T, bool One> OB void name(const Array1D<T>& b, const Array1D<T>& d) {            \
      long n = len(d);                                                                              \
      REQUIRE(One ? n == 1 : n > 1);                                                                \
      T p = 0, s = 0;                                                                               \
      FOLD1(n, DOT(x, y))                                                                           \
      SAME(call, result)                                                                            \
   }
DOTS(dot, v, at_(d, i), stable_dot_prod(e, d), p + s)
DOTS(dot_r, at_(d, i), v, stable_dot_prod(d, e), p + s)
template <class T, bool One> OB void dot_2(const Array1D<T>& b, const Array2D<T>& d) {
   long m = d.rows().val(), k = d.cols().val(), n = len(d);
   REQUIRE(m > 0);
   REQUIRE(k > 0);
   REQUIRE(n == m * k);
   REQUIRE(One ? n == 1 : n > 1);
   T p = 0, s = 0;
   FOLD2(m, k, DOT(v, at_(d, i)))
   SAME(stable_dot_prod(e, d), p + s)
}
// the sum of squares
#define SQS(name, call, result)                                                                     \
   template <class T, bool One> OB void name(const Array1D<T>& b) {                                 \
      long n = len(b);                                                                              \
      REQUIRE(One ? n == 1 : n > 1);                                                                \
      T p = 0, s = 0;                                                                               \
      long next = 0;                                                                                \
      bool in = true;                                                                               \
      auto e = generate(irange(n), [&](auto pos_) {                                                 \
         long i = pos_.val(), after = i + 1;                                                        \
         in &= (i <= next);                                                                         \
         T v = at_(b, i);                                                                           \
         const T p0 = p, s0 = s;                                                                    \
         DOT(v, v)                                                                                  \
         p = i == next ? p : p0;                                                                    \
         s = i == next ? s : s0;                                                                    \
         next = i == next ? after : next;                                                           \
         return S_<T>{v};                                                                           \
      });                                                                                           \
      SAME(call, result)                                                                            \
   }
SQS(norm2, stable_norm2(e), std::sqrt(T(p + s)))
SQS(norm2s, stable_norm2_scaled(e), T(std::sqrt(T(p + s))) / T(std::sqrt(T(n))))
// fewer than a block: from the last element to the first
template <class T> OB void semi_small(const Array1D<T>& b) {
   long n = len(b);
   REQUIRE(n > 0);
   REQUIRE(n < 64);
   T s = 0;
   long next = n - 1;
   bool in = true;
   auto e = generate(irange(n), [&](auto pos_) {
      long i = pos_.val();
      in &= (i == next);
      T v = at_(b, i);
      s += v;
      next = i - 1;
      return S_<T>{v};
   });
   T r = semi_stable_sum(e).val();
   PROVE(in);
   PROVE(next == -1);
   PROVE(same(r, s));
   LIVE();
}
} // namespace total
#define I1(T, F) template OB void total::F<T>(const Array1D<T>&); template OB void total::F##_2<T>(const Array1D<T>&, long, long);
#define I2(T, F) template OB void total::F<T, true>(const Array1D<T>&, const Array1D<T>&); template OB void total::F<T, false>(const Array1D<T>&, const Array1D<T>&);
#define I3(T, F) template OB void total::F<T, true>(const Array1D<T>&); template OB void total::F<T, false>(const Array1D<T>&);
// (a pair of floats travels packed, which hides the loop's two values: float is decided for one element here, and for up
// to four in P08_small)
#define I2f(F) template OB void total::F<float, true>(const Array1D<float>&, const Array1D<float>&);
#define I3f(F) template OB void total::F<float, true>(const Array1D<float>&);
#define IS(T) I1(T, sum) I1(T, mean) I1(T, sum_neg) I1(T, norm1) I1(T, norm1s) template OB void total::semi_small<T>(const Array1D<T>&); \
   template OB void total::dot_2<T, true>(const Array1D<T>&, const Array2D<T>&);
#define IL(T) I2(T, dot) I2(T, dot_r) I3(T, norm2) I3(T, norm2s) template OB void total::dot_2<T, false>(const Array1D<T>&, const Array2D<T>&);
IS(float) IS(double) IS(long double) IL(double) IL(long double)
I2f(dot) I2f(dot_r) I3f(norm2) I3f(norm2s)
