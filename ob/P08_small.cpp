// engine: unroll
// The compensated algorithms: every element enters once, in order, and so does the rounding error of every step.
#include "ob.hpp"
#include <algorithm>
#include <cassert>
#include <chrono>
#include <cmath>
#include <cstring>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <memory>
#include <numbers>
#include <numeric>
#include <optional>
#include <random>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>
#define volatile  // only keeps a compiler from reassociating, which it must not do anyway
#include "sv.hpp"
using namespace spp;
// the magnitude and the rounding error of a product: here any functions of their arguments (which, P02 and P08_parts say)
namespace spp {
[[gnu::const]] float magnitude(float);
template <> inline Strict<float> abss(Strict<float> x) { return Strict{magnitude(x.val())}; }
[[gnu::const]] double magnitude(double);
template <> inline Strict<double> abss(Strict<double> x) { return Strict{magnitude(x.val())}; }
[[gnu::const]] long double magnitude(long double);
template <> inline Strict<long double> abss(Strict<long double> x) { return Strict{magnitude(x.val())}; }
[[gnu::const]] float error_of(float, float);
template <> inline use::StrictPair<Strict<float>> two_prods(Strict<float> x, Strict<float> y) {
   return {Strict{x.val() * y.val()}, Strict{error_of(x.val(), y.val())}};
}
[[gnu::const]] double error_of(double, double);
template <> inline use::StrictPair<Strict<double>> two_prods(Strict<double> x, Strict<double> y) {
   return {Strict{x.val() * y.val()}, Strict{error_of(x.val(), y.val())}};
}
[[gnu::const]] long double error_of(long double, long double);
template <> inline use::StrictPair<Strict<long double>> two_prods(Strict<long double> x, Strict<long double> y) {
   return {Strict{x.val() * y.val()}, Strict{error_of(x.val(), y.val())}};
}
} // namespace spp
#define LOCAL(v, n)               \
   T v[(n) + 1];                  \
   for(long i = 0; i < (n); ++i)  \
      v[i] = v##0[i]
template <class T> struct two { T r, s; };
template <class T> inline two<T> sum2(T x, T y) { // r + s is exactly x + y
   T r = x + y, z = r - x;
   return {r, (x - (r - z)) + (y - z)};
}
template <class T> inline two<T> prod2(T x, T y) { // r + s is exactly x * y
   T r = x * y;
   return {r, error_of(x, y)};
}
template <class T> inline T sum_(const T* v, long n) { // Neumaier
   T s = 0, c = 0;
   for(long i = 0; i < n; ++i) {
      T t = s + v[i];
      c += (abss(S_<T>{s}) >= abss(S_<T>{v[i]})).val() ? (s - t) + v[i] : (v[i] - t) + s;
      s = t;
   }
   return s + c;
}
template <class T> inline T dot_(const T* x, const T* y, long n) { // Ogita, Rump, Oishi
   auto [p, s] = prod2(x[0], y[0]);
   for(long i = 1; i < n; ++i) {
      auto [h, r] = prod2(x[i], y[i]);
      auto [q, e] = sum2(p, h);
      p = q;
      s = s + (e + r);
   }
   return p + s;
}
template <class T> inline two<T> pow_(T x, long p) { // x^p, and the first-order error of the products it is computed by
   if(p == 0)
      return {T(1), T(0)};
   if(p == 1)
      return {x, T(0)};
   auto [r, s] = prod2(x, x);
   if(p == 2)
      return {r, s};
   if(p == 3) {
      auto [a, b] = prod2(r, x);
      return {a, x * s + b};
   }
   if(p == 4) {
      auto [a, b] = prod2(r, r);
      return {a, T(2) * r * s + b};
   }
   if(p == 5) {
      auto [a, b] = prod2(r, r);
      auto [c, d] = prod2(a, x);
      return {c, T(2) * x * r * s + x * b + d};
   }
   const long n = p / 2;
   T pw[32], er[32]; // pw[k] = r^k, er[k] its error
   pw[0] = 1, pw[1] = r;
   for(long k = 2; k <= n; ++k) {
      auto [a, b] = prod2(pw[k - 1], r);
      pw[k] = a, er[k] = b;
   }
   T e = 0;
   for(long k = n; k >= 2; --k)
      e += pw[n - k] * er[k];
   if(p % 2 == 0)
      return {pw[n], T(n) * pw[n - 1] * s + e};
   auto [c, d] = prod2(pw[n], x);
   return {c, T(n) * x * pw[n - 1] * s + x * e + d};
}
template <class T> inline T gpoly_(const T* c, const T* x, const long* p, long n) {
   T a[64], b[64];
   for(long i = 0; i < n; ++i) {
      auto [r, s] = pow_(x[i], p[i]);
      a[i] = a[n + i] = c[i];
      b[i] = r, b[n + i] = s;
   }
   return dot_(a, b, 2 * n);
}
template <class T> inline T prod_(const T* v, long n) {
   T p = v[0], e[64], t[64], q = 1;
   for(long i = 1; i < n; ++i) {
      auto [r, s] = prod2(p, v[i]);
      p = r, e[i - 1] = s;
   }
   for(long i = 0; i < n - 1; ++i) {
      t[i] = q * e[n - 2 - i];
      q *= v[n - 1 - i];
   }
   return n == 1 ? p + T(0) : p + sum_(t, n - 1);
}
namespace total {
template <class T, long P> OB void power(T x) {
   auto [r, s] = pow_prods(S_<T>{x}, P);
   auto [a, b] = pow_(x, P);
   PROVE(same(r, a));
   PROVE(same(s, b));
   LIVE();
}
template <class A, long N, class T> OB void sum(const T* v0) {
   LOCAL(v, N);
   const auto a = make1<A>(v, N);
   PROVE(same(stable_sum(a), sum_(v, N)));
   PROVE(same(stable_mean(a), sum_(v, N) / T(N)));
   LIVE();
}
template <class A, long N, class T> OB void blocks(const T* v0) { // blocks of 64, summed plainly, and what is left over
   LOCAL(v, N);
   const auto a = make1<A>(v, N);
   T s[4], r = 0;
   for(long k = 0; k < N / 64; ++k) {
      s[k] = 0;
      for(long j = 0; j < 64; ++j)
         s[k] += v[64 * k + j];
   }
   for(long i = N - 1; i >= N - N % 64; --i)
      r += v[i];
   PROVE(same(semi_stable_sum(a), N < 64 ? r : sum_(s, N / 64) + r));
   LIVE();
}
template <class A, long N, class T> OB void norms(const T* v0) {
   LOCAL(v, N);
   const auto a = make1<A>(v, N);
   T w[N];
   for(long i = 0; i < N; ++i)
      w[i] = abss(S_<T>{v[i]}).val();
   PROVE(same(stable_norm1(a), sum_(w, N)));
   PROVE(same(stable_norm1_scaled(a), sum_(w, N) / T(N)));
   PROVE(same(stable_norm2(a), sqrts(S_<T>{dot_(v, v, N)})));
   PROVE(same(stable_norm2_scaled(a), sqrts(S_<T>{dot_(v, v, N)}) / sqrts(S_<T>{T(N)})));
   LIVE();
}
template <class A, long N, long P, class T> OB void norm_p(const T* v0) {
   LOCAL(v, N);
   const auto a = make1<A>(v, N);
   T w[N], c[N];
   long p[N];
   for(long i = 0; i < N; ++i)
      w[i] = abss(S_<T>{v[i]}).val(), c[i] = 1, p[i] = P;
   const auto s = pows(S_<T>{gpoly_(c, w, p, N)}, invs(S_<T>{T(P)}));
   PROVE(same(stable_norm_lp(a, P), s));
   PROVE(same(stable_norm_lp_scaled(a, P), s / pows(S_<T>{T(N)}, invs(S_<T>{T(P)}))));
   LIVE();
}
template <class A, long N, class T> OB void dot(const T* v0, const T* w0) {
   LOCAL(v, N);
   LOCAL(w, N);
   const auto a = make1<A>(v, N);
   const auto b = make1<A>(w, N);
   PROVE(same(stable_dot_prod(a, b), dot_(v, w, N)));
   LIVE();
}
template <class A, long N, class T> OB void semi_dot(const T* v0, const T* w0) {
   LOCAL(v, N);
   LOCAL(w, N);
   const auto a = make1<A>(v, N);
   const auto b = make1<A>(w, N);
   T r = 0, s = 0;
   for(long i = 0; i < 64 && N >= 64; ++i)
      s += v[i] * w[i];
   for(long i = N - 1; i >= N - N % 64; --i)
      r += v[i] * w[i];
   PROVE(same(semi_stable_dot_prod(a, b), N < 64 ? r : sum_(&s, 1) + r));
   LIVE();
}
template <class A, long N, class T> OB void prod(const T* v0) {
   LOCAL(v, N);
   const auto a = make1<A>(v, N);
   PROVE(same(stable_prod(a), prod_(v, N)));
   LIVE();
}
template <class A, long N, class T> OB void poly(const T* v0, T x) {
   LOCAL(v, N);
   const auto a = make1<A>(v, N);
   T X[N];
   long p[N];
   for(long i = 0; i < N; ++i)
      X[i] = x, p[i] = i;
   PROVE(same(stable_polynomial(a, S_<T>{x}), gpoly_(v, X, p, N)));
   LIVE();
}
template <class A, class I, class T, long... P> OB void gpoly(const T* v0, const T* w0) {
   constexpr long N = sizeof...(P);
   LOCAL(v, N);
   LOCAL(w, N);
   const long p[N] = {P...};
   const auto a = make1<A>(v, N);
   const auto b = make1<A>(w, N);
   I q(N);
   for(long i = 0; i < N; ++i)
      q.un(i) = Strict{static_cast<BuiltinTypeOf<I>>(p[i])};
   PROVE(same(stable_gpolynomial(a, b, q), gpoly_(v, w, p, N)));
   T X[N];
   for(long i = 0; i < N; ++i)
      X[i] = w[0];
   PROVE(same(stable_polynomial(a, b.un(0), q), gpoly_(v, X, p, N)));
   LIVE();
}
template <class A, class T> OB void parts_of(const T* v0) { // slices, expressions and two-dimensional arrays
   LOCAL(v, 6);
   const auto a = make1<A>(v, 6);
   const auto m = make2<Array2D<T>>(v, 2, 3);
   T o[3] = {v[1], v[3], v[5]}, n[6];
   for(long i = 0; i < 6; ++i)
      n[i] = -v[i];
   PROVE(same(stable_sum(a(seqN{1, 3, 2})), sum_(o, 3)));
   PROVE(same(stable_sum(-a), sum_(n, 6)));
   PROVE(same(stable_sum(m), sum_(v, 6)));
   PROVE(same(stable_dot_prod(m, m), dot_(v, v, 6)));
   PROVE(same(stable_prod(m), prod_(v, 6)));
   LIVE();
}
template <class A, class T> OB void empty(T d) { // the value given for an empty array
   const A a;
   const Array1D<long> p;
   const S_<T> D{d};
   PROVE(same(stable_sum(a, D), d) && same(stable_sum(a), T(0)));
   PROVE(same(semi_stable_sum(a, D), d) && same(semi_stable_sum(a), T(0)));
   PROVE(same(stable_prod(a, D), d) && same(stable_prod(a), T(0)));
   PROVE(same(stable_mean(a, D), d) && same(stable_mean(a), T(0)));
   PROVE(same(stable_dot_prod(a, a, D), d) && same(semi_stable_dot_prod(a, a, D), d));
   PROVE(same(stable_norm1(a, D), d) && same(stable_norm1_scaled(a, D), d));
   PROVE(same(stable_norm2(a, D), d) && same(stable_norm2_scaled(a, D), d));
   PROVE(same(stable_norm_lp(a, 3, D), d) && same(stable_norm_lp_scaled(a, 3, D), d));
   PROVE(same(stable_polynomial(a, D, D), d) && same(stable_polynomial(a, D, p, D), d));
   PROVE(same(stable_gpolynomial(a, a, p, D), d));
   LIVE();
}
} // namespace total
#define ALL(F) F(float) F(double) F(long double)
#define IP(T, P) template OB void total::power<T, P>(T);
#define IPS(T) IP(T, 0) IP(T, 1) IP(T, 2) IP(T, 3) IP(T, 4) IP(T, 5) IP(T, 6) IP(T, 7) IP(T, 8) IP(T, 9) IP(T, 10) IP(T, 11) IP(T, 12) IP(T, 13) IP(T, 16) IP(T, 17)
ALL(IPS)
#define ON(A, T, N)                                                        \
   template OB void total::sum<A<T>, N>(const T*);                         \
   template OB void total::norms<A<T>, N>(const T*);                       \
   template OB void total::dot<A<T>, N>(const T*, const T*);               \
   template OB void total::prod<A<T>, N>(const T*);                        \
   template OB void total::poly<A<T>, N>(const T*, T);                     \
   template OB void total::norm_p<A<T>, N, 3>(const T*);
#define ONS(T) ON(Array1D, T, 1) ON(Array1D, T, 2) ON(Array1D, T, 3) ON(Array1D, T, 4) \
   template OB void total::norm_p<Array1D<T>, 2, 1>(const T*); template OB void total::norm_p<Array1D<T>, 2, 6>(const T*); \
   template OB void total::parts_of<Array1D<T>>(const T*); template OB void total::empty<Array1D<T>>(T); \
   template OB void total::gpoly<Array1D<T>, Array1D<long>, T, 3>(const T*, const T*); \
   template OB void total::gpoly<Array1D<T>, Array1D<int>, T, 0, 7>(const T*, const T*); \
   template OB void total::gpoly<Array1D<T>, Array1D<long>, T, 2, 1, 4>(const T*, const T*); \
   template OB void total::blocks<Array1D<T>, 1>(const T*); template OB void total::blocks<Array1D<T>, 3>(const T*); \
   template OB void total::blocks<Array1D<T>, 63>(const T*); template OB void total::blocks<Array1D<T>, 64>(const T*); \
   template OB void total::blocks<Array1D<T>, 65>(const T*); template OB void total::blocks<Array1D<T>, 67>(const T*); \
   template OB void total::blocks<Array1D<T>, 129>(const T*); \
   template OB void total::semi_dot<Array1D<T>, 1>(const T*, const T*); template OB void total::semi_dot<Array1D<T>, 3>(const T*, const T*); \
   template OB void total::semi_dot<Array1D<T>, 66>(const T*, const T*);
ALL(ONS)
