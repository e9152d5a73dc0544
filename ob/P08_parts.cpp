// What the compensated algorithms are made of, and the sizes they reject.
#include "ob.hpp"
#include <algorithm>
#include <cassert>
#include <chrono>
#include <cmath>
#include <cstring>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <memory>
#include <numbers>
#include <numeric>
#include <optional>
#include <random>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>
#define volatile  // only keeps a compiler from reassociating, which it must not do anyway
#include "sv.hpp"
using namespace spp;
template <class T> struct two { T r, s; };
template <class T> inline two<T> sum2(T x, T y) { // r + s is exactly x + y
   T r = x + y, z = r - x;
   return {r, (x - (r - z)) + (y - z)};
}
template <class T> inline two<T> prod2(T x, T y) { // r + s is exactly x * y
   T r = x * y;
   return {r, std::fma(x, y, -r)};
}
namespace total {
template <class T> OB void parts(T x, T y) {
   auto [r, s] = two_sums(S_<T>{x}, S_<T>{y});
   auto [a, b] = sum2(x, y);
   PROVE(same(r, a));
   PROVE(same(s, b));
   auto [p, q] = two_prods(S_<T>{x}, S_<T>{y});
   auto [c, d] = prod2(x, y);
   PROVE(same(p, c));
   PROVE(same(q, d));
   LIVE();
}
} // namespace total
namespace guard {
template <class A, class T> OB void dot(const A& a, const A& b) {
   REQUIRE(len(a) != len(b));
   keep(stable_dot_prod(a, b));
   FAIL();
}
template <class A, class T> OB void semi_dot(const A& a, const A& b) {
   REQUIRE(len(a) != len(b));
   keep(semi_stable_dot_prod(a, b));
   FAIL();
}
template <class A, class T> OB void poly_size(const A& a, T x, const Array1D<long>& p) {
   REQUIRE(len(a) != len(p));
   keep(stable_polynomial(a, S_<T>{x}, p));
   FAIL();
}
template <class A, class T> OB void gpoly_size(const A& a, const A& b, const Array1D<long>& p) {
   REQUIRE(len(a) != len(p));
   keep(stable_gpolynomial(a, b, p));
   FAIL();
}
template <class A, class T> OB void gpoly_size2(const A& a, const A& b, const Array1D<long>& p) {
   REQUIRE(len(a) != len(b));
   keep(stable_gpolynomial(a, b, p));
   FAIL();
}
template <class A, class T> OB void norm_order(const A& a, int p) {
   REQUIRE(p <= 0);
   keep(stable_norm_lp(a, p));
   FAIL();
}
template <class A, class T> OB void norm_order_scaled(const A& a, int p) {
   REQUIRE(p <= 0);
   keep(stable_norm_lp_scaled(a, p));
   FAIL();
}
template <class A, class T> OB void power(T x, long p) {
   REQUIRE(p < 0);
   keep(pow_prods(S_<T>{x}, p));
   FAIL();
}
template <class A, class T, long K> OB void negative(const A& a, const A& b, long p) {
   REQUIRE(p < 0);
   REQUIRE(len(a) == 3);
   REQUIRE(len(b) == 3);
   Array1D<long> q(3);
   for(long i = 0; i < 3; ++i)
      q.un(i) = S_<long>{i == K ? p : i};
   keep(stable_gpolynomial(a, b, q));
   FAIL();
}
template <class A, class T, long K> OB void negative1(const A& a, T x, long p) {
   REQUIRE(p < 0);
   REQUIRE(len(a) == 3);
   Array1D<long> q(3);
   for(long i = 0; i < 3; ++i)
      q.un(i) = S_<long>{i == K ? p : i};
   keep(stable_polynomial(a, S_<T>{x}, q));
   FAIL();
}
} // namespace guard
#define I0(T) template OB void total::parts<T>(T, T);
#define G(T) template OB void guard::dot<Array1D<T>, T>(const Array1D<T>&, const Array1D<T>&); template OB void guard::semi_dot<Array1D<T>, T>(const Array1D<T>&, const Array1D<T>&); \
   template OB void guard::poly_size<Array1D<T>, T>(const Array1D<T>&, T, const Array1D<long>&);                                                                          \
   template OB void guard::gpoly_size<Array1D<T>, T>(const Array1D<T>&, const Array1D<T>&, const Array1D<long>&); template OB void guard::gpoly_size2<Array1D<T>, T>(const Array1D<T>&, const Array1D<T>&, const Array1D<long>&);
#define N(T, K) template OB void guard::negative<Array1D<T>, T, K>(const Array1D<T>&, const Array1D<T>&, long); template OB void guard::negative1<Array1D<T>, T, K>(const Array1D<T>&, T, long);
#define H(T) template OB void guard::norm_order<Array1D<T>, T>(const Array1D<T>&, int); template OB void guard::norm_order_scaled<Array1D<T>, T>(const Array1D<T>&, int); template OB void guard::power<int, T>(T, long); N(T, 0) N(T, 1) N(T, 2)
#define ALL(F) F(float) F(double) F(long double)
ALL(I0) ALL(G) ALL(H)
