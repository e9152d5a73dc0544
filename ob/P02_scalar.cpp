// Arithmetic, comparison, logic, conversion and elementary functions of strict scalars give
// the result of the same built-in operation, for every operand value.
#include "sv.hpp"
#include <cmath>
using namespace spp;
#define INTS(ns, f) template OB void ns::f(int, int); template OB void ns::f(long, long); \
   template OB void ns::f(unsigned, unsigned); template OB void ns::f(unsigned long, unsigned long);
#define SINTS(ns, f) template OB void ns::f(int, int); template OB void ns::f(long, long);
#define FLTS(ns, f) template OB void ns::f(float, float); template OB void ns::f(double, double); \
   template OB void ns::f(long double, long double);
#define REALS(ns, f) INTS(ns, f) FLTS(ns, f)

#define CMP(name, op)                                                          \
   namespace total {                                                           \
   template <class T> OB void name(T a, T b) {                                 \
      PROVE((S_<T>{a} op S_<T>{b}).val() == (a op b));                         \
      LIVE();                                                                  \
   }                                                                           \
   }
#define BINP(name, op, pre)                                                    \
   namespace total {                                                           \
   template <class T> OB void name(T a, T b) {                                 \
      REQUIRE(pre);                                                            \
      PROVE(same(S_<T>{a} op S_<T>{b}, T(a op b)));                            \
      S_<T> x{a};                                                              \
      S_<T>& r = (x op##= S_<T>{b});                                           \
      PROVE(&r == &x);                                                         \
      PROVE(same(x, T(a op b)));                                               \
      LIVE();                                                                  \
   }                                                                           \
   }
BINP(add, +, true) REALS(total, add)
BINP(sub, -, true) REALS(total, sub)
BINP(mul, *, true) REALS(total, mul)
BINP(div, /, b != 0) INTS(total, div)
BINP(fdiv, /, true) FLTS(total, fdiv)
BINP(rem, %, b != 0) INTS(total, rem)
BINP(shl, <<, a >= 0 && b >= 0 && b < 31) INTS(total, shl)
BINP(shr, >>, a >= 0 && b >= 0 && b < 31) INTS(total, shr)
BINP(band, &, true) INTS(total, band)
BINP(bor, |, true) INTS(total, bor)
BINP(bxor, ^, true) INTS(total, bxor)
CMP(eq_, ==) REALS(total, eq_)
CMP(ne_, !=) REALS(total, ne_)
CMP(lt_, <) REALS(total, lt_)
CMP(le_, <=) REALS(total, le_)
CMP(gt_, >) REALS(total, gt_)
CMP(ge_, >=) REALS(total, ge_)

namespace total {
OB void bool_ops(bool a, bool b) {
   PROVE((StrictBool{a} && StrictBool{b}).val() == (a && b));
   PROVE((StrictBool{a} || StrictBool{b}).val() == (a || b));
   PROVE((StrictBool{a} ^ StrictBool{b}).val() == (a != b));
   PROVE((StrictBool{a} == StrictBool{b}).val() == (a == b));
   PROVE((StrictBool{a} != StrictBool{b}).val() == (a != b));
   PROVE((!StrictBool{a}).val() == !a);
   PROVE(bool(StrictBool{a}) == a);
   LIVE();
}
template <class T> OB void signed_unary(T a, T b) {
   PROVE(same(+S_<T>{a}, a));
   PROVE(same(-S_<T>{a}, T(-a)));
   auto s = [&] { return signs(S_<T>{a}).val(); };
   if(a > 0) {
      PROVE(s() == 1);
   } else if(a < 0) {
      PROVE(s() == -1);
   } else if(a == 0) {
      PROVE(s() == 0);
   }
   LIVE();
}
template <class T> OB void int_unary(T a, T b) {
   PROVE(same(~S_<T>{a}, T(~a)));
   LIVE();
}
template <class T> OB void incdec(T a, T b) {
   S_<T> x{a};
   S_<T>& r = ++x;
   PROVE(&r == &x && same(x, T(a + 1)));
   S_<T> y{a};
   PROVE(&--y == &y && same(y, T(a - 1)));
   S_<T> z{a};
   PROVE(same(z++, a) && same(z, T(a + 1)));
   S_<T> w{a};
   PROVE(same(w--, a) && same(w, T(a - 1)));
   LIVE();
}
template <class T> OB void values(T a, T b) {
   S_<T> x{a};
   PROVE(same(x.val(), a) && same(static_cast<T>(x), a));
   S_<T> y{x};
   PROVE(same(y, a));
   y = S_<T>{b};
   PROVE(same(y, b) && same(x, a));
   PROVE(same(S_<T>{}, T(0)));
   PROVE(same(Zero<T>, T(0)) && same(One<T>, T(1)));
   LIVE();
}
template <class T> OB void minmax(T a, T b) {
   PROVE(same(mins(S_<T>{a}, S_<T>{b}), a < b ? a : b));
   PROVE(same(maxs(S_<T>{a}, S_<T>{b}), a > b ? a : b));
   PROVE(same(squares(S_<T>{a}), T(a * a)));
   PROVE(same(cubes(S_<T>{a}), T(a * a * a)));
   LIVE();
}
template <class T> OB void absolute(T a, T b) {
   auto r = [&] { return abss(S_<T>{a}).val(); };
   if(a > 0) {
      PROVE(same(r(), a));
   } else if(a == 0) {
      PROVE(same(r(), T(0)));   // of either zero, positive zero
   } else {
      PROVE(same(r(), T(-a)));  // negative, or NaN
   }
   LIVE();
}
template <class T> OB void uabsolute(T a, T b) {
   PROVE(abss(S_<T>{a}).val() == a);
   PROVE(same(signs(S_<T>{a}), T(a > 0 ? 1 : 0)));
   LIVE();
}
template <class T> OB void conversions(T a, T b) {
   PROVE(strict_cast<long double>(S_<T>{a}).val() == static_cast<long double>(a) || a != a);
   PROVE(same(S_<T>{a}.sf().val(), static_cast<float>(a)));
   PROVE(same(S_<T>{a}.sd().val(), static_cast<double>(a)));
   PROVE(same(S_<T>{a}.sld().val(), static_cast<long double>(a)));
   PROVE(S_<T>{a}.sb().val() == static_cast<bool>(a));
   PROVE(same(strict_cast<double>(a).val(), static_cast<double>(a)));
   PROVE(same(strict_cast<float>(S_<T>{a}).val(), static_cast<float>(a)));
   PROVE(same(builtin_cast<double>(S_<T>{a}), static_cast<double>(a)));
   LIVE();
}
template <class T> OB void int_conversions(T a, T b) {
   PROVE(S_<T>{a}.si().val() == static_cast<int>(a));
   PROVE(S_<T>{a}.sl().val() == static_cast<long>(a));
   PROVE(S_<T>{a}.sui().val() == static_cast<unsigned>(a));
   PROVE(S_<T>{a}.sul().val() == static_cast<unsigned long>(a));
   PROVE(strict_cast<int>(S_<T>{a}).val() == static_cast<int>(a));
   PROVE(to_size_t(S_<T>{a}) == static_cast<unsigned long>(a));
   PROVE(to_index_t(S_<T>{a}).val() == static_cast<long>(a));
   LIVE();
}
template <class T> OB void flt_conversions(T a, T b) {
   REQUIRE(a > -1000 && a < 1000);
   PROVE(S_<T>{a}.si().val() == static_cast<int>(a));
   PROVE(S_<T>{a}.sl().val() == static_cast<long>(a));
   LIVE();
}
OB void bool_conversions(bool a) {
   StrictBool x{a};
   PROVE(x.si().val() == int(a) && x.sl().val() == long(a) && x.sui().val() == unsigned(a));
   PROVE(x.sul().val() == (unsigned long)(a) && x.sf().val() == float(a) && x.sd().val() == double(a));
   PROVE(x.sb().val() == a && x.sld().val() == (long double)(a));
   LIVE();
}
// elementary functions: the library's C/C++ math function of the same name and type
template <class T> OB void math(T a, T b) {
   S_<T> x{a};
   PROVE(same(exps(x), std::exp(a)));
   PROVE(same(logs(x), std::log(a)));
   PROVE(same(log2s(x), std::log2(a)));
   PROVE(same(log10s(x), std::log10(a)));
   PROVE(same(sqrts(x), std::sqrt(a)));
   PROVE(same(cbrts(x), std::cbrt(a)));
   PROVE(same(sins(x), std::sin(a)));
   PROVE(same(coss(x), std::cos(a)));
   PROVE(same(tans(x), std::tan(a)));
   PROVE(same(floors(x), std::floor(a)));
   PROVE(same(ceils(x), std::ceil(a)));
   PROVE(same(invs(x), T(1) / a));
   PROVE(same(pows(x, S_<T>{b}), std::pow(a, b)));
   LIVE();
}
template <class T> OB void math3(T a, T b, T c) {
   PROVE(same(fmas(S_<T>{a}, S_<T>{b}, S_<T>{c}), std::fma(a, b, c)));
   LIVE();
}
template <class T> OB void classify(T a, T b) {
   PROVE(isnans(S_<T>{a}).val() == std::isnan(a));
   PROVE(isinfs(S_<T>{a}).val() == std::isinf(a));
   PROVE(isfinites(S_<T>{a}).val() == std::isfinite(a));
   LIVE();
}
template <class T> OB void intpow(T a, T b) {
   auto p = [&](T e) { return pows(S_<T>{a}, S_<T>{e}).val(); };
   PROVE(p(0) == 1);
   PROVE(p(1) == a);
   PROVE(p(2) == a * a);
   PROVE(p(3) == a * a * a);
   PROVE(p(4) == (a * a) * (a * a));
   PROVE(p(5) == (a * a) * (a * a) * a);
   PROVE(p(8) == ((a * a) * (a * a)) * ((a * a) * (a * a)));
   LIVE();
}
template <class T> OB void fltpow(T a, long k) {
   auto p = [&](long e) { return fast_pows_int(S_<T>{a}, e); };
   PROVE(same(p(0), T(1)));
   PROVE(same(p(1), a));
   PROVE(same(p(2), a * a));
   PROVE(same(p(3), a * a * a));
   PROVE(same(p(-1), 1 / a));
   PROVE(same(p(-2), 1 / (a * a)));
   PROVE(same(pows_int(S_<T>{a}, k), std::pow(a, static_cast<T>(k))));
   PROVE(same(exps_int<T>(k), std::exp(static_cast<T>(k))));
   LIVE();
}
template <class T> OB void ranges(T x, T lo, T hi) {
   if constexpr(std::is_floating_point_v<T>) {
      REQUIRE(!std::isnan(x));
      REQUIRE(!std::isnan(lo));
      REQUIRE(!std::isnan(hi));
   }
   REQUIRE(lo <= hi);
   REQUIRE(!(hi < lo));
   S_<T> X{x}, L{lo}, H{hi};
   PROVE(in_open(X, L, H).val() == (x > lo && x < hi));
   PROVE(in_closed(X, L, H).val() == (x >= lo && x <= hi));
   if(x < lo) {
      PROVE(same(clamps(X, L, H), lo));
   } else if(hi < x) {
      PROVE(same(clamps(X, L, H), hi));
   } else {
      PROVE(same(clamps(X, L, H), x));
   }
   LIVE();
}
template <class T> OB void two_prod_parts(T a, T b) {
   auto [r, s] = two_prods(S_<T>{a}, S_<T>{b});
   PROVE(same(r, T(a * b)));
   PROVE(same(s, std::fma(a, b, -(a * b))));
   LIVE();
}
OB void integer_functions() {
   PROVE(factorial(0).val() == 1 && factorial(1).val() == 1 && factorial(5).val() == 120);
   PROVE(binom_coeff(5, 2).val() == 10 && binom_coeff(6, 0).val() == 1 && binom_coeff(6, 6).val() == 1);
   LIVE();
}
// every value that fits: 0! .. 20!, and the triangle of binomial coefficients up to row 34
constexpr long factorial_def(long n) {
   long r = 1;
   for(long k = 2; k <= n; ++k) {
      r *= k;
   }
   return r;
}
constexpr long binom_def(long n, long k) {
   long row[40] = {1};
   for(long i = 1; i <= n; ++i) {
      for(long j = i; j > 0; --j) {
         row[j] += row[j - 1];
      }
   }
   return row[k];
}
template <long N> OB void factorial_n() {
   constexpr long f = factorial_def(N);
   PROVE(factorial(N).val() == f);
   LIVE();
}
template <long N, long K> inline __attribute__((always_inline)) void binom_nk() {
   constexpr long b = binom_def(N, K);
   PROVE(binom_coeff(N, K).val() == b);
}
template <long N> OB void binom_row() {
   [&]<std::size_t... K>(std::index_sequence<K...>) { (binom_nk<N, long(K)>(), ...); }(std::make_index_sequence<N + 1>{});
   LIVE();
}
OB void binom_edges(long n) {
   REQUIRE(n > 0);
   PROVE(binom_coeff(n, 0).val() == 1);
   PROVE(binom_coeff(n, 1).val() == n);
   LIVE();
}
} // namespace total
#define ROWS5(f, a) template OB void total::f<a>(); template OB void total::f<a + 1>(); template OB void total::f<a + 2>(); template OB void total::f<a + 3>(); template OB void total::f<a + 4>();
ROWS5(factorial_n, 0) ROWS5(factorial_n, 5) ROWS5(factorial_n, 10) ROWS5(factorial_n, 15)
template OB void total::factorial_n<20>();
ROWS5(binom_row, 0) ROWS5(binom_row, 5) ROWS5(binom_row, 10) ROWS5(binom_row, 15) ROWS5(binom_row, 20) ROWS5(binom_row, 25) ROWS5(binom_row, 30)
SINTS(total, signed_unary) FLTS(total, signed_unary)
INTS(total, int_unary)
REALS(total, incdec) REALS(total, values) REALS(total, minmax) REALS(total, conversions)
SINTS(total, absolute) FLTS(total, absolute)
template OB void total::uabsolute(unsigned, unsigned); template OB void total::uabsolute(unsigned long, unsigned long);
INTS(total, int_conversions) FLTS(total, flt_conversions)
FLTS(total, math) FLTS(total, classify) FLTS(total, two_prod_parts)
template OB void total::math3(float, float, float); template OB void total::math3(double, double, double);
template OB void total::math3(long double, long double, long double);
INTS(total, intpow)
template OB void total::fltpow(double, long); template OB void total::fltpow(float, long);
template OB void total::ranges(int, int, int); template OB void total::ranges(unsigned long, unsigned long, unsigned long);
template OB void total::ranges(double, double, double); template OB void total::ranges(float, float, float);
