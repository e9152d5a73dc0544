// Elementwise operations on arrays, slices and expressions give at every position the result
// of the scalar operation on the elements at that position; scalars broadcast.
#include "sv.hpp"
#include <cmath>
using namespace spp;
using namespace spp::place;
#define P1(ns, f, T, U)                                                                    \
   template OB void ns::f(Array1D<T>&, Array1D<U>&, long);                                 \
   template OB void ns::f(const FixedArray1D<T, 7>&, const FixedArray1D<U, 7>&, long);
#define P2(ns, f, T, U)                                                                    \
   template OB void ns::f(Array2D<T>&, Array2D<U>&, long, long);                           \
   template OB void ns::f(const FixedArray2D<T, 3, 4>&, const FixedArray2D<U, 3, 4>&, long, long);
#define U1(ns, f, T)                                                                       \
   template OB void ns::f(Array1D<T>&, long);                                              \
   template OB void ns::f(const FixedArray1D<T, 7>&, long);
#define U2(ns, f, T)                                                                       \
   template OB void ns::f(Array2D<T>&, long, long);                                        \
   template OB void ns::f(const FixedArray2D<T, 3, 4>&, long, long);

// array op array, scalar op array, array op scalar; one and two dimensions
#define BINOP(name, op, pre)                                                               \
   namespace eq {                                                                          \
   template <class A, class B> OB void name(A& a, B& b, long k) {                          \
      using T = decltype(at_(a, k));                                                       \
      auto e = a op b;                                                                     \
      PROVE(len(e) == len(a));                                                             \
      T x = at_(a, k), y = at_(b, k);                                                      \
      REQUIRE(pre);                                                                        \
      PROVE(same(e.un(k), T(x op y)));                                                     \
      LIVE();                                                                              \
   }                                                                                       \
   template <class A, class B> OB void name##_s(A& a, B& b, long k) {                      \
      using T = decltype(at_(a, k));                                                       \
      auto e = a op S_<T>{at_(b, 0)};                                                      \
      PROVE(len(e) == len(a));                                                             \
      T x = at_(a, k), y = at_(b, 0);                                                      \
      REQUIRE(pre);                                                                        \
      PROVE(same(e.un(k), T(x op y)));                                                     \
      LIVE();                                                                              \
   }                                                                                       \
   template <class A, class B> OB void s_##name(A& a, B& b, long k) {                      \
      using T = decltype(at_(a, k));                                                       \
      auto e = S_<T>{at_(a, 0)} op b;                                                      \
      PROVE(len(e) == len(b));                                                             \
      T x = at_(a, 0), y = at_(b, k);                                                      \
      REQUIRE(pre);                                                                        \
      PROVE(same(e.un(k), T(x op y)));                                                     \
      LIVE();                                                                              \
   }                                                                                       \
   template <class A, class B> OB void name(A& a, B& b, long i, long j) {                  \
      using T = decltype(at_(a, i, j));                                                    \
      auto e = a op b;                                                                     \
      PROVE(nr(e) == nr(a));                                                               \
      PROVE(nc(e) == nc(a));                                                               \
      PROVE(len(e) == len(a));                                                             \
      T x = at_(a, i, j), y = at_(b, i, j);                                                \
      REQUIRE(pre);                                                                        \
      PROVE(same(e.un(i, j), T(x op y)));                                                  \
      LIVE();                                                                              \
   }                                                                                       \
   template <class A, class B> OB void name##_s(A& a, B& b, long i, long j) {              \
      using T = decltype(at_(a, i, j));                                                    \
      auto e = a op S_<T>{at_(b, 0)};                                                      \
      PROVE(nr(e) == nr(a));                                                               \
      PROVE(nc(e) == nc(a));                                                               \
      T x = at_(a, i, j), y = at_(b, 0);                                                   \
      REQUIRE(pre);                                                                        \
      PROVE(same(e.un(i, j), T(x op y)));                                                  \
      LIVE();                                                                              \
   }                                                                                       \
   template <class A, class B> OB void s_##name(A& a, B& b, long i, long j) {              \
      using T = decltype(at_(a, i, j));                                                    \
      auto e = S_<T>{at_(a, 0)} op b;                                                      \
      PROVE(nr(e) == nr(b));                                                               \
      PROVE(nc(e) == nc(b));                                                               \
      T x = at_(a, 0), y = at_(b, i, j);                                                   \
      REQUIRE(pre);                                                                        \
      PROVE(same(e.un(i, j), T(x op y)));                                                  \
      LIVE();                                                                              \
   }                                                                                       \
   }
#define ALLB(name, T) P1(eq, name, T, T) P1(eq, name##_s, T, T) P1(eq, s_##name, T, T) \
   P2(eq, name, T, T) P2(eq, name##_s, T, T) P2(eq, s_##name, T, T)
#define REALB(name) ALLB(name, double) ALLB(name, float) ALLB(name, int) ALLB(name, long)
#define INTB(name) ALLB(name, int) ALLB(name, long) ALLB(name, unsigned)
BINOP(add, +, true) REALB(add)
BINOP(sub, -, true) REALB(sub)
BINOP(mul, *, true) REALB(mul)
BINOP(fdiv, /, true) ALLB(fdiv, double) ALLB(fdiv, float)
BINOP(idiv, /, y != 0) INTB(idiv)
BINOP(rem, %, y != 0) INTB(rem)
BINOP(shl, <<, x >= T(0) && y >= T(0) && y < T(31)) INTB(shl)
BINOP(shr, >>, x >= T(0) && y >= T(0) && y < T(31)) INTB(shr)
BINOP(band, &, true) INTB(band)
BINOP(bor, |, true) INTB(bor)
BINOP(bxor, ^, true) INTB(bxor)
BINOP(land, &&, true) ALLB(land, bool)
BINOP(lor, ||, true) ALLB(lor, bool)
namespace eq {
template <class A, class B> OB void lxor(A& a, B& b, long k) {
   PROVE((a ^ b).un(k).val() == (at_(a, k) != at_(b, k)));
   PROVE((a ^ StrictBool{at_(b, 0)}).un(k).val() == (at_(a, k) != at_(b, 0)));
   PROVE((StrictBool{at_(a, 0)} ^ b).un(k).val() == (at_(a, 0) != at_(b, k)));
   LIVE();
}
} // namespace eq
P1(eq, lxor, bool, bool)

#define UNOP(name, expr, spec)                                                             \
   namespace eq {                                                                          \
   template <class A> OB void name(A& a, long k) {                                         \
      using T = decltype(at_(a, k));                                                       \
      auto e = expr;                                                                       \
      PROVE(len(e) == len(a));                                                             \
      T x = at_(a, k);                                                                     \
      PROVE(same(e.un(k), spec));                                                          \
      LIVE();                                                                              \
   }                                                                                       \
   template <class A> OB void name(A& a, long i, long j) {                                 \
      using T = decltype(at_(a, i, j));                                                    \
      auto e = expr;                                                                       \
      PROVE(nr(e) == nr(a));                                                               \
      PROVE(nc(e) == nc(a));                                                               \
      T x = at_(a, i, j);                                                                  \
      PROVE(same(e.un(i, j), spec));                                                       \
      LIVE();                                                                              \
   }                                                                                       \
   }
#define ALLU(name, T) U1(eq, name, T) U2(eq, name, T)
#define FLTU(name) ALLU(name, double) ALLU(name, float)
UNOP(plus, +a, T(+x)) FLTU(plus) ALLU(plus, int)
UNOP(minus, -a, T(-x)) FLTU(minus) ALLU(minus, int) ALLU(minus, long)
UNOP(compl_, ~a, T(~x)) ALLU(compl_, int) ALLU(compl_, unsigned)
UNOP(lnot, !a, T(!x)) ALLU(lnot, bool)
namespace eq {
template <class A> OB void abs_(A& a, long k) {
   auto e = abs(a);
   PROVE(len(e) == len(a));
   auto x = at_(a, k);
   auto r = [&] { return at_(e, k); };
   if(x > 0) {
      PROVE(same(r(), x));
   } else if(x == 0) {
      PROVE(same(r(), decltype(x)(0)));
   } else {
      PROVE(same(r(), -x));
   }
   LIVE();
}
} // namespace eq
U1(eq, abs_, double) U1(eq, abs_, float)
UNOP(iabs, abs(a), T(x < 0 ? -x : x)) ALLU(iabs, int) ALLU(iabs, long)
UNOP(exp_, exp(a), T(std::exp(x))) FLTU(exp_)
UNOP(log_, log(a), T(std::log(x))) FLTU(log_)
UNOP(log2_, log2(a), T(std::log2(x))) FLTU(log2_)
UNOP(log10_, log10(a), T(std::log10(x))) FLTU(log10_)
UNOP(sqrt_, sqrt(a), T(std::sqrt(x))) FLTU(sqrt_)
UNOP(cbrt_, cbrt(a), T(std::cbrt(x))) FLTU(cbrt_)
UNOP(sin_, sin(a), T(std::sin(x))) FLTU(sin_)
UNOP(cos_, cos(a), T(std::cos(x))) FLTU(cos_)
UNOP(tan_, tan(a), T(std::tan(x))) FLTU(tan_)
UNOP(pow_, pow(a, S_<T>{T(2.5)}), T(std::pow(x, T(2.5)))) FLTU(pow_)
UNOP(pow_int_, pow_int(a, 7), T(std::pow(x, T(7)))) FLTU(pow_int_)
UNOP(fast_pow_0, fast_pow_int(a, 0), T(1)) FLTU(fast_pow_0)
UNOP(fast_pow_2, fast_pow_int(a, 2), T(x* x)) FLTU(fast_pow_2)
UNOP(inv_, inv(a), T(T(1) / x)) FLTU(inv_)
UNOP(cast_i, array_cast<int>(a), int(x)) FLTU(cast_i) ALLU(cast_i, long)
UNOP(cast_d, array_cast<double>(a), double(x)) ALLU(cast_d, int) ALLU(cast_d, float)
UNOP(gen, generate(a, [](auto v) { return v + v; }), T(x + x)) FLTU(gen)

namespace eq {
template <class A, class B> OB void gen2(A& a, B& b, long k) { // user function of two arguments
   auto e = generate(a, b, [](auto v, auto w) { return v - w; });
   PROVE(len(e) == len(a));
   using T = decltype(at_(a, k));
   PROVE(same(e.un(k), T(at_(a, k) - at_(b, k))));
   LIVE();
}
template <class A, class B> OB void twoprod(A& a, B& b, long k) {
   auto [p, r] = two_prod(a, b);
   using T = decltype(at_(a, k));
   T x = at_(a, k), y = at_(b, k);
   PROVE(same(p.un(k), T(x * y)));
   PROVE(same(r.un(k), T(std::fma(x, y, -(x * y)))));
   LIVE();
}
// operands that are slices, views and expressions
template <class A, class B> OB void composite(A& a, B& b, long k) {
   using T = decltype(at_(a, k));
   auto s = a(even);
   auto r = b(odd);
   auto e = S_<T>{T(2)} * s - r / S_<T>{T(3)};
   PROVE(len(e) == len(s));
   PROVE(same(e.un(k), T(T(2) * at_(a, 2 * k) - at_(b, 1 + 2 * k) / T(3))));
   auto f = -(a + b) * a;
   PROVE(len(f) == len(a));
   PROVE(same(f.un(k), T(-(at_(a, k) + at_(b, k)) * at_(a, k))));
   auto g = (a - b)(all);
   PROVE(same(g.un(k), T(at_(a, k) - at_(b, k))));
   LIVE();
}
template <class A, class B> OB void composite2(A& a, B& b, long i, long j) {
   using T = decltype(at_(a, i, j));
   auto f = -(a + b) * a;
   PROVE(nr(f) == nr(a));
   PROVE(nc(f) == nc(a));
   PROVE(same(f.un(i, j), T(-(at_(a, i, j) + at_(b, i, j)) * at_(a, i, j))));
   LIVE();
}
template <class A, class B> OB void row_expr(A& a, B& b, long i, long k) {
   using T = decltype(at_(a, i, k));
   REQUIRE(nc(a) > 0);
   REQUIRE(nc(b) > 0);
   auto e = a.row(i) + b.row(i);
   PROVE(len(e) == nc(a));
   PROVE(same(e.un(k), T(at_(a, i * nc(a) + k) + at_(b, i * nc(b) + k))));
   LIVE();
}
// a lazy expression reads its operands when it is evaluated, not when it is formed
template <class A, class B> OB void lazy(A& a, B& b, long k, double v) {
   using T = decltype(at_(a, k));
   auto e = a + b;
   a.un(k) = S_<T>{T(v)};
   PROVE(same(e.un(k), T(T(v) + at_(b, k))));
   LIVE();
}
} // namespace eq
P1(eq, gen2, double, double) P1(eq, gen2, int, int)
P1(eq, twoprod, double, double) P1(eq, twoprod, float, float)
template OB void eq::composite(Array1D<double>&, Array1D<double>&, long);
template OB void eq::composite(const FixedArray1D<float, 8>&, const FixedArray1D<float, 8>&, long);
P2(eq, composite2, double, double) P2(eq, composite2, int, int)
P2(eq, row_expr, double, double)
template OB void eq::lazy(Array1D<double>&, Array1D<double>&, long, double);
template OB void eq::lazy(FixedArray1D<float, 9>&, const FixedArray1D<float, 9>&, long, double);
