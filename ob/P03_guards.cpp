// Integer division and remainder by zero and shifts with a negative operand are rejected in
// every spelling; elementary functions with a domain restriction reject arguments outside it.
#include "sv.hpp"
#include <cmath>
using namespace spp;
#define INTS(ns, f) template OB void ns::f(int, int); template OB void ns::f(long, long); \
   template OB void ns::f(unsigned, unsigned); template OB void ns::f(unsigned long, unsigned long);
#define SINTS(ns, f) template OB void ns::f(int, int); template OB void ns::f(long, long);
namespace guard {
template <class T> OB void div(T a, T b) { REQUIRE(b == 0); keep(S_<T>{a} / S_<T>{b}); FAIL(); }
template <class T> OB void div_assign(T a, T b) { REQUIRE(b == 0); S_<T> x{a}; x /= S_<T>{b}; keep(x); FAIL(); }
template <class T> OB void rem(T a, T b) { REQUIRE(b == 0); keep(S_<T>{a} % S_<T>{b}); FAIL(); }
template <class T> OB void rem_assign(T a, T b) { REQUIRE(b == 0); S_<T> x{a}; x %= S_<T>{b}; keep(x); FAIL(); }
template <class T> OB void shl_first(T a, T b) { REQUIRE(a < 0); keep(S_<T>{a} << S_<T>{b}); FAIL(); }
template <class T> OB void shl_second(T a, T b) { REQUIRE(b < 0); keep(S_<T>{a} << S_<T>{b}); FAIL(); }
template <class T> OB void shr_first(T a, T b) { REQUIRE(a < 0); keep(S_<T>{a} >> S_<T>{b}); FAIL(); }
template <class T> OB void shr_second(T a, T b) { REQUIRE(b < 0); keep(S_<T>{a} >> S_<T>{b}); FAIL(); }
template <class T> OB void shla_first(T a, T b) { REQUIRE(a < 0); S_<T> x{a}; x <<= S_<T>{b}; keep(x); FAIL(); }
template <class T> OB void shla_second(T a, T b) { REQUIRE(b < 0); S_<T> x{a}; x <<= S_<T>{b}; keep(x); FAIL(); }
template <class T> OB void shra_first(T a, T b) { REQUIRE(a < 0); S_<T> x{a}; x >>= S_<T>{b}; keep(x); FAIL(); }
template <class T> OB void shra_second(T a, T b) { REQUIRE(b < 0); S_<T> x{a}; x >>= S_<T>{b}; keep(x); FAIL(); }
template <class T> OB void pow_neg(T a, T b) { REQUIRE(b < 0); keep(pows(S_<T>{a}, S_<T>{b})); FAIL(); }
template <class T> OB void clamp_order(T a, T b) { REQUIRE(!(a <= b)); keep(clamps(S_<T>{T(0)}, S_<T>{a}, S_<T>{b})); FAIL(); }
template <class T> OB void open_order(T a, T b) { REQUIRE(!(a <= b)); keep(in_open(S_<T>{T(0)}, S_<T>{a}, S_<T>{b})); FAIL(); }
template <class T> OB void closed_order(T a, T b) { REQUIRE(!(a <= b)); keep(in_closed(S_<T>{T(0)}, S_<T>{a}, S_<T>{b})); FAIL(); }
template <class T> OB void clamp_nan(T a, T b) { REQUIRE(std::isnan(a)); keep(clamps(S_<T>{a}, S_<T>{T(0)}, S_<T>{b})); FAIL(); }
OB void factorial_neg(long n) { REQUIRE(n < 0); keep(factorial(n)); FAIL(); }
OB void binom_neg(long n, long k) { REQUIRE(k < 0); keep(binom_coeff(n, k)); FAIL(); }
OB void binom_order(long n, long k) { REQUIRE(n < k); keep(binom_coeff(n, k)); FAIL(); }
OB void pow_prods_neg(double x, long p) { REQUIRE(p < 0); keep(pow_prods(S_<double>{x}, p)); FAIL(); }
} // namespace guard
INTS(guard, div) INTS(guard, div_assign) INTS(guard, rem) INTS(guard, rem_assign)
SINTS(guard, shl_first) SINTS(guard, shl_second) SINTS(guard, shr_first) SINTS(guard, shr_second)
SINTS(guard, shla_first) SINTS(guard, shla_second) SINTS(guard, shra_first) SINTS(guard, shra_second)
SINTS(guard, pow_neg)
INTS(guard, clamp_order) INTS(guard, open_order) INTS(guard, closed_order)
template OB void guard::clamp_order(double, double); template OB void guard::open_order(float, float);
template OB void guard::closed_order(long double, long double);
template OB void guard::clamp_nan(double, double); template OB void guard::clamp_nan(float, float);
namespace total {
// a valid operation is never rejected
template <class T> OB void accepted(T a, T b) {
   REQUIRE(b != 0);
   keep(S_<T>{a} / S_<T>{b});
   keep(S_<T>{a} % S_<T>{b});
   REQUIRE(a >= 0 && b >= 0 && b < 31);
   keep(S_<T>{a} << S_<T>{b});
   keep(S_<T>{a} >> S_<T>{b});
   LIVE();
}
template <class T> OB void accepted_fp(T a, T b) {
   keep(S_<T>{a} / S_<T>{b});   // floating-point division by zero is defined
   S_<T> x{a};
   x /= S_<T>{b};
   keep(x);
   keep(pows(S_<T>{a}, S_<T>{b}));
   LIVE();
}
} // namespace total
INTS(total, accepted)
template OB void total::accepted_fp(double, double); template OB void total::accepted_fp(float, float);
template OB void total::accepted_fp(long double, long double);
// Tags for sizes and positions reject negative numbers in each spelling and keep the others; those for steps keep all.
namespace guard {
#define NEGTAG(Tag)                                                                                       \
   template <class T> OB void neg_##Tag(T x, T) { REQUIRE(x < 0); keep(Tag{x}); FAIL(); }                 \
   template <class T> OB void negs_##Tag(T x, T) { REQUIRE(x < 0); keep(Tag{S_<T>{x}}); FAIL(); }
NEGTAG(First) NEGTAG(Endmost) NEGTAG(Size) NEGTAG(Count) NEGTAG(Pos) NEGTAG(Index) NEGTAG(Rows) NEGTAG(Cols) NEGTAG(ImplicitNonNegInt)
OB void vector_sequence(long n, long s, long d) { REQUIRE(n < 0); auto v = implicit_vector_sequence(n, s, d); keep(v); FAIL(); }
OB void vector_sequence_tag(long n) { REQUIRE(n < 0); auto v = implicit_vector_sequence(Size{n}, Start{0}); keep(v); FAIL(); }
#define RANGEG(f)                                                                                         \
   template <class T> OB void f##_order(T a, T b) { REQUIRE(!(a <= b)); FixedArray1D<T, 3> x; keep(f(x, S_<T>{a}, S_<T>{b})); FAIL(); }      \
   template <class T> OB void f##_order_tag(T a, T b) { REQUIRE(!(a <= b)); FixedArray1D<T, 3> x; keep(f(x, Low{S_<T>{a}}, High{S_<T>{b}})); FAIL(); }
RANGEG(in_open_range) RANGEG(in_closed_range)
#define LP(f)                                                                                             \
   template <class T> OB void f##_order(T, long p) { REQUIRE(p <= 0); FixedArray1D<T, 3> x; keep(f(x, p)); FAIL(); } \
   template <class T> OB void f##_order2(T, long p) { REQUIRE(p <= 0); FixedArray2D<T, 2, 2> x; keep(f(x, p)); FAIL(); }
LP(norm_lp) LP(norm_lp_scaled) LP(stable_norm_lp) LP(stable_norm_lp_scaled)
#define NEGPOW(name, ...)                                                                                 \
   template <class T, class P> OB void name##_neg(T, P p, P q) {                                          \
      REQUIRE(p < 0);                                                                                     \
      FixedArray1D<T, 2> x, c;                                                                            \
      FixedArray1D<P, 2> ps, qs;                                                                          \
      ps.un(0) = S_<P>{p}; ps.un(1) = S_<P>{q}; qs.un(0) = S_<P>{q}; qs.un(1) = S_<P>{p};                 \
      keep(q > 1000 ? (__VA_ARGS__) : [&] { auto& ps = qs; return __VA_ARGS__; }());                      \
      FAIL();                                                                                             \
   }
NEGPOW(polynomial, polynomial(c, S_<T>{T(2)}, ps)) NEGPOW(gpolynomial, gpolynomial(c, x, ps))
NEGPOW(stable_polynomial, stable_polynomial(c, S_<T>{T(2)}, ps)) NEGPOW(stable_gpolynomial, stable_gpolynomial(c, x, ps))
} // namespace guard
#define NT(Tag) SINTS(guard, neg_##Tag) SINTS(guard, negs_##Tag)
NT(First) NT(Endmost) NT(Size) NT(Count) NT(Pos) NT(Index) NT(Rows) NT(Cols) NT(ImplicitNonNegInt)
#define RG(T) template OB void guard::in_open_range_order(T, T); template OB void guard::in_open_range_order_tag(T, T); \
   template OB void guard::in_closed_range_order(T, T); template OB void guard::in_closed_range_order_tag(T, T);
RG(int) RG(double) RG(unsigned)
#define LPG(T) template OB void guard::norm_lp_order(T, long); template OB void guard::norm_lp_order2(T, long);          \
   template OB void guard::norm_lp_scaled_order(T, long); template OB void guard::norm_lp_scaled_order2(T, long);        \
   template OB void guard::stable_norm_lp_order(T, long); template OB void guard::stable_norm_lp_order2(T, long);        \
   template OB void guard::stable_norm_lp_scaled_order(T, long); template OB void guard::stable_norm_lp_scaled_order2(T, long);
LPG(double) LPG(float)
#define NP(T, P) template OB void guard::polynomial_neg(T, P, P); template OB void guard::gpolynomial_neg(T, P, P);      \
   template OB void guard::stable_polynomial_neg(T, P, P); template OB void guard::stable_gpolynomial_neg(T, P, P);
NP(double, int) NP(double, long) NP(float, int)
namespace total {
template <class T> OB void tags(T x, T) {
   PROVE(Stride{x}.get().val() == x && ImplicitInt{x}.get().val() == x);
   PROVE(Stride{S_<T>{x}}.get().val() == x && ImplicitInt{S_<T>{x}}.get().val() == x);
   REQUIRE(x >= 0);
#define KEEPS(Tag) PROVE(Tag{x}.get().val() == x && Tag{S_<T>{x}}.get().val() == x);
   KEEPS(First) KEEPS(Endmost) KEEPS(Size) KEEPS(Count) KEEPS(Pos) KEEPS(Index) KEEPS(Rows) KEEPS(Cols) KEEPS(ImplicitNonNegInt)
   PROVE(First{}.get().val() == 0 && Endmost{}.get().val() == 0 && Size{}.get().val() == 0 && Count{}.get().val() == 0);
   PROVE(Pos{}.get().val() == 0 && Stride{}.get().val() == 0 && Rows{}.get().val() == 0 && Cols{}.get().val() == 0);
   LIVE();
}
template <class T> OB void value_tags(T x, T) {
#define VTAG(Tag) PROVE(same(Tag{x}.get().val(), x) && same(Tag{S_<T>{x}}.get().val(), x) && same(Tag<T>{}.get().val(), T(0)));
   VTAG(Low) VTAG(High) VTAG(Start) VTAG(End) VTAG(Incr) VTAG(Value)
   LIVE();
}
} // namespace total
SINTS(total, tags)
#define VT(T) template OB void total::value_tags(T, T);
VT(int) VT(long) VT(unsigned) VT(unsigned long) VT(double) VT(float) VT(long double)
