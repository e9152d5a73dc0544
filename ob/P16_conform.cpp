// P16: an operation on two arrays whose shapes differ is rejected, whatever the shapes; one on arrays of the same shape
// is not.
#include "sv.hpp"
using namespace spp;
using D1 = Array1D<double>;
using I1 = Array1D<int>;
using B1 = Array1D<bool>;
using D2 = Array2D<double>;
using I2 = Array2D<int>;
using B2 = Array2D<bool>;
using DA = Array1D<double, Aligned>;
using F3 = FixedArray1D<double, 3>;
using F5 = FixedArray1D<double, 5>;
using F53 = FixedArray2D<double, 5, 3>;
using DA2 = Array2D<double, Aligned>;
// REJ1(name, operands, operation): 1D operands a, b of different sizes.
// REJ2: 2D operands whose rows differ (R) or whose columns differ (C).
#define REJ1(name, A, B, ...)                               \
   namespace guard {                                        \
   OB void name##_1(A& a, const B& b) {                     \
      REQUIRE(len(a) != len(b));                            \
      __VA_ARGS__;                                          \
      FAIL();                                               \
   }                                                        \
   }
#define REJ2(name, A, B, ...)                               \
   namespace guard {                                        \
   OB void name##_rows(A& a, const B& b) {                  \
      REQUIRE(nr(a) != nr(b));                              \
      __VA_ARGS__;                                          \
      FAIL();                                               \
   }                                                        \
   OB void name##_cols(A& a, const B& b) {                  \
      REQUIRE(nc(a) != nc(b));                              \
      __VA_ARGS__;                                          \
      FAIL();                                               \
   }                                                        \
   }
// the same sizes are accepted: both built in place with any size
#define OK1(name, A, B, ...)                                \
   namespace total {                                        \
   OB void name##_1(A& a, const B& b) {                     \
      REQUIRE(len(a) >= 0);                                 \
      REQUIRE(len(a) == len(b));                            \
      __VA_ARGS__;                                          \
      LIVE();                                               \
   }                                                        \
   }
#define OK2(name, A, B, ...)                                \
   namespace total {                                        \
   OB void name##_2(A& a, const B& b) {                     \
      REQUIRE(nr(a) > 0);                                   \
      REQUIRE(nc(a) > 0);                                   \
      REQUIRE(nr(a) * nc(a) > 0);                           \
      REQUIRE(len(a) >= 0);                                 \
      REQUIRE(nr(a) == nr(b));                              \
      REQUIRE(nc(a) == nc(b));                              \
      __VA_ARGS__;                                          \
      LIVE();                                               \
   }                                                        \
   }
#define BOTH(name, T, ...)                                       \
   REJ1(name, Array1D<T>, Array1D<T>, __VA_ARGS__)               \
   REJ2(name, Array2D<T>, Array2D<T>, __VA_ARGS__)               \
   OK1(name, Array1D<T>, Array1D<T>, __VA_ARGS__)                \
   OK2(name, Array2D<T>, Array2D<T>, __VA_ARGS__)
// expressions
BOTH(add, double, keep(a + b))
BOTH(sub, double, keep(a - b))
BOTH(mul, double, keep(a * b))
BOTH(div, double, keep(a / b))
BOTH(rem, int, keep(a % b))
BOTH(shl, int, keep(a << b))
BOTH(shr, int, keep(a >> b))
BOTH(band, int, keep(a & b))
BOTH(bor, int, keep(a | b))
BOTH(bxor, int, keep(a ^ b))
BOTH(land, bool, keep(a && b))
BOTH(lor, bool, keep(a || b))
BOTH(lxor, bool, keep(a ^ b))
BOTH(gen2, double, keep(generate(a, b, [](auto x, auto y) { return x + y; })))
BOTH(expr_left, double, keep((2._sd * a) + b))
BOTH(expr_right, double, keep(a - (-b)))
REJ1(aligned, DA, D1, keep(a + b))
REJ2(aligned, DA2, D2, keep(a + b))
REJ1(views, D2, D2, keep(a.view1D() + b.view1D()))
namespace guard {
OB void rows_of(const D2& a, const D2& b) {
   REQUIRE(nc(a) != nc(b));
   keep(a.row(0) + b.row(0));
   FAIL();
}
OB void cols_of(const D2& a, const D2& b) {
   REQUIRE(nr(a) != nr(b));
   keep(a.col(0) - b.col(0));
   FAIL();
}
OB void row_and_array(const D2& a, const D1& b) {
   REQUIRE(nc(a) != len(b));
   keep(a.row(0) * b);
   FAIL();
}
OB void slice_and_array(const D1& a, const D1& b, long f, long n) {
   REQUIRE(n != len(b));
   keep(a(seqN(f, n)) + b);
   FAIL();
}
OB void array_and_slice(const D1& a, const D1& b, long f, long n) {
   REQUIRE(n != len(b));
   keep(b - a(place::firstN(n)));
   FAIL();
}
OB void fixed_and_array(const FixedArray1D<double, 5>& a, const D1& b) {
   REQUIRE(len(b) != 5);
   keep(a + b);
   FAIL();
}
OB void fixed_and_array_rows(const FixedArray2D<double, 5, 3>& a, const D2& b) {
   REQUIRE(nr(b) != 5);
   keep(a * b);
   FAIL();
}
OB void fixed_and_array_cols(const FixedArray2D<double, 5, 3>& a, const D2& b) {
   REQUIRE(nc(b) != 3);
   keep(b - a);
   FAIL();
}
OB void attached(double* p, long n, const D1& b) {
   REQUIRE(n != len(b));
   keep(attach1D(p, n) + b);
   FAIL();
}
OB void attached_rows(double* p, long m, long n, const D2& b) {
   REQUIRE(m > 0 && n > 0 && m != nr(b));
   keep(attach2D(p, m, n) + b);
   FAIL();
}
OB void lazy_1(long n, const Array1D<long>& b) {
   REQUIRE(n != len(b));
   keep(irange(n) + b);
   FAIL();
}
OB void const_rows(long m, long n, const D2& b) {
   REQUIRE(m != nr(b));
   keep(const2D(Rows{m}, Cols{n}, Value{1._sd}) + b);
   FAIL();
}
OB void const_cols(long m, long n, const D2& b) {
   REQUIRE(n != nc(b));
   keep(b * const2D(Rows{m}, Cols{n}, Value{1._sd}));
   FAIL();
}
} // namespace guard
// assignment
#define BOTHA(name, T, ...)                                      \
   REJ1(name, Array1D<T>, Array1D<T>, __VA_ARGS__)               \
   REJ2(name, Array2D<T>, Array2D<T>, __VA_ARGS__)
BOTHA(assign, double, a = b)
BOTHA(assign_expr, double, a = b + b)
BOTHA(assign_int, int, a = -b)
BOTHA(add_assign, double, a += b)
BOTHA(sub_assign, double, a -= b)
BOTHA(mul_assign, double, a *= b)
BOTHA(div_assign, double, a /= b)
BOTHA(add_assign_expr, float, a += b * 2._sf)
BOTHA(rem_assign, int, a %= b)
BOTHA(shl_assign, int, a <<= b)
BOTHA(shr_assign, int, a >>= b)
BOTHA(band_assign, int, a &= b)
BOTHA(bor_assign, int, a |= b)
BOTHA(bxor_assign, int, a ^= b)
REJ1(assign_aligned, DA, D1, a = b)
REJ2(assign_aligned, DA2, D2, a = b)
REJ1(assign_slice, D1, D1, a(place::all) = b)
REJ1(assign_slice_expr, D1, D1, a(place::all) = b + b)
REJ1(add_assign_slice, D1, D1, a(place::all) += b)
REJ2(assign_slice, D2, D2, REQUIRE(nr(a) > 0 && nc(a) > 0); a(place::all, place::all) = b)
REJ2(assign_slice_expr, D2, D2, REQUIRE(nr(a) > 0 && nc(a) > 0); a(place::all, place::all) = b * 2._sd)
REJ2(mul_assign_slice, D2, D2, REQUIRE(nr(a) > 0 && nc(a) > 0); a(place::all, place::all) *= b)
REJ1(assign_view, D2, D1, a.view1D() = b)
namespace guard {
#define GUARD(name, params, cond, ...) \
   OB void name params {               \
      REQUIRE(cond);                   \
      __VA_ARGS__;                     \
      FAIL();                          \
   }
#ifndef SV_MODE_T   // moves of owning arrays are declared never to throw: mismatches stop the program (NORMAL_ASSERT)
GUARD(move_assign, (D1& a, D1& b), &a != &b && len(a) != len(b), a = std::move(b))
GUARD(move_assign_rows, (D2& a, D2& b), &a != &b && nr(a) != nr(b), a = std::move(b))
GUARD(move_assign_cols, (D2& a, D2& b), &a != &b && nc(a) != nc(b), a = std::move(b))
GUARD(move_assign_aligned, (DA& a, DA& b), &a != &b && len(a) != len(b), a = std::move(b))
#endif
GUARD(list, (D1& a, double x), len(a) != 2, (a = {S_<double>{x}, S_<double>{x}}))
GUARD(list_rows, (D2& a, double x), nr(a) != 2, (a = {{S_<double>{x}, S_<double>{x}, S_<double>{x}}, {S_<double>{x}, S_<double>{x}, S_<double>{x}}}))
GUARD(list_cols, (D2& a, double x), nc(a) != 3, (a = {{S_<double>{x}, S_<double>{x}, S_<double>{x}}, {S_<double>{x}, S_<double>{x}, S_<double>{x}}}))
GUARD(list_ragged, (D2& a, double x), true, (a = {{S_<double>{x}, S_<double>{x}}, {S_<double>{x}}}))
GUARD(list_ragged_ctor, (double x), true, D2 a{{S_<double>{x}}, {S_<double>{x}, S_<double>{x}}}; keep(a))
GUARD(list_row_empty, (double x), true, D2 a{{}, {S_<double>{x}}}; keep(a))
GUARD(list_rows_empty, (), true, D2 a{{}, {}}; keep(a))
GUARD(list_slice, (D1& a, double x, long n), n != 2, (a(place::firstN(n)) = {S_<double>{x}, S_<double>{x}}))
GUARD(list_slice_rows, (D2& a, double x, long m, long n), m != 1, (a(place::firstN(m), place::firstN(n)) = {{S_<double>{x}, S_<double>{x}}}))
GUARD(list_slice_cols, (D2& a, double x, long m, long n), n != 2, (a(place::firstN(m), place::firstN(n)) = {{S_<double>{x}, S_<double>{x}}}))
GUARD(list_row, (D2& a, double x), nc(a) != 2, (a.row(0) = {S_<double>{x}, S_<double>{x}}))
GUARD(list_fixed, (FixedArray1D<double, 3>& a, double x), true, (a = {S_<double>{x}, S_<double>{x}}))
GUARD(list_fixed_long, (FixedArray1D<double, 3>& a, double x), true, (a = {S_<double>{x}, S_<double>{x}, S_<double>{x}, S_<double>{x}}))
GUARD(list_fixed_ctor, (double x), true, F3 a{S_<double>{x}, S_<double>{x}}; keep(a))
GUARD(list_fixed2, (FixedArray2D<double, 2, 1>& a, double x), true, (a = {{S_<double>{x}, S_<double>{x}}, {S_<double>{x}, S_<double>{x}}}))
GUARD(list_fixed2_rows, (FixedArray2D<double, 2, 2>& a, double x), true, (a = {{S_<double>{x}, S_<double>{x}}}))
GUARD(list_fixed2_wide, (FixedArray2D<double, 2, 3>& a, double x), true, (a = {{S_<double>{x}, S_<double>{x}}, {S_<double>{x}, S_<double>{x}}, {S_<double>{x}, S_<double>{x}}}))
GUARD(list_fixed2_tall, (FixedArray2D<double, 3, 2>& a, double x), true, (a = {{S_<double>{x}, S_<double>{x}, S_<double>{x}}, {S_<double>{x}, S_<double>{x}, S_<double>{x}}}))
GUARD(list_fixed2_more, (FixedArray2D<double, 2, 3>& a, double x), true, (a = {{S_<double>{x}, S_<double>{x}, S_<double>{x}}, {S_<double>{x}, S_<double>{x}, S_<double>{x}}, {S_<double>{x}, S_<double>{x}, S_<double>{x}}}))
GUARD(list_fixed2_narrow, (FixedArray2D<double, 2, 3>& a, double x), true, (a = {{S_<double>{x}, S_<double>{x}}, {S_<double>{x}, S_<double>{x}}}))
GUARD(list_fixed2_ragged, (FixedArray2D<double, 2, 2>& a, double x), true, (a = {{S_<double>{x}, S_<double>{x}}, {S_<double>{x}}}))
GUARD(fixed_assign, (FixedArray1D<double, 5>& a, const D1& b), len(b) != 5, a = b)
GUARD(fixed_assign_expr, (FixedArray1D<double, 5>& a, const D1& b), len(b) != 5, a = b + b)
GUARD(fixed_ctor, (const D1& b), len(b) != 5, F5 a(b); keep(a))
GUARD(fixed_add, (FixedArray1D<double, 5>& a, const D1& b), len(b) != 5, a += b)
GUARD(fixed_iter, (const double* p, long n), n != 5, auto v = attach1D(p, n); F5 a(v.begin(), v.end()); keep(a))
GUARD(fixed2_assign_rows, (FixedArray2D<double, 5, 3>& a, const D2& b), nr(b) != 5, a = b)
GUARD(fixed2_assign_cols, (FixedArray2D<double, 5, 3>& a, const D2& b), nc(b) != 3, a = b)
GUARD(fixed2_ctor_rows, (const D2& b), nr(b) != 5, F53 a(b); keep(a))
GUARD(fixed2_ctor_cols, (const D2& b), nc(b) != 3, F53 a(-b); keep(a))
GUARD(fixed2_mul_rows, (FixedArray2D<double, 5, 3>& a, const D2& b), nr(b) != 5, a *= b)
GUARD(row_assign, (D2& a, const D1& b), nc(a) != len(b), a.row(0) = b)
GUARD(col_assign, (D2& a, const D1& b), nr(a) != len(b), a.col(0) = b)
GUARD(row_row, (D2& a, D2& b), nc(a) != nc(b), a.row(0) = b.row(0))
GUARD(row_add, (D2& a, const D1& b), nc(a) != len(b), a.row(0) += b)
GUARD(slice_assign, (D1& a, const D1& b, long f, long n), n != len(b), a(seqN(f, n)) = b)
GUARD(slice_slice, (D1& a, D1& b, long f, long n, long g, long m), n != m, a(seqN(f, n)) = b(seqN(g, m)))
GUARD(slice_sub, (D1& a, const D1& b, long f, long n), n != len(b), a(seqN(f, n, 2)) -= b)
GUARD(slice2_assign_rows, (D2& a, const D2& b, long m, long n), m > 0 && n > 0 && m != nr(b), a(place::firstN(m), place::firstN(n)) = b)
GUARD(slice2_assign_cols, (D2& a, const D2& b, long m, long n), m > 0 && n > 0 && n != nc(b), a(place::firstN(m), place::firstN(n)) = b)
GUARD(block_block, (D2& a, D2& b, long m, long n), m > 0 && n > 0 && nc(a) > 0 && nc(b) > 0 && m != n, a(place::firstN(m), place::all) = b(place::firstN(n), place::all))
GUARD(diag_assign, (D2& a, const D1& b, long n), nr(a) == n && nc(a) == n && len(b) != n, a.diag() = b)
GUARD(attached_assign, (double* p, long n, const D1& b), n != len(b), attach1D(p, n) = b)
GUARD(attached_assign_rows, (double* p, long m, long n, const D2& b), m > 0 && n > 0 && m != nr(b), attach2D(p, m, n) = b)
GUARD(attached_assign_cols, (double* p, long m, long n, const D2& b), m > 0 && n > 0 && n != nc(b), attach2D(p, m, n) = b)
} // namespace guard
// functions of two arrays
#define BOTHF(name, T, ...)                                                \
   REJ1(name, const Array1D<T>, Array1D<T>, keep(__VA_ARGS__))             \
   REJ2(name, const Array2D<T>, Array2D<T>, keep(__VA_ARGS__))
BOTHF(dot, double, dot_prod(a, b))
BOTHF(dot_int, int, dot_prod(a, b))
BOTHF(any_f, double, any_of(a, b, [](auto x, auto y) { return x == y; }))
BOTHF(all_f, double, all_of(a, b, [](auto x, auto y) { return x == y; }))
BOTHF(none_f, double, none_of(a, b, [](auto x, auto y) { return x == y; }))
BOTHF(tol_abs, double, within_tol_abs(a, b))
BOTHF(tol_rel, double, within_tol_rel(a, b))
BOTHF(err_abs, double, max_abs_error(a, b))
BOTHF(err_rel, double, max_rel_error(a, b))
BOTHF(stable_dot, double, stable_dot_prod(a, b))
BOTHF(semi_dot, double, semi_stable_dot_prod(a, b))
BOTHF(two_prod, double, two_prod(a, b))
REJ1(poly, const D1, I1, keep(polynomial(a, 2._sd, b)))
REJ1(stable_poly, const D1, I1, keep(stable_polynomial(a, 2._sd, b)))
REJ1(pow_prod, const D1, I1, keep(pow_prod(a, b)))
namespace guard {
GUARD(gpoly_first, (const D1& a, const D1& b, const I1& c), len(a) != len(b), keep(gpolynomial(a, b, c)))
GUARD(gpoly_second, (const D1& a, const D1& b, const I1& c), len(b) != len(c), keep(gpolynomial(a, b, c)))
GUARD(stable_gpoly_first, (const D1& a, const D1& b, const I1& c), len(a) != len(b), keep(stable_gpolynomial(a, b, c)))
GUARD(stable_gpoly_second, (const D1& a, const D1& b, const I1& c), len(b) != len(c), keep(stable_gpolynomial(a, b, c)))
GUARD(tol_list, (const D1& a, double x), len(a) != 2, keep(within_tol_abs(a, {S_<double>{x}, S_<double>{x}})))
GUARD(tol_list_left, (const D1& a, double x), len(a) != 1, keep(within_tol_rel({S_<double>{x}}, a)))
GUARD(tol_list2, (const D2& a, double x), nr(a) != 1, keep(within_tol_rel(a, {{S_<double>{x}, S_<double>{x}}})))
GUARD(matvec, (const D2& a, const D1& b), nc(a) != len(b), keep(matvec_prod(a, b)))
} // namespace guard
// acceptance: both arrays of one size, from the front of two larger buffers
namespace total {
#define ACC1(name, T, ...)                                       \
   OB void name##_ok1(T* p, const T* q, long n) {                \
      REQUIRE(n >= 0);                                           \
      auto a = attach1D(p, n);                                   \
      auto b = attach1D(q, n);                                   \
      __VA_ARGS__;                                               \
      LIVE();                                                    \
   }
#define ACC2(name, T, ...)                                       \
   OB void name##_ok2(T* p, const T* q, long m, long n) {        \
      REQUIRE(m > 0);                                            \
      REQUIRE(n > 0);                                            \
      REQUIRE(m * n > 0);                                        \
      auto a = attach2D(p, m, n);                                \
      auto b = attach2D(q, m, n);                                \
      __VA_ARGS__;                                               \
      LIVE();                                                    \
   }
#define ACC(name, T, ...) ACC1(name, T, __VA_ARGS__) ACC2(name, T, __VA_ARGS__)
ACC(assign, double, a = b)
ACC(assign_expr, double, a = b + b)
ACC(add_assign, double, a += b)
ACC(sub_assign, double, a -= b)
ACC(mul_assign, double, a *= b)
ACC(div_assign, double, a /= b)
ACC(band_assign, int, a &= b)
ACC(dot, double, keep(dot_prod(a, b)))
ACC(tol, double, keep(within_tol_abs(a, b)))
ACC(all_f, double, keep(all_of(a, b, [](auto x, auto y) { return x == y; })))
} // namespace total
