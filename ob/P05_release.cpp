// P05: at() and view2D() are checked in every configuration, also when the other checks are switched off.
#include "sv.hpp"
using namespace spp;
#define G1(name, params, cond, ...)                        \
   template <class A> OB void name(A& a params) {          \
      REQUIRE(cond);                                       \
      keep(__VA_ARGS__);                                   \
      FAIL();                                              \
   }
#define C ,
namespace guard {
G1(at_low, C long i, i < 0, a.at(i))
G1(at_high, C long i, i >= len(a), a.at(i))
G1(at_int_low, C int i, i < 0, a.at(i))
G1(at_int_high, C int i, i >= len(a), a.at(i))
G1(at_strict_low, C long i, i < 0, a.at(S_<long>{i}))
G1(at_strict_high, C long i, i >= len(a), a.at(S_<long>{i}))
G1(at_sint_low, C int i, i < 0, a.at(S_<int>{i}))
G1(at_tag_high, C long i, i >= len(a), a.at(ImplicitInt{i}))
G1(at_last_low, C long k, before_first(len(a), k), a.at(last - k))
G1(at_last_high, C long k, after_last(len(a), k), a.at(last - k))
G1(at_empty, , len(a) == 0, a.at(last))
G1(at_empty_first, , len(a) == 0, a.at(0))
G1(at2_row_low, C long i C long j, i < 0, a.at(i, j))
G1(at2_row_high, C long i C long j, i >= nr(a), a.at(i, j))
G1(at2_col_low, C long i C long j, j < 0, a.at(i, j))
G1(at2_col_high, C long i C long j, j >= nc(a), a.at(i, j))
G1(at2_last_row_low, C long i C long j, before_first(nr(a), i), a.at(last - i, j))
G1(at2_last_row_high, C long i C long j, after_last(nr(a), i), a.at(last - i, j))
G1(at2_last_row_col_low, C long i C long j, moderate(i) && j < 0, a.at(last - i, j))
G1(at2_last_row_col_high, C long i C long j, moderate(i) && j >= nc(a), a.at(last - i, j))
G1(at2_last_col_low, C long i C long j, before_first(nc(a), j), a.at(i, last - j))
G1(at2_last_col_high, C long i C long j, after_last(nc(a), j), a.at(i, last - j))
G1(at2_last_col_row_low, C long i C long j, moderate(j) && i < 0, a.at(i, last - j))
G1(at2_last_col_row_high, C long i C long j, moderate(j) && i >= nr(a), a.at(i, last - j))
G1(at2_last_both_row, C long i C long j, before_first(nr(a), i), a.at(last - i, last - j))
G1(at2_last_both_col, C long i C long j, before_first(nc(a), j), a.at(last - i, last - j))
G1(at2_strict, C long i C int j, j >= nc(a), a.at(S_<long>{i}, S_<int>{j}))
G1(view2, C long m C long n, m * n != len(a), a.view2D(m, n))
} // namespace guard
namespace total {
template <class A> OB void at_ok(A& a, long i, long k) {
   REQUIRE(i >= 0 && i < len(a));
   PROVE(&a.at(i) == &a.un(i));
   PROVE(&a.at(S_<long>{i}) == &a.un(i));
   REQUIRE(within(len(a), k));
   PROVE(&a.at(last - k) == &a.un(len(a) - k - 1));
   LIVE();
}
template <class A> OB void at2_ok(A& a, long i, long j) {
   REQUIRE(i >= 0 && i < nr(a) && j >= 0 && j < nc(a));
   PROVE(&a.at(i, j) == &a.un(i, j));
   PROVE(&a.at(S_<long>{i}, S_<long>{j}) == &a.un(i, j));
   LIVE();
}
template <class A> OB void at2_last_ok(A& a, long i, long j) {
   REQUIRE(within(nr(a), i));
   REQUIRE(within(nc(a), j));
   PROVE(&a.at(last - i, last - j) == &a.un(nr(a) - i - 1, nc(a) - j - 1));
   LIVE();
}
template <class A> OB void view2_ok(A& a, long m, long n) {
   REQUIRE(m > 0);
   REQUIRE(n > 0);
   REQUIRE(m * n == len(a));
   auto v = a.view2D(m, n);
   PROVE(nr(v) == m);
   PROVE(nc(v) == n);
   LIVE();
}
} // namespace total
using AL = Array1D<double, Aligned>;
using AL2 = Array2D<double, Aligned>;
using E1 = decltype(std::declval<const Array1D<double>&>() + std::declval<const Array1D<double>&>());
using E2 = decltype(-std::declval<const Array2D<double>&>());
using R1 = decltype(std::declval<Array2D<double>&>().row(0));
using CR1 = decltype(std::declval<const Array2D<double>&>().row(0));
using W1 = decltype(std::declval<Array2D<double>&>().view1D());
using S1 = decltype(std::declval<Array1D<double>&>()(place::even));
using L1 = decltype(std::declval<Array1D<double>&>()(std::vector<ImplicitInt>{}));
using B2 = decltype(std::declval<Array2D<double>&>()(place::all, place::even));
using CB2 = decltype(std::declval<const Array2D<double>&>()(place::all, place::even));
using W2 = decltype(std::declval<Array1D<double>&>().view2D(1, 1));
using P1 = decltype(attach1D(std::declval<double*&>(), 1));
using CP1 = decltype(attach1D(std::declval<const double*&>(), 1));
using P2 = decltype(attach2D(std::declval<double*&>(), 1, 1));
#define ON1(f, T, ...)                                                                                        \
   template OB void f(Array1D<double>& __VA_ARGS__); template OB void f(const Array1D<int>& __VA_ARGS__);     \
   template OB void f(AL& __VA_ARGS__); template OB void f(FixedArray1D<float, 7>& __VA_ARGS__);              \
   template OB void f(const FixedArray1D<long, 1>& __VA_ARGS__); template OB void f(R1& __VA_ARGS__);         \
   template OB void f(CR1& __VA_ARGS__); template OB void f(W1& __VA_ARGS__); \
   template OB void f(S1& __VA_ARGS__); template OB void f(const S1& __VA_ARGS__);                            \
   template OB void f(P1& __VA_ARGS__); template OB void f(CP1& __VA_ARGS__);
#define ONL1(f, ...) template OB void f(L1& __VA_ARGS__);
#define ONE1(f, ...) template OB void f(E1& __VA_ARGS__);
#define ON2(f, ...)                                                                                           \
   template OB void f(Array2D<double>& __VA_ARGS__); template OB void f(const Array2D<int>& __VA_ARGS__);     \
   template OB void f(AL2& __VA_ARGS__); template OB void f(FixedArray2D<float, 7, 3>& __VA_ARGS__);          \
   template OB void f(const FixedArray2D<long, 2, 5>& __VA_ARGS__); template OB void f(B2& __VA_ARGS__);      \
   template OB void f(CB2& __VA_ARGS__); template OB void f(const B2& __VA_ARGS__);                           \
   template OB void f(W2& __VA_ARGS__); template OB void f(P2& __VA_ARGS__);
#define ONE2(f, ...) template OB void f(E2& __VA_ARGS__);
#define I1(f, ...) ONL1(guard::f, __VA_ARGS__) ON1(guard::f, , __VA_ARGS__) ONE1(guard::f, __VA_ARGS__)
#define I2(f, ...) ON2(guard::f, __VA_ARGS__) ONE2(guard::f, __VA_ARGS__)
I1(at_low, C long) I1(at_high, C long) I1(at_int_low, C int) I1(at_int_high, C int)
I1(at_strict_low, C long) I1(at_strict_high, C long) I1(at_sint_low, C int) I1(at_tag_high, C long)
I1(at_last_low, C long) I1(at_last_high, C long)
template OB void guard::at_empty(Array1D<double>&); template OB void guard::at_empty_first(Array1D<double>&);
template OB void guard::at_empty(const S1&); template OB void guard::at_empty_first(R1&);
I2(at2_row_low, C long C long) I2(at2_row_high, C long C long)
I2(at2_col_low, C long C long) I2(at2_col_high, C long C long)
I2(at2_last_row_low, C long C long) I2(at2_last_row_high, C long C long)
I2(at2_last_row_col_low, C long C long) I2(at2_last_row_col_high, C long C long)
I2(at2_last_col_low, C long C long) I2(at2_last_col_high, C long C long)
I2(at2_last_col_row_low, C long C long) I2(at2_last_col_row_high, C long C long)
I2(at2_last_both_row, C long C long) I2(at2_last_both_col, C long C long) I2(at2_strict, C long C int)
I1(view2, C long C long) I2(view2, C long C long)
ON1(total::at_ok, , C long C long) ONL1(total::at_ok, C long C long)
ON2(total::at2_ok, C long C long) ON2(total::at2_last_ok, C long C long)
ON1(total::view2_ok, , C long C long) ON2(total::view2_ok, C long C long)
