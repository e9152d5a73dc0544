// Slicing selects exactly the elements its description names and rejects a description that
// names an element outside the array.
#include "sv.hpp"
#include <vector>
using namespace spp;
using namespace spp::place;
#define A1(ns, f, ...)                                                                  \
   template OB void ns::f(Array1D<double>& __VA_OPT__(, ) __VA_ARGS__);                 \
   template OB void ns::f(const Array1D<double>& __VA_OPT__(, ) __VA_ARGS__);           \
   template OB void ns::f(const FixedArray1D<float, 7>& __VA_OPT__(, ) __VA_ARGS__);
#define A2(ns, f, ...)                                                                  \
   template OB void ns::f(Array2D<double>& __VA_OPT__(, ) __VA_ARGS__);                 \
   template OB void ns::f(const Array2D<double>& __VA_OPT__(, ) __VA_ARGS__);           \
   template OB void ns::f(const FixedArray2D<float, 7, 3>& __VA_OPT__(, ) __VA_ARGS__);
// address of element 0, element k
inline auto p0(auto& a) { return &a.un(0); }
inline auto q0(auto& a) { return &a.un(0, 0); }
// a quotient can be written in several ways that mean the same number; any of them will do
inline bool half_up(long x, long n) {
   return (x == (n + 1) / 2) | (x == n - n / 2) | (x == n / 2 + n % 2) | (x == n / 2 + (n % 2 != 0));
}
inline bool half_down(long x, long n) { return (x == n / 2) | (x == n - (n + 1) / 2); }
inline bool parts(long x, long n, long st) { // number of multiples of st in [0, n)
   return (x == (n + st - 1) / st) | (x == n / st + (n % st != 0)) | (x == (n > 0 ? (n - 1) / st + 1 : 0))
        | (x == (n - 1) / st + 1);
}
inline bool steps(long x, long f, long l, long st) {
   return (x == (l - f) / st + 1) | (x == (l - f + st) / st);
}

namespace eq { // which elements: for every array size, slice and position
#define SEL(name, params, slice, count, first, step)                 \
   template <class A> OB void name(A& a, params long k) {            \
      auto s = a(slice);                                             \
      PROVE(len(s) == (count));                                      \
      REQUIRE(k >= 0 && k < len(s));                                 \
      PROVE(&s.un(k) == p0(a) + ((first) + k * (step)));             \
      LIVE();                                                        \
   }
#define SELC(name, params, slice, right_count, first, step)          \
   template <class A> OB void name(A& a, params long k) {            \
      auto s = a(slice);                                             \
      PROVE(right_count);                                            \
      REQUIRE(k >= 0 && k < len(s));                                 \
      PROVE(&s.un(k) == p0(a) + ((first) + k * (step)));             \
      LIVE();                                                        \
   }
#define C ,
SEL(sel_seqN, long f C long c C long st C, seqN(f, c, st), c, f, st)
SEL(sel_seqN1, long f C long c C, seqN(f, c), c, f, 1)
SEL(sel_seqN_tag, long f C long c C long st C, seqN(First{f} C Size{c} C Stride{st}), c, f, st)
SEL(sel_seq1, long f C long l C, seq(f, l), l - f + 1, f, 1)
SEL(sel_all, , all, len(a), 0, 1)
SELC(sel_even, , even, half_up(len(s), len(a)), 0, 2)
SELC(sel_odd, , odd, half_down(len(s), len(a)), 1, 2)
SEL(sel_first, long c C, firstN(c), c, 0, 1)
SEL(sel_last, long c C, lastN(c), c, len(a) - c, 1)
SEL(sel_first_tag, long c C, firstN(Count{c}), c, 0, 1)
SEL(sel_last_tag, long c C, lastN(Count{c}), c, len(a) - c, 1)
template <class A> OB void sel_seq(A& a, long f, long l, long st, long k) {
   REQUIRE(st != 0);
   auto s = a(seq(f, l, st));
   PROVE(steps(len(s), f, l, st));
   REQUIRE(k >= 0 && k < len(s));
   PROVE(&s.un(k) == p0(a) + (f + k * st));
   LIVE();
}
template <class A> OB void sel_seq_zero(A& a, long f, long l) {
   auto s = a(seq(f, l, 0));
   PROVE(len(s) == 1);
   PROVE(&s.un(0) == p0(a) + f);
   LIVE();
}
template <class A> OB void sel_reverse(A& a, long k) {
   REQUIRE(len(a) > 0);
   auto s = a(reverse);
   PROVE(len(s) == len(a));
   REQUIRE(k >= 0 && k < len(s));
   PROVE(&s.un(k) == p0(a) + (len(a) - 1 - k));
   LIVE();
}
template <class A> OB void sel_skip(A& a, long st, long k) {
   auto s = a(skipN(st));
   PROVE(parts(len(s), len(a), st));
   REQUIRE(k >= 0 && k < len(s));
   PROVE(&s.un(k) == p0(a) + k * st);
   LIVE();
}
// a slice of a slice composes
template <class A> OB void sel_nested(A& a, long f, long c, long st, long g, long d, long su, long k) {
   auto s = a(seqN(f, c, st));
   auto t = s(seqN(g, d, su));
   PROVE(len(t) == d);
   PROVE(&t.un(k) == p0(a) + (f + (g + k * su) * st));
   LIVE();
}
template <class A> OB void sel_view(A& a, long k) {
   auto s = a.view1D();
   PROVE(len(s) == len(a));
   PROVE(&s.un(k) == p0(a) + k);
   LIVE();
}
// two dimensions; an empty selection along one direction is empty along both
template <class A> OB void sel2_seqN(A& a, long f, long c, long st, long g, long d, long su, long i, long j) {
   REQUIRE(c > 0);
   REQUIRE(d > 0);
   auto s = a(seqN(f, c, st), seqN(g, d, su));
   PROVE(nr(s) == c);
   PROVE(nc(s) == d);
   PROVE(len(s) == c * d);
   PROVE(&s.un(i, j) == q0(a) + ((f + i * st) * nc(a) + (g + j * su)));
   LIVE();
}
template <class A> OB void sel2_empty(A& a, long f, long g, long d) {
   REQUIRE(d > 0);
   auto s = a(seqN(f, 0), seqN(g, d));
   PROVE(nr(s) == 0);
   PROVE(nc(s) == 0);
   auto t = a(seqN(f, d), seqN(g, 0));
   PROVE(nr(t) == 0);
   PROVE(nc(t) == 0);
   LIVE();
}
template <class A> OB void sel2_rows(A& a, long f, long c, long st, long i, long j) {
   REQUIRE(nc(a) > 0);
   REQUIRE(c > 0);
   auto s = a.rows(seqN(f, c, st));
   PROVE(nr(s) == c);
   PROVE(nc(s) == nc(a));
   PROVE(&s.un(i, j) == q0(a) + ((f + i * st) * nc(a) + j));
   LIVE();
}
template <class A> OB void sel2_cols(A& a, long f, long c, long st, long i, long j) {
   REQUIRE(nr(a) > 0);
   REQUIRE(c > 0);
   auto s = a.cols(seqN(f, c, st));
   PROVE(nr(s) == nr(a));
   PROVE(nc(s) == c);
   PROVE(&s.un(i, j) == q0(a) + (i * nc(a) + (f + j * st)));
   LIVE();
}
template <class A> OB void sel2_lf(A& a, long c, long d, long i, long j) {
   REQUIRE(c > 0);
   REQUIRE(d > 0);
   auto s = a(lastN(c), firstN(d));
   PROVE(nr(s) == c);
   PROVE(nc(s) == d);
   PROVE(&s.un(i, j) == q0(a) + ((nr(a) - c + i) * nc(a) + j));
   LIVE();
}
template <class A> OB void sel2_fl(A& a, long c, long d, long i, long j) {
   REQUIRE(c > 0);
   REQUIRE(d > 0);
   auto t = a(firstN(c), lastN(d));
   PROVE(nr(t) == c);
   PROVE(nc(t) == d);
   PROVE(&t.un(i, j) == q0(a) + (i * nc(a) + (nc(a) - d + j)));
   LIVE();
}
template <class A> OB void sel2_eo(A& a, long i, long j) {
   REQUIRE(nr(a) > 0);
   REQUIRE(nc(a) > 1);
   auto s = a(even, odd);
   PROVE(nr(s) == (nr(a) + 1) / 2);
   PROVE(nc(s) == nc(a) / 2);
   PROVE(&s.un(i, j) == q0(a) + (i * 2 * nc(a) + (1 + j * 2)));
   LIVE();
}
template <class A> OB void sel2_oe(A& a, long i, long j) {
   REQUIRE(nr(a) > 1);
   REQUIRE(nc(a) > 0);
   auto t = a(odd, even);
   PROVE(nr(t) == nr(a) / 2);
   PROVE(nc(t) == (nc(a) + 1) / 2);
   PROVE(&t.un(i, j) == q0(a) + ((1 + i * 2) * nc(a) + j * 2));
   LIVE();
}
template <class A> OB void sel2_ra(A& a, long i, long j) {
   REQUIRE(nr(a) > 0);
   REQUIRE(nc(a) > 0);
   REQUIRE(len(a) > 0);
   auto s = a(reverse, all);
   PROVE(nr(s) == nr(a));
   PROVE(nc(s) == nc(a));
   PROVE(&s.un(i, j) == q0(a) + ((nr(a) - 1 + i * -1L) * nc(a) + j));
   LIVE();
}
template <class A> OB void sel2_ar(A& a, long i, long j) {
   REQUIRE(nr(a) > 0);
   REQUIRE(nc(a) > 0);
   REQUIRE(len(a) > 0);
   auto t = a(all, reverse);
   PROVE(nr(t) == nr(a));
   PROVE(nc(t) == nc(a));
   PROVE(&t.un(i, j) == q0(a) + (i * nc(a) + (nc(a) - 1 + j * -1L)));
   LIVE();
}
template <class A> OB void sel2_skip(A& a, long s1, long s2, long i, long j) {
   REQUIRE(nr(a) > 0);
   REQUIRE(nc(a) > 0);
   auto s = a(skipN(s1), skipN(s2));
   REQUIRE((nr(a) + s1 - 1) / s1 > 0);
   REQUIRE((nc(a) + s2 - 1) / s2 > 0);
   PROVE(parts(nr(s), nr(a), s1));
   PROVE(parts(nc(s), nc(a), s2));
   PROVE(&s.un(i, j) == q0(a) + (i * s1 * nc(a) + j * s2));
   LIVE();
}
// linear index of a two-dimensional slice runs row by row
template <class A> OB void sel2_linear(A& a, long f, long c, long g, long d, long k) {
   REQUIRE(c > 0);
   REQUIRE(d > 0);
   REQUIRE(k >= 0);
   auto s = a(seqN(f, c), seqN(g, d));
   PROVE(&s.un(k) == &s.un(k / d, k % d));
   LIVE();
}
} // namespace eq
A1(eq, sel_seqN, long, long, long, long) A1(eq, sel_seqN1, long, long, long)
A1(eq, sel_seqN_tag, long, long, long, long)
A1(eq, sel_seq1, long, long, long)
A1(eq, sel_all, long) A1(eq, sel_even, long) A1(eq, sel_odd, long)
A1(eq, sel_first, long, long) A1(eq, sel_last, long, long)
A1(eq, sel_first_tag, long, long) A1(eq, sel_last_tag, long, long)
A1(eq, sel_seq, long, long, long, long) A1(eq, sel_seq_zero, long, long)
A1(eq, sel_reverse, long) A1(eq, sel_skip, long, long)
A1(eq, sel_nested, long, long, long, long, long, long, long) A1(eq, sel_view, long)
A2(eq, sel_view, long)
A2(eq, sel2_seqN, long, long, long, long, long, long, long, long)
A2(eq, sel2_rows, long, long, long, long, long) A2(eq, sel2_cols, long, long, long, long, long)
A2(eq, sel2_lf, long, long, long, long) A2(eq, sel2_fl, long, long, long, long)
A2(eq, sel2_eo, long, long) A2(eq, sel2_oe, long, long) A2(eq, sel2_empty, long, long, long)
A2(eq, sel2_ra, long, long) A2(eq, sel2_ar, long, long) template OB void eq::sel2_skip(Array2D<double>&, long, long, long, long);
template OB void eq::sel2_skip(const Array2D<double>&, long, long, long, long);
A2(eq, sel2_linear, long, long, long, long, long)

namespace guard { // descriptions that leave the array
OB void seqN_start(long f, long c, long s) { REQUIRE(f < 0); keep(seqN(f, c, s)); FAIL(); }
OB void seqN_size(long f, long c, long s) { REQUIRE(c < 0); keep(seqN(f, c, s)); FAIL(); }
OB void seq_first(long f, long l, long s) { REQUIRE(f < 0); keep(seq(f, l, s)); FAIL(); }
OB void seq_last(long f, long l, long s) { REQUIRE(l < 0); keep(seq(f, l, s)); FAIL(); }
OB void seq_up(long f, long l, long s) { REQUIRE(s > 0 && l < f); keep(seq(f, l, s)); FAIL(); }
OB void seq_down(long f, long l, long s) { REQUIRE(s < 0 && l > f); keep(seq(f, l, s)); FAIL(); }
OB void seq_zero(long f, long l) { REQUIRE(f != l); keep(seq(f, l, 0)); FAIL(); }
OB void skip_zero(long s) { REQUIRE(s <= 0); keep(skipN(s)); FAIL(); }
OB void first_neg(long n) { REQUIRE(n < 0); keep(firstN(n)); FAIL(); }
OB void last_neg(long n) { REQUIRE(n < 0); keep(lastN(n)); FAIL(); }
#define OUT(name, params, cond, ...)                              \
   template <class A> OB void name(A& a params) {                 \
      REQUIRE(cond);                                              \
      keep(__VA_ARGS__);                                          \
      FAIL();                                                     \
   }
OUT(n_begin, C long f C long c C long s, c != 0 && f >= len(a), a(seqN(f, c, s)))
OUT(n_end_hi, C long f C long c C long s, c != 0 && f + s * (c - 1) >= len(a), a(seqN(f, c, s)))
OUT(n_end_lo, C long f C long c C long s, c != 0 && f + s * (c - 1) < 0, a(seqN(f, c, s)))
OUT(s_begin, C long f C long l C long s, f >= len(a), a(seq(f, l, s)))
OUT(s_end, C long f C long l C long s, l >= len(a), a(seq(f, l, s)))
OUT(first_hi, C long c, c > len(a), a(firstN(c)))
OUT(last_hi, C long c, c > len(a), a(lastN(c)))
OUT(r_begin, C long f C long c C long s, c != 0 && f >= nr(a), a(seqN(f, c, s), all))
OUT(r_end_hi, C long f C long c C long s, c != 0 && f + s * (c - 1) >= nr(a), a(seqN(f, c, s), all))
OUT(r_end_lo, C long f C long c C long s, c != 0 && f + s * (c - 1) < 0, a(seqN(f, c, s), all))
OUT(c_begin, C long f C long c C long s, c != 0 && f >= nc(a), a(all, seqN(f, c, s)))
OUT(c_end_hi, C long f C long c C long s, c != 0 && f + s * (c - 1) >= nc(a), a(all, seqN(f, c, s)))
OUT(c_end_lo, C long f C long c C long s, c != 0 && f + s * (c - 1) < 0, a(all, seqN(f, c, s)))
OUT(rs_end, C long f C long l C long s, l >= nr(a), a(seq(f, l, s), all))
OUT(cs_end, C long f C long l C long s, l >= nc(a), a(all, seq(f, l, s)))
OUT(rfirst_hi, C long c, c > nr(a), a(firstN(c), all))
OUT(rlast_hi, C long c, c > nr(a), a(lastN(c), all))
OUT(cfirst_hi, C long c, c > nc(a), a(all, firstN(c)))
OUT(clast_hi, C long c, c > nc(a), a(all, lastN(c)))
OUT(rows_end, C long f C long c C long s, c != 0 && f + s * (c - 1) >= nr(a), a.rows(seqN(f, c, s)))
OUT(cols_end, C long f C long c C long s, c != 0 && f + s * (c - 1) >= nc(a), a.cols(seqN(f, c, s)))
// an index list with one entry out of range, at any position
template <int P, bool Low, class A> OB void list_out(A& a, long x, long y, long z) {
   long bad = P == 0 ? x : P == 1 ? y : z;
   REQUIRE(Low ? bad < 0 : bad >= len(a));
   keep(a({x, y, z}));
   FAIL();
}
template <int P, bool Low, class A> OB void row_list_out(A& a, long x, long y) {
   long bad = P == 0 ? x : y;
   REQUIRE(Low ? bad < 0 : bad >= nr(a));
   keep(a({x, y}, all));
   FAIL();
}
template <int P, bool Low, class A> OB void col_list_out(A& a, long x, long y) {
   long bad = P == 0 ? x : y;
   REQUIRE(Low ? bad < 0 : bad >= nc(a));
   keep(a(all, {x, y}));
   FAIL();
}
} // namespace guard
#define A1G(f, ...) A1(guard, f, __VA_ARGS__)
#define A2G(f, ...) A2(guard, f, __VA_ARGS__)
A1G(n_begin, long, long, long) A1G(n_end_hi, long, long, long) A1G(n_end_lo, long, long, long)
A1G(s_begin, long, long, long) A1G(s_end, long, long, long) A1G(first_hi, long) A1G(last_hi, long)
A2G(r_begin, long, long, long) A2G(r_end_hi, long, long, long) A2G(r_end_lo, long, long, long)
A2G(c_begin, long, long, long) A2G(c_end_hi, long, long, long) A2G(c_end_lo, long, long, long)
A2G(rs_end, long, long, long) A2G(cs_end, long, long, long)
A2G(rfirst_hi, long) A2G(rlast_hi, long) A2G(cfirst_hi, long) A2G(clast_hi, long)
A2G(rows_end, long, long, long) A2G(cols_end, long, long, long)
#define LISTS(B)                                                                         \
   template OB void guard::list_out<0, B>(Array1D<double>&, long, long, long);           \
   template OB void guard::list_out<1, B>(const Array1D<double>&, long, long, long);     \
   template OB void guard::list_out<2, B>(Array1D<double>&, long, long, long);           \
   template OB void guard::row_list_out<0, B>(Array2D<double>&, long, long);             \
   template OB void guard::row_list_out<1, B>(const Array2D<double>&, long, long);       \
   template OB void guard::col_list_out<0, B>(Array2D<double>&, long, long);             \
   template OB void guard::col_list_out<1, B>(const Array2D<double>&, long, long);
LISTS(true)
LISTS(false)

namespace total { // valid descriptions are accepted; fixed sizes make every position concrete
template <class A> OB void named(A& a) {
   keep(a(all));
   keep(a(even));
   keep(a(odd));
   keep(a(reverse));
   keep(a(skipN(1)));
   keep(a(skipN(2)));
   keep(a(skipN(100)));
   keep(a(firstN(len(a))));
   keep(a(lastN(len(a))));
   keep(a(firstN(0)));
   keep(a(lastN(0)));
   keep(a(seqN(0, 0)));
   if(len(a) > 0) {
      keep(a(seq(0, len(a) - 1)));
      keep(a(seq(len(a) - 1, 0, -1)));
      keep(a(seq(0, len(a) - 1, 2)));
   }
   LIVE();
}
template <class A> OB void named2(A& a) {
   keep(a(all, all));
   keep(a(even, odd));
   keep(a(odd, even));
   keep(a(reverse, reverse));
   keep(a(skipN(2), skipN(3)));
   keep(a(firstN(nr(a)), lastN(nc(a))));
   keep(a(lastN(nr(a)), firstN(nc(a))));
   LIVE();
}
template <class A> OB void seqN_ok(A& a, long f, long c, long s) {
   REQUIRE(f >= 0 && f < len(a) && c >= 0);
   REQUIRE(f + s * (c - 1) >= 0);
   REQUIRE(f + s * (c - 1) < len(a));
   keep(a(seqN(f, c, s)));
   LIVE();
}
template <class A> OB void list_ok(A& a, long x, long y, long z) {
   REQUIRE(x >= 0 && x < len(a));
   REQUIRE(y >= 0 && y < len(a));
   REQUIRE(z >= 0 && z < len(a));
   auto s = a({x, y, z});
   PROVE(len(s) == 3);
   PROVE(&s.un(0) == p0(a) + x);
   PROVE(&s.un(1) == p0(a) + y);
   PROVE(&s.un(2) == p0(a) + z);
   LIVE();
}
template <class A> OB void list2_ok(A& a, long x, long y, long z, long w) {
   REQUIRE(x >= 0 && x < nr(a));
   REQUIRE(y >= 0 && y < nr(a));
   REQUIRE(z >= 0 && z < nc(a));
   REQUIRE(w >= 0 && w < nc(a));
   auto s = a({x, y}, {z, w});
   PROVE(nr(s) == 2 && nc(s) == 2);
   PROVE(&s.un(0, 0) == q0(a) + (x * nc(a) + z));
   PROVE(&s.un(0, 1) == q0(a) + (x * nc(a) + w));
   PROVE(&s.un(1, 0) == q0(a) + (y * nc(a) + z));
   PROVE(&s.un(1, 1) == q0(a) + (y * nc(a) + w));
   LIVE();
}
} // namespace total
namespace eq {
template <class A> OB void vector_sel(A& a, long x) {
   std::vector<ImplicitInt> v{x};
   auto s = a(v);
   PROVE(len(s) == 1);
   PROVE(&s.un(0) == p0(a) + x);
   LIVE();
}
template <class A> OB void complement_sel(A& a) { // of {1, 3} in 5 elements: 0, 2, 4
   auto s = a(complement({1, 3}));
   PROVE(len(s) == 3);
   PROVE(&s.un(0) == p0(a) && &s.un(1) == p0(a) + 2 && &s.un(2) == p0(a) + 4);
   LIVE();
}
} // namespace eq
namespace guard {
template <class A> OB void complement_order(A& a) { keep(a(complement({3, 1}))); FAIL(); }
template <class A> OB void complement_dup(A& a) { keep(a(complement({2, 2}))); FAIL(); }
template <class A> OB void complement_hi(A& a) { keep(a(complement({1, 5}))); FAIL(); }
template <class A> OB void complement_lo(A& a) { keep(a(complement({-1, 2}))); FAIL(); }
} // namespace guard
template OB void eq::complement_sel(FixedArray1D<double, 5>&);
template OB void guard::complement_order(FixedArray1D<double, 5>&);
template OB void guard::complement_dup(FixedArray1D<double, 5>&);
template OB void guard::complement_hi(FixedArray1D<double, 5>&);
template OB void guard::complement_lo(FixedArray1D<double, 5>&);
template OB void total::named(FixedArray1D<double, 0>&);
template OB void total::named(FixedArray1D<double, 1>&);
template OB void total::named(const FixedArray1D<double, 2>&);
template OB void total::named(FixedArray1D<double, 5>&);
template OB void total::named(const FixedArray1D<double, 6>&);
template OB void total::named2(FixedArray2D<double, 0, 0>&);
template OB void total::named2(FixedArray2D<double, 1, 1>&);
template OB void total::named2(const FixedArray2D<double, 3, 4>&);
template OB void total::named2(FixedArray2D<double, 4, 5>&);
A1(total, seqN_ok, long, long, long)
A1(total, list_ok, long, long, long) A1(eq, vector_sel, long)
template OB void total::list2_ok(Array2D<double>&, long, long, long, long);
template OB void total::list2_ok(const Array2D<double>&, long, long, long, long);
