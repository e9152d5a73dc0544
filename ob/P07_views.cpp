// Rows, columns, diagonals, blocks and one/two-dimensional views name exactly the elements
// their definition gives, and reject requests that leave the array.
#include "sv.hpp"
using namespace spp;
using namespace spp::place;
#define A1(ns, f, ...)                                                                  \
   template OB void ns::f(Array1D<double>& __VA_OPT__(, ) __VA_ARGS__);                 \
   template OB void ns::f(const Array1D<double>& __VA_OPT__(, ) __VA_ARGS__);           \
   template OB void ns::f(const FixedArray1D<float, 12>& __VA_OPT__(, ) __VA_ARGS__);
#define A2(ns, f, ...)                                                                  \
   template OB void ns::f(Array2D<double>& __VA_OPT__(, ) __VA_ARGS__);                 \
   template OB void ns::f(const Array2D<double>& __VA_OPT__(, ) __VA_ARGS__);           \
   template OB void ns::f(const FixedArray2D<float, 7, 3>& __VA_OPT__(, ) __VA_ARGS__);
#define A2D(ns, f, ...)                                                                 \
   template OB void ns::f(Array2D<double>& __VA_OPT__(, ) __VA_ARGS__);                 \
   template OB void ns::f(const Array2D<double>& __VA_OPT__(, ) __VA_ARGS__);
#define C ,
inline auto p0(auto& a) { return &a.un(0); }
inline auto q0(auto& a) { return &a.un(0, 0); }

namespace eq {
// a two-dimensional array is stored row by row and its linear index agrees with (row, column)
template <class A> OB void storage(A& a, long i, long j) {
   PROVE(&a.un(i, j) == q0(a) + (i * nc(a) + j));
   PROVE(&a.un(i * nc(a) + j) == &a.un(i, j));
   LIVE();
}
template <class A> OB void row_sel(A& a, long i, long k) {
   REQUIRE(nc(a) > 0);
   auto s = a.row(i);
   PROVE(len(s) == nc(a));
   PROVE(&s.un(k) == q0(a) + (i * nc(a) + k));
   LIVE();
}
template <class A> OB void row_last(A& a, long i, long k) {
   REQUIRE(nc(a) > 0);
   REQUIRE(moderate(i));
   auto s = a.row(last - i);
   PROVE(len(s) == nc(a));
   PROVE(&s.un(k) == q0(a) + ((nr(a) - i - 1) * nc(a) + k));
   LIVE();
}
template <class A> OB void col_sel(A& a, long j, long k) {
   REQUIRE(nc(a) > 0);
   auto s = a.col(j);
   PROVE(&s.un(k) == q0(a) + (j + k * nc(a)));
   LIVE();
}
template <class A> OB void col_last(A& a, long j, long k) {
   REQUIRE(nc(a) > 0);
   REQUIRE(moderate(j));
   auto s = a.col(last - j);
   PROVE(&s.un(k) == q0(a) + (nc(a) - j - 1 + k * nc(a)));
   LIVE();
}
template <class A> OB void col_one(A& a) { // number of elements of a column, one column
   REQUIRE(nc(a) == 1);
   auto s = a.col(0);
   PROVE(len(s) == nr(a));
   LIVE();
}
template <class A> OB void diag_wide(A& a, long k) {
   REQUIRE(nr(a) <= nc(a));
   auto s = a.diag();
   PROVE(len(s) == nr(a));
   PROVE(&s.un(k) == q0(a) + k * (nc(a) + 1));
   LIVE();
}
template <class A> OB void diag_tall(A& a, long k) {
   REQUIRE(nr(a) > nc(a));
   auto s = a.diag();
   PROVE(len(s) == nc(a));
   PROVE(&s.un(k) == q0(a) + k * (nc(a) + 1));
   LIVE();
}
template <class A> OB void diag_up(A& a, long d, long k) { // above the main diagonal
   REQUIRE(d >= 0);
   REQUIRE(nr(a) <= nc(a) - d);
   auto s = a.diag(d);
   PROVE(len(s) == nr(a));
   PROVE(&s.un(k) == q0(a) + (d + k * (nc(a) + 1)));
   LIVE();
}
template <class A> OB void diag_up2(A& a, long d, long k) {
   REQUIRE(d >= 0);
   REQUIRE(nr(a) > nc(a) - d);
   auto s = a.diag(d);
   PROVE(len(s) == nc(a) - d);
   PROVE(&s.un(k) == q0(a) + (d + k * (nc(a) + 1)));
   LIVE();
}
template <class A> OB void diag_down(A& a, long d, long k) { // below
   REQUIRE(d > 0 && d < BOUND);
   REQUIRE(nr(a) - d <= nc(a));
   auto s = a.diag(-d);
   PROVE(len(s) == nr(a) - d);
   PROVE(&s.un(k) == q0(a) + (d * nc(a) + k * (nc(a) + 1)));
   LIVE();
}
template <class A> OB void diag_down2(A& a, long d, long k) {
   REQUIRE(d > 0 && d < BOUND);
   REQUIRE(nr(a) - d > nc(a));
   auto s = a.diag(-d);
   PROVE(len(s) == nc(a));
   PROVE(&s.un(k) == q0(a) + (d * nc(a) + k * (nc(a) + 1)));
   LIVE();
}
template <class A> OB void view1D_sel(A& a, long k) {
   auto s = a.view1D();
   PROVE(len(s) == len(a));
   PROVE(&s.un(k) == p0(a) + k);
   LIVE();
}
template <class A> OB void view2D_sel(A& a, long m, long n, long i, long j) {
   REQUIRE(m > 0);
   REQUIRE(n > 0);
   auto s = a.view2D(m, n);
   PROVE(nr(s) == m);
   PROVE(nc(s) == n);
   PROVE(&s.un(i, j) == p0(a) + (i * n + j));
   LIVE();
}
template <class A> OB void view2D_temp(A& a, long m, long n, long i, long j) {
   REQUIRE(m > 0);
   REQUIRE(n > 0);
   auto s = a.view1D().view2D(m, n);
   PROVE(nr(s) == m);
   PROVE(nc(s) == n);
   PROVE(&s.un(i, j) == p0(a) + (i * n + j));
   LIVE();
}
template <class A> OB void view2D_lin(A& a, long m, long n, long k) {
   REQUIRE(m > 0);
   REQUIRE(n > 0);
   auto s = a.view2D(m, n);
   PROVE(len(s) == len(a));
   LIVE();
}
template <class A> OB void block_sel(A& a, long f, long g, long m, long n, long i, long j) {
   REQUIRE(m - f + 1 > 0);
   REQUIRE(n - g + 1 > 0);
   auto s = a.block(f, g, m, n);
   PROVE(nr(s) == m - f + 1);
   PROVE(nc(s) == n - g + 1);
   PROVE(&s.un(i, j) == q0(a) + ((f + i) * nc(a) + (g + j)));
   LIVE();
}
template <class A> OB void blockN_sel(A& a, long f, long g, long m, long n, long i, long j) {
   REQUIRE(m > 0);
   REQUIRE(n > 0);
   auto s = a.blockN(f, g, m, n);
   PROVE(nr(s) == m);
   PROVE(nc(s) == n);
   PROVE(&s.un(i, j) == q0(a) + ((f + i) * nc(a) + (g + j)));
   LIVE();
}
// views of views
template <class A> OB void col_of_cols(A& a, long f, long c, long st, long j, long k) {
   REQUIRE(nr(a) > 0);
   REQUIRE(c > 0);
   auto s = a.cols(seqN(f, c, st));
   auto t = s.col(j);
   REQUIRE(k >= 0);
   PROVE(&t.un(k) == &s.un((j + k * c) / c, (j + k * c) % c));
   LIVE();
}
template <class A> OB void row_of_rows(A& a, long f, long m, long st, long i, long k) {
   REQUIRE(nc(a) > 0);
   REQUIRE(m > 0);
   auto s = a.rows(seqN(f, m, st));
   auto t = s.row(i);
   PROVE(len(t) == nc(a));
   PROVE(&t.un(k) == &s.un(i * nc(a) + k));
   LIVE();
}
} // namespace eq
A2(eq, storage, long, long)
A2(eq, row_sel, long, long) A2(eq, row_last, long, long) A2(eq, col_sel, long, long)
A2(eq, col_last, long, long) A2D(eq, col_one) A2D(eq, diag_wide, long) A2(eq, diag_tall, long)
A2D(eq, diag_up, long, long) A2(eq, diag_up2, long, long) A2(eq, diag_down, long, long)
A2(eq, diag_down2, long, long)
A1(eq, view1D_sel, long) A2(eq, view1D_sel, long)
A1(eq, view2D_sel, long, long, long, long) A2(eq, view2D_sel, long, long, long, long)
A1(eq, view2D_temp, long, long, long, long) A2(eq, view2D_temp, long, long, long, long)
A1(eq, view2D_lin, long, long, long) A2(eq, view2D_lin, long, long, long)
A2D(eq, block_sel, long, long, long, long, long, long)
A2(eq, blockN_sel, long, long, long, long, long, long)
A2D(eq, row_of_rows, long, long, long, long, long)

// exact shapes: every position of every view of arrays of several concrete shapes
namespace total {
template <class A> OB void shapes(A& a) {
   constexpr long m = A{}.rows().val(), n = A{}.cols().val();
   auto base = q0(a);
   for(long i = 0; i < m; ++i) {
      auto s = a.row(i);
      PROVE(len(s) == n);
      for(long k = 0; k < n; ++k)
         PROVE(&s.un(k) == base + (i * n + k));
      PROVE(&a.row(last - i).un(0) == base + (m - 1 - i) * n);
   }
   for(long j = 0; j < n; ++j) {
      auto s = a.col(j);
      PROVE(len(s) == m);
      for(long k = 0; k < m; ++k)
         PROVE(&s.un(k) == base + (k * n + j));
      PROVE(&a.col(last - j).un(0) == base + (n - 1 - j));
   }
   for(long d = 1 - m; d < n; ++d) {
      const long r0 = d < 0 ? -d : 0, c0 = d < 0 ? 0 : d;
      const long l = m - r0 < n - c0 ? m - r0 : n - c0;
      auto s = a.diag(d);
      PROVE(len(s) == l);
      for(long k = 0; k < l; ++k)
         PROVE(&s.un(k) == base + ((r0 + k) * n + (c0 + k)));
   }
   auto t = a.view2D(n, m);
   PROVE(nr(t) == n && nc(t) == m);
   PROVE(&t.un(n - 1, m - 1) == base + (m * n - 1));
   auto b = a.block(0, 0, m - 1, n - 1);
   PROVE(nr(b) == m && nc(b) == n);
   PROVE(&b.un(m - 1, n - 1) == base + (m * n - 1));
   auto e = a.block(last - (m - 1), last - (n - 1), last, last);
   PROVE(nr(e) == m && nc(e) == n);
   PROVE(&e.un(m - 1, n - 1) == base + (m * n - 1));
   auto f = a.block(0, last, last, last);
   PROVE(nr(f) == m && nc(f) == 1);
   PROVE(&f.un(0, 0) == base + (n - 1));
   auto g = a.blockN(last, 0, 1, n);
   PROVE(nr(g) == 1 && nc(g) == n);
   PROVE(&g.un(0, 0) == base + (m - 1) * n);
   LIVE();
}
// views of a strided sub-array
template <class A> OB void sub_shapes(A& a) { // 5 x 6
   auto base = q0(a);
   auto s = a(seqN(0, 3, 2), seqN(1, 2, 3)); // rows 0 2 4, columns 1 4
   PROVE(&s.row(1).un(1) == base + 2 * 6 + 4);
   PROVE(&s.col(1).un(2) == base + 4 * 6 + 4);
   PROVE(len(s.diag()) == 2);
   PROVE(&s.diag().un(1) == base + 2 * 6 + 4);
   PROVE(len(s.diag(-1)) == 2);
   PROVE(&s.diag(-1).un(1) == base + 4 * 6 + 4);
   PROVE(len(s.diag(1)) == 1);
   PROVE(&s.diag(1).un(0) == base + 4);
   PROVE(&s.view1D().un(5) == base + 4 * 6 + 4);
   auto v = s.view2D(2, 3);
   PROVE(&v.un(1, 0) == base + 2 * 6 + 4);
   PROVE(&s.block(1, 0, 2, 1).un(1, 1) == base + 4 * 6 + 4);
   PROVE(&s.blockN(1, 1, 2, 1).un(1, 0) == base + 4 * 6 + 4);
   PROVE(&s.rows(reverse).un(0, 0) == base + 4 * 6 + 1);
   PROVE(&s.cols(reverse).un(0, 0) == base + 4);
   PROVE(&a.row(1)(odd).un(2) == base + 6 + 5);
   LIVE();
}
// the same through temporary views
template <class A> OB void sub_temporaries(A& a) { // 5 x 6
   auto base = q0(a);
#define SUB a(seqN(0, 3, 2), seqN(1, 2, 3)) // rows 0 2 4, columns 1 4
   for(long i = 0; i < 3; ++i)
      for(long j = 0; j < 2; ++j) {
         auto p = base + 2 * i * 6 + 3 * j + 1;
         auto r = SUB.row(i);
         PROVE(len(r) == 2 && &r.un(j) == p);
         auto c = SUB.col(j);
         PROVE(len(c) == 3 && &c.un(i) == p);
         auto v = SUB.view1D();
         PROVE(len(v) == 6 && &v.un(2 * i + j) == p);
         auto b = SUB.block(i, j, 2, 1);
         PROVE(nr(b) == 3 - i && nc(b) == 2 - j && &b.un(0, 0) == p);
         auto n = SUB.blockN(i, j, 3 - i, 2 - j);
         PROVE(nr(n) == 3 - i && nc(n) == 2 - j && &n.un(0, 0) == p);
         auto rs = SUB.rows(seqN(i, 3 - i));
         PROVE(nr(rs) == 3 - i && nc(rs) == 2 && &rs.un(0, j) == p);
         auto cs = SUB.cols(seqN(j, 2 - j));
         PROVE(nr(cs) == 3 && nc(cs) == 2 - j && &cs.un(i, 0) == p);
      }
   for(long i = 0; i < 2; ++i) {
      auto d = SUB.diag();
      PROVE(len(d) == 2 && &d.un(i) == base + 2 * i * 6 + 3 * i + 1);
      auto e = SUB.diag(-1);
      PROVE(len(e) == 2 && &e.un(i) == base + 2 * (i + 1) * 6 + 3 * i + 1);
   }
   auto w = SUB.view2D(2, 3);
   PROVE(nr(w) == 2 && nc(w) == 3);
   auto x = SUB.view1D().view2D(2, 3);
   PROVE(nr(x) == 2 && nc(x) == 3);
   for(long k = 0; k < 6; ++k) {
      PROVE(&w.un(k / 3, k % 3) == base + 2 * (k / 2) * 6 + 3 * (k % 2) + 1);
      PROVE(&x.un(k / 3, k % 3) == base + 2 * (k / 2) * 6 + 3 * (k % 2) + 1);
   }
   LIVE();
}
template <class A> OB void line_temporaries(A& a) { // 12
   auto base = p0(a);
   auto v = a(seqN(0, 6, 2)).view2D(2, 3);
   PROVE(nr(v) == 2 && nc(v) == 3);
   auto s = a(seqN(0, 6, 2));
   auto w = s.view2D(3, 2);
   PROVE(nr(w) == 3 && nc(w) == 2);
   auto x = a(reverse).view2D(4, 3);
   PROVE(nr(x) == 4 && nc(x) == 3);
   for(long k = 0; k < 6; ++k) {
      PROVE(&v.un(k / 3, k % 3) == base + 2 * k);
      PROVE(&w.un(k / 2, k % 2) == base + 2 * k);
      PROVE(&x.un(k / 3, k % 3) == base + (11 - k));
   }
   LIVE();
}
OB void empty_views(FixedArray2D<double, 0, 0>& a) {
   PROVE(len(a.diag()) == 0);
   PROVE(len(a.view1D()) == 0);
   PROVE(len(a.view2D(0, 0)) == 0);
   PROVE(len(a.blockN(0, 0, 0, 0)) == 0);
   LIVE();
}
} // namespace total
template OB void total::shapes(FixedArray2D<double, 1, 1>&);
template OB void total::shapes(FixedArray2D<double, 2, 3>&);
template OB void total::shapes(FixedArray2D<double, 4, 2>&);
template OB void total::shapes(FixedArray2D<float, 3, 3>&);
template OB void total::shapes(FixedArray2D<int, 1, 5>&);
template OB void total::shapes(FixedArray2D<int, 5, 1>&);
template OB void total::sub_shapes(FixedArray2D<double, 5, 6>&);
template OB void total::sub_shapes(const FixedArray2D<double, 5, 6>&);
template OB void total::sub_temporaries(FixedArray2D<double, 5, 6>&);
template OB void total::sub_temporaries(const FixedArray2D<double, 5, 6>&);
template OB void total::line_temporaries(FixedArray1D<double, 12>&);
template OB void total::line_temporaries(const FixedArray1D<double, 12>&);

namespace guard {
#define OUT(name, params, cond, ...)                              \
   template <class A> OB void name(A& a params) {                 \
      REQUIRE(cond);                                              \
      keep(__VA_ARGS__);                                          \
      FAIL();                                                     \
   }
OUT(row_lo, C long i, i < 0, a.row(i))
OUT(row_hi, C long i, i >= nr(a), a.row(i))
OUT(row_last_lo, C long i, before_first(nr(a), i), a.row(last - i))
OUT(row_last_hi, C long i, after_last(nr(a), i), a.row(last - i))
OUT(col_lo, C long j, j < 0, a.col(j))
OUT(col_hi, C long j, j >= nc(a), a.col(j))
OUT(col_last_lo, C long j, before_first(nc(a), j), a.col(last - j))
OUT(col_last_hi, C long j, after_last(nc(a), j), a.col(last - j))
OUT(diag_hi, C long d, d >= 0 && d >= nc(a), a.diag(d))
OUT(diag_lo, C long d, d > 0 && d < BOUND && d >= nr(a), a.diag(-d))
OUT(view2D_size, C long m C long n, m * n != len(a), a.view2D(m, n))
OUT(view2D_tmp, C long m C long n, m * n != len(a), a.view1D().view2D(m, n))
OUT(view2D_neg_r, C long m C long n, m < 0, a.view2D(m, n))
OUT(view2D_neg_c, C long m C long n, n < 0, a.view2D(m, n))
OUT(block_r0, C long f C long g C long m C long n, f < 0, a.block(f, g, m, n))
OUT(block_c0, C long f C long g C long m C long n, g < 0, a.block(f, g, m, n))
OUT(block_r, C long f C long g C long m C long n, m >= nr(a), a.block(f, g, m, n))
OUT(block_c, C long f C long g C long m C long n, n >= nc(a), a.block(f, g, m, n))
OUT(block_ro, C long f C long g C long m C long n, m < f, a.block(f, g, m, n))
OUT(block_co, C long f C long g C long m C long n, n < g, a.block(f, g, m, n))
OUT(blockN_r0, C long f C long g C long m C long n, f < 0, a.blockN(f, g, m, n))
OUT(blockN_c0, C long f C long g C long m C long n, g < 0, a.blockN(f, g, m, n))
OUT(blockN_r, C long f C long g C long m C long n, m > 0 && f + (m - 1) >= nr(a), a.blockN(f, g, m, n))
OUT(blockN_c, C long f C long g C long m C long n, n > 0 && g + (n - 1) >= nc(a), a.blockN(f, g, m, n))
OUT(blockN_rn, C long f C long g C long m C long n, m < 0, a.blockN(f, g, m, n))
OUT(blockN_cn, C long f C long g C long m C long n, n < 0, a.blockN(f, g, m, n))
template <class T> OB void attach1_neg(T* p, long n) { REQUIRE(n < 0); keep(attach1D(p, n)); FAIL(); }
template <class T> OB void attach2_neg_r(T* p, long m, long n) { REQUIRE(m < 0); keep(attach2D(p, m, n)); FAIL(); }
template <class T> OB void attach2_neg_c(T* p, long m, long n) { REQUIRE(n < 0); keep(attach2D(p, m, n)); FAIL(); }
} // namespace guard
#define G2(f, ...) A2(guard, f, __VA_ARGS__)
G2(row_lo, long) G2(row_hi, long) G2(row_last_lo, long) G2(row_last_hi, long)
G2(col_lo, long) G2(col_hi, long) G2(col_last_lo, long) G2(col_last_hi, long)
G2(diag_hi, long) G2(diag_lo, long)
G2(view2D_tmp, long, long) A1(guard, view2D_tmp, long, long)
G2(view2D_size, long, long) A1(guard, view2D_size, long, long)
G2(view2D_neg_r, long, long) G2(view2D_neg_c, long, long)
A1(guard, view2D_neg_r, long, long) A1(guard, view2D_neg_c, long, long)
G2(block_r, long, long, long, long) G2(block_c, long, long, long, long)
G2(block_r0, long, long, long, long) G2(block_c0, long, long, long, long)
G2(block_ro, long, long, long, long) G2(block_co, long, long, long, long)
G2(blockN_r, long, long, long, long) G2(blockN_c, long, long, long, long)
G2(blockN_r0, long, long, long, long) G2(blockN_c0, long, long, long, long)
G2(blockN_rn, long, long, long, long) G2(blockN_cn, long, long, long, long)

namespace eq { // foreign memory
template <class T> OB void attach1(T* p, long n, long k) {
   auto s = attach1D(p, n);
   PROVE(len(s) == n);
   PROVE((const void*)&s.un(k) == (const void*)(p + k));
   LIVE();
}
template <class T> OB void attach2(T* p, long m, long n, long i, long j) {
   REQUIRE(m > 0);
   REQUIRE(n > 0);
   auto s = attach2D(p, m, n);
   PROVE(nr(s) == m);
   PROVE(nc(s) == n);
   PROVE(len(s) == m * n);
   PROVE((const void*)&s.un(i, j) == (const void*)(p + (i * n + j)));
   PROVE((const void*)&s.un(i) == (const void*)(p + i));
   LIVE();
}
} // namespace eq
#define AT(T)                                                      \
   template OB void eq::attach1(T*, long, long);                   \
   template OB void eq::attach2(T*, long, long, long, long);       \
   template OB void guard::attach1_neg(T*, long);                  \
   template OB void guard::attach2_neg_r(T*, long, long);          \
   template OB void guard::attach2_neg_c(T*, long, long);
AT(double) AT(const double) AT(int) AT(const float)
