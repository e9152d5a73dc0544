// Structural lazies: concatenation, exclusion, sequences, unit vectors, identity, transpose,
// constants, row/column reduction and broadcasting, outer and matrix-vector products.
#include "sv.hpp"
#include <cmath>
using namespace spp;
using namespace spp::place;
#define C ,
#define D1(ns, f, T, ...)                                                                  \
   template OB void ns::f(Array1D<T>& __VA_OPT__(, ) __VA_ARGS__);                         \
   template OB void ns::f(const FixedArray1D<T, 7>& __VA_OPT__(, ) __VA_ARGS__);
#define D2(ns, f, T, ...)                                                                  \
   template OB void ns::f(Array2D<T>& __VA_OPT__(, ) __VA_ARGS__);                         \
   template OB void ns::f(const FixedArray2D<T, 3, 4>& __VA_OPT__(, ) __VA_ARGS__);
#define DD1(ns, f, T, ...)                                                                 \
   template OB void ns::f(Array1D<T>&, Array1D<T>& __VA_OPT__(, ) __VA_ARGS__);            \
   template OB void ns::f(const FixedArray1D<T, 5>&, const FixedArray1D<T, 7>& __VA_OPT__(, ) __VA_ARGS__);

namespace eq {
// the case on the position is made before the element is asked for
template <class A, class B> OB void merge2(A& a, B& b, long k) {
   auto e = merge(a, b);
   PROVE(len(e) == len(a) + len(b));
   if(k < len(a)) {
      PROVE(same(e.un(k), at_(a, k)));
   } else {
      PROVE(same(e.un(k), at_(b, k - len(a))));
   }
   LIVE();
}
template <class A, class B> OB void merge3(A& a, B& b, long k) {
   auto e = merge(a, b, a);
   PROVE(len(e) == len(a) + (len(b) + len(a)));
   if(k < len(a)) {
      PROVE(same(e.un(k), at_(a, k)));
   } else if(k - len(a) < len(b)) {
      PROVE(same(e.un(k), at_(b, k - len(a))));
   } else {
      PROVE(same(e.un(k), at_(a, k - len(a) - len(b))));
   }
   LIVE();
}
template <class A> OB void merge_right(A& a, long k, double v) {
   using T = decltype(at_(a, k));
   auto e = merge(a, S_<T>{T(v)});
   PROVE(len(e) == len(a) + 1);
   if(k == len(a)) {
      PROVE(same(e.un(k), T(v)));
   } else {
      PROVE(same(e.un(k), at_(a, k)));
   }
   LIVE();
}
template <class A> OB void merge_left(A& a, long k, double v) {
   using T = decltype(at_(a, k));
   auto e = merge(S_<T>{T(v)}, a);
   PROVE(len(e) == len(a) + 1);
   if(k == 0) {
      PROVE(same(e.un(k), T(v)));
   } else {
      PROVE(same(e.un(k), at_(a, k - 1)));
   }
   LIVE();
}
template <class A> OB void merge_right2(A& a, long k, double v, double w) {
   using T = decltype(at_(a, k));
   auto e = merge(a, S_<T>{T(v)}, S_<T>{T(w)});
   PROVE(len(e) == len(a) + 2);
   PROVE(same(e.un(len(a) + 1), T(w)));
   PROVE(same(e.un(len(a)), T(v)));
   REQUIRE(k >= 0);
   REQUIRE(k < len(a));
   PROVE(same(e.un(k), at_(a, k)));
   LIVE();
}
template <class A> OB void merge_left2(A& a, long k, double v, double w) {
   using T = decltype(at_(a, k));
   auto e = merge(S_<T>{T(v)}, S_<T>{T(w)}, a);
   PROVE(len(e) == len(a) + 2);
   PROVE(same(e.un(0), T(v)));
   PROVE(same(e.un(1), T(w)));
   REQUIRE(k >= 0);
   PROVE(same(e.un(k + 2), at_(a, k)));
   LIVE();
}
template <class A> OB void exclude_(A& a, long p, long n, long k) {
   auto e = exclude(a, p, n);
   PROVE(len(e) == len(a) - n);
   if(k < p) {
      PROVE(same(e.un(k), at_(a, k)));
   } else {
      PROVE(same(e.un(k), at_(a, k + n)));
   }
   LIVE();
}
template <class A> OB void exclude_tag(A& a, long p, long n, long k) {
   auto e = exclude(a, Pos{p}, Count{n});
   PROVE(len(e) == len(a) - n);
   if(k < p) {
      PROVE(same(e.un(k), at_(a, k)));
   } else {
      PROVE(same(e.un(k), at_(a, k + n)));
   }
   LIVE();
}
template <class A> OB void exclude_one(A& a, long p, long k) {
   auto e = exclude(a, p);
   PROVE(len(e) == len(a) - 1);
   if(k < p) {
      PROVE(same(e.un(k), at_(a, k)));
   } else {
      PROVE(same(e.un(k), at_(a, k + 1)));
   }
   LIVE();
}
template <class A> OB void exclude_last(A& a, long p, long k) {
   REQUIRE(moderate(p));
   auto e = exclude(a, last - p);
   PROVE(len(e) == len(a) - 1);
   if(k < len(a) - 1 - p) {
      PROVE(same(e.un(k), at_(a, k)));
   } else {
      PROVE(same(e.un(k), at_(a, k + 1)));
   }
   LIVE();
}
template <class T> OB void sequence_(long n, T s, T d, long k) {
   auto e = sequence(n, S_<T>{s}, S_<T>{d});
   PROVE(len(e) == n);
   PROVE(same(e.un(k), T(s + T(k) * d)));
   auto f = sequence<T>(Size{n}, Start<T>{s}, Incr<T>{d});
   PROVE(len(f) == n);
   PROVE(same(f.un(k), T(s + T(k) * d)));
   LIVE();
}
template <class T> OB void sequence_def(long n, T s, long k) {
   auto e = sequence(n, S_<T>{s});
   PROVE(len(e) == n);
   PROVE(same(e.un(k), T(s + T(k) * T(1))));
   LIVE();
}
template <class T> OB void linspace_(long n, T s, T t, long k) {
   REQUIRE(n > 1);
   auto e = linspace(n, S_<T>{s}, S_<T>{t});
   PROVE(len(e) == n);
   PROVE(same(e.un(k), T(s + T(k) * ((t - s) / T(n - 1)))));
   auto f = linspace(Size{n}, Start<T>{s}, End<T>{t});
   PROVE(len(f) == n);
   PROVE(same(f.un(k), T(s + T(k) * ((t - s) / T(n - 1)))));
   LIVE();
}
OB void irange_(long n, long k) {
   auto e = irange(n);
   PROVE(len(e) == n);
   PROVE(e.un(k).val() == k);
   LIVE();
}
template <class A> OB void irange_of(A& a, long k) {
   PROVE(len(irange(a)) == len(a));
   PROVE(irange(a).un(k).val() == k);
   PROVE(len(irange_m1(a)) == len(a) - 1);
   PROVE(irange_m1(a).un(k).val() == k);
   LIVE();
}
template <class A> OB void irange_of2(A& a, long k) {
   PROVE(len(irange_row(a)) == nr(a));
   PROVE(len(irange_col(a)) == nc(a));
   PROVE(len(irange_row_m1(a)) == nr(a) - 1);
   PROVE(len(irange_col_m1(a)) == nc(a) - 1);
   PROVE(irange_row(a).un(k).val() == k);
   PROVE(irange_col(a).un(k).val() == k);
   LIVE();
}
template <class T> OB void unit_(long p, long n, T, long k) {
   auto e = e_unit<T>(p, n);
   PROVE(len(e) == n);
   if(k == p) {
      PROVE(same(e.un(k), T(1)));
   } else {
      PROVE(same(e.un(k), T(0)));
   }
   auto f = e_unit<T>(Index{p}, Size{n});
   PROVE(len(f) == n);
   LIVE();
}
template <class T> OB void identity_(long n, T, long i, long j) {
   auto e = identity<T>(n);
   PROVE(nr(e) == n);
   PROVE(nc(e) == n);
   if(i == j) {
      PROVE(same(e.un(i, j), T(1)));
   } else {
      PROVE(same(e.un(i, j), T(0)));
   }
   LIVE();
}
template <class A> OB void transpose_(A& a, long i, long j) {
   auto e = transpose(a);
   PROVE(nr(e) == nc(a));
   PROVE(nc(e) == nr(a));
   PROVE(len(e) == nc(a) * nr(a));
   PROVE(same(e.un(i, j), at_(a, j, i)));
   auto f = transpose(a + a);
   using T = decltype(at_(a, i, j));
   PROVE(same(f.un(i, j), T(at_(a, j, i) + at_(a, j, i))));
   LIVE();
}
template <class T> OB void const_(long m, long n, T v, long i, long j) {
   auto e = const1D(m, S_<T>{v});
   PROVE(len(e) == m);
   PROVE(same(e.un(i), v));
   auto g = const1D(Size{m}, Value{S_<T>{v}});
   PROVE(len(g) == m);
   PROVE(same(g.un(i), v));
   auto f = const2D(m, n, S_<T>{v});
   PROVE(nr(f) == m);
   PROVE(nc(f) == n);
   PROVE(same(f.un(i, j), v));
   auto h = const2D(Rows{m}, Cols{n}, Value{S_<T>{v}});
   PROVE(nr(h) == m);
   PROVE(nc(h) == n);
   LIVE();
}
template <class A, class B> OB void outer(A& a, B& b, long i, long j) {
   auto e = tensor_prod(a, b);
   using T = decltype(at_(a, i));
   PROVE(nr(e) == len(a));
   PROVE(nc(e) == len(b));
   PROVE(same(e.un(i, j), T(at_(a, i) * at_(b, j))));
   LIVE();
}
template <class A> OB void row_reduce_(A& a, long i) { // one value per row, from that row
   REQUIRE(nc(a) > 0);
   auto e = row_reduce(a, [](auto const& r) { return r.un(1) - r.un(2); });
   using T = decltype(at_(a, i));
   PROVE(len(e) == nr(a));
   PROVE(same(e.un(i), T(at_(a, i * nc(a) + 1) - at_(a, i * nc(a) + 2))));
   LIVE();
}
template <class A> OB void col_reduce_(A& a, long j) {
   REQUIRE(nc(a) > 0);
   auto e = col_reduce(a, [](auto const& r) { return r.un(1) - r.un(2); });
   using T = decltype(at_(a, j));
   PROVE(len(e) == nc(a));
   PROVE(same(e.un(j), T(at_(a, j + 1 * nc(a)) - at_(a, j + 2 * nc(a)))));
   LIVE();
}
} // namespace eq
DD1(eq, merge2, double, long) DD1(eq, merge2, int, long) DD1(eq, merge3, double, long)
D1(eq, merge_right, double, long, double) D1(eq, merge_left, double, long, double)
D1(eq, merge_right2, double, long, double, double) D1(eq, merge_left2, double, long, double, double)
D1(eq, exclude_, double, long, long, long) D1(eq, exclude_tag, double, long, long, long)
D1(eq, exclude_one, double, long, long) D1(eq, exclude_last, double, long, long)
template OB void eq::sequence_(long, double, double, long); template OB void eq::sequence_(long, int, int, long);
template OB void eq::sequence_(long, long, long, long); template OB void eq::sequence_(long, float, float, long);
template OB void eq::sequence_def(long, double, long); template OB void eq::sequence_def(long, long, long);
template OB void eq::linspace_(long, double, double, long); template OB void eq::linspace_(long, float, float, long);
D1(eq, irange_of, double, long) D2(eq, irange_of2, double, long)
template OB void eq::unit_(long, long, double, long); template OB void eq::unit_(long, long, int, long);
template OB void eq::identity_(long, double, long, long); template OB void eq::identity_(long, long, long, long);
D2(eq, transpose_, double, long, long) D2(eq, transpose_, int, long, long)
template OB void eq::const_(long, long, double, long, long); template OB void eq::const_(long, long, int, long, long);
DD1(eq, outer, double, long, long) DD1(eq, outer, int, long, long)
D2(eq, row_reduce_, double, long) D2(eq, col_reduce_, double, long)

// by linear position, and through iteration order
namespace eq {
template <class A, class B> OB void outer_flat(A& a, B& b, long k) {
   REQUIRE(len(b) > 0);
   auto e = tensor_prod(a, b);
   using T = decltype(at_(a, k));
   PROVE(len(e) == len(a) * len(b));
   PROVE(same(e.un(k), T(at_(a, k / len(b)) * at_(b, k % len(b)))));
   LIVE();
}
template <class A> OB void transpose_flat(A& a, long k) {
   REQUIRE(nr(a) > 0);
   auto e = transpose(a);
   PROVE(same(e.un(k), at_(a, k % nr(a), k / nr(a))));
   LIVE();
}
template <class T> OB void identity_flat(long n, T, long k) {
   REQUIRE(n > 0);
   auto e = identity<T>(n);
   PROVE(len(e) == n * n);
   if(k / n == k % n) {
      PROVE(same(e.un(k), T(1)));
   } else {
      PROVE(same(e.un(k), T(0)));
   }
   LIVE();
}
template <class A> OB void bcast_flat(A& a, long k) {
   REQUIRE(len(a) > 0);
   auto e = row_broadcast(a);
   auto f = col_broadcast(a);
   PROVE(nr(e) == len(a));
   PROVE(nc(e) == len(a));
   PROVE(len(e) == len(a) * len(a));
   PROVE(nr(f) == len(a));
   PROVE(nc(f) == len(a));
   PROVE(same(e.un(k), at_(a, k % len(a))));
   PROVE(same(f.un(k), at_(a, k / len(a))));
   LIVE();
}
template <class A> OB void bcast_any(A& a, long i, long j) {
   PROVE(same(row_broadcast(a).un(i, j), at_(a, j)));
   PROVE(same(col_broadcast(a).un(i, j), at_(a, i)));
   LIVE();
}
template <class T> OB void const_flat(long m, long n, T v, long k) {
   auto f = const2D(m, n, S_<T>{v});
   PROVE(len(f) == m * n);
   PROVE(same(f.un(k), v));
   LIVE();
}
// concatenations of any shape
template <class A> OB void hmerge_any(A& a, A& b, long i, long j) {
   REQUIRE(len(a) != 0);
   REQUIRE(len(b) != 0);
   REQUIRE(nc(a) + nc(b) > 0);
   REQUIRE(j >= 0);
   REQUIRE(j < nc(a) + nc(b));
   REQUIRE(i >= 0);
   REQUIRE(i < BOUND);
   REQUIRE(nc(a) + nc(b) < BOUND);
   auto e = merge_horizontal(a, b);
   PROVE(nr(e) == nr(a));
   PROVE(nc(e) == nc(a) + nc(b));
   LIVE();
}
template <class A> OB void vmerge_any(A& a, A& b, long k) {
   REQUIRE(len(a) != 0);
   REQUIRE(len(b) != 0);
   auto e = merge_vertical(a, b);
   PROVE(nr(e) == nr(a) + nr(b));
   PROVE(nc(e) == nc(a));
   if(k < len(a)) {
      PROVE(same(e.un(k), at_(a, k)));
   } else {
      PROVE(same(e.un(k), at_(b, k - len(a))));
   }
   LIVE();
}
} // namespace eq
DD1(eq, outer_flat, double, long) DD1(eq, outer_flat, int, long)
D2(eq, transpose_flat, double, long) D2(eq, transpose_flat, int, long)
template OB void eq::identity_flat(long, double, long); template OB void eq::identity_flat(long, int, long);
D1(eq, bcast_flat, double, long) D1(eq, bcast_any, double, long, long)
template OB void eq::const_flat(long, long, double, long); template OB void eq::const_flat(long, long, int, long);
template OB void eq::hmerge_any(Array2D<double>&, Array2D<double>&, long, long);
template OB void eq::vmerge_any(Array2D<double>&, Array2D<double>&, long);

// arguments inside the definition are accepted
namespace total {
template <class A> OB void exclude_ok(A& a, long p, long n) {
   REQUIRE(n > 0);
   REQUIRE(p >= 0);
   REQUIRE(p < len(a));
   REQUIRE(p + n - 1 >= 0);
   REQUIRE(p + n - 1 < len(a));
   REQUIRE(len(a) - n >= 0);
   keep(exclude(a, p, n));
   LIVE();
}
template <class A> OB void exclude_tag_ok(A& a, long p, long n) {
   REQUIRE(n > 0);
   REQUIRE(p >= 0);
   REQUIRE(p < len(a));
   REQUIRE(p + n - 1 >= 0);
   REQUIRE(p + n - 1 < len(a));
   REQUIRE(len(a) - n >= 0);
   keep(exclude(a, Pos{p}, Count{n}));
   LIVE();
}
template <class A> OB void exclude_one_ok(A& a, long p) {
   REQUIRE(p >= 0);
   REQUIRE(p < len(a));
   keep(exclude(a, p));
   LIVE();
}
template <class A> OB void exclude_one_tag_ok(A& a, long p) {
   REQUIRE(p >= 0);
   REQUIRE(p < len(a));
   keep(exclude(a, Pos{p}));
   LIVE();
}
template <class A> OB void exclude_last_ok(A& a, long p) {
   REQUIRE(p >= 0);
   REQUIRE(p < len(a));
   REQUIRE(len(a) - 1 - p >= 0);
   REQUIRE(len(a) - 1 - p < len(a));
   REQUIRE(moderate(p));
   keep(exclude(a, last - p));
   LIVE();
}
OB void unit_ok(long p, long n) {
   REQUIRE(p >= 0);
   REQUIRE(p < n);
   keep(e_unit<double>(p, n));
   keep(e_unit<double>(Index{p}, Size{n}));
   LIVE();
}
OB void sizes_ok(long n, double s, double d) {
   REQUIRE(n >= 0);
   keep(identity<double>(n));
   keep(irange(n));
   keep(sequence(n, S_<double>{s}, S_<double>{d}));
   keep(sequence(Size{n}, Start{S_<double>{s}}, Incr{S_<double>{d}}));
   keep(const1D(n, S_<double>{s}));
   LIVE();
}
OB void linspace_ok(long n, double s, double d) {
   REQUIRE(n > 0);
   keep(linspace(n, S_<double>{s}, S_<double>{d}));
   LIVE();
}
OB void const2_ok(long m, long n, double v) {
   REQUIRE(m > 0);
   REQUIRE(n > 0);
   keep(const2D(m, n, S_<double>{v}));
   keep(const2D(0, 0, S_<double>{v}));
   LIVE();
}
template <class A> OB void merge_ok(A& a, A& b, double v) {
   ASSUME(len(a) >= 0);
   ASSUME(len(b) >= 0);
   REQUIRE(len(a) < BOUND);
   REQUIRE(len(b) < BOUND);
   REQUIRE(len(a) + len(b) >= 0);
   keep(merge(a, b));
   LIVE();
}
template <class A> OB void hmerge_ok(A& a, A& b) {
   REQUIRE(nr(a) >= 0);
   REQUIRE(nc(a) >= 0);
   REQUIRE(nc(b) >= 0);
   REQUIRE(nr(a) == nr(b));
   REQUIRE(len(a) != 0);
   REQUIRE(len(b) != 0);
   REQUIRE(nc(a) + nc(b) >= 0);
   keep(merge_horizontal(a, b));
   LIVE();
}
template <class A> OB void vmerge_ok(A& a, A& b) {
   REQUIRE(nr(a) >= 0);
   REQUIRE(nr(b) >= 0);
   REQUIRE(nc(a) >= 0);
   REQUIRE(nc(a) == nc(b));
   REQUIRE(len(a) != 0);
   REQUIRE(len(b) != 0);
   REQUIRE(nr(a) + nr(b) >= 0);
   keep(merge_vertical(a, b));
   LIVE();
}
template <class A> OB void transpose_ok(A& a) {
   REQUIRE(nr(a) >= 0);
   REQUIRE(nc(a) >= 0);
   keep(transpose(a));
   LIVE();
}
template <class B> OB void bcast_ok(B& v) {
   ASSUME(len(v) >= 0);
   keep(row_broadcast(v));
   LIVE();
}
template <class B> OB void bcast_col_ok(B& v) {
   ASSUME(len(v) >= 0);
   keep(col_broadcast(v));
   LIVE();
}
template <class B> OB void outer_ok(B& v) {
   ASSUME(len(v) >= 0);
   keep(tensor_prod(v, v));
   LIVE();
}
template <class A, class B> OB void matvec_ok(A& a, B& v) {
   REQUIRE(nc(a) == len(v));
   keep(matvec_prod(a, v));
   LIVE();
}
} // namespace total
D1(total, exclude_ok, double, long, long) D1(total, exclude_one_ok, double, long) D1(total, exclude_last_ok, double, long)
D1(total, exclude_tag_ok, double, long, long) D1(total, exclude_one_tag_ok, double, long)
template OB void total::merge_ok(Array1D<double>&, Array1D<double>&, double);
template OB void total::hmerge_ok(Array2D<double>&, Array2D<double>&);
template OB void total::vmerge_ok(Array2D<double>&, Array2D<double>&);
D2(total, transpose_ok, double) D1(total, bcast_ok, double) D1(total, bcast_col_ok, double) D1(total, outer_ok, double)
template OB void total::matvec_ok(Array2D<double>&, Array1D<double>&);

// concrete shapes, every position
namespace total {
template <class A, class B> OB void hmerge(A& a, B& b) {
   constexpr long m = A{}.rows().val(), n = A{}.cols().val(), p = B{}.cols().val();
   auto e = merge_horizontal(a, b);
   PROVE(nr(e) == m);
   PROVE(nc(e) == n + p);
   for(long i = 0; i < m; ++i)
      for(long j = 0; j < n + p; ++j)
         PROVE(same(e.un(i, j), j < n ? at_(a, i, j) : at_(b, i, j - n)));
   auto f = merge_horizontal(a, b, a);
   PROVE(nr(f) == m);
   PROVE(nc(f) == 2 * n + p);
   PROVE(same(f.un(m - 1, n + p), at_(a, m - 1, 0)));
   PROVE(same(f.un(m - 1, n), at_(b, m - 1, 0)));
   LIVE();
}
template <class A, class B> OB void vmerge(A& a, B& b) {
   constexpr long m = A{}.rows().val(), n = A{}.cols().val(), p = B{}.rows().val();
   auto e = merge_vertical(a, b);
   PROVE(nr(e) == m + p);
   PROVE(nc(e) == n);
   for(long i = 0; i < m + p; ++i)
      for(long j = 0; j < n; ++j)
         PROVE(same(e.un(i, j), i < m ? at_(a, i, j) : at_(b, i - m, j)));
   auto f = merge_vertical(a, b, a);
   PROVE(nr(f) == 2 * m + p);
   PROVE(nc(f) == n);
   PROVE(same(f.un(m + p, n - 1), at_(a, 0, n - 1)));
   LIVE();
}
OB void merge_empty(FixedArray2D<double, 0, 0>& z, FixedArray2D<double, 2, 3>& a) {
   auto e = merge_horizontal(z, a);
   auto v = merge_vertical(z, a);
   auto f = merge_horizontal(a, z);
   auto w = merge_vertical(a, z);
   PROVE(nr(e) == 2 && nc(e) == 3);
   PROVE(nr(f) == 2 && nc(f) == 3);
   PROVE(nr(v) == 2 && nc(v) == 3);
   PROVE(nr(w) == 2 && nc(w) == 3);
   PROVE(same(e.un(1, 2), at_(a, 1, 2)));
   PROVE(same(f.un(1, 2), at_(a, 1, 2)));
   PROVE(same(v.un(1, 2), at_(a, 1, 2)));
   PROVE(same(w.un(1, 2), at_(a, 1, 2)));
   LIVE();
}
OB void linspace_one(double s, double t) {
   auto e = linspace(1, S_<double>{s}, S_<double>{t});
   PROVE(len(e) == 1);
   LIVE();
}
// a broadcast repeats the vector along rows or columns
template <class A> OB void bcast(A& a) {
   constexpr long n = A{}.size().val();
   auto e = row_broadcast(a);
   auto f = col_broadcast(a);
   for(long i = 0; i < 3; ++i)
      for(long k = 0; k < n; ++k) {
         PROVE(same(e.un(i, k), at_(a, k)));
         PROVE(same(f.un(k, i), at_(a, k)));
      }
   LIVE();
}
template <class M, class A> OB void bcast_op(M& m, A& r) { // 3 x 3
   using T = decltype(at_(r, 0));
   auto e = m + row_broadcast(r);
   PROVE(nr(e) == nr(m));
   PROVE(nc(e) == nc(m));
   for(long i = 0; i < 3; ++i)
      for(long j = 0; j < 3; ++j)
         PROVE(same(e.un(i, j), T(at_(m, i, j) + at_(r, j))));
   auto f = m + col_broadcast(r);
   PROVE(same(f.un(1, 2), T(at_(m, 1, 2) + at_(r, 1))));
   LIVE();
}
template <class M, class A> OB void matvec(M& m, A& x) { // 2 x 3
   auto e = matvec_prod(m, x);
   PROVE(len(e) == nr(m));
   for(long i = 0; i < 2; ++i)
      PROVE(same(e.un(i), at_(m, i, 0) * at_(x, 0) + at_(m, i, 1) * at_(x, 1) + at_(m, i, 2) * at_(x, 2)));
   LIVE();
}
template <class M> OB void reduce_ok(M& m) { // 2 x 3, integers
   auto r = row_reduce(m, [](auto const& x) { return sum(x); });
   auto c = col_reduce(m, [](auto const& x) { return sum(x); });
   PROVE(len(r) == 2);
   PROVE(len(c) == 3);
   for(long i = 0; i < 2; ++i)
      PROVE(same(r.un(i), at_(m, i, 0) + at_(m, i, 1) + at_(m, i, 2)));
   for(long j = 0; j < 3; ++j)
      PROVE(same(c.un(j), at_(m, 0, j) + at_(m, 1, j)));
   LIVE();
}
} // namespace total
template OB void total::hmerge(FixedArray2D<double, 2, 3>&, FixedArray2D<double, 2, 1>&);
template OB void total::hmerge(FixedArray2D<double, 1, 1>&, FixedArray2D<double, 1, 4>&);
template OB void total::hmerge(FixedArray2D<int, 3, 2>&, FixedArray2D<int, 3, 2>&);
template OB void total::vmerge(FixedArray2D<double, 2, 3>&, FixedArray2D<double, 1, 3>&);
template OB void total::vmerge(FixedArray2D<double, 1, 1>&, FixedArray2D<double, 4, 1>&);
template OB void total::vmerge(FixedArray2D<int, 2, 2>&, FixedArray2D<int, 2, 2>&);
template OB void total::bcast(FixedArray1D<double, 3>&);
template OB void total::bcast(FixedArray1D<int, 1>&);
template OB void total::bcast_op(FixedArray2D<double, 3, 3>&, FixedArray1D<double, 3>&);
template OB void total::matvec(FixedArray2D<int, 2, 3>&, FixedArray1D<int, 3>&);
template OB void total::reduce_ok(FixedArray2D<int, 2, 3>&);

namespace guard {
#define OUT(name, params, cond, ...)                              \
   template <class A> OB void name(A& a params) {                 \
      REQUIRE(cond);                                              \
      keep(__VA_ARGS__);                                          \
      FAIL();                                                     \
   }
OUT(ex_pos_lo, C long p C long n, p < 0, exclude(a, p, n))
OUT(ex_pos_hi, C long p C long n, p >= len(a), exclude(a, p, n))
OUT(ex_cnt_lo, C long p C long n, n <= 0, exclude(a, p, n))
OUT(ex_cnt_hi, C long p C long n, p + n - 1 >= len(a), exclude(a, p, n))
OUT(ex_last, C long p, before_first(len(a), p), exclude(a, last - p))
OB void unit_lo(long p, long n) { REQUIRE(p < 0); keep(e_unit<double>(p, n)); FAIL(); }
OB void unit_hi(long p, long n) { REQUIRE(p >= n); keep(e_unit<double>(p, n)); FAIL(); }
OB void identity_neg(long n) { REQUIRE(n < 0); keep(identity<int>(n)); FAIL(); }
OB void linspace_none(long n, double a, double b) { REQUIRE(n <= 0); keep(linspace(n, S_<double>{a}, S_<double>{b})); FAIL(); }
OB void irange_neg(long n) { REQUIRE(n < 0); keep(irange(n)); FAIL(); }
OB void sequence_neg(long n) { REQUIRE(n < 0); keep(sequence(n, 0._sd, 1._sd)); FAIL(); }
OB void const1_neg(long n) { REQUIRE(n < 0); keep(const1D(n, 1._sd)); FAIL(); }
OB void const2_neg(long m, long n) { REQUIRE(m < 0); keep(const2D(m, n, 1._sd)); FAIL(); }
OB void const2_negc(long m, long n) { REQUIRE(n < 0); keep(const2D(m, n, 1._sd)); FAIL(); }
OB void const2_mixed(long m) { REQUIRE(m > 0); keep(const2D(m, 0, 1._sd)); FAIL(); }
OB void const2_mixedc(long m) { REQUIRE(m > 0); keep(const2D(0, m, 1._sd)); FAIL(); }
template <class A> OB void hmerge_rows(A& a, A& b) {
   REQUIRE(len(a) != 0);
   REQUIRE(len(b) != 0);
   REQUIRE(nr(a) != nr(b));
   keep(merge_horizontal(a, b));
   FAIL();
}
template <class A> OB void vmerge_cols(A& a, A& b) {
   REQUIRE(len(a) != 0);
   REQUIRE(len(b) != 0);
   REQUIRE(nc(a) != nc(b));
   keep(merge_vertical(a, b));
   FAIL();
}
// the arguments after the first are concatenated first, so they are compared with each other and with the first
template <class A> OB void hmerge3_rows(A& a, A& b, A& c) {
   REQUIRE(nr(a) > 0);
   REQUIRE(nc(a) > 0);
   REQUIRE(len(a) != 0);
   REQUIRE(len(b) != 0);
   REQUIRE(len(c) != 0);
   REQUIRE(nr(b) != nr(c));
   keep(merge_horizontal(a, b, c));
   FAIL();
}
template <class A> OB void vmerge3_cols(A& a, A& b, A& c) {
   REQUIRE(len(a) != 0);
   REQUIRE(len(b) != 0);
   REQUIRE(len(c) != 0);
   REQUIRE(nc(b) != nc(c));
   keep(merge_vertical(a, b, c));
   FAIL();
}
// shapes given, so that emptiness of the inner concatenation is known
template <class A, class B> OB void hmerge3_first(A& a, B& b) {
   keep(merge_horizontal(a, b, b));
   FAIL();
}
template <class A, class B> OB void vmerge3_first(A& a, B& b) {
   keep(merge_vertical(a, b, b));
   FAIL();
}
template <class M, class A> OB void matvec_size(M& m, A& x) {
   REQUIRE(nc(m) != len(x));
   keep(matvec_prod(m, x));
   FAIL();
}
} // namespace guard
D1(guard, ex_pos_lo, double, long, long) D1(guard, ex_pos_hi, double, long, long)
D1(guard, ex_cnt_lo, double, long, long) D1(guard, ex_cnt_hi, double, long, long) D1(guard, ex_last, double, long)
template OB void guard::hmerge_rows(Array2D<double>&, Array2D<double>&);
template OB void guard::vmerge_cols(Array2D<double>&, Array2D<double>&);
template OB void guard::matvec_size(Array2D<double>&, Array1D<double>&);
template OB void guard::hmerge3_rows(Array2D<double>&, Array2D<double>&, Array2D<double>&);
template OB void guard::vmerge3_cols(Array2D<double>&, Array2D<double>&, Array2D<double>&);
template OB void guard::hmerge3_first(FixedArray2D<double, 2, 3>&, FixedArray2D<double, 3, 2>&);
template OB void guard::hmerge3_first(FixedArray2D<int, 3, 1>&, FixedArray2D<int, 2, 2>&);
template OB void guard::vmerge3_first(FixedArray2D<double, 2, 3>&, FixedArray2D<double, 3, 2>&);
template OB void guard::vmerge3_first(FixedArray2D<int, 1, 2>&, FixedArray2D<int, 3, 3>&);
