// Assignment and compound assignment write every element of the destination, with the right
// value, for every size (proofs by induction, see GHOST in sv.hpp). Scalar and list forms,
// which have no source to probe, and owner-to-owner copies are decided for the fixed sizes
// named below, all element values.
#include "sv.hpp"
using namespace spp;
using namespace spp::place;
#define C ,

namespace eq {
template <class A, class B> OB void assign(A& a, const B& b) {
   using T = decltype(at_(a, 0));
   GHOST(T)
   EACH1(len(a), STEP(a.un(i), at_(b, i)) return b.un(i);)
   a = e;
   DONE(len(a))
}
template <class A, class B> OB void construct(const B& b, long n) {
   REQUIRE(n > 0);
   long next = 0;
   EACH1(n, PROVE(i == next); ++next; return b.un(i);)
   A a = e;
   PROVE(len(a) == n);
   PROVE(next == n);
   LIVE();
}
template <class A> OB void construct0() {
   EACH1(0, FAIL(); return S_<double>{double(i)};)
   A a = e;
   PROVE(len(a) == 0);
   LIVE();
}
template <class A, class B> OB void slice(A& a, const B& b, long f, long n, long s) {
   using T = decltype(at_(a, 0));
   REQUIRE(f >= 0);
   REQUIRE(f < BOUND);
   REQUIRE(n >= 0);
   REQUIRE(n < BOUND);
   REQUIRE(s > 0);
   REQUIRE(s < BOUND);
   auto d = a(seqN(f, n, s));
   GHOST(T)
   EACH1(n, STEP(a.un(f + i * s), at_(b, i)) return b.un(i);)
   d = e;
   DONE(n)
}
// destinations d of n elements, element i of d being elem
#define DEST(name, dest, n, elem)                                             \
   template <class A, class B> OB void name(A& a, const B& b, long r) {       \
      using T = decltype(at_(a, 0));                                          \
      auto d = dest;                                                          \
      GHOST(T)                                                                \
      EACH1(n, STEP(elem, at_(b, i)) return b.un(i);)                         \
      d = e;                                                                  \
      DONE(n)                                                                 \
   }                                                                          \
   template <class A, class B> OB void name##_add(A& a, const B& b, long r) { \
      using T = decltype(at_(a, 0));                                          \
      auto d = dest;                                                          \
      GHOST(T)                                                                \
      EACH1(n, STEP(elem, T((elem).val() + at_(b, i))) return b.un(i);)       \
      d += e;                                                                 \
      DONE(n)                                                                 \
   }
DEST(row, a.row(r), nc(a), a.un(r, i))
DEST(col, a.col(r), nr(a), a.un(i, r))
DEST(flat, a.view1D(), len(a), a.un(i))
template <class A, class B> OB void diag(A& a, const B& b) {
   using T = decltype(at_(a, 0));
   REQUIRE(nr(a) > 0);
   REQUIRE(nr(a) <= nc(a));
   auto d = a.diag();
   GHOST(T)
   EACH1(nr(a), STEP(a.un(i, i), at_(b, i)) return b.un(i);)
   d = e;
   DONE(nr(a))
}
template <class A, class B> OB void assign2(A& a, const B& b) {
   using T = decltype(at_(a, 0));
   REQUIRE(nr(a) > 0);
   REQUIRE(nc(a) > 0);
   REQUIRE(nr(a) < BOUND);
   REQUIRE(nc(a) < BOUND);
   GHOST(T)
   EACH2(nr(a), nc(a), STEP(a.un(i), at_(b, i)) return b.un(i);)
   a = e;
   DONE(nr(a) * nc(a))
}
template <class A, class B> OB void construct2(const B& b, long m, long n) {
   REQUIRE(m > 0);
   REQUIRE(n > 0);
   long next = 0;
   EACH2(m, n, PROVE(i == next); ++next; return b.un(i);)
   A a = e;
   PROVE(nr(a) == m);
   PROVE(nc(a) == n);
   PROVE(next == m * n);
   LIVE();
}
// a op= expression: element i is the old element i combined with the source's element i
#define COMPOUND(name, op)                                                            \
   template <class A, class B> OB void name(A& a, const B& b) {                       \
      using T = decltype(at_(a, 0));                                                  \
      GHOST(T)                                                                        \
      EACH1(len(a), STEP(a.un(i), T(at_(a, i) op at_(b, i))) return b.un(i);)         \
      a op## = e;                                                                     \
      DONE(len(a))                                                                    \
   }                                                                                  \
   template <class A, class B> OB void name##2(A& a, const B& b) {                    \
      using T = decltype(at_(a, 0));                                                  \
      GHOST(T)                                                                        \
      auto order = irange(len(a));                                                    \
      auto e = generate(order.view2D(nr(a), nc(a)), [&](auto pos_) {                  \
         long i = pos_.val();                                                         \
         STEP(a.un(i), T(at_(a, i) op at_(b, i)))                                     \
         return b.un(i);                                                              \
      });                                                                             \
      a op## = e;                                                                     \
      DONE(len(a))                                                                    \
   }
COMPOUND(add, +)
COMPOUND(sub, -)
COMPOUND(mul, *)
COMPOUND(div, /)
COMPOUND(mod, %)
COMPOUND(shl, <<)
COMPOUND(shr, >>)
COMPOUND(band, &)
COMPOUND(bor, |)
COMPOUND(bxor, ^)
} // namespace eq

#define AB(f, T, ...)                                                                        \
   template OB void eq::f(Array1D<T>&, const Array1D<T>& __VA_OPT__(, ) __VA_ARGS__);        \
   template OB void eq::f(Array1D<T, Aligned>&, const Array1D<T>& __VA_OPT__(, ) __VA_ARGS__);
#define AB2(f, T, ...)                                                                        \
   template OB void eq::f(Array2D<T>&, const Array1D<T>& __VA_OPT__(, ) __VA_ARGS__);
#define BOTH(f, T) AB(f, T) AB2(f##2, T)
AB(assign, double)
AB(assign, float)
AB(assign, int)
AB(slice, double, long, long, long)
AB(slice, int, long, long, long)
template OB void eq::construct<Array1D<double>>(const Array1D<double>&, long);
template OB void eq::construct<Array1D<int, Aligned>>(const Array1D<int>&, long);
template OB void eq::construct0<Array1D<double>>();
template OB void eq::construct0<Array1D<double, Aligned>>();
template OB void eq::construct2<Array2D<double>>(const Array1D<double>&, long, long);
template OB void eq::construct2<Array2D<int, Aligned>>(const Array1D<int>&, long, long);
BOTH(add, double)
BOTH(sub, double)
BOTH(mul, double)
BOTH(div, double)
BOTH(add, int)
BOTH(sub, int)
BOTH(mul, int)
BOTH(mod, int)
BOTH(div, int)
BOTH(shl, int)
AB(shr, int)
AB2(shr2, unsigned)
BOTH(band, int)
BOTH(bor, int)
BOTH(bxor, int)
AB2(row, double, long)
AB2(col, double, long)
#ifndef SV_MODE_RV
AB2(flat, double, long)
#endif
AB2(row_add, double, long)
#ifndef SV_MODE_RV
AB2(col_add, double, long)
AB2(flat_add, double, long)
#endif
AB2(row, int, long)
AB2(col, int, long)
#ifndef SV_MODE_RV
AB2(flat, int, long)
#endif
AB2(diag, double)
AB2(assign2, double)
AB2(assign2, int)

// ---- fixed sizes, all element values
namespace total {
template <class T, long N> OB void copy1(const T* x) {
   auto a = make1<Array1D<T>>(x, N);
   Array1D<T> b(N);
   b = a;
   Array1D<T, Aligned> c(N);
   c = a;
   Array1D<T> d = a;
   Array1D<T, Aligned> f = a;
   PROVE(len(d) == N);
   PROVE(len(f) == N);
   for(long i = 0; i < N; ++i) {
      PROVE(same(at_(b, i), x[i]));
      PROVE(same(at_(c, i), x[i]));
      PROVE(same(at_(d, i), x[i]));
      PROVE(same(at_(f, i), x[i]));
      PROVE(same(at_(a, i), x[i]));
   }
   LIVE();
}
template <class A> OB void copyf(const A& b) {
   constexpr long n = A{}.size().val();
   A a;
   a = b;
   A c = b;
   A d;
   d = std::move(c);
   for(long i = 0; i < n; ++i) {
      PROVE(same(at_(a, i), at_(b, i)));
      PROVE(same(at_(d, i), at_(b, i)));
   }
   LIVE();
}
template <class A, class T> OB void fill(A& a, T v) {
   constexpr long n = A{}.size().val();
   a = S_<T>{v};
   for(long i = 0; i < n; ++i)
      PROVE(same(at_(a, i), v));
   LIVE();
}
template <class T, long N> OB void fill_dyn(T v) {
   Array1D<T> a(N, S_<T>{v});
   Array1D<T, Aligned> b(Size{N}, Value{S_<T>{v}});
   Array1D<T> c(N);
   c = S_<T>{v};
   for(long i = 0; i < N; ++i) {
      PROVE(same(at_(a, i), v));
      PROVE(same(at_(b, i), v));
      PROVE(same(at_(c, i), v));
   }
   LIVE();
}
template <class T, long M, long N> OB void fill_dyn2(T v) {
   Array2D<T> a(M, N, S_<T>{v});
   Array2D<T, Aligned> b(Rows{M}, Cols{N}, Value{S_<T>{v}});
   Array2D<T> c(M, N);
   c = S_<T>{v};
   PROVE(nr(a) == M);
   PROVE(nc(a) == N);
   PROVE(nr(b) == M);
   PROVE(nc(b) == N);
   for(long i = 0; i < M * N; ++i) {
      PROVE(same(at_(a, i), v));
      PROVE(same(at_(b, i), v));
      PROVE(same(at_(c, i), v));
   }
   LIVE();
}
// new elements of an array made without values are zero
template <class T, long N> OB void zeros() {
   Array1D<T> a(N);
   Array1D<T, Aligned> b(N);
   for(long i = 0; i < N; ++i) {
      PROVE(same(at_(a, i), T(0)));
      PROVE(same(at_(b, i), T(0)));
   }
   LIVE();
}
template <class T> OB void zeros2() {
   Array2D<T> a(2, 3);
   FixedArray1D<T, 7> b;
   FixedArray2D<T, 2, 3> c;
   for(long i = 0; i < 6; ++i) {
      PROVE(same(at_(a, i), T(0)));
      PROVE(same(at_(b, i + 1), T(0)));
      PROVE(same(at_(c, i), T(0)));
   }
   PROVE(same(at_(b, 0), T(0)));
   LIVE();
}
template <class T> OB void list1(T x, T y, T z) {
   using V = S_<T>;
   Array1D<T> a{V{x}, V{y}, V{z}};
   Array1D<T, Aligned> b(3);
   b = {V{x}, V{y}, V{z}};
   FixedArray1D<T, 3> c{V{x}, V{y}, V{z}};
   FixedArray1D<T, 3> d;
   d = {V{x}, V{y}, V{z}};
   PROVE(len(a) == 3);
   PROVE(same(at_(a, 0), x) & same(at_(a, 1), y) & same(at_(a, 2), z));
   PROVE(same(at_(b, 0), x) & same(at_(b, 1), y) & same(at_(b, 2), z));
   PROVE(same(at_(c, 0), x) & same(at_(c, 1), y) & same(at_(c, 2), z));
   PROVE(same(at_(d, 0), x) & same(at_(d, 1), y) & same(at_(d, 2), z));
   LIVE();
}
template <class T> OB void list2(T x, T y, T z) {
   using V = S_<T>;
   Array2D<T> a{{V{x}, V{y}, V{z}}, {V{z}, V{x}, V{y}}};
   FixedArray2D<T, 2, 3> b{{V{x}, V{y}, V{z}}, {V{z}, V{x}, V{y}}};
   FixedArray2D<T, 2, 3> c;
   c = {{V{x}, V{y}, V{z}}, {V{z}, V{x}, V{y}}};
   PROVE(nr(a) == 2);
   PROVE(nc(a) == 3);
   PROVE(same(at_(a, 0, 0), x) & same(at_(a, 0, 1), y) & same(at_(a, 0, 2), z));
   PROVE(same(at_(a, 1, 0), z) & same(at_(a, 1, 1), x) & same(at_(a, 1, 2), y));
   PROVE(same(at_(b, 0, 0), x) & same(at_(b, 0, 1), y) & same(at_(b, 0, 2), z));
   PROVE(same(at_(b, 1, 0), z) & same(at_(b, 1, 1), x) & same(at_(b, 1, 2), y));
   PROVE(same(at_(c, 0, 0), x) & same(at_(c, 0, 1), y) & same(at_(c, 0, 2), z));
   PROVE(same(at_(c, 1, 0), z) & same(at_(c, 1, 1), x) & same(at_(c, 1, 2), y));
   LIVE();
}
// a slice assigned from a scalar, a list, another slice: elements outside are untouched
template <class A, class T> OB void part(A& a, T v, T w) {       // 7 elements
   A b = a;
   auto d = a(seqN(1, 3, 2));
   d = S_<T>{v};
   PROVE(same(at_(a, 1), v) & same(at_(a, 3), v) & same(at_(a, 5), v));
   PROVE(same(at_(a, 0), at_(b, 0)) & same(at_(a, 2), at_(b, 2)));
   PROVE(same(at_(a, 4), at_(b, 4)) & same(at_(a, 6), at_(b, 6)));
   d = {S_<T>{w}, S_<T>{v}, S_<T>{w}};
   PROVE(same(at_(a, 1), w) & same(at_(a, 3), v) & same(at_(a, 5), w));
   PROVE(same(at_(a, 0), at_(b, 0)) & same(at_(a, 2), at_(b, 2)));
   PROVE(same(at_(a, 4), at_(b, 4)) & same(at_(a, 6), at_(b, 6)));
   d = b(seqN(0, 3, 2));
   PROVE(same(at_(a, 1), at_(b, 0)) & same(at_(a, 3), at_(b, 2)) & same(at_(a, 5), at_(b, 4)));
   PROVE(same(at_(a, 0), at_(b, 0)) & same(at_(a, 2), at_(b, 2)));
   LIVE();
}
template <class A, class T> OB void part2(A& a, T v) {           // 3 x 4
   A b = a;
   auto d = a(seqN(1, 2), seqN(0, 2, 2));
   d = S_<T>{v};
   for(long i = 0; i < 3; ++i)
      for(long j = 0; j < 4; ++j)
         PROVE(same(at_(a, i, j), i >= 1 && j % 2 == 0 ? v : at_(b, i, j)));
   d = b(seqN(0, 2), seqN(1, 2));
   for(long i = 0; i < 3; ++i)
      for(long j = 0; j < 4; ++j)
         PROVE(same(at_(a, i, j), i >= 1 && j % 2 == 0 ? at_(b, i - 1, 1 + j / 2) : at_(b, i, j)));
   LIVE();
}
#define SCALAR(name, op, cond)                                              \
   template <class A, class T> OB void name(A& a, T v) {                    \
      constexpr long n = A{}.size().val();                                  \
      REQUIRE(cond);                                                        \
      A b = a;                                                              \
      a op## = S_<T>{v};                                                    \
      for(long i = 0; i < n; ++i)                                           \
         PROVE(same(at_(a, i), T(at_(b, i) op v)));                         \
      LIVE();                                                               \
   }
SCALAR(s_add, +, true)
SCALAR(s_sub, -, true)
SCALAR(s_mul, *, true)
SCALAR(s_div, /, v != 0)
SCALAR(s_fdiv, /, true)
SCALAR(s_mod, %, v != 0)
SCALAR(s_band, &, true)
SCALAR(s_bor, |, true)
SCALAR(s_bxor, ^, true)
} // namespace total
namespace eq { // shifts: the elements may be rejected
SCALAR(s_shl, <<, true)
SCALAR(s_shr, >>, true)
}
template OB void total::copy1<double, 1>(const double*);
template OB void total::copy1<double, 2>(const double*);
template OB void total::copy1<double, 5>(const double*);
template OB void total::copy1<int, 9>(const int*);
template OB void total::copy1<long, 3>(const long*);
template OB void total::copy1<bool, 3>(const bool*);
#define FIX(f, T, ...)                                                            \
   template OB void total::f(FixedArray1D<T, 1>& __VA_OPT__(, ) __VA_ARGS__);     \
   template OB void total::f(FixedArray1D<T, 7>& __VA_OPT__(, ) __VA_ARGS__);     \
   template OB void total::f(FixedArray1D<T, 17>& __VA_OPT__(, ) __VA_ARGS__);    \
   template OB void total::f(FixedArray2D<T, 3, 4>& __VA_OPT__(, ) __VA_ARGS__);
#define FIX2(f, T)                                                                            \
   template OB void total::f(const FixedArray1D<T, 1>&);                 \
   template OB void total::f(const FixedArray1D<T, 17>&);               \
   template OB void total::f(const FixedArray2D<T, 3, 4>&);
FIX2(copyf, double)
FIX2(copyf, int)
FIX2(copyf, long)
FIX2(copyf, bool)
FIX(fill, double, double)
FIX(fill, int, int)
FIX(fill, bool, bool)
template OB void total::fill_dyn<double, 1>(double);
template OB void total::fill_dyn<double, 4>(double);
template OB void total::fill_dyn<int, 9>(int);
template OB void total::fill_dyn2<double, 1, 1>(double);
template OB void total::fill_dyn2<double, 3, 2>(double);
template OB void total::fill_dyn2<int, 2, 4>(int);
template OB void total::zeros<double, 4>();
template OB void total::zeros<int, 5>();
template OB void total::zeros<bool, 3>();
template OB void total::zeros2<double>();
template OB void total::zeros2<long>();
template OB void total::list1(double, double, double);
template OB void total::list1(int, int, int);
template OB void total::list2(double, double, double);
template OB void total::list2(long, long, long);
template OB void total::part(FixedArray1D<double, 7>&, double, double);
template OB void total::part(FixedArray1D<int, 7>&, int, int);
template OB void total::part2(FixedArray2D<double, 3, 4>&, double);
template OB void total::part2(FixedArray2D<int, 3, 4>&, int);
FIX(s_add, double, double)
FIX(s_sub, double, double)
FIX(s_mul, double, double)
FIX(s_fdiv, double, double)
FIX(s_add, int, int)
FIX(s_sub, int, int)
FIX(s_mul, int, int)
FIX(s_div, int, int)
FIX(s_mod, int, int)
FIX(s_band, int, int)
FIX(s_bor, int, int)
FIX(s_bxor, int, int)
template OB void eq::s_shl(FixedArray1D<int, 7>&, int);
template OB void eq::s_shr(FixedArray1D<int, 7>&, int);
template OB void eq::s_shl(FixedArray2D<int, 2, 2>&, int);
template OB void eq::s_shr(FixedArray2D<int, 2, 2>&, int);

namespace total {
// two-dimensional slices from named slices, expressions, owners and lists
template <class A, class T> OB void part2b(A& a, const FixedArray2D<T, 2, 2>& s0, T v, T w) {           // 3 x 4
   A b = a; auto s = s0;
   auto d = a(seqN(1, 2), seqN(0, 2, 2));
   const auto q = b(seqN(0, 2), seqN(1, 2));
   d = q;
   for(long i = 0; i < 3; ++i)
      for(long j = 0; j < 4; ++j)
         PROVE(same(at_(a, i, j), i >= 1 && j % 2 == 0 ? at_(b, i - 1, 1 + j / 2) : at_(b, i, j)));
   d = s;
   for(long i = 0; i < 3; ++i)
      for(long j = 0; j < 4; ++j)
         PROVE(same(at_(a, i, j), i >= 1 && j % 2 == 0 ? at_(s, i - 1, j / 2) : at_(b, i, j)));
   d = s + q;
   for(long i = 0; i < 3; ++i)
      for(long j = 0; j < 4; ++j)
         PROVE(same(at_(a, i, j), i >= 1 && j % 2 == 0 ? T(at_(s, i - 1, j / 2) + at_(b, i - 1, 1 + j / 2)) : at_(b, i, j)));
   d += s;
   d -= S_<T>{v};
   for(long i = 0; i < 3; ++i)
      for(long j = 0; j < 4; ++j)
         PROVE(same(at_(a, i, j), i >= 1 && j % 2 == 0
            ? T(T(T(at_(s, i - 1, j / 2) + at_(b, i - 1, 1 + j / 2)) + at_(s, i - 1, j / 2)) - v) : at_(b, i, j)));
   d = {{S_<T>{v}, S_<T>{w}}, {S_<T>{w}, S_<T>{v}}};
   for(long i = 0; i < 3; ++i)
      for(long j = 0; j < 4; ++j)
         PROVE(same(at_(a, i, j), i >= 1 && j % 2 == 0 ? ((i == 1) == (j == 0) ? v : w) : at_(b, i, j)));
   LIVE();
}
template <class A, class T> OB void part2c(A& a, const FixedArray1D<T, 4>& s0, T v, T w) {           // 3 x 4
   A b = a; auto s = s0;
   a.row(1) = {S_<T>{v}, S_<T>{w}, S_<T>{v}, S_<T>{w}};
   a.col(2) = {S_<T>{w}, S_<T>{v}, S_<T>{w}};
   for(long i = 0; i < 3; ++i)
      for(long j = 0; j < 4; ++j)
         PROVE(same(at_(a, i, j), j == 2 ? (i == 1 ? v : w) : i == 1 ? (j % 2 ? w : v) : at_(b, i, j)));
   auto r = a.row(0);
   const auto t = b.row(2);
   r = t;
   a.row(2) = s;
   a.diag() = S_<T>{v};
   LIVE();
   for(long i = 0; i < 3; ++i)
      for(long j = 0; j < 4; ++j)
         PROVE(same(at_(a, i, j), i == j ? v : i == 0 ? at_(b, 2, j) : i == 2 ? at_(s, j) : j == 2 ? v : (j % 2 ? w : v)));
}
template <class A, class T> OB void part1b(A& a, const FixedArray1D<T, 3>& s0, T v, T w) {       // 7 elements
   A b = a; auto s = s0;
   auto d = a(seqN(1, 3, 2));
   const auto q = b(seqN(0, 3, 2));
   d = q;
   for(long i = 0; i < 7; ++i)
      PROVE(same(at_(a, i), i % 2 ? at_(b, i - 1) : at_(b, i)));
   d = s;
   for(long i = 0; i < 7; ++i)
      PROVE(same(at_(a, i), i % 2 ? at_(s, i / 2) : at_(b, i)));
   d = s + q;
   for(long i = 0; i < 7; ++i)
      PROVE(same(at_(a, i), i % 2 ? T(at_(s, i / 2) + at_(b, i - 1)) : at_(b, i)));
   LIVE();
}
template <class A, class T> OB void part1l(A& a, const FixedArray1D<T, 3>& s0, T v, T w) {       // 7 elements, listed
   A b = a; auto s = s0;
   auto d = a({5, 0, 2});
   d = s;
   for(long i = 0; i < 7; ++i)
      PROVE(same(at_(a, i), i == 5 ? at_(s, 0) : i == 0 ? at_(s, 1) : i == 2 ? at_(s, 2) : at_(b, i)));
   d = {S_<T>{w}, S_<T>{v}, S_<T>{w}};
   for(long i = 0; i < 7; ++i)
      PROVE(same(at_(a, i), i == 5 ? w : i == 0 ? v : i == 2 ? w : at_(b, i)));
   LIVE();
}
}
template OB void total::part2b(FixedArray2D<double, 3, 4>&, const FixedArray2D<double, 2, 2>&, double, double);
template OB void total::part2b(FixedArray2D<int, 3, 4>&, const FixedArray2D<int, 2, 2>&, int, int);
template OB void total::part2c(FixedArray2D<double, 3, 4>&, const FixedArray1D<double, 4>&, double, double);
template OB void total::part2c(FixedArray2D<long, 3, 4>&, const FixedArray1D<long, 4>&, long, long);
template OB void total::part1b(FixedArray1D<double, 7>&, const FixedArray1D<double, 3>&, double, double);
template OB void total::part1b(FixedArray1D<int, 7>&, const FixedArray1D<int, 3>&, int, int);
template OB void total::part1l(FixedArray1D<double, 7>&, const FixedArray1D<double, 3>&, double, double);

namespace eq { // a slice of m rows from r0 and n columns from c0, with strides
#define SLICE2(name, op, now)                                                                                                                         \
template <class A, class B> OB void name(A& a, const B& b, long r0, long m, long rs, long c0, long n, long cs) {                                      \
   using T = decltype(at_(a, 0));                                                                                                                     \
   REQUIRE(nr(a) > 0 && nc(a) > 0 && nr(a) < BOUND && nc(a) < BOUND);                                                                                 \
   REQUIRE(r0 >= 0 && c0 >= 0 && r0 < BOUND && c0 < BOUND);                                                                                           \
   REQUIRE(m > 0 && n > 0 && m < BOUND && n < BOUND);                                                                                                 \
   REQUIRE(rs > 0 && cs > 0 && rs < BOUND && cs < BOUND);                                                                                             \
   auto d = a(seqN(r0, m, rs), seqN(c0, n, cs));                                                                                                      \
   GHOST(T)                                                                                                                                           \
   auto im = irange(m), in_ = irange(n); auto um = const1D(m, 1_sl), un_ = const1D(n, 1_sl); auto tr = tensor_prod(im, un_); auto tc = tensor_prod(um, in_);\
   auto e = generate(tr, tc, [&](auto r_, auto c_) {                                                                                                  \
       long r = r_.val(), c = c_.val();                                                                                                               \
       long i = r * n + c;                                                                                                                            \
       auto& x = a.un(r0 + r * rs, c0 + c * cs); STEP(x, T(now)) return b.un(i);});                                                                   \
   d op e;                                                                                                                                            \
   DONE(m * n)                                                                                                                                        \
}
SLICE2(slice2, =, at_(b, i))
}
template OB void eq::slice2(Array2D<double>&, const Array1D<double>&, long, long, long, long, long, long);
template OB void eq::slice2(Array2D<int>&, const Array1D<int>&, long, long, long, long, long, long);

namespace total { // a list of one empty row is the empty array
template <class T> OB void list_empty() {
   Array2D<T> a{{}};
   PROVE(nr(a) == 0 && nc(a) == 0 && len(a) == 0);
   use::List2D<S_<T>> l{{}};
   Array2D<T> b = l;
   PROVE(nr(b) == 0 && nc(b) == 0 && len(b) == 0);
   b = {{}};
   PROVE(nr(b) == 0 && nc(b) == 0 && len(b) == 0);
   FixedArray2D<T, 0, 0> f{{}};
   f = {{}};
   PROVE(nr(f) == 0 && nc(f) == 0 && len(f) == 0);
   LIVE();
}
}
template OB void total::list_empty<double>();
template OB void total::list_empty<int>();
