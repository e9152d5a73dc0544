// P09: iterators over elements, rows, columns and index pairs obey the laws of random access (index pairs: forward)
// iteration, in both directions, and reject misuse.
#include "sv.hpp"
#include <iterator>
using namespace spp;
#define C ,
// element iterators: begin, cbegin, rbegin, crbegin and their ends.
// where: position k from begin, the element it stands for
template <class X> inline bool is(const X& x, auto&& y) { return same(x.val(), y.val()); }
#define POS long i = 0;
namespace total {
template <class A> OB void deref(A& a, long k) {
   REQUIRE(k >= 0 && k < len(a));
   PROVE(is(*(a.begin() + k), a.un(k)));
   PROVE(is(a.begin()[k], a.un(k)));
   PROVE(is(*(k + a.begin()), a.un(k)));
   PROVE(is(*(a.cbegin() + k), a.un(k)));
   PROVE(is(a.cbegin()[k], a.un(k)));
   PROVE(is(*(k + a.cbegin()), a.un(k)));
   LIVE();
}
template <class A> OB void deref_end(A& a, long k) {
   REQUIRE(k >= 0 && k < len(a));
   PROVE(is(*(a.end() - (len(a) - k)), a.un(k)));
   PROVE(is(*(a.cend() - (len(a) - k)), a.un(k)));
   PROVE(is(a.end()[k - len(a)], a.un(k)));
   PROVE(is(a.cend()[k - len(a)], a.un(k)));
   LIVE();
}
template <class A> OB void address(A& a, long k) {
   REQUIRE(k >= 0 && k < len(a));
   PROVE(&*(a.begin() + k) == &a.un(k));
   PROVE(&a.begin()[k] == &a.un(k));
   PROVE((a.begin() + k).operator->() == &a.un(k));
   PROVE(&*(a.cbegin() + k) == &a.un(k));
   PROVE(&a.cbegin()[k] == &a.un(k));
   PROVE((a.cbegin() + k).operator->() == &a.un(k));
   LIVE();
}
template <class A> OB void reverse_at(A& a, long k) {
   REQUIRE(k >= 0);
   REQUIRE(len(a) - 1 - k >= 0);
   REQUIRE(k < len(a));
   REQUIRE(len(a) - 1 - k < len(a));
   PROVE(is(*(a.rbegin() + k), a.un(len(a) - 1 - k)));
   PROVE(is(*(a.crbegin() + k), a.un(len(a) - 1 - k)));
   PROVE(is(*(a.rend() - (k + 1)), a.un(k)));
   PROVE(is(*(a.crend() - (k + 1)), a.un(k)));
   PROVE(a.rend() - a.rbegin() == len(a));
   PROVE(a.crend() - a.crbegin() == len(a));
   LIVE();
}
// the arithmetic of positions
template <class B, class E> inline void arithmetic(B b, E e, long n, long i, long k) {
   PROVE(e - b == n);
   PROVE((b + i) - b == i);
   PROVE((i + b) - b == i);
   PROVE((b - i) - b == -i);
   PROVE((b + i) - (b + k) == i - k);
   PROVE((b + i) + k == b + (i + k));
   PROVE((b + i) - k == b + (i - k));
   auto x = b;
   PROVE((x += i) - b == i);
   PROVE(x - b == i);
   PROVE((x -= k) - b == i - k);
   PROVE(x - b == i - k);
   auto y = b + i;
   PROVE((++y) - b == i + 1);
   PROVE(y - b == i + 1);
   PROVE((y++) - b == i + 1);
   PROVE(y - b == i + 2);
   PROVE((--y) - b == i + 1);
   PROVE(y - b == i + 1);
   PROVE((y--) - b == i + 1);
   PROVE(y - b == i);
   auto z = b;
   z = y;
   PROVE(z - b == i);
}
template <class B> inline void order(B b, long i, long k) {
   PROVE((b + i == b + k) == (i == k));
   PROVE((b + i != b + k) == (i != k));
   PROVE((b + i < b + k) == (i < k));
   PROVE((b + i <= b + k) == (i <= k));
   PROVE((b + i > b + k) == (i > k));
   PROVE((b + i >= b + k) == (i >= k));
}
template <class A> OB void laws(A& a, long i, long k) {
   arithmetic(a.begin(), a.end(), len(a), i, k);
   order(a.begin(), i, k);
   LIVE();
}
template <class A> OB void const_laws(A& a, long i, long k) {
   arithmetic(a.cbegin(), a.cend(), len(a), i, k);
   order(a.cbegin(), i, k);
   LIVE();
}
// a range-for loop meets every element once, in order
template <class A> OB void loop(A& a) {
   REQUIRE(len(a) >= 0);
   long k = 0;
   for(auto it = a.begin(); it != a.end(); ++it) {
      PROVE(it - a.begin() == k);
      ++k;
   }
   PROVE(k == len(a));
   LIVE();
}
} // namespace total
namespace guard {
#define BAD(name, params, cond, ...)                       \
   template <class A> OB void name(A& a params) {          \
      REQUIRE(cond);                                       \
      __VA_ARGS__;                                         \
      FAIL();                                              \
   }
BAD(deref_low, C long k, k < 0, keep(*(a.begin() + k)))
BAD(deref_high, C long k, k >= len(a), keep(*(a.begin() + k)))
BAD(cderef_low, C long k, k < 0, keep(*(a.cbegin() + k)))
BAD(cderef_high, C long k, k >= len(a), keep(*(a.cbegin() + k)))
BAD(sub_low, C long i C long k, i + k < 0, keep((a.begin() + i)[k]))
BAD(sub_high, C long i C long k, i + k >= len(a), keep((a.begin() + i)[k]))
BAD(csub_low, C long i C long k, i + k < 0, keep((a.cbegin() + i)[k]))
BAD(csub_high, C long i C long k, i + k >= len(a), keep((a.cbegin() + i)[k]))
BAD(end_deref, , len(a) >= 0, keep(*a.end()))
BAD(cend_deref, , len(a) >= 0, keep(*a.cend()))
BAD(rend_deref, , len(a) >= 0, keep(*a.rend()))
BAD(rbegin_empty, , len(a) == 0, keep(*a.rbegin()))
BAD(arrow_low, C long k, k < 0, keep((a.begin() + k).operator->()))
BAD(arrow_high, C long k, k >= len(a), keep((a.begin() + k).operator->()))
BAD(carrow_low, C long k, k < 0, keep((a.cbegin() + k).operator->()))
BAD(carrow_high, C long k, k >= len(a), keep((a.cbegin() + k).operator->()))
// iterators of different arrays, or of no array
#define MIX(name, ...)                                                                             \
   template <class A> OB void name##_mix(A& a, A& b) {                                             \
      REQUIRE(&a != &b);                                                                           \
      auto x = a.begin(), y = b.begin();                                                           \
      keep(__VA_ARGS__);                                                                           \
      FAIL();                                                                                      \
   }                                                                                               \
   template <class A> OB void name##_cmix(A& a, A& b) {                                            \
      REQUIRE(&a != &b);                                                                           \
      auto x = a.cbegin(), y = b.cbegin();                                                         \
      keep(__VA_ARGS__);                                                                           \
      FAIL();                                                                                      \
   }                                                                                               \
   template <class A> OB void name##_left(A& a) {                                                  \
      decltype(a.begin()) x;                                                                       \
      auto y = a.begin();                                                                          \
      keep(__VA_ARGS__);                                                                           \
      FAIL();                                                                                      \
   }                                                                                               \
   template <class A> OB void name##_cleft(A& a) {                                                 \
      decltype(a.cbegin()) x;                                                                      \
      auto y = a.cbegin();                                                                         \
      keep(__VA_ARGS__);                                                                           \
      FAIL();                                                                                      \
   }                                                                                               \
   template <class A> OB void name##_right(A& a) {                                                 \
      decltype(a.cbegin()) y;                                                                      \
      auto x = a.cbegin();                                                                         \
      keep(__VA_ARGS__);                                                                           \
      FAIL();                                                                                      \
   }                                                                                               \
   template OB void name##_mix(Array1D<double>&, Array1D<double>&);                                \
   template OB void name##_cmix(Array1D<double>&, Array1D<double>&);                               \
   template OB void name##_left(Array1D<double>&);                                                 \
   template OB void name##_cleft(Array1D<double>&);                                                \
   template OB void name##_right(Array1D<double>&);
MIX(minus, x - y) MIX(eq, x == y) MIX(ne, x != y) MIX(lt, x < y) MIX(le, x <= y) MIX(gt, x > y) MIX(ge, x >= y)
// no operation on an iterator of no array
#define NONE(name, ...)                              \
   template <class A> OB void name##_none(long k) {  \
      decltype(std::declval<A&>().begin()) x;        \
      __VA_ARGS__;                                   \
      FAIL();                                        \
   }                                                 \
   template OB void name##_none<Array1D<double>>(long); template OB void name##_none<const Array1D<double>>(long);
NONE(inc, keep(++x)) NONE(dec, keep(--x)) NONE(post_inc, keep(x++)) NONE(post_dec, keep(x--)) NONE(add_to, keep(x += k))
NONE(sub_from, keep(x -= k)) NONE(add, keep(x + k)) NONE(add_left, keep(k + x)) NONE(sub, keep(x - k)) NONE(at, keep(x[k]))
NONE(star, keep(*x)) NONE(arrow, keep(x.operator->()))
} // namespace guard
using AL = Array1D<double, Aligned>;
using E1 = decltype(std::declval<const Array1D<double>&>() + std::declval<const Array1D<double>&>());
using R1 = decltype(std::declval<Array2D<double>&>().row(0));
using CR1 = decltype(std::declval<const Array2D<double>&>().row(0));
using S1 = decltype(std::declval<Array1D<double>&>()(place::even));
using B2 = decltype(std::declval<Array2D<double>&>()(place::all, place::even));
#define OWN(f, ...)                                                                                           \
   template OB void f(Array1D<double>& __VA_ARGS__); template OB void f(const Array1D<int>& __VA_ARGS__);     \
   template OB void f(AL& __VA_ARGS__); template OB void f(FixedArray1D<float, 7>& __VA_ARGS__);              \
   template OB void f(const FixedArray1D<long, 1>& __VA_ARGS__); template OB void f(Array2D<double>& __VA_ARGS__); \
   template OB void f(const Array2D<int>& __VA_ARGS__);
#define SLI(f, ...)                                                                                           \
   template OB void f(R1& __VA_ARGS__); template OB void f(CR1& __VA_ARGS__); template OB void f(S1& __VA_ARGS__); \
   template OB void f(const S1& __VA_ARGS__);
#define LAZ(f, ...) template OB void f(E1& __VA_ARGS__); template OB void f(const E1& __VA_ARGS__);
#define ALL(f, ...) OWN(f, __VA_ARGS__) SLI(f, __VA_ARGS__) LAZ(f, __VA_ARGS__)
ALL(total::deref, C long) ALL(total::deref_end, C long) OWN(total::address, C long) SLI(total::address, C long)
ALL(total::reverse_at, C long) ALL(total::laws, C long C long) ALL(total::const_laws, C long C long) ALL(total::loop)
ALL(guard::deref_low, C long) ALL(guard::deref_high, C long) ALL(guard::cderef_low, C long) ALL(guard::cderef_high, C long)
ALL(guard::sub_low, C long C long) ALL(guard::sub_high, C long C long)
ALL(guard::csub_low, C long C long) ALL(guard::csub_high, C long C long)
ALL(guard::end_deref) ALL(guard::cend_deref) template OB void guard::rbegin_empty(Array1D<double>&); template OB void guard::rbegin_empty(const Array2D<int>&); template OB void guard::rbegin_empty(S1&);
OWN(guard::arrow_low, C long) OWN(guard::arrow_high, C long) SLI(guard::carrow_low, C long) SLI(guard::carrow_high, C long)
// rows and columns
namespace eq { // which row or column; that a valid one is accepted is P07
#define LINE(It, n, m, elem, which)                                       \
   template <class A> OB void which##_at(A& a, long i, long j) {          \
      REQUIRE(nr(a) > 0 && nc(a) > 0);                                    \
      REQUIRE(i >= 0 && i < n(a) && j >= 0 && j < m(a));                  \
      auto it = It{a};                                                    \
      auto x = *(it.begin() + i);                                         \
      PROVE(len(x) == m(a));                                              \
      PROVE(&x.un(j) == &elem);                                           \
      auto y = it.begin()[i];                                             \
      PROVE(len(y) == m(a));                                              \
      PROVE(&y.un(j) == &elem);                                           \
      auto z = *(it.cbegin() + i);                                        \
      PROVE(len(z) == m(a));                                              \
      PROVE(&z.un(j) == &elem);                                           \
      auto w = *(it.end() - (n(a) - i));                                  \
      PROVE(&w.un(j) == &elem);                                           \
      auto v = *(it.cend() - (n(a) - i));                                 \
      PROVE(&v.un(j) == &elem);                                           \
      LIVE();                                                             \
   }                                                                      \
   template <class A> OB void which##_rev(A& a, long k, long i, long j) { \
      REQUIRE(nr(a) > 0 && nc(a) > 0);                                    \
      REQUIRE(k >= 0 && n(a) - 1 - k >= 0 && n(a) - 1 - k < n(a));        \
      REQUIRE(i == n(a) - 1 - k);                                         \
      REQUIRE(j >= 0 && j < m(a));                                        \
      auto it = It{a};                                                    \
      auto x = *(it.rbegin() + k);                                        \
      PROVE(len(x) == m(a));                                              \
      PROVE(&x.un(j) == &elem);                                           \
      auto z = *(it.crbegin() + k);                                       \
      PROVE(&z.un(j) == &elem);                                           \
      PROVE(it.rend() - it.rbegin() == n(a));                             \
      PROVE(it.crend() - it.crbegin() == n(a));                           \
      LIVE();                                                             \
   }
LINE(RowIt, nr, nc, a.un(i, j), rows)
LINE(ColIt, nc, nr, a.un(j, i), cols)
} // namespace eq
namespace total {
#define LINELAW(It, n, which) \
   template <class A> OB void which##_laws(A& a, long i, long k) {        \
      auto it = It{a};                                                    \
      arithmetic(it.begin(), it.end(), n(a), i, k);                       \
      order(it.begin(), i, k);                                            \
      arithmetic(it.cbegin(), it.cend(), n(a), i, k);                     \
      order(it.cbegin(), i, k);                                           \
      LIVE();                                                             \
   }                                                                      \
   template <class A> OB void which##_loop(A& a) {                        \
      REQUIRE(n(a) >= 0);                                                 \
      long k = 0;                                                         \
      auto r = It{a};                                                     \
      for(auto it = r.begin(); it != r.end(); ++it)                       \
         ++k;                                                             \
      PROVE(k == n(a));                                                   \
      LIVE();                                                             \
   }
LINELAW(RowIt, nr, rows)
LINELAW(ColIt, nc, cols)
} // namespace total
namespace guard {
#define LINEG(It, n, m, which)                                            \
   template <class A> OB void which##_low(A& a, long i) {                 \
      REQUIRE(i < 0);                                                     \
      auto it = It{a};                                                    \
      keep(*(it.begin() + i));                                            \
      FAIL();                                                             \
   }                                                                      \
   template <class A> OB void which##_high(A& a, long i) {                \
      REQUIRE(i >= n(a));                                                 \
      auto it = It{a};                                                    \
      keep(*(it.begin() + i));                                            \
      FAIL();                                                             \
   }                                                                      \
   template <class A> OB void which##_chigh(A& a, long i) {               \
      REQUIRE(i >= n(a));                                                 \
      auto it = It{a};                                                    \
      keep(it.cbegin()[i]);                                               \
      FAIL();                                                             \
   }                                                                      \
   template <class A> OB void which##_mix(A& a, A& b) {                   \
      REQUIRE(&a != &b);                                                  \
      auto x = It{a}, y = It{b};                                          \
      keep(x.begin() == y.begin());                                       \
      FAIL();                                                             \
   }
LINEG(RowIt, nr, nc, rows)
LINEG(ColIt, nc, nr, cols)
} // namespace guard
#define TWO(f, ...)                                                                                           \
   template OB void f(Array2D<double>& __VA_ARGS__); template OB void f(const Array2D<int>& __VA_ARGS__);     \
   template OB void f(FixedArray2D<float, 7, 3>& __VA_ARGS__); template OB void f(const FixedArray2D<long, 2, 5>& __VA_ARGS__);
#define SUB2(f, ...) template OB void f(B2& __VA_ARGS__);
TWO(eq::rows_at, C long C long) TWO(eq::cols_at, C long C long)
TWO(eq::rows_rev, C long C long C long) TWO(eq::cols_rev, C long C long C long)
TWO(total::rows_laws, C long C long) TWO(total::cols_laws, C long C long) TWO(total::rows_loop) TWO(total::cols_loop)
TWO(guard::rows_low, C long) TWO(guard::rows_high, C long) TWO(guard::rows_chigh, C long)
TWO(guard::cols_low, C long) TWO(guard::cols_high, C long) TWO(guard::cols_chigh, C long)
SUB2(total::rows_laws, C long C long) SUB2(total::cols_laws, C long C long) SUB2(total::rows_loop) SUB2(total::cols_loop)
SUB2(guard::rows_low, C long) SUB2(guard::rows_high, C long) SUB2(guard::cols_low, C long) SUB2(guard::cols_chigh, C long)
template OB void guard::rows_mix(Array2D<double>&, Array2D<double>&);
template OB void guard::cols_mix(const Array2D<double>&, const Array2D<double>&);
// pairs of indices
using PI = decltype(std::declval<const IndexRange2D&>().begin());
#define L_(x) S_<long>{x}
namespace total {
OB void range_begin(long m, long n) {
   REQUIRE(m > 0 && n > 0);
   auto [i, j] = *IndexRange2D{m, n}.begin();
   PROVE(i.val() == 0);
   PROVE(j.val() == 0);
   LIVE();
}
OB void step_within(long m, long n, long i, long j) {
   REQUIRE(m > 0 && n > 0 && i >= 0 && i < m && j >= 0 && j + 1 >= 0 && j + 1 < n);
   PI p{L_(i), L_(j), L_(m), L_(n)};
   auto [x, y] = *p;
   PROVE(x.val() == i);
   PROVE(y.val() == j);
   ++p;
   auto [z, w] = *p;
   PROVE(z.val() == i);
   PROVE(w.val() == j + 1);
   LIVE();
}
OB void step_next_row(long m, long n, long i) {
   REQUIRE(m > 0 && n > 0 && i >= 0 && i + 1 >= 0 && i + 1 < m && n - 1 >= 0);
   PI p{L_(i), L_(n - 1), L_(m), L_(n)};
   ++p;
   auto [z, w] = *p;
   PROVE(z.val() == i + 1);
   PROVE(w.val() == 0);
   LIVE();
}
OB void step_end(long m, long n) {
   REQUIRE(m > 0 && n > 0 && n - 1 >= 0 && m - 1 >= 0);
   PI p{L_(m - 1), L_(n - 1), L_(m), L_(n)};
   ++p;
   PROVE(bool{p == IndexRange2D(m, n).end()});
   PROVE(!bool{p != IndexRange2D(m, n).end()});
   LIVE();
}
OB void not_end(long m, long n, long i, long j) {
   REQUIRE(m > 0 && n > 0 && i >= 0 && i < m && j >= 0 && j < n);
   PI p{L_(i), L_(j), L_(m), L_(n)};
   PROVE(bool{p != IndexRange2D(m, n).end()});
   PROVE(!bool{p == IndexRange2D(m, n).end()});
   LIVE();
}
OB void range_of(const Array2D<double>& a) {
   REQUIRE(nr(a) > 0 && nc(a) > 0);
   PROVE(bool{IndexRange2D(a).begin() == IndexRange2D(nr(a), nc(a)).begin()});
   PROVE(bool{IndexRange2D(a).end() == IndexRange2D(nr(a), nc(a)).end()});
   LIVE();
}
template <long M, long N> OB void walk() {
   long k = 0;
   for(auto [i, j] : IndexRange2D{M, N}) {
      PROVE(i.val() == k / N);
      PROVE(j.val() == k % N);
      ++k;
   }
   PROVE(k == M * N);
   LIVE();
}
template OB void walk<1, 1>(); template OB void walk<2, 3>(); template OB void walk<3, 2>(); template OB void walk<1, 4>();
template OB void walk<4, 1>();
OB void walk_empty() {
   long k = 0;
   for([[maybe_unused]] auto p : IndexRange2D{0, 0})
      ++k;
   PROVE(k == 0);
   LIVE();
}
OB void post(long m, long n, long j) {
   REQUIRE(m > 0 && n > 0 && j >= 0 && j + 1 >= 0 && j + 1 < n);
   PI p{L_(0L), L_(j), L_(m), L_(n)};
   auto q = p++;
   auto [z, w] = *q;
   PROVE(z.val() == 0);
   PROVE(w.val() == j);
   auto [x, y] = *p;
   PROVE(x.val() == 0);
   PROVE(y.val() == j + 1);
   LIVE();
}
} // namespace total
namespace guard {
#define PLANE(name, params, cond, ...) \
   OB void name params {               \
      REQUIRE(cond);                   \
      __VA_ARGS__;                     \
      FAIL();                          \
   }
PLANE(range_rows, (long m, long n), m < 0, keep(IndexRange2D{m, n}))
PLANE(range_cols, (long m, long n), n < 0, keep(IndexRange2D{m, n}))
PLANE(range_semi1, (long m), m != 0, keep(IndexRange2D{m, 0}))
PLANE(range_semi2, (long m), m != 0, keep(IndexRange2D{0, m}))
PLANE(range_past, (long m, long n), m > 0 && n > 0, auto p = IndexRange2D(m, n).end(); ++p; keep(p))
PLANE(range_star, (long m, long n), m > 0 && n > 0, auto p = *IndexRange2D(m, n).end(); keep(p))
PLANE(range_mix_rows, (long m, long n, long k), k != m, keep(IndexRange2D(m, n).begin() == IndexRange2D(k, n).begin()))
PLANE(range_mix_cols, (long m, long n, long k), k != n, keep(IndexRange2D(m, n).begin() != IndexRange2D(m, k).begin()))
PLANE(range_assign, (long m, long n, long k), k != n, auto p = IndexRange2D(m, n).begin(); p = IndexRange2D(m, k).begin(); keep(p))
} // namespace guard
