// Random values lie in the requested range, are not zero where that is promised, fill every element of every array
// given and nothing else; impossible ranges are rejected. The engines and distributions of the standard library are
// replaced by the model of rnd.hpp.
#include "rnd.hpp"
#include "sv.hpp"
using namespace spp;
using namespace spp::place;

namespace guard {
#define BAD(name, cond, ...)                                                          \
   template <class T> OB void name##_order(T l, T h, long n) {                        \
      REQUIRE(!(l <= h));                                                             \
      S_<T> low{l}, high{h};                                                          \
      __VA_ARGS__;                                                                    \
      FAIL();                                                                         \
   }
#define BAD0(name, ...)                                                               \
   template <class T> OB void name##_zeros(T l, T h, long n) {                        \
      REQUIRE(l == 0 && h == 0);                                                      \
      S_<T> low{l}, high{h};                                                          \
      __VA_ARGS__;                                                                    \
      FAIL();                                                                         \
   }
BAD(rands_s, , keep(rands(low, high)))
BAD(rands_t, , keep(rands(Low{low}, High{high})))
BAD(rands_not0_s, , keep(rands_not0(low, high)))
BAD(rands_not0_t, , keep(rands_not0(Low{low}, High{high})))
BAD(semi_rands_s, , keep(semi_rands(low, high)))
BAD(semi_rands_t, , keep(semi_rands(Low{low}, High{high})))
BAD(semi_rands_not0_s, , keep(semi_rands_not0(low, high)))
BAD(semi_rands_not0_t, , keep(semi_rands_not0(Low{low}, High{high})))
BAD0(rands_not0_s, keep(rands_not0(low, high)))
BAD0(rands_not0_t, keep(rands_not0(Low{low}, High{high})))
BAD0(semi_rands_not0_s, keep(semi_rands_not0(low, high)))
BAD0(semi_rands_not0_t, keep(semi_rands_not0(Low{low}, High{high})))
#define FILL(f)                                                                                        \
   BAD(f##_a, , FixedArray1D<T, 4> a; f(a, low, high); keep(a))                                             \
   BAD(f##_at, , FixedArray1D<T, 4> a; f(a, Low{low}, High{high}); keep(a))                                 \
   BAD(f##_b, , FixedArray2D<T, 2, 3> a; f(a, low, high); keep(a))
#define FILL2(f)                                                                                       \
   BAD(f##_ab, , FixedArray1D<T, 4> a; FixedArray2D<T, 2, 2> b; f(a, b, low, high); keep(a))                     \
   BAD(f##_abt, , FixedArray1D<T, 4> a; FixedArray2D<T, 2, 2> b; f(a, b, Low{low}, High{high}); keep(a))
#define LAZY(f)                                                                                        \
   BAD(f##_1, , keep(f<T>(n, low, high)))                                                              \
   BAD(f##_1t, , keep(f<T>(Size{n}, Low{low}, High{high})))                                            \
   BAD(f##_2, , keep(f<T>(n, n, low, high)))                                                           \
   BAD(f##_2t, , keep(f<T>(Rows{n}, Cols{n}, Low{low}, High{high})))
FILL(random) FILL(random_not0) FILL(semi_random) FILL(semi_random_not0) FILL2(random) FILL2(random_not0)
LAZY(random) LAZY(random_not0) LAZY(semi_random) LAZY(semi_random_not0)
#undef BAD
#define BAD(name, cond, ...) BAD0(name, __VA_ARGS__)
FILL(random_not0) FILL(semi_random_not0) FILL2(random_not0) LAZY(random_not0) LAZY(semi_random_not0)
} // namespace guard
#define REALS(f, ...)                                                                                  \
   template OB void guard::f##_order(double, double, long); template OB void guard::f##_order(int, int, long);        \
   template OB void guard::f##_order(unsigned, unsigned, long); template OB void guard::f##_order(float, float, long);
#define ZEROS(f) template OB void guard::f##_zeros(double, double, long); template OB void guard::f##_zeros(int, int, long); \
   template OB void guard::f##_zeros(unsigned long, unsigned long, long);
#define BOTH(f) REALS(f) ZEROS(f)
#define EACHF(M, N) M(rands_s) M(rands_t) M(semi_rands_s) M(semi_rands_t) N(rands_not0_s) N(rands_not0_t) N(semi_rands_not0_s) \
   N(semi_rands_not0_t) M(random_a) M(random_at) M(random_b) M(semi_random_a) M(semi_random_at) M(semi_random_b)               \
   N(random_not0_a) N(random_not0_at) N(random_not0_b) N(semi_random_not0_a) N(semi_random_not0_at) N(semi_random_not0_b)      \
   M(random_ab) M(random_abt) N(random_not0_ab) N(random_not0_abt)                                                             \
   M(random_1) M(random_1t) M(random_2) M(random_2t) M(semi_random_1) M(semi_random_1t) M(semi_random_2) M(semi_random_2t)     \
   N(random_not0_1) N(random_not0_1t) N(random_not0_2) N(random_not0_2t)                                                       \
   N(semi_random_not0_1) N(semi_random_not0_1t) N(semi_random_not0_2) N(semi_random_not0_2t)
EACHF(REALS, BOTH)

namespace total {
template <class T> bool in(S_<T> x, T l, T h) { return x.val() >= l && x.val() <= h; }
template <class T> bool in0(S_<T> x, T l, T h) { return x.val() >= l && x.val() <= h && x.val() != 0; }
#define RANGE REQUIRE(l <= h); S_<T> low{l}, high{h};
template <class T> OB void scalar(T l, T h) {
   RANGE
   PROVE(in(rands(low, high), l, h));
   PROVE(in(rands(Low{low}, High{high}), l, h));
   PROVE(in(rands<T>(), T{0}, T{1}));
   LIVE();
}
template <class T> OB void scalar0(T l, T h) {
   RANGE
   REQUIRE(l != 0 || h != 0);
   PROVE(in0(rands_not0(low, high), l, h));
   PROVE(in0(rands_not0(Low{low}, High{high}), l, h));
   PROVE(in0(rands_not0<T>(), T{0}, T{1}));
   LIVE();
}
#define LAZIES(f, in)                                                          \
template <class T> OB void f##_lazy(T l, T h, long n, long i) {                \
   RANGE                                                                       \
   REQUIRE(l != 0 || h != 0);                                                  \
   REQUIRE(n > 0 && i >= 0 && i < n);                                          \
   auto a = f<T>(n, low, high);                                                \
   PROVE(len(a) == n);                                                         \
   PROVE(in(a.un(i), l, h));                                                   \
   auto b = f<T>(Size{n}, Low{low}, High{high});                               \
   PROVE(len(b) == n);                                                         \
   PROVE(in(b.un(i), l, h));                                                   \
   auto c = f<T>(n);                                                           \
   PROVE(len(c) == n);                                                         \
   PROVE(in(c.un(i), T{0}, T{1}));                                             \
   auto d = f<T>(Size{n});                                                     \
   PROVE(len(d) == n);                                                         \
   PROVE(in(d.un(i), T{0}, T{1}));                                             \
   LIVE();                                                                     \
}                                                                              \
template <class T> OB void f##_lazy2(T l, T h, long m, long n, long i, long j) {       \
   RANGE                                                                       \
   REQUIRE(l != 0 || h != 0);                                                  \
   REQUIRE(m > 0 && n > 0 && i >= 0 && i < m && j >= 0 && j < n);              \
   auto a = f<T>(m, n, low, high);                                             \
   PROVE(nr(a) == m && nc(a) == n);                                            \
   PROVE(in(a.un(i, j), l, h));                                                \
   auto b = f<T>(Rows{m}, Cols{n}, Low{low}, High{high});                      \
   PROVE(nr(b) == m && nc(b) == n);                                            \
   PROVE(in(b.un(i, j), l, h));                                                \
   auto c = f<T>(m, n);                                                        \
   PROVE(nr(c) == m && nc(c) == n);                                            \
   PROVE(in(c.un(i, j), T{0}, T{1}));                                          \
   auto d = f<T>(Rows{m}, Cols{n});                                            \
   PROVE(nr(d) == m && nc(d) == n);                                            \
   PROVE(in(d.un(i, j), T{0}, T{1}));                                          \
   LIVE();                                                                     \
}
LAZIES(random, in)
LAZIES(random_not0, in0)
#define FILLS(f, in)                                                           \
template <class A, class T> OB void f##_fill(A& a, T l, T h) {                 \
   RANGE                                                                       \
   REQUIRE(l != 0 || h != 0);                                                  \
   constexpr long n = A{}.size().val();                                        \
   f(a, low, high);                                                            \
   for(long i = 0; i < n; ++i)                                                 \
      PROVE(in(a.un(i), l, h));                                                \
   LIVE();                                                                     \
}                                                                              \
template <class A, class T> OB void f##_fill_tag(A& a, T l, T h) {             \
   RANGE                                                                       \
   REQUIRE(l != 0 || h != 0);                                                  \
   constexpr long n = A{}.size().val();                                        \
   f(a, Low{low}, High{high});                                                 \
   for(long i = 0; i < n; ++i)                                                 \
      PROVE(in(a.un(i), l, h));                                                \
   LIVE();                                                                     \
}                                                                              \
template <class A, class T> OB void f##_fill01(A& a, T) {                      \
   constexpr long n = A{}.size().val();                                        \
   f(a);                                                                       \
   for(long i = 0; i < n; ++i)                                                 \
      PROVE(in(a.un(i), T{0}, T{1}));                                          \
   LIVE();                                                                     \
}                                                                              \
template <class T> OB void f##_dyn(const T* x, T l, T h) {                     \
   RANGE                                                                       \
   REQUIRE(l != 0 || h != 0);                                                  \
   auto a = make1<Array1D<T>>(x, 4);                                           \
   f(a, low, high);                                                            \
   for(long i = 0; i < 4; ++i)                                                 \
      PROVE(in(a.un(i), l, h));                                                \
   auto b = make2<Array2D<T, Aligned>>(x, 2, 2);                               \
   f(b, low, high);                                                            \
   for(long i = 0; i < 4; ++i)                                                 \
      PROVE(in(b.un(i), l, h));                                                \
   LIVE();                                                                     \
}                                                                              \
template <class A, class T> OB void f##_part(A& a0, T l, T h) {  /* 7 elements */ \
   RANGE                                                                       \
   REQUIRE(l != 0 || h != 0);                                                  \
   A a = a0, o = a0;                                                           \
   f(a(seqN(1, 3, 2)), low, high);                                             \
   for(long i = 0; i < 7; ++i)                                                 \
      if(i % 2)                                                                \
         PROVE(in(a.un(i), l, h));                                             \
      else                                                                     \
         PROVE(same(at_(a, i), at_(o, i)));                                    \
   LIVE();                                                                     \
}
#define PACKS(f, in)                                                           \
template <class A, class B, class T> OB void f##_two(A& a0, B& b0, T l, T h) { \
   RANGE                                                                       \
   REQUIRE(l != 0 || h != 0);                                                  \
   A a = a0;                                                                   \
   B b = b0;                                                                   \
   f(a, b, low, high);                                                         \
   for(long i = 0; i < len(a); ++i)                                            \
      PROVE(in(a.un(i), l, h));                                                \
   for(long i = 0; i < len(b); ++i)                                            \
      PROVE(in(b.un(i), l, h));                                                \
   A c = a0;                                                                   \
   B d = b0;                                                                   \
   f(c, d, Low{low}, High{high});                                              \
   for(long i = 0; i < len(c); ++i)                                            \
      PROVE(in(c.un(i), l, h));                                                \
   for(long i = 0; i < len(d); ++i)                                            \
      PROVE(in(d.un(i), l, h));                                                \
   A g = a0;                                                                   \
   B k = b0;                                                                   \
   f(g, k);                                                                    \
   for(long i = 0; i < len(g); ++i)                                            \
      PROVE(in(g.un(i), T{0}, T{1}));                                          \
   for(long i = 0; i < len(k); ++i)                                            \
      PROVE(in(k.un(i), T{0}, T{1}));                                          \
   LIVE();                                                                     \
}                                                                              \
template <class A, class T> OB void f##_three(A& a0, T l, T h) {               \
   RANGE                                                                       \
   REQUIRE(l != 0 || h != 0);                                                  \
   A a = a0, b = a0, c = a0;                                                   \
   f(a, b, c, low, high);                                                      \
   for(long i = 0; i < len(a); ++i)                                            \
      PROVE(in(a.un(i), l, h) && in(b.un(i), l, h) && in(c.un(i), l, h));      \
   LIVE();                                                                     \
}
FILLS(random, in)
FILLS(random_not0, in0)
PACKS(random, in)
PACKS(random_not0, in0)
} // namespace eq
#define SC(T) template OB void total::scalar(T, T); template OB void total::scalar0(T, T);                             \
   template OB void total::random_lazy(T, T, long, long); template OB void total::random_not0_lazy(T, T, long, long);  \
   template OB void total::random_lazy2(T, T, long, long, long, long);                                              \
   template OB void total::random_not0_lazy2(T, T, long, long, long, long);                                         \
   template OB void total::random_dyn(const T*, T, T); template OB void total::random_not0_dyn(const T*, T, T);        \
   template OB void total::random_part(FixedArray1D<T, 7>&, T, T); template OB void total::random_not0_part(FixedArray1D<T, 7>&, T, T);
#define FX(f, T) template OB void total::f(FixedArray1D<T, 1>&, T, T); template OB void total::f(FixedArray1D<T, 7>&, T, T);   \
   template OB void total::f(FixedArray2D<T, 3, 4>&, T, T);
#define FT(T) FX(random_fill, T) FX(random_not0_fill, T) FX(random_fill_tag, T) FX(random_not0_fill_tag, T)      \
   FX(random_three, T) FX(random_not0_three, T)                                                                  \
   template OB void total::random_two(FixedArray1D<T, 3>&, FixedArray2D<T, 2, 2>&, T, T);                           \
   template OB void total::random_not0_two(FixedArray1D<T, 3>&, FixedArray2D<T, 2, 2>&, T, T);                      \
   template OB void total::random_fill01(FixedArray1D<T, 5>&, T); template OB void total::random_fill01(FixedArray2D<T, 2, 3>&, T); \
   template OB void total::random_not0_fill01(FixedArray1D<T, 5>&, T);
SC(double) SC(int) SC(float) SC(long) SC(unsigned)
FT(double) FT(int)

// semi_random: a deterministic sequence.
namespace total {
template <class T, int L, int H> OB void semi_range(unsigned s, long n, long i) {
   const S_<T> low{T(L)}, high{T(H)};
   const Seed seed{s};
   PROVE(in(semi_rands(low, high, seed), T(L), T(H)));
   PROVE(in(semi_rands(Low{low}, High{high}, seed), T(L), T(H)));
   PROVE(in(semi_rands(low, high), T(L), T(H)));
   PROVE(in(semi_rands<T>(seed), T(0), T(1)));
   REQUIRE(n > 0 && i >= 0 && i < n);
   auto a = semi_random<T>(n, low, high, seed);
   PROVE(len(a) == n);
   PROVE(in(a.un(i), T(L), T(H)));
   auto b = semi_random<T>(Size{n}, Low{low}, High{high}, seed);
   PROVE(len(b) == n);
   PROVE(in(b.un(i), T(L), T(H)));
   auto c = semi_random<T>(n, seed);
   PROVE(len(c) == n);
   PROVE(in(c.un(i), T(0), T(1)));
   LIVE();
}
template <class T, int L, int H> OB void semi_range0(unsigned s, long n, long i) {
   const S_<T> low{T(L)}, high{T(H)};
   const Seed seed{s};
   PROVE(in0(semi_rands_not0(low, high, seed), T(L), T(H)));
   PROVE(in0(semi_rands_not0(Low{low}, High{high}, seed), T(L), T(H)));
   REQUIRE(n > 0 && i >= 0 && i < n);
   auto a = semi_random_not0<T>(n, low, high, seed);
   PROVE(len(a) == n);
   PROVE(in0(a.un(i), T(L), T(H)));
   auto b = semi_random_not0<T>(Size{n}, Low{low}, High{high}, seed);
   PROVE(len(b) == n);
   PROVE(in0(b.un(i), T(L), T(H)));
   LIVE();
}
template <class T> OB void semi_bool(unsigned s, long m, long n, long i, long j) {
   REQUIRE(m > 0 && n > 0 && i >= 0 && i < m && j >= 0 && j < n);
   auto a = semi_random<bool>(m, n, Seed{s});
   PROVE(nr(a) == m && nc(a) == n);
   bool x = a.un(i, j).val();
   PROVE(x == false || x == true);
   auto c = semi_random<T>(m, n, S_<T>{T(1)}, S_<T>{T(6)}, Seed{s});
   PROVE(nr(c) == m && nc(c) == n);
   PROVE(in(c.un(i, j), T(1), T(6)));
   auto d = semi_random_not0<T>(Rows{m}, Cols{n}, Low<T>{S_<T>{T(0)}}, High<T>{S_<T>{T(6)}}, Seed{s});
   PROVE(nr(d) == m && nc(d) == n);
   PROVE(in0(d.un(i, j), T(0), T(6)));
   LIVE();
}
template <class A, class T, int L, int H> OB void semi_fill(A& a0, A& c0, unsigned s) {
   const S_<T> low{T(L)}, high{T(H)};
   constexpr long n = A{}.size().val();
   A a = a0, b = a0, c = c0;
   semi_random(a, low, high, Seed{s});
   for(long i = 0; i < n; ++i)
      PROVE(in(a.un(i), T(L), T(H)));
   semi_random(c, Low{low}, High{high}, Seed{s});
   for(long i = 0; i < n; ++i)
      PROVE(same(at_(a, i), at_(c, i)));
   semi_random_not0(b, low, high, Seed{s});
   for(long i = 0; i < n; ++i)
      PROVE(in0(b.un(i), T(L), T(H)));
   LIVE();
}
// The same seed gives the same values.
template <class A, class T> OB void semi_repeat(A& a0, A& b0, T l, T h, unsigned s) {
   RANGE
   constexpr long n = A{}.size().val();
   A a = a0, b = b0;
   semi_random(a, low, high, Seed{s});
   semi_random(b, Low{low}, High{high}, Seed{s});
   for(long i = 0; i < n; ++i)
      PROVE(same(at_(a, i), at_(b, i)));
   const T x = semi_rands(low, high, Seed{s}).val();
   PROVE(same(x, semi_rands(Low{low}, High{high}, Seed{s}).val()));
   LIVE();
}
}
#define SEMI(T) template OB void total::semi_range<T, 0, 9>(unsigned, long, long); template OB void total::semi_range<T, 3, 1000>(unsigned, long, long);   \
   template OB void total::semi_range<T, 7, 7>(unsigned, long, long); template OB void total::semi_range0<T, 0, 9>(unsigned, long, long);                  \
   template OB void total::semi_range0<T, 3, 1000>(unsigned, long, long); template OB void total::semi_bool<T>(unsigned, long, long, long, long);          \
   template OB void total::semi_fill<FixedArray1D<T, 3>, T, 2, 8>(FixedArray1D<T, 3>&, FixedArray1D<T, 3>&, unsigned);                                      \
   template OB void total::semi_fill<FixedArray2D<T, 2, 2>, T, 2, 8>(FixedArray2D<T, 2, 2>&, FixedArray2D<T, 2, 2>&, unsigned);
SEMI(int) SEMI(long) SEMI(unsigned) SEMI(unsigned long)
template OB void total::semi_range<int, -5, 4>(unsigned, long, long); template OB void total::semi_range<long, -5, -2>(unsigned, long, long);
template OB void total::semi_range0<int, -5, 4>(unsigned, long, long);
#define SREP(T) template OB void total::semi_repeat(FixedArray1D<T, 3>&, FixedArray1D<T, 3>&, T, T, unsigned); \
   template OB void total::semi_repeat(FixedArray2D<T, 2, 2>&, FixedArray2D<T, 2, 2>&, T, T, unsigned);
SREP(double) SREP(float)
