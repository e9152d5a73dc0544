// engine: unroll
// Reading takes exactly the values of the input, in order, into an array of their number (or shape); malformed or ragged
// input is rejected and leaves the array as it was. Printing writes every element once, in order, in the chosen format.
#include "io.hpp"
#include "sv.hpp"
using namespace spp;
template <class T> using U1 = Array1D<T>;
template <class T> using G1 = Array1D<T, Aligned>;
template <class T> using U2 = Array2D<T>;
template <class T> using G2 = Array2D<T, Aligned>;
#define LOCAL(v, n)               \
   T v[(n) + 1];                  \
   for(long i = 0; i < (n); ++i)  \
      v[i] = v##0[i]
template <long... K> struct Lines {
   static constexpr long count = sizeof...(K);
   static constexpr long l[sizeof...(K) + 1] = {K..., 0};
   static constexpr long values = (0 + ... + (K < 0 ? 0 : K));
   static constexpr long rows = (0 + ... + (K > 0));
   static constexpr long cols() {
      for(long k : l)
         if(k > 0)
            return k;
      return 0;
   }
};
#define STREAM(bad_)                                                     \
   std::svio_istream s;                                                  \
   s.vals = v, s.n = N, s.cut = Cut, s.malformed = bad_

namespace total {
template <class A, long N, bool Cut, class T> OB void read1(const T* v0, const T* w0) {
   LOCAL(v, N);
   LOCAL(w, 2);
   auto a = make1<A>(w, 2);
   STREAM(-1);
   s >> a;
   PROVE(len(a) == N);
   for(long i = 0; i < N; ++i)
      PROVE(same(at_(a, i), v[i]));
   PROVE(s.good());
   LIVE();
}
template <class A, class L, bool Cut, class T> OB void read2(const T* v0, const T* w0) {
   constexpr long N = L::values;
   LOCAL(v, N);
   LOCAL(w, 2);
   auto a = make2<A>(w, 1, 2);
   STREAM(-1);
   s.lines = L::l, s.nlines = L::count;
   s >> a;
   PROVE(nr(a) == L::rows && nc(a) == L::cols() && len(a) == N);
   for(long i = 0; i < N; ++i)
      PROVE(same(at_(a, i), v[i]));
   LIVE();
}
template <class T, bool Cut> OB void read0(const T* v0) {
   constexpr long N = 2;
   LOCAL(v, N);
   STREAM(-1);
   S_<T> x{}, y{};
   s >> x >> y;
   PROVE(same(x.val(), v[0]) && same(y.val(), v[1]));
   LIVE();
}
} // namespace total
namespace eq {
template <class A, long N, class T> OB void file1(const T* v0, const T* w0) {
   constexpr bool Cut = false;
   LOCAL(v, N);
   LOCAL(w, 2);
   auto a = make1<A>(w, 2);
   svio::file = {v, N, -1, Cut, nullptr, 0};
   read_from_file("f", a);
   PROVE(len(a) == N);
   for(long i = 0; i < N; ++i)
      PROVE(same(at_(a, i), v[i]));
   LIVE();
}
template <class A, class L, class T> OB void file2(const T* v0, const T* w0) {
   constexpr long N = L::values;
   LOCAL(v, N);
   LOCAL(w, 2);
   auto a = make2<A>(w, 1, 2);
   svio::file = {v, N, -1, true, L::l, L::count};
   read_from_file("f", a);
   PROVE(nr(a) == L::rows && nc(a) == L::cols() && len(a) == N);
   for(long i = 0; i < N; ++i)
      PROVE(same(at_(a, i), v[i]));
   LIVE();
}
} // namespace eq
#ifdef __cpp_exceptions
#define TRY(...)                                                         \
   try {                                                                 \
      __VA_ARGS__;                                                       \
   } catch(...) {                                                        \
      UNCHANGED;                                                         \
      return;                                                            \
   }                                                                     \
   if(svio::can_open<2>())\
      FAIL()
#else
#define TRY(...)                                                         \
   __VA_ARGS__;                                                          \
   if(svio::can_open<2>()) /* so that the call is not in a block without return, where it is not inlined */ \
      FAIL()
#endif
namespace guard {
#define UNCHANGED PROVE(len(a) == 2 && same(at_(a, 0), w[0]) && same(at_(a, 1), w[1]))
template <class A, long N, long B, bool Cut, class T> OB void bad1(const T* v0, const T* w0) {
   LOCAL(v, N);
   LOCAL(w, 2);
   auto a = make1<A>(w, 2);
   STREAM(B);
   TRY(s >> a);
}
template <class A, long N, long B, class T> OB void bad_file1(const T* v0, const T* w0) {
   LOCAL(v, N);
   LOCAL(w, 2);
   auto a = make1<A>(w, 2);
   svio::file = {v, N, B, false, nullptr, 0};
   TRY(read_from_file("f", a));
}
template <class A, class T> OB void no_file1(const T* w0) {
   LOCAL(w, 2);
   auto a = make1<A>(w, 2);
   REQUIRE(!svio::can_open<0>());
   TRY(read_from_file("f", a));
}
template <class A, class T> OB void no_output1(const T* w0) {
   LOCAL(w, 2);
   auto a = make1<A>(w, 2);
   REQUIRE(!svio::can_open<1>());
   TRY(print_to_file("f", a));
}
#undef UNCHANGED
#define UNCHANGED PROVE(nr(a) == 1 && nc(a) == 2 && len(a) == 2 && same(at_(a, 0), w[0]) && same(at_(a, 1), w[1]))
template <class A, class L, long B, bool Cut, class T> OB void bad2(const T* v0, const T* w0) {
   constexpr long N = L::values;
   LOCAL(v, N);
   LOCAL(w, 2);
   auto a = make2<A>(w, 1, 2);
   STREAM(B);
   s.lines = L::l, s.nlines = L::count;
   TRY(s >> a);
}
template <class A, class L, long B, class T> OB void bad_file2(const T* v0, const T* w0) {
   constexpr long N = L::values;
   LOCAL(v, N);
   LOCAL(w, 2);
   auto a = make2<A>(w, 1, 2);
   svio::file = {v, N, B, false, L::l, L::count};
   TRY(read_from_file("f", a));
}
template <class A, class T> OB void no_file2(const T* w0) {
   LOCAL(w, 2);
   auto a = make2<A>(w, 1, 2);
   REQUIRE(!svio::can_open<0>());
   TRY(read_from_file("f", a));
}
#undef UNCHANGED
#define UNCHANGED PROVE(same(x.val(), w))
template <class T, long N, bool Cut> OB void bad0(const T* v0, T w) {  // the first value is malformed, or there is none
   LOCAL(v, N);
   STREAM(0);
   S_<T> x{w};
   TRY(s >> x);
}
} // namespace guard
#define R1(A, T, N) template OB void total::read1<A<T>, N, false>(const T*, const T*); template OB void total::read1<A<T>, N, true>(const T*, const T*);
#define R1S(A, T) R1(A, T, 0) R1(A, T, 1) R1(A, T, 2) R1(A, T, 7) R1(A, T, 8) R1(A, T, 9)                           \
   template OB void eq::file1<A<T>, 3>(const T*, const T*); template OB void guard::no_file1<A<T>>(const T*); template OB void guard::no_output1<A<T>>(const T*);
R1S(U1, double) R1S(G1, double) R1S(U1, int) R1S(U1, unsigned long) R1S(G1, bool) R1S(U1, float)
#define B1(A, T, N, B) template OB void guard::bad1<A<T>, N, B, false>(const T*, const T*); template OB void guard::bad1<A<T>, N, B, true>(const T*, const T*);
#define B1S(A, T) B1(A, T, 1, 0) B1(A, T, 3, 0) B1(A, T, 3, 1) B1(A, T, 3, 2) B1(A, T, 9, 8) B1(A, T, 8, 7) B1(A, T, 10, 8) template OB void guard::bad_file1<A<T>, 3, 1>(const T*, const T*);
B1S(U1, double) B1S(G1, double) B1S(U1, int) B1S(U1, bool)
#define R2(A, T, ...) template OB void total::read2<A<T>, Lines<__VA_ARGS__>, false>(const T*, const T*); template OB void total::read2<A<T>, Lines<__VA_ARGS__>, true>(const T*, const T*);
#define R2S(A, T) R2(A, T) R2(A, T, -1) R2(A, T, 1) R2(A, T, 3) R2(A, T, 5) R2(A, T, 2, 2) R2(A, T, 3, 3) R2(A, T, 1, 1, 1) R2(A, T, -1, 2, 2) R2(A, T, 2, -1, 2) \
   R2(A, T, 2, -1, -1) R2(A, T, 0, 2, 2) R2(A, T, 0) R2(A, T, 4, 4) R2(A, T, 2, -1, 2, -1, 2)                                            \
   template OB void eq::file2<A<T>, Lines<3, 3>>(const T*, const T*); template OB void guard::no_file2<A<T>>(const T*);
R2S(U2, double) R2S(G2, double) R2S(U2, int)
#define B2(A, T, B, ...) template OB void guard::bad2<A<T>, Lines<__VA_ARGS__>, B, false>(const T*, const T*); template OB void guard::bad2<A<T>, Lines<__VA_ARGS__>, B, true>(const T*, const T*);
#define B2S(A, T) B2(A, T, 0, 1) B2(A, T, 0, 2) B2(A, T, 1, 2) B2(A, T, 0, 2, 2) B2(A, T, 1, 2, 2) B2(A, T, 2, 2, 2) B2(A, T, 3, 2, 2)       \
   B2(A, T, -1, 2, 1) B2(A, T, -1, 2, 3) B2(A, T, -1, 1, 2) B2(A, T, -1, 3, 3, 2) B2(A, T, -1, 2, 2, 3) B2(A, T, -1, 2, 4) B2(A, T, -1, 1, 4) B2(A, T, -1, 2, 2, 4)     \
   template OB void guard::bad_file2<A<T>, Lines<2, 2>, 3>(const T*, const T*); template OB void guard::bad_file2<A<T>, Lines<2, 3>, -1>(const T*, const T*);
B2S(U2, double) B2S(G2, double) B2S(U2, int)
#define R0(T) template OB void total::read0<T, false>(const T*); template OB void total::read0<T, true>(const T*); template OB void guard::bad0<T, 1, false>(const T*, T); \
   template OB void guard::bad0<T, 1, true>(const T*, T); template OB void guard::bad0<T, 0, true>(const T*, T); template OB void guard::bad0<T, 2, false>(const T*, T);
R0(bool) R0(int) R0(long) R0(unsigned) R0(unsigned long) R0(float) R0(double) R0(long double)
