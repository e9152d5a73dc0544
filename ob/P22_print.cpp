// engine: unroll
// Printing writes every element once, in order, with its sign and in the chosen format, and the separators of the chosen
// style; what is printed does not depend on what the elements are part of (array, slice or expression).
#include "io.hpp"
#include "sv.hpp"
using namespace spp;
#define LOCAL(v, n)               \
   T v[(n) + 1];                  \
   for(long i = 0; i < (n); ++i)  \
      v[i] = v##0[i]
struct Out : std::svio_ostream {  // what is expected
   Out& text(const char* s) {
      write(s, static_cast<long>(__builtin_strlen(s)));
      return *this;
   }
};
enum How { SCIENTIFIC, FIXED };
template <How H, class T> void expect(Out& w, T x, long p) {
   if constexpr(std::is_same_v<T, bool>)
      w.text(x ? "true" : "false");
   else if constexpr(std::is_integral_v<T>)
      w.put_(svio::number<T>(x, svio::POS, 0));
   else
      w.put_(svio::number<T>(x, svio::POS | svio::POINT | (H == SCIENTIFIC ? svio::SCI : svio::FIX), p));
}
template <How H> void set(long p) {
   format.reset().scientific(H == SCIENTIFIC).precision(Strict{p});
   array_format.reset();
}
#define SAME(a, b)                           \
   PROVE((a).n == (b).n);                    \
   for(long k_ = 0; k_ < (b).n; ++k_)        \
   PROVE((a).ev[k_] == (b).ev[k_])
#define PRECISION REQUIRE(p0 >= 0 && p0 < 100); const long p = p0
template <int S, How H, class T> void expect1(Out& w, const T* v, long n, long p) { // S: 0 column, 1 row, 2 and 3 with positions
   for(long i = 0; i < n; ++i) {
      if(S >= 2) {
         w.text("[");
         w.put_(svio::number<unsigned long>(static_cast<unsigned long>(i), svio::POS, 0));
         w.text("] = ");
      }
      expect<H>(w, v[i], p);
      w.text(S % 2 == 0 ? "\n" : i < n - 1 ? " " : "");
   }
   if(S % 2)
      w.text("\n");
}
template <int S, How H, class T> void expect2(Out& w, const T* v, long m, long n, long p) {
   for(long i = 0; i < m; ++i) {
      for(long j = 0; j < n; ++j) {
         if(S >= 2) {
            w.text("[");
            w.put_(svio::number<unsigned long>(static_cast<unsigned long>(i), svio::POS, 0));
            w.text(", ");
            w.put_(svio::number<unsigned long>(static_cast<unsigned long>(j), svio::POS, 0));
            w.text("] = ");
         }
         expect<H>(w, v[i * n + j], p);
         if(j < n - 1)
            w.text(" ");
      }
      w.text("\n");
   }
}
template <int S> void style() {
   if(S % 2)
      array_format.row_style();
   else
      array_format.col_style();
   array_format.detailed(S >= 2);
}
namespace total {
template <class T, How H> OB void scalar(const T* v0, long p0) {
   LOCAL(v, 2);
   PRECISION;
   set<H>(p);
   S_<T> x{v[0]}, y{v[1]};
   std::svio_ostream os;
   os << x << '|' << y;
   Out w;
   expect<H>(w, v[0], p);
   w.text("|");
   expect<H>(w, v[1], p);
   SAME(os, w);
   svio::out.reset();
   print(x, "x");
   printn(x, "y");
   print(x, y);
   printn(y, x);
   Out u;
   u.text("x:\n"), expect<H>(u, v[0], p), u.text("\n");
   u.text("y:\n"), expect<H>(u, v[0], p), u.text("\n\n");
   expect<H>(u, v[0], p), u.text("\n"), expect<H>(u, v[1], p), u.text("\n");
   expect<H>(u, v[1], p), u.text("\n"), expect<H>(u, v[0], p), u.text("\n\n");
   SAME(svio::out, u);
   LIVE();
}
template <class T, bool A, bool B> OB void boolean() {
   T v[2] = {A, B};
   S_<T> x{v[0]}, y{v[1]};
   std::svio_ostream os;
   os << x << '|' << y;
   Out w;
   w.text(A ? "true|" : "false|").text(B ? "true" : "false");
   SAME(os, w);
   Array1D<T> a(2);
   a.un(0) = x;
   a.un(1) = y;
   array_format.reset();
   std::svio_ostream o1;
   o1 << a;
   Out w1;
   w1.text(A ? "true\n" : "false\n").text(B ? "true\n" : "false\n");
   SAME(o1, w1);
   Array2D<T> b(1, 2);
   b.un(0, 0) = x;
   b.un(0, 1) = y;
   std::svio_ostream o2;
   o2 << b;
   Out w2;
   w2.text(A ? "true " : "false ").text(B ? "true\n" : "false\n");
   SAME(o2, w2);
   LIVE();
}
template <class T> OB void defaults(const T* v0) { // every type has its own precision
   LOCAL(v, 1);
   format.reset();
   S_<T> x{v[0]};
   std::svio_ostream os;
   os << x;
   Out w;
   expect<SCIENTIFIC>(w, v[0], std::numeric_limits<T>::digits10 + 1);
   SAME(os, w);
   PROVE(format.is_scientific().val() && format.template precision<T>().val() == std::numeric_limits<T>::digits10 + 1);
   LIVE();
}
template <int K> OB void precisions(long p0, long q0, long r0) { // each is set alone
   REQUIRE(p0 >= 0 && p0 < 100 && q0 >= 0 && q0 < 100 && r0 >= 0 && r0 < 100);
   format.precision_float(Strict{p0}).precision_double(Strict{q0}).precision_long_double(Strict{r0}).scientific(K == 1);
   PROVE(format.precision<float>().val() == p0 && format.precision<double>().val() == q0);
   PROVE(format.precision<long double>().val() == r0 && format.is_scientific().val() == (K == 1));
   std::svio_ostream os;
   os << Strict{1.F} << Strict{1.} << Strict{1.L};
   Out w;
   expect<K == 1 ? SCIENTIFIC : FIXED>(w, 1.F, p0);
   expect<K == 1 ? SCIENTIFIC : FIXED>(w, 1., q0);
   expect<K == 1 ? SCIENTIFIC : FIXED>(w, 1.L, r0);
   SAME(os, w);
   LIVE();
}
template <class A, long N, int S, How H, class T> OB void print1(const T* v0, long p0) {
   LOCAL(v, N);
   PRECISION;
   auto a = make1<A>(v, N);
   set<H>(p);
   style<S>();
   std::svio_ostream os;
   os << a;
   Out w;
   expect1<S, H>(w, v, N, p);
   SAME(os, w);
   LIVE();
}
template <class A, long N, How H, class T> OB void file1(const T* v0, long p0) {
   LOCAL(v, N);
   PRECISION;
   REQUIRE(svio::can_open<1>());
   auto a = make1<A>(v, N);
   set<H>(p);
   print_to_file("f", a);
   Out w;
   expect1<0, H>(w, v, N, p);
   SAME(svio::written, w);
   print_to_file("f", a, "name");
   Out u;
   u.text("name:\n");
   expect1<0, H>(u, v, N, p);
   SAME(svio::written, u);
   LIVE();
}
template <class A, long N, How H, class T> OB void console1(const T* v0, long p0) {
   LOCAL(v, N);
   PRECISION;
   auto a = make1<A>(v, N);
   set<H>(p);
   svio::out.reset();
   print(a, "ab");
   printn(a, "c");
   Out w;
   w.text("ab:\n"), expect1<0, H>(w, v, N, p);
   w.text("c:\n"), expect1<0, H>(w, v, N, p), w.text("\n");
   SAME(svio::out, w);
   svio::out.reset();
   auto b = make1<A>(v, 1);
   print(a, b);
   print(b);
   printn(a, b);
   Out u;
   expect1<0, H>(u, v, N, p), u.text("\n"), expect1<0, H>(u, v, 1, p);
   expect1<0, H>(u, v, 1, p);
   expect1<0, H>(u, v, N, p), u.text("\n"), expect1<0, H>(u, v, 1, p), u.text("\n");
   SAME(svio::out, u);
   LIVE();
}
template <class A, long N, int S, class T> OB void part1(const T* v0, long p0) { // slices and expressions
   LOCAL(v, N);
   PRECISION;
   auto a = make1<A>(v, N);
   set<SCIENTIFIC>(p);
   style<S>();
   T r[N + 1], e[N + 1];
   for(long i = 0; i < N; ++i)
      r[i] = v[N - 1 - i], e[i] = static_cast<T>(v[i] + v[i]);
   std::svio_ostream o1, o2, o3;
   o1 << a(place::reverse);
   o2 << a + a;
   o3 << a(place::skipN{2});
   Out w1, w2, w3;
   expect1<S, SCIENTIFIC>(w1, r, N, p);
   expect1<S, SCIENTIFIC>(w2, e, N, p);
   T k[N + 1];
   for(long i = 0; 2 * i < N; ++i)
      k[i] = v[2 * i];
   expect1<S, SCIENTIFIC>(w3, k, (N + 1) / 2, p);
   SAME(o1, w1);
   SAME(o2, w2);
   SAME(o3, w3);
   LIVE();
}
template <class A, long M, long N, int S, How H, class T> OB void print2(const T* v0, long p0) {
   LOCAL(v, M * N);
   PRECISION;
   auto a = make2<A>(v, M, N);
   set<H>(p);
   style<S>();
   std::svio_ostream os;
   os << a;
   Out w;
   expect2<S, H>(w, v, M, N, p);
   SAME(os, w);
   LIVE();
}
template <class A, long M, long N, How H, class T> OB void console2(const T* v0, long p0) {
   LOCAL(v, M * N);
   PRECISION;
   REQUIRE(svio::can_open<1>());
   auto a = make2<A>(v, M, N);
   set<H>(p);
   svio::out.reset();
   print(a, "ab");
   printn(a);
   Out w;
   w.text("ab:\n"), expect2<0, H>(w, v, M, N, p);
   expect2<0, H>(w, v, M, N, p), w.text("\n");
   SAME(svio::out, w);
   print_to_file("f", a);
   Out u;
   expect2<0, H>(u, v, M, N, p);
   SAME(svio::written, u);
   LIVE();
}
template <class A, class T> OB void part2(const T* v0, long p0) {
   LOCAL(v, 6);
   PRECISION;
   auto a = make2<A>(v, 2, 3);
   set<SCIENTIFIC>(p);
   T t[6], e[6], r[3], c[2];
   for(long i = 0; i < 2; ++i)
      for(long j = 0; j < 3; ++j)
         t[j * 2 + i] = v[i * 3 + j], e[i * 3 + j] = static_cast<T>(v[i * 3 + j] + v[i * 3 + j]);
   for(long j = 0; j < 3; ++j)
      r[j] = v[3 + j];
   for(long i = 0; i < 2; ++i)
      c[i] = v[3 * i + 1];
   std::svio_ostream o1, o2, o3, o4;
   o1 << transpose(a);
   o2 << a + a;
   o3 << a.row(1);
   o4 << a.col(1);
   Out w1, w2, w3, w4;
   expect2<0, SCIENTIFIC>(w1, t, 3, 2, p);
   expect2<0, SCIENTIFIC>(w2, e, 2, 3, p);
   expect1<0, SCIENTIFIC>(w3, r, 3, p);
   expect1<0, SCIENTIFIC>(w4, c, 2, p);
   SAME(o1, w1);
   SAME(o2, w2);
   SAME(o3, w3);
   SAME(o4, w4);
   LIVE();
}
} // namespace total
template <class T> using U1 = Array1D<T>;
template <class T> using G1 = Array1D<T, Aligned>;
template <class T> using U2 = Array2D<T>;
template <class T> using G2 = Array2D<T, Aligned>;
#define I0(T) template OB void total::scalar<T, SCIENTIFIC>(const T*, long);
I0(int) I0(long) I0(unsigned) I0(unsigned long) I0(float) I0(double) I0(long double)
#define F0(T) template OB void total::scalar<T, FIXED>(const T*, long); template OB void total::defaults<T>(const T*);
F0(float) F0(double) F0(long double)
template OB void total::boolean<bool, false, true>();
template OB void total::boolean<bool, true, false>();
template OB void total::boolean<bool, true, true>();
template OB void total::precisions<0>(long, long, long);
template OB void total::precisions<1>(long, long, long);
#define P1(A, T, N, S, H) template OB void total::print1<A<T>, N, S, H>(const T*, long);
#define P1S(A, T, H) P1(A, T, 1, 0, H) P1(A, T, 2, 0, H) P1(A, T, 3, 0, H) P1(A, T, 4, 0, H) P1(A, T, 5, 0, H) P1(A, T, 1, 1, H) P1(A, T, 2, 1, H) P1(A, T, 3, 1, H) P1(A, T, 4, 1, H) P1(A, T, 5, 1, H) \
   P1(A, T, 1, 2, H) P1(A, T, 3, 2, H) P1(A, T, 1, 3, H) P1(A, T, 3, 3, H) \
   template OB void total::file1<A<T>, 3, H>(const T*, long); template OB void total::console1<A<T>, 3, H>(const T*, long);
P1S(U1, double, SCIENTIFIC) P1S(U1, double, FIXED) P1S(G1, float, SCIENTIFIC) P1S(U1, int, FIXED) P1S(U1, unsigned long, FIXED) P1S(U1, long double, SCIENTIFIC)
#define Q1(A, T) template OB void total::part1<A<T>, 4, 0>(const T*, long); template OB void total::part1<A<T>, 5, 1>(const T*, long);
Q1(U1, double) Q1(U1, unsigned long) Q1(G1, float)
#define P2(A, T, M, N, S, H) template OB void total::print2<A<T>, M, N, S, H>(const T*, long);
#define P2S(A, T, H) P2(A, T, 1, 1, 0, H) P2(A, T, 1, 3, 0, H) P2(A, T, 3, 1, 0, H) P2(A, T, 2, 2, 0, H) P2(A, T, 2, 3, 0, H) P2(A, T, 3, 2, 0, H) P2(A, T, 2, 3, 2, H) P2(A, T, 3, 1, 2, H) \
   template OB void total::console2<A<T>, 2, 3, H>(const T*, long);
P2S(U2, double, SCIENTIFIC) P2S(G2, float, SCIENTIFIC) P2S(U2, double, FIXED) P2S(U2, int, FIXED) P2S(U2, unsigned long, FIXED)
template OB void total::part2<U2<double>, double>(const double*, long);
template OB void total::part2<G2<float>, float>(const float*, long);
