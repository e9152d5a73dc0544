// P10: arrays own their elements: copies are independent, moves transfer, nothing leaks or is released twice.
#include "heap.hpp"
#include <utility>
using namespace spp;
template <class T> using U1 = Array1D<T, Unaligned>;
template <class T> using G1 = Array1D<T, Aligned>;
template <class T> using U2 = Array2D<T, Unaligned>;
template <class T> using G2 = Array2D<T, Aligned>;

// the element values, read before anything else happens
#define LOCAL(v, n)               \
   T v[n];                        \
   for(long i = 0; i < (n); ++i)  \
      v[i] = v##0[i]
// an array of N (or M x N) elements with values x
template <class A, long M, long N, class T> inline A mk(const T* x) {
   if constexpr(OneDimBaseType<A>) {
      return make1<A>(x, M * N);
   } else {
      return make2<A>(x, M, N);
   }
}
template <class A, class T> inline void holds(const A& a, const T* x, long m, long n) {
   PROVE(len(a) == m * n);
   if constexpr(TwoDimBaseType<A>) {
      PROVE(nr(a) == m);
      PROVE(nc(a) == n);
   }
   for(long i = 0; i < m * n; ++i)
      PROVE(same(at_(a, i), x[i]));
}
template <class A> inline void is_empty(const A& a) {
   PROVE(len(a) == 0);
   PROVE(a.data() == nullptr);
   PROVE(a.empty().val());
   if constexpr(TwoDimBaseType<A>) {
      PROVE(nr(a) == 0);
      PROVE(nc(a) == 0);
   }
}

namespace total {
template <class A, class T, long M, long N> OB void scope(const T* x0) {
   HEAP_BEGIN();
   LOCAL(x, M * N);
   {
      auto a = mk<A, M, N>(x);
      holds(a, x, M, N);
      A none;
      is_empty(none);
   }
   HEAP_END();
}
template <class A, class T, long M, long N> OB void copy(const T* x0, T v) {
   HEAP_BEGIN();
   LOCAL(x, M * N);
   {
      auto a = mk<A, M, N>(x);
      A b = a;
      PROVE(a.data() != b.data());
      b.un(0) = S_<T>{v};
      holds(a, x, M, N);
      PROVE(same(at_(b, 0), v));
      for(long i = 1; i < M * N; ++i)
         PROVE(same(at_(b, i), x[i]));
      a = S_<T>{v};
      for(long i = 1; i < M * N; ++i)
         PROVE(same(at_(b, i), x[i]));
   }
   HEAP_END();
}
template <class A, class T, long M, long N> OB void move(const T* x0) {
   HEAP_BEGIN();
   LOCAL(x, M * N);
   {
      auto a = mk<A, M, N>(x);
      const auto* d = a.data();
      const long before = heap::next;
      A b = std::move(a);
      PROVE(b.data() == d);             // transferred, not copied
      PROVE(heap::next == before);
      holds(b, x, M, N);
      is_empty(a);
      a.resize_and_assign(b);           // usable again
      holds(a, x, M, N);
      holds(b, x, M, N);
   }
   HEAP_END();
}
template <class A, class T, long M, long N> OB void copy_assign(const T* x0, const T* z0, T v) {
   HEAP_BEGIN();
   LOCAL(x, M * N);
   LOCAL(z, M * N);
   {
      auto a = mk<A, M, N>(x);
      auto b = mk<A, M, N>(z);
      auto& r = (a = b);
      PROVE(&r == &a);
      holds(a, z, M, N);
      holds(b, z, M, N);
      PROVE(a.data() != b.data());
      b = S_<T>{v};
      holds(a, z, M, N);
   }
   HEAP_END();
}
template <class A, class T, long M, long N> OB void move_assign(const T* x0, const T* z0) {
   HEAP_BEGIN();
   LOCAL(x, M * N);
   LOCAL(z, M * N);
   {
      auto a = mk<A, M, N>(x);
      auto b = mk<A, M, N>(z);
      auto& r = (a = std::move(b));
      PROVE(&r == &a);
      holds(a, z, M, N);
      is_empty(b);
      b.resize_and_assign(a);
      holds(b, z, M, N);
   }
   HEAP_END();
}
template <class A, class T, long M, long N> OB void self_assign(const T* x0) {
   HEAP_BEGIN();
   LOCAL(x, M * N);
   {
      auto a = mk<A, M, N>(x);
      A& r = a;
      a = r;
      holds(a, x, M, N);
      a = std::move(r);
      holds(a, x, M, N);
      a.swap(r);
      holds(a, x, M, N);
   }
   HEAP_END();
}
template <class A, class T, long M, long N, long P, long Q> OB void swaps(const T* x0, const T* z0) {
   HEAP_BEGIN();
   LOCAL(x, M * N);
   LOCAL(z, P * Q);
   {
      auto a = mk<A, M, N>(x);
      auto b = mk<A, P, Q>(z);
      const auto *da = a.data(), *db = b.data();
      a.swap(b);
      PROVE(a.data() == db);
      PROVE(b.data() == da);
      holds(a, z, P, Q);
      holds(b, x, M, N);
      a.swap(std::move(b));
      holds(a, x, M, N);
   }
   HEAP_END();
}
// from expressions and from each other's elements
template <class A, class T, long M, long N> OB void from_expr(const T* x0, const T* z0) {
   HEAP_BEGIN();
   LOCAL(x, M * N);
   LOCAL(z, M * N);
   {
      auto a = mk<A, M, N>(x);
      auto b = mk<A, M, N>(z);
      A c = a + b;
      PROVE(len(c) == M * N);
      for(long i = 0; i < M * N; ++i)
         PROVE(same(at_(c, i), T(x[i] + z[i])));
      c = a - b;
      c += a;
      holds(a, x, M, N);
      holds(b, z, M, N);
      c = (a * b).eval();
      for(long i = 0; i < M * N; ++i)
         PROVE(same(at_(c, i), T(x[i] * z[i])));
   }
   HEAP_END();
}
// every modifying member leaves exactly one block, and none is lost
template <class A, class T, long N> OB void modify1(const T* x0, T v) {
   HEAP_BEGIN();
   LOCAL(x, N);
   {
      auto a = make1<A>(x, N);
      auto b = make1<A>(x, N);
      a.resize(N + 1);
      a.resize(N + 2, false);
      a.insert(1, S_<T>{v});
      a.insert(1, b);
      a.remove(0);
      a.remove(0, 2);
      PROVE(heap::live() == 2);
      PROVE(len(a) == 2 * N);
   }
   HEAP_END();
}
template <class A, class T, long N> OB void modify1b(const T* x0, const T* z0) {
   HEAP_BEGIN();
   LOCAL(x, N);
   LOCAL(z, N + 1);
   {
      auto a = make1<A>(x, N);
      auto b = make1<A>(z, N + 1);
      a.resize_and_assign(b);
      holds(a, z, N + 1, 1);
      a.resize_and_assign(std::move(b));
      holds(a, z, N + 1, 1);
      is_empty(b);
      a.resize_and_assign(a * a);
      a.resize(0);
      is_empty(a);
      a = {};
      PROVE(heap::live() == 0);
   }
   HEAP_END();
}
template <class A, class T, long M, long N> OB void modify2(const T* x0) {
   HEAP_BEGIN();
   LOCAL(x, M * N);
   {
      auto a = make2<A>(x, M, N);
      auto b = make2<A>(x, M, N);
      a.resize(M + 1, N);
      a.insert_rows(0, b);
      a.remove_rows(0, 2);
      a.insert_row(0, b.row(0));
      a.remove_col(0);
      a.resize(1, 1, false);
      PROVE(heap::live() == 2);
   }
   HEAP_END();
}
template <class A, class T, long M, long N> OB void modify2b(const T* x0, const T* z0) {
   HEAP_BEGIN();
   LOCAL(x, M * N);
   LOCAL(z, M * N);
   {
      auto a = make2<A>(x, M, N);
      auto b = make2<A>(z, N, M);
      a.resize_and_assign(b);
      holds(a, z, N, M);
      a.resize_and_assign(std::move(b));
      holds(a, z, N, M);
      is_empty(b);
      a.insert_cols(0, a);
      a.insert_col(1, a.col(0));
      a.remove_cols(0, 2);
      a.remove_rows(0, N);
      is_empty(a);
      PROVE(heap::live() == 0);
   }
   HEAP_END();
}
// as a value: passed, returned, stored in another object
template <class A, class T, long M, long N> inline A pass(A a) {
   return a;
}
template <class A, class T, long M, long N> OB void by_value(const T* x0) {
   HEAP_BEGIN();
   LOCAL(x, M * N);
   {
      auto a = mk<A, M, N>(x);
      auto b = pass<A, T, M, N>(a);
      holds(a, x, M, N);
      holds(b, x, M, N);
      auto c = pass<A, T, M, N>(std::move(a));
      holds(c, x, M, N);
      std::pair<A, A> p{b, std::move(c)};
      std::pair<A, A> q = p;
      holds(q.first, x, M, N);
      holds(q.second, x, M, N);
   }
   HEAP_END();
}
template <class A, class T> OB void lists(T p, T q, T r) {
   HEAP_BEGIN();
   {
      A a{S_<T>{p}, S_<T>{q}, S_<T>{r}};
      a = {S_<T>{r}, S_<T>{q}, S_<T>{p}};
      A b(a.begin(), a.end());
      A c(3, S_<T>{p});
      A d(Size{3}, Value{q});
      T w[3] = {r, q, p};
      holds(a, w, 3, 1);
      holds(b, w, 3, 1);
      PROVE(same(at_(c, 2), p));
      PROVE(same(at_(d, 2), q));
   }
   HEAP_END();
}
template <class A, class T> OB void lists2(T p, T q, T r) {
   HEAP_BEGIN();
   {
      A a{{S_<T>{p}, S_<T>{q}, S_<T>{r}}};
      a = {{S_<T>{r}, S_<T>{q}, S_<T>{p}}};
      A c(3, 1, S_<T>{p});
      A d(Rows{1}, Cols{3}, Value{q});
      T w[3] = {r, q, p};
      holds(a, w, 1, 3);
      PROVE(same(at_(c, 2), p));
      PROVE(same(at_(d, 2), q));
   }
   HEAP_END();
}
// fixed-size arrays: values without storage of their own
template <class A, class T> OB void fixed(A& src, T v) {
   HEAP_BEGIN();
   {
      A a = src;
      A b = a;
      b.un(0) = S_<T>{v};
      PROVE(same(at_(a, 0), at_(src, 0)));
      A c = std::move(b);
      PROVE(same(at_(c, 0), v));
      for(long i = 1; i < len(a); ++i)
         PROVE(same(at_(c, i), at_(src, i)));
      c = a;
      a = std::move(c);
      A& r = a;
      a = r;
      a = std::move(r);
      for(long i = 0; i < len(a); ++i)
         PROVE(same(at_(a, i), at_(src, i)));
      PROVE(heap::next == 0);
   }
   HEAP_END();
}
} // namespace total
#define I1(f, T, ...) template OB void total::f<__VA_ARGS__>(const T*);
#define I2(f, T, ...) template OB void total::f<__VA_ARGS__>(const T*, const T*);
#define IV(f, T, ...) template OB void total::f<__VA_ARGS__>(const T*, T);
#define EACH(A, T, M, N)                                                                                              \
   I1(scope, T, A<T>, T, M, N) IV(copy, T, A<T>, T, M, N) I1(move, T, A<T>, T, M, N)                                  \
   template OB void total::copy_assign<A<T>, T, M, N>(const T*, const T*, T); I2(move_assign, T, A<T>, T, M, N)       \
   I1(self_assign, T, A<T>, T, M, N) I2(from_expr, T, A<T>, T, M, N)                   \
   I1(by_value, T, A<T>, T, M, N) I2(swaps, T, A<T>, T, M, N, N, M) I2(swaps, T, A<T>, T, M, N, 2, 2)
EACH(U1, double, 3, 1) EACH(U1, int, 5, 1) EACH(G1, double, 3, 1) EACH(G1, float, 1, 1)
EACH(U2, double, 2, 3) EACH(U2, int, 3, 1) EACH(G2, double, 3, 2)
#define MOD1(A, T, N) IV(modify1, T, A<T>, T, N) I2(modify1b, T, A<T>, T, N) template OB void total::lists<A<T>, T>(T, T, T);
#define MOD2(A, T, M, N) I1(modify2, T, A<T>, T, M, N) I2(modify2b, T, A<T>, T, M, N) template OB void total::lists2<A<T>, T>(T, T, T);
MOD1(U1, double, 3) MOD1(G1, double, 2) MOD1(U1, int, 1)
MOD2(U2, double, 2, 3) MOD2(G2, double, 3, 2) MOD2(U2, int, 2, 2)
template OB void total::fixed(FixedArray1D<double, 3>&, double); template OB void total::fixed(FixedArray1D<int, 1>&, int);
template OB void total::fixed(FixedArray2D<double, 2, 3>&, double); template OB void total::fixed(FixedArray2D<float, 2, 2>&, float);

// Aligned arrays start at a 64-byte boundary, and the alignment they declare is the one they have.
namespace total {
template <class T> OB void alignment() {
   PROVE((FixedArray1D<T, 5, Aligned>::alignment() == 64 && FixedArray2D<T, 3, 5, Aligned>::alignment() == 64));
   PROVE((Array1D<T, Aligned>::alignment() == 64 && Array2D<T, Aligned>::alignment() == 64));
   PROVE((alignof(FixedArray1D<T, 5, Aligned>) == 64 && alignof(FixedArray2D<T, 3, 5, Aligned>) == 64));
   PROVE((Array1D<T, Unaligned>::alignment() <= long(alignof(T)) && Array2D<T, Unaligned>::alignment() <= long(alignof(T))));
   PROVE((FixedArray1D<T, 5, Unaligned>::alignment() <= long(alignof(FixedArray1D<T, 5, Unaligned>))));
   PROVE((FixedArray2D<T, 3, 5, Unaligned>::alignment() <= long(alignof(FixedArray2D<T, 3, 5, Unaligned>))));
   LIVE();
}
} // namespace total
#define AL(T) template OB void total::alignment<T>();
AL(bool) AL(int) AL(long) AL(unsigned) AL(unsigned long) AL(float) AL(double) AL(long double)
