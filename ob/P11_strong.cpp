// P11: an operation that fails leaves its array as it was, and nothing leaks. Allocations may fail (ob_may_throw), and
// failed checks unwind.
#include "heap.hpp"
#include <utility>
using namespace spp;
template <class T> using U1 = Array1D<T, Unaligned>;
template <class T> using G1 = Array1D<T, Aligned>;
template <class T> using U2 = Array2D<T, Unaligned>;
template <class T> using G2 = Array2D<T, Aligned>;
#define LOCAL(v, n)               \
   T v[n];                        \
   for(long i = 0; i < (n); ++i)  \
      v[i] = v##0[i]
template <class A, class T> inline void unchanged1(const A& a, const void* d, const T* x, long n) {
   PROVE(len(a) == n);
   PROVE(a.data() == d);
   for(long i = 0; i < n; ++i)
      PROVE(same(at_(a, i), x[i]));
}
template <class A, class T> inline void unchanged2(const A& a, const void* d, const T* x, long m, long n) {
   PROVE(nr(a) == m);
   PROVE(nc(a) == n);
   PROVE(len(a) == m * n);
   PROVE(a.data() == d);
   for(long i = 0; i < m * n; ++i)
      PROVE(same(at_(a, i), x[i]));
}
#define BALANCED()            \
   PROVE(!heap::bad);         \
   PROVE(heap::live() == 0)
// Objects are destroyed by hand, so that every path ends with its own balance.
template <class A> struct Slot {
   union { A a; };
   Slot() {
   }
   ~Slot() {
   }
};
#define BUILD(var, ...)                              \
   Slot<A> var##_;                                   \
   try {                                             \
      new(&var##_.a) A(__VA_ARGS__);                 \
   } catch(...) {
#define BUILT(var)                                   \
      BALANCED();                                    \
      return;                                        \
   }                                                 \
   A& var = var##_.a;                                \
   const void* d##var = var.data();
#define ONE1 BUILD(a, make1<A>(x, N)) BUILT(a)
#define TWO1 ONE1 BUILD(b, make1<A>(z, M)) a.~A(); BUILT(b)
#define ONE2 BUILD(a, make2<A>(x, M, N)) BUILT(a)
#define TWO2 ONE2 BUILD(b, make2<A>(z, P, Q)) a.~A(); BUILT(b)
#define END1 a.~A(); BALANCED();
#define END2 a.~A(); b.~A(); BALANCED();
#define ATTEMPT(after, same, end, ...)               \
   try {                                             \
      __VA_ARGS__;                                   \
   } catch(...) {                                    \
      same;                                          \
      end                                            \
      LIVE();                                        \
      return;                                        \
   }                                                 \
   after();                                          \
   end
namespace eq {
// the operation may fail for any reason its argument or the allocator gives
#define STRONG1(name, ...)                                                              \
   template <class A, class T, long N> OB void name(const T* x0, long p, long c, T v) { \
      HEAP_BEGIN();                                                                     \
      LOCAL(x, N);                                                                      \
      ONE1                                                                              \
      ATTEMPT(LIVE, unchanged1(a, da, x, N), END1, a.__VA_ARGS__)                       \
   }
STRONG1(insert_v, insert(p, S_<T>{v}))
STRONG1(insert_tag, insert(Pos{p}, Value{v}))
STRONG1(insert_a, insert(p, a))
STRONG1(insert_slice, insert(p, a(seqN{0, 2})))
STRONG1(insert_f, insert_front(S_<T>{v}))
STRONG1(insert_b, insert_back(S_<T>{v}))
STRONG1(remove_n, remove(p, c))
STRONG1(remove_last, remove(last - p))
STRONG1(remove_f, remove_front(c))
STRONG1(remove_b, remove_back(c))
STRONG1(resize_p, resize(p))
STRONG1(resize_np, resize(p, false))
STRONG1(re_expr, resize_and_assign(a + a))
STRONG1(re_slice, resize_and_assign(a(seqN{p, c})))
#define STRONG1B(name, ...)                                                                    \
   template <class A, class T, long N, long M> OB void name(const T* x0, const T* z0, T v) {   \
      HEAP_BEGIN();                                                                            \
      LOCAL(x, N);                                                                             \
      LOCAL(z, M);                                                                             \
      TWO1                                                                                     \
      ATTEMPT(LIVE, (unchanged1(a, da, x, N), unchanged1(b, db, z, M)), END2, __VA_ARGS__)       \
   }
STRONG1B(re_copy, a.resize_and_assign(b))
STRONG1B(ins_b, a.insert(1, b))
STRONG1B(construct, A c = b)
STRONG1B(construct_e, A c = b + b)
STRONG1B(construct_v, A c(M, S_<T>{v}))
// refused for a wrong size: nothing is written
#define REFUSED1(name, ...)                                                                    \
   template <class A, class T, long N, long M> OB void name(const T* x0, const T* z0, T v) {   \
      HEAP_BEGIN();                                                                            \
      LOCAL(x, N);                                                                             \
      LOCAL(z, M);                                                                             \
      TWO1                                                                                     \
      ATTEMPT(FAIL, (unchanged1(a, da, x, N), unchanged1(b, db, z, M)), END2, __VA_ARGS__)       \
   }
REFUSED1(as_copy, a = b)
REFUSED1(as_expr, a = b + b)
REFUSED1(as_view, a = b(place::all))
REFUSED1(as_list, a = {S_<T>{v}})
REFUSED1(add_expr, a += b)
REFUSED1(mul_expr, a *= b + b)
REFUSED1(sl_expr, a(place::all) = b)
REFUSED1(sl_add, a(place::all) += b(place::all))
#define STRONG2(name, ...)                                                                      \
   template <class A, class B, class T, long M, long N> OB void name(const T* x0, long p, long c) { \
      HEAP_BEGIN();                                                                             \
      LOCAL(x, M* N);                                                                           \
      ONE2                                                                                      \
      ATTEMPT(LIVE, unchanged2(a, da, x, M, N), END1, a.__VA_ARGS__)                            \
   }
STRONG2(insert_rows, insert_rows(p, a))
STRONG2(insert_cols, insert_cols(p, a))
STRONG2(insert_row, insert_row(p, a.row(0)))
STRONG2(insert_col, insert_col(p, a.col(0)))
STRONG2(remove_rows, remove_rows(p, c))
STRONG2(remove_cols, remove_cols(p, c))
STRONG2(remove_row, remove_row(p))
STRONG2(remove_col_last, remove_col(last - p))
STRONG2(resize2_a, resize(3, 4))
STRONG2(resize2_b, resize(1, 1))
STRONG2(resize2_c, resize(0, 0))
STRONG2(resize2_d, resize(0, 2))
STRONG2(resize2_e, resize(2, -1))
STRONG2(resize2_f, resize(4, 3, false))
STRONG2(resize2_g, resize(-1, -1, false))
STRONG2(resize2_h, resize(6, 1, false))
STRONG2(re_expr2, resize_and_assign(transpose(a)))
#define STRONG2B(name, after, ...)                                                              \
   template <class A, class T, long M, long N, long P, long Q> OB void name(const T* x0, const T* z0, T v) { \
      HEAP_BEGIN();                                                                             \
      LOCAL(x, M* N);                                                                           \
      LOCAL(z, P* Q);                                                                           \
      TWO2                                                                                      \
      ATTEMPT(after, (unchanged2(a, da, x, M, N), unchanged2(b, db, z, P, Q)), END2, __VA_ARGS__) \
   }
STRONG2B(re_copy2, LIVE, a.resize_and_assign(b))
STRONG2B(construct2, LIVE, A c = b)
STRONG2B(construct_e2, LIVE, A c = b + b)
STRONG2B(as_copy2, FAIL, a = b)
STRONG2B(as_expr2, FAIL, a = b + b)
STRONG2B(as_list2, FAIL, a = {{S_<T>{v}}})
STRONG2B(as_ragged, FAIL, a = {{S_<T>{v}}, {S_<T>{v}, S_<T>{v}}})
STRONG2B(add2, FAIL, a += b)
STRONG2B(ir2, FAIL, a.insert_rows(0, b))
STRONG2B(ic2, FAIL, a.insert_cols(0, b))
STRONG2B(i1r2, FAIL, a.insert_row(0, b.row(0)))
STRONG2B(i1c2, FAIL, a.insert_col(0, b.col(0)))
} // namespace eq
#define S1(f, A, T, N) template OB void eq::f<A<T>, T, N>(const T*, long, long, T);
#define S1ALL(A, T, N)                                                                                         \
   S1(insert_v, A, T, N) S1(insert_tag, A, T, N) S1(insert_a, A, T, N) S1(insert_slice, A, T, N) S1(insert_f, A, T, N) \
   S1(insert_b, A, T, N) S1(remove_n, A, T, N) S1(remove_last, A, T, N) S1(remove_f, A, T, N) S1(remove_b, A, T, N) \
   S1(resize_p, A, T, N) S1(resize_np, A, T, N) S1(re_expr, A, T, N) S1(re_slice, A, T, N)
S1ALL(U1, double, 3) S1ALL(U1, int, 4) S1ALL(G1, double, 2)
#define B1(f, A, T, N, M) template OB void eq::f<A<T>, T, N, M>(const T*, const T*, T);
#define B1ALL(A, T, N, M)                                                                                      \
   B1(re_copy, A, T, N, M) B1(ins_b, A, T, N, M) B1(construct, A, T, N, M) B1(construct_e, A, T, N, M)         \
   B1(construct_v, A, T, N, M) B1(as_copy, A, T, N, M) B1(as_expr, A, T, N, M) B1(as_view, A, T, N, M)         \
   B1(as_list, A, T, N, M) B1(add_expr, A, T, N, M) B1(mul_expr, A, T, N, M) B1(sl_expr, A, T, N, M) B1(sl_add, A, T, N, M)
B1ALL(U1, double, 3, 4) B1ALL(U1, int, 4, 2) B1ALL(G1, double, 2, 3)
#define S2(f, A, B, T, M, N) template OB void eq::f<A<T>, B<T>, T, M, N>(const T*, long, long);
#define S2ALL(A, B, T, M, N)                                                                                   \
   S2(insert_rows, A, B, T, M, N) S2(insert_cols, A, B, T, M, N) S2(insert_row, A, B, T, M, N) S2(insert_col, A, B, T, M, N) \
   S2(remove_rows, A, B, T, M, N) S2(remove_cols, A, B, T, M, N) S2(remove_row, A, B, T, M, N)                 \
   S2(remove_col_last, A, B, T, M, N) S2(resize2_a, A, B, T, M, N) S2(resize2_b, A, B, T, M, N) S2(resize2_c, A, B, T, M, N) S2(resize2_d, A, B, T, M, N) S2(resize2_e, A, B, T, M, N) S2(resize2_f, A, B, T, M, N) S2(resize2_g, A, B, T, M, N) S2(resize2_h, A, B, T, M, N) S2(re_expr2, A, B, T, M, N)
S2ALL(U2, U1, double, 2, 3) S2ALL(G2, G1, double, 3, 2)
#define B2(f, A, T, M, N, P, Q) template OB void eq::f<A<T>, T, M, N, P, Q>(const T*, const T*, T);
#define B2ALL(A, T, M, N, P, Q)                                                                                \
   B2(re_copy2, A, T, M, N, P, Q) B2(construct2, A, T, M, N, P, Q) B2(construct_e2, A, T, M, N, P, Q)          \
   B2(as_copy2, A, T, M, N, P, Q) B2(as_expr2, A, T, M, N, P, Q) B2(as_list2, A, T, M, N, P, Q)                \
   B2(as_ragged, A, T, M, N, P, Q) B2(add2, A, T, M, N, P, Q) B2(ir2, A, T, M, N, P, Q) B2(ic2, A, T, M, N, P, Q) \
   B2(i1r2, A, T, M, N, P, Q) B2(i1c2, A, T, M, N, P, Q)
B2ALL(U2, double, 2, 3, 3, 2) B2ALL(G2, double, 3, 2, 2, 3)
