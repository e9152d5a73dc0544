// P21: resizing, insertion and removal keep exactly the elements their description names.
#include "sv.hpp"
#include <utility>
using namespace spp;

template <class T> using U1 = Array1D<T, Unaligned>;
template <class T> using G1 = Array1D<T, Aligned>;
template <class T> using U2 = Array2D<T, Unaligned>;
template <class T> using G2 = Array2D<T, Aligned>;

// ------------------------------------------------------------------ one dimension, every element value
// x: the elements before, z: inserted elements
namespace total {
template <class A, class T> inline void is_removed(const A& a, const T* x, long n, long p, long c) {
   PROVE(len(a) == n - c);
   for(long i = 0; i < n - c; ++i)
      PROVE(same(at_(a, i), x[i < p ? i : i + c]));
}
template <class A, class T, long N, long P, long C> OB void rem(const T* x) {
   {
      auto a = make1<A>(x, N);
      a.remove(P, C);
      is_removed(a, x, N, P, C);
   }
   {
      auto a = make1<A>(x, N);
      a.remove(Pos{P}, Count{C});
      is_removed(a, x, N, P, C);
   }
   if constexpr(C == 1) {
      {
         auto a = make1<A>(x, N);
         a.remove(P);
         is_removed(a, x, N, P, 1);
      }
      {
         auto a = make1<A>(x, N);
         a.remove(Pos{P});
         is_removed(a, x, N, P, 1);
      }
      {
         auto a = make1<A>(x, N);
         a.remove(last - (N - 1 - P));
         is_removed(a, x, N, P, 1);
      }
   }
   if constexpr(P == 0) {
      {
         auto a = make1<A>(x, N);
         a.remove_front(C);
         is_removed(a, x, N, 0, C);
      }
      {
         auto a = make1<A>(x, N);
         a.remove_front(Count{C});
         is_removed(a, x, N, 0, C);
      }
   }
   if constexpr(P + C == N) {
      {
         auto a = make1<A>(x, N);
         a.remove_back(C);
         is_removed(a, x, N, P, C);
      }
      {
         auto a = make1<A>(x, N);
         a.remove_back(Count{C});
         is_removed(a, x, N, P, C);
      }
   }
   if constexpr(P == 0 && C == 1) {
      auto a = make1<A>(x, N);
      a.remove_front();
      is_removed(a, x, N, 0, 1);
   }
   if constexpr(P == N - 1 && C == 1) {
      auto a = make1<A>(x, N);
      a.remove_back();
      is_removed(a, x, N, N - 1, 1);
   }
   LIVE();
}
template <class A, class T> inline void is_inserted(const A& a, const T* x, long n, long p, const T* z, long c) {
   PROVE(len(a) == n + c);
   for(long i = 0; i < n + c; ++i)
      PROVE(same(at_(a, i), i < p ? x[i] : i < p + c ? z[i - p] : x[i - c]));
}
template <class A, class T, long N, long P> OB void ins_val(const T* x, T v) {
   T z[1] = {v};
   {
      auto a = make1<A>(x, N);
      a.insert(P, S_<T>{v});
      is_inserted(a, x, N, P, z, 1);
   }
   {
      auto a = make1<A>(x, N);
      a.insert(Pos{P}, Value{v});
      is_inserted(a, x, N, P, z, 1);
   }
   if constexpr(P == 0) {
      {
         auto a = make1<A>(x, N);
         a.insert_front(S_<T>{v});
         is_inserted(a, x, N, 0, z, 1);
      }
      {
         auto a = make1<A>(x, N);
         a.insert_front(Value{v});
         is_inserted(a, x, N, 0, z, 1);
      }
   }
   if constexpr(P == N) {
      {
         auto a = make1<A>(x, N);
         a.insert_back(S_<T>{v});
         is_inserted(a, x, N, N, z, 1);
      }
      {
         auto a = make1<A>(x, N);
         a.insert_back(Value{v});
         is_inserted(a, x, N, N, z, 1);
      }
   }
   LIVE();
}
// an element of the array itself
template <class A, class T, long N, long P, long Q> OB void ins_own(const T* x) {
   T z[1] = {x[Q]};
   auto a = make1<A>(x, N);
   a.insert(P, a.un(Q));
   is_inserted(a, x, N, P, z, 1);
   LIVE();
}
template <class A, class T, long N, long P, long C> OB void ins_arr(const T* x, const T* z) {
   {
      auto a = make1<A>(x, N);
      auto b = make1<A>(z, C);
      a.insert(P, b);
      is_inserted(a, x, N, P, z, C);
   }
   {
      auto a = make1<A>(x, N);
      auto b = make1<A>(z, C);
      a.insert(Pos{P}, b);
      is_inserted(a, x, N, P, z, C);
   }
   if constexpr(P == 0) {
      auto a = make1<A>(x, N);
      auto b = make1<A>(z, C);
      a.insert_front(b);
      is_inserted(a, x, N, 0, z, C);
   }
   if constexpr(P == N) {
      auto a = make1<A>(x, N);
      auto b = make1<A>(z, C);
      a.insert_back(b);
      is_inserted(a, x, N, N, z, C);
   }
   LIVE();
}
// the array itself, or a view of it
template <class A, class T, long N, long P> OB void ins_self(const T* x) {
   {
      auto a = make1<A>(x, N);
      a.insert(P, a);
      is_inserted(a, x, N, P, x, N);
   }
   {
      auto a = make1<A>(x, N);
      a.insert(P, a(seqN{1, N - 1}));
      is_inserted(a, x, N, P, x + 1, N - 1);
   }
   LIVE();
}
template <class A, class T, long N, long M> OB void resize1(const T* x) {
   {
      auto a = make1<A>(x, N);
      a.resize(M);
      PROVE(len(a) == M);
      for(long i = 0; i < M; ++i)
         PROVE(same(at_(a, i), i < N ? x[i] : T(0)));
   }
   {
      auto a = make1<A>(x, N);
      a.resize(M, false);
      PROVE(len(a) == M);
   }
   LIVE();
}
template <class A, class T, long N, long M> OB void reassign1(const T* x, const T* z) {
   {
      auto a = make1<A>(x, N);
      auto b = make1<A>(z, M);
      a.resize_and_assign(b);
      PROVE(len(a) == M);
      PROVE(len(b) == M);
      for(long i = 0; i < M; ++i)
         PROVE(same(at_(a, i), z[i]) && same(at_(b, i), z[i]));
   }
   {
      auto a = make1<A>(x, N);
      auto b = make1<A>(z, M);
      a.resize_and_assign(std::move(b));
      PROVE(len(a) == M);
      PROVE(len(b) == 0);
      for(long i = 0; i < M; ++i)
         PROVE(same(at_(a, i), z[i]));
   }
   LIVE();
}
// from its own elements
template <class A, class T, long N> OB void reassign_self(const T* x) {
   {
      auto a = make1<A>(x, N);
      a.resize_and_assign(a(seq{1, N - 1}));
      PROVE(len(a) == N - 1);
      for(long i = 0; i < N - 1; ++i)
         PROVE(same(at_(a, i), x[i + 1]));
   }
   {
      auto a = make1<A>(x, N);
      a.resize_and_assign(a);
      PROVE(len(a) == N);
      for(long i = 0; i < N; ++i)
         PROVE(same(at_(a, i), x[i]));
   }
   {
      auto a = make1<A>(x, N);
      a.resize_and_assign(a(place::reverse));
      PROVE(len(a) == N);
      for(long i = 0; i < N; ++i)
         PROVE(same(at_(a, i), x[N - 1 - i]));
   }
   LIVE();
}
template <class A, class T, long N, long P> OB void rem_list(const T* x) {
   auto a = make1<A>(x, N);
   std::vector<ImplicitInt> v;
   a.remove(v);
   is_removed(a, x, N, 0, 0);
   v.push_back(P);
   a.remove(v);
   is_removed(a, x, N, P, 1);
   LIVE();
}
} // namespace total

// ------------------------------------------------------------------ two dimensions
namespace total {
template <class A, class T> inline void rows_removed(const A& a, const T* x, long m, long n, long p, long c) {
   PROVE(nr(a) == m - c);
   PROVE(nc(a) == (m == c ? 0 : n));
   PROVE(len(a) == (m - c) * n);
   for(long i = 0; i < m - c; ++i)
      for(long j = 0; j < n; ++j)
         PROVE(same(at_(a, i, j), x[(i < p ? i : i + c) * n + j]));
}
template <class A, class T> inline void cols_removed(const A& a, const T* x, long m, long n, long p, long c) {
   PROVE(nc(a) == n - c);
   PROVE(nr(a) == (n == c ? 0 : m));
   PROVE(len(a) == m * (n - c));
   for(long i = 0; i < m; ++i)
      for(long j = 0; j < n - c; ++j)
         PROVE(same(at_(a, i, j), x[i * n + (j < p ? j : j + c)]));
}
#define WITH(call, check)           \
   {                                \
      auto a = make2<A>(x, M, N);   \
      a.call;                       \
      check;                        \
   }
template <class A, class T, long M, long N, long P, long C> OB void rem_rows(const T* x) {
   WITH(remove_rows(P, C), rows_removed(a, x, M, N, P, C))
   WITH(remove_rows(Pos{P}, Count{C}), rows_removed(a, x, M, N, P, C))
   if constexpr(C == 1) {
      WITH(remove_row(P), rows_removed(a, x, M, N, P, 1))
      WITH(remove_row(Pos{P}), rows_removed(a, x, M, N, P, 1))
      WITH(remove_row(last - (M - 1 - P)), rows_removed(a, x, M, N, P, 1))
   }
   if constexpr(P == 0) {
      WITH(remove_rows_front(C), rows_removed(a, x, M, N, 0, C))
      WITH(remove_rows_front(Count{C}), rows_removed(a, x, M, N, 0, C))
   }
   if constexpr(P + C == M) {
      WITH(remove_rows_back(C), rows_removed(a, x, M, N, P, C))
      WITH(remove_rows_back(Count{C}), rows_removed(a, x, M, N, P, C))
   }
   LIVE();
}
template <class A, class T, long M, long N, long P, long C> OB void rem_cols(const T* x) {
   WITH(remove_cols(P, C), cols_removed(a, x, M, N, P, C))
   WITH(remove_cols(Pos{P}, Count{C}), cols_removed(a, x, M, N, P, C))
   if constexpr(C == 1) {
      WITH(remove_col(P), cols_removed(a, x, M, N, P, 1))
      WITH(remove_col(Pos{P}), cols_removed(a, x, M, N, P, 1))
      WITH(remove_col(last - (N - 1 - P)), cols_removed(a, x, M, N, P, 1))
   }
   if constexpr(P == 0) {
      WITH(remove_cols_front(C), cols_removed(a, x, M, N, 0, C))
      WITH(remove_cols_front(Count{C}), cols_removed(a, x, M, N, 0, C))
   }
   if constexpr(P + C == N) {
      WITH(remove_cols_back(C), cols_removed(a, x, M, N, P, C))
      WITH(remove_cols_back(Count{C}), cols_removed(a, x, M, N, P, C))
   }
   LIVE();
}
template <class A, class T, long M, long N, long P> OB void rem_list2(const T* x) {
   auto a = make2<A>(x, M, N);
   std::vector<ImplicitInt> v;
   a.remove_rows(v);
   rows_removed(a, x, M, N, 0, 0);
   v.push_back(P);
   a.remove_rows(v);
   rows_removed(a, x, M, N, P, 1);
   auto b = make2<A>(x, M, N);
   b.remove_cols(v);
   cols_removed(b, x, M, N, P, 1);
   LIVE();
}
// z: c x n inserted rows; z: m x c inserted columns
template <class A, class T> inline void rows_inserted(const A& a, const T* x, long m, long n, long p, const T* z, long c) {
   PROVE(nr(a) == m + c);
   PROVE(nc(a) == n);
   PROVE(len(a) == (m + c) * n);
   for(long i = 0; i < m + c; ++i)
      for(long j = 0; j < n; ++j)
         PROVE(same(at_(a, i, j), i < p ? x[i * n + j] : i < p + c ? z[(i - p) * n + j] : x[(i - c) * n + j]));
}
template <class A, class T> inline void cols_inserted(const A& a, const T* x, long m, long n, long p, const T* z, long c) {
   PROVE(nr(a) == m);
   PROVE(nc(a) == n + c);
   PROVE(len(a) == m * (n + c));
   for(long i = 0; i < m; ++i)
      for(long j = 0; j < n + c; ++j)
         PROVE(same(at_(a, i, j), j < p ? x[i * n + j] : j < p + c ? z[i * c + (j - p)] : x[i * n + (j - c)]));
}
template <class A, class T, long M, long N, long P, long C> OB void ins_rows(const T* x, const T* z) {
   auto b = make2<A>(z, C, N);
   WITH(insert_rows(P, b), rows_inserted(a, x, M, N, P, z, C))
   WITH(insert_rows(Pos{P}, b), rows_inserted(a, x, M, N, P, z, C))
   if constexpr(P == 0) {
      WITH(insert_rows_front(b), rows_inserted(a, x, M, N, P, z, C))
   }
   if constexpr(P == M) {
      WITH(insert_rows_back(b), rows_inserted(a, x, M, N, P, z, C))
   }
   LIVE();
}
template <class A, class T, long M, long N, long P, long C> OB void ins_cols(const T* x, const T* z) {
   auto b = make2<A>(z, M, C);
   WITH(insert_cols(P, b), cols_inserted(a, x, M, N, P, z, C))
   WITH(insert_cols(Pos{P}, b), cols_inserted(a, x, M, N, P, z, C))
   if constexpr(P == 0) {
      WITH(insert_cols_front(b), cols_inserted(a, x, M, N, P, z, C))
   }
   if constexpr(P == N) {
      WITH(insert_cols_back(b), cols_inserted(a, x, M, N, P, z, C))
   }
   LIVE();
}
template <class A, class B, class T, long M, long N, long P> OB void ins_row(const T* x, const T* z) {
   auto b = make1<B>(z, N);
   WITH(insert_row(P, b), rows_inserted(a, x, M, N, P, z, 1))
   WITH(insert_row(Pos{P}, b), rows_inserted(a, x, M, N, P, z, 1))
   if constexpr(P == 0) {
      WITH(insert_row_front(b), rows_inserted(a, x, M, N, P, z, 1))
   }
   if constexpr(P == M) {
      WITH(insert_row_back(b), rows_inserted(a, x, M, N, P, z, 1))
   }
   LIVE();
}
template <class A, class B, class T, long M, long N, long P> OB void ins_col(const T* x, const T* z) {
   auto b = make1<B>(z, M);
   WITH(insert_col(P, b), cols_inserted(a, x, M, N, P, z, 1))
   WITH(insert_col(Pos{P}, b), cols_inserted(a, x, M, N, P, z, 1))
   if constexpr(P == 0) {
      WITH(insert_col_front(b), cols_inserted(a, x, M, N, P, z, 1))
   }
   if constexpr(P == N) {
      WITH(insert_col_back(b), cols_inserted(a, x, M, N, P, z, 1))
   }
   LIVE();
}
// an array without elements takes the shape of what is inserted
template <class A, class B, class T, long M, long N> OB void ins_empty(const T* z) {
   auto b = make2<A>(z, M, N);
   auto v = make1<B>(z, N);
   {
      A a;
      a.insert_rows(0, b);
      rows_inserted(a, z, 0, N, 0, z, M);
   }
   {
      A a;
      a.insert_cols(0, b);
      rows_inserted(a, z, 0, N, 0, z, M);
   }
   {
      A a;
      a.insert_row(0, v);
      rows_inserted(a, z, 0, N, 0, z, 1);
   }
   {
      A a;
      a.insert_col(0, v);
      cols_inserted(a, z, N, 0, 0, z, 1);
   }
   LIVE();
}
template <class A, class T, long M, long N> OB void ins_own2(const T* x) {
   WITH(insert_rows(1, a), rows_inserted(a, x, M, N, 1, x, M))
   WITH(insert_cols(1, a), cols_inserted(a, x, M, N, 1, x, N))
   WITH(insert_row(1, a.row(0)), rows_inserted(a, x, M, N, 1, x, 1))
   WITH(insert_row(0, a.row(M - 1)), rows_inserted(a, x, M, N, 0, x + (M - 1) * N, 1))
   LIVE();
}
template <class A, class T, long M, long N, long P, long Q> OB void resize2(const T* x) {
   WITH(
      resize(P, Q), {
         PROVE(nr(a) == P);
         PROVE(nc(a) == Q);
         PROVE(len(a) == P * Q);
         for(long i = 0; i < P; ++i)
            for(long j = 0; j < Q; ++j)
               PROVE(same(at_(a, i, j), i < M && j < N ? x[i * N + j] : T(0)));
      })
   WITH(
      resize(P, Q, false), {
         PROVE(nr(a) == P);
         PROVE(nc(a) == Q);
         PROVE(len(a) == P * Q);
      })
   LIVE();
}
template <class A, class T, long M, long N, long P, long Q> OB void reassign2(const T* x, const T* z) {
   {
      auto a = make2<A>(x, M, N);
      auto b = make2<A>(z, P, Q);
      a.resize_and_assign(b);
      rows_inserted(a, z, 0, Q, 0, z, P);
      rows_inserted(b, z, 0, Q, 0, z, P);
   }
   {
      auto a = make2<A>(x, M, N);
      auto b = make2<A>(z, P, Q);
      a.resize_and_assign(std::move(b));
      rows_inserted(a, z, 0, Q, 0, z, P);
      PROVE(len(b) == 0);
      PROVE(nr(b) == 0);
      PROVE(nc(b) == 0);
   }
   {
      auto a = make2<A>(x, M, N);
      a.resize_and_assign(transpose(a));
      PROVE(nr(a) == N);
      PROVE(nc(a) == M);
      for(long i = 0; i < N; ++i)
         for(long j = 0; j < M; ++j)
            PROVE(same(at_(a, i, j), x[j * N + i]));
   }
   LIVE();
}
} // namespace total

#define INST(f, T, ...) template OB void total::f<__VA_ARGS__>(const T*);
// every position and count of small arrays
#define REM(A, T)                                                                                                   \
   INST(rem, T, A<T>, T, 1, 0, 1) INST(rem, T, A<T>, T, 2, 0, 1) INST(rem, T, A<T>, T, 2, 1, 1)                     \
   INST(rem, T, A<T>, T, 2, 0, 2) INST(rem, T, A<T>, T, 3, 1, 1) INST(rem, T, A<T>, T, 4, 0, 1)                     \
   INST(rem, T, A<T>, T, 4, 0, 2) INST(rem, T, A<T>, T, 4, 0, 3) INST(rem, T, A<T>, T, 4, 0, 4)                     \
   INST(rem, T, A<T>, T, 4, 1, 1) INST(rem, T, A<T>, T, 4, 1, 2) INST(rem, T, A<T>, T, 4, 1, 3)                     \
   INST(rem, T, A<T>, T, 4, 2, 1) INST(rem, T, A<T>, T, 4, 2, 2) INST(rem, T, A<T>, T, 4, 3, 1)                     \
   INST(rem, T, A<T>, T, 9, 3, 4) INST(rem, T, A<T>, T, 9, 0, 8) INST(rem, T, A<T>, T, 9, 1, 8)                     \
   INST(rem, T, A<T>, T, 12, 5, 1) INST(rem, T, A<T>, T, 12, 11, 1)
REM(U1, double) REM(U1, int) REM(G1, double)
#define INST2(f, T, ...) template OB void total::f<__VA_ARGS__>(const T*, T);
#define INST3(f, T, ...) template OB void total::f<__VA_ARGS__>(const T*, const T*);
#define INS(A, T)                                                                                                   \
   INST2(ins_val, T, A<T>, T, 0, 0) INST2(ins_val, T, A<T>, T, 1, 0) INST2(ins_val, T, A<T>, T, 1, 1)               \
   INST2(ins_val, T, A<T>, T, 4, 0) INST2(ins_val, T, A<T>, T, 4, 1) INST2(ins_val, T, A<T>, T, 4, 2)               \
   INST2(ins_val, T, A<T>, T, 4, 3) INST2(ins_val, T, A<T>, T, 4, 4) INST2(ins_val, T, A<T>, T, 11, 5)              \
   INST2(ins_val, T, A<T>, T, 11, 11) INST(ins_own, T, A<T>, T, 3, 1, 0) INST(ins_own, T, A<T>, T, 3, 0, 2)         \
   INST(ins_own, T, A<T>, T, 3, 3, 1) INST(ins_self, T, A<T>, T, 3, 0) INST(ins_self, T, A<T>, T, 3, 2)             \
   INST(ins_self, T, A<T>, T, 3, 3) INST3(ins_arr, T, A<T>, T, 0, 0, 0) INST3(ins_arr, T, A<T>, T, 0, 0, 3)         \
   INST3(ins_arr, T, A<T>, T, 3, 0, 0) INST3(ins_arr, T, A<T>, T, 3, 0, 1) INST3(ins_arr, T, A<T>, T, 3, 0, 2)      \
   INST3(ins_arr, T, A<T>, T, 3, 1, 1) INST3(ins_arr, T, A<T>, T, 3, 1, 4) INST3(ins_arr, T, A<T>, T, 3, 2, 2)      \
   INST3(ins_arr, T, A<T>, T, 3, 3, 1) INST3(ins_arr, T, A<T>, T, 3, 3, 3) INST3(ins_arr, T, A<T>, T, 5, 2, 8)
INS(U1, double) INS(U1, int) INS(G1, double)
#define RES(A, T)                                                                                                   \
   INST(resize1, T, A<T>, T, 0, 0) INST(resize1, T, A<T>, T, 0, 3) INST(resize1, T, A<T>, T, 3, 0)                  \
   INST(resize1, T, A<T>, T, 3, 3) INST(resize1, T, A<T>, T, 3, 4) INST(resize1, T, A<T>, T, 4, 3)                  \
   INST(resize1, T, A<T>, T, 1, 9) INST(resize1, T, A<T>, T, 9, 1) INST(resize1, T, A<T>, T, 5, 12)                 \
   INST3(reassign1, T, A<T>, T, 0, 3) INST3(reassign1, T, A<T>, T, 3, 0) INST3(reassign1, T, A<T>, T, 3, 3)         \
   INST3(reassign1, T, A<T>, T, 2, 5) INST3(reassign1, T, A<T>, T, 5, 2) INST(reassign_self, T, A<T>, T, 4)         \
   INST(rem_list, T, A<T>, T, 1, 0) INST(rem_list, T, A<T>, T, 4, 0) INST(rem_list, T, A<T>, T, 4, 2)               \
   INST(rem_list, T, A<T>, T, 4, 3)
RES(U1, double) RES(U1, int) RES(G1, double)
#define REM2(A, T)                                                                                                  \
   INST(rem_rows, T, A<T>, T, 1, 3, 0, 1) INST(rem_rows, T, A<T>, T, 3, 2, 0, 1) INST(rem_rows, T, A<T>, T, 3, 2, 1, 1) \
   INST(rem_rows, T, A<T>, T, 3, 2, 2, 1) INST(rem_rows, T, A<T>, T, 3, 2, 0, 2) INST(rem_rows, T, A<T>, T, 3, 2, 1, 2) \
   INST(rem_rows, T, A<T>, T, 3, 2, 0, 3) INST(rem_rows, T, A<T>, T, 4, 3, 1, 2) INST(rem_rows, T, A<T>, T, 4, 1, 1, 2) \
   INST(rem_cols, T, A<T>, T, 3, 1, 0, 1) INST(rem_cols, T, A<T>, T, 2, 3, 0, 1) INST(rem_cols, T, A<T>, T, 2, 3, 1, 1) \
   INST(rem_cols, T, A<T>, T, 2, 3, 2, 1) INST(rem_cols, T, A<T>, T, 2, 3, 0, 2) INST(rem_cols, T, A<T>, T, 2, 3, 1, 2) \
   INST(rem_cols, T, A<T>, T, 2, 3, 0, 3) INST(rem_cols, T, A<T>, T, 3, 4, 1, 2) INST(rem_cols, T, A<T>, T, 1, 4, 1, 2) \
   INST(rem_list2, T, A<T>, T, 2, 3, 0) INST(rem_list2, T, A<T>, T, 3, 2, 1)
REM2(U2, double) REM2(U2, int) REM2(G2, double)
#define INST5(f, T, ...) template OB void total::f<__VA_ARGS__>(const T*, const T*);
#define INS2(A, B, T)                                                                                               \
   INST3(ins_rows, T, A<T>, T, 2, 3, 0, 1) INST3(ins_rows, T, A<T>, T, 2, 3, 1, 1) INST3(ins_rows, T, A<T>, T, 2, 3, 2, 1) \
   INST3(ins_rows, T, A<T>, T, 2, 3, 1, 2) INST3(ins_rows, T, A<T>, T, 3, 2, 1, 2) INST3(ins_rows, T, A<T>, T, 1, 1, 1, 3) \
   INST3(ins_cols, T, A<T>, T, 2, 3, 0, 1) INST3(ins_cols, T, A<T>, T, 2, 3, 1, 1) INST3(ins_cols, T, A<T>, T, 2, 3, 3, 1) \
   INST3(ins_cols, T, A<T>, T, 2, 3, 1, 2) INST3(ins_cols, T, A<T>, T, 3, 2, 1, 2) INST3(ins_cols, T, A<T>, T, 1, 1, 1, 3) \
   INST3(ins_row, T, A<T>, B<T>, T, 2, 3, 0) INST3(ins_row, T, A<T>, B<T>, T, 2, 3, 1) INST3(ins_row, T, A<T>, B<T>, T, 2, 3, 2) \
   INST3(ins_row, T, A<T>, B<T>, T, 3, 2, 1) INST3(ins_col, T, A<T>, B<T>, T, 2, 3, 0) INST3(ins_col, T, A<T>, B<T>, T, 2, 3, 1) \
   INST3(ins_col, T, A<T>, B<T>, T, 2, 3, 3) INST3(ins_col, T, A<T>, B<T>, T, 3, 2, 1) \
   INST(ins_empty, T, A<T>, B<T>, T, 2, 3) INST(ins_empty, T, A<T>, B<T>, T, 1, 1) INST(ins_own2, T, A<T>, T, 2, 3) \
   INST(ins_own2, T, A<T>, T, 3, 2)
INS2(U2, U1, double) INS2(U2, U1, int) INS2(G2, G1, double)
#define RES2(A, T)                                                                                                  \
   INST(resize2, T, A<T>, T, 2, 3, 2, 3) INST(resize2, T, A<T>, T, 2, 3, 3, 2) INST(resize2, T, A<T>, T, 2, 3, 1, 6) \
   INST(resize2, T, A<T>, T, 2, 3, 3, 4) INST(resize2, T, A<T>, T, 3, 4, 2, 2) INST(resize2, T, A<T>, T, 2, 3, 0, 0) \
   INST(resize2, T, A<T>, T, 0, 0, 2, 3) INST(resize2, T, A<T>, T, 3, 2, 3, 3) INST(resize2, T, A<T>, T, 3, 3, 3, 2) \
   INST(resize2, T, A<T>, T, 1, 4, 4, 1) INST(resize2, T, A<T>, T, 3, 1, 2, 5)                                      \
   INST3(reassign2, T, A<T>, T, 2, 3, 3, 2) INST3(reassign2, T, A<T>, T, 2, 3, 1, 1) INST3(reassign2, T, A<T>, T, 1, 1, 2, 3)
RES2(U2, double) RES2(U2, int) RES2(G2, double)

// ------------------------------------------------------------------ arguments outside the array are rejected, every size
namespace guard {
template <class A> OB void rem_pos_lo(A& a, long p, long c) {
   REQUIRE(p < 0);
   a.remove(p, c);
   FAIL();
}
template <class A> OB void rem_pos_hi(A& a, long p, long c) {
   REQUIRE(p >= len(a));
   a.remove(p, c);
   FAIL();
}
template <class A> OB void rem_cnt(A& a, long p, long c) {
   REQUIRE(c <= 0);
   a.remove(p, c);
   FAIL();
}
template <class A> OB void rem_end(A& a, long p, long c) {
   REQUIRE(p + c - 1 >= len(a));
   a.remove(p, c);
   FAIL();
}
template <class A> OB void rem_tag_lo(A& a, long p, long c) {
   REQUIRE(p < 0);
   a.remove(Pos{p}, Count{c});
   FAIL();
}
template <class A> OB void rem_tag_end(A& a, long p, long c) {
   REQUIRE(p + c - 1 >= len(a));
   a.remove(Pos{p}, Count{c});
   FAIL();
}
template <class A> OB void rem_one(A& a, long p) {
   REQUIRE(p >= len(a));
   a.remove(p);
   FAIL();
}
template <class A> OB void rem_one_lo(A& a, long p) {
   REQUIRE(p < 0);
   a.remove(p);
   FAIL();
}
template <class A> OB void rem_last(A& a, long p) {
   REQUIRE(before_first(len(a), p));
   a.remove(last - p);
   FAIL();
}
template <class A> OB void rem_front(A& a, long c) {
   REQUIRE(c - 1 >= len(a));
   a.remove_front(c);
   FAIL();
}
template <class A> OB void rem_front_cnt(A& a, long c) {
   REQUIRE(c <= 0);
   a.remove_front(Count{c});
   FAIL();
}
template <class A> OB void rem_back(A& a, long c) {
   REQUIRE(len(a) - c < 0);
   a.remove_back(c);
   FAIL();
}
template <class A> OB void rem_back_cnt(A& a, long c) {
   REQUIRE(c <= 0);
   a.remove_back(Count{c});
   FAIL();
}
template <class A> OB void ins_lo(A& a, long p, double v) {
   REQUIRE(p < 0);
   a.insert(p, typename A::value_type{static_cast<typename A::builtin_type>(v)});
   FAIL();
}
template <class A> OB void ins_hi(A& a, long p, double v) {
   REQUIRE(p > len(a));
   a.insert(p, typename A::value_type{static_cast<typename A::builtin_type>(v)});
   FAIL();
}
template <class A> OB void ins_tag_hi(A& a, long p, double v) {
   REQUIRE(p > len(a));
   a.insert(Pos{p}, Value{static_cast<typename A::builtin_type>(v)});
   FAIL();
}
template <class A, class B> OB void insa_lo(A& a, long p, B& b) {
   REQUIRE(p < 0);
   a.insert(p, b);
   FAIL();
}
template <class A, class B> OB void insa_hi(A& a, long p, B& b) {
   REQUIRE(p > len(a));
   a.insert(p, b);
   FAIL();
}
template <class A, class B> OB void insa_tag_hi(A& a, long p, B& b) {
   REQUIRE(p > len(a));
   a.insert(Pos{p}, b);
   FAIL();
}
template <class A> OB void resize_neg(A& a, long n) {
   REQUIRE(n < 0);
   a.resize(n);
   FAIL();
}
template <class A> OB void resize_neg_np(A& a, long n) {
   REQUIRE(n < 0);
   a.resize(n, false);
   FAIL();
}
// index lists: unordered, repeated, outside
template <class A> OB void list_lo(A& a, long p) {
   REQUIRE(p < 0);
   std::vector<ImplicitInt> v;
   v.push_back(p);
   a.remove(v);
   FAIL();
}
template <class A> OB void list_hi(A& a, long p) {
   REQUIRE(p >= len(a));
   std::vector<ImplicitInt> v;
   v.push_back(p);
   a.remove(v);
   FAIL();
}
// two dimensions
#define G2D(name, cond, ...)                                                  \
   template <class A> OB void name(A& a, long p, long c) {                    \
      REQUIRE(cond);                                                          \
      a.__VA_ARGS__;                                                          \
      FAIL();                                                                 \
   }
G2D(rr_lo, p < 0, remove_rows(p, c))
G2D(rr_hi, p >= nr(a), remove_rows(p, c))
G2D(rr_cnt, c <= 0, remove_rows(p, c))
G2D(rr_end, p + c - 1 >= nr(a), remove_rows(p, c))
G2D(rr_tag, p + c - 1 >= nr(a), remove_rows(Pos{p}, Count{c}))
G2D(rc_lo, p < 0, remove_cols(p, c))
G2D(rc_hi, p >= nc(a), remove_cols(p, c))
G2D(rc_cnt, c <= 0, remove_cols(p, c))
G2D(rc_end, p + c - 1 >= nc(a), remove_cols(p, c))
G2D(rc_tag, p + c - 1 >= nc(a), remove_cols(Pos{p}, Count{c}))
G2D(r1_hi, p >= nr(a), remove_row(p))
G2D(r1_lo, p < 0, remove_row(p))
G2D(r1_tag, p >= nr(a), remove_row(Pos{p}))
G2D(c1_hi, p >= nc(a), remove_col(p))
G2D(c1_lo, p < 0, remove_col(p))
G2D(c1_tag, p >= nc(a), remove_col(Pos{p}))
G2D(r_last, before_first(nr(a), p), remove_row(last - p))
G2D(c_last, before_first(nc(a), p), remove_col(last - p))
G2D(rf_hi, c - 1 >= nr(a), remove_rows_front(c))
G2D(rb_hi, nr(a) - c < 0, remove_rows_back(c))
G2D(cf_hi, c - 1 >= nc(a), remove_cols_front(c))
G2D(cb_hi, nc(a) - c < 0, remove_cols_back(c))
G2D(rf_tag, c - 1 >= nr(a), remove_rows_front(Count{c}))
G2D(rb_tag, nr(a) - c < 0, remove_rows_back(Count{c}))
G2D(cf_tag, c - 1 >= nc(a), remove_cols_front(Count{c}))
G2D(cb_tag, nc(a) - c < 0, remove_cols_back(Count{c}))
G2D(rs_rneg, p < 0, resize(p, c))
G2D(rs_cneg, c < 0, resize(p, c))
G2D(rs_rneg_np, p < 0, resize(p, c, false))
G2D(rs_cneg_np, c < 0, resize(p, c, false))
G2D(rs_r0, p == 0 && c != 0, resize(p, c))
G2D(rs_c0, p != 0 && c == 0, resize(p, c))
G2D(rs_r0_np, p == 0 && c != 0, resize(p, c, false))
#define G2I(name, cond, ...)                                                  \
   template <class A, class B> OB void name(A& a, long p, B& b) {             \
      REQUIRE(cond);                                                          \
      a.__VA_ARGS__;                                                          \
      FAIL();                                                                 \
   }
G2I(ir_lo, p < 0, insert_rows(p, b))
G2I(ir_hi, p > nr(a), insert_rows(p, b))
G2I(ir_tag, p > nr(a), insert_rows(Pos{p}, b))
G2I(ic_lo, p < 0, insert_cols(p, b))
G2I(ic_hi, p > nc(a), insert_cols(p, b))
G2I(ic_tag, p > nc(a), insert_cols(Pos{p}, b))
#define G2S(name, c1, c2, ...)                                                \
   template <class A, class B> OB void name(A& a, long p, B& b) {             \
      REQUIRE(nr(a) > 0);                                                     \
      REQUIRE(nc(a) > 0);                                                     \
      REQUIRE(c1 != c2);                                                      \
      a.__VA_ARGS__;                                                          \
      FAIL();                                                                 \
   }
G2S(ir_shape, nc(a), nc(b), insert_rows(p, b))
G2S(ic_shape, nr(a), nr(b), insert_cols(p, b))
G2S(irf_shape, nc(a), nc(b), insert_rows_front(b))
G2S(irb_shape, nc(a), nc(b), insert_rows_back(b))
G2S(icf_shape, nr(a), nr(b), insert_cols_front(b))
G2S(icb_shape, nr(a), nr(b), insert_cols_back(b))
G2I(i1r_lo, p < 0, insert_row(p, b))
G2I(i1r_hi, p > nr(a), insert_row(p, b))
G2I(i1c_lo, p < 0, insert_col(p, b))
G2I(i1c_hi, p > nc(a), insert_col(p, b))
G2S(i1r_shape, nc(a), len(b), insert_row(p, b))
G2S(i1c_shape, nr(a), len(b), insert_col(p, b))
G2S(i1rf_shape, nc(a), len(b), insert_row_front(b))
G2S(i1cb_shape, nr(a), len(b), insert_col_back(b))
} // namespace guard
#define GI(f, ...) template OB void guard::f(Array1D<double>& __VA_OPT__(, ) __VA_ARGS__); template OB void guard::f(G1<int>& __VA_OPT__(, ) __VA_ARGS__);
GI(rem_pos_lo, long, long) GI(rem_pos_hi, long, long) GI(rem_cnt, long, long) GI(rem_end, long, long)
GI(rem_tag_lo, long, long) GI(rem_tag_end, long, long) GI(rem_one, long) GI(rem_one_lo, long) GI(rem_last, long)
GI(rem_front, long) GI(rem_front_cnt, long) GI(rem_back, long) GI(rem_back_cnt, long) GI(ins_lo, long, double)
GI(ins_hi, long, double) GI(ins_tag_hi, long, double) 
#undef GI
#define GI(f) template OB void guard::f(Array1D<double>&, long, Array1D<double>&);
GI(insa_lo) GI(insa_hi) GI(insa_tag_hi)
#undef GI
#define GI(f) template OB void guard::f(Array1D<double>&, long);
GI(resize_neg) GI(resize_neg_np) GI(list_lo) GI(list_hi)
#undef GI
#define GI(f) template OB void guard::f(Array2D<double>&, long, long);
GI(rr_lo) GI(rr_hi) GI(rr_cnt) GI(rr_end) GI(rr_tag) GI(rc_lo) GI(rc_hi) GI(rc_cnt) GI(rc_end) GI(rc_tag) GI(r1_hi) GI(r1_lo)
GI(r1_tag) GI(c1_hi) GI(c1_lo) GI(c1_tag) GI(r_last) GI(c_last) GI(rf_hi) GI(rb_hi) GI(cf_hi) GI(cb_hi) GI(rf_tag) GI(rb_tag)
GI(cf_tag) GI(cb_tag) GI(rs_rneg) GI(rs_cneg) GI(rs_rneg_np) GI(rs_cneg_np) GI(rs_r0) GI(rs_c0) GI(rs_r0_np)
#undef GI
#define GI(f) template OB void guard::f(Array2D<double>&, long, Array2D<double>&);
GI(ir_lo) GI(ir_hi) GI(ir_tag) GI(ic_lo) GI(ic_hi) GI(ic_tag) GI(ir_shape) GI(ic_shape) GI(irf_shape) GI(irb_shape) GI(icf_shape)
GI(icb_shape)
#undef GI
#define GI(f) template OB void guard::f(Array2D<double>&, long, Array1D<double>&);
GI(i1r_lo) GI(i1r_hi) GI(i1c_lo) GI(i1c_hi) GI(i1r_shape) GI(i1c_shape) GI(i1rf_shape) GI(i1cb_shape)

// ------------------------------------------------------------------ arguments inside the array are accepted, every size
namespace total {
template <class A> OB void rem_ok(long s1, long p, long c) {
   REQUIRE(s1 >= 0);
   A a(s1);
   REQUIRE(c > 0);
   REQUIRE(p >= 0);
   REQUIRE(p < len(a));
   REQUIRE(p + c - 1 >= 0);
   REQUIRE(p + c - 1 < len(a));
   REQUIRE(len(a) - c >= 0);
   const long n = len(a);
   a.remove(p, c);
   PROVE(len(a) == n - c);
   LIVE();
}
template <class A> OB void rem_one_ok(long s1, long p) {
   REQUIRE(s1 >= 0);
   A a(s1);
   REQUIRE(p >= 0);
   REQUIRE(p < len(a));
   const long n = len(a);
   a.remove(p);
   PROVE(len(a) == n - 1);
   LIVE();
}
template <class A, class T> OB void ins_ok(long s1, long p, T v) {
   REQUIRE(s1 >= 0);
   A a(s1);
   REQUIRE(p >= 0);
   REQUIRE(p <= len(a));
   const long n = len(a);
   a.insert(p, S_<T>{v});
   PROVE(len(a) == n + 1);
   LIVE();
}
template <class A> OB void resize_ok(long s1, long n) {
   REQUIRE(s1 >= 0);
   A a(s1);
   REQUIRE(n >= 0);
   a.resize(n);
   PROVE(len(a) == n);
   LIVE();
}
template <class A> OB void resize_np_ok(long s1, long n) {
   REQUIRE(s1 >= 0);
   A a(s1);
   REQUIRE(n >= 0);
   a.resize(n, false);
   PROVE(len(a) == n);
   LIVE();
}
template <class A> OB void resize2_ok(long s1, long s2, long m, long n) {
   REQUIRE(s1 > 0);
   REQUIRE(s2 > 0);
   REQUIRE(s1 * s2 >= 0);
   A a(s1, s2);
   REQUIRE(m > 0);
   REQUIRE(n > 0);
   REQUIRE(m * n >= 0);
   a.resize(m, n);
   PROVE(nr(a) == m);
   PROVE(nc(a) == n);
   LIVE();
}
template <class A> OB void resize2_np_ok(long s1, long s2, long m, long n) {
   REQUIRE(s1 > 0);
   REQUIRE(s2 > 0);
   REQUIRE(s1 * s2 >= 0);
   A a(s1, s2);
   REQUIRE(m > 0);
   REQUIRE(n > 0);
   REQUIRE(m * n >= 0);
   a.resize(m, n, false);
   PROVE(nr(a) == m);
   PROVE(nc(a) == n);
   LIVE();
}
} // namespace total
namespace eq {
template <class A, class B> OB void insa_size(long s1, long p, B& b) {
   REQUIRE(s1 >= 0);
   A a(s1);
   const long n = len(a), c = len(b);
   a.insert(p, b);
   PROVE(len(a) == n + c);
   LIVE();
}
template <class A> OB void rr_size(long s1, long s2, long p, long c) {
   REQUIRE(s1 > 0);
   REQUIRE(s2 > 0);
   A a(s1, s2);
   const long m = nr(a), n = nc(a);
   REQUIRE(m - c != 0);
   a.remove_rows(p, c);
   PROVE(nr(a) == m - c);
   PROVE(nc(a) == n);
   LIVE();
}
template <class A> OB void rc_size(long s1, long s2, long p, long c) {
   REQUIRE(s1 > 0);
   REQUIRE(s2 > 0);
   A a(s1, s2);
   const long m = nr(a), n = nc(a);
   REQUIRE(n - c != 0);
   a.remove_cols(p, c);
   PROVE(nr(a) == m);
   PROVE(nc(a) == n - c);
   LIVE();
}
template <class A> OB void rr_all(long s1, long s2) {
   REQUIRE(s1 > 0);
   REQUIRE(s2 > 0);
   A a(s1, s2);
   a.remove_rows(0, nr(a));
   PROVE(nr(a) == 0);
   PROVE(nc(a) == 0);
   LIVE();
}
template <class A> OB void rc_all(long s1, long s2) {
   REQUIRE(s1 > 0);
   REQUIRE(s2 > 0);
   A a(s1, s2);
   a.remove_cols(0, nc(a));
   PROVE(nr(a) == 0);
   PROVE(nc(a) == 0);
   LIVE();
}
template <class A, class B> OB void ir_size(long s1, long s2, long p, B& b) {
   REQUIRE(s1 > 0);
   REQUIRE(s2 > 0);
   A a(s1, s2);
   const long m = nr(a), n = nc(a), c = nr(b);
   REQUIRE(m > 0);
   a.insert_rows(p, b);
   PROVE(nr(a) == m + c);
   PROVE(nc(a) == n);
   LIVE();
}
template <class A, class B> OB void ic_size(long s1, long s2, long p, B& b) {
   REQUIRE(s1 > 0);
   REQUIRE(s2 > 0);
   A a(s1, s2);
   const long m = nr(a), n = nc(a), c = nc(b);
   REQUIRE(m > 0);
   a.insert_cols(p, b);
   PROVE(nr(a) == m);
   PROVE(nc(a) == n + c);
   LIVE();
}
template <class A, class B> OB void i1r_size(long s1, long s2, long p, B& b) {
   REQUIRE(s1 > 0);
   REQUIRE(s2 > 0);
   A a(s1, s2);
   const long m = nr(a), n = nc(a);
   REQUIRE(m > 0);
   a.insert_row(p, b);
   PROVE(nr(a) == m + 1);
   PROVE(nc(a) == n);
   LIVE();
}
template <class A, class B> OB void i1c_size(long s1, long s2, long p, B& b) {
   REQUIRE(s1 > 0);
   REQUIRE(s2 > 0);
   A a(s1, s2);
   const long m = nr(a), n = nc(a);
   REQUIRE(m > 0);
   a.insert_col(p, b);
   PROVE(nr(a) == m);
   PROVE(nc(a) == n + 1);
   LIVE();
}
} // namespace eq
template OB void total::rem_ok<Array1D<double>>(long, long, long); template OB void total::rem_one_ok<Array1D<double>>(long, long);
template OB void total::ins_ok<Array1D<double>>(long, long, double);
template OB void total::resize_ok<Array1D<double>>(long, long); template OB void total::resize_np_ok<Array1D<double>>(long, long);
template OB void total::resize2_ok<Array2D<double>>(long, long, long, long); template OB void total::resize2_np_ok<Array2D<double>>(long, long, long, long);
template OB void eq::insa_size<Array1D<double>>(long, long, Array1D<double>&);
template OB void eq::rr_size<Array2D<double>>(long, long, long, long); template OB void eq::rc_size<Array2D<double>>(long, long, long, long);
template OB void eq::rr_all<Array2D<double>>(long, long); template OB void eq::rc_all<Array2D<double>>(long, long);
template OB void eq::ir_size<Array2D<double>>(long, long, long, Array2D<double>&); template OB void eq::ic_size<Array2D<double>>(long, long, long, Array2D<double>&);
template OB void eq::i1r_size<Array2D<double>>(long, long, long, Array1D<double>&); template OB void eq::i1c_size<Array2D<double>>(long, long, long, Array1D<double>&);
