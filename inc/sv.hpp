#pragma once
#include "ob.hpp"
#include <strictpp/strict.hpp>
// Shorthands of the obligations. Public names of strictpp only.
using spp::Last;
using spp::last;
template <class T> using V1 = spp::Array1D<T>;
template <class T> using V2 = spp::Array2D<T>;
inline void keep(const auto& x) { ob_sink(&x); }
inline long len(const auto& a) { return a.size().val(); }
// a counting position for which i + 1 cannot leave the range of long
inline bool moderate(long i) { return i > -(1L << 62) && i < (1L << 62); }
// last - k names an element before the first / after the last / of an array of n elements; the conjuncts
// say the same thing for a moderate k, so that it does not matter in which of these forms it is tested
inline bool before_first(long n, long k) {
   return moderate(k) && n - k - 1 < 0 && n - k < 1 && n - k <= 0 && n <= k && n < k + 1 && n - (k + 1) < 0
       && n - 1 < k && n - 1 - k < 0;
}
inline bool after_last(long n, long k) {
   return moderate(k) && n - k - 1 >= n && n - k > n && k < 0 && k + 1 <= 0 && n - (k + 1) >= n;
}
inline bool within(long n, long k) {
   return moderate(k) && n - k - 1 >= 0 && n - k > 0 && n > k && n >= k + 1 && n - (k + 1) >= 0 && n - k - 1 < n
       && n - k <= n && k >= 0 && k + 1 > 0 && n - (k + 1) < n
       && n - 1 >= k && n - 1 - k >= 0;
}
inline long nr(const auto& a) { return a.rows().val(); }
inline long nc(const auto& a) { return a.cols().val(); }
// the value of an element as a builtin
inline auto at_(const auto& a, long i) { return a.un(i).val(); }
inline auto at_(const auto& a, long i, long j) { return a.un(i, j).val(); }
// the condition holds for what follows (used for class invariants of arguments)
#define ASSUME(...) __builtin_assume(__VA_ARGS__)
#define BOUND 1000000000L
// bitwise the same value (NaN equals itself, zeros are told apart)
template <class T> inline bool same(T a, T b) {
   if constexpr(sizeof(T) == 4) {
      return __builtin_bit_cast(unsigned, a) == __builtin_bit_cast(unsigned, b);
   } else if constexpr(sizeof(T) == 8) {
      return __builtin_bit_cast(unsigned long, a) == __builtin_bit_cast(unsigned long, b);
   } else if constexpr(sizeof(T) == 1) {
      return a == b;
   } else {
      return a == b || (a != a && b != b);
   }
}
template <class T> using S_ = spp::Strict<T>;
template <class T> inline bool same(S_<T> a, T b) { return same(a.val(), b); }
template <class T> inline bool same(S_<T> a, S_<T> b) { return same(a.val(), b.val()); }
// the representation of a value, to be compared by ==
template <class T> inline auto bits(T a) {
   if constexpr(sizeof(T) == 4) {
      return __builtin_bit_cast(unsigned, a);
   } else if constexpr(sizeof(T) == 8) {
      return __builtin_bit_cast(unsigned long, a);
   } else {
      return a;
   }
}

// Proofs by induction over the elements of a lazy source. The source's element function is a
// probe; GHOST is the state, STEP(element, value) is written in the probe of element i:
//  - i is the next element,
//  - the destination's element stored before still holds what was due,
//  - the element due now is `element`, holding `value`.
// DONE(n): n elements were asked for, and the last one was stored.
// The conditions are accumulated, which keeps the loop's exits simple.
#define GHOST(T)                        \
   bool ok = true;                      \
   long next = 0;                       \
   auto prev = bits(T{});               \
   S_<T> none{T{}};                     \
   const S_<T>* p = &none;
#define STEP(dst, ...)                  \
   ok &= (i == next);                   \
   ok &= (bits(p->val()) == prev);      \
   p = &(dst);                          \
   prev = bits(__VA_ARGS__);            \
   ++next;
#define DONE(n)                         \
   PROVE(ok);                           \
   PROVE(next == (n));                  \
   PROVE(bits(p->val()) == prev);       \
   LIVE();
// a probe over all elements of an m x n lazy array, in terms of the linear position
#define EACH2(m, n, ...)                                               \
   auto positions = spp::irange((m) * (n));                            \
   auto e = spp::generate(positions.view2D(m, n), [&](auto pos_) {     \
      long i = pos_.val();                                             \
      __VA_ARGS__                                                      \
   });
#define EACH1(n, ...)                                                  \
   auto e = spp::generate(spp::irange(n), [&](auto pos_) {             \
      long i = pos_.val();                                             \
      __VA_ARGS__                                                      \
   });

// arrays of a known size with arbitrary elements x[0], x[1], ...
template <class A, class T> inline A make1(const T* x, long n) {
   A a(spp::ImplicitInt{n});
   for(long i = 0; i < n; ++i)
      a.un(i) = S_<T>{x[i]};
   return a;
}
template <class A, class T> inline A make2(const T* x, long m, long n) {
   A a(spp::ImplicitInt{m}, spp::ImplicitInt{n});
   for(long i = 0; i < m * n; ++i)
      a.un(i) = S_<T>{x[i]};
   return a;
}
