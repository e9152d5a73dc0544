// Reductions, by induction over the elements: the source's element function is a probe that
// folds the elements asked for into `ref`; the reduction must return exactly `ref`, whatever
// the size. Elements asked for again (an expression using its operand twice) are not folded
// again.
#include "sv.hpp"
using namespace spp;

// fold of the elements in order, the next element being v
#define FOLD1(n, ...)                            \
   long next = 0;                                \
   bool in = true;                               \
   auto e = generate(irange(n), [&](auto pos_) { \
      long i = pos_.val();                       \
      in &= (i <= next);                         \
      T v = at_(b, i);                           \
      long after = i + 1;                        \
      [[maybe_unused]] auto upd = ref;                               \
      __VA_ARGS__;                               \
      ref = i == next ? upd : ref;               \
      next = i == next ? after : next;           \
      return S_<T>{v};                           \
   });
#define FOLD2(m, n, ...)                                         \
   long next = 0;                                                \
   bool in = true;                                               \
   auto positions = irange((m) * (n));                           \
   auto e = generate(positions.view2D(m, n), [&](auto pos_) {    \
      long i = pos_.val();                                       \
      in &= (i <= next);                                         \
      T v = at_(b, i);                                           \
      long after = i + 1;                        \
      [[maybe_unused]] auto upd = ref;                               \
      __VA_ARGS__;                               \
      ref = i == next ? upd : ref;               \
      next = i == next ? after : next;           \
      return S_<T>{v};                                           \
   });

// a single element, and more than one
#define REDUCTION(name, init, step, call, result)                                       \
   template <class T, bool One> OB void name(const Array1D<T>& b) {                     \
      long n = len(b);                                                                  \
      REQUIRE(One ? n == 1 : n > 1);                                                    \
      T ref = init;                                                                     \
      FOLD1(n, step)                                                                    \
      auto r = (call).val();                                                            \
      PROVE(in);                                                                        \
      PROVE(next == n);                                                                 \
      PROVE(same(r, result));                                                           \
      LIVE();                                                                           \
   }                                                                                    \
   template <class T, bool One> OB void name##_2(const Array1D<T>& b, long m, long k) { \
      REQUIRE(m > 0);                                                                   \
      REQUIRE(k > 0);                                                                   \
      long n = m * k;                                                                   \
      REQUIRE(One ? n == 1 : n > 1);                                                    \
      T ref = init;                                                                     \
      FOLD2(m, k, step)                                                                 \
      auto r = (call).val();                                                            \
      PROVE(in);                                                                        \
      PROVE(next == n);                                                                 \
      PROVE(same(r, result));                                                           \
      LIVE();                                                                           \
   }
namespace eq {
REDUCTION(v_sum, T(0), upd = i == 0 ? v : ref + v, sum(e), ref)
REDUCTION(v_prod, T(0), upd = i == 0 ? v : ref * v, prod(e), ref)
REDUCTION(v_mean, T(0), upd = i == 0 ? v : ref + v, mean(e), T(ref / T(n)))
REDUCTION(v_min, T(0), upd = i == 0 ? v : v < ref ? v : ref, min(e), ref)
REDUCTION(v_max, T(0), upd = i == 0 ? v : ref < v ? v : ref, max(e), ref)
REDUCTION(v_norm_inf_pos, T(0), ASSUME(v > 0); upd = i == 0 ? v : ref < v ? v : ref, norm_inf(e), ref)
REDUCTION(v_norm_inf_neg, T(0), ASSUME(v < 0); T w = -v; upd = i == 0 ? w : ref < w ? w : ref, norm_inf(e), ref)
REDUCTION(v_norm1, T(0), T w = abss(S_<T>{v}).val(); upd = i == 0 ? w : ref + w, norm1(e), ref)
REDUCTION(v_norm1s, T(0), T w = abss(S_<T>{v}).val(); upd = i == 0 ? w : ref + w, norm1_scaled(e), T(ref / T(n)))
REDUCTION(v_norm2, T(0), T w = v * v; upd = i == 0 ? w : ref + w, norm2(e), T(std::sqrt(ref)))
REDUCTION(v_norm2s, T(0), T w = v * v; upd = i == 0 ? w : ref + w, norm2_scaled(e),
          T(T(std::sqrt(ref)) / T(std::sqrt(T(n)))))
#define LP(p, ...)                                                                                            \
   REDUCTION(v_lp##p, T(0), T w = abss(S_<T>{T(__VA_ARGS__)}).val(); upd = i == 0 ? w : ref + w, norm_lp(e, p), \
             T(std::pow(ref, T(1) / T(p))))                                                                   \
   REDUCTION(v_lps##p, T(0), T w = abss(S_<T>{T(__VA_ARGS__)}).val(); upd = i == 0 ? w : ref + w,               \
             norm_lp_scaled(e, p), T(T(std::pow(ref, T(1) / T(p))) / T(std::pow(T(n), T(1) / T(p)))))
LP(1, v)
LP(2, v* v)
LP(3, std::pow(v, T(3)))

// two operands
template <class T, bool One> OB void v_dot(const Array1D<T>& b, const Array1D<T>& c) {
   long n = len(c);
   REQUIRE(One ? n == 1 : n > 1);
   T ref = 0;
   FOLD1(n, upd = i == 0 ? T(v * at_(c, i)) : T(ref + T(v * at_(c, i))))
   T r = dot_prod(e, c).val();
   PROVE(in);
   PROVE(next == n);
   PROVE(same(r, ref));
   LIVE();
}
// Horner's rule from the highest coefficient down
template <class T, bool One> OB void v_poly(const Array1D<T>& b, T x) {
   long n = len(b);
   REQUIRE(One ? n == 1 : n > 1);
   T ref = 0;
   long next = n - 1;
   bool in = true;
   auto e = generate(irange(n), [&](auto pos_) {
      long i = pos_.val();
      in &= (i == next);
      T v = at_(b, i);
      ref = i == n - 1 ? v : T(v + T(ref * x));
      next = i - 1;
      return S_<T>{v};
   });
   T r = polynomial(e, S_<T>{x}).val();
   PROVE(in);
   PROVE(next == -1);
   PROVE(same(r, ref));
   LIVE();
}
template <class T, bool One> OB void v_gpoly(const Array1D<T>& b, const Array1D<T>& x, const Array1D<int>& p) {
   long n = len(x);
   REQUIRE(One ? n == 1 : n > 1);
   REQUIRE(len(p) == n);
   T ref = 0;
   FOLD1(n, upd = ref + v * pows(x.un(i), S_<T>{T(at_(p, i))}).val())
   T r = gpolynomial(e, x, p).val();
   PROVE(in);
   PROVE(next == n);
   PROVE(same(r, ref));
   LIVE();
}
template <class T, bool One> OB void v_poly_p(const Array1D<T>& b, T x, const Array1D<int>& p) {
   long n = len(p);
   REQUIRE(One ? n == 1 : n > 1);
   T ref = 0;
   FOLD1(n, upd = ref + v * pows(S_<T>{x}, S_<T>{T(at_(p, i))}).val())
   T r = polynomial(e, S_<T>{x}, p).val();
   PROVE(in);
   PROVE(next == n);
   PROVE(same(r, ref));
   LIVE();
}
// position and value of the first extremum
#define ARGMIN(name, op)                                                     \
   template <class T, bool One> OB void name(const Array1D<T>& b) {          \
      long n = len(b);                                                       \
      REQUIRE(One ? n == 1 : n > 1);                                         \
      T ref = 0;                                                             \
      long where = 0;                                                        \
      FOLD1(n, upd = i == 0 ? v : v op ref ? v : ref;                        \
            where = i != next ? where : i == 0 ? 0 : v op ref ? i : where)   \
      auto r = name##_index(e);                                              \
      PROVE(in);                                                             \
      PROVE(next == n);                                                      \
      PROVE(r.first.val() == where);                                         \
      PROVE(same(r.second.val(), ref));                                      \
      LIVE();                                                                \
   }
ARGMIN(min, <)
ARGMIN(max, >)
// quantifiers: all elements from the first on are asked for, up to the deciding one
#define QUANT(name, cond, call, stop)                                                    \
   template <class T, bool One> OB void name(const Array1D<T>& b, T x) {                 \
      long n = len(b);                                                                   \
      REQUIRE(One ? n == 1 : n > 1);                                                     \
      int ref = 0, hit = 0;                                                              \
      FOLD1(n, upd = 0; if((cond) == stop) hit = 1)                          \
      bool r = (call).val();                                                             \
      PROVE(in);                                                                         \
      PROVE(r == (hit ? stop : !stop));                                                                   \
      PROVE((hit ? n : next) == n);                                                               \
      LIVE();                                                                            \
   }                                                                                     \
   template <class T, bool One> OB void name##_2(const Array1D<T>& b, T x, long m, long k) { \
      REQUIRE(m > 0);                                                                    \
      REQUIRE(k > 0);                                                                    \
      long n = m * k;                                                                    \
      REQUIRE(One ? n == 1 : n > 1);                                                     \
      int ref = 0, hit = 0;                                                              \
      FOLD2(m, k, upd = 0; if((cond) == stop) hit = 1)                       \
      bool r = (call).val();                                                             \
      PROVE(in);                                                                         \
      PROVE(r == (hit ? stop : !stop));                                                                   \
      PROVE((hit ? n : next) == n);                                                               \
      LIVE();                                                                            \
   }
#define NQUANT(name, cond, call)                                                         \
   template <class T, bool One> OB void name(const Array1D<T>& b, T x) {                 \
      long n = len(b);                                                                   \
      REQUIRE(One ? n == 1 : n > 1);                                                     \
      int ref = 0, hit = 0;                                                              \
      FOLD1(n, upd = 0; if(cond) hit = 1)                                   \
      bool r = (call).val();                                                             \
      PROVE(in);                                                                         \
      PROVE(r == (hit ? false : !false));                                                                   \
      PROVE((hit ? n : next) == n);                                                               \
      LIVE();                                                                            \
   }
QUANT(q_any, v == x, any_of(e, S_<T>{x}), true)
QUANT(q_anyv, v == x, any_of(e, Value{S_<T>{x}}), true)
QUANT(q_anyf, v < x, any_of(e, [&](auto y) { return y < S_<T>{x}; }), true)
QUANT(q_all, v == x, all_of(e, S_<T>{x}), false)
QUANT(q_allv, v == x, all_of(e, Value{S_<T>{x}}), false)
QUANT(q_allf, v < x, all_of(e, [&](auto y) { return y < S_<T>{x}; }), false)
NQUANT(q_none, v == x, none_of(e, S_<T>{x}))
NQUANT(q_nonev, v == x, none_of(e, Value{S_<T>{x}}))
NQUANT(q_nonef, v < x, none_of(e, [&](auto y) { return y < S_<T>{x}; }))
QUANT(q_zero, v == 0, has_zero(e), true)
QUANT(q_zeros, v == 0, all_zeros(e), false)
QUANT(q_pos, v > 0, all_pos(e), false)
QUANT(q_neg, v < 0, all_neg(e), false)
QUANT(q_npos, v <= 0, all_non_pos(e), false)
QUANT(q_nneg, v >= 0, all_non_neg(e), false)
QUANT(q_finite, __builtin_isfinite(v), all_finite(e), false)
QUANT(q_inf, __builtin_isinf(v), has_inf(e), true)
QUANT(q_nan, v != v, has_nan(e), true)
// two operands
#define QUANT2(name, cond, call, stop, tail)                                             \
   template <class T, bool One> OB void name(const Array1D<T>& b, const Array1D<T>& c) { \
      long n = len(c);                                                                   \
      REQUIRE(One ? n == 1 : n > 1);                                                     \
      int ref = 0, hit = 0;                                                              \
      FOLD1(n, upd = 0; if((cond) == stop) hit = 1)                          \
      bool r = (call).val();                                                             \
      PROVE(in);                                                                         \
      PROVE((r tail) == (hit ? stop : !stop));                                                               \
      PROVE((hit ? n : next) == n);                                                               \
      LIVE();                                                                            \
   }
QUANT2(q2_any, v < at_(c, i), any_of(e, c, [](auto y, auto z) { return y < z; }), true, )
QUANT2(q2_all, v < at_(c, i), all_of(e, c, [](auto y, auto z) { return y < z; }), false, )
QUANT2(q2_none, v < at_(c, i), none_of(e, c, [](auto y, auto z) { return y < z; }), true, == false)
QUANT2(q2_eq, v == at_(c, i), e == c, false, )
QUANT2(q2_equal, v == at_(c, i), equal(e, c), false, )
QUANT2(q2_neq, v == at_(c, i), e != c, false, == false)
// for_each visits every element once, in order, by reference
template <class T> OB void v_for_each(Array1D<T>& a) {
   long next = 0;
   bool in = true;
   REQUIRE(len(a) >= 0);
   for_each(a, [&](S_<T>& x) {
      in &= (&x == &a.un(next));
      ++next;
   });
   PROVE(in);
   PROVE(next == len(a));
   LIVE();
}
template <class T> OB void v_for_each2(Array2D<T>& a) {
   long next = 0;
   bool in = true;
   REQUIRE(len(a) >= 0);
   for_each(a, [&](S_<T>& x) {
      in &= (&x == &a.un(next));
      ++next;
   });
   PROVE(in);
   PROVE(next == len(a));
   LIVE();
}
template <class T, bool One> OB void v_blas(const Array1D<T>& b) {
   long n = len(b);
   REQUIRE(One ? n == 1 : n > 1);
   T ref = 0;
   FOLD1(n, upd = ref)
   auto r = blas_array(e);
   PROVE(in);
   PROVE(next == n);
   LIVE();
}
} // namespace eq
#define R1(name, T, One)                                            \
   template OB void eq::name<T, One>(const Array1D<T>&);            \
   template OB void eq::name##_2<T, One>(const Array1D<T>&, long, long);
#define R(name, T) R1(name, T, true) R1(name, T, false)
R(v_sum, double) R(v_sum, float) R(v_sum, int)
R(v_prod, double) R(v_prod, float) R(v_prod, int)
R(v_min, double) R(v_min, float) R(v_min, int)
R(v_max, double) R(v_max, float) R(v_max, int)
R(v_mean, double) R(v_mean, float)
R(v_norm_inf_pos, double) R(v_norm_inf_pos, float)
R(v_norm_inf_neg, double) R(v_norm_inf_neg, float)
R(v_norm1, double) R(v_norm1, float)
R(v_norm1s, double) R(v_norm1s, float)
R(v_norm2, double) R(v_norm2, float)
R(v_norm2s, double) R(v_norm2s, float)
R(v_lp1, double) R(v_lp2, double) R(v_lp3, double)
R(v_lps1, double) R(v_lps2, double) R(v_lps3, double)
#define D(T)                                                                    \
   template OB void eq::v_dot<T, true>(const Array1D<T>&, const Array1D<T>&);   \
   template OB void eq::v_dot<T, false>(const Array1D<T>&, const Array1D<T>&);
D(double) D(float) D(int)

#define X2(name, T, ...)                                            \
   template OB void eq::name<T, true>(const Array1D<T>&, __VA_ARGS__);   \
   template OB void eq::name<T, false>(const Array1D<T>&, __VA_ARGS__);
X2(v_poly, double, double) X2(v_poly, float, float) X2(v_poly, int, int)
X2(v_poly_p, double, double, const Array1D<int>&)
X2(v_gpoly, double, const Array1D<double>&, const Array1D<int>&)
template OB void eq::min<double, true>(const Array1D<double>&);
template OB void eq::min<double, false>(const Array1D<double>&);
template OB void eq::min<int, false>(const Array1D<int>&);
template OB void eq::max<double, true>(const Array1D<double>&);
template OB void eq::max<double, false>(const Array1D<double>&);
template OB void eq::max<int, false>(const Array1D<int>&);
#define Q1(name, T) X2(name, T, T) X2(name##_2, T, T, long, long)
#define Q(name) Q1(name, double) Q1(name, int)
Q(q_any) Q(q_anyv) Q(q_anyf) Q(q_all) Q(q_allv) Q(q_allf) 
X2(q_none, double, double) X2(q_nonev, int, int) X2(q_nonef, double, double)
Q(q_zero) Q(q_zeros) Q(q_pos) Q(q_neg) Q(q_npos) Q(q_nneg)
Q1(q_finite, double) Q1(q_inf, double) Q1(q_nan, double)
#define QQ(name) X2(name, double, const Array1D<double>&) X2(name, int, const Array1D<int>&)
QQ(q2_any) QQ(q2_all) QQ(q2_none) QQ(q2_eq) QQ(q2_equal) QQ(q2_neq)
template OB void eq::v_for_each(Array1D<double>&);
template OB void eq::v_for_each(Array1D<int>&);
template OB void eq::v_for_each2(Array2D<double>&);
template OB void eq::v_blas<double, true>(const Array1D<double>&);
template OB void eq::v_blas<double, false>(const Array1D<double>&);
template OB void eq::v_blas<int, false>(const Array1D<int>&);

// ---- no elements: the default
namespace total {
template <class A, class T> OB void empties(T d, bool q, long i, long j) {
   A a;
   auto x = S_<T>{d};
   auto b = S_<bool>{q};
   PROVE(same(sum(a, x), d));
   PROVE(same(prod(a, x), d));
   PROVE(same(min(a, x), d));
   PROVE(same(max(a, x), d));
   PROVE(same(dot_prod(a, a, x), d));
   PROVE(same(sum(a), T(0)));
   PROVE(same(prod(a), T(0)));
   PROVE(same(min(a), T(0)));
   PROVE(same(max(a), T(0)));
   PROVE(has_zero(a, b).val() == q);
   PROVE(all_zeros(a, b).val() == q);
   PROVE(all_pos(a, b).val() == q);
   PROVE(all_neg(a, b).val() == q);
   PROVE(all_non_pos(a, b).val() == q);
   PROVE(all_non_neg(a, b).val() == q);
   PROVE(any_of(a, x, b).val() == q);
   PROVE(all_of(a, x, b).val() == q);
   PROVE(none_of(a, x, b).val() == q);
   PROVE(any_of(a, a, [](auto u, auto v) { return u == v; }, b).val() == q);
   PROVE(all_of(a, a, [](auto u, auto v) { return u == v; }, b).val() == q);
   PROVE(none_of(a, a, [](auto u, auto v) { return u == v; }, b).val() == q);
   PROVE(!any_of(a, x).val());
   PROVE(!all_of(a, x).val());
   PROVE(!none_of(a, x).val());
   PROVE((a == a).val());
   PROVE(blas_array(a) == nullptr);
   for_each(a, [](auto&) { FAIL(); });
   if constexpr(std::floating_point<T>) {
      PROVE(same(mean(a, x), d));
      PROVE(same(norm_inf(a, x), d));
      PROVE(same(norm1(a, x), d));
      PROVE(same(norm1_scaled(a, x), d));
      PROVE(same(norm2(a, x), d));
      PROVE(same(norm2_scaled(a, x), d));
      PROVE(same(norm_lp(a, 2, x), d));
      PROVE(same(norm_lp_scaled(a, 2, x), d));
      PROVE(same(stable_sum(a, x), d));
      PROVE(same(semi_stable_sum(a, x), d));
      PROVE(same(stable_prod(a, x), d));
      PROVE(same(stable_mean(a, x), d));
      PROVE(same(stable_dot_prod(a, a, x), d));
      PROVE(same(semi_stable_dot_prod(a, a, x), d));
      PROVE(same(stable_norm1(a, x), d));
      PROVE(same(stable_norm1_scaled(a, x), d));
      PROVE(same(stable_norm2(a, x), d));
      PROVE(same(stable_norm2_scaled(a, x), d));
      PROVE(same(stable_norm_lp(a, 2, x), d));
      PROVE(same(stable_norm_lp_scaled(a, 2, x), d));
      PROVE(all_finite(a, b).val() == q);
      PROVE(has_inf(a, b).val() == q);
      PROVE(has_nan(a, b).val() == q);
      PROVE(within_tol_abs(a, a, x, b).val() == q);
      PROVE(within_tol_rel(a, a, x, x, b).val() == q);
   }
   if constexpr(A::dimension().val() == 1) {
      Array1D<int> p;
      PROVE(same(polynomial(a, x, x), d));
      PROVE(same(polynomial(a, x, p, x), d));
      PROVE(same(gpolynomial(a, a, p, x), d));
      PROVE(min_index(a).first.val() == -1);
      PROVE(max_index(a).first.val() == -1);
      PROVE(min_index(a, {index_t{i}, x}).first.val() == i);
      PROVE(max_index(a, {index_t{i}, x}).first.val() == i);
      PROVE(same(min_index(a, {index_t{i}, x}).second, d));
      PROVE(same(max_index(a, {index_t{i}, x}).second, d));
   } else {
      PROVE(std::get<0>(min_index(a)).val() == -1);
      PROVE(std::get<1>(min_index(a)).val() == -1);
      PROVE(std::get<0>(max_index(a)).val() == -1);
      PROVE(std::get<1>(max_index(a)).val() == -1);
      PROVE(std::get<0>(min_index(a, {index_t{i}, index_t{j}, x})).val() == i);
      PROVE(std::get<1>(max_index(a, {index_t{i}, index_t{j}, x})).val() == j);
   }
   LIVE();
}
// ---- small fixed shapes, all element values
// position of the first minimum/maximum in a matrix
template <long M, long N> OB void argmin2(const auto& a) {
   int best = at_(a, 0);
   long r = 0, c = 0;
   for(long i = 0; i < M; ++i)
      for(long j = 0; j < N; ++j) {
         bool lt = at_(a, i, j) < best;
         r = lt ? i : r;
         c = lt ? j : c;
         best = lt ? at_(a, i, j) : best;
      }
   auto [ri, ci, v] = min_index(a);
   PROVE(v.val() == best);
   PROVE(ri.val() == r);
   PROVE(ci.val() == c);
   LIVE();
}
template <long M, long N> OB void argmax2(const auto& a) {
   int best = at_(a, 0);
   long r = 0, c = 0;
   for(long i = 0; i < M; ++i)
      for(long j = 0; j < N; ++j) {
         bool gt = at_(a, i, j) > best;
         r = gt ? i : r;
         c = gt ? j : c;
         best = gt ? at_(a, i, j) : best;
      }
   auto [ri, ci, v] = max_index(a);
   PROVE(v.val() == best);
   PROVE(ri.val() == r);
   PROVE(ci.val() == c);
   LIVE();
}
template <long N> OB void blas(const auto& a) {
   auto p = blas_array(a);
   for(long i = 0; i < N; ++i)
      PROVE(same(p[i], at_(a, i)));
   LIVE();
}
template <long M, long N> OB void blas2(const auto& a) {
   auto p = blas_array(a);
   for(long i = 0; i < M * N; ++i)
      PROVE(same(p[i], at_(a, i)));
   LIVE();
}
// sorting: ordered, and a permutation (equal elements are not told apart)
template <class A, bool Up> OB void sort_up(const A& b) {
   A a(b);
   auto x = at_(b, 0), y = at_(b, 1);
   REQUIRE(Up ? x < y : y < x);
   sort_increasing(a);
   PROVE(at_(a, 0) == (Up ? x : y));
   PROVE(at_(a, 1) == (Up ? y : x));
   LIVE();
}
template <class A, bool Up> OB void sort_down(const A& b) {
   A a(b);
   auto x = at_(b, 0), y = at_(b, 1);
   REQUIRE(Up ? x < y : y < x);
   sort_decreasing(a);
   PROVE(at_(a, 0) == (Up ? y : x));
   PROVE(at_(a, 1) == (Up ? x : y));
   LIVE();
}
template <class A, bool Up> OB void sort_cmp(const A& b) {
   A a(b);
   auto x = at_(b, 0), y = at_(b, 1);
   REQUIRE(Up ? x < y : y < x);
   sort(a, [](auto u, auto v) { return v < u; });
   PROVE(at_(a, 0) == (Up ? y : x));
   PROVE(at_(a, 1) == (Up ? x : y));
   LIVE();
}
// closeness of arrays is closeness of every pair of elements
template <class A, bool One, bool Two> OB void tol_abs(const A& a, const A& b, double tol) {
   REQUIRE(tol > 0);
   REQUIRE(at_(a, 0) - at_(b, 0) > 0);
   REQUIRE(at_(a, 1) - at_(b, 1) > 0);
   REQUIRE(within_tol_abs(a.un(0), b.un(0), S_<double>{tol}).val() == One);
   REQUIRE(within_tol_abs(a.un(1), b.un(1), S_<double>{tol}).val() == Two);
   PROVE(within_tol_abs(a, b, S_<double>{tol}).val() == (One && Two));
   LIVE();
}
template <class A, bool One> OB void tol_rel(const A& a, const A& b, double tol) {
   REQUIRE(tol > 0);
   REQUIRE(at_(a, 0) > 0);
   REQUIRE(at_(b, 0) > 0);
   REQUIRE(at_(a, 0) - at_(b, 0) < 0);
   auto x = a.un(0), y = b.un(0);
   REQUIRE(within_tol_rel(x, y, S_<double>{tol}).val() == One);
   PROVE(within_tol_rel(a, b, S_<double>{tol}).val() == One);
   LIVE();
}
} // namespace total
template OB void total::empties<Array1D<double>>(double, bool, long, long);
template OB void total::empties<Array1D<int>>(int, bool, long, long);
template OB void total::empties<Array2D<double>>(double, bool, long, long);
template OB void total::empties<Array2D<int>>(int, bool, long, long);
template OB void total::argmin2<1, 1>(const FixedArray2D<int, 1, 1>&);
template OB void total::argmin2<2, 3>(const FixedArray2D<int, 2, 3>&);
template OB void total::argmin2<3, 1>(const FixedArray2D<int, 3, 1>&);
template OB void total::argmax2<1, 1>(const FixedArray2D<int, 1, 1>&);
template OB void total::argmax2<2, 3>(const FixedArray2D<int, 2, 3>&);
template OB void total::argmax2<3, 1>(const FixedArray2D<int, 3, 1>&);
template OB void total::blas<1>(const FixedArray1D<double, 1>&);
template OB void total::blas<5>(const FixedArray1D<double, 5>&);
template OB void total::blas<3>(const FixedArray1D<int, 3>&);
template OB void total::blas2<2, 3>(const FixedArray2D<double, 2, 3>&);
#define SORT(...)                                              \
   template OB void total::sort_up<__VA_ARGS__, true>(const __VA_ARGS__&);    \
   template OB void total::sort_up<__VA_ARGS__, false>(const __VA_ARGS__&);   \
   template OB void total::sort_down<__VA_ARGS__, true>(const __VA_ARGS__&);  \
   template OB void total::sort_down<__VA_ARGS__, false>(const __VA_ARGS__&); \
   template OB void total::sort_cmp<__VA_ARGS__, true>(const __VA_ARGS__&);   \
   template OB void total::sort_cmp<__VA_ARGS__, false>(const __VA_ARGS__&);
#ifndef SV_MODE_RV // without the checks the optimiser keeps the loops of std::sort
SORT(FixedArray1D<int, 2>) SORT(FixedArray1D<double, 2>)
#endif
template OB void total::tol_abs<FixedArray1D<double, 2>, true, true>(const FixedArray1D<double, 2>&, const FixedArray1D<double, 2>&, double);
template OB void total::tol_abs<FixedArray1D<double, 2>, true, false>(const FixedArray1D<double, 2>&, const FixedArray1D<double, 2>&, double);
template OB void total::tol_abs<FixedArray1D<double, 2>, false, true>(const FixedArray1D<double, 2>&, const FixedArray1D<double, 2>&, double);
template OB void total::tol_abs<FixedArray1D<double, 2>, false, false>(const FixedArray1D<double, 2>&, const FixedArray1D<double, 2>&, double);
template OB void total::tol_rel<FixedArray1D<double, 1>, true>(const FixedArray1D<double, 1>&, const FixedArray1D<double, 1>&, double);
template OB void total::tol_rel<FixedArray1D<double, 1>, false>(const FixedArray1D<double, 1>&, const FixedArray1D<double, 1>&, double);
