#include "sv.hpp"
using namespace spp;
#define INST1(ns, f)                                               \
   template OB void ns::f(Array1D<double>&, long);                 \
   template OB void ns::f(const Array1D<int>&, long);              \
   template OB void ns::f(FixedArray1D<float, 7>&, long);          \
   template OB void ns::f(const FixedArray1D<long, 1>&, long);
#define INST2(ns, f)                                               \
   template OB void ns::f(Array2D<double>&, long, long);           \
   template OB void ns::f(const Array2D<int>&, long, long);        \
   template OB void ns::f(FixedArray2D<float, 7, 3>&, long, long); \
   template OB void ns::f(const FixedArray2D<long, 2, 5>&, long, long);

namespace guard {
template <class A> OB void sub(A& a, long i) { REQUIRE(i < 0 || i >= len(a)); keep(a[i]); FAIL(); }
template <class A> OB void at(A& a, long i) { REQUIRE(i < 0 || i >= len(a)); keep(a.at(i)); FAIL(); }
template <int C, class A> OB void sub_last(A& a, long k) {
   REQUIRE(C == 0 ? before_first(len(a), k) : after_last(len(a), k));
   keep(a[last - k]);
   FAIL();
}
template <int C, class A> OB void at_last(A& a, long k) {
   REQUIRE(C == 0 ? before_first(len(a), k) : after_last(len(a), k));
   keep(a.at(last - k));
   FAIL();
}
// one clause of the index precondition fails
template <int C> bool out(const auto& a, long i, long j) {
   return C == 0 ? i < 0 : C == 1 ? i >= nr(a) : C == 2 ? j < 0 : j >= nc(a);
}
template <int C, class A> OB void call(A& a, long i, long j) {
   REQUIRE(out<C>(a, i, j));
   keep(a(i, j));
   FAIL();
}
template <int C, class A> OB void at2(A& a, long i, long j) {
   REQUIRE(out<C>(a, i, j));
   keep(a.at(i, j));
   FAIL();
}
} // namespace guard
INST1(guard, sub)
INST1(guard, at)
INST1(guard, sub_last<0>)
INST1(guard, sub_last<1>)
INST1(guard, at_last<0>)
INST1(guard, at_last<1>)
INST2(guard, call<0>)
INST2(guard, call<1>)
INST2(guard, call<2>)
INST2(guard, call<3>)
INST2(guard, at2<0>)
INST2(guard, at2<1>)
INST2(guard, at2<2>)
INST2(guard, at2<3>)

namespace total {
template <class A> OB void sub(A& a, long i) {
   REQUIRE(i >= 0 && i < len(a));
   PROVE(&a[i] == a.data() + i);
   PROVE(&a.un(i) == a.data() + i);
   PROVE(&a.at(i) == a.data() + i);
   LIVE();
}
template <class A> OB void call(A& a, long i, long j) {
   REQUIRE(len(a) > 0 && i >= 0 && i < nr(a) && j >= 0 && j < nc(a));
   PROVE(&a(i, j) == a.data() + (i * nc(a) + j));
   PROVE(&a.un(i, j) == a.data() + (i * nc(a) + j));
   PROVE(&a.at(i, j) == a.data() + (i * nc(a) + j));
   LIVE();
}
} // namespace total
INST1(total, sub)
INST2(total, call)

// positions counted from the end, rows from the last row and columns from the last column
namespace guard {
// one clause fails: the row (C < 2) or column is before the first / after the last one
template <int C> bool out_last(const auto& a, long k) {
   return C == 0 ? before_first(nr(a), k) : C == 1 ? after_last(nr(a), k) : C == 2 ? before_first(nc(a), k) : after_last(nc(a), k);
}
#define LASTS(name, rowcol, both)                                             \
   template <int C, class A> OB void name(A& a, long i, long k) {             \
      REQUIRE(out_last<C>(a, k));                                             \
      if constexpr(C < 2)                                                     \
         keep(rowcol(last - k, i));                                           \
      else                                                                    \
         keep(rowcol(i, last - k));                                           \
      FAIL();                                                                 \
   }                                                                          \
   template <int C, class A> OB void name##_both(A& a, long i, long k) {      \
      REQUIRE(out_last<C>(a, k));                                             \
      if constexpr(C < 2)                                                     \
         keep(rowcol(last - k, last - i));                                    \
      else                                                                    \
         keep(rowcol(last - i, last - k));                                    \
      FAIL();                                                                 \
   }
LASTS(call_last, a, )
LASTS(at_last2, a.at, )
} // namespace guard
namespace total {
template <class A> OB void sub_last(A& a, long k) {
   REQUIRE(within(len(a), k));
   PROVE(&a[last - k] == a.data() + (len(a) - k - 1));
   PROVE(&a.un(last - k) == a.data() + (len(a) - k - 1));
   PROVE(&a.at(last - k) == a.data() + (len(a) - k - 1));
   LIVE();
}
template <class A> OB void sub_last_plus(A& a, long k) {
   REQUIRE(moderate(k) && within(len(a), -k));
   PROVE(&a[last + k] == a.data() + (len(a) + k - 1));
   PROVE(&a[k + last] == a.data() + (len(a) + k - 1));
   LIVE();
}
template <class A> OB void sub_last0(A& a) {
   REQUIRE(len(a) > 0);
   PROVE(&a[last] == a.data() + (len(a) - 1));
   PROVE(&a.at(last) == a.data() + (len(a) - 1));
   LIVE();
}
template <class A> OB void call_last(A& a, long i, long j) {
   REQUIRE(len(a) > 0 && within(nr(a), i) && within(nc(a), j));
   auto at = [&](long r, long c) { return a.data() + (r * nc(a) + c); };
   long r = nr(a) - i - 1, c = nc(a) - j - 1;
   PROVE(&a(last - i, last - j) == at(r, c));
   PROVE(&a(last - i, j) == at(r, j));
   PROVE(&a(i, last - j) == at(i, c));
   PROVE(&a.at(last - i, last - j) == at(r, c));
   PROVE(&a.at(last - i, j) == at(r, j));
   PROVE(&a.at(i, last - j) == at(i, c));
   PROVE(&a.un(last - i, last - j) == at(r, c));
   PROVE(&a.un(last - i, j) == at(r, j));
   PROVE(&a.un(i, last - j) == at(i, c));
   LIVE();
}
} // namespace total
#define INSTL(f)                                                                               \
   INST2(guard, f<0>) INST2(guard, f<1>) INST2(guard, f<2>) INST2(guard, f<3>)
INSTL(call_last)
INSTL(call_last_both)
INSTL(at_last2)
INSTL(at_last2_both)
INST1(total, sub_last)
INST1(total, sub_last_plus)
INST2(total, call_last)
template OB void total::sub_last0(Array1D<double>&);
template OB void total::sub_last0(const Array1D<int>&);
template OB void total::sub_last0(FixedArray1D<float, 7>&);
