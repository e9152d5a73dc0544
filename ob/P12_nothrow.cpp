// P12: what is declared not to throw, on owning and fixed-size arrays, and that it is honest: moving and swapping arrays of
// equal shape raise no error and call nothing that may throw.
#include "sv.hpp"
#include <utility>
using namespace spp;
namespace total {
template <class A> OB void declared() {
   PROVE(std::is_nothrow_move_constructible_v<A>);
   PROVE(std::is_nothrow_move_assignable_v<A>);
   PROVE(std::is_nothrow_destructible_v<A>);
   LIVE();
}
template <class A> OB void swaps(A& a, A& b) {
   PROVE(noexcept(a.swap(b)));
   a.swap(b);
   LIVE();
}
template <class A> OB void moves(A& a) {
   const void* d = a.data();
   A b(std::move(a));
   PROVE(b.data() == d);
   LIVE();
   ob_sink(&b);
}
template <class A> OB void move_assigns1(A& a, A& b) {
   REQUIRE(&a != &b && len(a) == len(b));
   a = std::move(b);
   LIVE();
}
#ifdef SV_RELEASE
template <class A> OB void move_assigns2(A& a, A& b) {
   REQUIRE(&a != &b && nr(a) == nr(b) && nc(a) == nc(b) && len(a) == len(b));
   a = std::move(b);
   LIVE();
}
#endif
template <class A> OB void move_assigns_fixed(A& a, A& b) {
   a = std::move(b);
   A c(std::move(a));
   LIVE();
   ob_sink(&c);
}
template <class A> OB void self_moves(A& a) {
   const void* d = a.data();
   long n = len(a);
   a = std::move(a);
   PROVE(a.data() == d && len(a) == n);
   LIVE();
}
#define EACH(X) X(double) X(float) X(int) X(bool)
#define INST1(T)                                                     \
   template void declared<Array1D<T>>();                             \
   template void declared<Array1D<T, Aligned>>();                    \
   template void declared<Array2D<T>>();                             \
   template void declared<Array2D<T, Aligned>>();                    \
   template void declared<FixedArray1D<T, 5>>();                     \
   template void declared<FixedArray2D<T, 2, 3>>();                  \
   template void swaps<Array1D<T>>(Array1D<T>&, Array1D<T>&);        \
   template void swaps<Array2D<T>>(Array2D<T>&, Array2D<T>&);        \
   template void swaps<Array1D<T, Aligned>>(Array1D<T, Aligned>&, Array1D<T, Aligned>&); \
   template void swaps<Array2D<T, Aligned>>(Array2D<T, Aligned>&, Array2D<T, Aligned>&); \
   template void moves<Array1D<T>>(Array1D<T>&);                     \
   template void moves<Array2D<T>>(Array2D<T>&);                     \
   template void moves<Array1D<T, Aligned>>(Array1D<T, Aligned>&);   \
   template void moves<Array2D<T, Aligned>>(Array2D<T, Aligned>&);   \
   template void self_moves<Array1D<T>>(Array1D<T>&);                \
   template void self_moves<Array2D<T>>(Array2D<T>&);                \
   template void self_moves<Array1D<T, Aligned>>(Array1D<T, Aligned>&); \
   template void self_moves<Array2D<T, Aligned>>(Array2D<T, Aligned>&); \
   template void move_assigns1<Array1D<T>>(Array1D<T>&, Array1D<T>&); \
   template void move_assigns1<Array1D<T, Aligned>>(Array1D<T, Aligned>&, Array1D<T, Aligned>&); \
   template void move_assigns_fixed<FixedArray1D<T, 5>>(FixedArray1D<T, 5>&, FixedArray1D<T, 5>&); \
   template void move_assigns_fixed<FixedArray2D<T, 2, 3>>(FixedArray2D<T, 2, 3>&, FixedArray2D<T, 2, 3>&);
EACH(INST1)
#ifdef SV_RELEASE
#define INST2(T)                                                     \
   template void move_assigns2<Array2D<T>>(Array2D<T>&, Array2D<T>&); \
   template void move_assigns2<Array2D<T, Aligned>>(Array2D<T, Aligned>&, Array2D<T, Aligned>&);
EACH(INST2)
#endif
} // namespace total
