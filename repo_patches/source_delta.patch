From aed3c629e31fa1d1801fd3be2c6ef890e8bba81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:46 +0000
Subject: [PATCH 01/21] fix: two-dimensional array keeps its shape on self-move
 assignment

---
 strictpp/array_base2D.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/strictpp/array_base2D.hpp b/strictpp/array_base2D.hpp
index 8fa29be..9d6d0ca 100644
--- a/strictpp/array_base2D.hpp
+++ b/strictpp/array_base2D.hpp
@@ -219,9 +219,11 @@ STRICT_CONSTEXPR ArrayBase2D<T, AF>& ArrayBase2D<T, AF>::operator=(const ArrayBa
 
 template <Builtin T, AlignmentFlag AF>
 STRICT_CONSTEXPR ArrayBase2D<T, AF>& ArrayBase2D<T, AF>::operator=(ArrayBase2D&& A) noexcept {
-   NORMAL_ASSERT_STRICT_DEBUG(same_size(*this, A));
-   A.dims_ = 0_sl;
-   data1D_ = std::move(A.data1D_);
+   if(this != &A) {
+      NORMAL_ASSERT_STRICT_DEBUG(same_size(*this, A));
+      A.dims_ = 0_sl;
+      data1D_ = std::move(A.data1D_);
+   }
    return *this;
 }
 
-- 
2.43.0


From 1af2919d953d0bd98f872d3207ca9b4678bf5242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:46 +0000
Subject: [PATCH 02/21] fix: remove_row and remove_col honour the offset of
 last - n

---
 strictpp/array_base2D.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strictpp/array_base2D.hpp b/strictpp/array_base2D.hpp
index 9d6d0ca..f00ebe7 100644
--- a/strictpp/array_base2D.hpp
+++ b/strictpp/array_base2D.hpp
@@ -365,8 +365,8 @@ STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_row(Pos row_pos) {
 
 
 template <Builtin T, AlignmentFlag AF>
-STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_row([[maybe_unused]] Last lst) {
-   return this->remove_row(this->rows() - 1_sl);
+STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_row(Last lst) {
+   return this->remove_row(this->rows() - 1_sl - lst.get());
 }
 
 
@@ -383,8 +383,8 @@ STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_col(Pos col_pos) {
 
 
 template <Builtin T, AlignmentFlag AF>
-STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_col([[maybe_unused]] Last lst) {
-   return this->remove_col(this->cols() - 1_sl);
+STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_col(Last lst) {
+   return this->remove_col(this->cols() - 1_sl - lst.get());
 }
 
 
-- 
2.43.0


From 9b39f70ec45e64f00f8db45a733828bda4c7844c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:46 +0000
Subject: [PATCH 03/21] fix: exclude honours the offset of last - n

---
 strictpp/Expr/special.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strictpp/Expr/special.hpp b/strictpp/Expr/special.hpp
index 68f8919..0acc037 100644
--- a/strictpp/Expr/special.hpp
+++ b/strictpp/Expr/special.hpp
@@ -76,7 +76,7 @@ STRICT_CONSTEXPR auto exclude(const Base& A, Pos pos, Count count = Count{1});
 
 
 template <OneDimBaseType Base>
-STRICT_CONSTEXPR auto exclude(const Base& A, [[maybe_unused]] Last lst);
+STRICT_CONSTEXPR auto exclude(const Base& A, Last lst);
 
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
@@ -410,8 +410,8 @@ STRICT_CONSTEXPR auto exclude(const Base& A, Pos pos, Count count) {
 
 
 template <OneDimBaseType Base>
-STRICT_CONSTEXPR auto exclude(const Base& A, [[maybe_unused]] Last lst) {
-   return exclude(A, A.size_m1());
+STRICT_CONSTEXPR auto exclude(const Base& A, Last lst) {
+   return exclude(A, A.size_m1() - lst.get());
 }
 
 
-- 
2.43.0


From 5ec718a765b65b3453a6d6de4cecc047a7212e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:46 +0000
Subject: [PATCH 04/21] fix: disallow slicing a one-dimensional temporary with
 an index list

---
 strictpp/derived1D.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/strictpp/derived1D.hpp b/strictpp/derived1D.hpp
index 6544494..01fcbba 100644
--- a/strictpp/derived1D.hpp
+++ b/strictpp/derived1D.hpp
@@ -230,7 +230,9 @@ public:
       return operator()(std::move(slice));
    }
 
-   STRICT_CONSTEXPR auto operator()(use::IndexList list) && {
+   STRICT_CONSTEXPR auto operator()(use::IndexList list) &&
+      requires(!detail::ArrayOneDimType<StrictArrayBase1D>)
+   {
       return operator()(std::move(list));
    }
 
@@ -251,6 +253,10 @@ public:
       requires detail::ArrayOneDimType<StrictArrayBase1D>
    = delete;
 
+   STRICT_CONSTEXPR auto operator()(use::IndexList list) const&&
+      requires detail::ArrayOneDimType<StrictArrayBase1D>
+   = delete;
+
    STRICT_CONSTEXPR auto view1D() const&&
       requires detail::ArrayOneDimType<StrictArrayBase1D>
    = delete;
-- 
2.43.0


From 5bb4b6414a96aedafb58690939fbdff3e1ade82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:20 +0000
Subject: [PATCH 05/21] fix: delete tensor_prod and pow_prod for array
 temporaries

---
 strictpp/Expr/binary.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/strictpp/Expr/binary.hpp b/strictpp/Expr/binary.hpp
index d435432..002b5b1 100644
--- a/strictpp/Expr/binary.hpp
+++ b/strictpp/Expr/binary.hpp
@@ -165,7 +165,8 @@ auto two_prod(Base1&& A1, Base2&& A2) = delete;
 
 
 template <typename Base1, typename Base2>
-   requires(detail::FloatingExprDeleted<Base1, Base2>)
+   requires(FloatingBaseType<RemoveRef<Base1>> && SignedIntegerBaseType<RemoveRef<Base2>>)
+        && (detail::ArrayFloatingTypeRvalue<Base1> || detail::ArrayIntegerTypeRvalue<Base2>)
 auto pow_prod(Base1&& A1, Base2&& A2) = delete;
 
 
@@ -426,8 +427,9 @@ template <OneDimRealBaseType Base1, OneDimRealBaseType Base2>
 STRICT_CONSTEXPR auto tensor_prod(const Base1& A1, const Base2& A2);
 
 
-template <OneDimRealBaseType Base1, OneDimRealBaseType Base2>
-   requires(detail::RealExprDeleted<Base1, Base2>)
+template <typename Base1, typename Base2>
+   requires OneDimRealBaseType<RemoveRef<Base1>> && OneDimRealBaseType<RemoveRef<Base2>>
+            && (detail::ArrayRealTypeRvalue<Base1> || detail::ArrayRealTypeRvalue<Base2>)
 STRICT_CONSTEXPR auto tensor_prod(Base1&& A1, Base2&& A2) = delete;
 
 
-- 
2.43.0


From e8112ba1dede717dcfcd4678ad713884e4ec40c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:20 +0000
Subject: [PATCH 06/21] fix: delete generate for array temporaries

---
 strictpp/Expr/binary.hpp | 5 +++++
 strictpp/Expr/unary.hpp  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/strictpp/Expr/binary.hpp b/strictpp/Expr/binary.hpp
index 002b5b1..458d899 100644
--- a/strictpp/Expr/binary.hpp
+++ b/strictpp/Expr/binary.hpp
@@ -94,6 +94,11 @@ auto pow_prod(const Base1& A1, const Base2& A2);
 // a deleted overload in some cases, such as Array1D<double>(3) + 1._sd.
 
 
+template <typename Base1, typename Base2, typename F>
+   requires(detail::ArrayTypeRvalue<Base1> || detail::ArrayTypeRvalue<Base2>)
+STRICT_CONSTEXPR auto generate(Base1&& A1, Base2&& A2, F f) = delete;
+
+
 template <typename Base1, typename Base2>
    requires(detail::RealExprDeleted<Base1, Base2>)
 STRICT_CONSTEXPR auto operator+(Base1&& A1, Base2&& A2) = delete;
diff --git a/strictpp/Expr/unary.hpp b/strictpp/Expr/unary.hpp
index a9f1cb8..9c0695f 100644
--- a/strictpp/Expr/unary.hpp
+++ b/strictpp/Expr/unary.hpp
@@ -100,6 +100,11 @@ STRICT_CONSTEXPR auto array_cast(const Base& A);
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 // Deleted overloads.
+template <typename Base, typename F>
+   requires detail::ArrayTypeRvalue<Base>
+STRICT_CONSTEXPR auto generate(Base&& A, F f) = delete;
+
+
 template <typename Base>
    requires detail::ArrayRealTypeRvalue<Base>
 STRICT_CONSTEXPR auto operator+(Base&& A) = delete;
-- 
2.43.0


From cd40862c1e4294e179407e2c635952cd5dd631f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:20 +0000
Subject: [PATCH 07/21] fix: matvec_prod stores its vector operand instead of a
 reference to it

---
 strictpp/Expr/binary.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/strictpp/Expr/binary.hpp b/strictpp/Expr/binary.hpp
index 458d899..319d94d 100644
--- a/strictpp/Expr/binary.hpp
+++ b/strictpp/Expr/binary.hpp
@@ -731,7 +731,10 @@ STRICT_CONSTEXPR auto matvec_prod(const Base1& A, const Base2& x) {
       }
       return s;
    };
-   return row_reduce(A, [&x, &dot](auto row) { return dot(row, x); });
+   // The product is evaluated lazily, so that x must be stored in the same way as
+   // operands of other expressions (arrays by reference, others by copy).
+   auto xE = generate(x, [](auto z) { return z; });
+   return row_reduce(A, [xE, dot](auto row) { return dot(row, xE); });
 }
 
 
-- 
2.43.0


From f9d116aa77450b7f4bbbbe238e125105ff5509b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:20 +0000
Subject: [PATCH 08/21] fix: transpose stores slice arrays and expressions by
 copy

---
 strictpp/Expr/special.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/strictpp/Expr/special.hpp b/strictpp/Expr/special.hpp
index 0acc037..170454e 100644
--- a/strictpp/Expr/special.hpp
+++ b/strictpp/Expr/special.hpp
@@ -512,9 +512,17 @@ STRICT_CONSTEXPR auto identity(ImplicitInt n) {
 
 template <TwoDimBaseType Base>
 STRICT_CONSTEXPR auto transpose(const Base& A) {
-   auto op = [&A](index_t i, index_t j) { return A.un(j, i); };
-   using E = detail::IndexExpr2D<BuiltinTypeOf<Base>, decltype(op)>;
-   return StrictArrayBase2D<E>{A.cols(), A.rows(), op};
+   auto create = [&A](auto op) {
+      using E = detail::IndexExpr2D<BuiltinTypeOf<Base>, decltype(op)>;
+      return StrictArrayBase2D<E>{A.cols(), A.rows(), op};
+   };
+   // Arrays are stored by reference, slice arrays and expressions by copy. Expression
+   // templates that generate random values cannot be copied.
+   if constexpr(detail::ArrayTwoDimType<Base> || !std::is_copy_constructible_v<Base>) {
+      return create([&A](index_t i, index_t j) { return A.un(j, i); });
+   } else {
+      return create([A](index_t i, index_t j) { return A.un(j, i); });
+   }
 }
 
 
-- 
2.43.0


From 07e3e2b32ec5b84a3f62843a42e259c22885d8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:20 +0000
Subject: [PATCH 09/21] fix: disallow mapping of array temporaries to Eigen

---
 strictpp/Eigen/map.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strictpp/Eigen/map.hpp b/strictpp/Eigen/map.hpp
index bd282f2..ff8a02b 100644
--- a/strictpp/Eigen/map.hpp
+++ b/strictpp/Eigen/map.hpp
@@ -10,6 +10,8 @@
 #include "../derived1D.hpp"
 #include "../derived2D.hpp"
 
+#include <type_traits>
+
 
 namespace spp { namespace eigen {
 
@@ -56,7 +58,7 @@ struct CopyConstTo<const T, U> {
 
 
 template <typename Base>
-   requires TwoDimOwnerType<RemoveRef<Base>>
+   requires TwoDimOwnerType<RemoveRef<Base>> && std::is_lvalue_reference_v<Base>
 auto map(Base&& A) {
    using namespace Eigen;
    using builtin_type = BuiltinTypeOf<Base>;
-- 
2.43.0


From 27c349f2760906a1a8a8ff8d6072b79032e9458a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:20 +0000
Subject: [PATCH 10/21] fix: semi_random overloads that could not be called

---
 strictpp/Util/semi_random.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/strictpp/Util/semi_random.hpp b/strictpp/Util/semi_random.hpp
index be51207..c37bcf9 100644
--- a/strictpp/Util/semi_random.hpp
+++ b/strictpp/Util/semi_random.hpp
@@ -76,7 +76,7 @@ constexpr void semi_random_not0(Base&&... A);
 
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-template <Real T, typename U>
+template <Real T>
 constexpr auto semi_random(ImplicitInt n, Strict<T> low, Strict<T> high,
                            Seed seed = Seed{One<unsigned>});
 
@@ -394,7 +394,7 @@ constexpr void semi_random_not0(Base&&... A) {
 
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-template <Real T, typename U>
+template <Real T>
 constexpr auto semi_random(ImplicitInt n, Strict<T> low, Strict<T> high, Seed seed) {
    return detail::semi_random<T>(n, low, high, seed.get());
 }
@@ -402,7 +402,7 @@ constexpr auto semi_random(ImplicitInt n, Strict<T> low, Strict<T> high, Seed se
 
 template <Real T>
 constexpr auto semi_random(Size n, Low<T> low, High<T> high, Seed seed) {
-   return semi_random<T>(n.get(), low.get(), high.get(), seed.get());
+   return semi_random<T>(n.get(), low.get(), high.get(), seed);
 }
 
 
@@ -414,7 +414,7 @@ constexpr auto semi_random(ImplicitInt n, Seed seed) {
 
 template <Builtin T>
 constexpr auto semi_random(Size n, Seed seed) {
-   return semi_random<T>(n.get(), seed.get());
+   return semi_random<T>(n.get(), seed);
 }
 
 
@@ -426,7 +426,7 @@ constexpr auto semi_random(ImplicitInt m, ImplicitInt n, Strict<T> low, Strict<T
 
 template <Real T>
 constexpr auto semi_random(Rows m, Cols n, Low<T> low, High<T> high, Seed seed) {
-   return semi_random<T>(m.get(), n.get(), low.get(), high.get(), seed.get());
+   return semi_random<T>(m.get(), n.get(), low.get(), high.get(), seed);
 }
 
 
@@ -438,7 +438,7 @@ constexpr auto semi_random(ImplicitInt m, ImplicitInt n, Seed seed) {
 
 template <Builtin T>
 constexpr auto semi_random(Rows m, Cols n, Seed seed) {
-   return semi_random<T>(m.get(), n.get(), seed.get());
+   return semi_random<T>(m.get(), n.get(), seed);
 }
 
 
@@ -451,7 +451,7 @@ constexpr auto semi_random_not0(ImplicitInt n, Strict<T> low, Strict<T> high, Se
 
 template <Real T>
 constexpr auto semi_random_not0(Size n, Low<T> low, High<T> high, Seed seed) {
-   return semi_random_not0<T>(n.get(), low.get(), high.get(), seed.get());
+   return semi_random_not0<T>(n.get(), low.get(), high.get(), seed);
 }
 
 
@@ -463,7 +463,7 @@ constexpr auto semi_random_not0(ImplicitInt n, Seed seed) {
 
 template <Real T>
 constexpr auto semi_random_not0(Size n, Seed seed) {
-   return semi_random_not0<T>(n.get(), seed.get());
+   return semi_random_not0<T>(n.get(), seed);
 }
 
 
@@ -476,7 +476,7 @@ constexpr auto semi_random_not0(ImplicitInt m, ImplicitInt n, Strict<T> low, Str
 
 template <Real T>
 constexpr auto semi_random_not0(Rows m, Cols n, Low<T> low, High<T> high, Seed seed) {
-   return semi_random_not0<T>(m.get(), n.get(), low.get(), high.get(), seed.get());
+   return semi_random_not0<T>(m.get(), n.get(), low.get(), high.get(), seed);
 }
 
 
@@ -488,7 +488,7 @@ constexpr auto semi_random_not0(ImplicitInt m, ImplicitInt n, Seed seed) {
 
 template <Real T>
 constexpr auto semi_random_not0(Rows m, Cols n, Seed seed) {
-   return semi_random_not0<T>(m.get(), n.get(), seed.get());
+   return semi_random_not0<T>(m.get(), n.get(), seed);
 }
 
 
-- 
2.43.0


From 8360832eee878e0fc773d39f57503cb3d5969dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:20 +0000
Subject: [PATCH 11/21] fix: linspace of a single point no longer divides by
 zero

---
 strictpp/Expr/special.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/strictpp/Expr/special.hpp b/strictpp/Expr/special.hpp
index 170454e..792e229 100644
--- a/strictpp/Expr/special.hpp
+++ b/strictpp/Expr/special.hpp
@@ -433,8 +433,9 @@ template <Floating T>
 STRICT_CONSTEXPR auto linspace(ImplicitInt size, Strict<T> start, Strict<T> end) {
    ASSERT_STRICT_DEBUG(size.get() > 0_sl);
    auto sz = size.get();
-   return StrictArrayBase1D<detail::SequenceExpr1D<T>>{
-      start, sz, (end - start) / strict_cast<T>(sz - 1_sl)};
+   // A single point is start itself, and avoids the division by zero.
+   auto incr = sz == 1_sl ? Zero<T> : (end - start) / strict_cast<T>(sz - 1_sl);
+   return StrictArrayBase1D<detail::SequenceExpr1D<T>>{start, sz, incr};
 }
 
 
-- 
2.43.0


From b4eb8ca3d6780b973028265fad4081e9e836c0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:52 +0000
Subject: [PATCH 12/21] fix: abss of positive zero no longer returns negative
 zero

---
 strictpp/StrictCommon/strict_math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strictpp/StrictCommon/strict_math.hpp b/strictpp/StrictCommon/strict_math.hpp
index b70c138..5792128 100644
--- a/strictpp/StrictCommon/strict_math.hpp
+++ b/strictpp/StrictCommon/strict_math.hpp
@@ -27,7 +27,7 @@ STRICT_NODISCARD_CONSTEXPR_INLINE Strict<T> abss(Strict<T> x) {
    if constexpr(UnsignedInteger<T>) {
       return x;
    } else {
-      return x > Zero<T> ? x : -x;
+      return x > Zero<T> ? x : (x == Zero<T> ? Zero<T> : -x);
    }
 }
 
-- 
2.43.0


From 656e9a6462ae7f700cf74a7f22dac055d228a59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:40 +0000
Subject: [PATCH 13/21] fix: a row of input longer than the first one was
 written past the array in release mode

---
 strictpp/array_IO.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/strictpp/array_IO.hpp b/strictpp/array_IO.hpp
index 5ca2934..7cb2620 100644
--- a/strictpp/array_IO.hpp
+++ b/strictpp/array_IO.hpp
@@ -156,6 +156,8 @@ void get_row(const std::string& line, index_t row, Array2D<T, AF>& A) {
    std::istringstream iss{line};
    index_t ncols{};
    while(iss >> x) {
+      // The row must not be longer than the first one.
+      ASSERT_STRICT_ALWAYS(ncols < A.cols());
       A(row, ncols++) = Strict{x};
    }
 
-- 
2.43.0


From 66f265f275f674add18e9335e5d566f3a399c213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:40 +0000
Subject: [PATCH 14/21] fix: a malformed last value was silently dropped when
 reading arrays

---
 strictpp/array_IO.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/strictpp/array_IO.hpp b/strictpp/array_IO.hpp
index 7cb2620..e0e659c 100644
--- a/strictpp/array_IO.hpp
+++ b/strictpp/array_IO.hpp
@@ -104,13 +104,26 @@ inline detail::ArrayFormat array_format;
 namespace detail {
 
 
+// Reads the next value if there is one. Unlike is >> x followed by is.eof(), malformed input at
+// the very end is not mistaken for the end of input.
+template <Builtin T>
+bool read_value(std::istream& is, T& x) {
+   if((is >> std::ws).eof()) {
+      return false;
+   }
+   is >> x;
+   ASSERT_STRICT_ALWAYS_MSG(!is.fail(), "Invalid input.\n");
+   return true;
+}
+
+
 template <Builtin T, AlignmentFlag AF>
 std::istream& istream_base_read(std::istream& is, Array1D<T, AF>& A) {
    T x{};
    index_t count{};
 
    Array1D<T, AF> tmp(8);
-   while(is >> x) {
+   while(read_value(is, x)) {
       tmp.un(count++) = Strict{x};
       if(tmp.size() == count) {
          tmp.resize(2_sl * count);
@@ -133,7 +146,7 @@ void get_first_row(const std::string& line, Array2D<T, AF>& A) {
    T x{};
    std::istringstream iss{line};
    index_t ncols{};
-   while(iss >> x) {
+   while(read_value(iss, x)) {
       A(0, ncols++) = Strict{x};
       if(A.cols() == ncols) {
          A.resize(1, 2_sl * ncols);
@@ -155,7 +168,7 @@ void get_row(const std::string& line, index_t row, Array2D<T, AF>& A) {
    T x{};
    std::istringstream iss{line};
    index_t ncols{};
-   while(iss >> x) {
+   while(read_value(iss, x)) {
       // The row must not be longer than the first one.
       ASSERT_STRICT_ALWAYS(ncols < A.cols());
       A(row, ncols++) = Strict{x};
-- 
2.43.0


From 8d894fa9c91c30df903f7cfb106bbdc9abcec26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:47 +0000
Subject: [PATCH 15/21] fix: assigning slices of different size terminated
 instead of throwing the error

Move assignment of StrictArrayMutable1D/2D was declared noexcept, but for
slices it copies element by element and checks the sizes first: with
STRICT_ERROR_EXCEPTIONS, a(seqN{0, 2}) = b(seqN{0, 3}) called std::terminate.
---
 strictpp/derived1D.hpp | 5 ++++-
 strictpp/derived2D.hpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/strictpp/derived1D.hpp b/strictpp/derived1D.hpp
index 01fcbba..a0a7eb2 100644
--- a/strictpp/derived1D.hpp
+++ b/strictpp/derived1D.hpp
@@ -14,6 +14,7 @@
 #include "slicearray_base1D.hpp"
 
 #include <iterator>
+#include <type_traits>
 #include <utility>
 
 
@@ -302,7 +303,9 @@ public:
       return static_cast<StrictArrayMutable1D&>(Base::operator=(A));
    }
 
-   STRICT_CONSTEXPR StrictArrayMutable1D& operator=(StrictArrayMutable1D&& A) noexcept {
+   // Slices are assigned element by element, which raises an error if sizes differ.
+   STRICT_CONSTEXPR StrictArrayMutable1D& operator=(StrictArrayMutable1D&& A) noexcept(
+      std::is_nothrow_move_assignable_v<Base>) {
       return static_cast<StrictArrayMutable1D&>(Base::operator=(static_cast<Base&&>(std::move(A))));
    }
 
diff --git a/strictpp/derived2D.hpp b/strictpp/derived2D.hpp
index b813d9b..a87a4be 100644
--- a/strictpp/derived2D.hpp
+++ b/strictpp/derived2D.hpp
@@ -15,6 +15,7 @@
 #include "slicearray_base2D.hpp"
 
 #include <iterator>
+#include <type_traits>
 #include <utility>
 
 
@@ -668,7 +669,9 @@ public:
       return static_cast<StrictArrayMutable2D&>(Base::operator=(A));
    }
 
-   STRICT_CONSTEXPR StrictArrayMutable2D& operator=(StrictArrayMutable2D&& A) noexcept {
+   // Slices are assigned element by element, which raises an error if sizes differ.
+   STRICT_CONSTEXPR StrictArrayMutable2D& operator=(StrictArrayMutable2D&& A) noexcept(
+      std::is_nothrow_move_assignable_v<Base>) {
       return static_cast<StrictArrayMutable2D&>(Base::operator=(static_cast<Base&&>(std::move(A))));
    }
 
-- 
2.43.0


From cdbc90791ed66cdd7c474d524ec5fbd4f229ca3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:55 +0000
Subject: [PATCH 16/21] fix: qualify detail::copy so that argument-dependent
 lookup does not find std::copy

Constructing an array from reverse iterators or from the iterators of an index-list slice, and assigning an
initializer list to an index-list slice, did not compile: the unqualified call was ambiguous with std::copy.
---
 strictpp/ArrayCommon/algorithm.hpp | 2 +-
 strictpp/array_base1D.hpp          | 2 +-
 strictpp/fixed_array_base1D.hpp    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/strictpp/ArrayCommon/algorithm.hpp b/strictpp/ArrayCommon/algorithm.hpp
index 2eea48b..6101171 100644
--- a/strictpp/ArrayCommon/algorithm.hpp
+++ b/strictpp/ArrayCommon/algorithm.hpp
@@ -41,7 +41,7 @@ STRICT_CONSTEXPR_INLINE void copy(It b, It e, Base& A) {
 
 template <OneDimBaseType Base>
 STRICT_CONSTEXPR_INLINE void copy(use::List1D<ValueTypeOf<Base>> L, Base& A) {
-   copy(L.begin(), L.end(), A);
+   detail::copy(L.begin(), L.end(), A);
 }
 
 
diff --git a/strictpp/array_base1D.hpp b/strictpp/array_base1D.hpp
index 1e44c11..4636968 100644
--- a/strictpp/array_base1D.hpp
+++ b/strictpp/array_base1D.hpp
@@ -188,7 +188,7 @@ template <LinearIteratorType L>
 STRICT_NODISCARD_CONSTEXPR ArrayBase1D<T, AF>::ArrayBase1D(L b, L e)
    : ArrayBase1D(abss(Strict{e - b})) {
    ASSERT_STRICT_DEBUG(e >= b);
-   copy(b, e, *this);
+   detail::copy(b, e, *this);
 }
 
 
diff --git a/strictpp/fixed_array_base1D.hpp b/strictpp/fixed_array_base1D.hpp
index f7992d5..9e7ad0a 100644
--- a/strictpp/fixed_array_base1D.hpp
+++ b/strictpp/fixed_array_base1D.hpp
@@ -106,7 +106,7 @@ template <LinearIteratorType L>
 STRICT_NODISCARD_CONSTEXPR FixedArrayBase1D<T, N, AF>::FixedArrayBase1D(L b, L e) {
    ASSERT_STRICT_DEBUG(index_t{e - b} == N.get());
    ASSERT_STRICT_DEBUG(e >= b);
-   copy(b, e, *this);
+   detail::copy(b, e, *this);
 }
 
 
-- 
2.43.0


From 17ee5666a2d6b331565ee112aca43cff0dc9c473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:46 +0000
Subject: [PATCH 17/21] fix: qualify calls taking two arrays so that ADL does
 not find std algorithms

Slices selected by an index list name std::vector in their type, so that the
unqualified generate, any_of and all_of of two such slices of one type found
std::generate, std::any_of and std::all_of and arithmetic on them did not compile.
---
 strictpp/Expr/binary.hpp      | 34 +++++++++++++++++-----------------
 strictpp/Util/error_tools.hpp |  4 ++--
 strictpp/array_ops.hpp        |  2 +-
 3 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/strictpp/Expr/binary.hpp b/strictpp/Expr/binary.hpp
index 319d94d..4fe43b0 100644
--- a/strictpp/Expr/binary.hpp
+++ b/strictpp/Expr/binary.hpp
@@ -471,93 +471,93 @@ STRICT_CONSTEXPR auto generate(const Base1& A1, const Base2& A2, F f) {
 
 template <RealBaseType Base1, RealBaseType Base2>
 STRICT_CONSTEXPR auto operator+(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryPlus{});
+   return spp::generate(A1, A2, expr::BinaryPlus{});
 }
 
 
 template <RealBaseType Base1, RealBaseType Base2>
 STRICT_CONSTEXPR auto operator-(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryMinus{});
+   return spp::generate(A1, A2, expr::BinaryMinus{});
 }
 
 
 template <RealBaseType Base1, RealBaseType Base2>
 STRICT_CONSTEXPR auto operator*(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryMult{});
+   return spp::generate(A1, A2, expr::BinaryMult{});
 }
 
 
 template <RealBaseType Base1, RealBaseType Base2>
 STRICT_CONSTEXPR auto operator/(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryDivide{});
+   return spp::generate(A1, A2, expr::BinaryDivide{});
 }
 
 
 template <IntegerBaseType Base1, IntegerBaseType Base2>
 STRICT_CONSTEXPR auto operator%(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryModulo{});
+   return spp::generate(A1, A2, expr::BinaryModulo{});
 }
 
 
 template <IntegerBaseType Base1, IntegerBaseType Base2>
 STRICT_CONSTEXPR auto operator<<(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryRightShift{});
+   return spp::generate(A1, A2, expr::BinaryRightShift{});
 }
 
 
 template <IntegerBaseType Base1, IntegerBaseType Base2>
 STRICT_CONSTEXPR auto operator>>(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryLeftShift{});
+   return spp::generate(A1, A2, expr::BinaryLeftShift{});
 }
 
 
 template <IntegerBaseType Base1, IntegerBaseType Base2>
 STRICT_CONSTEXPR auto operator&(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryBitwiseAnd{});
+   return spp::generate(A1, A2, expr::BinaryBitwiseAnd{});
 }
 
 
 template <IntegerBaseType Base1, IntegerBaseType Base2>
 STRICT_CONSTEXPR auto operator|(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryBitwiseOr{});
+   return spp::generate(A1, A2, expr::BinaryBitwiseOr{});
 }
 
 
 template <IntegerBaseType Base1, IntegerBaseType Base2>
 STRICT_CONSTEXPR auto operator^(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryBitwiseXor{});
+   return spp::generate(A1, A2, expr::BinaryBitwiseXor{});
 }
 
 
 template <BooleanBaseType Base1, BooleanBaseType Base2>
 STRICT_CONSTEXPR auto operator&&(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryBooleanAnd{});
+   return spp::generate(A1, A2, expr::BinaryBooleanAnd{});
 }
 
 
 template <BooleanBaseType Base1, BooleanBaseType Base2>
 STRICT_CONSTEXPR auto operator||(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryBooleanOr{});
+   return spp::generate(A1, A2, expr::BinaryBooleanOr{});
 }
 
 
 template <BooleanBaseType Base1, BooleanBaseType Base2>
 STRICT_CONSTEXPR auto operator^(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryBooleanXor{});
+   return spp::generate(A1, A2, expr::BinaryBooleanXor{});
 }
 
 
 template <FloatingBaseType Base1, FloatingBaseType Base2>
 auto two_prod(const Base1& A1, const Base2& A2) {
-   return std::pair{generate(A1, A2, expr::BinaryTwoProdFirst{}),
-                    generate(A1, A2, expr::BinaryTwoProdSecond{})};
+   return std::pair{spp::generate(A1, A2, expr::BinaryTwoProdFirst{}),
+                    spp::generate(A1, A2, expr::BinaryTwoProdSecond{})};
 }
 
 
 template <FloatingBaseType Base1, SignedIntegerBaseType Base2>
 auto pow_prod(const Base1& A1, const Base2& A2) {
-   return std::pair{generate(A1, A2, expr::BinaryPowProdFirst{}),
-                    generate(A1, A2, expr::BinaryPowProdSecond{})};
+   return std::pair{spp::generate(A1, A2, expr::BinaryPowProdFirst{}),
+                    spp::generate(A1, A2, expr::BinaryPowProdSecond{})};
 }
 
 
diff --git a/strictpp/Util/error_tools.hpp b/strictpp/Util/error_tools.hpp
index cd884de..969e149 100644
--- a/strictpp/Util/error_tools.hpp
+++ b/strictpp/Util/error_tools.hpp
@@ -64,7 +64,7 @@ STRICT_CONSTEXPR StrictBool within_tol_abs(
    if(A1.empty()) {
       return empty_default;
    }
-   return all_of(A1, A2, [tol](const auto& x, const auto& y) { return within_tol_abs(x, y, tol); });
+   return spp::all_of(A1, A2, [tol](const auto& x, const auto& y) { return within_tol_abs(x, y, tol); });
 }
 
 
@@ -78,7 +78,7 @@ STRICT_CONSTEXPR StrictBool within_tol_rel(
    if(A1.empty()) {
       return empty_default;
    }
-   return all_of(A1, A2, [tol, near_zero](const auto& x, const auto& y) {
+   return spp::all_of(A1, A2, [tol, near_zero](const auto& x, const auto& y) {
       return within_tol_rel(x, y, tol, near_zero);
    });
 }
diff --git a/strictpp/array_ops.hpp b/strictpp/array_ops.hpp
index 536c9f2..07c60e4 100644
--- a/strictpp/array_ops.hpp
+++ b/strictpp/array_ops.hpp
@@ -667,7 +667,7 @@ STRICT_CONSTEXPR StrictBool none_of(const Base1& A1, const Base2& A2, F f,
    if(A1.empty()) {
       return empty_default;
    }
-   return !any_of(A1, A2, f);
+   return !spp::any_of(A1, A2, f);
 }
 
 
-- 
2.43.0


From 5ece4aea8c003a77c0d2110b486adb0c801e3699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:42 +0000
Subject: [PATCH 18/21] fix: printing a 2D array of quad precision values did
 not compile

---
 strictpp/array_IO.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/strictpp/array_IO.hpp b/strictpp/array_IO.hpp
index e0e659c..623e44a 100644
--- a/strictpp/array_IO.hpp
+++ b/strictpp/array_IO.hpp
@@ -216,7 +216,11 @@ auto count_digit(Real auto number) -> int {
    if(number == 0) {
       return 1;
    }
-   return static_cast<int>(std::log10(number)) + 1;
+   if constexpr(Floating<decltype(number)>) {
+      return static_cast<int>(log10s(Strict{number}).val()) + 1;
+   } else {
+      return static_cast<int>(std::log10(number)) + 1;
+   }
 }
 
 
-- 
2.43.0


From 7b11714cf11e35daf657d625257314eae8858c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:42 +0000
Subject: [PATCH 19/21] fix: expr_traits.hpp includes the header that declares
 same_dimension_b

---
 strictpp/Expr/expr_traits.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strictpp/Expr/expr_traits.hpp b/strictpp/Expr/expr_traits.hpp
index ff2e333..8d7806d 100644
--- a/strictpp/Expr/expr_traits.hpp
+++ b/strictpp/Expr/expr_traits.hpp
@@ -4,6 +4,7 @@
 #pragma once
 
 
+#include "../ArrayCommon/array_auxiliary.hpp"
 #include "../ArrayCommon/array_traits.hpp"
 #include "../StrictCommon/common_traits.hpp"
 #include "../StrictCommon/strict_traits.hpp"
-- 
2.43.0


From e2c84ce4759a55d696d97a634447141b343d1979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:57 +0000
Subject: [PATCH 20/21] fix: semi_random and semi_random_not0 of rows and
 columns are not ambiguous for long

---
 strictpp/Util/semi_random.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strictpp/Util/semi_random.hpp b/strictpp/Util/semi_random.hpp
index c37bcf9..41323c6 100644
--- a/strictpp/Util/semi_random.hpp
+++ b/strictpp/Util/semi_random.hpp
@@ -438,7 +438,7 @@ constexpr auto semi_random(ImplicitInt m, ImplicitInt n, Seed seed) {
 
 template <Builtin T>
 constexpr auto semi_random(Rows m, Cols n, Seed seed) {
-   return semi_random<T>(m.get(), n.get(), seed);
+   return detail::semi_random<T>(m.get(), n.get(), Zero<T>, One<T>, seed.get());
 }
 
 
@@ -488,7 +488,7 @@ constexpr auto semi_random_not0(ImplicitInt m, ImplicitInt n, Seed seed) {
 
 template <Real T>
 constexpr auto semi_random_not0(Rows m, Cols n, Seed seed) {
-   return semi_random_not0<T>(m.get(), n.get(), seed);
+   return detail::semi_random_not0<T>(m.get(), n.get(), Zero<T>, One<T>, seed.get());
 }
 
 
-- 
2.43.0


From 551c8f3eb24e0a670b0dc4688454752d96514f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:27 +0000
Subject: [PATCH 21/21] fix: an unsigned literal that does not fit its type is
 rejected like a signed one

---
 strictpp/StrictCommon/strict_literals.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/strictpp/StrictCommon/strict_literals.hpp b/strictpp/StrictCommon/strict_literals.hpp
index 07489bb..9d29a58 100644
--- a/strictpp/StrictCommon/strict_literals.hpp
+++ b/strictpp/StrictCommon/strict_literals.hpp
@@ -26,11 +26,13 @@ consteval Strict<long int> operator""_sl(unsigned long long x) {
 
 
 consteval Strict<unsigned int> operator""_sui(unsigned long long x) {
+   ASSERT_STRICT_DEBUG(x <= std::numeric_limits<unsigned int>::max());
    return Strict{static_cast<unsigned int>(x)};
 }
 
 
 consteval Strict<unsigned long int> operator""_sul(unsigned long long x) {
+   ASSERT_STRICT_DEBUG(x <= std::numeric_limits<unsigned long int>::max());
    return Strict{static_cast<unsigned long int>(x)};
 }
 
-- 
2.43.0

