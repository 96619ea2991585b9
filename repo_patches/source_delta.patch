From 484671a85cb5429294a1e5edbece539d090f5304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:09 +0000
Subject: [PATCH 01/26] fix: compare single-element domains by the index they
 contain

Domains are equal if and only if they contain the same indices, so the
stride of a domain of length 1 must not matter.
---
 src/vsip/domain.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vsip/domain.hpp b/src/vsip/domain.hpp
index 683f6ba..f2057ca 100644
--- a/src/vsip/domain.hpp
+++ b/src/vsip/domain.hpp
@@ -219,8 +219,10 @@ Domain<1>::element_conformant(Domain<1> const& d) const VSIP_NOTHROW
 inline bool 
 Domain<1>::impl_equals(Domain const& d) const VSIP_NOTHROW
 {
+  // The stride of a domain with a single element is irrelevant.
   return this->length() == d.length() &&
-    ((this->stride() == d.stride() && this->first() == d.first()) ||
+    ((this->first() == d.first() &&
+      (this->stride() == d.stride() || this->length() == 1)) ||
      (this->stride() == -d.stride() && 
       this->first() == d.first() + (d.length() - 1) * d.stride()));
 }
-- 
2.43.0


From d5c6e3e0f31aefaaf76eced818c8701f512a6632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:09 +0000
Subject: [PATCH 02/26] fix: divide negative domain strides as signed values

The divisor is unsigned, so a negative stride was converted to a huge
unsigned value before the division.
---
 src/vsip/domain.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/vsip/domain.hpp b/src/vsip/domain.hpp
index f2057ca..25a3145 100644
--- a/src/vsip/domain.hpp
+++ b/src/vsip/domain.hpp
@@ -207,10 +207,17 @@ Domain<1>::Mem(Arg const a) VSIP_NOTHROW	      \
 OVXX_DEF_DOM1_MEMBER(impl_add_in, index_difference_type, index_, +=)
 OVXX_DEF_DOM1_MEMBER(impl_sub_out, index_difference_type, index_, -=)
 OVXX_DEF_DOM1_MEMBER(impl_mul_by, stride_scalar_type, stride_, *=)
-OVXX_DEF_DOM1_MEMBER(impl_div_by, stride_scalar_type, stride_, /=)
 
 #undef OVXX_DEF_DOM1_MEMBER
 
+inline void
+Domain<1>::impl_div_by(stride_scalar_type const a) VSIP_NOTHROW
+{
+  // Divide as signed values, as the stride may be negative.
+  this->stride_ /= static_cast<stride_type>(a);
+  assert(this->impl_is_valid());
+}
+
 
 inline bool 
 Domain<1>::element_conformant(Domain<1> const& d) const VSIP_NOTHROW
-- 
2.43.0


From 0d007a2a115a3f7f53e028a6ebe3048bd1d6053e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:09 +0000
Subject: [PATCH 03/26] fix: an empty domain intersects nothing

impl_last() wraps around for an empty domain starting at index 0.
---
 src/ovxx/domain_utils.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ovxx/domain_utils.hpp b/src/ovxx/domain_utils.hpp
index 6850044..b9cbd13 100644
--- a/src/ovxx/domain_utils.hpp
+++ b/src/ovxx/domain_utils.hpp
@@ -133,6 +133,10 @@ intersect(Domain<1> const &dom1,
 {
   OVXX_PRECONDITION(dom1.stride() == 1);
 
+  // The last index of an empty domain is meaningless.
+  if (dom1.size() == 0 || dom2.size() == 0)
+    return false;
+
   if (dom2.stride() == 1)
   {
     index_type first   = std::max(dom1.first(),     dom2.first());
-- 
2.43.0


From 030d974f6fbb6d1c96701a8db9b6e1b8ac208461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:09 +0000
Subject: [PATCH 04/26] fix: intersect domains with negative strides

---
 src/ovxx/domain_utils.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ovxx/domain_utils.hpp b/src/ovxx/domain_utils.hpp
index b9cbd13..b8d1d9f 100644
--- a/src/ovxx/domain_utils.hpp
+++ b/src/ovxx/domain_utils.hpp
@@ -149,6 +149,17 @@ intersect(Domain<1> const &dom1,
     }
     else return false;
   }
+  else if (dom2.stride() < 0)
+  {
+    // Intersect the reversed domain, then restore its direction.
+    Domain<1> rev;
+    if (!intersect(dom1,
+		   Domain<1>(dom2.impl_last(), -dom2.stride(), dom2.size()),
+		   rev))
+      return false;
+    res = Domain<1>(rev.impl_last(), -rev.stride(), rev.size());
+    return true;
+  }
   else
   {
     index_type first1  = dom1.first();
-- 
2.43.0


From 49b3316b1897d14d357db4745cf87ebbeae80d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:52 +0000
Subject: [PATCH 05/26] fix: copy all rows and columns from column-major to
 strided row-major

The general (non-unit-stride) branch passed the number of columns as the
number of rows and vice versa, so a copy between non-square matrices
wrote outside the destination and left part of it unassigned.
---
 src/ovxx/assign/copy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/assign/copy.hpp b/src/ovxx/assign/copy.hpp
index 24bc4bd..f09a850 100644
--- a/src/ovxx/assign/copy.hpp
+++ b/src/ovxx/assign/copy.hpp
@@ -210,7 +210,7 @@ void copy(LHS &lhs, RHS const &rhs, row2_type, col2_type)
   {
     copy(lhs_data.ptr(), lhs_data.stride(0), lhs_data.stride(1),
 	 rhs_data.ptr(), rhs_data.stride(0), rhs_data.stride(1),
-	 lhs.size(2, 1), lhs.size(2, 0));
+	 lhs.size(2, 0), lhs.size(2, 1));
   }
 }
 
-- 
2.43.0


From 57e84a45ad1ffdb3e33d7906623147a0c13975cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:48 +0000
Subject: [PATCH 06/26] fix: sum long strided single-precision vectors element
 by element

Summations of 4096 or more single-precision elements accessed the data
as if it had unit stride, so the sum or mean of a strided subview was
computed from elements the subview does not select.
---
 src/ovxx/reductions/reductions.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/ovxx/reductions/reductions.hpp b/src/ovxx/reductions/reductions.hpp
index b61caf2..0f70c56 100644
--- a/src/ovxx/reductions/reductions.hpp
+++ b/src/ovxx/reductions/reductions.hpp
@@ -160,33 +160,33 @@ struct extract<complex<T1>, T2>
 };
 
 template <template <typename> class R, typename T>
-T partial_sum(T const *data, std::ptrdiff_t offset, length_type len)
+T partial_sum(T const *data, std::ptrdiff_t offset, stride_type stride, length_type len)
 {
   T result = T();
-  data += offset;
+  data += offset * stride;
   if (is_sum_squared_based<R>::value)
     for (index_type i = 0; i < len; ++i)
-      result += data[i]*data[i];
+      result += data[i*stride]*data[i*stride];
   else
     for (index_type i = 0; i < len; ++i)
-      result += data[i];
+      result += data[i*stride];
   return result;
 }
 
 template <template <typename> class R, typename T>
-complex<T> partial_sum(std::pair<T const*, T const*> const &data, std::ptrdiff_t offset, length_type len)
+complex<T> partial_sum(std::pair<T const*, T const*> const &data, std::ptrdiff_t offset, stride_type stride, length_type len)
 {
   complex<T> result = complex<T>();
   if (is_sum_squared_based<R>::value)
     for (index_type i = 0; i < len; ++i)
     {
       complex<T> val = 
-        complex<T>(data.first[i + offset], data.second[i + offset]);
+        complex<T>(data.first[(i + offset)*stride], data.second[(i + offset)*stride]);
       result += val*val;
     }
   else
     for (index_type i = 0; i < len; ++i)
-      result += complex<T>(data.first[i + offset], data.second[i + offset]);
+      result += complex<T>(data.first[(i + offset)*stride], data.second[(i + offset)*stride]);
 
   return result;
 }
@@ -286,9 +286,9 @@ struct Evaluator<op::reduce<R>, be::generic,
       index_type sb = 0;
       for (; sb < subblocks - 1; ++sb)
       {
-        result += partial_sum<R>(data.ptr(), sb * max_length, max_length);
+        result += partial_sum<R>(data.ptr(), sb * max_length, data.stride(0), max_length);
       }
-      result += partial_sum<R>(data.ptr(), sb * max_length, last_subblock_size);
+      result += partial_sum<R>(data.ptr(), sb * max_length, data.stride(0), last_subblock_size);
 
       // Partial sums are accumlated in the view's natural type, even
       // for magnitude-of-squared values where the imaginary part is zero.
-- 
2.43.0


From 9a79b29b59e1894faab537a0ab51b22f34aab2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:48 +0000
Subject: [PATCH 07/26] fix: average squared magnitudes of long complex vectors

The blocked summation used for 4096 or more elements squared complex
values instead of taking their squared magnitude, so meansqval()
returned the real part of the mean square.
---
 src/ovxx/reductions/reductions.hpp | 40 +++++++++++++++---------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/ovxx/reductions/reductions.hpp b/src/ovxx/reductions/reductions.hpp
index 0f70c56..71fc817 100644
--- a/src/ovxx/reductions/reductions.hpp
+++ b/src/ovxx/reductions/reductions.hpp
@@ -131,12 +131,22 @@ template<> struct is_summation<Sum_sq_value> { static bool const value = true;};
 template<> struct is_summation<Mean_value> { static bool const value = true;};
 template<> struct is_summation<Mean_magsq_value> { static bool const value = true;};
 
-// Are intermediate values squared before summing?
+// The value an element contributes to the sum.
 template <template <typename> class R>
-struct is_sum_squared_based { static bool const value = false;};
+struct summand
+{
+  template <typename T> static T of(T const &value) { return value;}
+};
 
-template<> struct is_sum_squared_based<Sum_sq_value> { static bool const value = true;};
-template<> struct is_sum_squared_based<Mean_magsq_value> { static bool const value = true;};
+template<> struct summand<Sum_sq_value>
+{
+  template <typename T> static T of(T const &value) { return value*value;}
+};
+
+template<> struct summand<Mean_magsq_value>
+{
+  template <typename T> static T of(T const &value) { return math::magsq(value);}
+};
 
 // Is the result averaged after summing?
 template <template <typename> class R>
@@ -164,12 +174,8 @@ T partial_sum(T const *data, std::ptrdiff_t offset, stride_type stride, length_t
 {
   T result = T();
   data += offset * stride;
-  if (is_sum_squared_based<R>::value)
-    for (index_type i = 0; i < len; ++i)
-      result += data[i*stride]*data[i*stride];
-  else
-    for (index_type i = 0; i < len; ++i)
-      result += data[i*stride];
+  for (index_type i = 0; i < len; ++i, data += stride)
+    result += summand<R>::of(*data);
   return result;
 }
 
@@ -177,16 +183,10 @@ template <template <typename> class R, typename T>
 complex<T> partial_sum(std::pair<T const*, T const*> const &data, std::ptrdiff_t offset, stride_type stride, length_type len)
 {
   complex<T> result = complex<T>();
-  if (is_sum_squared_based<R>::value)
-    for (index_type i = 0; i < len; ++i)
-    {
-      complex<T> val = 
-        complex<T>(data.first[(i + offset)*stride], data.second[(i + offset)*stride]);
-      result += val*val;
-    }
-  else
-    for (index_type i = 0; i < len; ++i)
-      result += complex<T>(data.first[(i + offset)*stride], data.second[(i + offset)*stride]);
+  T const *real = data.first + offset * stride;
+  T const *imag = data.second + offset * stride;
+  for (index_type i = 0; i < len; ++i, real += stride, imag += stride)
+    result += summand<R>::of(complex<T>(*real, *imag));
 
   return result;
 }
-- 
2.43.0


From 45f46a17de142470849edf89f87b0031f26c968a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 08/26] fix: keep the imaginary part of long complex sums

The blocked summation used for 4096 or more single-precision elements
extracted the real part of the result even if the result is complex, so
sumval() and meanval() of long complex vectors lost the imaginary part.
---
 src/ovxx/reductions/reductions.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ovxx/reductions/reductions.hpp b/src/ovxx/reductions/reductions.hpp
index 71fc817..b7bd1d2 100644
--- a/src/ovxx/reductions/reductions.hpp
+++ b/src/ovxx/reductions/reductions.hpp
@@ -169,6 +169,12 @@ struct extract<complex<T1>, T2>
   static void apply(complex<T1> const& src, T2& dst) { dst = src.real();}
 };
 
+template <typename T>
+struct extract<complex<T>, complex<T> >
+{
+  static void apply(complex<T> const& src, complex<T>& dst) { dst = src;}
+};
+
 template <template <typename> class R, typename T>
 T partial_sum(T const *data, std::ptrdiff_t offset, stride_type stride, length_type len)
 {
-- 
2.43.0


From 3f33084284afc4be831b9690d3d165aa09e33678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:06 +0000
Subject: [PATCH 09/26] fix: swap matrices by (row, column) rather than by
 linear storage index

---
 src/vsip/selgen.hpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/vsip/selgen.hpp b/src/vsip/selgen.hpp
index 3682879..41ba057 100644
--- a/src/vsip/selgen.hpp
+++ b/src/vsip/selgen.hpp
@@ -256,7 +256,7 @@ invclip(const_View<Tin0, Block> v,
 namespace impl
 {
 /// Generic swapping of the content of two blocks.
-template <typename Block1, typename Block2>
+template <typename Block1, typename Block2, dimension_type D = Block1::dim>
 struct Swap
 {
   static void apply(Block1 &block1, Block2 &block2)
@@ -271,6 +271,24 @@ struct Swap
 
   }
 };
+
+/// Swap 2D blocks by (row, column), as their dimension orders may differ.
+template <typename Block1, typename Block2>
+struct Swap<Block1, Block2, 2>
+{
+  static void apply(Block1 &block1, Block2 &block2)
+  {
+    assert(block1.size(2, 0) == block2.size(2, 0));
+    assert(block1.size(2, 1) == block2.size(2, 1));
+    for (index_type r = 0; r != block1.size(2, 0); ++r)
+      for (index_type c = 0; c != block1.size(2, 1); ++c)
+      {
+	typename Block1::value_type tmp = block1.get(r, c);
+	block1.put(r, c, block2.get(r, c));
+	block2.put(r, c, tmp);
+      }
+  }
+};
 }
 
 template <typename T1, typename T2,
-- 
2.43.0


From 77763afb0c50b54bb4d006d2899a719d2ef75322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:12 +0000
Subject: [PATCH 10/26] fix: use the stride of a submatrix as its leading
 dimension in matrix-vector products

---
 src/ovxx/lapack/blas.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/lapack/blas.hpp b/src/ovxx/lapack/blas.hpp
index 8e9ba34..5b4647f 100644
--- a/src/ovxx/lapack/blas.hpp
+++ b/src/ovxx/lapack/blas.hpp
@@ -455,7 +455,7 @@ struct Evaluator<op::prod, be::blas,
 		 a.size(2, 1),       // K
 		 1.0,                // alpha
 		 data_b.ptr(), data_b.stride(0),
-		 data_a.ptr(), a.size(2, 1),
+		 data_a.ptr(), data_a.stride(0),
 		 0.0,                // beta
 		 data_r.ptr(), data_r.stride(0));
     }
@@ -535,7 +535,7 @@ struct Evaluator<op::prod, be::blas,
 		 b.size(2, 0),       // K
 		 1.0,                // alpha
 		 data_a.ptr(), data_a.stride(0),
-		 data_b.ptr(), b.size(2, 0),
+		 data_b.ptr(), data_b.stride(1),
 		 0.0,                // beta
 		 data_r.ptr(), data_r.stride(0));
     }
-- 
2.43.0


From 7087d15ae7649cdd174b85c4fcaaf2c914383cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:12 +0000
Subject: [PATCH 11/26] fix: matrix-vector products with a vector of negative
 stride

---
 src/ovxx/lapack/blas.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ovxx/lapack/blas.hpp b/src/ovxx/lapack/blas.hpp
index 5b4647f..3670cbb 100644
--- a/src/ovxx/lapack/blas.hpp
+++ b/src/ovxx/lapack/blas.hpp
@@ -115,6 +115,11 @@ gemv(char transa,				\
      T const *x, int incx,			\
      T beta, T *y, int incy)			\
 {						\
+  bool n_op = transa == 'n' || transa == 'N';	\
+  stride_type xlen = n_op ? n : m;		\
+  stride_type ylen = n_op ? m : n;		\
+  if (incx < 0) x += incx * (xlen - 1);		\
+  if (incy < 0) y += incy * (ylen - 1);		\
   B(&transa,					\
     &m, &n,					\
     &alpha,					\
-- 
2.43.0


From 2d7a550039e4f2c011b6d0ee1aa740554ba696b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:12 +0000
Subject: [PATCH 12/26] fix: don't pass BLAS strides it can't use as leading
 dimension or increment

---
 src/ovxx/lapack/blas.hpp | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/ovxx/lapack/blas.hpp b/src/ovxx/lapack/blas.hpp
index 3670cbb..eb86005 100644
--- a/src/ovxx/lapack/blas.hpp
+++ b/src/ovxx/lapack/blas.hpp
@@ -10,6 +10,7 @@
 
 #include <vsip/dda.hpp>
 #include <ovxx/view/fns_elementwise.hpp>
+#include <limits>
 
 namespace ovxx
 {
@@ -186,6 +187,14 @@ OVXX_BLAS_GER(complex<double>, geru, zgeru_)
 
 #undef OVXX_BLAS_GER
 
+/// True if BLAS can access a matrix with unit-stride rows (or columns) of
+/// length n whose distance is ld, i.e. if ld can serve as a leading dimension.
+inline bool valid_ld(stride_type ld, length_type n)
+{
+  return ld > 0 && ld >= static_cast<stride_type>(n) && 
+    ld <= std::numeric_limits<int>::max();
+}
+
 template <typename T>
 struct traits
 {
@@ -436,8 +445,10 @@ struct Evaluator<op::prod, be::blas,
     // Note: gemm is used for row type and b is restricted to unit stride.
     // gemv is used for col type and can handle any stride for b.
     bool is_a_row = is_same<order1_type, row2_type>::value;
-    return is_a_row ? ((data_a.stride(1) == 1) && (data_b.stride(0) == 1))
-                    : (data_a.stride(0) == 1);
+    return is_a_row ? ((data_a.stride(1) == 1) && (data_b.stride(0) == 1) &&
+		       blas::valid_ld(data_a.stride(0), a.size(2, 1)))
+                    : ((data_a.stride(0) == 1) && (data_b.stride(0) != 0) &&
+		       blas::valid_ld(data_a.stride(1), a.size(2, 0)));
   }
 
   static void exec(B0 &r, B1 const &a, B2 const &b)
@@ -506,8 +517,10 @@ struct Evaluator<op::prod, be::blas,
     // gemm is used for col type and a is restricted to unit stride.
     // 
     bool is_b_row = is_same<order2_type, row2_type>::value;
-    return is_b_row ? (data_b.stride(1) == 1) 
-                    : ((data_b.stride(0) == 1) && (data_a.stride(0) == 1));
+    return is_b_row ? ((data_b.stride(1) == 1) && (data_a.stride(0) != 0) &&
+		       blas::valid_ld(data_b.stride(0), b.size(2, 1)))
+                    : ((data_b.stride(0) == 1) && (data_a.stride(0) == 1) &&
+		       blas::valid_ld(data_b.stride(1), b.size(2, 0)));
   }
 
   static void exec(B0 &r, B1 const &a, B2 const &b)
@@ -580,7 +593,11 @@ struct Evaluator<op::prod, be::blas,
     bool is_b_row = is_same<order2_type, row2_type>::value;
 
     return (data_a.stride(is_a_row ? 1 : 0) == 1 &&
-            data_b.stride(is_b_row ? 1 : 0) == 1 );
+            data_b.stride(is_b_row ? 1 : 0) == 1 &&
+	    blas::valid_ld(data_a.stride(is_a_row ? 0 : 1),
+			   a.size(2, is_a_row ? 1 : 0)) &&
+	    blas::valid_ld(data_b.stride(is_b_row ? 0 : 1),
+			   b.size(2, is_b_row ? 1 : 0)));
   }
 
   static void exec(B0 &r, B1 const &a, B2 const &b)
@@ -666,7 +683,11 @@ struct Evaluator<op::gemp, be::blas,
     bool is_b_row = is_same<order2_type, row2_type>::value;
 
     return (data_a.stride(is_a_row ? 1 : 0) == 1 &&
-            data_b.stride(is_b_row ? 1 : 0) == 1 );
+            data_b.stride(is_b_row ? 1 : 0) == 1 &&
+	    blas::valid_ld(data_a.stride(is_a_row ? 0 : 1),
+			   a.size(2, is_a_row ? 1 : 0)) &&
+	    blas::valid_ld(data_b.stride(is_b_row ? 0 : 1),
+			   b.size(2, is_b_row ? 1 : 0)));
   }
 
   static void exec(B0 &r, T1 alpha, B1 const &a, B2 const &b, T2 beta)
-- 
2.43.0


From 64cfe8c2d6c86a3bd79889245887913bb6cffefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 13/26] fix: keep double precision in BLAS dot products of
 complex<double>

---
 src/ovxx/lapack/blas.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/lapack/blas.hpp b/src/ovxx/lapack/blas.hpp
index eb86005..0b45693 100644
--- a/src/ovxx/lapack/blas.hpp
+++ b/src/ovxx/lapack/blas.hpp
@@ -71,7 +71,7 @@ F(int n,					\
 {						\
   if (incx < 0) x += incx * (n-1);		\
   if (incy < 0) y += incy * (n-1);		\
-  float __complex__ retn =			\
+  T __complex__ retn =				\
     B(&n,					\
       const_cast<complex<T>*>(x), &incx,	\
       const_cast<complex<T>*>(y), &incy); 	\
-- 
2.43.0


From 1560049c8dcf527fd601549b2d3ba6fe4ad82721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 14/26] fix: gemp into a strided matrix

---
 src/ovxx/lapack/blas.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/lapack/blas.hpp b/src/ovxx/lapack/blas.hpp
index 0b45693..05341f3 100644
--- a/src/ovxx/lapack/blas.hpp
+++ b/src/ovxx/lapack/blas.hpp
@@ -671,19 +671,25 @@ struct Evaluator<op::gemp, be::blas,
     !is_split_block<B1>::value &&
     !is_split_block<B2>::value;
 
-  static bool rt_valid(B0 &, T1, B1 const &a, B2 const &b, T2)
+  static bool rt_valid(B0 &r, T1, B1 const &a, B2 const &b, T2)
   {
+    typedef typename get_block_layout<B0>::order_type order0_type;
     typedef typename get_block_layout<B1>::order_type order1_type;
     typedef typename get_block_layout<B2>::order_type order2_type;
 
+    dda::Data<B0, dda::in> data_r(r);
     dda::Data<B1, dda::in> data_a(a);
     dda::Data<B2, dda::in> data_b(b);
 
+    bool is_r_row = is_same<order0_type, row2_type>::value;
     bool is_a_row = is_same<order1_type, row2_type>::value;
     bool is_b_row = is_same<order2_type, row2_type>::value;
 
-    return (data_a.stride(is_a_row ? 1 : 0) == 1 &&
+    return (data_r.stride(is_r_row ? 1 : 0) == 1 &&
+            data_a.stride(is_a_row ? 1 : 0) == 1 &&
             data_b.stride(is_b_row ? 1 : 0) == 1 &&
+	    blas::valid_ld(data_r.stride(is_r_row ? 0 : 1),
+			   r.size(2, is_r_row ? 1 : 0)) &&
 	    blas::valid_ld(data_a.stride(is_a_row ? 0 : 1),
 			   a.size(2, is_a_row ? 1 : 0)) &&
 	    blas::valid_ld(data_b.stride(is_b_row ? 0 : 1),
-- 
2.43.0


From ba01cc40c31c2bf88bf1a8c9a2c127752e2a2ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:59 +0000
Subject: [PATCH 15/26] fix: form matrix Kronecker products in the promoted
 value type

---
 src/vsip/impl/matvec.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vsip/impl/matvec.hpp b/src/vsip/impl/matvec.hpp
index 93f8e3c..bf57576 100644
--- a/src/vsip/impl/matvec.hpp
+++ b/src/vsip/impl/matvec.hpp
@@ -255,7 +255,8 @@ impl_kron( T0 alpha, Matrix<T1, Block1> v, Matrix<T2, Block2> w)
       for ( index_type k = v.size(1); k-- > 0; )
         for ( index_type l = w.size(1); l-- > 0; ) 
         {
-          T0 val = alpha * v.get(i,k) * w.get(j,l);
+          typename return_type::value_type val =
+            alpha * v.get(i,k) * w.get(j,l);
           r.put( j + (i * w.size(0)), l + (k * w.size(1)), val );
         }
 
-- 
2.43.0


From 012c0bd0491885e3b0168b57096baddc1b2713ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:08 +0000
Subject: [PATCH 16/26] fix: round up the column length of aligned column-major
 layouts

---
 src/ovxx/layout.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/layout.hpp b/src/ovxx/layout.hpp
index b77e075..f353401 100644
--- a/src/ovxx/layout.hpp
+++ b/src/ovxx/layout.hpp
@@ -384,7 +384,7 @@ public:							   \
   {							   \
     size_[0] = size0;					   \
     size_[1] = size1;					   \
-    stride_ = size_[1];					   \
+    stride_ = size_[0];					   \
     if (stride_ % A != 0) stride_ += (A - stride_%A);	   \
   }							   \
 							   \
-- 
2.43.0


From 1a2889ab092da52dc7be7cce1ac1720083ce6568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:08 +0000
Subject: [PATCH 17/26] fix: aligned_512 is an aligned packing

---
 src/ovxx/layout.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ovxx/layout.hpp b/src/ovxx/layout.hpp
index f353401..a4a4b82 100644
--- a/src/ovxx/layout.hpp
+++ b/src/ovxx/layout.hpp
@@ -93,6 +93,7 @@ OVXX_ALIGNED(aligned_32)
 OVXX_ALIGNED(aligned_64)
 OVXX_ALIGNED(aligned_128)
 OVXX_ALIGNED(aligned_256)
+OVXX_ALIGNED(aligned_512)
 OVXX_ALIGNED(aligned_1024)
 
 #undef OVXX_ALIGNED
-- 
2.43.0


From 618d39aa46e92390aa2e18b65d794510ea87766f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:14 +0000
Subject: [PATCH 18/26] fix: count every value in its histogram bin

The width of a bin of an integer histogram need not be a whole number: with a
truncated width values were counted beyond the end of the histogram, or the
width was zero and the program crashed.  A value just below the maximum is
not carried past the last inner bin by rounding.
---
 src/vsip/impl/signal/histo.hpp | 56 ++++++++++++++++++++++++++--------
 1 file changed, 44 insertions(+), 12 deletions(-)

diff --git a/src/vsip/impl/signal/histo.hpp b/src/vsip/impl/signal/histo.hpp
index b5660df..0ea15ef 100644
--- a/src/vsip/impl/signal/histo.hpp
+++ b/src/vsip/impl/signal/histo.hpp
@@ -18,14 +18,48 @@ namespace vsip
 {
 namespace impl
 {
+/// The bin a value is counted in: 'num - 2' bins of equal width cover the
+/// range [min, max), the first and the last bin take everything outside it.
+template <typename T, bool Integral = ovxx::is_integral<T>::value>
+struct Histogram_bin
+{
+  Histogram_bin(T min, T max, length_type num)
+    : min_(min), max_(max), delta_((max - min) / (num - 2)), num_(num) {}
+
+  index_type operator()(T value) const
+  {
+    if (value < min_) return 0;
+    else if (value >= max_) return num_ - 1;
+    // Rounding must not carry a value below max past the last inner bin.
+    index_type bin = (index_type)((value - min_) / delta_);
+    return (bin < num_ - 2 ? bin : num_ - 3) + 1;
+  }
+
+  T min_, max_, delta_;
+  length_type num_;
+};
+
+/// The width of a bin need not be a whole number.
 template <typename T>
-inline index_type
-hist_bin(T min, T max, T delta, length_type num, T value)
+struct Histogram_bin<T, true>
 {
-  if (value < min) return 0;
-  else if (value >= max) return num - 1;
-  else return (index_type)(((value - min) / delta) + 1);
-} 
+  typedef unsigned long long uint_type;
+
+  Histogram_bin(T min, T max, length_type num)
+    : min_(min), max_(max), num_(num) {}
+
+  index_type operator()(T value) const
+  {
+    if (value < min_) return 0;
+    else if (value >= max_) return num_ - 1;
+    uint_type range = (uint_type)max_ - (uint_type)min_;
+    uint_type offset = (uint_type)value - (uint_type)min_;
+    return offset * (num_ - 2) / range + 1;
+  }
+
+  T min_, max_;
+  length_type num_;
+};
 
 template <dimension_type D>
 struct Histogram_accumulator;
@@ -36,12 +70,11 @@ struct Histogram_accumulator<1>
   template <typename T, typename HBlock, typename DBlock>
   static void exec(T min, T max, HBlock &hist, DBlock const &input)
   {
-    length_type num = hist.size();
-    T delta = (max - min) / (num - 2);
+    Histogram_bin<T> bin(min, max, hist.size());
 
     for (index_type i = 0; i < input.size(1, 0); ++i)
     {
-      index_type n = hist_bin(min, max, delta, num, input.get(i));
+      index_type n = bin(input.get(i));
       hist.put(n, hist.get(n) + 1);
     }
   }
@@ -53,13 +86,12 @@ struct Histogram_accumulator<2>
   template <typename T, typename HBlock, typename DBlock>
   static void exec(T min, T max, HBlock &hist, DBlock const &input)
   {
-    length_type num = hist.size();
-    T delta = (max - min) / (num - 2);
+    Histogram_bin<T> bin(min, max, hist.size());
 
     for (index_type i = 0; i < input.size(2, 0); ++i)
       for (index_type j = 0; j < input.size(2, 1); ++j)
       {
-	index_type n = hist_bin(min, max, delta, num, input.get(i, j));
+	index_type n = bin(input.get(i, j));
 	hist.put(n, hist.get(n) + 1);
       }
   }
-- 
2.43.0


From ba3ddf56607d5ccfc469778d1b3b37e03ce1f73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 19/26] fix: freqswap along columns covered only as many
 columns as there are rows

---
 src/vsip/impl/signal/freqswap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vsip/impl/signal/freqswap.hpp b/src/vsip/impl/signal/freqswap.hpp
index 3a58388..53bc6fc 100644
--- a/src/vsip/impl/signal/freqswap.hpp
+++ b/src/vsip/impl/signal/freqswap.hpp
@@ -62,7 +62,7 @@ freqswap(const_Matrix<T1, B1> in, Matrix<T2, B2> out)
   }
   else
   {
-    for (index_type c = 0; c != rows; ++c)
+    for (index_type c = 0; c != cols; ++c)
       freqswap(in.col(c), out.col(c));
   }
   return out;
-- 
2.43.0


From 143bfd503cace4322a18c6b43148d4078ba4e07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 20/26] fix: admit and release of a block without user storage
 accessed a null user pointer

---
 src/ovxx/storage/manager.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/storage/manager.hpp b/src/ovxx/storage/manager.hpp
index 455d71a..edce52e 100644
--- a/src/ovxx/storage/manager.hpp
+++ b/src/ovxx/storage/manager.hpp
@@ -206,7 +206,8 @@ public:
   }
   void admit(bool update=true)
   {
-    if (!admitted_ && !use_user_storage_ && update)
+    if (!admitted_ && !use_user_storage_ && update &&
+	user_storage_.format() != no_user_format)
       for (index_type i = 0; i < host_storage_.size(); ++i)
 	host_storage_.put(i, user_storage_.get(i));
     admitted_ = true;
@@ -214,7 +215,8 @@ public:
   void release(bool update = true)
   {
     if (!admitted_) return;
-    if (!use_user_storage_ && update)
+    if (!use_user_storage_ && update &&
+	user_storage_.format() != no_user_format)
       for (index_type i = 0; i < host_storage_.size(); ++i)
 	user_storage_.put(i, host_storage_.get(i));
     admitted_ = false;
-- 
2.43.0


From b134cf7b9c2e2b22aa8f29a74531f61a7b673b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 21/26] fix: assigning a null refcounted_ptr dereferenced it

---
 src/ovxx/refcounted.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/refcounted.hpp b/src/ovxx/refcounted.hpp
index 1ce0dc0..7d40b64 100644
--- a/src/ovxx/refcounted.hpp
+++ b/src/ovxx/refcounted.hpp
@@ -81,7 +81,7 @@ public:
     {
       if (ptr_) ptr_->decrement_count();
       ptr_ = from.ptr_;
-      ptr_->increment_count();
+      if (ptr_) ptr_->increment_count();
     }
     return *this;
   }
-- 
2.43.0


From d1c27b7769592769fdfb8d67b06d09054d62e4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 22/26] fix: jmul of mixed types was computed in the type of
 its first operand

---
 src/ovxx/math/scalar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/math/scalar.hpp b/src/ovxx/math/scalar.hpp
index bb8b48b..b6e467c 100644
--- a/src/ovxx/math/scalar.hpp
+++ b/src/ovxx/math/scalar.hpp
@@ -368,8 +368,8 @@ inline typename Promotion<complex<T1>, complex<T2> >::type
 jmul(complex<T1> t1, complex<T2> t2) VSIP_NOTHROW 
 {
   typename Promotion<complex<T1>, complex<T2> >::type retn(t1);
-  t1 *= conj(t2);
-  return t1;
+  retn *= conj(t2);
+  return retn;
 }
 
 template <typename T1, typename T2>
-- 
2.43.0


From 88d13422d25327265e40ba33d28f31b1efee6266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 23/26] fix: minmg of complex views had complex elements

---
 src/ovxx/view/fns_elementwise.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/view/fns_elementwise.hpp b/src/ovxx/view/fns_elementwise.hpp
index 6ce8eda..020a3b4 100644
--- a/src/ovxx/view/fns_elementwise.hpp
+++ b/src/ovxx/view/fns_elementwise.hpp
@@ -447,7 +447,7 @@ OVXX_BINARY_FUNC(max, Max)
 OVXX_BINARY_FUNC_SCALAR_RETN(maxmg, Maxmg)
 OVXX_BINARY_FUNC_SCALAR_RETN(maxmgsq, Maxmgsq)
 OVXX_BINARY_FUNC(min, Min)
-OVXX_BINARY_FUNC(minmg, Minmg)
+OVXX_BINARY_FUNC_SCALAR_RETN(minmg, Minmg)
 OVXX_BINARY_FUNC_SCALAR_RETN(minmgsq, Minmgsq)
 OVXX_BINARY_FUNC_RETN(ne, Ne, bool)
 OVXX_BINARY_FUNC(pow, Pow)
-- 
2.43.0


From 189f436e24eae423d46154fd69b7d753658e91fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:50 +0000
Subject: [PATCH 24/26] fix: run-time layout access reported the padded buffer
 as its size

---
 src/ovxx/dda/accessor.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ovxx/dda/accessor.hpp b/src/ovxx/dda/accessor.hpp
index 6c97dc3..03cdc02 100644
--- a/src/ovxx/dda/accessor.hpp
+++ b/src/ovxx/dda/accessor.hpp
@@ -696,8 +696,7 @@ public:
 
   length_type size(dimension_type d) const
   { return use_direct_ ? block_.size(dim, d) : layout_.size(d);}
-  length_type size() const
-  { return use_direct_ ? block_.size() : layout_.total_size();}
+  length_type size() const { return block_.size();}
 
 private:
   B &block_;
-- 
2.43.0


From e247ab8e5faea84af3c3c03dc09726524fa2c3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:33 +0000
Subject: [PATCH 25/26] fix: assigning a split-complex matrix to one of the
 other storage order did not compile

---
 src/ovxx/assign/copy.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ovxx/assign/copy.hpp b/src/ovxx/assign/copy.hpp
index f09a850..5d9a19c 100644
--- a/src/ovxx/assign/copy.hpp
+++ b/src/ovxx/assign/copy.hpp
@@ -58,6 +58,16 @@ transpose(T1 *lhs, stride_type lhs_col_stride,
       lhs[r+c*lhs_col_stride] = rhs[r*rhs_row_stride+c];
 }
 
+template <typename T1, typename T2>
+void
+transpose(std::pair<T1*, T1*> const &lhs, stride_type lhs_col_stride,
+	  std::pair<T2 const*, T2 const*> const &rhs, stride_type rhs_row_stride,
+	  length_type lhs_rows, length_type lhs_cols)
+{
+  transpose(lhs.first, lhs_col_stride, rhs.first, rhs_row_stride, lhs_rows, lhs_cols);
+  transpose(lhs.second, lhs_col_stride, rhs.second, rhs_row_stride, lhs_rows, lhs_cols);
+}
+
 template <typename T>
 void
 copy(T *lhs, stride_type lhs_stride,
-- 
2.43.0


From c32ea50709d96553556546d0c5bcf64b7b9d806a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:33 +0000
Subject: [PATCH 26/26] fix: copying interleaved-complex matrices moved half of
 the data

---
 src/ovxx/assign/copy.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ovxx/assign/copy.hpp b/src/ovxx/assign/copy.hpp
index 5d9a19c..eaa00fe 100644
--- a/src/ovxx/assign/copy.hpp
+++ b/src/ovxx/assign/copy.hpp
@@ -311,6 +311,9 @@ struct Evaluator<op::assign<2>, be::copy, void(LHS &, RHS const &)>
     is_same<rhs_value_type, lhs_value_type>::value &&
     !is_rhs_expr &&
     lhs_cost == 0 && rhs_cost == 0 &&
+    // (the pointers to interleaved data do not point to whole elements)
+    get_block_layout<LHS>::storage_format != interleaved_complex &&
+    get_block_layout<RHS>::storage_format != interleaved_complex &&
     (is_lhs_split == is_rhs_split);
 
   static bool rt_valid(LHS &, RHS const &) { return true;}
-- 
2.43.0

