From afc85e8c970e7aa43234815ee9e564e5b70f018d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:02 +0000
Subject: [PATCH 01/96] fix: avoid overflow of the 64-bit accumulator in the
 schoolbook middle product

tPlainMul2 summed sa products of word-size residues in one long although
the guard (use_long) only makes KARX such products safe; windows with more
than KARX terms on the short side gave wrong coefficients for 27-28 bit moduli.
---
 .../src/lzz_pX_middle_product.cpp                    | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ntl-extras/lzz_pX_middle_product/src/lzz_pX_middle_product.cpp b/ntl-extras/lzz_pX_middle_product/src/lzz_pX_middle_product.cpp
index 57efc8f..92c0692 100644
--- a/ntl-extras/lzz_pX_middle_product/src/lzz_pX_middle_product.cpp
+++ b/ntl-extras/lzz_pX_middle_product/src/lzz_pX_middle_product.cpp
@@ -45,10 +45,16 @@ void tPlainMul2(zz_p *b, long sb, const zz_p *a, long sa, const zz_p *c, long sc
     {
         for (long j = 0; j < sb; j++) 
         {
+            // use_long ensures that KARX products can be accumulated without overflow
             long accum = 0;
-            for (long i = 0; i < sa; i++) 
-                accum += rep(c[i+j]) * rep(a[i]);
-            reduce(b[j], accum, p, pinv);
+            for (long i = 0; i < sa; ) 
+            {
+                const long end = min(i + KARX, sa);
+                for (; i < end; i++)
+                    accum += rep(c[i+j]) * rep(a[i]);
+                reduce(b[j], accum, p, pinv);
+                accum = rep(b[j]);
+            }
         }
     }
 }
-- 
2.43.0


From 17111e51925c90402465b04b145488c21b332b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:12 +0000
Subject: [PATCH 02/96] fix: Taylor shift of the zero polynomial dereferenced
 an empty vector

shift(g, f, c) with f = 0 builds a shift object of bound -1, whose
constructor wrote to entry 0 of an empty vector of factorials.
---
 ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp b/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
index cebac40..4084187 100644
--- a/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
+++ b/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
@@ -367,6 +367,10 @@ void zz_pX_shift_DAC::shift(zz_pX& g, const zz_pX& f) const
 zz_pX_shift_large_characteristic::zz_pX_shift_large_characteristic(long d, const zz_p& c) 
     : zz_pX_shift(d)
 {
+    // negative bound: only the zero polynomial can be shifted, nothing to precompute
+    if (d < 0)
+        return;
+
     // fact contains the factorials 0!, 1!, 2!, ..., d!
     fact.SetLength(d+1);
     set(fact[0]);
-- 
2.43.0


From b81619e9fb69fb7e5ccc44a9aa20934f361c661c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:12 +0000
Subject: [PATCH 03/96] fix: add_LeftShift returned unnormalized or wrong
 results

When b is zero and deg(a) < k-1 the result carried leading zeros, and the
documented aliasing of the output with b overwrote b while reading it.
---
 ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp b/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
index 4084187..18758b7 100644
--- a/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
+++ b/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
@@ -447,9 +447,21 @@ void shift(zz_pX& g, const zz_pX& f, const zz_p& c)
 
 /** Computes `c = a + (b << k)`, where the left shift means multiplication by
  * `X^k`. The integer `k` must be nonnegative. The OUT parameter `c` may alias
- * `a` but not `b`. */
+ * `a` or `b`. */
 void add_LeftShift(zz_pX & c, const zz_pX & a, const zz_pX & b, const long k)
 {
+   if (IsZero(b))
+   {
+       c = a;
+       return;
+   }
+   if (&c == &b)
+   {
+       const zz_pX bb(b);
+       add_LeftShift(c, (&a == &b) ? bb : a, bb, k);
+       return;
+   }
+
    const long da = deg(a);
    const long db = deg(b)+k;
    const long minab = min(da, db);
-- 
2.43.0


From 6a5bec941187e5402889a12547a8bab30509ae17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:41 +0000
Subject: [PATCH 04/96] fix: a geometric point set of length 1 reported the
 wrong point

The points are s*r^(2i), so the only point is s, not s*r; get_s returned 1.
---
 ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
index 0e4e253..15b8828 100644
--- a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
+++ b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
@@ -104,7 +104,7 @@ zz_pX_Multipoint_Geometric::zz_pX_Multipoint_Geometric(const zz_p& r, const zz_p
     if (n==1)
     {
         pts.SetLength(1);
-        mul(pts[0], s, r);
+        pts[0] = s;
     }
 
     // bad case: we have an FFT prime of low order
@@ -255,7 +255,7 @@ zz_p zz_pX_Multipoint_Geometric::get_q() const
 zz_p zz_pX_Multipoint_Geometric::get_s() const
 {
     if (n == 1)
-        return to_zz_p(1);
+        return pts[0];
     else
         return xs[1] / x[1];
 }
-- 
2.43.0


From e75a2feea8d4418b1cdd060974e67b96bdd38be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:41 +0000
Subject: [PATCH 05/96] fix: transposed evaluation at general points ignored
 the requested output size

---
 ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_General.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_General.cpp b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_General.cpp
index 57860d0..7c91126 100644
--- a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_General.cpp
+++ b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_General.cpp
@@ -153,14 +153,16 @@ void zz_pX_Multipoint_General::interpolate(zz_pX& f, const Vec<zz_p>& val)
 
 /*------------------------------------------------------------*/
 /* transposed multipoint evaluation                           */
-/* parameter output_size not used for the moment              */
 /*------------------------------------------------------------*/
 void zz_pX_Multipoint_General::t_evaluate(zz_pX& f, const Vec<zz_p>& val, long output_size) const 
 {
+    if (output_size == -1)
+        output_size = n;
+
     zz_pX rev_num, num;
     up_tree(rev_num, tree, val);
     num = reverse(rev_num, n-1);
-    f = MulTrunc(num, inverse_root, n);
+    f = MulTrunc(num, inverse_root, output_size);
 }
 
 /*------------------------------------------------------------*/
-- 
2.43.0


From 3671766db6916e759ddececea4f764374715d8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:29 +0000
Subject: [PATCH 06/96] fix: geometric evaluation at zero points returned a
 vector of stale values

---
 ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
index 15b8828..750a821 100644
--- a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
+++ b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
@@ -349,12 +349,13 @@ void zz_pX_Multipoint_Geometric::evaluate(Vec<zz_p>& val, const zz_pX& P) const
 /*------------------------------------------------------------*/
 void zz_pX_Multipoint_Geometric::evaluate(Vec<zz_p>& val, const zz_pX& f, long nb) const
 {
-    val.SetLength(nb + n);
-
     if (nb == 0) 
     {
+        val.SetLength(0);
         return;
     }
+
+    val.SetLength(nb + n);
     
     long idx = 0;
     Vec<zz_p> tmp;
-- 
2.43.0


From 374e11cf418d9016e4173926744ff7c9a6995a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:32 +0000
Subject: [PATCH 07/96] fix: structured products by matrices (and left products
 of Toeplitz/Hankel-like matrices) silently returned nothing

---
 .../src/circulant_column_lzz_p.cpp            |  4 +++
 .../src/circulant_row_lzz_p.cpp               |  5 ++-
 .../src/hankel_like_minus_lzz_p.cpp           | 24 +++++++++++++
 .../src/hankel_like_plus_lzz_p.cpp            | 21 +++++++++++
 .../src/lower_triangular_toeplitz_lzz_p.cpp   |  4 +++
 .../src/toeplitz_like_minus_lzz_p.cpp         | 21 +++++++++++
 .../src/toeplitz_like_plus_lzz_p.cpp          | 21 +++++++++++
 .../structured_lzz_p/structured_lzz_p.h       | 35 +++++++++++++++++++
 8 files changed, 134 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp
index fe33fbf..de4dd0d 100644
--- a/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp
@@ -176,6 +176,8 @@ void circulant_column_lzz_p::mul_right(Mat<zz_p>& res, const Mat<zz_p>& input) c
         res = mul_right(input);
         return;
     }
+
+    mul_right_by_columns(res, input);
 }
 
 /*------------------------------------------------------------*/
@@ -247,6 +249,8 @@ void circulant_column_lzz_p::mul_left(Mat<zz_p>& res, const Mat<zz_p>& input) co
         res = mul_left(input);
         return;
     }
+
+    mul_left_by_rows(res, input);
 }
 
 
diff --git a/ntl-extras/structured_lzz_p/src/circulant_row_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/circulant_row_lzz_p.cpp
index 0ccf51f..8408860 100644
--- a/ntl-extras/structured_lzz_p/src/circulant_row_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/circulant_row_lzz_p.cpp
@@ -157,7 +157,8 @@ void circulant_row_lzz_p::mul_right(Mat<zz_p>& res, const Mat<zz_p>& input) cons
         res = mul_right(input);
         return;
     }
-    Error ("not implemented yet."); // todo: move to structured_lzz_p.cpp
+
+    mul_right_by_columns(res, input);
 }
 
 /*------------------------------------------------------------*/
@@ -249,6 +250,8 @@ void circulant_row_lzz_p::mul_left(Mat<zz_p>& res, const Mat<zz_p>& input) const
         res = mul_left(input);
         return;
     }
+
+    mul_left_by_rows(res, input);
 }
 
 
diff --git a/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp
index ee35dac..d7f75cd 100644
--- a/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp
@@ -113,6 +113,7 @@ void hankel_like_minus_lzz_p::mul_right(Vec<zz_p>& output, const Vec<zz_p>& inpu
 
 void hankel_like_minus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    mul_right_by_columns(out, in);
 }
 
 /*------------------------------------------------------------*/
@@ -120,10 +121,33 @@ void hankel_like_minus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) con
 /*------------------------------------------------------------*/
 void hankel_like_minus_lzz_p::mul_left(Vec<zz_p>& out, const Vec<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    out.SetLength(n);
+    for (long i = 0; i < n; i++)
+        out[i] = 0;
+
+    Vec<zz_p> tmp0, tmp1, tmp2;
+    tmp0.SetLength(m);
+    for (long i = 0; i < m; i++)
+        tmp0[i] = in[m - 1 - i];
+
+    for (long i = 0; i < NumGens(); i++)
+    {
+        lower_triangular_toeplitz_G[i].mul_left(tmp1, tmp0);
+        circulant_H[i].mul_left(tmp2, tmp1);
+        for (long j = 0; j < n; j++)
+            out[j] += tmp2[j];
+    }
 }
 
 void hankel_like_minus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    mul_left_by_rows(out, in);
 }
 
 /*------------------------------------------------------------*/
diff --git a/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
index a6d7c7d..4d23285 100644
--- a/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
@@ -109,6 +109,7 @@ void hankel_like_plus_lzz_p::mul_right(Vec<zz_p>& output, const Vec<zz_p>& input
 
 void hankel_like_plus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    mul_right_by_columns(out, in);
 }
 
 /*------------------------------------------------------------*/
@@ -116,10 +117,30 @@ void hankel_like_plus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) cons
 /*------------------------------------------------------------*/
 void hankel_like_plus_lzz_p::mul_left(Vec<zz_p>& out, const Vec<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    out.SetLength(n);
+    for (long i = 0; i < n; i++)
+        out[i] = 0;
+
+    Vec<zz_p> tmp1, tmp2;
+
+    for (long i = 0; i < NumGens(); i++)
+    {
+        circulant_G[i].mul_left(tmp1, in);
+        lower_triangular_toeplitz_H[i].mul_left(tmp2, tmp1);
+        for (long j = 0; j < n; j++)
+            out[j] += tmp2[n - 1 - j];
+    }
 }
 
 void hankel_like_plus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    mul_left_by_rows(out, in);
 }
 
 /*------------------------------------------------------------*/
diff --git a/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp
index 4f89305..f5353b3 100644
--- a/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp
@@ -125,6 +125,8 @@ void lower_triangular_toeplitz_lzz_p::mul_right(Mat<zz_p>& res, const Mat<zz_p>&
         res = mul_right(input);
         return;
     }
+
+    mul_right_by_columns(res, input);
 }
 
 
@@ -191,6 +193,8 @@ void lower_triangular_toeplitz_lzz_p::mul_left(Mat<zz_p>& res, const Mat<zz_p>&
         res = mul_left(input);
         return;
     }
+
+    mul_left_by_rows(res, input);
 }
 
 
diff --git a/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp
index a9478eb..2d34bec 100644
--- a/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp
@@ -114,6 +114,7 @@ void toeplitz_like_minus_lzz_p::mul_right(Vec<zz_p>& output, const Vec<zz_p>& in
 
 void toeplitz_like_minus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    mul_right_by_columns(out, in);
 }
 
 /*------------------------------------------------------------*/
@@ -121,10 +122,30 @@ void toeplitz_like_minus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) c
 /*------------------------------------------------------------*/
 void toeplitz_like_minus_lzz_p::mul_left(Vec<zz_p>& out, const Vec<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    out.SetLength(n);
+    for (long i = 0; i < n; i++)
+        out[i] = 0;
+
+    Vec<zz_p> tmp1, tmp2;
+
+    for (long i = 0; i < NumGens(); i++)
+    {
+        toeplitz_G[i].mul_left(tmp1, in);
+        circulant_H[i].mul_left(tmp2, tmp1);
+        for (long j = 0; j < n; j++)
+            out[j] += tmp2[j];
+    }
 }
 
 void toeplitz_like_minus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    mul_left_by_rows(out, in);
 }
 
 /*------------------------------------------------------------*/
diff --git a/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
index f2d4100..858aa4e 100644
--- a/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
@@ -105,6 +105,7 @@ void toeplitz_like_plus_lzz_p::mul_right(Vec<zz_p>& output, const Vec<zz_p>& inp
 
 void toeplitz_like_plus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    mul_right_by_columns(out, in);
 }
 
 /*------------------------------------------------------------*/
@@ -112,10 +113,30 @@ void toeplitz_like_plus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) co
 /*------------------------------------------------------------*/
 void toeplitz_like_plus_lzz_p::mul_left(Vec<zz_p>& out, const Vec<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    out.SetLength(n);
+    for (long i = 0; i < n; i++)
+        out[i] = 0;
+
+    Vec<zz_p> tmp1, tmp2;
+
+    for (long i = 0; i < NumGens(); i++)
+    {
+        circulant_G[i].mul_left(tmp1, in);
+        lower_triangular_toeplitz_H[i].mul_left(tmp2, tmp1);
+        for (long j = 0; j < n; j++)
+            out[j] += tmp2[j];
+    }
 }
 
 void toeplitz_like_plus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    mul_left_by_rows(out, in);
 }
 
 /*------------------------------------------------------------*/
diff --git a/ntl-extras/structured_lzz_p/structured_lzz_p.h b/ntl-extras/structured_lzz_p/structured_lzz_p.h
index a7ba93b..5fcbbb2 100644
--- a/ntl-extras/structured_lzz_p/structured_lzz_p.h
+++ b/ntl-extras/structured_lzz_p/structured_lzz_p.h
@@ -17,6 +17,41 @@ NTL_USE_NNS
 /*------------------------------------------------------------*/
 class structured_lzz_p
 {
+protected:
+    /*------------------------------------------------------------*/
+    /* matrix products, one column (resp. row) at a time          */
+    /*------------------------------------------------------------*/
+    inline void mul_right_by_columns(Mat<zz_p>& out, const Mat<zz_p>& in) const
+    {
+        Mat<zz_p> res;
+        Vec<zz_p> vec_in, vec_out;
+        res.SetDims(NumRows(), in.NumCols());
+        vec_in.SetLength(in.NumRows());
+        for (long j = 0; j < in.NumCols(); j++)
+        {
+            for (long i = 0; i < in.NumRows(); i++)
+                vec_in[i] = in[i][j];
+            mul_right(vec_out, vec_in);
+            for (long i = 0; i < NumRows(); i++)
+                res[i][j] = vec_out[i];
+        }
+        out.swap(res);
+    }
+
+    inline void mul_left_by_rows(Mat<zz_p>& out, const Mat<zz_p>& in) const
+    {
+        Mat<zz_p> res;
+        Vec<zz_p> vec_out;
+        res.SetDims(in.NumRows(), NumCols());
+        for (long i = 0; i < in.NumRows(); i++)
+        {
+            mul_left(vec_out, in[i]);
+            for (long j = 0; j < NumCols(); j++)
+                res[i][j] = vec_out[j];
+        }
+        out.swap(res);
+    }
+
 public:
     /*------------------------------------------------------------*/
     /* to avoid memory leaks                                      */
-- 
2.43.0


From cb2605569d2345a233409875814593494dae163a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:32 +0000
Subject: [PATCH 08/96] fix: to_dense of structured matrices kept stale entries
 of a reused output

---
 ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp      | 1 +
 ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp       | 1 +
 .../structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp     | 1 +
 ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp    | 1 +
 ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp     | 1 +
 5 files changed, 5 insertions(+)

diff --git a/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp
index d7f75cd..6039a6d 100644
--- a/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp
@@ -156,6 +156,7 @@ void hankel_like_minus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) cons
 void hankel_like_minus_lzz_p::to_dense(Mat<zz_p>& Mdense) const 
 {
     Mdense.SetDims(m, n);
+    clear(Mdense);
     for (long i = 0; i < NumGens(); i++)
     {
         Mdense += lower_triangular_toeplitz_G[i].to_dense() * circulant_H[i].to_dense();
diff --git a/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
index 4d23285..cb20317 100644
--- a/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
@@ -149,6 +149,7 @@ void hankel_like_plus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) const
 void hankel_like_plus_lzz_p::to_dense(Mat<zz_p>& Mdense) const 
 {
     Mdense.SetDims(m, n);
+    clear(Mdense);
     for (long i = 0; i < NumGens(); i++)
     {
         Mdense += circulant_G[i].to_dense() * lower_triangular_toeplitz_H[i].to_dense();
diff --git a/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp
index f5353b3..c23d573 100644
--- a/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp
@@ -62,6 +62,7 @@ long lower_triangular_toeplitz_lzz_p::NumRows() const
 void lower_triangular_toeplitz_lzz_p::to_dense(Mat<zz_p>& Mdense) const 
 {
     Mdense.SetDims(n, n);
+    clear(Mdense);
     for (long j = 0; j < n; j++)
         for (long i = j; i < n; i++)
             Mdense[i][j] = data[i-j];
diff --git a/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp
index 2d34bec..d13fa4f 100644
--- a/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp
@@ -154,6 +154,7 @@ void toeplitz_like_minus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) co
 void toeplitz_like_minus_lzz_p::to_dense(Mat<zz_p>& Mdense) const 
 {
     Mdense.SetDims(m, n);
+    clear(Mdense);
     for (long i = 0; i < NumGens(); i++)
     {
         Mdense += toeplitz_G[i].to_dense() * circulant_H[i].to_dense();
diff --git a/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
index 858aa4e..cae1cb1 100644
--- a/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
@@ -145,6 +145,7 @@ void toeplitz_like_plus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) con
 void toeplitz_like_plus_lzz_p::to_dense(Mat<zz_p>& Mdense) const 
 {
     Mdense.SetDims(m, n);
+    clear(Mdense);
     for (long i = 0; i < NumGens(); i++)
     {
         Mdense += circulant_G[i].to_dense() * lower_triangular_toeplitz_H[i].to_dense();
-- 
2.43.0


From bc1f3125be8df7ac85d8a6cdfe5d6cbc249c8f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:32 +0000
Subject: [PATCH 09/96] fix: circulant_column left product wrote past the end
 of a buffer of the wrong length

---
 ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp
index de4dd0d..ece7a61 100644
--- a/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp
@@ -200,7 +200,7 @@ void circulant_column_lzz_p::mul_left(Vec<zz_p>& res, const Vec<zz_p>& input) co
     fftRep fft_input = fftRep(INIT_SIZE, K);
     
     zz_pX input_X;
-    input_X.rep.SetLength(m);
+    input_X.rep.SetLength(n);
     zz_p *cf = input_X.rep.elts();
     for (long i = 0; i < n; i++)
             cf[i] = input[i];
-- 
2.43.0


From 51a30b8ee82e6a2d7b235e706908c447dc84cbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:16 +0000
Subject: [PATCH 10/96] fix: top right block of a Sylvester inverse read past
 the end of short cofactors

---
 ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp
index 641ae98..2376898 100644
--- a/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp
@@ -514,13 +514,13 @@ long sylvester_lzz_p::top_right_block_inverse(Mat<zz_p>& block, long m)
     zz_pX rS;
     rS.rep.SetLength(dB);
     for (long i = 0; i < dB; i++)
-        rS[i] = s[dB - 1 - i];
+        rS[i] = coeff(s, dB - 1 - i);
     rS.normalize();
 
     zz_pX rT;
     rT.rep.SetLength(dA);
     for (long i = 0; i < dA; i++)
-        rT[i] = t[dA - 1 - i];
+        rT[i] = coeff(t, dA - 1 - i);
     rT.normalize();
 
     zz_pX rS_over_rB, R_rS_rB, rT_over_rA, R_rT_rA;
-- 
2.43.0


From 97b1808baa54ff2f67daa6edecacae14156992b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:16 +0000
Subject: [PATCH 11/96] fix: Cauchy-like solve aborted on the zero matrix
 (product by an empty matrix)

---
 .../structured_lzz_p/src/cauchy_like_geometric_lzz_p.cpp    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ntl-extras/structured_lzz_p/src/cauchy_like_geometric_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/cauchy_like_geometric_lzz_p.cpp
index 52f3438..e19917e 100644
--- a/ntl-extras/structured_lzz_p/src/cauchy_like_geometric_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/cauchy_like_geometric_lzz_p.cpp
@@ -107,6 +107,9 @@ void cauchy_like_geometric_lzz_p::mul_right(Vec<zz_p>& output, const Vec<zz_p>&
     for (long i = 0; i < m; i++)
         output[i] = 0;
 
+    if (m == 0 || n == 0)
+        return;
+
     for (long i = 0; i < alpha; i++)
     {
         for (long j = 0; j < n; j++)
@@ -317,6 +320,9 @@ void cauchy_like_geometric_lzz_p::mul_left(Vec<zz_p>& output, const Vec<zz_p>& i
     for (long i = 0; i < n; i++)
         output[i] = 0;
 
+    if (m == 0 || n == 0)
+        return;
+
     for (long i = 0; i < alpha; i++)
     {
         for (long j = 0; j < m; j++)
-- 
2.43.0


From f1f95a7e5fecb6e7d4d1ec0bfa41407954934987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:16 +0000
Subject: [PATCH 12/96] fix: mosaic solve and inverse could scale by zero and
 return a wrong answer

---
 ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp   | 8 ++++++--
 ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp
index 574e30d..83b0875 100644
--- a/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp
@@ -503,11 +503,15 @@ static long to_cauchy_grp(cauchy_like_geometric_lzz_p& CL,
 
     e.SetLength(n);
     for (long i = 0; i < n; i++)
-        e[i] = random_zz_p();
+        do
+            e[i] = random_zz_p();
+        while (e[i] == 0);
 
     f.SetLength(m);
     for (long i = 0; i < m; i++)
-        f[i] = random_zz_p();
+        do
+            f[i] = random_zz_p();
+        while (f[i] == 0);
 
     Vec<zz_p> tmp_v;
     for (long j = 0; j < alpha; j++)
diff --git a/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp
index 4b70add..d391230 100644
--- a/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp
@@ -512,11 +512,15 @@ static long to_cauchy_grp(cauchy_like_geometric_lzz_p& CL,
 
     e.SetLength(n);
     for (long i = 0; i < n; i++)
-        e[i] = random_zz_p();
+        do
+            e[i] = random_zz_p();
+        while (e[i] == 0);
 
     f.SetLength(m);
     for (long i = 0; i < m; i++)
-        f[i] = random_zz_p();
+        do
+            f[i] = random_zz_p();
+        while (f[i] == 0);
 
 
     // gens 0 to alpha-1
-- 
2.43.0


From 6c9e1806c6066bec866bbc112591128bae548b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:16 +0000
Subject: [PATCH 13/96] fix: mosaic solve accessed an empty vector when the
 system has no solution

---
 ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp   | 8 +++++++-
 ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp
index 83b0875..ac890b1 100644
--- a/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp
@@ -627,7 +627,13 @@ long mosaic_hankel_lzz_p::solve(Vec<zz_p>& x, const Vec<zz_p> b, long thresh, lo
 
     if (s != 1)
         return 0;
-    
+
+    if (xp.length() == 0) // no solution
+    {
+        x.SetLength(0);
+        return 1;
+    }
+
     for (long i = 0; i < m; i++)
         xp[i] = xp[i] * f[i];
 
diff --git a/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp
index d391230..0b2aeef 100644
--- a/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp
@@ -645,7 +645,13 @@ long mosaic_toeplitz_lzz_p::solve(Vec<zz_p>& x, const Vec<zz_p> b, long thresh,
 
     if (s != 1)
         return 0;
-    
+
+    if (xp.length() == 0) // no solution
+    {
+        x.SetLength(0);
+        return 1;
+    }
+
     for (long i = 0; i < m; i++)
         xp[i] = xp[i] * f[i];
 
-- 
2.43.0


From 16119152269f93d48e2eed0ac4bf016000dd985d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:07 +0000
Subject: [PATCH 14/96] fix: to_dense of structured polynomial matrices kept
 stale entries of a reused output

---
 .../structured_lzz_pX/src/lower_triangular_toeplitz_lzz_pX.cpp   | 1 +
 ntl-extras/structured_lzz_pX/src/toeplitz_like_minus_lzz_pX.cpp  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ntl-extras/structured_lzz_pX/src/lower_triangular_toeplitz_lzz_pX.cpp b/ntl-extras/structured_lzz_pX/src/lower_triangular_toeplitz_lzz_pX.cpp
index 2cc33ed..44dc71a 100644
--- a/ntl-extras/structured_lzz_pX/src/lower_triangular_toeplitz_lzz_pX.cpp
+++ b/ntl-extras/structured_lzz_pX/src/lower_triangular_toeplitz_lzz_pX.cpp
@@ -92,6 +92,7 @@ long lower_triangular_toeplitz_lzz_pX::NumRows() const
 void lower_triangular_toeplitz_lzz_pX::to_dense(Mat<zz_pX>& Mdense) const 
 {
     Mdense.SetDims(n, n);
+    clear(Mdense);
     for (long j = 0; j < n; j++)
         for (long i = j; i < n; i++)
             Mdense[i][j] = data[i-j];
diff --git a/ntl-extras/structured_lzz_pX/src/toeplitz_like_minus_lzz_pX.cpp b/ntl-extras/structured_lzz_pX/src/toeplitz_like_minus_lzz_pX.cpp
index 6b9f25d..6012c6a 100644
--- a/ntl-extras/structured_lzz_pX/src/toeplitz_like_minus_lzz_pX.cpp
+++ b/ntl-extras/structured_lzz_pX/src/toeplitz_like_minus_lzz_pX.cpp
@@ -198,6 +198,7 @@ void toeplitz_like_minus_lzz_pX::mul_left_trunc(Vec<zz_pX>& output, const Vec<zz
 void toeplitz_like_minus_lzz_pX::to_dense(Mat<zz_pX>& Mdense) const 
 {
     Mdense.SetDims(m, n);
+    clear(Mdense);
     for (long i = 0; i < NumGens(); i++)
     {
         Mdense += toeplitz_G[i].to_dense() * circulant_H[i].to_dense();
-- 
2.43.0


From 70508c0f4139a921e3a28071586d048347072919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:07 +0000
Subject: [PATCH 15/96] fix: Sylvester products by a zero operand overran the
 Kronecker buffers

---
 .../src/sylvester_lzz_pX.cpp                  | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp b/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp
index d13ee8b..8470a19 100644
--- a/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp
+++ b/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp
@@ -81,8 +81,9 @@ void sylvester_lzz_pX::mul_right(Vec<zz_pX>& out, const Vec<zz_pX>& in) const
     for (long i = 0; i < dAy; i++)
         in_G[i] = in[i + dBy];
 
-    long dFx = deg(in_F);    
-    long dGx = deg(in_G);
+    // degrees of zero vectors are taken as 0, so that products still fit
+    long dFx = max(deg(in_F), 0L);
+    long dGx = max(deg(in_G), 0L);
 
     to_kronecker(kro_A, a, dAx + dFx);  
     to_kronecker(kro_F, in_F, dAx + dFx); 
@@ -137,8 +138,9 @@ void sylvester_lzz_pX::mul_right_trunc(Vec<zz_pX>& out, const Vec<zz_pX>& in, lo
         trunc(in_F[i], in[i], s);
     for (long i = 0; i < dAy; i++)
         trunc(in_G[i], in[i + dBy], s);
-    long dFx = deg(in_F);    
-    long dGx = deg(in_G);
+    // degrees of zero vectors are taken as 0, so that products still fit
+    long dFx = max(deg(in_F), 0L);
+    long dGx = max(deg(in_G), 0L);
 
     Vec<zz_pX> truncA, truncB;
     truncA.SetLength(a.length());
@@ -147,8 +149,8 @@ void sylvester_lzz_pX::mul_right_trunc(Vec<zz_pX>& out, const Vec<zz_pX>& in, lo
         trunc(truncA[i], a[i], s);
     for (long i = 0; i < b.length(); i++)
         trunc(truncB[i], b[i], s);
-    long dTAx = deg(truncA);
-    long dTBx = deg(truncB);
+    long dTAx = max(deg(truncA), 0L);
+    long dTBx = max(deg(truncB), 0L);
 
     to_kronecker(kro_A, truncA, dTAx + dFx);  
     to_kronecker(kro_F, in_F, dTAx + dFx); 
@@ -202,7 +204,7 @@ void sylvester_lzz_pX::mul_left(Vec<zz_pX>& out, const Vec<zz_pX>& in) const
         return;
     }
 
-    long d = deg(in);
+    long d = max(deg(in), 0L);
     Vec<zz_pX> outA, outB;
     zz_pX kro_revA, kro_revB;
     to_kronecker(kro_revA, revA, dAx + d);  
@@ -270,9 +272,9 @@ void sylvester_lzz_pX::mul_left_trunc(Vec<zz_pX>& out, const Vec<zz_pX>& in, lon
     for (long i = 0; i < revB.length(); i++)
         trunc(revB_trunc[i], revB[i], s);
 
-    long d = deg(in_trunc);
-    long dTAx = deg(revA_trunc);
-    long dTBx = deg(revB_trunc);
+    long d = max(deg(in_trunc), 0L);
+    long dTAx = max(deg(revA_trunc), 0L);
+    long dTBx = max(deg(revB_trunc), 0L);
 
     Vec<zz_pX> outA, outB;
     zz_pX kro_revA, kro_revB;
-- 
2.43.0


From 9337beee1991196da674bf760a5e921a9845f65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:57 +0000
Subject: [PATCH 16/96] fix: conversion to matrix coefficients read past the
 end of entries of lower degree

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
index dbf67d7..631cde8 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
@@ -571,7 +571,7 @@ void conv(Vec<Mat<zz_p>> & matp, const Mat<zz_pX> & pmat)
         for (long i = 0; i < m; ++i)
             for (long j = 0; j < n; ++j)
                 for (long kk = 0; kk < k_bound; ++kk)
-                    matp[k+kk][i][j] = pmat[i][j][k+kk];
+                    matp[k+kk][i][j] = coeff(pmat[i][j], k+kk);
     }
 }
 
-- 
2.43.0


From 753d909e05a88aa33ce5951b57cb15814b834a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:57 +0000
Subject: [PATCH 17/96] fix: truncRow and truncCol did not copy the other rows
 or columns

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
index 631cde8..eb3e827 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
@@ -255,14 +255,16 @@ void trunc(Mat<zz_pX>& x, const Mat<zz_pX>& a, long n)
 
 void truncRow(Mat<zz_pX>& x, const Mat<zz_pX>& a, long r, long n)
 {
-    x.SetDims(a.NumRows(), a.NumCols()); // does nothing if x is a
+    if (&x != &a)
+        x = a;
     for (long c = 0; c < x.NumCols(); ++c)
         trunc(x[r][c], a[r][c], n);
 }
 
 void truncCol(Mat<zz_pX>& x, const Mat<zz_pX>& a, long c, long n)
 {
-    x.SetDims(a.NumRows(), a.NumCols()); // does nothing if x is a
+    if (&x != &a)
+        x = a;
     for (long r = 0; r < x.NumRows(); ++r)
         trunc(x[r][c], a[r][c], n);
 }
-- 
2.43.0


From 1bdd3e5a74647a8eccce4e73858af92ab3dc7d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:41 +0000
Subject: [PATCH 18/96] fix: product of a row vector by a polynomial matrix
 always aborted

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp
index 1d9c46a..198ad26 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp
@@ -120,7 +120,8 @@ void multiply(Vec<zz_pX>& c, const Vec<zz_pX>& a, const Mat<zz_pX>& b, long is_p
     amat[0] = a;
     Mat<zz_pX> cmat;
     multiply(cmat, amat, b, is_prime);
-    c.swap(cmat[0]);
+    // (rows of a matrix have fixed length: NTL does not allow to swap them)
+    c = cmat[0];
 }
 
 
-- 
2.43.0


From 990a3028237dcbba5eb7dd94b110a2ca3ff2e798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:41 +0000
Subject: [PATCH 19/96] fix: geometric product with a zero factor had wrong
 dimensions

---
 .../src/mat_lzz_pX_multiply_evaluate_geometric.cpp              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_geometric.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_geometric.cpp
index 8b380f2..e9a2b05 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_geometric.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_geometric.cpp
@@ -22,7 +22,7 @@ void multiply_evaluate_geometric(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat
     // if a or b is zero, return
     if (dA < 0 || dB < 0)
     {
-        c.SetDims(s, t);
+        c.SetDims(s, u);
         clear(c);
         return;
     }
-- 
2.43.0


From 21ab41356d8107bf0d45faa6afdec6e7afc1b75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:14 +0000
Subject: [PATCH 20/96] fix: product algorithms crashed or returned nothing
 when a factor is zero

---
 .../src/mat_lzz_pX_multiply_3_primes.cpp      |  8 ++++
 .../src/mat_lzz_pX_multiply_evaluate_FFT.cpp  | 40 +++++++++++++++++++
 .../mat_lzz_pX_multiply_evaluate_dense.cpp    | 16 ++++++++
 .../src/mat_lzz_pX_multiply_transform.cpp     |  8 ++++
 4 files changed, 72 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp
index 8067db4..9f06628 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp
@@ -305,6 +305,14 @@ void lzz_pX_3_primes::reconstruct(Mat<zz_pX>& c, const Vec<Mat<zz_pX>>& cs) cons
 /*------------------------------------------------------------*/
 void multiply_3_primes(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat<zz_pX> & b)
 {
+    // if a or b is zero, return
+    if (deg(a) < 0 || deg(b) < 0)
+    {
+        c.SetDims(a.NumRows(), b.NumCols());
+        clear(c);
+        return;
+    }
+
     lzz_pX_3_primes primes(a.NumCols(), deg(a), deg(b));
     const long nb = primes.nb();
 
diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp
index c60bd67..6889c07 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp
@@ -47,6 +47,14 @@ static inline void mul_add(Vec<ll_type>& z, const fftRep& x, const fftRep& y)
 /*------------------------------------------------------------*/
 void multiply_evaluate_FFT_direct_ll_type(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat<zz_pX> & b)
 {
+    // if a or b is zero, return
+    if (deg(a) < 0 || deg(b) < 0)
+    {
+        c.SetDims(a.NumRows(), b.NumCols());
+        clear(c);
+        return;
+    }
+
 #if defined(NTL_HAVE_LL_TYPE) && defined(NTL_HAVE_SP_LL_ROUTINES) \
      && defined(__GNUC__) && (__GNUC__ >= 4) && !defined(__INTEL_COMPILER)  && !defined(__clang__) \
      && defined (__x86_64__) && NTL_BITS_PER_LONG == 64
@@ -172,6 +180,14 @@ void multiply_evaluate_FFT_direct_ll_type(Mat<zz_pX> & c, const Mat<zz_pX> & a,
 /*------------------------------------------------------------*/
 void multiply_evaluate_FFT_direct(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat<zz_pX> & b)
 {
+    // if a or b is zero, return
+    if (deg(a) < 0 || deg(b) < 0)
+    {
+        c.SetDims(a.NumRows(), b.NumCols());
+        clear(c);
+        return;
+    }
+
     if (&c == &a || &c == &b)
     {
         Mat<zz_pX> c2;
@@ -232,6 +248,14 @@ void multiply_evaluate_FFT_direct(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Ma
 /*------------------------------------------------------------*/
 void multiply_evaluate_FFT_matmul1(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat<zz_pX> & b)
 {
+    // if a or b is zero, return
+    if (deg(a) < 0 || deg(b) < 0)
+    {
+        c.SetDims(a.NumRows(), b.NumCols());
+        clear(c);
+        return;
+    }
+
     // dimensions
     const long s = a.NumRows();
     const long t = a.NumCols();
@@ -343,6 +367,14 @@ void multiply_evaluate_FFT_matmul1(Mat<zz_pX> & c, const Mat<zz_pX> & a, const M
 /*------------------------------------------------------------*/
 void multiply_evaluate_FFT_matmul2(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat<zz_pX> & b)
 {
+    // if a or b is zero, return
+    if (deg(a) < 0 || deg(b) < 0)
+    {
+        c.SetDims(a.NumRows(), b.NumCols());
+        clear(c);
+        return;
+    }
+
     // dimensions
     const long s = a.NumRows();
     const long t = a.NumCols();
@@ -447,6 +479,14 @@ void multiply_evaluate_FFT_matmul2(Mat<zz_pX> & c, const Mat<zz_pX> & a, const M
 /*------------------------------------------------------------*/
 void multiply_evaluate_FFT_matmul3(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat<zz_pX> & b)
 {
+    // if a or b is zero, return
+    if (deg(a) < 0 || deg(b) < 0)
+    {
+        c.SetDims(a.NumRows(), b.NumCols());
+        clear(c);
+        return;
+    }
+
     // dimensions
     const long s = a.NumRows();
     const long t = a.NumCols();
diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_dense.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_dense.cpp
index a27cac5..083b4b4 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_dense.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_dense.cpp
@@ -104,6 +104,14 @@ void vandermonde2(
 /*------------------------------------------------------------*/
 void multiply_evaluate_dense(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat<zz_pX> & b)
 {
+    // if a or b is zero, return
+    if (deg(a) < 0 || deg(b) < 0)
+    {
+        c.SetDims(a.NumRows(), b.NumCols());
+        clear(c);
+        return;
+    }
+
     const long dA = deg(a);
     const long dB = deg(b);
     const long min_dAdB = std::min<long>(dA,dB);
@@ -258,6 +266,14 @@ void multiply_evaluate_dense(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat<zz_
 /*------------------------------------------------------------*/
 void multiply_evaluate_dense2(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat<zz_pX> & b)
 {
+    // if a or b is zero, return
+    if (deg(a) < 0 || deg(b) < 0)
+    {
+        c.SetDims(a.NumRows(), b.NumCols());
+        clear(c);
+        return;
+    }
+
     // dimensions and degrees
     const long dA = deg(a);
     const long dB = deg(b);
diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_transform.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_transform.cpp
index a93dc6b..db62e7c 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_transform.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_transform.cpp
@@ -9,6 +9,14 @@ PML_START_IMPL
 /*------------------------------------------------------------*/
 void multiply_transform_naive(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat<zz_pX> & b)
 {
+    // if a or b is zero, return
+    if (deg(a) < 0 || deg(b) < 0)
+    {
+        c.SetDims(a.NumRows(), b.NumCols());
+        clear(c);
+        return;
+    }
+
     long dA = deg(a);
     long dB = deg(b);
 
-- 
2.43.0


From 7836cdff4df067a9bab19783e89ba75e0556c2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:26 +0000
Subject: [PATCH 21/96] fix: matmul3 (middle) products dereferenced a null
 buffer for a single inner column

---
 .../src/mat_lzz_pX_middle_product_evaluate_FFT.cpp              | 2 ++
 .../mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product_evaluate_FFT.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product_evaluate_FFT.cpp
index 23ba4b0..a4d476e 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product_evaluate_FFT.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product_evaluate_FFT.cpp
@@ -569,6 +569,8 @@ void middle_product_evaluate_FFT_matmul3(Mat<zz_pX> & b, const Mat<zz_pX> & a, c
         tmp.swap(mat_valA[j]);
     }
 
+    // (R.tbl[0] may be empty after the above swaps)
+    R.tbl[0].SetLength(len);
     b.SetDims(s, u);
     for (long i = 0; i < s; ++i)
         for (long k = 0; k < u; k+=MATRIX_BLOCK_SIZE)
diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp
index 6889c07..17985f4 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp
@@ -551,6 +551,8 @@ void multiply_evaluate_FFT_matmul3(Mat<zz_pX> & c, const Mat<zz_pX> & a, const M
     }
 
     // interpolate c from the values in mat_valA
+    // (R.tbl[0] may be empty after the above swaps)
+    R.tbl[0].SetLength(n);
     c.SetDims(s, u);
     for (long i = 0; i < s; ++i)
         for (long k = 0; k < u; k+=MATRIX_BLOCK_SIZE)
-- 
2.43.0


From 825a38bfcd8e0855249d46e9b516fe48fd5913b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:29 +0000
Subject: [PATCH 22/96] fix: 3-primes middle product used too few primes when
 dA > dB

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp
index 9f06628..30b0f3d 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp
@@ -340,7 +340,8 @@ void multiply_3_primes(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat<zz_pX> &
 /*------------------------------------------------------------*/
 void middle_product_3_primes(Mat<zz_pX> & b, const Mat<zz_pX> & a, const Mat<zz_pX> & c, long dA, long dB)
 {
-    lzz_pX_3_primes primes(a.NumCols(), dA, dB);
+    // deg(c) <= dA+dB: coefficients of a*c may be sums of up to dA+1 products
+    lzz_pX_3_primes primes(a.NumCols(), dA, dA + dB);
     const long nb = primes.nb();
 
     if (nb == 1)
-- 
2.43.0


From 1a986695bdfaef7d24cba249f1d39077fc48969f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:59 +0000
Subject: [PATCH 23/96] fix: middle product did not truncate its operands
 before evaluation

---
 .../src/mat_lzz_pX_middle_product.cpp              | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product.cpp
index 0f4e11d..c589e1b 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product.cpp
@@ -2,6 +2,7 @@
 #include "thresholds_matrix_multiply.h"
 #include "thresholds_matrix_middle_product.h"
 #include "lzz_pX_middle_product.h"
+#include "mat_lzz_pX_arith.h"
 #include "mat_lzz_pX_multiply.h"
 
 PML_START_IMPL
@@ -16,6 +17,19 @@ void middle_product(Mat<zz_pX> & b, const Mat<zz_pX> & a, const Mat<zz_pX> & c,
     const long dmax = max(dA, dB);
     const long sz = cbrt(a.NumRows() * a.NumCols() * c.NumCols());
 
+    // terms of degree more than dA in a, or more than dA+dB in c, do not
+    // contribute, yet they would corrupt the evaluation-based algorithms
+    if (deg(a) > dA)
+    {
+        middle_product(b, trunc(a, dA+1), c, dA, dB, is_prime);
+        return;
+    }
+    if (deg(c) > dA+dB)
+    {
+        middle_product(b, a, trunc(c, dA+dB+1), dA, dB, is_prime);
+        return;
+    }
+
     // if the degree of a or c is smaller than dA, reduce
     // TODO do proper timing to find some better threshold (maybe all the
     // copying when we just have degA == dA-1 is not a good idea)
-- 
2.43.0


From 9f8756be1d79aad267b5ea76e69e82eb704cd599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:42 +0000
Subject: [PATCH 24/96] fix: middle product by a zero matrix returned garbage

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_middle_product.cpp      | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product.cpp
index c589e1b..80c445a 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product.cpp
@@ -34,6 +34,12 @@ void middle_product(Mat<zz_pX> & b, const Mat<zz_pX> & a, const Mat<zz_pX> & c,
     // TODO do proper timing to find some better threshold (maybe all the
     // copying when we just have degA == dA-1 is not a good idea)
     const long degA = deg(a);
+    if (degA < 0)
+    {
+        b.SetDims(a.NumRows(), c.NumCols());
+        clear(b);
+        return;
+    }
     if (degA < dA)
     {
         Mat<zz_pX> cc;
-- 
2.43.0


From 44d51ff28fab7e4768957e3749c382d53efd1943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:42 +0000
Subject: [PATCH 25/96] fix: left multipliers crashed when a factor is zero

---
 .../src/mat_lzz_pX_lmultiplier.cpp            | 48 +++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp
index ae8fe4c..3f8ac49 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp
@@ -61,6 +61,10 @@ static inline void mul_add(Vec<ll_type>& z, const fftRep& x, const fftRep& y)
 mat_lzz_pX_lmultiplier_FFT_direct::mat_lzz_pX_lmultiplier_FFT_direct(const Mat<zz_pX> & a, long dB) :
     mat_lzz_pX_lmultiplier(a, dB)
 {
+    // if a is zero, nothing to precompute
+    if (__dA < 0)
+        return;
+
     K = NextPowerOfTwo(__dA + dB + 1);
 
     n0 = (1L << (2*(NTL_BITS_PER_LONG - NTL_SP_NBITS))) - 1;
@@ -86,6 +90,14 @@ mat_lzz_pX_lmultiplier_FFT_direct::mat_lzz_pX_lmultiplier_FFT_direct(const Mat<z
 /*------------------------------------------------------------*/
 void mat_lzz_pX_lmultiplier_FFT_direct::multiply(Mat<zz_pX>& c, const Mat<zz_pX>& b)
 {
+    // if this or b is zero, return
+    if (__dA < 0 || deg(b) < 0)
+    {
+        c.SetDims(NumRows(), b.NumCols());
+        clear(c);
+        return;
+    }
+
     if (&c == &b)
     {
         Mat<zz_pX> c2;
@@ -260,6 +272,10 @@ void mat_lzz_pX_lmultiplier_FFT_direct::multiply_direct(Mat<zz_pX>& c, const Mat
 mat_lzz_pX_lmultiplier_FFT_matmul::mat_lzz_pX_lmultiplier_FFT_matmul(const Mat<zz_pX> & a, long dB) :
     mat_lzz_pX_lmultiplier(a, dB)
 {
+    // if a is zero, nothing to precompute
+    if (__dA < 0)
+        return;
+
     idxk = NextPowerOfTwo(__dA + __dB + 1);
 
     // initialize fftRep tools
@@ -294,6 +310,14 @@ mat_lzz_pX_lmultiplier_FFT_matmul::mat_lzz_pX_lmultiplier_FFT_matmul(const Mat<z
 /*------------------------------------------------------------*/
 void mat_lzz_pX_lmultiplier_FFT_matmul::multiply(Mat<zz_pX>& c, const Mat<zz_pX>& b)
 {
+    // if this or b is zero, return
+    if (__dA < 0 || deg(b) < 0)
+    {
+        c.SetDims(NumRows(), b.NumCols());
+        clear(c);
+        return;
+    }
+
     const long s = NumRows();
     const long t = NumCols();
     const long u = b.NumCols();
@@ -386,6 +410,10 @@ void mat_lzz_pX_lmultiplier_FFT_matmul::multiply(Mat<zz_pX>& c, const Mat<zz_pX>
 mat_lzz_pX_lmultiplier_geometric::mat_lzz_pX_lmultiplier_geometric(const Mat<zz_pX> & a, long dB) :
     mat_lzz_pX_lmultiplier(a, dB)
 {
+    // if a is zero, nothing to precompute
+    if (__dA < 0)
+        return;
+
     long n = __dA + __dB + 1;
     ev = get_geometric_points(n);
     ev.prepare_degree(__dB);
@@ -412,6 +440,14 @@ mat_lzz_pX_lmultiplier_geometric::mat_lzz_pX_lmultiplier_geometric(const Mat<zz_
 /*------------------------------------------------------------*/
 void mat_lzz_pX_lmultiplier_geometric::multiply(Mat<zz_pX>& c, const Mat<zz_pX>& b)
 {
+    // if this or b is zero, return
+    if (__dA < 0 || deg(b) < 0)
+    {
+        c.SetDims(NumRows(), b.NumCols());
+        clear(c);
+        return;
+    }
+
     long s = NumRows();
     long t = NumCols();
     long u = b.NumCols();
@@ -479,6 +515,10 @@ void mat_lzz_pX_lmultiplier_geometric::multiply(Mat<zz_pX>& c, const Mat<zz_pX>&
 mat_lzz_pX_lmultiplier_dense::mat_lzz_pX_lmultiplier_dense(const Mat<zz_pX> & a, long dB) :
     mat_lzz_pX_lmultiplier(a, dB)
 {
+    // if a is zero, nothing to precompute
+    if (__dA < 0)
+        return;
+
     Mat<zz_p> vA;
     vandermonde(vA, vB, iV, __dA, __dB);
     nb_points = vA.NumRows();
@@ -512,6 +552,14 @@ mat_lzz_pX_lmultiplier_dense::mat_lzz_pX_lmultiplier_dense(const Mat<zz_pX> & a,
 /*------------------------------------------------------------*/
 void mat_lzz_pX_lmultiplier_dense::multiply(Mat<zz_pX>& c, const Mat<zz_pX>& b)
 {
+    // if this or b is zero, return
+    if (__dA < 0 || deg(b) < 0)
+    {
+        c.SetDims(NumRows(), b.NumCols());
+        clear(c);
+        return;
+    }
+
     const long m = NumRows();
     const long n = NumCols();
     const long p = b.NumCols();
-- 
2.43.0


From da6c85414d793c3322dad49042c6d948d4ba2d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:42 +0000
Subject: [PATCH 26/96] fix: get_lmultiplier chose algorithms the field is too
 small for

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp      | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp
index 3f8ac49..e5170a8 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp
@@ -675,8 +675,11 @@ std::unique_ptr<mat_lzz_pX_lmultiplier> get_lmultiplier(const Mat<zz_pX> & a, lo
 {
     long t = type_of_prime();
     long dA = deg(a);
+    // FFT: requires enough roots of unity; dense: requires enough points
+    const bool use_FFT = is_FFT_ready(NextPowerOfTwo(dA + dB + 1));
+    const bool use_dense = (zz_p::modulus() > dA + dB + 1);
 
-    if (t == TYPE_FFT_PRIME)
+    if (use_FFT)
     {
         if (a.NumRows() <= 100)
             return std::unique_ptr<mat_lzz_pX_lmultiplier>(new mat_lzz_pX_lmultiplier_FFT_direct(a, dB));
@@ -685,7 +688,7 @@ std::unique_ptr<mat_lzz_pX_lmultiplier> get_lmultiplier(const Mat<zz_pX> & a, lo
     }
     if (t == TYPE_LARGE_PRIME)
     {
-        if ((a.NumRows() <= 20 && dA <= 30) || (a.NumRows() <= 40 && dA <= 90) || dA <= 150)
+        if (use_dense && ((a.NumRows() <= 20 && dA <= 30) || (a.NumRows() <= 40 && dA <= 90) || dA <= 150))
             return std::unique_ptr<mat_lzz_pX_lmultiplier>(new mat_lzz_pX_lmultiplier_dense(a, dB));
         if (a.NumRows() <= 200)
             return std::unique_ptr<mat_lzz_pX_lmultiplier>(new mat_lzz_pX_lmultiplier_3_primes(a, dB));
@@ -694,7 +697,7 @@ std::unique_ptr<mat_lzz_pX_lmultiplier> get_lmultiplier(const Mat<zz_pX> & a, lo
     }
     else
     {
-        if ((a.NumRows() <= 20 && dA <= 30) || (a.NumRows() <= 40 && dA <= 90) || dA <= 150)
+        if (use_dense && ((a.NumRows() <= 20 && dA <= 30) || (a.NumRows() <= 40 && dA <= 90) || dA <= 150))
             return std::unique_ptr<mat_lzz_pX_lmultiplier>(new mat_lzz_pX_lmultiplier_dense(a, dB));
         else
             return std::unique_ptr<mat_lzz_pX_lmultiplier>(new mat_lzz_pX_lmultiplier_3_primes(a, dB));
-- 
2.43.0


From 6204206ec4e2f6c4965f7505b4603af706d8e74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:36 +0000
Subject: [PATCH 27/96] fix: Newton inversion kept stale coefficients when an
 entry of the current inverse has low degree

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp
index 1e0d55f..6356209 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp
@@ -212,7 +212,10 @@ void newton_inv_trunc_FFT(Mat<zz_pX>& x, const Mat<zz_pX>& a, long m, long thres
                 zz_pX P;
                 FromfftRep(P, R1, 0, k - 1);
 
+                const long x_len = x[i][ell].rep.length();
                 x[i][ell].rep.SetLength(2*k);
+                for (long ii = x_len; ii < k; ii++)
+                    clear(x[i][ell].rep[ii]);
                 long y_len = P.rep.length();
                 for (long ii = k; ii < 2*k; ii++)
                 {
@@ -405,7 +408,10 @@ void newton_inv_trunc_geometric(Mat<zz_pX>& x, const Mat<zz_pX>& a, long m, long
             {
                 zz_pX P;
                 ev.interpolate(P, mat_val3[i*s + ell]);
+                const long x_len = x[i][ell].rep.length();
                 x[i][ell].rep.SetLength(2*k);
+                for (long ii = x_len; ii < k; ii++)
+                    clear(x[i][ell].rep[ii]);
                 long y_len = P.rep.length();
                 for (long ii = k; ii < 2*k; ii++)
                 {
-- 
2.43.0


From 99f225e5426bd068f08d6fa12ccaba23d7704c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:36 +0000
Subject: [PATCH 28/96] fix: geometric Newton inversion started at precision 1
 evaluated beyond its degree bound

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp
index 6356209..9efac4d 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp
@@ -335,12 +335,11 @@ void newton_inv_trunc_geometric(Mat<zz_pX>& x, const Mat<zz_pX>& a, long m, long
 
     while (k < m)
     {
-        long n = 3*k - 2;
+        const long n = std::max(3*k - 2, 2*k); // 2k: room for (a mod t^(2k)) when k=1
         zz_pX_Multipoint_Geometric ev = get_geometric_points(n);
 
         ev.prepare_degree(k - 1);
-        if (k != 1)
-            ev.prepare_degree(2*k - 1);
+        ev.prepare_degree(2*k - 1);
 
         mat_val1.SetLength(n * ss);
         mat_val2.SetLength(n * ss);
-- 
2.43.0


From 0b0c392e50936ba52655bc00376fb612a1e7e225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:28 +0000
Subject: [PATCH 29/96] fix: linsolve_via_kernel missed solutions whose kernel
 vector has its pivot elsewhere

---
 .../src/mat_lzz_pX_linsolve.cpp               | 31 ++++++-------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp
index 6c927da..650aeb8 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp
@@ -462,37 +462,26 @@ long linsolve_via_kernel(
     // shift = row degree of augmented matrix
     // --> this is the shift which ensures good efficiency for the used kernel
     // algorithm (Zhou-Labahn-Storjohann ISSAC 2012)
-    // --> with this shift, we are sure to obtain a vector in the kernel of
-    // the form [ -- u -- | den ] with den being the pivot entry (hence,
-    // gives an irreducible solution)
     VecLong shift;
     row_degree(shift, pmat);
-    VecLong copy_shift(shift);
 
     // compute kernel
     // TODO via ZLS-approx... for larger dimensions sometimes interp might be better: needs tuning
     Mat<zz_pX> kerbas;
     kernel_basis_zls_via_approximation(kerbas, pmat, shift);
 
-    // compute shifted pivot index of kernel
-    // Note that here copy_shift is a copy of the initial shift while `shift`
-    // is merely used as a temporary variable which will hold the pivot
-    // degrees, which we just ignore (they are not needed)
-    VecLong pivind;
-    row_pivots(pivind, shift, kerbas, copy_shift);
-
-    // find index of row of kerbas with pivot index in the last entry
-    VecLong::const_iterator pivind_n = std::find(pivind.begin(), pivind.end(), n);
-
-    // if no such row, there is no solution
-    // --> may happen if kernel is empty, which itself may happen only if m > n
-    // --> may also happen if A is rank-deficient but b is not in the
-    // K(x)-column space of A, then kerbas is simply a kernel basis for A
-    if (pivind_n==pivind.end())
+    // find row [ -- u -- | den ] of kerbas with nonzero den, of smallest degree
+    // --> if A is square and nonsingular, kerbas has a single row, which gives
+    // an irreducible solution
+    // --> there is no such row if and only if b is not in the K(x)-column
+    // space of A; then there is no solution
+    long row = -1;
+    for (long i = 0; i < kerbas.NumRows(); ++i)
+        if (not IsZero(kerbas[i][n]) && (row == -1 || deg(kerbas[i][n]) < deg(kerbas[row][n])))
+            row = i;
+    if (row == -1)
         return 0;
 
-    const long row = pivind_n - pivind.begin();
-
     // deduce solution
     u.SetLength(n);
     for (long j = 0; j < n; ++j)
-- 
2.43.0


From 4d1cc485b42c1ae269cbf1ad3839ce4699a61a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:28 +0000
Subject: [PATCH 30/96] fix: linsolve_via_series with a constant matrix
 overwrote an aliased right-hand side

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp
index 650aeb8..2a70a5e 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp
@@ -314,7 +314,7 @@ void linsolve_via_series(Vec<zz_pX> &u, zz_pX& den, const Mat<zz_pX>& A, const V
     {
         Mat<zz_p> iA;
         inv(iA, coeff(A, 0));
-        u.SetLength(n);
+        Vec<zz_pX> v(INIT_SIZE, n); // u may alias b
         // TODO write function for mul(u, iA, b);
         zz_pX buf1, buf2;
         for (long i = 0; i < n; ++i)
@@ -325,8 +325,9 @@ void linsolve_via_series(Vec<zz_pX> &u, zz_pX& den, const Mat<zz_pX>& A, const V
                 mul(buf2, iA[i][j], b[j]);
                 add(buf1, buf1, buf2);
             }
-            u[i].swap(buf1);
+            v[i].swap(buf1);
         }
+        u.swap(v);
         set(den);
         return;
     }
-- 
2.43.0


From 9899b9a8dfe91be263939d038e286645b0b57203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:59 +0000
Subject: [PATCH 31/96] fix: determinant by evaluation aborted or looped
 forever on the zero matrix

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
index 009a7a1..748db37 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
@@ -293,7 +293,7 @@ void determinant_via_linsolve(zz_pX & det, const Mat<zz_pX> & pmat)
 
 void determinant_via_evaluation_general(zz_pX & det, const Mat<zz_pX> & pmat)
 {
-    const long nb_points = pmat.NumRows() * deg(pmat) + 1;
+    const long nb_points = pmat.NumRows() * max(0L, deg(pmat)) + 1;
     zz_pX_Multipoint_General ev = get_general_points(nb_points);
     Vec<Mat<zz_p>> evals;
     ev.evaluate_matrix(evals, pmat);
@@ -305,7 +305,7 @@ void determinant_via_evaluation_general(zz_pX & det, const Mat<zz_pX> & pmat)
 
 void determinant_via_evaluation_geometric(zz_pX & det, const Mat<zz_pX> & pmat)
 {
-    const long d = deg(pmat);
+    const long d = max(0L, deg(pmat));
     const long nb_points = pmat.NumRows() * d + 1;
     zz_pX_Multipoint_Geometric ev = get_geometric_points(nb_points);
     ev.prepare_degree(d);
@@ -320,7 +320,7 @@ void determinant_via_evaluation_geometric(zz_pX & det, const Mat<zz_pX> & pmat)
 void determinant_via_evaluation_FFT(zz_pX & det, const Mat<zz_pX> & pmat)
 {
     // degree and dimension
-    const long d = deg(pmat);
+    const long d = max(0L, deg(pmat));
     const long dim = pmat.NumRows();
 
     // prepare FFT representation
-- 
2.43.0


From c70012d743c154cca6183df3ba205b852c1fb879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:52 +0000
Subject: [PATCH 32/96] fix: determinant_generic_knowing_degree crashed on zero
 columns and accepted wrong determinants of non-generic matrices

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp    | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
index 748db37..c06d8ea 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
@@ -249,6 +249,11 @@ bool determinant_generic_knowing_degree(zz_pX & det, const Mat<zz_pX> & pmat, lo
     // --> compute approximants at order deg(pmat_l) + D + 1
     // (cf for example Neiger-Rosenkilde-Solomatov ISSAC 2018, Lemma 4.3)
     long deg_pmat_l = deg(pmat_l);
+    if (deg_pmat_l < 0) // zero columns: the determinant is zero
+    {
+        clear(det);
+        return (degree==-1);
+    }
     long deg_ker = ceil( cdim1 * deg_pmat_l / (double)(dim-cdim1) );
     long order = deg_pmat_l + deg_ker + 1;
 
@@ -269,6 +274,11 @@ bool determinant_generic_knowing_degree(zz_pX & det, const Mat<zz_pX> & pmat, lo
         for (long j = 0; j < dim; ++j)
             kerbas[i][j] = appbas[i+cdim1][j];
 
+    // for non-generic input, these rows may have larger degree; then they might
+    // not be in the kernel and their product with pmat_r is meaningless
+    if (deg(kerbas) > deg_ker)
+        return false;
+
     // then compute the product
     Mat<zz_pX> pmatt;
 #ifdef GENERIC_DET_PROFILE
-- 
2.43.0


From c14c57f8fea5ae1c454bb8c440e0db96395879b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:37 +0000
Subject: [PATCH 33/96] fix: is_col_popov read past the last column of matrices
 with more rows than columns

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_forms.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_forms.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_forms.cpp
index 3fe0a74..07c4519 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_forms.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_forms.cpp
@@ -818,7 +818,7 @@ bool is_col_popov(const Mat<zz_pX> & pmat)
         for (long j = 0; j < i; ++j)
             if (deg(pmat[pivind[i]][j]) >= pivdeg[i])
                 return false;
-        for (long j = i+1; j < pmat.NumRows(); ++j)
+        for (long j = i+1; j < pmat.NumCols(); ++j)
             if (deg(pmat[pivind[i]][j]) >= pivdeg[i])
                 return false;
     }
@@ -856,7 +856,7 @@ bool is_col_popov(const Mat<zz_pX> & pmat, const VecLong & shift)
         for (long j = 0; j < i; ++j)
             if (deg(pmat[pivind[i]][j]) >= pivdeg[i])
                 return false;
-        for (long j = i+1; j < pmat.NumRows(); ++j)
+        for (long j = i+1; j < pmat.NumCols(); ++j)
             if (deg(pmat[pivind[i]][j]) >= pivdeg[i])
                 return false;
     }
-- 
2.43.0


From 672cadef31249eb786a839554677ee5f02c35769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:57 +0000
Subject: [PATCH 34/96] fix: normalize the entries returned by generic mbasis
 and matrix Pade

---
 .../src/mat_lzz_pX_pmbasis_generic.cpp        | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
index c041c3e..8d21f0c 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
@@ -644,6 +644,7 @@ void mbasis_generic_2n_n_rescomp(
                 clear(appbas[i][j][0]);
                 for (long k = 1; k < d+1; ++k)
                     appbas[i][j][k] = P00[k][i][j];
+                appbas[i][j].normalize();
             }
             for (long j = n; j < 2*n; ++j)
             {
@@ -652,6 +653,7 @@ void mbasis_generic_2n_n_rescomp(
                 clear(appbas[i][j][0]);
                 for (long k = 1; k < d+1; ++k)
                     appbas[i][j][k] = P01[k][i][jmn];
+                appbas[i][j].normalize();
             }
         }
         for (long i = n; i < 2*n; ++i)
@@ -662,6 +664,7 @@ void mbasis_generic_2n_n_rescomp(
                 appbas[i][j].SetLength(d+1);
                 for (long k = 0; k < d+1; ++k)
                     appbas[i][j][k] = P10[k][imn][j];
+                appbas[i][j].normalize();
             }
             for (long j = n; j < 2*n; ++j)
             {
@@ -669,6 +672,7 @@ void mbasis_generic_2n_n_rescomp(
                 appbas[i][j].SetLength(d);
                 for (long k = 0; k < d; ++k)
                     appbas[i][j][k] = P11[k][imn][jmn];
+                appbas[i][j].normalize();
             }
         }
 
@@ -695,6 +699,7 @@ void mbasis_generic_2n_n_rescomp(
                 appbas[i][j].SetLength(d);
                 for (long k = 0; k < d; ++k)
                     appbas[i][j][k] = P00[k][i][j];
+                appbas[i][j].normalize();
             }
             for (long j = n; j < 2*n; ++j)
             {
@@ -702,6 +707,7 @@ void mbasis_generic_2n_n_rescomp(
                 appbas[i][j].SetLength(d);
                 for (long k = 0; k < d; ++k)
                     appbas[i][j][k] = P01[k][i][jmn];
+                appbas[i][j].normalize();
             }
         }
         for (long i = n; i < 2*n; ++i)
@@ -713,6 +719,7 @@ void mbasis_generic_2n_n_rescomp(
                 clear(appbas[i][j][0]);
                 for (long k = 1; k < d+1; ++k)
                     appbas[i][j][k] = P10[k][imn][j];
+                appbas[i][j].normalize();
             }
             for (long j = n; j < 2*n; ++j)
             {
@@ -721,6 +728,7 @@ void mbasis_generic_2n_n_rescomp(
                 clear(appbas[i][j][0]);
                 for (long k = 1; k < d; ++k)
                     appbas[i][j][k] = P11[k][imn][jmn];
+                appbas[i][j].normalize();
             }
         }
 
@@ -1224,6 +1232,7 @@ void mbasis_generic_2n_n_resupdate(
                 clear(appbas[i][j][0]);
                 for (long k = 1; k < d+1; ++k)
                     appbas[i][j][k] = P00[k][i][j];
+                appbas[i][j].normalize();
             }
             for (long j = n; j < 2*n; ++j)
             {
@@ -1232,6 +1241,7 @@ void mbasis_generic_2n_n_resupdate(
                 clear(appbas[i][j][0]);
                 for (long k = 1; k < d+1; ++k)
                     appbas[i][j][k] = P01[k][i][jmn];
+                appbas[i][j].normalize();
             }
         }
         for (long i = n; i < 2*n; ++i)
@@ -1242,6 +1252,7 @@ void mbasis_generic_2n_n_resupdate(
                 appbas[i][j].SetLength(d+1);
                 for (long k = 0; k < d+1; ++k)
                     appbas[i][j][k] = P10[k][imn][j];
+                appbas[i][j].normalize();
             }
             for (long j = n; j < 2*n; ++j)
             {
@@ -1249,6 +1260,7 @@ void mbasis_generic_2n_n_resupdate(
                 appbas[i][j].SetLength(d);
                 for (long k = 0; k < d; ++k)
                     appbas[i][j][k] = P11[k][imn][jmn];
+                appbas[i][j].normalize();
             }
         }
 
@@ -1276,6 +1288,7 @@ void mbasis_generic_2n_n_resupdate(
                 appbas[i][j].SetLength(d);
                 for (long k = 0; k < d; ++k)
                     appbas[i][j][k] = P00[k][i][j];
+                appbas[i][j].normalize();
             }
             for (long j = n; j < 2*n; ++j)
             {
@@ -1283,6 +1296,7 @@ void mbasis_generic_2n_n_resupdate(
                 appbas[i][j].SetLength(d);
                 for (long k = 0; k < d; ++k)
                     appbas[i][j][k] = P01[k][i][jmn];
+                appbas[i][j].normalize();
             }
         }
         for (long i = n; i < 2*n; ++i)
@@ -1294,6 +1308,7 @@ void mbasis_generic_2n_n_resupdate(
                 clear(appbas[i][j][0]);
                 for (long k = 1; k < d+1; ++k)
                     appbas[i][j][k] = P10[k][imn][j];
+                appbas[i][j].normalize();
             }
             for (long j = n; j < 2*n; ++j)
             {
@@ -1302,6 +1317,7 @@ void mbasis_generic_2n_n_resupdate(
                 clear(appbas[i][j][0]);
                 for (long k = 1; k < d; ++k)
                     appbas[i][j][k] = P11[k][imn][jmn];
+                appbas[i][j].normalize();
             }
         }
 
@@ -1842,6 +1858,7 @@ void matrix_pade_generic_iterative(
                 clear(den1[i][j][0]);
                 for (long k = 1; k < d+1; ++k)
                     den1[i][j][k] = D1[k][i][j];
+                den1[i][j].normalize();
             }
         }
 
@@ -1857,6 +1874,7 @@ void matrix_pade_generic_iterative(
                 den2[i][j].SetLength(d+1);
                 for (long k = 0; k < d+1; ++k)
                     den2[i][j][k] = D2[k][i][j];
+                den2[i][j].normalize();
             }
         }
     }
@@ -1875,6 +1893,7 @@ void matrix_pade_generic_iterative(
                 den1[i][j].SetLength(d);
                 for (long k = 0; k < d; ++k)
                     den1[i][j][k] = D1[k][i][j];
+                den1[i][j].normalize();
             }
         // add X^d I
         for (long i = 0; i < n; ++i)
@@ -1888,6 +1907,7 @@ void matrix_pade_generic_iterative(
                 clear(den2[i][j][0]);
                 for (long k = 1; k < d+1; ++k)
                     den2[i][j][k] = D2[k][i][j];
+                den2[i][j].normalize();
             }
     }
 
-- 
2.43.0


From 18317fca9353575c7f0c42981bd2545ad3bc2027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:57 +0000
Subject: [PATCH 35/96] fix: mbasis_generic_2n_n_rescomp reads out of bounds
 when deg(pmat) < order-1

---
 .../src/mat_lzz_pX_pmbasis_generic.cpp        | 38 +------------------
 1 file changed, 1 insertion(+), 37 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
index 8d21f0c..e8160c3 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
@@ -14,41 +14,6 @@ PML_START_IMPL
 /*------------------------------------------------------------*/
 /*------------------------------------------------------------*/
 
-/*------------------------------------------------------------*/
-/* convert to / from Vec<Mat<zz_p>>                           */
-/* (degree deduced from input)                                */
-/* split into first half rows, second half rows               */
-/*------------------------------------------------------------*/
-static void conv_top_bot(
-                  Vec<Mat<zz_p>> & coeffs_top,
-                  Vec<Mat<zz_p>> & coeffs_bot,
-                  const Mat<zz_pX> & mat
-                 )
-{
-    long d = deg(mat);
-    long m1 = mat.NumRows()/2;
-    long m2 = mat.NumRows()-m1;
-    long n = mat.NumCols();
-
-    coeffs_top.SetLength(d+1);
-    for (long k = 0; k <= d; ++k)
-    {
-        coeffs_top[k].SetDims(m1, n);
-        for (long i = 0; i < m1; ++i)
-            for (long j = 0; j < n; ++j)
-                coeffs_top[k][i][j] = coeff(mat[i][j], k);
-    }
-
-    coeffs_bot.SetLength(d+1);
-    for (long k = 0; k <= d; ++k)
-    {
-        coeffs_bot[k].SetDims(m2, n);
-        for (long i = 0; i < m2; ++i)
-            for (long j = 0; j < n; ++j)
-                coeffs_bot[k][i][j] = coeff(mat[m1+i][j], k);
-    }
-}
-
 /*------------------------------------------------------------*/
 /* convert to / from Vec<Mat<zz_p>>                           */
 /* (degree bound d given by user; Vecs will have length d)    */
@@ -122,8 +87,7 @@ void mbasis_generic_2n_n_rescomp(
     // coefficient matrices of input polynomial matrix
     // pmat = [[Ft], [Fb]]
     Vec<Mat<zz_p>> F_top, F_bot;
-    conv_top_bot(F_top, F_bot, pmat);
-    //long degF = F_top.length()-1; // TODO handle the case where F has degree lower (probably still >= d?)
+    conv_top_bot(F_top, F_bot, pmat, order);
 
     // residual matrix 0
     // will hold coefficients of pmat of degree 2*k
-- 
2.43.0


From cd600bd87849906b7f08bba89d6481edd10d5f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:57 +0000
Subject: [PATCH 36/96] fix: matrix_pade_generic_iterative aborts for order 3

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp  | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
index e8160c3..b54f8ca 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
@@ -1568,6 +1568,15 @@ void matrix_pade_generic_iterative(
         t_res += GetWallTime()-tt;
 #endif // MATRIX_PADE_GEN_PROFILE
     }
+    else if (odd_order)
+    {
+        // order == 3: the residual is only updated after this first iteration,
+        // by the last step for odd order; it requires K0 and R_bot (which is
+        // zero in degree >= 1)
+        K0 = D2[1];
+        for (long kk = 1; kk < order; ++kk)
+            R_bot[kk].SetDims(n, n);
+    }
 
     // Iterations k==1...d-1
     for (long k=1; k<d; ++k)
-- 
2.43.0


From 7b50884ad78fad1978a807192b6eba7e9190fd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:44 +0000
Subject: [PATCH 37/96] fix: is_interpolant_basis_geometric aborts when the
 degree reaches the number of points

---
 .../src/mat_lzz_pX_interpolant.cpp                 | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp
index 9f760ff..932e7b9 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp
@@ -87,6 +87,13 @@ bool is_interpolant_basis_geometric(
 
     // test that the matrix consists of interpolants
     zz_pX_Multipoint_Geometric ev(pt, order);
+    if (deg(intbas) >= order)
+    {
+        // degree too large for the evaluation at geometric points
+        Vec<zz_p> pts;
+        ev.get_points(pts);
+        return is_interpolant_basis(intbas,evals,pts,shift,form,randomized);
+    }
     Vec<Mat<zz_p>> intbas_evals;
     ev.evaluate_matrix(intbas_evals, intbas);
     Mat<zz_p> res;
@@ -149,6 +156,13 @@ bool is_interpolant_basis_geometric(
                                    )
 {
     zz_pX_Multipoint_Geometric ev(pt, order);
+    if (deg(pmat) >= order)
+    {
+        // degree too large for the evaluation at geometric points
+        Vec<zz_p> pts;
+        ev.get_points(pts);
+        return is_interpolant_basis(intbas,pmat,pts,shift,form,randomized);
+    }
     Vec<Mat<zz_p>> evals;
     ev.evaluate_matrix(evals, pmat);
     return is_interpolant_basis_geometric(intbas,evals,pt,order,shift,form,randomized);
-- 
2.43.0


From 5a7c00052ff7941b9ba9c8f573dabdb1776f4646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:47 +0000
Subject: [PATCH 38/96] fix: reduced_form_gjv crashes on constant matrices

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_reduction.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_reduction.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_reduction.cpp
index 3e692fe..8c83c4a 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_reduction.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_reduction.cpp
@@ -13,6 +13,14 @@ long reduced_form_gjv(
     // dimensions
     const long dim = pmat.NumCols();
     const long d = deg(pmat);
+
+    // invertible constant matrix: already reduced
+    if (d == 0)
+    {
+        reduced = pmat;
+        return 1;
+    }
+
     std::cout << dim << "\t" << d << "\t";
 
     // inv_trunc version
-- 
2.43.0


From 48590164ab57fd52d4dc9f711e49d2d3fa9494d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:47 +0000
Subject: [PATCH 39/96] fix: kernel_basis_zls_* return wrong shifted row
 degrees (constant removed from the shift not restored)

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp       | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
index ab06b2e..ad76a6f 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
@@ -492,6 +492,8 @@ void kernel_basis_zls_via_approximation(
         for (long i = 0; i < m1; ++i)
             kerbas[i].swap(appbas[rows_app_ker[i]]);
         shift.swap(rdeg1);
+        for (long i = 0; i < m1; ++i)
+            shift[i] += diff_shift;
         return;
     }
 
@@ -539,6 +541,8 @@ void kernel_basis_zls_via_approximation(
         for (long i = 0; i < m1; ++i)
             kerbas[i].swap(appbas[rows_app_ker[i]]);
         shift.swap(rdeg1);
+        for (long i = 0; i < m1; ++i)
+            shift[i] += diff_shift;
         return;
     }
 
@@ -733,6 +737,8 @@ void kernel_basis_zls_via_interpolation(
     zz_p r; // defining geometric points r^2, r^4, r^6...
     if (2*order >= zz_p::modulus()) // small field --> approximation
     {
+        std::transform(shift.begin(), shift.end(), shift.begin(),
+                       [diff_shift](long x) -> long { return x + diff_shift;});
         kernel_basis_zls_via_approximation(kerbas, pmat, shift);
         return;
     }
@@ -741,6 +747,8 @@ void kernel_basis_zls_via_interpolation(
     if (IsZero(r))
     {
         std::cout << "Could not find element of sufficiently large order; field is probably too small for kernel via interpolation with such degrees --> calling the approximation version" << std::endl;
+        std::transform(shift.begin(), shift.end(), shift.begin(),
+                       [diff_shift](long x) -> long { return x + diff_shift;});
         kernel_basis_zls_via_approximation(kerbas, pmat, shift);
         return;
     }
@@ -804,6 +812,8 @@ void kernel_basis_zls_via_interpolation(
         for (long i = 0; i < m1; ++i)
             kerbas[i].swap(intbas[rows_int_ker[i]]);
         shift.swap(rdeg1);
+        for (long i = 0; i < m1; ++i)
+            shift[i] += diff_shift;
         return;
     }
 
@@ -858,6 +868,8 @@ void kernel_basis_zls_via_interpolation(
         for (long i = 0; i < m1; ++i)
             kerbas[i].swap(intbas[rows_int_ker[i]]);
         shift.swap(rdeg1);
+        for (long i = 0; i < m1; ++i)
+            shift[i] += diff_shift;
         return;
     }
 
-- 
2.43.0


From d5dc13cd722bca0719be313036b711da2ed20a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:47 +0000
Subject: [PATCH 40/96] fix: kernel_basis_zls_* early exit misses kernel rows
 when pmat has constant or zero rows

---
 .../src/mat_lzz_pX_kernel.cpp                 | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
index ad76a6f..c0b54af 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
@@ -474,14 +474,22 @@ void kernel_basis_zls_via_approximation(
     // above), and testing this avoids going through a few multiplications and
     // the two recursive calls (which only lead to the conclusion that there is
     // no new kernel row to be found)
+    // Note: uncaptured kernel rows with pivots among the non-pivot rows leave
+    // these sums equal only if these rows of pmat have degree <= 0
+    bool early_exit = true;
     long sum_matdeg = 0;
     for (long i = 0; i < m2; ++i)
+    {
         sum_matdeg += rdeg[rows_app_notker[i]];
+        if (rdeg[rows_app_notker[i]] <= 0)
+            early_exit = false;
+    }
     long sum_kerdeg = 0;
     for (long i = 0; i < m1; ++i)
         sum_kerdeg += deg(appbas[rows_app_ker[i]][rows_app_ker[i]]);
 
-    const bool early_exit = (sum_kerdeg == sum_matdeg);
+    if (sum_kerdeg != sum_matdeg)
+        early_exit = false;
 
     // if the whole kernel was captured according to the above test, or if
     // there was just one column, or if the kernel is full (matrix was zero),
@@ -794,14 +802,22 @@ void kernel_basis_zls_via_interpolation(
     // above), and testing this avoids going through a few multiplications and
     // the two recursive calls (which only lead to the conclusion that there is
     // no new kernel row to be found)
+    // Note: uncaptured kernel rows with pivots among the non-pivot rows leave
+    // these sums equal only if these rows of pmat have degree <= 0
+    bool early_exit = true;
     long sum_matdeg = 0;
     for (long i = 0; i < m2; ++i)
+    {
         sum_matdeg += rdeg[rows_int_notker[i]];
+        if (rdeg[rows_int_notker[i]] <= 0)
+            early_exit = false;
+    }
     long sum_kerdeg = 0;
     for (long i = 0; i < m1; ++i)
         sum_kerdeg += deg(intbas[rows_int_ker[i]][rows_int_ker[i]]);
 
-    const bool early_exit = (sum_kerdeg == sum_matdeg);
+    if (sum_kerdeg != sum_matdeg)
+        early_exit = false;
 
     // if the whole kernel was captured according to the above test, or if
     // there was just one column, or if the kernel is full (matrix was zero),
-- 
2.43.0


From ed64964b96ef3a9be5fd3cd73d637b0aaae85dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:47 +0000
Subject: [PATCH 41/96] fix: kernel_basis_zls_via_interpolation aborts when the
 order does not exceed the degree

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
index c0b54af..581f99a 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
@@ -737,7 +737,9 @@ void kernel_basis_zls_via_interpolation(
     // choosing this order (with factor 2) is sufficient to ensure that the
     // interpolant basis captures the whole kernel when n <= m/2 and pmat is
     // sufficiently generic
-    const long order = 2 * ceil((double)rho / n) + 1;
+    // (taken > deg(pmat), as required by pmbasis_geometric)
+    const long order = std::max<long>(2 * ceil((double)rho / n) + 1,
+                                      1 + *max_element(rdeg.begin(), rdeg.end()));
 
     // compute interpolant basis, along with shift-row degree and pivot degree
     // --> it does not necessarily capture the whole kernel; but does in two
-- 
2.43.0


From 91fd552c39b36f364366003ede7b5987ddd9a335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:47 +0000
Subject: [PATCH 42/96] fix: kernel_basis_generic wrong for characteristic-like
 matrices with an odd number of rows

---
 .../src/mat_lzz_pX_kernel.cpp                 | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
index 581f99a..2ad1130 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
@@ -1060,15 +1060,16 @@ void kernel_basis_generic(Mat<zz_pX> & kerbas, Mat<zz_pX> & pmat)
         // be the generic kernel of the constant part [[A1], [A2], [V]].
         // Then the matrix
         //      K =   [ -B   -B*K1i + X I  0]
-        //            [ K2         0       1]
+        //            [  0         K2      1]
         // where B = F[nn1:2*nn1, :] == A[nn1:2*nn1, :nn1]
         // and K1i == inverse(K1)
+        // and K2 == -v*inverse(B), v being the last row of F
         // is the Popov left kernel basis for F
         // -> it has the right rank
         // -> it is in Popov form
         // -> it has the right sum(rdeg) == nn1
         // -> K*F == 0:
-        //    --> clear for the row [K2  0  1]
+        //    --> clear for the row [0  K2  1]
         //    --> the other one yields
         //           -B * (X I + A1) + (-B*K1i + X I) * B
         //           == X * (-B + B) + (-B*A1 - B*K1i*B)
@@ -1088,7 +1089,6 @@ void kernel_basis_generic(Mat<zz_pX> & kerbas, Mat<zz_pX> & pmat)
         mB.SetDims(nn1, nn1);
         for (long i = 0; i < nn1; i++)
             NTL::negate(mB[i], F0[nn1+i]);
-        F0.kill();
 
         Mat<zz_p> K1, K2;
         K1.SetDims(nn1, nn1);
@@ -1096,7 +1096,8 @@ void kernel_basis_generic(Mat<zz_pX> & kerbas, Mat<zz_pX> & pmat)
         for (long i = 0; i < nn1; i++)
             VectorCopy(K1[i], K[i], nn1);
         if (eps > 0)
-            VectorCopy(K2[0], K[nn1], nn1);
+            mul(K2[0], F0[m+n-1], inv(mB));
+        F0.kill();
 
         inv(K1, K1);
         mul(K1, mB, K1);
@@ -1119,19 +1120,19 @@ void kernel_basis_generic(Mat<zz_pX> & kerbas, Mat<zz_pX> & pmat)
         if (eps > 0)
         {
             for (long j = 0; j < nn1; j++)
-                SetCoeff(kerbas[nn1][j], 0, K2[0][j]);
+                SetCoeff(kerbas[nn1][nn1+j], 0, K2[0][j]);
             set(kerbas[nn1][m+n-1]); 
         }
 
         // multiply kernel basis with right-hand columns
         //  
         //      K =   [ -B   -B*K1i + X I  0]
-        //            [ K2         0       1]
+        //            [  0         K2      1]
         //      G =   [  A3  ]     [ 0 ]
         //            [  A4  ] + X [ L ]
         //            [  v2  ]     [ 0 ]
         //     with L = [[Id nn2 x nn2], [Zero (nn1-nn2) x nn2]], nn1-nn2 == m-eps
-        // - the possible last row is K2 * A3 + v2
+        // - the possible last row is K2 * A4 + v2 + X * K2*L
         // - the first nn1 rows are mB*A3 + mB*K1i*A4 + X*(A4 + mB*K1i*L) + X**2 * L
         // recall mB*K1i is currently stored in K1
         Mat<zz_pX> F;
@@ -1162,9 +1163,13 @@ void kernel_basis_generic(Mat<zz_pX> & kerbas, Mat<zz_pX> & pmat)
         // handle possible last row
         if (eps > 0)
         {
-            mul(K2, K2, A3);
+            Vec<zz_p> K2A4;
+            mul(K2A4, K2[0], A4);
             for (long j = 0; j < nn2; j++)
-                SetCoeff(F[nn1][j], 0, K2[0][j] + ConstTerm(pmat[m+n-1][j]));
+            {
+                SetCoeff(F[nn1][j], 1, K2[0][j]);
+                SetCoeff(F[nn1][j], 0, K2A4[j] + ConstTerm(pmat[m+n-1][nn1+j]));
+            }
         }
 
         mul(A3, mB, A3);
-- 
2.43.0


From fc0407834b88e4ce97a72c84a14ad88c8372d564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:05 +0000
Subject: [PATCH 43/96] fix: gen_pows returns zero upper products below the FFT
 crossover

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp       | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp
index 525894a..c08d33a 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp
@@ -23,6 +23,7 @@ void MulMod_local(zz_pX& x, zz_pX& upper, const zz_pX& a, const zz_pXMultiplier&
     if (da < 0)
     {
         clear(x);
+        clear(upper);
         return;
     }
 
@@ -31,8 +32,13 @@ void MulMod_local(zz_pX& x, zz_pX& upper, const zz_pX& a, const zz_pXMultiplier&
         zz_pX P1;
         mul(P1, a, B.b);
         rem(x, P1, F);
-        // todo: do this case
-        upper = 0;
+        // upper = coefficients n-1..2n-3 of a * H, where H is the polynomial
+        // represented by F.HRep below, i.e. the reverse of 1/rev(f) mod x^(n-1)
+        reverse(P1, F.val(), n);
+        InvTrunc(P1, P1, n-1);
+        reverse(P1, P1, n-2);
+        mul(P1, P1, a);
+        RightShift(upper, P1, n-1);
         return;
     }
 
-- 
2.43.0


From 948415e814b4aa65a944c54cf51f051a8e14df80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:21 +0000
Subject: [PATCH 44/96] fix: gen_sequence wrong when deg(g) <= 2m

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp
index c08d33a..2cfd8a1 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp
@@ -265,8 +265,8 @@ static void get_quos (Mat<zz_pX> &quos,
 
     t = GetWallTime();
     const long n = deg(g);
-    const long pad = 2*m - ((n-2*m-1) % (2*m));
     const long len = ceil((n*1.0) / (2*m));
+    const long pad = 2*m*len - n + 1;
     Mat<zz_pX> mat1, mat2;
     mat1.SetDims(alphas.length(), len);
     mat2.SetDims(len, alphas.length());
-- 
2.43.0


From e6f18ec8e1e542e2a9b30936c2cecbe015331a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:40 +0000
Subject: [PATCH 45/96] fix: gen_sequence aborts when the upper products vanish
 (constant a)

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp
index 2cfd8a1..62b5d0a 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp
@@ -127,6 +127,15 @@ void mul_special(Mat<zz_pX>& c, Mat<zz_pX>& cs, const Mat<zz_pX>& a, const Mat<z
     long p = b.NumCols();
     long ell;
 
+    if (dA < 0 || dB < 0)
+    {
+        c.SetDims(m, p);
+        cs.SetDims(m, p);
+        clear(c);
+        clear(cs);
+        return;
+    }
+
     Mat<zz_p> tmp_mat(INIT_SIZE, sA, m * n);
     Mat<zz_p> valA, valB, valC, valCs;
     Mat<zz_p> vA, vB, iv;
-- 
2.43.0


From acc7fe6e3be9395ccd0f1d6f6e2bab707472671d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:26 +0000
Subject: [PATCH 46/96] fix: random_zz_pXY returned unnormalized polynomials

---
 ntl-extras/lzz_pXY/src/lzz_pXY.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
index cff28e6..5a23b8f 100644
--- a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
+++ b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
@@ -112,6 +112,7 @@ void random_zz_pXY(zz_pXY&  f, long dx, long dy)
     f.rep.SetLength(dy);
     for (long i = 0; i < dy; i++)
         f.rep[i] = random_zz_pX(dx);
+    f.normalize();
 }
 
 /*------------------------------------------------------------*/
-- 
2.43.0


From 0ee9e34836efc4802915f9d457fadbdfbe0af078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:26 +0000
Subject: [PATCH 47/96] fix: shift_y with aliased arguments shifted twice

---
 ntl-extras/lzz_pXY/src/lzz_pXY.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
index 5a23b8f..1a4cffc 100644
--- a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
+++ b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
@@ -356,6 +356,7 @@ void shift_y(zz_pXY& b, const zz_pXY& a, long i)
     if (&b == &a)
     {
         b = shift_y(a, i);
+        return;
     }
 
     long dy = a.degY();
-- 
2.43.0


From a65d24e24aa12731d4c7bdfee120e11f080d3a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:26 +0000
Subject: [PATCH 48/96] fix: shift_y aborted when dividing by a power of y
 beyond the degree

---
 ntl-extras/lzz_pXY/src/lzz_pXY.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
index 1a4cffc..c17d183 100644
--- a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
+++ b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
@@ -370,7 +370,7 @@ void shift_y(zz_pXY& b, const zz_pXY& a, long i)
     }
     else
     {
-        b.rep.SetLength(dy + 1 + i);
+        b.rep.SetLength(max(dy + 1 + i, 0L));
         for (long j = 0; j <= dy + i; j++)
             b.rep[j] = a.rep[j - i];
     }
-- 
2.43.0


From 439d2530c40ea486b693de8b1cdde8335b0a107d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:26 +0000
Subject: [PATCH 49/96] fix: bivariate resultants with a zero polynomial read
 out of bounds

---
 ntl-extras/lzz_pXY/src/lzz_pXY.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
index c17d183..34e50d2 100644
--- a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
+++ b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
@@ -441,6 +441,12 @@ void SetCoeff(zz_pXY& x, long i, const zz_pX& c)
 /*------------------------------------------------------------*/
 long resultant(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
 {
+    if (f.is_zero() || g.is_zero())
+    {
+        clear(res);
+        return 1;
+    }
+
     long dyf = f.degY();
     long dyg = g.degY();
     long n = max(dyf, dyg);
@@ -520,6 +526,12 @@ long resultant(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
 /*------------------------------------------------------------*/
 long resultant_villard(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
 {
+    if (f.is_zero() || g.is_zero())
+    {
+        clear(res);
+        return 1;
+    }
+
     long nf = f.degY();
     long ng = g.degY();
     long n = max(nf, ng);
@@ -616,6 +628,12 @@ long resultant_villard(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
 
 long resultant_villard_tdeg(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
 {
+    if (f.is_zero() || g.is_zero())
+    {
+        clear(res);
+        return 1;
+    }
+
     // y-degrees
     long nf = f.degY();
     long ng = g.degY();
-- 
2.43.0


From b8b050861ddd5320de73445d4e1bff1744bdea3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:26 +0000
Subject: [PATCH 50/96] fix: Villard resultants divided by zero or read out of
 bounds when the block size is not in 1..min(deg_y)

---
 ntl-extras/lzz_pXY/src/lzz_pXY.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
index 34e50d2..551c58c 100644
--- a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
+++ b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
@@ -542,6 +542,8 @@ long resultant_villard(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
 
     long xtra = 2;
     long m = (long) cbrt(n);
+    if (m < 1 || m > min(nf, ng))
+        return 0;
     long delta = 2 * 2 * d * ((n + m - 1)/m) + xtra;
 
 
@@ -644,6 +646,8 @@ long resultant_villard_tdeg(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
     // block projection parameters:
     // block-size m and expansion length 1 + 2*ceil(d/m)
     long m = (long) cbrt((nf+ng)/2);  // FIXME allow handpicked exponent
+    if (m < 1)
+        return 0;
     long d = 1 + nf+ng + 2 * (res_deg+m-1) / m;
 
     /* std::cout << "res deg: " << res_deg << std::endl; */
-- 
2.43.0


From 3fab136b12e46557ad9a5d021d165a455e051347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:26 +0000
Subject: [PATCH 51/96] fix: bivariate resultants used zero or repeated
 evaluation points

---
 ntl-extras/lzz_pXY/src/lzz_pXY.cpp | 40 +++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
index 551c58c..b004582 100644
--- a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
+++ b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
@@ -1,5 +1,6 @@
 #include <NTL/lzz_pX.h>
 
+#include "lzz_p_extra.h"
 #include "lzz_pX_CRT.h"
 #include "mat_lzz_pX_forms.h"
 #include "mat_lzz_pX_kernel.h"
@@ -465,6 +466,10 @@ long resultant(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
     val_f.SetLength(dr);
     val_g.SetLength(dr);
 
+    // the evaluation points b0 * a0^(2i), i < dr, must be nonzero and distinct
+    if (2*dr >= zz_p::modulus())
+        return 0;
+
     zz_p a0, b0;
     long OK = 0;
     long nb = 0;
@@ -473,8 +478,13 @@ long resultant(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
     {
         nb++;
         OK = 1;
-        a0 = random_zz_p();
+        element_of_order(a0, 2*dr);
         b0 = random_zz_p();
+        if (a0 == 0 || b0 == 0)
+        {
+            OK = 0;
+            continue;
+        }
         evG = zz_pX_Multipoint_Geometric(a0, b0, max(dxf, dxg)+1);
         evG.evaluate(val_lcf, f.rep[dyf], dr);
         evG.evaluate(val_lcg, g.rep[dyg], dr);
@@ -487,7 +497,7 @@ long resultant(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
     }
     while (OK == 0 && nb < 5);
   
-    if (nb == 5)
+    if (OK == 0)
         return 0;
 
     for (long i = 0; i < dr; i++)
@@ -553,6 +563,10 @@ long resultant_villard(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
     val_f.SetLength(delta);
     val_g.SetLength(delta);
 
+    // the evaluation points a0^(2i), i < delta, must be nonzero and distinct
+    if (2*delta >= zz_p::modulus())
+        return 0;
+
     zz_p a0, b0;
     long OK = 0;
     long nb = 0;
@@ -561,7 +575,12 @@ long resultant_villard(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
     {
         nb++;
         OK = 1;
-        a0 = random_zz_p();
+        element_of_order(a0, 2*delta);
+        if (a0 == 0)
+        {
+            OK = 0;
+            continue;
+        }
         // TODO: add randomness by using b0 as well
         evG = zz_pX_Multipoint_Geometric(a0, max(df, dg)+1);
         evG.evaluate(val_lcf, f.rep[nf], delta);
@@ -575,7 +594,7 @@ long resultant_villard(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
     }
     while (OK == 0 && nb < 5);
   
-    if (nb == 5)
+    if (OK == 0)
         return 0;
 
     for (long i = 0; i < delta; i++)
@@ -668,6 +687,10 @@ long resultant_villard_tdeg(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
     val_f.SetLength(d);
     val_g.SetLength(d);
 
+    // the evaluation points a0^(2i), i < d, must be nonzero and distinct
+    if (2*d >= zz_p::modulus())
+        return 0;
+
     zz_p a0, b0;
     long OK = 0;
     long nb = 0;
@@ -676,7 +699,12 @@ long resultant_villard_tdeg(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
     {
         nb++;
         OK = 1;
-        a0 = random_zz_p();
+        element_of_order(a0, 2*d);
+        if (a0 == 0)
+        {
+            OK = 0;
+            continue;
+        }
         // TODO: add randomness by using b0 as well
         evG = zz_pX_Multipoint_Geometric(a0, max(f.degX(), g.degX())+1);
         evG.evaluate(val_lcf, f.rep[nf], d);
@@ -690,7 +718,7 @@ long resultant_villard_tdeg(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
     }
     while (OK == 0 && nb < 5);
   
-    if (nb == 5)
+    if (OK == 0)
         return 0;
 
     for (long i = 0; i < d; i++)
-- 
2.43.0


From f7465e3d5651cdf8c791d3ec7ac61c4df0dc9522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:30 +0000
Subject: [PATCH 52/96] fix: product of a sequence by a bivariate polynomial
 was always empty or aborted

---
 ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
index 324badb..30c7f4c 100644
--- a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
+++ b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
@@ -28,7 +28,9 @@ Vec<zz_pX> mul(const Vec<zz_pX> &S, const zz_pX &a){
 Vec<zz_pX> mul(const Vec<zz_pX> &S, const zz_pXY &f){
   Vec<zz_pX> res;
   long dy = f.degY();
-  res.SetLength(min(0, S.length() - dy));
+  if (dy < 0) return res;
+
+  res.SetLength(max(0, S.length() - dy));
   for (long i = 0; i < res.length(); i++){
     zz_pX val{0};
     for (long t = 0; t <= dy; t++)
@@ -52,7 +54,9 @@ Vec<Vec<zz_pX>> mul(const Vec<Vec<zz_pX>> &S, const zz_pX &a){
 Vec<Vec<zz_pX>> mul(const Vec<Vec<zz_pX>> &S, const zz_pXY &f){
   Vec<Vec<zz_pX>> res;
   long dy = f.degY();
-  res.SetLength(min(0, S.length() - dy));
+  if (dy < 0) return res;
+
+  res.SetLength(max(0, S.length() - dy));
   for (long i = 0; i < res.length(); i++){
     Vec<zz_pX> val;
     val.SetLength(S[i].length());
@@ -78,11 +82,13 @@ Vec<zz_pX> mulTrunc(const Vec<zz_pX> &S, const zz_pX &a, const long d){
 Vec<zz_pX> mulTrunc(const Vec<zz_pX> &S, const zz_pXY &f, const long d){
   Vec<zz_pX> res;
   long dy = f.degY();
-  res.SetLength(min(0, S.length() - dy));
+  if (dy < 0) return res;
+
+  res.SetLength(max(0, S.length() - dy));
   for (long i = 0; i < res.length(); i++){
     zz_pX val{0};
     for (long t = 0; t <= dy; t++)
-      MulTrunc(val, f.rep[t], S[i+t], d);
+      val += MulTrunc(f.rep[t], S[i+t], d);
     res[i] = val;
   }
 
-- 
2.43.0


From a1011f4913de8c2625d1c9a3ca066e342eff522f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:30 +0000
Subject: [PATCH 53/96] fix: modified_kurakin read past the end of the sequence
 when a multiple of it is zero

---
 ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
index 30c7f4c..81bb4a3 100644
--- a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
+++ b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
@@ -425,6 +425,9 @@ void modified_kurakin(const long d, const Vec<zz_pX> &S, Vec<zz_pXY> &gens){
       I_fs[k] = f_xy;
     }
 
+    // nothing more to do for the zero sequence
+    if (k < 0 || k == u.length()) continue;
+
     // check if we can find t' st (t'+t) < d and x^t' u[k] = 0
     long tprime = d - valuation(u[k]);
     if (tprime+t < d){ 
@@ -838,6 +841,9 @@ void modified_kurakin(const long d, const Vec<Module> &S, Vec<zz_pXY> &gens){
       I[k].emplace_back(p);
     }
 
+    // nothing more to do for the zero sequence
+    if (k < 0 || k == u.length()) continue;
+
     // check if we can find t' st (t'+t) < d and x^t' u[k] = 0
     long tprime = d - valuation(u[k]);
     if (tprime+t < d && !bitmap[tprime+t]){
-- 
2.43.0


From 583ddff761b534c69b7659089bda2132a0127a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:26 +0000
Subject: [PATCH 54/96] fix: modified_kurakin kept stale polynomials of a
 reused output

---
 ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
index 81bb4a3..d0eda2a 100644
--- a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
+++ b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
@@ -546,6 +546,7 @@ void modified_kurakin(const long d, const Vec<zz_pX> &S, Vec<zz_pXY> &gens){
   gens.SetLength(d);
   for (long t = 0; t < d; t++){
     if (bitmap[t] == true) gens[t] = fs[t];
+    else gens[t].zero();
   }
 }
 
@@ -964,6 +965,7 @@ void modified_kurakin(const long d, const Vec<Module> &S, Vec<zz_pXY> &gens){
   gens.SetLength(d);
   for (long t = 0;  t< d; t++)
     if (bitmap[t]) gens[t] = fs[t];
+    else gens[t].zero();
 }
 
 void minpoly_DAC(const long d, const zz_pXY &SXY, const zz_pX &S0X, 
-- 
2.43.0


From fee84c81303fb38d66a282afe4a9e3025c7bc8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:55 +0000
Subject: [PATCH 55/96] fix: modified_kurakin took zero entries of a vector for
 entries of valuation -1

---
 ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
index d0eda2a..572fd0d 100644
--- a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
+++ b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
@@ -664,9 +664,11 @@ Vec<zz_pX> solve(const Vec<zz_pX> &l, const Vec<Vec<zz_pX>> &rs, const long d,
   if (ind == -1){
     // check for the minimal valuation on the last column
     long min_val = valuation(appbas[0][n]);
-    for (long r = 1; r < n+1; r++)
-      if (min_val < 0  || valuation(appbas[r][n]) < min_val)
-	min_val = valuation(appbas[r][n]);
+    for (long r = 1; r < n+1; r++){
+      long val = valuation(appbas[r][n]);
+      if (val >= 0 && (min_val < 0 || val < min_val))
+	min_val = val;
+    }
     if (verbose) std::cout << "minval: " << min_val << std::endl;
     tprime = min_val;
     if (verbose) std::cout << "tprime: " << tprime << std::endl;
@@ -801,9 +803,10 @@ void kurakin(const long d, const Vec<Module> &S, Vec<zz_pXY> &gens){
 // if a is zero
 long valuation(const Module &a){
   if (is_zero_seq(a)) return -1;
-  long min_val = valuation(a[0]);
-  for(long i = 1; i < a.length(); i++){
-    if (min_val > valuation(a[i])) min_val = valuation(a[i]);
+  long min_val = -1;
+  for(long i = 0; i < a.length(); i++){
+    long val = valuation(a[i]);
+    if (val >= 0 && (min_val < 0 || val < min_val)) min_val = val;
   }
   return min_val;
 }
-- 
2.43.0


From dc977e66f8daa3cfbd2128d921d88a4303c0c269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:55 +0000
Subject: [PATCH 56/96] fix: kurakin over modules stopped cancelling after two
 steps

---
 ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
index 572fd0d..8eba334 100644
--- a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
+++ b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
@@ -721,8 +721,7 @@ void kurakin(const long d, const Vec<Module> &S, Vec<zz_pXY> &gens){
 	std::cout << "u: " << u << std::endl;
       }
 
-      long temp_counter = 0;
-      while (temp_counter++ < 2){
+      while (true){
 	if (u.length() == 0) break;
 	if (is_zero_seq(u)) break;
 
-- 
2.43.0


From 2ae4d8024d166a948bf5fb2bbd5c77a6840ff817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:36 +0000
Subject: [PATCH 57/96] fix: minpoly_nondegenerate returned a wrong polynomial
 or aborted

---
 ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp | 62 +++++++++++++-----------
 1 file changed, 33 insertions(+), 29 deletions(-)

diff --git a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
index 8eba334..8e233b2 100644
--- a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
+++ b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
@@ -970,31 +970,32 @@ void modified_kurakin(const long d, const Vec<Module> &S, Vec<zz_pXY> &gens){
     else gens[t].zero();
 }
 
-void minpoly_DAC(const long d, const zz_pXY &SXY, const zz_pX &S0X, 
-    const zz_pXY &rhs, zz_pXY &P){
+// finds P = sum_{i < n} P_i y^i such that, modulo x^d, the coefficients of
+// y^(n-1), ..., y^(2n-2) in SXY*P are those of y^0, ..., y^(n-1) in rhs
+void minpoly_DAC(const long d, const long n, const zz_pXY &SXY,
+    const zz_pX &S0X, const zz_pXY &rhs, zz_pXY &P){
   if (d == 1){
     VecLong shift;
     shift.emplace_back(0);
-    shift.emplace_back(0);
+    shift.emplace_back(1);
+    shift.emplace_back(n-1);
     Mat<zz_pX> appbas;
     Mat<zz_pX> pmat;
-    long order = deg(S0X)+1;
+    long order = 2*n-1;
     pmat.SetDims(3,1);
     pmat[0][0] = S0X;
     pmat[1][0] = zz_pX{-1};
 
     // construct rhs mod x
     zz_pX rhs_x;
-    for (long i = 0; i <= rhs.degY(); i++){
-      if (rhs.rep[0] != zz_p(0))
-	SetCoeff(rhs_x, i, rhs.rep[i][0]);
-    }
-    LeftShift(rhs_x,rhs_x, rhs.degY());
+    for (long i = 0; i <= rhs.degY(); i++)
+      SetCoeff(rhs_x, i, coeff(rhs.rep[i], 0));
+    LeftShift(rhs_x,rhs_x, n-1);
     pmat[2][0] = -rhs_x;
     pmbasis(appbas, pmat, order, shift);
     long r_cor = 0;
     for (long i = 0; i < 3; i++){
-      if (deg(appbas[i][2]) == 0){
+      if (deg(appbas[i][2]) == 0 && deg(appbas[i][0]) < n && deg(appbas[i][1]) < n-1){
 	r_cor = i;
 	break;
       }
@@ -1012,44 +1013,47 @@ void minpoly_DAC(const long d, const zz_pXY &SXY, const zz_pX &S0X,
     }
     return;
   }
+  long h = d/2;
   zz_pXY P0;
-  minpoly_DAC(d/2, trunc_x(SXY,d/2), S0X, trunc_x(rhs,d/2),P0);
+  minpoly_DAC(h, n, trunc_x(SXY,h), S0X, trunc_x(rhs,h), P0);
 
   // compute the residue
   zz_pXY r;
   mul(r, SXY, P0);
-  r = trunc_x(r,d);
-  r = shift_y(r,-rhs.degY());
-  r = trunc_y(r,rhs.degY()+1);
-  r = rhs - r;
+  r = shift_y(r,-(n-1));
+  r = trunc_y(r,n);
+  r = trunc_x(rhs - r,d);
 
-  r = shift_x(r,-d/2);
+  r = shift_x(r,-h);
 
   zz_pXY P1;
-  minpoly_DAC(d/2, trunc_x(SXY,d/2), S0X, r, P1);
-  shift_x(P1,P1,d/2);
+  minpoly_DAC(d-h, n, trunc_x(SXY,d-h), S0X, r, P1);
+  shift_x(P1,P1,h);
   P = P0 + P1;
 }
 
 void minpoly_nondegenerate(const long d, const Vec<zz_pX> &S, zz_pXY &P){
+  long n = S.length()/2;
+  P = zz_pXY{zz_pX{1}};
+  if (n == 0) return;
+
   // make bivariate polynomial of S for multiplication
   zz_pXY SXY;
-  for (long i = 0; i < S.length()-1; i++)
+  for (long i = 0; i < 2*n-1; i++)
     SXY  = SXY + shift_y(zz_pXY{S[i]}, i);
   zz_pX S0X;
-  for (long i = 0; i < S.length()-1; i++)
-    SetCoeff(S0X, i, S[i][0]);
+  for (long i = 0; i < 2*n-1; i++)
+    SetCoeff(S0X, i, coeff(S[i], 0));
   // construct rhs
   zz_pXY rhs;
-  for (long i = S.length()/2; i < S.length(); i++)
-    rhs = rhs + shift_y(zz_pXY{S[i]},(i-S.length()/2));
+  for (long i = n; i < 2*n; i++)
+    rhs = rhs - shift_y(zz_pXY{S[i]}, i-n);
   zz_pXY P_res;
-  minpoly_DAC(d,SXY,S0X,zz_pXY{zz_pX{0}}-rhs,P_res);
-  P = zz_pXY{zz_pX{0}};
-  for (long i = 0; i < P_res.degY(); i++){
-    P.rep.append(P_res.rep[i]);
-  }
-  P = P + shift_y(zz_pXY{zz_pX{1}}, S.length()/2);
+  minpoly_DAC(d,n,trunc_x(SXY,d),S0X,trunc_x(rhs,d),P_res);
+  // the coefficients of P below y^n are those of P_res in reverse order
+  P = shift_y(P, n);
+  for (long i = 0; i <= P_res.degY(); i++)
+    P.rep[n-1-i] = P_res.rep[i];
 }
 
 void berlekamp_massey_pmbasis(const long d, const Vec<zz_pX> &S,
-- 
2.43.0


From 76734d349284e34b6e3558a1f4db4922cfb623b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:35 +0000
Subject: [PATCH 58/96] fix: column_partial_linearization aborted on entries of
 degree below the last block

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
index dde7d1c..33a74f8 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
@@ -137,7 +137,7 @@ VecLong column_partial_linearization(
                 parlin[i][jj].normalize();
             }
             const long reached_deg = d;
-            parlin[i][jj].SetLength(deg(pmat[i][j]) - reached_deg + 1);
+            parlin[i][jj].SetLength(std::max<long>(0, deg(pmat[i][j]) - reached_deg + 1));
             for (long dd=0; dd<=deg(pmat[i][j]) - reached_deg; ++dd)
                 parlin[i][jj][dd] = coeff(pmat[i][j], d++);
         }
@@ -194,7 +194,7 @@ VecLong column_partial_linearization(
                 parlin[i][jj].normalize();
             }
             const long reached_deg = d;
-            parlin[i][jj].SetLength(deg(pmat[i][j]) - reached_deg + 1);
+            parlin[i][jj].SetLength(std::max<long>(0, deg(pmat[i][j]) - reached_deg + 1));
             for (long dd=0; dd<=deg(pmat[i][j]) - reached_deg; ++dd)
                 parlin[i][jj][dd] = coeff(pmat[i][j], d++);
         }
-- 
2.43.0


From e303dc8834bd7b42c689fc13579ba59d8a33470c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:35 +0000
Subject: [PATCH 59/96] fix: column_partial_linearization wrote out of bounds
 on zero columns

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
index 33a74f8..7dfe8f0 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
@@ -116,7 +116,7 @@ VecLong column_partial_linearization(
     // parlin_degree[j-1]
     parlin_cols[0]=0;
     for (long j = 1; j < pmat.NumCols()+1; ++j)
-        parlin_cols[j] = parlin_cols[j-1] + ceil( (target_degree[j-1]+1.0) / (parlin_degree[j-1]+1) );
+        parlin_cols[j] = parlin_cols[j-1] + ceil( (std::max<long>(0,target_degree[j-1])+1.0) / (parlin_degree[j-1]+1) );
 
     // set dimensions of the partial linearization
     parlin.SetDims(pmat.NumRows(), parlin_cols[pmat.NumCols()]);
-- 
2.43.0


From a4946aff2b1ab77673172a3cf3f59ce6b79e201f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:35 +0000
Subject: [PATCH 60/96] fix: right_parlin products added to the previous
 contents of the output and aborted on zero rows and columns

---
 .../src/mat_lzz_pX_linearization.cpp          | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
index 7dfe8f0..2413696 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
@@ -224,23 +224,24 @@ void right_parlin_multiply(
     multiply(c_parlin, a, b_parlin);
 
     // compress the product back into c
-    c.SetDims(a.NumRows(), b.NumCols());
+    Mat<zz_pX> res(INIT_SIZE, a.NumRows(), b.NumCols());
     for (long i=0; i<a.NumRows(); ++i)
     {
         long deg_a = deg(a[i]);
         for (long j=0; j<b.NumCols(); ++j)
         {
-            c[i][j].SetLength(deg_a + column_degree[j] + 1);
+            res[i][j].SetLength(std::max<long>(0, deg_a + column_degree[j] + 1));
             long d_init=0;
             for (long jj=parlin_cols[j]; jj<parlin_cols[j+1]; ++jj)
             {
                 for (long d=0; d<=deg(c_parlin[i][jj]); ++d)
-                    c[i][j][d_init+d] += coeff(c_parlin[i][jj], d);
+                    res[i][j][d_init+d] += coeff(c_parlin[i][jj], d);
                 d_init += parlin_degree+1;
             }
-            c[i][j].normalize();
+            res[i][j].normalize();
         }
     }
+    c.swap(res);
 }
 
 /* returns trunc( a*b div x^dA, dB+1 )           */
@@ -266,25 +267,26 @@ void right_parlin_middle_product(
     multiply(c_parlin, a, b_parlin);
 
     // compress the product back into c
-    c.SetDims(a.NumRows(), b.NumCols());
+    Mat<zz_pX> res(INIT_SIZE, a.NumRows(), b.NumCols());
     for (long i=0; i<a.NumRows(); ++i)
     {
         long deg_a = deg(a[i]);
         for (long j=0; j<b.NumCols(); ++j)
         {
-            c[i][j].SetLength(deg_a + target_degree[j] - d_inf + 1);
+            res[i][j].SetLength(std::max<long>(0, deg_a + target_degree[j] - d_inf + 1));
             long d_init=0;
             for (long jj=parlin_cols[j]; jj<parlin_cols[j+1]; ++jj)
             {
                 for (long d=0; d<=deg(c_parlin[i][jj]); ++d)
-                    c[i][j][d_init+d] += coeff(c_parlin[i][jj], d);
+                    res[i][j][d_init+d] += coeff(c_parlin[i][jj], d);
                 d_init += parlin_degree+1;
             }
-            //c[i][j].normalize(); // TODO remove?
-            c[i][j] >>= deg(a);  // precompute deg(a)
-            trunc(c[i][j], c[i][j], dB+1);
+            //res[i][j].normalize(); // TODO remove?
+            res[i][j] >>= deg(a);  // precompute deg(a)
+            trunc(res[i][j], res[i][j], dB+1);
         }
     }
+    c.swap(res);
 }
 
 PML_END_IMPL
-- 
2.43.0


From 0f2c840b04740f71587259d0b33892bb83dfae37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:35 +0000
Subject: [PATCH 61/96] fix: right_parlin_multiply by the zero matrix divided
 by zero

---
 ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_linearization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_linearization.h b/ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_linearization.h
index 7acfa64..2bdad85 100644
--- a/ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_linearization.h
+++ b/ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_linearization.h
@@ -250,7 +250,7 @@ inline void right_parlin_multiply(
 {
     VecLong cdeg(b.NumCols());
     col_degree(cdeg, b);
-    right_parlin_multiply(c, a, b, deg(a), cdeg);
+    right_parlin_multiply(c, a, b, std::max<long>(0,deg(a)), cdeg);
 }
 
 /* c = trunc( trunc(a, dA+1)*b div x^dA, dB+1 )           */
-- 
2.43.0


From 93fb846cfac511ccc3277b61f4f54f04ffbbe131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:30 +0000
Subject: [PATCH 62/96] fix: right_parlin_middle_product returned unnormalized
 entries for a zero left factor

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
index 2413696..cb11afc 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
@@ -281,7 +281,7 @@ void right_parlin_middle_product(
                     res[i][j][d_init+d] += coeff(c_parlin[i][jj], d);
                 d_init += parlin_degree+1;
             }
-            //res[i][j].normalize(); // TODO remove?
+            res[i][j].normalize();
             res[i][j] >>= deg(a);  // precompute deg(a)
             trunc(res[i][j], res[i][j], dB+1);
         }
-- 
2.43.0


From 2dd1fb30d5109e42980bd6fa9aa79e333ea5351f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:30 +0000
Subject: [PATCH 63/96] fix: default degree of column_partial_linearization
 overflowed on zero columns (unsigned division)

---
 ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_linearization.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_linearization.h b/ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_linearization.h
index 2bdad85..7a66033 100644
--- a/ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_linearization.h
+++ b/ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_linearization.h
@@ -169,7 +169,7 @@ inline VecLong column_partial_linearization(
                                            )
 {
     long parlin_degree = std::accumulate(target_degree.begin(), target_degree.end(), 0);
-    parlin_degree = 1 + parlin_degree / target_degree.size();
+    parlin_degree = 1 + parlin_degree / (long)target_degree.size();
     VecLong parlin_degrees(pmat.NumCols(), parlin_degree);
     return column_partial_linearization(parlin, pmat, parlin_degrees, target_degree);
 }
@@ -184,7 +184,7 @@ inline VecLong column_partial_linearization_cdeg(
     VecLong cdeg(pmat.NumCols());
     col_degree(cdeg, pmat);
     long parlin_degree = std::accumulate(cdeg.begin(), cdeg.end(), 0);
-    parlin_degree = 1 + parlin_degree / cdeg.size();
+    parlin_degree = 1 + parlin_degree / (long)cdeg.size();
     VecLong parlin_degrees(pmat.NumCols(), parlin_degree);
     return column_partial_linearization(parlin, pmat, parlin_degrees, cdeg);
 }
-- 
2.43.0


From b8c78da04030ef405a6c43cf9d6cd478ec8ac2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:53 +0000
Subject: [PATCH 64/96] fix: output of Vec<zz_pX> uses the indeterminate it is
 given

---
 ntl-extras/magma_output/src/magma_output.cpp | 2 +-
 ntl-extras/sage_output/src/sage_output.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/magma_output/src/magma_output.cpp b/ntl-extras/magma_output/src/magma_output.cpp
index e36bbba..6acfed8 100644
--- a/ntl-extras/magma_output/src/magma_output.cpp
+++ b/ntl-extras/magma_output/src/magma_output.cpp
@@ -187,7 +187,7 @@ void magma_output(const Vec<zz_pX> & v, const string & var)
     cout << "[";
     for (long i = 0; i < v.length(); i++)
     {
-        magma_output(v[i]);
+        magma_output(v[i], var);
         if (i < v.length()-1)
             cout << ", ";
     }
diff --git a/ntl-extras/sage_output/src/sage_output.cpp b/ntl-extras/sage_output/src/sage_output.cpp
index d03eb98..ad51fb3 100644
--- a/ntl-extras/sage_output/src/sage_output.cpp
+++ b/ntl-extras/sage_output/src/sage_output.cpp
@@ -189,7 +189,7 @@ void sage_output(const Vec<zz_pX> & v, const string & var)
     cout << "[";
     for (long i = 0; i < v.length(); i++)
     {
-        sage_output(v[i]);
+        sage_output(v[i], var);
         if (i < v.length()-1)
             cout << ", ";
     }
-- 
2.43.0


From 3ffc3e9627c23a3387929fdad6ef66482c715704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:53 +0000
Subject: [PATCH 65/96] fix: init_ZZX names the ring UZ, as the header says and
 as ZZX output expects

---
 ntl-extras/magma_output/src/magma_output.cpp | 4 ++--
 ntl-extras/sage_output/src/sage_output.cpp   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ntl-extras/magma_output/src/magma_output.cpp b/ntl-extras/magma_output/src/magma_output.cpp
index 6acfed8..4d0b843 100644
--- a/ntl-extras/magma_output/src/magma_output.cpp
+++ b/ntl-extras/magma_output/src/magma_output.cpp
@@ -25,11 +25,11 @@ void magma_init_X()
 }
 
 /*------------------------------------------------------------*/
-/* initializes U<XX>=Z[XX]                                    */
+/* initializes UZ<XX>=Z[XX]                                    */
 /*------------------------------------------------------------*/
 void magma_init_ZZX()
 {
-    cout << "U<XX> := PolynomialRing(Integers());\n";
+    cout << "UZ<XX> := PolynomialRing(Integers());\n";
 }
 
 
diff --git a/ntl-extras/sage_output/src/sage_output.cpp b/ntl-extras/sage_output/src/sage_output.cpp
index ad51fb3..155ecf2 100644
--- a/ntl-extras/sage_output/src/sage_output.cpp
+++ b/ntl-extras/sage_output/src/sage_output.cpp
@@ -29,7 +29,7 @@ void sage_init_X()
 /*------------------------------------------------------------*/
 void sage_init_ZZX()
 {
-    cout << "U.<XX> = PolynomialRing(Integers())\n";
+    cout << "UZ.<XX> = PolynomialRing(Integers())\n";
 }
 
 
-- 
2.43.0


From 069cd1b4297e9c99d204a9963da6594af9c3eb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:42 +0000
Subject: [PATCH 66/96] fix: FFT with a single point shifted by -1 and read
 past the end of its table

---
 ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_FFT.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_FFT.cpp b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_FFT.cpp
index 7302f68..85370bd 100644
--- a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_FFT.cpp
+++ b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_FFT.cpp
@@ -15,7 +15,7 @@ static long RevInc(long a, long k)
     long j, m;
 
     j = k; 
-    m = 1L << (k-1);
+    m = k > 0 ? 1L << (k-1) : 0;
 
     while (j && (m & a)) {
         a ^= m;
@@ -70,7 +70,7 @@ zz_pX_Multipoint_FFT::zz_pX_Multipoint_FFT(long n)
     zz_p pow1 = to_zz_p(1);
     zz_p pow2 = to_zz_p(1);
 
-    zz_p z1 = to_zz_p(wk.tbl[0][1]);
+    zz_p z1 = to_zz_p(wk.tbl[0][n > 1 ? 1 : 0]);
     zz_p z2 = to_zz_p(wk.tbl[0][n >> 1]);
     do_bit_reverse = 1;
 
-- 
2.43.0


From 4ed4c010c6841a000665b2615fbb5c64651f77cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:42 +0000
Subject: [PATCH 67/96] fix: InvTruncMul read coefficients beyond the degree,
 mirror indexed a vector at its length

---
 ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp         | 8 ++++----
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp b/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
index 18758b7..fbeeb9d 100644
--- a/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
+++ b/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
@@ -201,17 +201,17 @@ static void NewtonInvTruncMul(zz_pX& x, const zz_pX& b, const zz_pX& a, long m)
 
         x.rep.SetLength(l+1);
         for (long i = 0; i < k; ++i)
-            x[i]=P2l[i];
+            x[i] = coeff(P2l, i);
 
         if (deg(b) >= k)
             for (long i = k; i <= l; ++i) 
-                add(x[i], P2l[i], P2h[i-k]);
+                add(x[i], coeff(P2l, i), coeff(P2h, i-k));
         else
             for (long i = k; i <= l; ++i) 
-                x[i] = P2l[i];
+                x[i] = coeff(P2l, i);
 
         for (long i = k; i <= l; ++i) 
-            sub(x[i], x[i], P1[i-k]);
+            sub(x[i], x[i], coeff(P1, i-k));
 
         x.normalize();
     }
diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
index eb3e827..ba25ff0 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
@@ -232,7 +232,7 @@ void mirror(Vec<zz_pX>& mvec, const Vec<zz_pX>& pvec)
     if (&mvec != &pvec)
         mvec = pvec;
 
-    std::reverse(&mvec[0], &mvec[n]);
+    std::reverse(mvec.elts(), mvec.elts() + n);
 }
 
 /*------------------------------------------------------------*/
-- 
2.43.0


From 89ee0cfbeb60d023af888114e7710702d909fe71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:38 +0000
Subject: [PATCH 68/96] fix: reject an operand of too large degree in the dense
 left multiplier

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp
index e5170a8..c875b79 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp
@@ -560,6 +560,11 @@ void mat_lzz_pX_lmultiplier_dense::multiply(Mat<zz_pX>& c, const Mat<zz_pX>& b)
         return;
     }
 
+    if (deg(b) > __dB)
+    {
+        LogicError("Rhs degree too large in multiplier");
+    }
+
     const long m = NumRows();
     const long n = NumCols();
     const long p = b.NumCols();
-- 
2.43.0


From 2a32a0b048c1ce39adfe34323f136ebdfd42f800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:38 +0000
Subject: [PATCH 69/96] fix: check the degrees before building generators in
 sylvester_lzz_pX::newton_inv_trunc

---
 ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp b/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp
index 8470a19..2d31a0f 100644
--- a/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp
+++ b/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp
@@ -388,10 +388,6 @@ static VecLong degrees(long n)
 /*------------------------------------------------------------*/
 void sylvester_lzz_pX::newton_inv_trunc(toeplitz_like_minus_lzz_pX& iM, long m) const
 {
-    // generators of M
-    Mat<zz_pX> U, V;
-    phi_plus_generators(U, V);
-
     // M at x=0
     zz_pX a0, b0;
     for (long i = 0; i < a.length(); i++)
@@ -404,6 +400,10 @@ void sylvester_lzz_pX::newton_inv_trunc(toeplitz_like_minus_lzz_pX& iM, long m)
         Error("Degree must be positive in newton_inv_trunc");
     }
 
+    // generators of M
+    Mat<zz_pX> U, V;
+    phi_plus_generators(U, V);
+
     sylvester_lzz_p S(a0, b0);
     toeplitz_like_minus_lzz_p iS;
     long r = S.inv(iS);
-- 
2.43.0


From 08d200b2d2d916f185d2a8c576ef4aa245ebf750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:11 +0000
Subject: [PATCH 70/96] fix: Villard resultants returned wrong values (or
 aborted) on non-generic inputs such as monic ones

---
 ntl-extras/lzz_pXY/src/lzz_pXY.cpp | 44 +++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
index b004582..6193d8f 100644
--- a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
+++ b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
@@ -530,6 +530,32 @@ long resultant(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
     return 1;
 }
 
+/*------------------------------------------------------------*/
+/* checks that res is, up to a constant, the polynomial whose */
+/* values at pts are the resultants of the val_f[i], val_g[i] */
+/* if so, fixes the constant and returns 1; returns 0 if not  */
+/*------------------------------------------------------------*/
+static long scale_resultant(zz_pX& res, const Vec<zz_p>& pts, const Vec<zz_pX>& val_f, const Vec<zz_pX>& val_g)
+{
+    if (IsZero(res))
+        return 0;
+
+    zz_p cst, ref;
+    for (long i = 0; i < pts.length(); i++)
+    {
+        const zz_p val = eval(res, pts[i]);
+        resultant(ref, val_f[i], val_g[i]);
+        if (cst == 0 && val != 0)
+            cst = ref / val;
+        if (ref != cst * val)
+            return 0;
+    }
+    if (cst == 0)
+        return 0;
+    res *= cst;
+    return 1;
+}
+
 /*------------------------------------------------------------*/
 /* computes the resultant of f and g, Villard's algorithm     */
 /* returns 0 iff the computation failed                       */
@@ -643,8 +669,13 @@ long resultant_villard(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
     else
         matrix_recon_interpolation_geometric(basis, pts, a0, blocks);
 
+    // linsolve requires an invertible constant coefficient
+    if (determinant(coeff(basis, 0)) == 0)
+        return 0;
     determinant_via_linsolve(res, basis);
-    return 1;
+
+    // the inputs may not be generic enough
+    return scale_resultant(res, pts, val_f, val_g);
 }
 
 long resultant_villard_tdeg(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
@@ -784,14 +815,13 @@ long resultant_villard_tdeg(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
             basis[i][j].swap(intbas[i+m][j]);
 
     /* std::cout << degree_matrix(basis) << std::endl; */
+    // linsolve requires an invertible constant coefficient
+    if (determinant(coeff(basis, 0)) == 0)
+        return 0;
     determinant_via_linsolve(res, basis);  /* randomized! */
 
-    // TODO we may want to fix the missing constant factor
-    // for this, retrieve the leading term via the determinant
-    // of the tdeg-shifted leading matrix
-    // (for safety, make sure this takes negligible time)
-
-    return 1;
+    // the inputs may not be generic enough
+    return scale_resultant(res, pts, val_f, val_g);
 }
 
 
-- 
2.43.0


From 730b12946bddb4198c52c6a807ecd4062c16c4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:25 +0000
Subject: [PATCH 71/96] fix: mbasis_generic_onecolumn read past the end of
 short entries

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
index b54f8ca..004f08e 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
@@ -2412,7 +2412,7 @@ VecLong mbasis_generic_onecolumn(
         residuals[k].SetDims(nrows,nrows);
         for (long i = 0; i < nrows; ++i)
             for (long j = 0; j < nrows; ++j)
-                residuals[k][i][j] = pmat[i][0][k*nrows+j];
+                residuals[k][i][j] = coeff(pmat[i][0], k*nrows+j);
     }
 
     // for storing appbas coefficients
-- 
2.43.0


From 7bbcc641f8254ac9e5f2bc5489d787247b40b0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:00 +0000
Subject: [PATCH 72/96] fix: pmbasis_generic_onecolumn read out of bounds when
 the input degree reaches the order

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
index 004f08e..380ae61 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
@@ -2528,7 +2528,8 @@ VecLong pmbasis_generic_onecolumn(
 
     // residual = (appbas * pmat * X^-order1) mod X^order2
     long deg_sp = (pmat.NumCols() * order)/ (2*pmat.NumRows());
-    right_parlin_middle_product(residual, appbas, pmat, deg_sp, order-1, order1, order2-1);
+    trunc(trunc_pmat,pmat,order);
+    right_parlin_middle_product(residual, appbas, trunc_pmat, deg_sp, order-1, order1, order2-1);
 
     // second recursive call, with 'residual' and 'rdeg'
     pivdeg2 = pmbasis_generic_onecolumn(appbas2,residual,order2,rdeg);
-- 
2.43.0


From ebe4bf8a1a2f5c6c413cd7cb7dd10d010815e36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:49 +0000
Subject: [PATCH 73/96] fix: nmod_vec dot products split26 lost the carry of
 the low word

---
 flint-extras/src/nmod_vec_extra/nmod_vec_dot_product.c       | 3 ++-
 flint-extras/src/nmod_vec_extra/nmod_vec_dot_product_multi.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/flint-extras/src/nmod_vec_extra/nmod_vec_dot_product.c b/flint-extras/src/nmod_vec_extra/nmod_vec_dot_product.c
index c2675cf..5be4106 100644
--- a/flint-extras/src/nmod_vec_extra/nmod_vec_dot_product.c
+++ b/flint-extras/src/nmod_vec_extra/nmod_vec_dot_product.c
@@ -214,7 +214,8 @@ ulong _nmod_vec_dot_product_split26(nn_srcptr v1, nn_srcptr v2, ulong len, nmod_
 
     // result: ulo + 2**26 umi + 2**52 uhi
     // hi = (umi >> 38) + (uhi >> 12)  ||  lo = (umi << 26) + (uhi << 52) + ulo
-    add_ssaaaa(uhi, ulo, (umi>>38), (umi<<26), (uhi>>12), ((uhi<<52)+ulo));
+    add_ssaaaa(uhi, ulo, (uhi>>12), (uhi<<52), UWORD(0), ulo);
+    add_ssaaaa(uhi, ulo, uhi, ulo, (umi>>38), (umi<<26));
     ulong res;
     NMOD2_RED2(res, uhi, ulo, mod);
     return res;
diff --git a/flint-extras/src/nmod_vec_extra/nmod_vec_dot_product_multi.c b/flint-extras/src/nmod_vec_extra/nmod_vec_dot_product_multi.c
index 778baf9..b34d933 100644
--- a/flint-extras/src/nmod_vec_extra/nmod_vec_dot_product_multi.c
+++ b/flint-extras/src/nmod_vec_extra/nmod_vec_dot_product_multi.c
@@ -1200,7 +1200,8 @@ void _nmod_vec_dot_product_multi_2_split26(nn_ptr uv, nn_srcptr u, nn_srcptr * v
     {
         // result: uv_lo + 2**26 uv_mi + 2**52 uv_hi
         // hi = (uv_mi >> 38) + (uv_hi >> 12)  ||  lo = (uv_mi << 26) + (uv_hi << 52) + uv_lo
-        add_ssaaaa(uv_hi[j], uv[j], uv_mi[j]>>38, uv_mi[j]<<26, uv_hi[j]>>12, (uv_hi[j]<<52)+uv[j]);
+        add_ssaaaa(uv_hi[j], uv[j], uv_hi[j]>>12, uv_hi[j]<<52, UWORD(0), uv[j]);
+        add_ssaaaa(uv_hi[j], uv[j], uv_hi[j], uv[j], uv_mi[j]>>38, uv_mi[j]<<26);
         NMOD2_RED2(uv[j], uv_hi[j], uv[j], mod);
     }
     _nmod_vec_clear(uv_hi);
-- 
2.43.0


From 5ee78a53eccb4b3968107eb78dd6c13c4106e109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:49 +0000
Subject: [PATCH 74/96] fix: nmod_multimod_CRT_CRT with 4 primes and a large
 modulus ignored the top word

---
 flint-extras/src/nmod_extra/nmod_multimod_CRT_CRT.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flint-extras/src/nmod_extra/nmod_multimod_CRT_CRT.c b/flint-extras/src/nmod_extra/nmod_multimod_CRT_CRT.c
index 9143861..b04f352 100644
--- a/flint-extras/src/nmod_extra/nmod_multimod_CRT_CRT.c
+++ b/flint-extras/src/nmod_extra/nmod_multimod_CRT_CRT.c
@@ -105,6 +105,7 @@ FLINT_FORCE_INLINE void _crt_4(nn_ptr out,
         _big_addmul_4_3(r, t, data + 2*4, nmod_mul(inv2, residues2[i], mod2));
         _big_addmul_4_3(r, t, data + 3*4, nmod_mul(inv3, residues3[i], mod3));
         _reduce_big_sum_4(r, t, data + 4*4);
+        NMOD2_RED2(r[2], r[3], r[2], mod);
         NMOD_RED3(out[i], r[2], r[1], r[0], mod);
     }
 }
-- 
2.43.0


From 3264cb25f913668ee7806cf1526d8ff0a7192271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:49 +0000
Subject: [PATCH 75/96] fix: nmod_find_root rejected elements of order exactly
 n

---
 flint-extras/src/nmod_extra/nmod_find_root.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flint-extras/src/nmod_extra/nmod_find_root.c b/flint-extras/src/nmod_extra/nmod_find_root.c
index ed68e96..2a2cec0 100644
--- a/flint-extras/src/nmod_extra/nmod_find_root.c
+++ b/flint-extras/src/nmod_extra/nmod_find_root.c
@@ -29,7 +29,7 @@ ulong nmod_find_root(ulong n, nmod_t mod)
             qk = nmod_mul(qk, q, mod);
             k++;
         }
-        if (qk != 1)
+        if (k >= n) // q^j != 1 for 0 < j < n
         {
             return q;
         }
-- 
2.43.0


From ea86de8bb9246dbe0dbb8a4070d17f2a51166830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:34 +0000
Subject: [PATCH 76/96] fix: _nmod_vec_dot_product_split26_avx lost the carry
 of the low word

---
 flint-extras/src/nmod_vec_extra/nmod_vec_dot_product.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flint-extras/src/nmod_vec_extra/nmod_vec_dot_product.c b/flint-extras/src/nmod_vec_extra/nmod_vec_dot_product.c
index 5be4106..f92bd6e 100644
--- a/flint-extras/src/nmod_vec_extra/nmod_vec_dot_product.c
+++ b/flint-extras/src/nmod_vec_extra/nmod_vec_dot_product.c
@@ -261,7 +261,8 @@ ulong _nmod_vec_dot_product_split26_avx(nn_srcptr v1, nn_srcptr v2, ulong len, n
 
     // result: ulo + 2**26 umi + 2**52 uhi
     // hi = (umi >> 38) + (uhi >> 12)  ||  lo = (umi << 26) + (uhi << 52) + ulo
-    add_ssaaaa(dp_hi, dp_lo, (dp_mi>>38), (dp_mi<<26), (dp_hi>>12), ((dp_hi<<52)+dp_lo));
+    add_ssaaaa(dp_hi, dp_lo, (dp_hi>>12), (dp_hi<<52), UWORD(0), dp_lo);
+    add_ssaaaa(dp_hi, dp_lo, dp_hi, dp_lo, (dp_mi>>38), (dp_mi<<26));
     ulong res;
     NMOD2_RED2(res, dp_hi, dp_lo, mod);
     return res;
-- 
2.43.0


From d27afa80d3f5401b1afef776c7f37066ede19fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:14 +0000
Subject: [PATCH 77/96] fix: _nmod_mat_rotate_columns_leftward put the rotated
 column at the wrong place

---
 flint-extras/src/nmod_mat_extra/nmod_mat_rotations.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flint-extras/src/nmod_mat_extra/nmod_mat_rotations.c b/flint-extras/src/nmod_mat_extra/nmod_mat_rotations.c
index a50d937..6fab894 100644
--- a/flint-extras/src/nmod_mat_extra/nmod_mat_rotations.c
+++ b/flint-extras/src/nmod_mat_extra/nmod_mat_rotations.c
@@ -123,7 +123,7 @@ void _nmod_mat_rotate_columns_leftward(nmod_mat_t mat, slong * vec, slong i, slo
             ulong tmp_mat = nmod_mat_entry(mat, ii, i);
             for (slong jj = i; jj < j; jj++)
                 nmod_mat_entry(mat, ii, jj) = nmod_mat_entry(mat, ii, jj+1);
-            nmod_mat_entry(mat, ii, i) = tmp_mat;
+            nmod_mat_entry(mat, ii, j) = tmp_mat;
         }
     }
 }
-- 
2.43.0


From 5a50001974274d1e8629bb7afddabfc7bdb58064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:14 +0000
Subject: [PATCH 78/96] fix: nmod_mat_permute_columns composed the permutations
 over the number of rows

---
 flint-extras/src/nmod_mat_extra/nmod_mat_rotations.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flint-extras/src/nmod_mat_extra/nmod_mat_rotations.c b/flint-extras/src/nmod_mat_extra/nmod_mat_rotations.c
index 6fab894..770c83d 100644
--- a/flint-extras/src/nmod_mat_extra/nmod_mat_rotations.c
+++ b/flint-extras/src/nmod_mat_extra/nmod_mat_rotations.c
@@ -144,7 +144,7 @@ void nmod_mat_permute_columns(nmod_mat_t mat, const slong * perm_act, slong * pe
 
     /* perm_store[j] <- perm_store[perm_act[j]] */
     if (perm_store)
-        _perm_compose(perm_store, perm_store, perm_act, mat->r);
+        _perm_compose(perm_store, perm_store, perm_act, mat->c);
 
     /* rows[i] <- rows[perm_act[i]]  */
     for (slong i = 0; i < mat->r; i++)
-- 
2.43.0


From c4c8cffa7a948bbee275d88fce84c61e262a880b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:14 +0000
Subject: [PATCH 79/96] fix: nmod_mat_l_u_from_compactlu did not fill U and
 left entries of the first row of L

---
 flint-extras/src/nmod_mat_extra/nmod_mat_pluq.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flint-extras/src/nmod_mat_extra/nmod_mat_pluq.c b/flint-extras/src/nmod_mat_extra/nmod_mat_pluq.c
index 8a118b6..425891b 100644
--- a/flint-extras/src/nmod_mat_extra/nmod_mat_pluq.c
+++ b/flint-extras/src/nmod_mat_extra/nmod_mat_pluq.c
@@ -71,7 +71,7 @@ void _nmod_mat_l_u_from_compactlu_zeroin(nmod_mat_t L,
 #if __FLINT_VERSION < 3 || (__FLINT_VERSION == 3 && __FLINT_VERSION_MINOR < 3)
             _nmod_vec_set(U->rows[i]+i, LU->rows[i]+i, U->c - i);
 #else
-            _nmod_vec_set(nmod_mat_entry_ptr(L, i, i), nmod_mat_entry_ptr(LU, i, i), U->c - i);
+            _nmod_vec_set(nmod_mat_entry_ptr(U, i, i), nmod_mat_entry_ptr(LU, i, i), U->c - i);
 #endif
 }
 
@@ -81,7 +81,7 @@ void nmod_mat_l_u_from_compactlu(nmod_mat_t L,
                                  slong rk)
 {
     // L: set to zero all entries above diagonal or beyond rk-th column
-    for (slong i = 1; i < rk; i++)
+    for (slong i = 0; i < rk; i++)
 #if __FLINT_VERSION < 3 || (__FLINT_VERSION == 3 && __FLINT_VERSION_MINOR < 3)
         _nmod_vec_zero(L->rows[i]+i+1, L->c - i-1);
 #else
-- 
2.43.0


From fb8ff872dacf419bb598feb39be4a573910371cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:14 +0000
Subject: [PATCH 80/96] fix: nmod_mat_poly_shift_left lost coefficients when
 not in place

---
 flint-extras/src/nmod_mat_poly_extra/nmod_mat_poly_shift.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/flint-extras/src/nmod_mat_poly_extra/nmod_mat_poly_shift.c b/flint-extras/src/nmod_mat_poly_extra/nmod_mat_poly_shift.c
index c67f58d..6358f0f 100644
--- a/flint-extras/src/nmod_mat_poly_extra/nmod_mat_poly_shift.c
+++ b/flint-extras/src/nmod_mat_poly_extra/nmod_mat_poly_shift.c
@@ -44,9 +44,10 @@ void nmod_mat_poly_shift_left(nmod_mat_poly_t smatp,
         return;
     }
 
-    nmod_mat_poly_fit_length(smatp, matp->length + n);
-    _nmod_mat_poly_set_length(smatp, matp->length + n);
-    _nmod_mat_poly_shift_left(smatp->coeffs, matp->coeffs, matp->length - n, n);
+    const slong len = matp->length;
+    nmod_mat_poly_fit_length(smatp, len + n);
+    _nmod_mat_poly_set_length(smatp, len + n);
+    _nmod_mat_poly_shift_left(smatp->coeffs, matp->coeffs, len, n);
 }
 
 //void nmod_mat_poly_shift_right(nmod_mat_poly_t smatp,
-- 
2.43.0


From b2fae6d5fc36e6e5bcee2fb01e61dd4a3a6f861a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:14 +0000
Subject: [PATCH 81/96] fix: nmod_mat_poly_is_constant was false for matrices
 of degree 0

---
 flint-extras/src/nmod_mat_poly.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flint-extras/src/nmod_mat_poly.h b/flint-extras/src/nmod_mat_poly.h
index 08065d1..bf6a078 100644
--- a/flint-extras/src/nmod_mat_poly.h
+++ b/flint-extras/src/nmod_mat_poly.h
@@ -360,7 +360,7 @@ nmod_mat_poly_set_entry(nmod_mat_poly_t matp,
 NMOD_MAT_POLY_INLINE int
 nmod_mat_poly_is_constant(const nmod_mat_poly_t matp)
 {
-    return matp->length == 0;
+    return matp->length <= 1;
 }
 
 /** Truncates `matp` to the given `order` and normalises it. If `order` is
-- 
2.43.0


From 0a4d1ca1ab237ae4f2eecbf80f68193e10a1563d Mon Sep 17 00:00:00 2001
From: dev <dev@x>
Date: Wed, 18 Nov 2026 20:26:28 +0000
Subject: [PATCH 82/96] fix: nmod_poly_mat_approximant.h closed an extern "C"
 block that it does not open

---
 flint-extras/src/nmod_poly_mat_approximant.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flint-extras/src/nmod_poly_mat_approximant.h b/flint-extras/src/nmod_poly_mat_approximant.h
index 3f5bdbd..8e7b0d3 100644
--- a/flint-extras/src/nmod_poly_mat_approximant.h
+++ b/flint-extras/src/nmod_poly_mat_approximant.h
@@ -105,6 +105,10 @@
 #include "nmod_poly_mat_forms.h" // for orientation_t
 #include "pml.h"
 
+#ifdef __cplusplus
+extern "C" {
+#endif
+
 
 
 /** @name General interfaces for approximant basis computation and verification */
-- 
2.43.0


From 74cb0a9cfd64509bd9aaaca6b9b10df88f6cf9b8 Mon Sep 17 00:00:00 2001
From: dev <dev@x>
Date: Wed, 18 Nov 2026 20:43:17 +0000
Subject: [PATCH 83/96] fix: waksman and vandermonde products used a temporary
 of wrong shape or modulus when the output aliases an operand

---
 flint-extras/src/nmod_poly_mat_extra/mul_vandermonde.c | 4 ++--
 flint-extras/src/nmod_poly_mat_extra/mul_waksman.c     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/flint-extras/src/nmod_poly_mat_extra/mul_vandermonde.c b/flint-extras/src/nmod_poly_mat_extra/mul_vandermonde.c
index 73f6229..5df43dc 100644
--- a/flint-extras/src/nmod_poly_mat_extra/mul_vandermonde.c
+++ b/flint-extras/src/nmod_poly_mat_extra/mul_vandermonde.c
@@ -93,7 +93,7 @@ void nmod_poly_mat_mul_vandermonde1(nmod_poly_mat_t c, const nmod_poly_mat_t a,
     if (c == a || c == b)
     {
         nmod_poly_mat_t T;
-        nmod_poly_mat_init(T, m, n, p);
+        nmod_poly_mat_init(T, m, p, a->modulus);
         nmod_poly_mat_mul_vandermonde1(T, a, b);
         nmod_poly_mat_swap_entrywise(c, T);
         nmod_poly_mat_clear(T);
@@ -292,7 +292,7 @@ void nmod_poly_mat_mul_vandermonde2(nmod_poly_mat_t c, const nmod_poly_mat_t a,
     if (c == a || c == b)
     {
         nmod_poly_mat_t T;
-        nmod_poly_mat_init(T, m, n, p);
+        nmod_poly_mat_init(T, m, p, a->modulus);
         nmod_poly_mat_mul_vandermonde2(T, a, b);
         nmod_poly_mat_swap_entrywise(c, T);
         nmod_poly_mat_clear(T);
diff --git a/flint-extras/src/nmod_poly_mat_extra/mul_waksman.c b/flint-extras/src/nmod_poly_mat_extra/mul_waksman.c
index b8fcc3b..66045e7 100644
--- a/flint-extras/src/nmod_poly_mat_extra/mul_waksman.c
+++ b/flint-extras/src/nmod_poly_mat_extra/mul_waksman.c
@@ -35,7 +35,7 @@ void nmod_poly_mat_mul_waksman(nmod_poly_mat_t C, const nmod_poly_mat_t A,  cons
     if (C == A || C == B)
     {
         nmod_poly_mat_t T;
-        nmod_poly_mat_init(T, m, n, mod);
+        nmod_poly_mat_init(T, m, p, mod);
         nmod_poly_mat_mul_waksman(T, A, B);
         nmod_poly_mat_swap_entrywise(C, T);
         nmod_poly_mat_clear(T);
-- 
2.43.0


From e28a26cbcc3923b923730af926b90d5287d6e095 Mon Sep 17 00:00:00 2001
From: dev <dev@x>
Date: Wed, 18 Nov 2026 20:52:21 +0000
Subject: [PATCH 84/96] fix: nmod_poly_mat_is_form tested echelon forms when
 asked for Hermite forms

---
 flint-extras/src/nmod_poly_mat_forms.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flint-extras/src/nmod_poly_mat_forms.h b/flint-extras/src/nmod_poly_mat_forms.h
index 2e90e81..e454c97 100644
--- a/flint-extras/src/nmod_poly_mat_forms.h
+++ b/flint-extras/src/nmod_poly_mat_forms.h
@@ -510,7 +510,7 @@ int nmod_poly_mat_is_form(const nmod_poly_mat_t mat,
     if (form == ECHELON)
         return nmod_poly_mat_is_echelon(mat, orient);
     if (form == HERMITE)
-        return nmod_poly_mat_is_echelon(mat, orient);
+        return nmod_poly_mat_is_hermite(mat, orient);
     flint_throw(FLINT_ERROR, "Exception (nmod_poly_mat_is_form). Requested form not implemented.");
 }
 
-- 
2.43.0


From b7c1c296ab72eb6ac51e49b223197734db366fde Mon Sep 17 00:00:00 2001
From: dev <dev@x>
Date: Wed, 18 Nov 2026 20:52:21 +0000
Subject: [PATCH 85/96] fix: nmod_poly_mat_is_popov treated ROW_UPPER as a
 column orientation

---
 flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_is_form.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_is_form.c b/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_is_form.c
index 5ea873f..6ef5f3f 100644
--- a/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_is_form.c
+++ b/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_is_form.c
@@ -139,7 +139,7 @@ int nmod_poly_mat_is_popov(const nmod_poly_mat_t mat,
     slong * pivdeg = flint_malloc(dim * sizeof(slong));
     nmod_poly_mat_pivot_profile(pivind, pivdeg, mat, shift, orient);
 
-    if (orient == ROW_LOWER || orient == ROW_LOWER)
+    if (orient == ROW_LOWER || orient == ROW_UPPER)
     {
         // pivots must be monic
         for (slong i = 0; i < dim; i++)
-- 
2.43.0


From d7fce263596cfac3c61684c6232a1fa1dbf75737 Mon Sep 17 00:00:00 2001
From: dev <dev@x>
Date: Wed, 18 Nov 2026 20:52:21 +0000
Subject: [PATCH 86/96] fix: shifted pivot of a zero vector had pivot index and
 degree exchanged (ROW_UPPER, COL_LOWER)

---
 .../src/nmod_poly_mat_extra/degrees_pivots_leadingmatrix.c    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flint-extras/src/nmod_poly_mat_extra/degrees_pivots_leadingmatrix.c b/flint-extras/src/nmod_poly_mat_extra/degrees_pivots_leadingmatrix.c
index 0fed1c1..3eb6d1e 100644
--- a/flint-extras/src/nmod_poly_mat_extra/degrees_pivots_leadingmatrix.c
+++ b/flint-extras/src/nmod_poly_mat_extra/degrees_pivots_leadingmatrix.c
@@ -359,8 +359,8 @@ ulong _nmod_poly_vec_pivot_profile(slong * pivind,
                     max = d+shift[piv];
                 }
             }
-            *pivind = piv;
-            *pivdeg = (piv == -1) ? len : (max - shift[piv]);
+            *pivind = (piv == -1) ? len : piv;
+            *pivdeg = (piv == -1) ? -1 : (max - shift[piv]);
             return (piv >= 0);
         }
     }
-- 
2.43.0


From d9f60d3205de3a84dcdb70b301efc12e4b6e1716 Mon Sep 17 00:00:00 2001
From: dev <dev@x>
Date: Wed, 18 Nov 2026 20:52:21 +0000
Subject: [PATCH 87/96] fix: nmod_poly_mat_is_unimodular_randomized compared
 the first determinant with itself

---
 .../src/nmod_poly_mat_extra/nmod_poly_mat_is_unimodular.c       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_is_unimodular.c b/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_is_unimodular.c
index 2f5819f..2a9b4b1 100644
--- a/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_is_unimodular.c
+++ b/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_is_unimodular.c
@@ -53,7 +53,7 @@ int nmod_poly_mat_is_unimodular_randomized(const nmod_poly_mat_t pmat, flint_ran
     nmod_mat_t ev2;
     nmod_mat_init(ev2, pmat->r, pmat->c, pmat->modulus);
     nmod_poly_mat_evaluate_nmod(ev2, pmat, pt2);
-    ulong det2 = nmod_mat_det(ev1);
+    ulong det2 = nmod_mat_det(ev2);
 
     nmod_mat_clear(ev1);
     nmod_mat_clear(ev2);
-- 
2.43.0


From 8d7863050859299e555dcc340525bc706e0cfa67 Mon Sep 17 00:00:00 2001
From: dev <dev@x>
Date: Wed, 18 Nov 2026 20:52:57 +0000
Subject: [PATCH 88/96] fix: nmod_poly_mat_hnf_ur_revlex_xgcd_delayed_zero left
 nonzero rows below the last pivot

---
 .../nmod_poly_mat_extra/nmod_poly_mat_hermite.c  | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_hermite.c b/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_hermite.c
index 6187342..0fccd88 100644
--- a/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_hermite.c
+++ b/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_hermite.c
@@ -852,6 +852,22 @@ slong nmod_poly_mat_hnf_ur_revlex_xgcd_delayed_zero(nmod_poly_mat_t mat, nmod_po
         }
     }
 
+    // when the last pivot is in the last column, rows below it have not been
+    // processed since then: eliminate their entries using existing pivots
+    for (ii = i; ii < mat->r; ii++)
+    {
+        for (slong jj = 0; jj < mat->c; jj++)
+        {
+            if (! nmod_poly_is_zero(MAT(ii, jj)))
+            {
+                slong pi = pivot_row[jj];
+                _pivot_collision_xgcd_uref(mat, tsf, pi, ii, jj, g, u, v, pivg, nonzg);
+                for (slong pii = 0; pii < pi; pii++)
+                    _reduce_against_pivot_uref(mat, tsf, pi, jj, pii, u, v);
+            }
+        }
+    }
+
     flint_free(pivot_row);
 
     nmod_poly_clear(g);
-- 
2.43.0


From b0e0145c49443cf247ee986c7e8cbd685d62e609 Mon Sep 17 00:00:00 2001
From: dev <dev@x>
Date: Wed, 18 Nov 2026 20:52:57 +0000
Subject: [PATCH 89/96] fix: nmod_poly_mat_uref_matrixgcd_iter ignored a row
 swap in the determinant it reports

---
 flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_hermite.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_hermite.c b/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_hermite.c
index 0fccd88..79b4218 100644
--- a/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_hermite.c
+++ b/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_hermite.c
@@ -997,6 +997,8 @@ slong nmod_poly_mat_uref_matrixgcd_iter(nmod_poly_mat_t mat,
         // swap rows to put the pivot row pi in position rk
         nmod_poly_mat_swap_rows(mat, NULL, rk, pi);
         if (tsf) nmod_poly_mat_swap_rows(tsf, NULL, rk, pi);
+        if (udet && pi != rk) // odd permutation, negate udet
+            *udet = - *udet;
         rk++;
     }
     // check the rank requirement has not failed yet: mat[rk:,:] should be zero
-- 
2.43.0


From 28ae7892dc5d7f18853ce479124bef4170ede1ba Mon Sep 17 00:00:00 2001
From: dev <dev@x>
Date: Wed, 18 Nov 2026 20:59:08 +0000
Subject: [PATCH 90/96] fix: nmod_poly_mat_is_approximant_basis accepted
 determinants that are not a power of x

---
 flint-extras/src/nmod_poly_mat_extra/verification.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flint-extras/src/nmod_poly_mat_extra/verification.c b/flint-extras/src/nmod_poly_mat_extra/verification.c
index c65e565..7b6f110 100644
--- a/flint-extras/src/nmod_poly_mat_extra/verification.c
+++ b/flint-extras/src/nmod_poly_mat_extra/verification.c
@@ -77,7 +77,11 @@ int nmod_poly_mat_is_approximant_basis(const nmod_poly_mat_t appbas,
     for (slong i = 0; i < rdim; i++)
         D += nmod_poly_degree(nmod_poly_mat_entry(appbas, i, i));
     nmod_poly_mat_det(pol, appbas);
-    if (nmod_poly_degree(pol) != D)
+    int det_ok = (nmod_poly_degree(pol) == D);
+    for (slong k = 0; k < D && det_ok; k++)
+        if (nmod_poly_get_coeff_ui(pol, k) != 0)
+            det_ok = 0;
+    if (!det_ok)
     {
         printf("determinant is not lambda * x**(sum(diag-deg))");
         success = 0;
-- 
2.43.0


From d630622ba12d621b873ecea1ae3cab406485764b Mon Sep 17 00:00:00 2001
From: dev <dev@x>
Date: Wed, 18 Nov 2026 20:59:08 +0000
Subject: [PATCH 91/96] fix: nmod_poly_mat_is_kernel used a residual of the
 shape of the input instead of that of the product

---
 flint-extras/src/nmod_poly_mat_extra/verification.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flint-extras/src/nmod_poly_mat_extra/verification.c b/flint-extras/src/nmod_poly_mat_extra/verification.c
index 7b6f110..9bb191f 100644
--- a/flint-extras/src/nmod_poly_mat_extra/verification.c
+++ b/flint-extras/src/nmod_poly_mat_extra/verification.c
@@ -133,7 +133,7 @@ int nmod_poly_mat_is_kernel(const nmod_poly_mat_t ker,
         const ulong prime = mat->modulus;
 
         nmod_poly_mat_t residual;
-        nmod_poly_mat_init(residual, rdim, cdim, prime);
+        nmod_poly_mat_init(residual, ker->r, cdim, prime);
 
         int success = 1;
 
@@ -179,7 +179,7 @@ int nmod_poly_mat_is_kernel(const nmod_poly_mat_t ker,
         const ulong prime = mat->modulus;
 
         nmod_poly_mat_t residual;
-        nmod_poly_mat_init(residual, rdim, cdim, prime);
+        nmod_poly_mat_init(residual, rdim, ker->c, prime);
 
         int success = 1;
 
-- 
2.43.0


From e2801005a879fdf46cbea33dbcd770b1a6c39213 Mon Sep 17 00:00:00 2001
From: dev <dev@x>
Date: Wed, 18 Nov 2026 21:21:11 +0000
Subject: [PATCH 92/96] fix: slongvec_print_sagemath prints an empty vector
 without reading before it

---
 flint-extras/src/sagemath_extra/sagemath_extras.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flint-extras/src/sagemath_extra/sagemath_extras.c b/flint-extras/src/sagemath_extra/sagemath_extras.c
index ca2b238..e419550 100644
--- a/flint-extras/src/sagemath_extra/sagemath_extras.c
+++ b/flint-extras/src/sagemath_extra/sagemath_extras.c
@@ -17,7 +17,9 @@ void slongvec_print_sagemath(const slong * shift, slong length)
     printf("[");
     for (slong i = 0; i < length - 1; i++)
         printf("%ld,", shift[i]);
-    printf("%ld]\n", shift[length - 1]);
+    if (length > 0)
+        printf("%ld", shift[length - 1]);
+    printf("]\n");
 }
 
 void nmod_mat_print_sagemath(const nmod_mat_t mat)
-- 
2.43.0


From 4d504937dd8e356dd89c6c9f2e8f1384e36b0cb9 Mon Sep 17 00:00:00 2001
From: dev <dev@x>
Date: Wed, 18 Nov 2026 21:21:11 +0000
Subject: [PATCH 93/96] fix: nmod_mat_print_sagemath prints entries as unsigned
 words

---
 flint-extras/src/sagemath_extra/sagemath_extras.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flint-extras/src/sagemath_extra/sagemath_extras.c b/flint-extras/src/sagemath_extra/sagemath_extras.c
index e419550..4eccbaa 100644
--- a/flint-extras/src/sagemath_extra/sagemath_extras.c
+++ b/flint-extras/src/sagemath_extra/sagemath_extras.c
@@ -32,9 +32,9 @@ void nmod_mat_print_sagemath(const nmod_mat_t mat)
         for (slong j = 0; j < cdim; j++)
         {
             if (j != cdim - 1)
-                printf("%ld, ",  nmod_mat_get_entry(mat, i, j));
+                printf("%lu, ",  nmod_mat_get_entry(mat, i, j));
             else
-                printf("%ld",  nmod_mat_get_entry(mat, i, j));
+                printf("%lu",  nmod_mat_get_entry(mat, i, j));
 
         }
         if (i != rdim -1)
-- 
2.43.0


From 583c63648866854af4c6345ce5da28adc8157f1f Mon Sep 17 00:00:00 2001
From: dev <dev@x>
Date: Wed, 18 Nov 2026 21:21:11 +0000
Subject: [PATCH 94/96] fix: nmod_mat_poly_print_pretty prints the modulus as
 an unsigned word

---
 flint-extras/src/nmod_mat_poly_extra/nmod_mat_poly_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flint-extras/src/nmod_mat_poly_extra/nmod_mat_poly_io.c b/flint-extras/src/nmod_mat_poly_extra/nmod_mat_poly_io.c
index 6c0afe5..5a1907c 100644
--- a/flint-extras/src/nmod_mat_poly_extra/nmod_mat_poly_io.c
+++ b/flint-extras/src/nmod_mat_poly_extra/nmod_mat_poly_io.c
@@ -8,7 +8,7 @@ void nmod_mat_poly_print(const nmod_mat_poly_t matp)
 
 void nmod_mat_poly_print_pretty(const nmod_mat_poly_t matp)
 {
-    printf("r: %ld, c: %ld, len: %ld, mod: %ld\n",
+    printf("r: %ld, c: %ld, len: %ld, mod: %lu\n",
            matp->r, matp->c, matp->length, matp->mod.n);
 	for (slong i = 0; i < matp->length; i++)
     {
-- 
2.43.0


From 181f8a8a88445642a8d2d02d60f42fec92e3beeb Mon Sep 17 00:00:00 2001
From: dev <dev@x>
Date: Wed, 18 Nov 2026 21:44:13 +0000
Subject: [PATCH 95/96] fix: nmod_poly_mat_is_approximant_basis rejects a basis
 of wrong dimensions before using it

---
 flint-extras/src/nmod_poly_mat_extra/verification.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flint-extras/src/nmod_poly_mat_extra/verification.c b/flint-extras/src/nmod_poly_mat_extra/verification.c
index 9bb191f..39de3ec 100644
--- a/flint-extras/src/nmod_poly_mat_extra/verification.c
+++ b/flint-extras/src/nmod_poly_mat_extra/verification.c
@@ -41,8 +41,12 @@ int nmod_poly_mat_is_approximant_basis(const nmod_poly_mat_t appbas,
     /* check appbas is square with the right dimension */
     if (appbas->r != rdim || appbas->c != rdim)
     {
+        /* the tests below require the right dimensions */
         printf("basis has wrong row dimension or column dimension\n");
-        success = 0;
+        nmod_poly_clear(pol);
+        nmod_poly_mat_clear(residual);
+        nmod_mat_clear(CP0);
+        return 0;
     }
 
     /* check appbas is shifted reduced */
-- 
2.43.0


From 19ab6f3a996970cb17b01c4ff2f05b31174b471a Mon Sep 17 00:00:00 2001
From: dev <dev@x>
Date: Wed, 18 Nov 2026 21:44:13 +0000
Subject: [PATCH 96/96] fix: nmod_poly_mat_is_kernel rejects a candidate of
 wrong dimensions before using it

---
 flint-extras/src/nmod_poly_mat_extra/verification.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flint-extras/src/nmod_poly_mat_extra/verification.c b/flint-extras/src/nmod_poly_mat_extra/verification.c
index 39de3ec..be548d9 100644
--- a/flint-extras/src/nmod_poly_mat_extra/verification.c
+++ b/flint-extras/src/nmod_poly_mat_extra/verification.c
@@ -144,8 +144,10 @@ int nmod_poly_mat_is_kernel(const nmod_poly_mat_t ker,
         /* check kernel has the right column dimension */
         if (ker->c != rdim)
         {
+            /* the tests below require the right dimension */
             printf("basis has wrong column dimension\n");
-            success = 0;
+            nmod_poly_mat_clear(residual);
+            return 0;
         }
 
         /* check rank */
@@ -190,8 +192,10 @@ int nmod_poly_mat_is_kernel(const nmod_poly_mat_t ker,
         /* check kernel has the right column dimension */
         if (ker->r != cdim)
         {
+            /* the tests below require the right dimension */
             printf("basis has wrong row dimension\n");
-            success = 0;
+            nmod_poly_mat_clear(residual);
+            return 0;
         }
 
         /* check rank */
-- 
2.43.0

