From 77c949def3c30341cab81881d421a6800c783af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:34 +0000
Subject: [PATCH 01/32] fix: add_single must not clamp an alignment distance of
 wF+2

At distance wF+2 the addend still reaches the rounding position after a
one bit normalisation, so clamping the shift to wF+3 loses the tie.
---
 include/thls/tops/fp_flopoco_add_single_v1.hpp | 2 +-
 include/thls/tops/fp_flopoco_add_single_v2.hpp | 2 +-
 include/thls/tops/fp_flopoco_add_single_v3.hpp | 2 +-
 include/thls/tops/fp_flopoco_add_single_v4.hpp | 2 +-
 include/thls/tops/fp_flopoco_add_single_v5.hpp | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/thls/tops/fp_flopoco_add_single_v1.hpp b/include/thls/tops/fp_flopoco_add_single_v1.hpp
index f0ddef3..d2b5c46 100644
--- a/include/thls/tops/fp_flopoco_add_single_v1.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v1.hpp
@@ -310,7 +310,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     }
 
     //vhdl<<tab<<declare("shiftedOut") << " <= '1' when (expDiff >= "<<wF+2<<") else '0';"<<endl;
-    auto shiftedOut = expDiff >= (wF+2);
+    auto shiftedOut = expDiff >= (wF+3);
 
     //shiftVal=the number of positions that fracY must be shifted to the right
 
diff --git a/include/thls/tops/fp_flopoco_add_single_v2.hpp b/include/thls/tops/fp_flopoco_add_single_v2.hpp
index a7722f7..340aaab 100644
--- a/include/thls/tops/fp_flopoco_add_single_v2.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v2.hpp
@@ -244,7 +244,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
         std::cerr<<"  expDiff = "<<expDiff<<"\n";
     }
 
-    auto shiftedOut = expDiff >= (wF+2);
+    auto shiftedOut = expDiff >= (wF+3);
 
     //shiftVal=the number of positions that fracY must be shifted to the right
 
diff --git a/include/thls/tops/fp_flopoco_add_single_v3.hpp b/include/thls/tops/fp_flopoco_add_single_v3.hpp
index a85454c..68837c3 100644
--- a/include/thls/tops/fp_flopoco_add_single_v3.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v3.hpp
@@ -279,7 +279,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
         std::cerr<<"  expDiff = "<<expDiff<<"\n";
     }
 
-    auto shiftedOut = expDiff >= (wF+2);
+    auto shiftedOut = expDiff >= (wF+3);
 
     //shiftVal=the number of positions that fracY must be shifted to the right
 
diff --git a/include/thls/tops/fp_flopoco_add_single_v4.hpp b/include/thls/tops/fp_flopoco_add_single_v4.hpp
index 64c1eb1..805498a 100644
--- a/include/thls/tops/fp_flopoco_add_single_v4.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v4.hpp
@@ -300,7 +300,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     }
 
     //vhdl<<tab<<declare("shiftedOut") << " <= '1' when (expDiff >= "<<wF+2<<") else '0';"<<endl;
-    auto shiftedOut = expDiff >= (wF+2);
+    auto shiftedOut = expDiff >= (wF+3);
 
     //shiftVal=the number of positions that fracY must be shifted to the right
 
diff --git a/include/thls/tops/fp_flopoco_add_single_v5.hpp b/include/thls/tops/fp_flopoco_add_single_v5.hpp
index b8e6c84..22de0ed 100644
--- a/include/thls/tops/fp_flopoco_add_single_v5.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v5.hpp
@@ -140,7 +140,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single_v5(const fp_flopoco<wEX,wFX> &xPre, c
         std::cerr<<"  expDiff = "<<expDiff<<"\n";
     }
 
-    auto shiftedOut = expDiff >= (wF+2);
+    auto shiftedOut = expDiff >= (wF+3);
 
     //shiftVal=the number of positions that fracY must be shifted to the right
     fw_uint<sizeRightShift> shiftVal;
-- 
2.43.0


From 304d6aa0e312e5ea18c0c8c1f7f6e2a4dcaf4d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:34 +0000
Subject: [PATCH 02/32] fix: add_single_v4 rounds up except on a tie to even
 (condition was inverted)

---
 include/thls/tops/fp_flopoco_add_single_v4.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco_add_single_v4.hpp b/include/thls/tops/fp_flopoco_add_single_v4.hpp
index 805498a..afb213e 100644
--- a/include/thls/tops/fp_flopoco_add_single_v4.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v4.hpp
@@ -485,7 +485,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     /*auto addToRoundBit = select(
         lsb==0 && grd==1 && rnd==0 && stk==0, zg<1>(),
         og<1>());*/
-    auto addToRoundBit = concat(lsb,grd,rnd,stk) ==cg<4>(0b0100);
+    auto addToRoundBit = concat(lsb,grd,rnd,stk) !=cg<4>(0b0100);
     //round
 
     //IntAdder *ra = new IntAdder(target, wE+2+wF+1, inDelayMap("X", getCriticalPath() ) );
-- 
2.43.0


From 2a01cc1a44f80b21f722bcfbf240b5221fbb4447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:06 +0000
Subject: [PATCH 03/32] fix: mul_v1 exact-width path returns zero, not NaN, on
 underflow

---
 include/thls/tops/fp_flopoco_mul_v1.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco_mul_v1.hpp b/include/thls/tops/fp_flopoco_mul_v1.hpp
index fbb3c99..90c5282 100644
--- a/include/thls/tops/fp_flopoco_mul_v1.hpp
+++ b/include/thls/tops/fp_flopoco_mul_v1.hpp
@@ -107,7 +107,7 @@ THLS_INLINE fp_flopoco<wER,wFR> mul_v1(const fp_flopoco<wEX,wFX> &x, const fp_fl
         fw_uint<2> excPostNorm = select(
             expPostNormB==0b00, fw_uint<2>(0b01),
             expPostNormB==0b01, fw_uint<2>(0b10),
-            (expPostNormB==0b11) || (expPostNormB==0b10) , fw_uint<2>(0b11),
+            (expPostNormB==0b11) || (expPostNormB==0b10) , fw_uint<2>(0b00),
             fw_uint<2>(0b11)// Impossible last case?
         ); 
 
-- 
2.43.0


From 2b98b73e12f2666ea34343822f9144fa81163be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:43 +0000
Subject: [PATCH 04/32] fix: inv_v1 builds the constant 1.0 from a binary, not
 an octal, literal

---
 include/thls/tops/fp_flopoco_inv_v1.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco_inv_v1.hpp b/include/thls/tops/fp_flopoco_inv_v1.hpp
index bf2285f..5e05e49 100644
--- a/include/thls/tops/fp_flopoco_inv_v1.hpp
+++ b/include/thls/tops/fp_flopoco_inv_v1.hpp
@@ -34,7 +34,7 @@ THLS_INLINE fp_flopoco<wER,wFR> inv_v1(const fp_flopoco<wEY,wFY> &y, int DEBUG)
     static const int wE=wEY;
     static const int wF=wFY;
 
-    auto X=concat(cg<4>(0100),og<wE-1>(),zg<wF>());
+    auto X=concat(cg<4>(0b0100),og<wE-1>(),zg<wF>());
     auto Y=y.bits;
 
 
-- 
2.43.0


From 4b7b331e30bdf900e48276a250a9023e5e044fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 05/32] fix: ordering predicates must ignore the payload bits
 of infinities

---
 include/thls/tops/fp_flopoco_ordering.hpp | 27 +++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/include/thls/tops/fp_flopoco_ordering.hpp b/include/thls/tops/fp_flopoco_ordering.hpp
index a8cf000..8b85ba9 100644
--- a/include/thls/tops/fp_flopoco_ordering.hpp
+++ b/include/thls/tops/fp_flopoco_ordering.hpp
@@ -7,6 +7,21 @@
 namespace thls
 {
 
+namespace detail
+{
+    //! Exponent and fraction bits only carry meaning for normal numbers, so clear them for anything else
+    template<int wE,int wF>
+    THLS_INLINE fp_flopoco<wE,wF> clear_special_payload(const fp_flopoco<wE,wF> &x)
+    {
+        return select(
+            x.is_normal(),
+                x,
+            // else
+                fp_flopoco<wE,wF>(concat(x.get_flags(), x.get_sign(), zg<wE+wF>()))
+        );
+    }
+};
+
 
 //! Does an IEEE style comparison
 /*! \note This considers nans to be uncomparable
@@ -20,6 +35,8 @@ THLS_INLINE fw_uint<1> equal(const fp_flopoco<wEA,wFA> &a, const fp_flopoco<wEB,
     fp_flopoco<wE,wF> na, nb;
     promote(na,a);
     promote(nb,b);
+    na=detail::clear_special_payload(na);
+    nb=detail::clear_special_payload(nb);
     
     return select(
         na.is_nan() | nb.is_nan(),
@@ -42,6 +59,8 @@ THLS_INLINE fw_uint<1> not_equal(const fp_flopoco<wEA,wFA> &a, const fp_flopoco<
     fp_flopoco<wE,wF> na, nb;
     promote(na,a);
     promote(nb,b);
+    na=detail::clear_special_payload(na);
+    nb=detail::clear_special_payload(nb);
 
     return select(
         na.is_nan() | nb.is_nan(),
@@ -69,6 +88,8 @@ THLS_INLINE fw_uint<1> less_than(const fp_flopoco<wEA,wFA> &a, const fp_flopoco<
     fp_flopoco<wE,wF> na, nb;
     promote(na,a);
     promote(nb,b);
+    na=detail::clear_special_payload(na);
+    nb=detail::clear_special_payload(nb);
 
     return select(
             (na.is_nan() | nb.is_nan()),
@@ -98,6 +119,8 @@ THLS_INLINE fw_uint<1> less_than_equal(const fp_flopoco<wEA,wFA> &a, const fp_fl
     fp_flopoco<wE,wF> na, nb;
     promote(na,a);
     promote(nb,b);
+    na=detail::clear_special_payload(na);
+    nb=detail::clear_special_payload(nb);
 
     return select(
         (na.is_nan() | nb.is_nan()),
@@ -124,6 +147,8 @@ THLS_INLINE fw_uint<1> greater_than(const fp_flopoco<wEA,wFA> &a, const fp_flopo
     fp_flopoco<wE,wF> na, nb;
     promote(na,a);
     promote(nb,b);
+    na=detail::clear_special_payload(na);
+    nb=detail::clear_special_payload(nb);
 
     return select(
             (na.is_nan() | nb.is_nan()),
@@ -150,6 +175,8 @@ THLS_INLINE fw_uint<1> greater_than_equal(const fp_flopoco<wEA,wFA> &a, const fp
     fp_flopoco<wE,wF> na, nb;
     promote(na,a);
     promote(nb,b);
+    na=detail::clear_special_payload(na);
+    nb=detail::clear_special_payload(nb);
 
     return select(
             (na.is_nan() | nb.is_nan()),
-- 
2.43.0


From 2067e66921abd62fec65d3592e71e34ce393d2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 06/32] fix: nextdown must step to the neighbouring fraction
 when it crosses a binade

---
 include/thls/tops/fp_flopoco.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/thls/tops/fp_flopoco.hpp b/include/thls/tops/fp_flopoco.hpp
index 8144f63..2ebeadc 100644
--- a/include/thls/tops/fp_flopoco.hpp
+++ b/include/thls/tops/fp_flopoco.hpp
@@ -451,7 +451,7 @@ THLS_INLINE fp_flopoco<ExpBits,FracBits> nextdown(const fp_flopoco<ExpBits,FracB
             select(x.get_frac_bits()==zg<FracBits>(),
                 select(x.get_exp_bits()==zg<ExpBits>(),
                     traits::pos_zero(),
-                    fp_t(concat(fw_uint<3>(0b010),x.get_exp_bits()-1,zg<FracBits>()))
+                    fp_t(concat(fw_uint<3>(0b010),x.get_exp_bits()-1,og<FracBits>()))
                 ),
                 fp_t(concat(fw_uint<3>(0b010),x.get_exp_bits(),x.get_frac_bits()-1))
             ),
@@ -463,7 +463,7 @@ THLS_INLINE fp_flopoco<ExpBits,FracBits> nextdown(const fp_flopoco<ExpBits,FracB
             select(x.get_frac_bits()==og<FracBits>(),
                 select(x.get_exp_bits()==og<ExpBits>(),
                     traits::neg_infinity(),
-                    fp_t(concat(fw_uint<3>(0b011),x.get_exp_bits()+1,og<FracBits>()))
+                    fp_t(concat(fw_uint<3>(0b011),x.get_exp_bits()+1,zg<FracBits>()))
                 ),
                 fp_t(concat(fw_uint<3>(0b011),x.get_exp_bits(),x.get_frac_bits()+1))
             ),
-- 
2.43.0


From aa138ba2aa872593b7af300119fa787c80c6ef6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 07/32] fix: to_double of a negative number negated the
 unsigned significand

---
 include/thls/tops/fp_flopoco.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco.hpp b/include/thls/tops/fp_flopoco.hpp
index 2ebeadc..e5b9c4e 100644
--- a/include/thls/tops/fp_flopoco.hpp
+++ b/include/thls/tops/fp_flopoco.hpp
@@ -1002,7 +1002,7 @@ double fp_flopoco<ExpBits,FracBits>::to_double() const
     }else if(is_normal().to_bool()){
         uint64_t frac=concat(og<1>(), get_frac_bits()).to_uint64();
         if(is_negative().to_bool()){
-            frac=-frac;
+            return ::ldexp(-(double)frac, get_exp_bits().to_int() - bias - FracBits );
         }
         return ::ldexp(frac, get_exp_bits().to_int() - bias - FracBits );
     }else if(is_inf().to_bool()){
-- 
2.43.0


From 2d40e1d0cc81574e660f318739c735f88035daee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 08/32] fix: construction from a double keeps infinities and
 the sign of zero

---
 include/thls/tops/fp_flopoco.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/thls/tops/fp_flopoco.hpp b/include/thls/tops/fp_flopoco.hpp
index e5b9c4e..43baa96 100644
--- a/include/thls/tops/fp_flopoco.hpp
+++ b/include/thls/tops/fp_flopoco.hpp
@@ -51,7 +51,7 @@ struct fp_flopoco
     explicit fp_flopoco(double x)
     {
         fw_uint<1> sign(0);
-        if(x<0){
+        if(std::signbit(x)){
             sign=fw_uint<1>(1);
             x=-x;
         }
@@ -59,7 +59,9 @@ struct fp_flopoco
         fw_uint<ExpBits> exp(0);
         fw_uint<FracBits> frac(0);
         switch(std::fpclassify(x)){
-        case FP_INFINITE:  ;
+        case FP_INFINITE:
+            flags=fw_uint<2>(0b10);
+            break;
         case FP_NAN:
             flags=fw_uint<2>(0b11);
             break;
-- 
2.43.0


From 80f53b6e97d284a7a8053a8b6f70f9ef7418c37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 09/32] fix: narrowing conversion must not turn zero or NaN
 into infinity because of payload bits

---
 include/thls/tops/fp_convert.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_convert.hpp b/include/thls/tops/fp_convert.hpp
index 5c3da9a..6a1295e 100644
--- a/include/thls/tops/fp_convert.hpp
+++ b/include/thls/tops/fp_convert.hpp
@@ -153,7 +153,7 @@ void convert(fp_flopoco<ER,FR> &dst, const fp_flopoco<EX,FX> &src)
         const int ADJ = (1<<(ER-1)) - (1<<(EX-1));
         rExp = checked_cast<ER>(zpad_hi<ER-EX>(xExp)) + fw_uint<ER>(ADJ) + zpad_hi<ER-1>(fracWrappedUp);
     }else if(ER == EX){
-        if( (fracWrappedUp & (checked_cast<ER>(xExp)==og<ER>())).to_bool() ){
+        if( (src.is_normal() & fracWrappedUp & (checked_cast<ER>(xExp)==og<ER>())).to_bool() ){
             rFlags=fw_uint<2>(0b10); // infinity
         }
         rExp = checked_cast<ER>( xExp ) + zpad_hi<ER-1>(fracWrappedUp);
-- 
2.43.0


From 33d1f5c4aec9ac9a00df6ab635b60c516da9d5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 10/32] fix: fp_ieee signalling_NaN returned infinity

---
 include/thls/tops/fp_ieee.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_ieee.hpp b/include/thls/tops/fp_ieee.hpp
index 59d7879..286b217 100644
--- a/include/thls/tops/fp_ieee.hpp
+++ b/include/thls/tops/fp_ieee.hpp
@@ -245,7 +245,7 @@ namespace std
         static THLS_CONSTEXPR T signalling_NaN()
         {
             // This just returns a quiet nan (MSB of fraction is one)
-            return T(concat(thls::zg<1>(),thls::og<ExpBits>() ,thls::zg<FracBits>()));
+            return T(concat(thls::zg<1>(),thls::og<ExpBits>() ,thls::og<FracBits>()));
         }
 
         static THLS_CONSTEXPR T denorm_min()
-- 
2.43.0


From 87490d5c99f38f28608d54a1ed4ca298f30f5ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 11/32] fix: promoting an IEEE zero, infinity or nan must not
 re-bias its exponent

---
 include/thls/tops/fp_promote.hpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/thls/tops/fp_promote.hpp b/include/thls/tops/fp_promote.hpp
index 7cb7298..641a74a 100644
--- a/include/thls/tops/fp_promote.hpp
+++ b/include/thls/tops/fp_promote.hpp
@@ -66,11 +66,26 @@ namespace detail
         
         static fp_ieee<DstE,DstF> to_ieee(const fp_ieee<SrcE,SrcF> &src)
         {
+            /*  Zero, infinity and nan are encoded in the exponent, which
+                must not be re-biased.
+            */
             return fp_ieee<DstE,DstF>(
                 concat(
                     src.get_sign(),
-                    promote_exp_impl<DstE,SrcE>::go(src.get_exp_bits()),
-                    promote_frac_impl<DstF,SrcF>::go(src.get_frac_bits())
+                    select(
+                        src.get_flags()==0b01, // normal
+                            promote_exp_impl<DstE,SrcE>::go(src.get_exp_bits()),
+                        src.get_flags()==0b00, // zero
+                            zg<DstE>(),
+                        // default: nan or infinity
+                            og<DstE>()
+                    ),
+                    select(
+                        src.get_flags()==0b00, // zero, or a de-normal treated as zero
+                            zg<DstF>(),
+                        // default
+                            promote_frac_impl<DstF,SrcF>::go(src.get_frac_bits())
+                    )
                 )
             );
         }
-- 
2.43.0


From 335644938f831890bb7b8bc2992e5cf05d458e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 12/32] fix: promotion from IEEE to flopoco must build a
 flopoco value, and return it by value

---
 include/thls/tops/fp_promote.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/thls/tops/fp_promote.hpp b/include/thls/tops/fp_promote.hpp
index 641a74a..382a691 100644
--- a/include/thls/tops/fp_promote.hpp
+++ b/include/thls/tops/fp_promote.hpp
@@ -92,7 +92,7 @@ namespace detail
         
         static fp_flopoco<DstE,DstF> to_flopoco(const fp_ieee<SrcE,SrcF> &src)
         {
-            return fp_ieee<DstE,DstF>(
+            return fp_flopoco<DstE,DstF>(
                 concat(
                     src.get_flags(),
                     src.get_sign(),
@@ -141,7 +141,7 @@ namespace detail
         static const fp_ieee<E,F> &to_ieee(const fp_ieee<E,F> &src)
         { return src; }
         
-        static const fp_flopoco<E,F> &to_flopoco(const fp_ieee<E,F> &src)
+        static fp_flopoco<E,F> to_flopoco(const fp_ieee<E,F> &src)
         { 
             return fp_flopoco<E,F>(
                 concat(
-- 
2.43.0


From fc1a8159e8473eab1d92e9c3e9ffa6b7859ae1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:22 +0000
Subject: [PATCH 13/32] fix: dot4_pos_rndd loses the carry of two minor
 products shifted below the kept bits

---
 include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp b/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp
index 082d7c3..a58166a 100644
--- a/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp
+++ b/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp
@@ -227,7 +227,10 @@ fp_flopoco<WE,WF> dot4_pos_rndd(
     auto shift3=x0_exp-x3_exp;
 
     const int WAB=2*WF;
-    const int PAD_LOW=2*WAB-1;
+    // Once the first minor product continues a run of ones left by the major one, the
+    // other two may both reach below it and carry into that run. That is possible for
+    // shifts up to (WAB+1) and then (WAB+2) further, so keep all their bits till there.
+    const int PAD_LOW=2*WAB+3;
 
     auto x0_frac_full=concat(zg<2>(), x0_frac, zg<PAD_LOW>());
     auto x1_frac_full=concat(zg<2>(), x1_frac, zg<PAD_LOW>());
-- 
2.43.0


From 21aa825956c2da7c88ccac97d717b0b23f5bd535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:56 +0000
Subject: [PATCH 14/32] fix: fw_uint operator|(int) rejects the all-ones mask

---
 include/thls/tops/fw_uint_on_masked_uint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fw_uint_on_masked_uint.hpp b/include/thls/tops/fw_uint_on_masked_uint.hpp
index a7bad98..351ae77 100644
--- a/include/thls/tops/fw_uint_on_masked_uint.hpp
+++ b/include/thls/tops/fw_uint_on_masked_uint.hpp
@@ -595,7 +595,7 @@ struct fw_uint
 
     THLS_INLINE fw_uint operator|(int b) const
     {
-        assert(b>=0 && b< MASK());
+        assert(b>=0 && b<=MASK());
         return fw_uint( bits_t(bits|b) & MASK(), detail::init_from_bits());
     }
 
-- 
2.43.0


From cfb0dac5e7e8b62584de539c6ae8093ca5f0e40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:01 +0000
Subject: [PATCH 15/32] fix: add_single clamps the alignment shift also when
 the exponent is exactly as wide as the shift count

---
 include/thls/tops/fp_flopoco_add_single_v1.hpp | 6 +-----
 include/thls/tops/fp_flopoco_add_single_v2.hpp | 5 +----
 include/thls/tops/fp_flopoco_add_single_v3.hpp | 5 +----
 include/thls/tops/fp_flopoco_add_single_v4.hpp | 6 +-----
 include/thls/tops/fp_flopoco_add_single_v5.hpp | 5 +----
 5 files changed, 5 insertions(+), 22 deletions(-)

diff --git a/include/thls/tops/fp_flopoco_add_single_v1.hpp b/include/thls/tops/fp_flopoco_add_single_v1.hpp
index d2b5c46..cd8fd50 100644
--- a/include/thls/tops/fp_flopoco_add_single_v1.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v1.hpp
@@ -320,15 +320,11 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
 
     fw_uint<sizeRightShift> shiftVal;
 
-    if (wE>sizeRightShift) {
+    if (wE>=sizeRightShift) {
         //vhdl<<tab<<declare("shiftVal",sizeRightShift) << " <= expDiff("<< sizeRightShift-1<<" downto 0)"
         //<< " when shiftedOut='0' else CONV_STD_LOGIC_VECTOR("<<wFX+3<<","<<sizeRightShift<<") ;" << endl;
         shiftVal = checked_cast<sizeRightShift>(  select(shiftedOut==0, get_bits< sizeRightShift-1, 0>(expDiff), fw_uint<sizeRightShift>(wF+3)) );
     }
-    else if (wE==sizeRightShift) {
-        //vhdl<<tab<<declare("shiftVal", sizeRightShift) << " <= expDiff" << range(sizeRightShift-1,0) << ";" << endl ;
-        shiftVal = checked_cast<sizeRightShift>( get_bits<sizeRightShift-1,0>(expDiff) );
-    }
     else 	{ //  wE< sizeRightShift
         //vhdl<<tab<<declare("shiftVal",sizeRightShift) << " <= CONV_STD_LOGIC_VECTOR(0,"<<sizeRightShift-wE <<") & expDiff;" <<	endl;
         shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), expDiff) );
diff --git a/include/thls/tops/fp_flopoco_add_single_v2.hpp b/include/thls/tops/fp_flopoco_add_single_v2.hpp
index 340aaab..a391e27 100644
--- a/include/thls/tops/fp_flopoco_add_single_v2.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v2.hpp
@@ -250,12 +250,9 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
 
     fw_uint<sizeRightShift> shiftVal;
 
-    if (wE>sizeRightShift) {
+    if (wE>=sizeRightShift) {
         shiftVal = checked_cast<sizeRightShift>(  select(shiftedOut==0, get_bits< sizeRightShift-1, 0>(expDiff), fw_uint<sizeRightShift>(wF+3)) );
     }
-    else if (wE==sizeRightShift) {
-        shiftVal = checked_cast<sizeRightShift>( get_bits<sizeRightShift-1,0>(expDiff) );
-    }
     else 	{ //  wE< sizeRightShift
         shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), expDiff) );
 
diff --git a/include/thls/tops/fp_flopoco_add_single_v3.hpp b/include/thls/tops/fp_flopoco_add_single_v3.hpp
index 68837c3..19caed3 100644
--- a/include/thls/tops/fp_flopoco_add_single_v3.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v3.hpp
@@ -285,12 +285,9 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
 
     fw_uint<sizeRightShift> shiftVal;
 
-    if (wE>sizeRightShift) {
+    if (wE>=sizeRightShift) {
         shiftVal = checked_cast<sizeRightShift>(  select(shiftedOut==0, get_bits< sizeRightShift-1, 0>(expDiff), fw_uint<sizeRightShift>(wF+3)) );
     }
-    else if (wE==sizeRightShift) {
-        shiftVal = checked_cast<sizeRightShift>( get_bits<sizeRightShift-1,0>(expDiff) );
-    }
     else 	{ //  wE< sizeRightShift
         shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), expDiff) );
 
diff --git a/include/thls/tops/fp_flopoco_add_single_v4.hpp b/include/thls/tops/fp_flopoco_add_single_v4.hpp
index afb213e..86ad1ad 100644
--- a/include/thls/tops/fp_flopoco_add_single_v4.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v4.hpp
@@ -310,15 +310,11 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
 
     fw_uint<sizeRightShift> shiftVal;
 
-    if (wE>sizeRightShift) {
+    if (wE>=sizeRightShift) {
         //vhdl<<tab<<declare("shiftVal",sizeRightShift) << " <= expDiff("<< sizeRightShift-1<<" downto 0)"
         //<< " when shiftedOut='0' else CONV_STD_LOGIC_VECTOR("<<wFX+3<<","<<sizeRightShift<<") ;" << endl;
         shiftVal = checked_cast<sizeRightShift>(  select(shiftedOut==0, get_bits< sizeRightShift-1, 0>(expDiff), fw_uint<sizeRightShift>(wF+3)) );
     }
-    else if (wE==sizeRightShift) {
-        //vhdl<<tab<<declare("shiftVal", sizeRightShift) << " <= expDiff" << range(sizeRightShift-1,0) << ";" << endl ;
-        shiftVal = checked_cast<sizeRightShift>( get_bits<sizeRightShift-1,0>(expDiff) );
-    }
     else 	{ //  wE< sizeRightShift
         //vhdl<<tab<<declare("shiftVal",sizeRightShift) << " <= CONV_STD_LOGIC_VECTOR(0,"<<sizeRightShift-wE <<") & expDiff;" <<	endl;
         shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), expDiff) );
diff --git a/include/thls/tops/fp_flopoco_add_single_v5.hpp b/include/thls/tops/fp_flopoco_add_single_v5.hpp
index 22de0ed..0408547 100644
--- a/include/thls/tops/fp_flopoco_add_single_v5.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v5.hpp
@@ -145,12 +145,9 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single_v5(const fp_flopoco<wEX,wFX> &xPre, c
     //shiftVal=the number of positions that fracY must be shifted to the right
     fw_uint<sizeRightShift> shiftVal;
 
-    if (wE>sizeRightShift) {
+    if (wE>=sizeRightShift) {
         shiftVal = checked_cast<sizeRightShift>(  select(shiftedOut==0, get_bits< sizeRightShift-1, 0>(expDiff), fw_uint<sizeRightShift>(wF+3)) );
     }
-    else if (wE==sizeRightShift) {
-        shiftVal = checked_cast<sizeRightShift>( get_bits<sizeRightShift-1,0>(expDiff) );
-    }
     else 	{ //  wE< sizeRightShift
         shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), expDiff) );
 
-- 
2.43.0


From 7748a881b4c5b8d224efc0a4ccfac24b74c73026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:38 +0000
Subject: [PATCH 16/32] fix: numeric_limits of fp_ieee_on_flopoco_wrapper
 reported the exponent range of the packed format

---
 include/thls/tops/policy_ieee_on_flopoco.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/thls/tops/policy_ieee_on_flopoco.hpp b/include/thls/tops/policy_ieee_on_flopoco.hpp
index 0bbe9f7..6b02496 100644
--- a/include/thls/tops/policy_ieee_on_flopoco.hpp
+++ b/include/thls/tops/policy_ieee_on_flopoco.hpp
@@ -117,8 +117,8 @@ namespace std
 
         static const int bias = (1<<(ExpBits-1))-1;
 
-        static const int min_exponent = 0-bias;
-        static const int max_exponent = 0+bias+1;
+        static const int min_exponent = 0-bias+1;
+        static const int max_exponent = 0+bias;
 
         //one more than the smallest negative power of the radix that is a valid normalized floating-point value
         // static const int min_exponent10 = TODO;
-- 
2.43.0


From ea6aaf26c3fa6ffc1b602b4c336c63eade317d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:00 +0000
Subject: [PATCH 17/32] fix: ctFixCompare compares the second operand, not the
 first with itself

---
 include/thls/core/constfunc_helpers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/core/constfunc_helpers.hpp b/include/thls/core/constfunc_helpers.hpp
index 3324d65..6b8cd92 100644
--- a/include/thls/core/constfunc_helpers.hpp
+++ b/include/thls/core/constfunc_helpers.hpp
@@ -64,7 +64,7 @@ struct ctFixCompare
 	static const int eLo=ctMin<eA,eB>::val;
 	
 	static const int64_t nA=ctCheckedShiftLeft<vA,(eA-eLo)>::val;
-	static const int64_t nB=ctCheckedShiftLeft<vA,(eA-eLo)>::val;
+	static const int64_t nB=ctCheckedShiftLeft<vB,(eB-eLo)>::val;
 	
 	static const int val = (nA < nB) ? -1 : (nA>nB) ? +1 : 0;
 };
-- 
2.43.0


From 6cdb53556da6bbe027ef17b7356adff25871844b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:47 +0000
Subject: [PATCH 18/32] fix: fp_flopoco and fp_ieee get() apply the sign before
 rounding

---
 include/thls/tops/fp_flopoco.hpp | 6 +++---
 include/thls/tops/fp_ieee.hpp    | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/thls/tops/fp_flopoco.hpp b/include/thls/tops/fp_flopoco.hpp
index 43baa96..0cc458c 100644
--- a/include/thls/tops/fp_flopoco.hpp
+++ b/include/thls/tops/fp_flopoco.hpp
@@ -603,12 +603,12 @@ void fp_flopoco<ExpBits,FracBits>::get(mpfr_t dst, mpfr_rnd_t mode) const
         int e=get_bits<FracBits+ExpBits-1,FracBits>(bits).to_int();
         e=e-FracBits-traits::bias; // Move from fraction to integer
 
-        mpfr_set_z_2exp(dst, fracBits, e, mode);
-
         if(negative.to_bool()){
-            mpfr_mul_si(dst, dst, -1, MPFR_RNDN);
+            mpz_neg(fracBits, fracBits); // Before rounding, so that directed modes see the sign
         }
 
+        mpfr_set_z_2exp(dst, fracBits, e, mode);
+
         mpz_clear(fracBits);
     }
 
diff --git a/include/thls/tops/fp_ieee.hpp b/include/thls/tops/fp_ieee.hpp
index 286b217..e0e8c4c 100644
--- a/include/thls/tops/fp_ieee.hpp
+++ b/include/thls/tops/fp_ieee.hpp
@@ -392,12 +392,12 @@ void fp_ieee<ExpBits,FracBits>::get(mpfr_t dst, mpfr_rnd_t mode) const
         int e=get_bits<FracBits+ExpBits-1,FracBits>(bits).to_int();
         e=e-FracBits-traits::bias; // Move from fraction to integer
 
-        mpfr_set_z_2exp(dst, fracBits, e, mode);
-
         if(is_negative().to_bool()){
-            mpfr_mul_si(dst, dst, -1, MPFR_RNDN);
+            mpz_neg(fracBits, fracBits); // Before rounding, so that directed modes see the sign
         }
 
+        mpfr_set_z_2exp(dst, fracBits, e, mode);
+
         mpz_clear(fracBits);
     }
 
-- 
2.43.0


From e94442824c5e20cb9aaec21f2d3742f23a23b17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:47 +0000
Subject: [PATCH 19/32] fix: ref_inv and ref_inv_faithful release their
 dividend

---
 include/thls/tops/fp_flopoco.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/thls/tops/fp_flopoco.hpp b/include/thls/tops/fp_flopoco.hpp
index 0cc458c..b7e6051 100644
--- a/include/thls/tops/fp_flopoco.hpp
+++ b/include/thls/tops/fp_flopoco.hpp
@@ -754,6 +754,7 @@ fp_flopoco<ER,FR> ref_inv(const fp_flopoco<EA,FA> &a)
     fp_flopoco<ER,FR> res(mr,true);
 
     mpfr_clear(ma);
+    mpfr_clear(mb);
     mpfr_clear(mr);
 
     return res;
@@ -777,6 +778,7 @@ fp_flopoco<ER,FR> ref_inv(const fp_flopoco<EA,FA> &a)
         r2=fp_flopoco<ER,FR>(mr,true);
 
         mpfr_clear(ma);
+        mpfr_clear(mb);
         mpfr_clear(mr);
 
     }
-- 
2.43.0


From 2f69def709ab12bea5291012b6180a6c17594460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:10 +0000
Subject: [PATCH 20/32] fix: release the error quotient of a failed policy
 conversion

---
 include/thls/tops/policy_native.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/thls/tops/policy_native.hpp b/include/thls/tops/policy_native.hpp
index 2e105fd..ad2bc88 100644
--- a/include/thls/tops/policy_native.hpp
+++ b/include/thls/tops/policy_native.hpp
@@ -26,6 +26,7 @@ namespace thls {
                     mpfr_div(xxR, xxA, x, MPFR_RNDN);
                     mpfr_fprintf(stderr, "Converting %Rg, %g, errA=%Rg, errR=%Rg\n", x, v, xxA, xxR);
                     mpfr_clear(xxA);
+                    mpfr_clear(xxR);
                     throw std::runtime_error("Conversion is not exact.");
                 }
             }
@@ -123,6 +124,7 @@ namespace thls {
                     mpfr_div(xxR, xxA, x, MPFR_RNDN);
                     mpfr_fprintf(stderr, "Converting %Rg, %g, errA=%Rg, errR=%Rg\n", x, v, xxA, xxR);
                     mpfr_clear(xxA);
+                    mpfr_clear(xxR);
                     throw std::runtime_error("Conversion is not exact.");
                 }
             }
-- 
2.43.0


From c37eb90845f0d7376c3bb9e500ed9fff5126f2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:08 +0000
Subject: [PATCH 21/32] fix: fw_fix subtraction added its operands

---
 include/thls/tops/fp_flopoco_inv_nr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco_inv_nr.hpp b/include/thls/tops/fp_flopoco_inv_nr.hpp
index 97b3b17..ea4356c 100644
--- a/include/thls/tops/fp_flopoco_inv_nr.hpp
+++ b/include/thls/tops/fp_flopoco_inv_nr.hpp
@@ -100,7 +100,7 @@ namespace thls
 
     template<int MSB,int LSB>
     THLS_INLINE_STRONG fw_fix<MSB,LSB> operator-(const fw_fix<MSB,LSB> &x, const fw_fix<MSB,LSB> &y)
-    { return fw_fix<MSB,LSB>(x.bits+y.bits); }
+    { return fw_fix<MSB,LSB>(x.bits-y.bits); }
 
     template<int MSB0,int LSB0,int MSB1,int LSB1>
     THLS_INLINE_STRONG fw_fix<thls_ctMax(MSB0,MSB1),thls_ctMin(LSB0,LSB1)> sub_match(const fw_fix<MSB0,LSB0> &x, const fw_fix<MSB1,LSB1> &y) {
-- 
2.43.0


From 349b6526fd45168b96d2fc67ffbd444b89dc9fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:08 +0000
Subject: [PATCH 22/32] fix: round_frac ignored the bit below the guard bit

---
 include/thls/tops/fp_flopoco_inv_nr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco_inv_nr.hpp b/include/thls/tops/fp_flopoco_inv_nr.hpp
index ea4356c..bb8a321 100644
--- a/include/thls/tops/fp_flopoco_inv_nr.hpp
+++ b/include/thls/tops/fp_flopoco_inv_nr.hpp
@@ -51,7 +51,7 @@ namespace thls
             auto happy=take_msbs<wFR>(x);
             auto lsb=get_bit<D>(x);
             auto guard=get_bit<D-1>(x);
-            auto sticky=take_lsbs<D-2>(x)!=zg<D-2>();
+            auto sticky=take_lsbs<D-1>(x)!=zg<D-1>();
             auto extres=add_cin(zpad_hi<1>(happy), lsb.to_bool() ? guard : guard&sticky  );
             overflow=take_msb(extres);
             res=drop_msb(extres);
-- 
2.43.0


From 3b4f68363cf6f8dabcaac216b9a3fde7d9cb47aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:08 +0000
Subject: [PATCH 23/32] fix: inv_table_newton of narrow formats did not compile

---
 include/thls/tops/fp_flopoco_inv_nr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco_inv_nr.hpp b/include/thls/tops/fp_flopoco_inv_nr.hpp
index bb8a321..d818261 100644
--- a/include/thls/tops/fp_flopoco_inv_nr.hpp
+++ b/include/thls/tops/fp_flopoco_inv_nr.hpp
@@ -318,7 +318,7 @@ namespace thls
     {
         template<int LSBR,int LSBY>
         static fw_fix<0,LSBR> go(const fw_fix<0,LSBY> &x)
-        { return inv_frac_direct_table<LSBR>(x); }
+        { return inv_frac_direct_table<0,LSBR>(x); }
     };
 
     template<>
-- 
2.43.0


From 31d51ada692d79667f0c31d0c9fc1c3076fc8c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:08 +0000
Subject: [PATCH 24/32] fix: reciprocals below the smallest normal number
 wrapped to huge values

---
 include/thls/tops/fp_flopoco_inv_nr.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/thls/tops/fp_flopoco_inv_nr.hpp b/include/thls/tops/fp_flopoco_inv_nr.hpp
index d818261..ceb9c0b 100644
--- a/include/thls/tops/fp_flopoco_inv_nr.hpp
+++ b/include/thls/tops/fp_flopoco_inv_nr.hpp
@@ -380,8 +380,8 @@ THLS_INLINE fp_flopoco<wER,wFR> inv_table_newton(const fp_flopoco<wEY,wFY> &y, i
         flags=fw_uint<2>(0b10);
         break;
     case 1:
-        if((y.get_exp_bits()==og<wEY>()).to_bool()){
-            flags=fw_uint<2>(0b00);
+        if((y.get_exp_bits()==og<wEY>()).to_bool() || (exp==og<wER>()).to_bool()){
+            flags=fw_uint<2>(0b00); // 1/y is below the smallest normal number
         }else {
             flags = fw_uint<2>(0b01);
         }
@@ -419,8 +419,8 @@ THLS_INLINE fp_flopoco<wER,wFR> inv_table_newton(const fp_flopoco<wEY,wFY> &y, i
                 flags=fw_uint<2>(0b10);
                 break;
             case 1:
-                if((y.get_exp_bits()==og<wEY>()).to_bool()){
-                    flags=fw_uint<2>(0b00);
+                if((y.get_exp_bits()==og<wEY>()).to_bool() || (exp==og<wER>()).to_bool()){
+                    flags=fw_uint<2>(0b00); // 1/y is below the smallest normal number
                 }else {
                     flags = fw_uint<2>(0b01);
                 }
-- 
2.43.0


From e3cdaf991f697398e838934e5ba0f5c278a6a124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:06 +0000
Subject: [PATCH 25/32] fix: inv_direct halved reciprocals that round up to 1.0
 when the result is narrower than the operand

---
 include/thls/tops/fp_flopoco_inv_nr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco_inv_nr.hpp b/include/thls/tops/fp_flopoco_inv_nr.hpp
index ceb9c0b..8095b17 100644
--- a/include/thls/tops/fp_flopoco_inv_nr.hpp
+++ b/include/thls/tops/fp_flopoco_inv_nr.hpp
@@ -410,7 +410,7 @@ THLS_INLINE fp_flopoco<wER,wFR> inv_table_newton(const fp_flopoco<wEY,wFY> &y, i
         auto frac_out_fix=inv_frac_direct_table<0,-wFR-1,0,-wFY>(frac_in_fix);
         fw_uint<wFR> frac=take_lsbs<wFR>(frac_out_fix.bits);
         fw_uint<wER> exp=(og<wEY>() - fw_uint<wEY>(2)) - y.get_exp_bits();
-        if((y.get_frac_bits()==zg<wFY>()).to_bool()){
+        if(take_msb(frac_out_fix.bits).to_bool()){
             exp=exp+fw_uint<wER>(1);
         }
 
-- 
2.43.0


From 27e896024384fe39e3e8ae329344148dd5db73d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:06 +0000
Subject: [PATCH 26/32] fix: fp_flopoco(double) truncated fractions wider than
 31 bits to int

---
 include/thls/tops/fp_flopoco.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/thls/tops/fp_flopoco.hpp b/include/thls/tops/fp_flopoco.hpp
index b7e6051..9450c31 100644
--- a/include/thls/tops/fp_flopoco.hpp
+++ b/include/thls/tops/fp_flopoco.hpp
@@ -79,8 +79,9 @@ struct fp_flopoco
                     flags=fw_uint<2>(0b10);
                 }else{
                     assert(1.0<=f && f<2.0);
-                    uint64_t fx=ldexp(f-1.0, FracBits);
-                    frac=fw_uint<FracBits>(fx);
+                    const int K = FracBits < 52 ? FracBits : 52; // bits of the fraction that a double can fill
+                    uint64_t fx=ldexp(f-1.0, K);
+                    frac=zpad_lo<FracBits-K>(fw_uint<K>::from_uint64(fx));
                     exp=fw_uint<ExpBits>(e+bias);
                     //std::cerr<<"  x="<<x<<", f="<<f<<", e="<<e<<", fx="<<fx<<", exp="<<exp<<", frac="<<frac<<"\n";
 
-- 
2.43.0


From f26eaa541a9f7a237caa6243cb6ecd5c0a8b0308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:49 +0000
Subject: [PATCH 27/32] fix: ap_uint and ac_int backends lost the upper bits of
 integers wider than 64 bits

---
 include/thls/tops/fw_uint_on_ac_uint.hpp | 2 +-
 include/thls/tops/fw_uint_on_ap_uint.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/thls/tops/fw_uint_on_ac_uint.hpp b/include/thls/tops/fw_uint_on_ac_uint.hpp
index ba0f7ff..16dbfc8 100644
--- a/include/thls/tops/fw_uint_on_ac_uint.hpp
+++ b/include/thls/tops/fw_uint_on_ac_uint.hpp
@@ -166,7 +166,7 @@ struct fw_uint
         mpz_t tmp, tmp2;
         mpz_init_set(tmp, x);
         mpz_init(tmp2);
-        if(sizeof(unsigned int)*8 <= W){
+        if(W <= (int)(8*sizeof(unsigned int))){
             bits=mpz_get_ui(x);
         }else{
             ac_uint<((SafeW+31)/32)*32> acc=0;
diff --git a/include/thls/tops/fw_uint_on_ap_uint.hpp b/include/thls/tops/fw_uint_on_ap_uint.hpp
index 3d5c94d..7185eed 100644
--- a/include/thls/tops/fw_uint_on_ap_uint.hpp
+++ b/include/thls/tops/fw_uint_on_ap_uint.hpp
@@ -173,7 +173,7 @@ struct fw_uint
         mpz_t tmp, tmp2;
         mpz_init_set(tmp, x);
         mpz_init(tmp2);
-        if(sizeof(unsigned int)*8 <= W){
+        if(W <= (int)(8*sizeof(unsigned int))){
             bits=mpz_get_ui(x);
         }else{
             bits_t acc=0;
@@ -181,7 +181,7 @@ struct fw_uint
             while(0!=mpz_cmp_si(tmp, 0)){
                 mpz_tdiv_r_2exp(tmp2, tmp, 32);
                 ap_uint<32> curr=mpz_get_ui(tmp2);
-                acc = acc | (curr<<offset);
+                acc = acc | (bits_t(curr)<<offset); // a shift is as wide as its left operand
                 mpz_tdiv_q_2exp(tmp, tmp, 32);
                 offset+=32;
             }
-- 
2.43.0


From f1cabbd4b742e1300c8cecfcfbc5d757f9257307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:38 +0000
Subject: [PATCH 28/32] fix: fp_flopoco_dot4_pos_rndd.hpp used the include
 guard of dot2, including both dropped the second

---
 include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp b/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp
index a58166a..987d187 100644
--- a/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp
+++ b/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp
@@ -1,5 +1,5 @@
-#ifndef dot2_pos_hpp
-#define dot2_pos_hpp
+#ifndef dot4_pos_hpp
+#define dot4_pos_hpp
 
 #include "fp_flopoco.hpp"
 
-- 
2.43.0


From 0d74c6c6593ef5c89bf225708086c539d56fddc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:38 +0000
Subject: [PATCH 29/32] fix: dot2/dot4 references left double's exponent range
 or aborted for terms far apart

---
 .../thls/tops/fp_flopoco_dot2_pos_rndd.hpp    |  2 +-
 .../thls/tops/fp_flopoco_dot4_pos_rndd.hpp    | 26 ++++++++-----------
 2 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/include/thls/tops/fp_flopoco_dot2_pos_rndd.hpp b/include/thls/tops/fp_flopoco_dot2_pos_rndd.hpp
index cd48863..6faa2ae 100644
--- a/include/thls/tops/fp_flopoco_dot2_pos_rndd.hpp
+++ b/include/thls/tops/fp_flopoco_dot2_pos_rndd.hpp
@@ -238,7 +238,7 @@ fp_flopoco<WE,WF> dot2_pos_rndd_ref(
     const fp_flopoco<WE,WF> &b0,
     const fp_flopoco<WE,WF> &b1
 ){
-    if((WF+1)*4 < 52){
+    if(WE<=10 && (WF+1)*4 < 52){ // double must also cover the exponent range
         return dot2_pos_rndd_ref_small(a0,a1,b0,b1);
     }else{
         return dot2_pos_rndd_ref_large(a0,a1,b0,b1);
diff --git a/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp b/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp
index 987d187..37fe830 100644
--- a/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp
+++ b/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp
@@ -316,37 +316,33 @@ fp_flopoco<WE,WF> dot4_pos_rndd_ref_large(
 
     MPFR_DECL_INIT(va, WF+1);
     MPFR_DECL_INIT(vb, WF+1);
-    MPFR_DECL_INIT(vab, 2*(WF+1));
-    MPFR_DECL_INIT(vacc, 12*(WF+2)); // NOTE: I think this should be 8 not 12, but that triggers the notExact test.
+    MPFR_DECL_INIT(vab0, 2*(WF+1));
+    MPFR_DECL_INIT(vab1, 2*(WF+1));
+    MPFR_DECL_INIT(vab2, 2*(WF+1));
+    MPFR_DECL_INIT(vab3, 2*(WF+1));
     MPFR_DECL_INIT(vr, WF+1);
 
     int notExact=0;
 
     a0.get(va);
     b0.get(vb);
-    notExact |= mpfr_mul(vacc, va, vb, MPFR_RNDN); // Exact
-    assert(!notExact);
+    notExact |= mpfr_mul(vab0, va, vb, MPFR_RNDN); // Exact
 
     a1.get(va);
     b1.get(vb);
-    notExact |=mpfr_mul(vab, va, vb, MPFR_RNDN); // Exact
-    notExact |=mpfr_add(vacc, vacc, vab, MPFR_RNDN); // Exact
-    assert(!notExact);
+    notExact |= mpfr_mul(vab1, va, vb, MPFR_RNDN); // Exact
 
     a2.get(va);
     b2.get(vb);
-    notExact |=mpfr_mul(vab, va, vb, MPFR_RNDN); // Exact
-    notExact |=mpfr_add(vacc, vacc, vab, MPFR_RNDN); // Exact
-    assert(!notExact);
+    notExact |= mpfr_mul(vab2, va, vb, MPFR_RNDN); // Exact
 
     a3.get(va);
     b3.get(vb);
-    notExact |=mpfr_mul(vab, va, vb, MPFR_RNDN); // Exact
-    assert(!notExact);
-    notExact |=mpfr_add(vacc, vacc, vab, MPFR_RNDN); // Exact
+    notExact |= mpfr_mul(vab3, va, vb, MPFR_RNDN); // Exact
     assert(!notExact);
 
-    mpfr_set(vr, vacc, MPFR_RNDD); // Does the single rounding operaton
+    mpfr_ptr terms[4]={vab0,vab1,vab2,vab3};
+    mpfr_sum(vr, terms, 4, MPFR_RNDD); // Does the single rounding operation, however far apart the terms are
 
     return fp_flopoco<WE,WF>(vr, true);
 }
@@ -388,7 +384,7 @@ fp_flopoco<WE,WF> dot4_pos_rndd_ref(
     const fp_flopoco<WE,WF> &b2,
     const fp_flopoco<WE,WF> &b3
 ){
-    if((WF+1)*8 < 52){
+    if(WE<=10 && (WF+1)*8 < 52){ // double must also cover the exponent range
         return dot4_pos_rndd_ref_small(a0,a1,a2,a3,b0,b1,b2,b3);
     }else{
         return dot4_pos_rndd_ref_large(a0,a1,a2,a3,b0,b1,b2,b3);
-- 
2.43.0


From b89ba434d4f5f19ce5011bdd5a1a6299ef483286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:38 +0000
Subject: [PATCH 30/32] fix: exhaust_dot2_pos_rndd reported an error when
 result and reference agree

---
 include/thls/tops/fp_flopoco_dot2_pos_rndd.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco_dot2_pos_rndd.hpp b/include/thls/tops/fp_flopoco_dot2_pos_rndd.hpp
index 6faa2ae..867820e 100644
--- a/include/thls/tops/fp_flopoco_dot2_pos_rndd.hpp
+++ b/include/thls/tops/fp_flopoco_dot2_pos_rndd.hpp
@@ -298,7 +298,7 @@ void exhaust_dot2_pos_rndd()
                     auto ref=dot2_pos_rndd_ref(x0,x1,x2,x3);
                     auto got=dot2_pos_rndd(x0,x1,x2,x3);
                     //fprintf(stderr, "  ref=%lg, got=%lg\n", ref.to_double(), got.to_double());
-                    if(ref.equals(got).to_bool()){
+                    if(!ref.equals(got).to_bool()){
                         fprintf(stderr, "  ERROR : ref=~%lg, got=~%lg\n", ref.to_double_approx(), got.to_double_approx());
                         exit(1);
                     }
-- 
2.43.0


From 42a9a4475f808ac1fc057e36f7f84e81ce4d85f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:38 +0000
Subject: [PATCH 31/32] fix: fp_flopoco_random_test_source could draw a
 disabled first class

---
 include/thls/tops/fp_flopoco.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco.hpp b/include/thls/tops/fp_flopoco.hpp
index 9450c31..1df8448 100644
--- a/include/thls/tops/fp_flopoco.hpp
+++ b/include/thls/tops/fp_flopoco.hpp
@@ -1147,7 +1147,7 @@ public:
         double u=m_udist(rng) * class_cdf.back();
         unsigned sel;
         for(sel=0; sel<class_cdf.size(); sel++){
-            if( u <= class_cdf[sel] ){
+            if( u < class_cdf[sel] ){
                 break;
             }
         }
-- 
2.43.0


From 83db6d790b52196f6e90535ac1dc8c8332828cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:52 +0000
Subject: [PATCH 32/32] fix: dot4_pos_rndd_ref did not compile for exponents
 wider than double's

---
 include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp b/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp
index 37fe830..2a096bb 100644
--- a/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp
+++ b/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp
@@ -362,10 +362,10 @@ fp_flopoco<WE,WF> dot4_pos_rndd_ref_small(
         throw std::runtime_error("Types are too wide to reliably do in double.");
     }
 
-    double dres = a0.to_double()*b0.to_double()
-                + a1.to_double()*b1.to_double()
-                + a2.to_double()*b2.to_double()
-                + a3.to_double()*b3.to_double();
+    double dres = a0.to_double_approx()*b0.to_double_approx()
+                + a1.to_double_approx()*b1.to_double_approx()
+                + a2.to_double_approx()*b2.to_double_approx()
+                + a3.to_double_approx()*b3.to_double_approx();
 
     MPFR_DECL_INIT(vres, WF+1);
     mpfr_set_d(vres, dres, MPFR_RNDD);
-- 
2.43.0

