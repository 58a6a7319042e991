From edd01c6c0ec205a90520b784ec1d041e4894c4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:05 +0000
Subject: [PATCH 1/3] fix: log: find the decimal exponent with the same steps
 as the mantissa

mantissa() scaled by 10 per step, find_exponent() by 10^2 and 10^4, so next
to a power of ten the two could round to different decades and log(x) came out
wrong by log(10): log(0.01) was -2.3026 with rounding toward minus infinity or
zero, and log(1e-05 less one ulp) was -13.8155 with the default rounding.
---
 include/gcem_incl/find_exponent.hpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/include/gcem_incl/find_exponent.hpp b/include/gcem_incl/find_exponent.hpp
index 200e4e9..9a29d64 100644
--- a/include/gcem_incl/find_exponent.hpp
+++ b/include/gcem_incl/find_exponent.hpp
@@ -34,20 +34,13 @@ llint_t
 find_exponent(const T x, const llint_t exponent)
 noexcept
 {
+    // the steps have to be those of mantissa(x), so that x = mantissa(x) * 10^exponent
     return( // < 1
-            x < T(1e-03)  ? \
-                find_exponent(x * T(1e+04), exponent - llint_t(4)) :
-            x < T(1e-01)  ? \
-                find_exponent(x * T(1e+02), exponent - llint_t(2)) :
             x < T(1)  ? \
                 find_exponent(x * T(10), exponent - llint_t(1)) :
             // > 10
             x > T(10) ? \
                 find_exponent(x / T(10), exponent + llint_t(1)) :
-            x > T(1e+02) ? \
-                find_exponent(x / T(1e+02), exponent + llint_t(2)) :
-            x > T(1e+04) ? \
-                find_exponent(x / T(1e+04), exponent + llint_t(4)) :
             // else
                 exponent );
 }
-- 
2.43.0


From 66559a578946f0d0d7e7c1586135fcb937859c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:05 +0000
Subject: [PATCH 2/3] fix: lcm: do not divide by zero when both arguments are
 zero

gcd(0,0) is 0, so lcm(0,0) was an integer division by zero (SIGFPE); the least
common multiple of anything and zero is zero.
---
 include/gcem_incl/lcm.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/lcm.hpp b/include/gcem_incl/lcm.hpp
index a7ca776..11d96eb 100644
--- a/include/gcem_incl/lcm.hpp
+++ b/include/gcem_incl/lcm.hpp
@@ -30,7 +30,9 @@ T
 lcm_compute(const T a, const T b)
 noexcept
 {
-    return abs(a * (b / gcd(a,b)));
+    return( b == T(0) ? \
+                T(0) : 
+                abs(a * (b / gcd(a,b))) );
 }
 
 template<typename T1, typename T2, typename TC = common_t<T1,T2>>
-- 
2.43.0


From dca7b3f982739a82b7f390501acc61bb6809c5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:38 +0000
Subject: [PATCH 3/3] fix: tgamma: bound the recursion for large negative
 arguments

Every negative non-integer took one recursive call per unit, and past the range
of long long no argument was recognised as an integer: tgamma(-1e+06 + 0.5) and
tgamma(-1e+300) (and factorial of such arguments) ran out of stack.  Arguments
of 1/epsilon and more are integers, and below -200 (-2000 for long double) the
result is zero.
---
 include/gcem_incl/tgamma.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/tgamma.hpp b/include/gcem_incl/tgamma.hpp
index deffd3a..696525b 100644
--- a/include/gcem_incl/tgamma.hpp
+++ b/include/gcem_incl/tgamma.hpp
@@ -44,9 +44,14 @@ noexcept
                 GCLIM<T>::infinity() :
             // negative numbers
             x < T(0) ? \
-                // check for integer
+                // check for integer; all numbers of this size are
+                x <= - T(1) / GCLIM<T>::epsilon() ? \
+                    GCLIM<T>::quiet_NaN() :
                 GCLIM<T>::min() > abs(x - find_whole(x)) ? \
                     GCLIM<T>::quiet_NaN() :
+                // indistinguishable from zero
+                x < ( GCLIM<T>::digits10 > 15 ? T(-2000) : T(-200) ) ? \
+                    ( is_odd(find_whole(x)) ? T(0) : -T(0) ) :
                 // else
                 tgamma_check(x+T(1)) / x :
 
-- 
2.43.0

