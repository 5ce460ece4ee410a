From 9209450d49e7bd8e2e5c33ff6dae47a2b71f8a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:16 +0000
Subject: [PATCH 01/27] fix: checked::modulus returned the dividend for min %
 min

For signed R and a divisor equal to numeric_limits<R>::min() the divisor cannot
be negated and the dividend was returned unchanged. That is right for every
dividend except min itself, whose remainder is 0.
---
 include/boost/safe_numerics/checked_integer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/checked_integer.hpp b/include/boost/safe_numerics/checked_integer.hpp
index 2893ca7..3f43df2 100644
--- a/include/boost/safe_numerics/checked_integer.hpp
+++ b/include/boost/safe_numerics/checked_integer.hpp
@@ -550,7 +550,8 @@ struct checked_operation<R, F,
                 return t % u;
             checked_result<R> ux = checked::minus(u);
             if(ux.exception())
-                return t;
+                // u is the most negative value of R, so |t| <= |u|
+                return t == u ? checked_result<R>(0) : checked_result<R>(t);
             return t % static_cast<R>(ux);
         }
     }; // modulus_impl_detail
-- 
2.43.0


From 5f10895361bb2eae032ffec0c232be890f1b4b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:48 +0000
Subject: [PATCH 02/27] fix: subtraction returned the sum when the error
 handler ignores the error

subtraction_result::return_value fell back to r.first + r.second.
---
 include/boost/safe_numerics/safe_base_operations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 985de91..cb34d73 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -530,7 +530,7 @@ private:
 
         return
             rx.exception()
-            ? r.first + r.second
+            ? r.first - r.second
             : rx.m_contents.m_r;
     }
     using r_type_interval_t = interval<r_type>;
-- 
2.43.0


From 68269db9eb605d2e3c93e62413949e936886435c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:23 +0000
Subject: [PATCH 03/27] fix: conversion to a safe type returned bits of the
 message pointer when the handler ignores the error

validate_detail read the value member of a checked_result that holds an
error message. Fall back to the plain conversion, as casting_helper does.
---
 include/boost/safe_numerics/safe_base_operations.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index cb34d73..c8597e0 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -115,7 +115,11 @@ struct validate_detail {
                 dispatch_and_return<E, R>
             >::cast(t);
 
-            return rx;
+            // if the error was handled without a throw, m_msg is the
+            // active member: the value has to be taken from the operand
+            return rx.exception()
+                ? static_cast<R>(base_value(t))
+                : rx.m_contents.m_r;
         }
     };
     struct exception_not_possible {
-- 
2.43.0


From 04fd016871c04d31930e93a1748f81e195f76220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:58 +0000
Subject: [PATCH 04/27] fix: right shift of an unsigned value by exactly its
 width was not reported

The guard compared the count with numeric_limits<R>::digits, which for an
unsigned type is the width itself, so the shift was undefined behaviour.
---
 include/boost/safe_numerics/checked_integer.hpp      | 2 +-
 include/boost/safe_numerics/safe_base_operations.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/safe_numerics/checked_integer.hpp b/include/boost/safe_numerics/checked_integer.hpp
index 3f43df2..57981a3 100644
--- a/include/boost/safe_numerics/checked_integer.hpp
+++ b/include/boost/safe_numerics/checked_integer.hpp
@@ -741,7 +741,7 @@ struct checked_operation<R, F,
                "shifting negative amount"
             );
         }
-        if(u > std::numeric_limits<R>::digits){
+        if(u >= utility::bits_type<R>::value){
             // behavior is undefined
             return F::template invoke<safe_numerics_error::shift_too_large>(
                "shifting more bits than available"
diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index c8597e0..2be8975 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1497,8 +1497,8 @@ struct right_shift_result {
         constexpr const r_type_interval_t ui = u_interval();
         return static_cast<bool>(
             // note undesirable coupling with checked::shift right here !
-            ui.u > checked_result<result_base_type>(
-                std::numeric_limits<result_base_type>::digits
+            ui.u >= checked_result<result_base_type>(
+                utility::bits_type<result_base_type>::value
             )
             || ti.l < checked_result<result_base_type>(0)
             || ui.l < checked_result<result_base_type>(0)
-- 
2.43.0


From a09d6d055b672ed12ce45044b168cd076541054a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:32 +0000
Subject: [PATCH 05/27] fix: division and modulus computed in too narrow a
 type, modulus result range was wrong

When no exception was thought possible, the operands were converted to the
result type before the division, although the result type may be too narrow
to hold them (automatic promotion, range types): wrong results and division
by zero. Calculate in, and determine the interval with, a type which holds
both operands.

The interval of a modulus was derived from the remainders at the limits,
(and, for automatic promotion, from the quotients). Those don't bound the
result: [5,10] % [3,7] includes 0 and 6. As values are stored without
validation the declared range was violated.
---
 include/boost/safe_numerics/automatic.hpp     |  21 +--
 include/boost/safe_numerics/interval.hpp      |  24 ++-
 .../safe_numerics/safe_base_operations.hpp    | 160 ++++++++++--------
 3 files changed, 103 insertions(+), 102 deletions(-)

diff --git a/include/boost/safe_numerics/automatic.hpp b/include/boost/safe_numerics/automatic.hpp
index 16cebc2..94a4cf1 100644
--- a/include/boost/safe_numerics/automatic.hpp
+++ b/include/boost/safe_numerics/automatic.hpp
@@ -255,25 +255,8 @@ public:
             checked::cast<temp_base_type>(base_value(std::numeric_limits<U>::max()))
         };
 
-        constexpr static r_interval_type rx(){
-            if(u_interval.u < r_type(0)
-            || u_interval.l > r_type(0))
-                return t_interval / u_interval;
-            return utility::minmax(
-                std::initializer_list<r_type> {
-                    t_interval.l % u_interval.l,
-                    t_interval.l % r_type(-1),
-                    t_interval.l % r_type(1),
-                    t_interval.l % u_interval.u,
-                    t_interval.u % u_interval.l,
-                    t_interval.u % r_type(-1),
-                    t_interval.u % r_type(1),
-                    t_interval.u % u_interval.u,
-                }
-            );
-        }
-
-        constexpr static const r_interval_type r_interval = rx();
+        constexpr static const r_interval_type r_interval =
+            t_interval % u_interval;
 
         constexpr static auto rl = r_interval.l;
         constexpr static auto ru = r_interval.u;
diff --git a/include/boost/safe_numerics/interval.hpp b/include/boost/safe_numerics/interval.hpp
index c8a147e..b236ef9 100644
--- a/include/boost/safe_numerics/interval.hpp
+++ b/include/boost/safe_numerics/interval.hpp
@@ -139,17 +139,23 @@ constexpr inline interval<T> operator/(const interval<T> & t, const interval<T>
 }
 
 // modulus of two intervals.  This will give a new range of for the modulus.
-// note: presumes 0 is not included in the range of the denominator
+// The result has the sign of the numerator, its magnitude doesn't exceed that
+// of the numerator and is less than the magnitude of the denominator. So the
+// remainders of the limits are not sufficient: [5,10] % [3,7] includes 0 and 6
 template<typename T>
 constexpr inline interval<T> operator%(const interval<T> & t, const interval<T> & u){
-    assert(static_cast<bool>(u.excludes(T(0))));
-    return utility::minmax<T>(
-        std::initializer_list<T> {
-            t.l % u.l,
-            t.l % u.u,
-            t.u % u.l,
-            t.u % u.u
-        }
+    const T zero = T(0);
+    const T one = T(1);
+    // largest possible magnitude of the result given the denominator
+    const T m1 = static_cast<bool>(u.u > zero) ? T(u.u - one) : zero;
+    const T m2 = static_cast<bool>(u.l < zero) ? T(zero - (u.l + one)) : zero;
+    const T m = static_cast<bool>(m1 < m2) ? m2 : m1;
+    const T n = zero - m;
+    return interval<T>(
+        ! static_cast<bool>(t.l < zero) ? zero
+            : static_cast<bool>(t.l < n) ? n : t.l,
+        ! static_cast<bool>(t.u > zero) ? zero
+            : static_cast<bool>(t.u > m) ? m : t.u
     );
 }
 
diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 2be8975..7fe8e33 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -756,14 +756,6 @@ private:
     using result_base_type =
         typename promotion_policy::template division_result<T, U>::type;
 
-    // if exception not possible
-    constexpr static result_base_type
-    return_value(const T & t, const U & u, std::false_type){
-        return
-            static_cast<result_base_type>(base_value(t))
-            / static_cast<result_base_type>(base_value(u));
-    }
-
     // if exception possible
     using exception_policy = typename common_exception_policy<T, U>::type;
 
@@ -776,18 +768,27 @@ private:
         }) + (std::numeric_limits<result_base_type>::is_signed ? 1 : 0)
     );
 
-    using r_type = checked_result<result_base_type>;
+    // a type which can hold both operands as well as the result
+    using temp_base = typename std::conditional<
+        std::numeric_limits<result_base_type>::is_signed,
+        typename boost::int_t<bits>::least,
+        typename boost::uint_t<bits>::least
+    >::type;
+
+    using t_type = checked_result<temp_base>;
+
+    // if exception not possible
+    constexpr static result_base_type
+    return_value(const T & t, const U & u, std::false_type){
+        return static_cast<result_base_type>(
+            static_cast<temp_base>(base_value(t))
+            / static_cast<temp_base>(base_value(u))
+        );
+    }
 
     constexpr static result_base_type
     return_value(const T & t, const U & u, std::true_type){
-        using temp_base = typename std::conditional<
-            std::numeric_limits<result_base_type>::is_signed,
-            typename boost::int_t<bits>::least,
-            typename boost::uint_t<bits>::least
-        >::type;
-        using t_type = checked_result<temp_base>;
-
-        const std::pair<t_type, t_type> r = casting_helper<
+const std::pair<t_type, t_type> r = casting_helper<
             exception_policy,
             temp_base
         >(t, u);
@@ -802,19 +803,19 @@ private:
             ? r.first / r.second
             : rx;
     }
-    using r_type_interval_t = interval<r_type>;
+    using r_type_interval_t = interval<t_type>;
 
     constexpr static r_type_interval_t t_interval(){
         return r_type_interval_t{
-            checked::cast<result_base_type>(base_value(std::numeric_limits<T>::min())),
-            checked::cast<result_base_type>(base_value(std::numeric_limits<T>::max()))
+            checked::cast<temp_base>(base_value(std::numeric_limits<T>::min())),
+            checked::cast<temp_base>(base_value(std::numeric_limits<T>::max()))
         };
     };
 
     constexpr static r_type_interval_t u_interval(){
         return r_type_interval_t{
-            checked::cast<result_base_type>(base_value(std::numeric_limits<U>::min())),
-            checked::cast<result_base_type>(base_value(std::numeric_limits<U>::max()))
+            checked::cast<temp_base>(base_value(std::numeric_limits<U>::min())),
+            checked::cast<temp_base>(base_value(std::numeric_limits<U>::max()))
         };
     };
 
@@ -822,17 +823,17 @@ private:
         constexpr const r_type_interval_t t = t_interval();
         constexpr const r_type_interval_t u = u_interval();
 
-        if(u.u < r_type(0) || u.l > r_type(0))
+        if(u.u < t_type(0) || u.l > t_type(0))
             return t / u;
         return utility::minmax(
-            std::initializer_list<r_type> {
+            std::initializer_list<t_type> {
                 t.l / u.l,
-                t.l / r_type(-1),
-                t.l / r_type(1),
+                t.l / t_type(-1),
+                t.l / t_type(1),
                 t.l / u.u,
                 t.u / u.l,
-                t.u / r_type(-1),
-                t.u / r_type(1),
+                t.u / t_type(-1),
+                t.u / t_type(1),
                 t.u / u.u,
             }
         );
@@ -840,20 +841,31 @@ private:
 
     constexpr static const r_type_interval_t r_type_interval = get_r_type_interval();
 
+    constexpr static const interval<t_type> base_interval{
+        t_type(std::numeric_limits<result_base_type>::min()),
+        t_type(std::numeric_limits<result_base_type>::max())
+    };
+
     constexpr static const interval<result_base_type> return_interval{
         r_type_interval.l.exception()
+        || ! static_cast<bool>(base_interval.includes(r_type_interval.l))
             ? std::numeric_limits<result_base_type>::min()
-            : static_cast<result_base_type>(r_type_interval.l),
+            : static_cast<result_base_type>(static_cast<temp_base>(r_type_interval.l)),
         r_type_interval.u.exception()
+        || ! static_cast<bool>(base_interval.includes(r_type_interval.u))
             ? std::numeric_limits<result_base_type>::max()
-            : static_cast<result_base_type>(r_type_interval.u)
+            : static_cast<result_base_type>(static_cast<temp_base>(r_type_interval.u))
     };
 
     constexpr static bool exception_possible(){
         constexpr const r_type_interval_t ri = get_r_type_interval();
+        constexpr const r_type_interval_t ti = t_interval();
         constexpr const r_type_interval_t ui = u_interval();
         return
-            static_cast<bool>(ui.includes(r_type(0)))
+            // operands which the type used for the calculation can't hold
+            ti.l.exception() || ti.u.exception()
+            || ui.l.exception() || ui.u.exception() ||
+            static_cast<bool>(ui.includes(t_type(0)))
             || ri.l.exception()
             || ri.u.exception();
     }
@@ -914,14 +926,6 @@ private:
     using promotion_policy = typename common_promotion_policy<T, U>::type;
     using result_base_type = typename promotion_policy::template modulus_result<T, U>::type;
 
-    // if exception not possible
-    constexpr static result_base_type
-    return_value(const T & t, const U & u, std::false_type){
-        return
-            static_cast<result_base_type>(base_value(t))
-            % static_cast<result_base_type>(base_value(u));
-    }
-
     // if exception possible
     using exception_policy = typename common_exception_policy<T, U>::type;
 
@@ -934,18 +938,32 @@ private:
         }) + (std::numeric_limits<result_base_type>::is_signed ? 1 : 0)
     );
 
-    using r_type = checked_result<result_base_type>;
+    // a type which can hold both operands as well as the result
+    using temp_base = typename std::conditional<
+        std::numeric_limits<result_base_type>::is_signed,
+        typename boost::int_t<bits>::least,
+        typename boost::uint_t<bits>::least
+    >::type;
+
+    using t_type = checked_result<temp_base>;
+
+    // if exception not possible
+    constexpr static result_base_type
+    return_value(const T & t, const U & u, std::false_type){
+        // note: min % -1 can't be left to the native operator
+        return static_cast<result_base_type>(
+            static_cast<temp_base>(
+                checked::modulus<temp_base>(
+                    static_cast<temp_base>(base_value(t)),
+                    static_cast<temp_base>(base_value(u))
+                )
+            )
+        );
+    }
 
     constexpr static result_base_type
     return_value(const T & t, const U & u, std::true_type){
-        using temp_base = typename std::conditional<
-            std::numeric_limits<result_base_type>::is_signed,
-            typename boost::int_t<bits>::least,
-            typename boost::uint_t<bits>::least
-        >::type;
-        using t_type = checked_result<temp_base>;
-        
-        const std::pair<t_type, t_type> r = casting_helper<
+const std::pair<t_type, t_type> r = casting_helper<
             exception_policy,
             temp_base
         >(t, u);
@@ -961,59 +979,53 @@ private:
             : rx;
     }
 
-    using r_type_interval_t = interval<r_type>;
+    using r_type_interval_t = interval<t_type>;
 
     constexpr static const r_type_interval_t t_interval(){
         return r_type_interval_t{
-            checked::cast<result_base_type>(base_value(std::numeric_limits<T>::min())),
-            checked::cast<result_base_type>(base_value(std::numeric_limits<T>::max()))
+            checked::cast<temp_base>(base_value(std::numeric_limits<T>::min())),
+            checked::cast<temp_base>(base_value(std::numeric_limits<T>::max()))
         };
     };
 
     constexpr static const r_type_interval_t u_interval(){
         return r_type_interval_t{
-            checked::cast<result_base_type>(base_value(std::numeric_limits<U>::min())),
-            checked::cast<result_base_type>(base_value(std::numeric_limits<U>::max()))
+            checked::cast<temp_base>(base_value(std::numeric_limits<U>::min())),
+            checked::cast<temp_base>(base_value(std::numeric_limits<U>::max()))
         };
     };
 
     constexpr static const r_type_interval_t get_r_type_interval(){
-        constexpr const r_type_interval_t t = t_interval();
-        constexpr const r_type_interval_t u = u_interval();
-
-        if(u.u < r_type(0)
-        || u.l > r_type(0))
-            return t % u;
-        return utility::minmax(
-            std::initializer_list<r_type> {
-                t.l % u.l,
-                t.l % r_type(-1),
-                t.l % r_type(1),
-                t.l % u.u,
-                t.u % u.l,
-                t.u % r_type(-1),
-                t.u % r_type(1),
-                t.u % u.u,
-            }
-        );
+        return t_interval() % u_interval();
     }
 
     constexpr static const r_type_interval_t r_type_interval = get_r_type_interval();
 
+    constexpr static const interval<t_type> base_interval{
+        t_type(std::numeric_limits<result_base_type>::min()),
+        t_type(std::numeric_limits<result_base_type>::max())
+    };
+
     constexpr static const interval<result_base_type> return_interval{
         r_type_interval.l.exception()
+        || ! static_cast<bool>(base_interval.includes(r_type_interval.l))
             ? std::numeric_limits<result_base_type>::min()
-            : static_cast<result_base_type>(r_type_interval.l),
+            : static_cast<result_base_type>(static_cast<temp_base>(r_type_interval.l)),
         r_type_interval.u.exception()
+        || ! static_cast<bool>(base_interval.includes(r_type_interval.u))
             ? std::numeric_limits<result_base_type>::max()
-            : static_cast<result_base_type>(r_type_interval.u)
+            : static_cast<result_base_type>(static_cast<temp_base>(r_type_interval.u))
     };
 
     constexpr static bool exception_possible(){
         constexpr const r_type_interval_t ri = get_r_type_interval();
+        constexpr const r_type_interval_t ti = t_interval();
         constexpr const r_type_interval_t ui = u_interval();
         return
-            static_cast<bool>(ui.includes(r_type(0)))
+            // operands which the type used for the calculation can't hold
+            ti.l.exception() || ti.u.exception()
+            || ui.l.exception() || ui.u.exception() ||
+            static_cast<bool>(ui.includes(t_type(0)))
             || ri.l.exception()
             || ri.u.exception();
     }
-- 
2.43.0


From c0cefefaeeece05ad5a50a95680c762f3f2f5024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:09 +0000
Subject: [PATCH 06/27] fix: error handler was invoked twice when converting an
 operand, literals with void policies failed

casting_helper fell back on the conversion operator of the safe type, which
validates (and reports) the same conversion a second time, and which can't be
instantiated for a safe literal without exception policy.
---
 include/boost/safe_numerics/safe_base_operations.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 7fe8e33..0644a84 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -344,7 +344,7 @@ constexpr inline static std::pair<R, R> casting_helper(const T & t, const U & u)
         dispatch_and_return<EP, R>
     >::cast(base_value(t));
     const R tr = tx.exception()
-        ? static_cast<R>(t)
+        ? static_cast<R>(base_value(t))
         : tx.m_contents.m_r;
 
     const r_type ux = heterogeneous_checked_operation<
@@ -355,7 +355,7 @@ constexpr inline static std::pair<R, R> casting_helper(const T & t, const U & u)
         dispatch_and_return<EP, R>
     >::cast(base_value(u));
     const R ur = ux.exception()
-        ? static_cast<R>(u)
+        ? static_cast<R>(base_value(u))
         : ux.m_contents.m_r;
     return std::pair<R, R>(tr, ur);
 }
-- 
2.43.0


From a2caca8a7cf3f20b17ddccbed1bcbb65be6b3343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:33 +0000
Subject: [PATCH 07/27] fix: an unsigned value too small for the target range
 was reported as positive overflow

---
 include/boost/safe_numerics/checked_integer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/safe_numerics/checked_integer.hpp b/include/boost/safe_numerics/checked_integer.hpp
index 57981a3..1a2247a 100644
--- a/include/boost/safe_numerics/checked_integer.hpp
+++ b/include/boost/safe_numerics/checked_integer.hpp
@@ -91,7 +91,7 @@ struct heterogeneous_checked_operation<
                 )
             :
             boost::safe_numerics::safe_compare::less_than(t, Min) ?
-                F::template invoke<safe_numerics_error::positive_overflow_error>(
+                F::template invoke<safe_numerics_error::negative_overflow_error>(
                     "converted unsigned value too small"
                 )
             :
@@ -113,7 +113,7 @@ struct heterogeneous_checked_operation<
                 )
             :
             boost::safe_numerics::safe_compare::less_than(t, Min) ?
-                F::template invoke<safe_numerics_error::positive_overflow_error>(
+                F::template invoke<safe_numerics_error::negative_overflow_error>(
                     "converted unsigned value too small"
                 )
             :
-- 
2.43.0


From 04052689c12e888dca20cf54ba030fee7f73fcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:17 +0000
Subject: [PATCH 08/27] fix: declared range of a shift was wrong when the shift
 count might be out of range

---
 .../safe_numerics/safe_base_operations.hpp    | 88 ++++++++++++++-----
 1 file changed, 67 insertions(+), 21 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 0644a84..15b5de3 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1288,6 +1288,40 @@ constexpr inline operator!=(const T & lhs, const U & rhs) {
 /////////////////////////////////////////////////////////////////////////
 // shift operators
 
+// Only shift counts from 0 through bits - 1 yield a result, any others are
+// errors. Trim an interval of shift counts to those which yield a result.
+template<class R>
+constexpr inline interval<checked_result<R>>
+valid_shift_counts(const interval<checked_result<R>> & u){
+    using r_type = checked_result<R>;
+    const r_type lowest(static_cast<R>(0));
+    const r_type highest(static_cast<R>(utility::bits_type<R>::value - 1));
+    return interval<r_type>{
+        static_cast<bool>(u.l >= lowest) && static_cast<bool>(u.l <= highest)
+            ? u.l : lowest,
+        static_cast<bool>(u.u >= lowest) && static_cast<bool>(u.u <= highest)
+            ? u.u : highest
+    };
+}
+
+// true if every value of both intervals can be shifted: no negative values
+// and no shift counts which are negative or too large
+template<class R>
+constexpr inline bool
+valid_shift_operands(
+    const interval<checked_result<R>> & t,
+    const interval<checked_result<R>> & u
+){
+    using r_type = checked_result<R>;
+    const r_type zero(static_cast<R>(0));
+    const r_type highest(static_cast<R>(utility::bits_type<R>::value - 1));
+    return
+        ! t.u.exception()
+        && static_cast<bool>(t.l >= zero)
+        && static_cast<bool>(u.l >= zero)
+        && static_cast<bool>(u.u <= highest);
+}
+
 // left shift
 template<class T, class U>
 struct left_shift_result {
@@ -1329,17 +1363,29 @@ private:
 
     using r_type_interval_t = interval<r_type>;
 
-    constexpr static r_type_interval_t get_r_type_interval(){
-        constexpr const r_type_interval_t t_interval{
+    constexpr static r_type_interval_t t_interval(){
+        return r_type_interval_t(
             checked::cast<result_base_type>(base_value(std::numeric_limits<T>::min())),
             checked::cast<result_base_type>(base_value(std::numeric_limits<T>::max()))
-        };
+        );
+    }
 
-        constexpr const r_type_interval_t u_interval{
+    constexpr static r_type_interval_t u_interval(){
+        return r_type_interval_t(
             checked::cast<result_base_type>(base_value(std::numeric_limits<U>::min())),
             checked::cast<result_base_type>(base_value(std::numeric_limits<U>::max()))
-        };
-        return (t_interval << u_interval);
+        );
+    }
+
+    constexpr static r_type_interval_t get_r_type_interval(){
+        constexpr const r_type_interval_t t = t_interval();
+        constexpr const r_type_interval_t u = valid_shift_counts(u_interval());
+        constexpr const r_type zero(static_cast<result_base_type>(0));
+        // note: a negative value can only be shifted by 0
+        return r_type_interval_t(
+            static_cast<bool>(t.l >= zero) ? t.l << u.l : t.l,
+            static_cast<bool>(t.u <= zero) ? t.u : t.u << u.u
+        );
     }
 
     constexpr static const r_type_interval_t r_type_interval = get_r_type_interval();
@@ -1354,6 +1400,8 @@ private:
     };
 
     constexpr static bool exception_possible(){
+        if(! valid_shift_operands(t_interval(), u_interval()))
+            return true;
         if(r_type_interval.l.exception())
             return true;
         if(r_type_interval.u.exception())
@@ -1488,8 +1536,15 @@ struct right_shift_result {
             checked::cast<result_base_type>(base_value(std::numeric_limits<U>::max()))
         );
     }
-    constexpr static r_type_interval_t get_r_type_interval(){;
-        return (t_interval() >> u_interval());
+    constexpr static r_type_interval_t get_r_type_interval(){
+        constexpr const r_type_interval_t t = t_interval();
+        constexpr const r_type_interval_t u = valid_shift_counts(u_interval());
+        constexpr const r_type zero(static_cast<result_base_type>(0));
+        // note: a negative value can only be shifted by 0
+        return r_type_interval_t(
+            static_cast<bool>(t.l >= zero) ? t.l >> u.u : t.l,
+            static_cast<bool>(t.u <= zero) ? t.u : t.u >> u.l
+        );
     }
 
     constexpr static const r_type_interval_t r_type_interval = get_r_type_interval();
@@ -1504,19 +1559,10 @@ struct right_shift_result {
     };
 
     constexpr static bool exception_possible(){
-        constexpr const r_type_interval_t ri = r_type_interval;
-        constexpr const r_type_interval_t ti = t_interval();
-        constexpr const r_type_interval_t ui = u_interval();
-        return static_cast<bool>(
-            // note undesirable coupling with checked::shift right here !
-            ui.u >= checked_result<result_base_type>(
-                utility::bits_type<result_base_type>::value
-            )
-            || ti.l < checked_result<result_base_type>(0)
-            || ui.l < checked_result<result_base_type>(0)
-            || ri.l.exception()
-            || ri.u.exception()
-        );
+        return
+            ! valid_shift_operands(t_interval(), u_interval())
+            || r_type_interval.l.exception()
+            || r_type_interval.u.exception();
     }
 
     constexpr static auto rl = return_interval.l;
-- 
2.43.0


From edc5dbce0b9349cf1cda41e58328f679a4615cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:38 +0000
Subject: [PATCH 09/27] fix: declared range of bitwise operations on negative
 operands was wrong

---
 .../safe_numerics/safe_base_operations.hpp    | 82 ++++++++++++-------
 1 file changed, 54 insertions(+), 28 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 15b5de3..88e7785 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1540,7 +1540,7 @@ struct right_shift_result {
         constexpr const r_type_interval_t t = t_interval();
         constexpr const r_type_interval_t u = valid_shift_counts(u_interval());
         constexpr const r_type zero(static_cast<result_base_type>(0));
-        // note: a negative value can only be shifted by 0
+        // note: negative values are not shifted
         return r_type_interval_t(
             static_cast<bool>(t.l >= zero) ? t.l >> u.u : t.l,
             static_cast<bool>(t.u <= zero) ? t.u : t.u >> u.l
@@ -1640,6 +1640,12 @@ constexpr inline operator>>(
 // bitwise operators
 
 // operator |
+// true if an operand of a bitwise operation might be negative
+template<class T>
+constexpr inline bool bitwise_negative_operand(){
+    return base_value(std::numeric_limits<T>::min()) < 0;
+}
+
 template<class T, class U>
 struct bitwise_or_result {
 private:
@@ -1659,15 +1665,20 @@ public:
     // lazy_enable_if_c depends on this
     using type = safe_base<
         result_base_type,
-        //r_interval.l,
-        r_type(0),
-        //r_interval.u,
-        utility::round_out(
-            std::max(
-                static_cast<r_type>(base_value(std::numeric_limits<T>::max())),
-                static_cast<r_type>(base_value(std::numeric_limits<U>::max()))
-            )
-        ),
+        // bits which represent the sign can appear anywhere in the result
+        bitwise_negative_operand<T>() || bitwise_negative_operand<U>()
+            ? std::numeric_limits<result_base_type>::min()
+            : static_cast<result_base_type>(0),
+        bitwise_negative_operand<T>() || bitwise_negative_operand<U>()
+            ? std::numeric_limits<result_base_type>::max()
+            : static_cast<result_base_type>(
+                utility::round_out(
+                    std::max(
+                        static_cast<r_type>(base_value(std::numeric_limits<T>::max())),
+                        static_cast<r_type>(base_value(std::numeric_limits<U>::max()))
+                    )
+                )
+            ),
         promotion_policy,
         exception_policy
     >;
@@ -1719,19 +1730,29 @@ private:
     using r_type_interval_t = interval<r_type>;
     using exception_policy = typename common_exception_policy<T, U>::type;
 
+    constexpr static const r_type t_max
+        = static_cast<r_type>(base_value(std::numeric_limits<T>::max()));
+    constexpr static const r_type u_max
+        = static_cast<r_type>(base_value(std::numeric_limits<U>::max()));
+
 public:
     // lazy_enable_if_c depends on this
     using type = safe_base<
         result_base_type,
-        //r_interval.l,
-        r_type(0),
-        //r_interval.u,
-        utility::round_out(
-            std::min(
-                static_cast<r_type>(base_value(std::numeric_limits<T>::max())),
-                static_cast<r_type>(base_value(std::numeric_limits<U>::max()))
-            )
-        ),
+        // bits which represent the sign can appear anywhere in the result
+        bitwise_negative_operand<T>() && bitwise_negative_operand<U>()
+            ? std::numeric_limits<result_base_type>::min()
+            : static_cast<result_base_type>(0),
+        bitwise_negative_operand<T>() && bitwise_negative_operand<U>()
+            ? std::numeric_limits<result_base_type>::max()
+            : static_cast<result_base_type>(
+                utility::round_out(
+                    // a negative operand can have all the bits of the other one
+                    bitwise_negative_operand<T>() ? u_max
+                    : bitwise_negative_operand<U>() ? t_max
+                    : std::min(t_max, u_max)
+                )
+            ),
         promotion_policy,
         exception_policy
     >;
@@ -1786,15 +1807,20 @@ public:
     // lazy_enable_if_c depends on this
     using type = safe_base<
         result_base_type,
-        //r_interval.l,
-        r_type(0),
-        //r_interval.u,
-        utility::round_out(
-            std::max(
-                static_cast<r_type>(base_value(std::numeric_limits<T>::max())),
-                static_cast<r_type>(base_value(std::numeric_limits<U>::max()))
-            )
-        ),
+        // bits which represent the sign can appear anywhere in the result
+        bitwise_negative_operand<T>() || bitwise_negative_operand<U>()
+            ? std::numeric_limits<result_base_type>::min()
+            : static_cast<result_base_type>(0),
+        bitwise_negative_operand<T>() || bitwise_negative_operand<U>()
+            ? std::numeric_limits<result_base_type>::max()
+            : static_cast<result_base_type>(
+                utility::round_out(
+                    std::max(
+                        static_cast<r_type>(base_value(std::numeric_limits<T>::max())),
+                        static_cast<r_type>(base_value(std::numeric_limits<U>::max()))
+                    )
+                )
+            ),
         promotion_policy,
         exception_policy
     >;
-- 
2.43.0


From a4ffaaced252bb5da1ffaecd53bc7dd55b1b57ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:16 +0000
Subject: [PATCH 10/27] fix: cpp policy named no integer type for mixed signs
 when the signed type cannot hold the unsigned one

---
 include/boost/safe_numerics/cpp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/cpp.hpp b/include/boost/safe_numerics/cpp.hpp
index 077fbfc..8377bb9 100644
--- a/include/boost/safe_numerics/cpp.hpp
+++ b/include/boost/safe_numerics/cpp.hpp
@@ -132,7 +132,7 @@ public:
             // use signed type
             select_signed<T, U>,
         // clause 4 - otherwise use unsigned version of the signed type
-            std::make_signed< select_signed<T, U>>
+            typename std::make_unsigned< select_signed<T, U>>::type
         >::type >::type >::type
     >;
 
-- 
2.43.0


From 473545c29438427ec0d458ad6f368e37d04994c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:17 +0000
Subject: [PATCH 11/27] fix: division truncated a quotient wider than the
 result type

---
 .../safe_numerics/safe_base_operations.hpp    | 24 +++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 88e7785..79d70c6 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -798,10 +798,23 @@ const std::pair<t_type, t_type> r = casting_helper<
             dispatch_and_return<exception_policy, temp_base>
         >::divide(r.first, r.second);
 
+        if(rx.exception())
+            return static_cast<result_base_type>(r.first / r.second);
+
+        // the type used for the calculation can be wider than the result
+        const temp_base x = static_cast<temp_base>(rx);
+        const checked_result<result_base_type> xx = heterogeneous_checked_operation<
+            result_base_type,
+            std::numeric_limits<result_base_type>::min(),
+            std::numeric_limits<result_base_type>::max(),
+            temp_base,
+            dispatch_and_return<exception_policy, result_base_type>
+        >::cast(x);
+
         return
-            rx.exception()
-            ? r.first / r.second
-            : rx;
+            xx.exception()
+            ? static_cast<result_base_type>(x)
+            : xx.m_contents.m_r;
     }
     using r_type_interval_t = interval<t_type>;
 
@@ -867,7 +880,10 @@ const std::pair<t_type, t_type> r = casting_helper<
             || ui.l.exception() || ui.u.exception() ||
             static_cast<bool>(ui.includes(t_type(0)))
             || ri.l.exception()
-            || ri.u.exception();
+            || ri.u.exception()
+            // results which the result type can't hold
+            || ! static_cast<bool>(base_interval.includes(ri.l))
+            || ! static_cast<bool>(base_interval.includes(ri.u));
     }
 
     constexpr static auto rl = return_interval.l;
-- 
2.43.0


From 31d3f2fe31520b9b08997edd279090effb350e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:18 +0000
Subject: [PATCH 12/27] fix: every translation unit had error categories of its
 own so that error codes did not compare equal

---
 include/boost/safe_numerics/exception.hpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/boost/safe_numerics/exception.hpp b/include/boost/safe_numerics/exception.hpp
index 19cda01..8522455 100644
--- a/include/boost/safe_numerics/exception.hpp
+++ b/include/boost/safe_numerics/exception.hpp
@@ -81,7 +81,16 @@ namespace std {
 namespace boost {
 namespace safe_numerics {
 
-const class : public std::error_category {
+// an error category is identified by its address.  So there has to be exactly
+// one instance of each of them no matter how many translation units use it.
+template<class Category>
+struct error_category_instance {
+    static const Category value;
+};
+template<class Category>
+const Category error_category_instance<Category>::value{};
+
+class safe_numerics_error_category_type : public std::error_category {
 public:
     virtual const char* name() const noexcept{
         return "safe numerics error";
@@ -115,7 +124,10 @@ public:
         }
         return ""; // suppress bogus warning
     }
-} safe_numerics_error_category {};
+};
+
+static const safe_numerics_error_category_type & safe_numerics_error_category
+    = error_category_instance<safe_numerics_error_category_type>::value;
 
 // constexpr - damn, can't use constexpr due to std::error_code
 inline std::error_code make_error_code(const safe_numerics_error & e){
@@ -146,7 +158,7 @@ namespace std {
 namespace boost {
 namespace safe_numerics {
 
-const class : public std::error_category {
+class safe_numerics_actions_category_type : public std::error_category {
 public:
     virtual const char* name() const noexcept {
         return "safe numerics error group";
@@ -187,7 +199,10 @@ public:
         // suppress bogus warning
         return false; 
     }
-} safe_numerics_actions_category {};
+};
+
+static const safe_numerics_actions_category_type & safe_numerics_actions_category
+    = error_category_instance<safe_numerics_actions_category_type>::value;
 
 // the following function is used to "finish" implementation of conversion
 // of safe_numerics_error to std::error_condition.  At least for now, this
-- 
2.43.0


From 414bdce9d54d6653d7216ecbc354a9829ba266da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:18 +0000
Subject: [PATCH 13/27] fix: precision_overflow_error was not equivalent to
 arithmetic_error

---
 include/boost/safe_numerics/exception.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/safe_numerics/exception.hpp b/include/boost/safe_numerics/exception.hpp
index 8522455..b1ceebc 100644
--- a/include/boost/safe_numerics/exception.hpp
+++ b/include/boost/safe_numerics/exception.hpp
@@ -184,6 +184,7 @@ public:
                 || code == safe_numerics_error::negative_overflow_error
                 || code == safe_numerics_error::underflow_error
                 || code == safe_numerics_error::range_error
+                || code == safe_numerics_error::precision_overflow_error
                 || code == safe_numerics_error::domain_error;
         case safe_numerics_actions::implementation_defined_behavior:
             return code == safe_numerics_error::negative_value_shift
-- 
2.43.0


From be0273b5666f15adf52150c0d649064f4aa673f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:05 +0000
Subject: [PATCH 14/27] fix: automatic result type could not hold the operands
 so 1003 - 1004 was reported as overflow

---
 include/boost/safe_numerics/automatic.hpp | 54 +++++++++++++++--------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/include/boost/safe_numerics/automatic.hpp b/include/boost/safe_numerics/automatic.hpp
index 94a4cf1..3447868 100644
--- a/include/boost/safe_numerics/automatic.hpp
+++ b/include/boost/safe_numerics/automatic.hpp
@@ -10,6 +10,7 @@
 // policy which creates expanded results types designed
 // to avoid overflows.
 
+#include <algorithm> // min, max
 #include <limits>
 #include <cstdint>     // (u)intmax_t,
 #include <type_traits> // conditional
@@ -49,6 +50,35 @@ private:
         >::type::template type<Min, Max>;
     };
 
+    // the operands are converted to the result type before the operation is
+    // carried out.  So this type has to hold the operands as well as the result
+    template<typename T>
+    constexpr static T lower(
+        const checked_result<T> & r,
+        const checked_result<T> & t,
+        const checked_result<T> & u
+    ){
+        return r.exception() || t.exception() || u.exception()
+            ? std::numeric_limits<T>::min()
+            : (std::min)(
+                static_cast<T>(r),
+                (std::min)(static_cast<T>(t), static_cast<T>(u))
+            );
+    }
+    template<typename T>
+    constexpr static T upper(
+        const checked_result<T> & r,
+        const checked_result<T> & t,
+        const checked_result<T> & u
+    ){
+        return r.exception() || t.exception() || u.exception()
+            ? std::numeric_limits<T>::max()
+            : (std::max)(
+                static_cast<T>(r),
+                (std::max)(static_cast<T>(t), static_cast<T>(u))
+            );
+    }
+
 public:
     ///////////////////////////////////////////////////////////////////////
     template<typename T, typename U>
@@ -83,12 +113,8 @@ public:
 
         using type = typename result_type<
             temp_base_type,
-            rl.exception()
-                ? std::numeric_limits<temp_base_type>::min()
-                : static_cast<temp_base_type>(rl),
-            ru.exception()
-                ? std::numeric_limits<temp_base_type>::max()
-                : static_cast<temp_base_type>(ru)
+            lower(rl, t_interval.l, u_interval.l),
+            upper(ru, t_interval.u, u_interval.u)
         >::type;
     };
 
@@ -118,12 +144,8 @@ public:
 
         using type = typename result_type<
             temp_base_type,
-            rl.exception()
-                ? std::numeric_limits<temp_base_type>::min()
-                : static_cast<temp_base_type>(rl),
-            ru.exception()
-                ? std::numeric_limits<temp_base_type>::max()
-                : static_cast<temp_base_type>(ru)
+            lower(rl, t_interval.l, u_interval.l),
+            upper(ru, t_interval.u, u_interval.u)
         >::type;
     };
 
@@ -160,12 +182,8 @@ public:
 
         using type = typename result_type<
             temp_base_type,
-            rl.exception()
-                ? std::numeric_limits<temp_base_type>::min()
-                : static_cast<temp_base_type>(rl),
-            ru.exception()
-                ? std::numeric_limits<temp_base_type>::max()
-                : static_cast<temp_base_type>(ru)
+            lower(rl, t_interval.l, u_interval.l),
+            upper(ru, t_interval.u, u_interval.u)
         >::type;
     };
 
-- 
2.43.0


From c09aec985e3187131774ba7bc7ea4787e6419511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:35 +0000
Subject: [PATCH 15/27] fix: stream input stored a value before it was
 validated, narrow types used an uninitialised value when reading failed

---
 .../safe_numerics/safe_base_operations.hpp    | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 79d70c6..5793988 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1918,9 +1918,18 @@ inline void safe_base<T, Min, Max, P, E>::input(
     || std::is_same<T, unsigned char>::value
     || std::is_same<T, wchar_t>::value
     ){
-        int x;
+        int x = 0;
         is >> x;
-        m_t = validated_cast(x);
+        if(is.fail()){
+            boost::safe_numerics::dispatch<
+                E,
+                boost::safe_numerics::safe_numerics_error::domain_error
+            >(
+                "error in file input"
+            );
+        }
+        else
+            m_t = validated_cast(x);
     }
     else{
         if(std::is_unsigned<T>::value){
@@ -1936,7 +1945,9 @@ inline void safe_base<T, Min, Max, P, E>::input(
                 is.setstate(std::ios_base::failbit);
             }
         }
-        is >> m_t;
+        // note: m_t can be changed only after the value has been validated
+        T t = m_t;
+        is >> t;
         if(is.fail()){
             boost::safe_numerics::dispatch<
                 E,
@@ -1946,7 +1957,7 @@ inline void safe_base<T, Min, Max, P, E>::input(
             );
         }
         else
-            validated_cast(m_t);
+            m_t = validated_cast(t);
     }
 }
 
-- 
2.43.0


From 5d099d3dc07b8b7724de206cf65d6903a78638df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:38 +0000
Subject: [PATCH 16/27] fix: intersect() reported that disjoint intervals
 intersect

---
 include/boost/safe_numerics/interval.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/interval.hpp b/include/boost/safe_numerics/interval.hpp
index b236ef9..539b60b 100644
--- a/include/boost/safe_numerics/interval.hpp
+++ b/include/boost/safe_numerics/interval.hpp
@@ -204,7 +204,7 @@ constexpr inline interval<T> operator&(const interval<T> & t, const interval<T>
 // determine whether two intervals intersect
 template<typename T>
 constexpr inline boost::logic::tribool intersect(const interval<T> & t, const interval<T> & u){
-    return t.u >= u.l || t.l <= u.u;
+    return t.u >= u.l && t.l <= u.u;
 }
 
 template<typename T>
-- 
2.43.0


From e31d4629fd5af707d719e2d7f8b2b9c82de7f0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:02 +0000
Subject: [PATCH 17/27] fix: checked_operation<R>::equal of the default
 implementation compared with <

---
 include/boost/safe_numerics/checked_default.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/checked_default.hpp b/include/boost/safe_numerics/checked_default.hpp
index d71921e..968b9c6 100644
--- a/include/boost/safe_numerics/checked_default.hpp
+++ b/include/boost/safe_numerics/checked_default.hpp
@@ -99,7 +99,7 @@ struct checked_operation{
     }
     constexpr static boost::logic::tribool
     equal(const R & t, const R & u) noexcept {
-        return t < u;
+        return t == u;
     }
     constexpr static checked_result<R>
     left_shift(const R & t, const R & u) noexcept {
-- 
2.43.0


From ef4832b14f1fd25a09cf2fc31656a9a698ed8d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:02 +0000
Subject: [PATCH 18/27] fix: operator~ of checked_result used a member which
 does not exist

---
 include/boost/safe_numerics/checked_result_operations.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/checked_result_operations.hpp b/include/boost/safe_numerics/checked_result_operations.hpp
index f5b8f9a..f96fdab 100644
--- a/include/boost/safe_numerics/checked_result_operations.hpp
+++ b/include/boost/safe_numerics/checked_result_operations.hpp
@@ -778,7 +778,12 @@ constexpr inline operator~(
     const checked_result<T> & t
 ){
 //    assert(false);
-    return ~t.m_r;
+    return
+        t.exception()
+        ? checked_result<T>(safe_numerics_error::range_error)
+        : checked::bitwise_not<T>(
+            static_cast<T>(t)
+        );
 }
 
 template<class T>
-- 
2.43.0


From 91c59b0f39d8216007b769025c5f28cd0eb2cbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:53 +0000
Subject: [PATCH 19/27] fix: validate an enumeration converted to a safe type

std::numeric_limits isn't specialized for enumerations, so that the range of
the source was taken to be [0, 0] and no check was made at all: a value of an
enumeration outside of the range of the safe type was truncated silently.
Validate the value of the underlying type.
---
 .../boost/safe_numerics/safe_base_operations.hpp    | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 5793988..57b7c90 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -155,7 +155,18 @@ template<class Stored, Stored Min, Stored Max, class P, class E>
 template<class T>
 constexpr inline Stored safe_base<Stored, Min, Max, P, E>::
 validated_cast(const T & t) const {
-    return validate_detail<Stored,Min,Max,E>::return_value(t);
+    // std::numeric_limits is not specialized for enumerations: the range of
+    // values to be validated is the one of the underlying type
+    return validate_detail<Stored,Min,Max,E>::return_value(
+        static_cast<
+            typename boost::mp11::mp_eval_if_c<
+                ! std::is_enum<T>::value,
+                const T &,
+                std::underlying_type_t,
+                T
+            >
+        >(t)
+    );
 }
 
 /////////////////////////////////////////////////////////////////
-- 
2.43.0


From 85871d8a98a5c2390a44e0c3340ae709018191ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:16 +0000
Subject: [PATCH 20/27] fix: automatic >> - the result type must be able to
 hold the left operand

---
 include/boost/safe_numerics/automatic.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/automatic.hpp b/include/boost/safe_numerics/automatic.hpp
index 3447868..61a5118 100644
--- a/include/boost/safe_numerics/automatic.hpp
+++ b/include/boost/safe_numerics/automatic.hpp
@@ -433,7 +433,10 @@ public:
             checked::cast<temp_base_type>(base_value(std::numeric_limits<U>::max()))
         };
 
-        constexpr static const r_interval_type r_interval = t_interval >> u_interval;
+        // note: the left operand has to be held by the result type as well,
+        // as that is the type the operation is carried out in
+        constexpr static const r_interval_type r_interval
+            = (t_interval >> u_interval) | t_interval;
 
         constexpr static auto rl = r_interval.l;
         constexpr static auto ru = r_interval.u;
-- 
2.43.0


From 1b26385b19858977d170bf15115bc50dc1af02fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:22 +0000
Subject: [PATCH 21/27] fix: cpp policy did not know the types of the machine
 which share their size with another type

---
 include/boost/safe_numerics/cpp.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/boost/safe_numerics/cpp.hpp b/include/boost/safe_numerics/cpp.hpp
index 8377bb9..7181317 100644
--- a/include/boost/safe_numerics/cpp.hpp
+++ b/include/boost/safe_numerics/cpp.hpp
@@ -44,22 +44,31 @@ public:
     using local_long_type = typename boost::int_t<LongBits>::exact;
     using local_long_long_type = typename boost::int_t<LongLongBits>::exact;
 
+    // note: types are told apart by their size. On some machines there is more
+    // than one type with the same size (e.g. long and either int or long long).
+    template<class T, class Local>
+    using is_same_size = std::integral_constant<
+        bool,
+        std::numeric_limits<typename std::make_signed<T>::type>::digits
+        == std::numeric_limits<Local>::digits
+    >;
+
     template<class T>
     using rank =
         typename std::conditional<
-            std::is_same<local_char_type, typename std::make_signed<T>::type>::value,
+            is_same_size<T, local_char_type>::value,
             std::integral_constant<int, 1>,
         typename std::conditional<
-            std::is_same<local_short_type, typename std::make_signed<T>::type>::value,
+            is_same_size<T, local_short_type>::value,
             std::integral_constant<int, 2>,
         typename std::conditional<
-            std::is_same<local_int_type, typename std::make_signed<T>::type>::value,
+            is_same_size<T, local_int_type>::value,
             std::integral_constant<int, 3>,
         typename std::conditional<
-            std::is_same<local_long_type, typename std::make_signed<T>::type>::value,
+            is_same_size<T, local_long_type>::value,
             std::integral_constant<int, 4>,
         typename std::conditional<
-            std::is_same<local_long_long_type, typename std::make_signed<T>::type>::value,
+            is_same_size<T, local_long_long_type>::value,
             std::integral_constant<int, 5>,
             std::integral_constant<int, 6> // catch all - never promote integral
         >::type >::type >::type >::type >::type;
-- 
2.43.0


From a75e761845cec09dd6517d8838785805bf400b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:00 +0000
Subject: [PATCH 22/27] fix: shifts under the cpp policy have the type of the
 promoted left operand

---
 include/boost/safe_numerics/cpp.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/safe_numerics/cpp.hpp b/include/boost/safe_numerics/cpp.hpp
index 7181317..ee7549b 100644
--- a/include/boost/safe_numerics/cpp.hpp
+++ b/include/boost/safe_numerics/cpp.hpp
@@ -180,11 +180,13 @@ public:
     };
     template<typename T, typename U>
     struct left_shift_result {
-       using type = result_type<T, U>;
+       // section 5.8 - the type of the promoted left operand
+       using type = integral_promotion<typename base_type<T>::type>;
     };
     template<typename T, typename U>
     struct right_shift_result {
-       using type = result_type<T, U>;
+       // section 5.8 - the type of the promoted left operand
+       using type = integral_promotion<typename base_type<T>::type>;
     };
     template<typename T, typename U>
     struct bitwise_and_result {
-- 
2.43.0


From 480ac1a6c941fb8ad0b1b0473b0a9ec245ebff8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:20 +0000
Subject: [PATCH 23/27] fix: checked_result could not be constructed from
 another checked_result

---
 include/boost/safe_numerics/checked_result.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/boost/safe_numerics/checked_result.hpp b/include/boost/safe_numerics/checked_result.hpp
index c54c2a4..730742a 100644
--- a/include/boost/safe_numerics/checked_result.hpp
+++ b/include/boost/safe_numerics/checked_result.hpp
@@ -57,16 +57,17 @@ struct checked_result {
     // permit construct from another checked result type
     template<typename T>
     constexpr /*explicit*/ checked_result(const checked_result<T> & t) noexcept :
-        m_e(t.m_e)
+        m_e(t.m_e),
+        m_contents(
+            safe_numerics_error::success == t.m_e
+            ? contents(static_cast<R>(t.m_contents.m_r))
+            : contents(t.m_contents.m_msg)
+        )
     {
         static_assert(
             std::is_convertible<T, R>::value,
             "T must be convertible to R"
         );
-        if(safe_numerics_error::success == t.m_e)
-            m_contents.m_r = t.m_r;
-        else
-            m_contents.m_msg = t.m_msg;
     }
 
     constexpr bool exception() const {
-- 
2.43.0


From fd46a108b469c532f4c7469adf06b969f33ecc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:33 +0000
Subject: [PATCH 24/27] fix: native.hpp, checked_default.hpp and
 range_value.hpp did not include what they use

---
 include/boost/safe_numerics/checked_default.hpp | 1 +
 include/boost/safe_numerics/native.hpp          | 2 ++
 include/boost/safe_numerics/range_value.hpp     | 1 +
 3 files changed, 4 insertions(+)

diff --git a/include/boost/safe_numerics/checked_default.hpp b/include/boost/safe_numerics/checked_default.hpp
index 968b9c6..629dabc 100644
--- a/include/boost/safe_numerics/checked_default.hpp
+++ b/include/boost/safe_numerics/checked_default.hpp
@@ -29,6 +29,7 @@
 
 // usage example: checked<int>::add(t, u) ...
 
+#include <limits>
 #include <boost/logic/tribool.hpp>
 #include "checked_result.hpp"
 
diff --git a/include/boost/safe_numerics/native.hpp b/include/boost/safe_numerics/native.hpp
index 147ac82..da8ad92 100644
--- a/include/boost/safe_numerics/native.hpp
+++ b/include/boost/safe_numerics/native.hpp
@@ -10,6 +10,8 @@
 #include <type_traits>
 #include <limits>
 
+#include "safe_common.hpp" // base_type
+
 // policy which creates results types and values equal to that of C++ promotions.
 // When used in conjunction with a desired exception policy, traps errors but
 // does not otherwise alter the results produced by the program using it.
diff --git a/include/boost/safe_numerics/range_value.hpp b/include/boost/safe_numerics/range_value.hpp
index 3c01c76..7cc6b08 100644
--- a/include/boost/safe_numerics/range_value.hpp
+++ b/include/boost/safe_numerics/range_value.hpp
@@ -7,6 +7,7 @@
 // accompanying file LICENSE_1_0.txt or copy at
 // http://www.boost.org/LICENSE_1_0.txt)
 
+#include <ios>  // hex, dec
 #include <iosfwd>
 
 // print range and value to a standard stream
-- 
2.43.0


From 2ee4852bc8161badf588d6e0a48f3090ddb6fe7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:15 +0000
Subject: [PATCH 25/27] fix: output of a checked_result wrote a flag in front
 of the value or message, and unsigned char as a character

---
 .../checked_result_operations.hpp             | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/boost/safe_numerics/checked_result_operations.hpp b/include/boost/safe_numerics/checked_result_operations.hpp
index f96fdab..15a9451 100644
--- a/include/boost/safe_numerics/checked_result_operations.hpp
+++ b/include/boost/safe_numerics/checked_result_operations.hpp
@@ -1132,9 +1132,7 @@ inline std::basic_ostream<CharT, Traits> & operator<<(
     std::basic_ostream<CharT, Traits> & os,
     const boost::safe_numerics::checked_result<R> & r
 ){
-    bool e = r.exception();
-    os << e;
-    if(!e)
+    if(! r.exception())
         os << static_cast<R>(r);
     else
         os << std::error_code(r.m_e).message() << ':' << static_cast<char const *>(r);
@@ -1146,15 +1144,25 @@ inline std::basic_ostream<CharT, Traits> & operator<<(
     std::basic_ostream<CharT, Traits> & os,
     const boost::safe_numerics::checked_result<signed char> & r
 ){
-    bool e = r.exception();
-    os << e;
-    if(! e)
+    if(! r.exception())
         os << static_cast<std::int16_t>(r);
     else
         os << std::error_code(r.m_e).message() << ':' << static_cast<char const *>(r);
     return os;
 }
 
+template<typename CharT, typename Traits>
+inline std::basic_ostream<CharT, Traits> & operator<<(
+    std::basic_ostream<CharT, Traits> & os,
+    const boost::safe_numerics::checked_result<unsigned char> & r
+){
+    if(! r.exception())
+        os << static_cast<std::uint16_t>(r);
+    else
+        os << std::error_code(r.m_e).message() << ':' << static_cast<char const *>(r);
+    return os;
+}
+
 template<typename CharT, typename Traits, typename R>
 inline std::basic_istream<CharT, Traits> & operator>>(
     std::basic_istream<CharT, Traits> & is,
-- 
2.43.0


From 45e4ea91770819d5c00443b09007ee44425db02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:25 +0000
Subject: [PATCH 26/27] fix: exception_policies.hpp did not compile when
 exceptions are not available

---
 include/boost/safe_numerics/exception_policies.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/exception_policies.hpp b/include/boost/safe_numerics/exception_policies.hpp
index 5523a9c..d72b631 100644
--- a/include/boost/safe_numerics/exception_policies.hpp
+++ b/include/boost/safe_numerics/exception_policies.hpp
@@ -77,7 +77,8 @@ struct throw_exception {
         throw std::system_error(std::error_code(e), message);
     }
     #else
-    constexpr trap_exception()(const safe_numerics_error & e, const char * message);
+    // user must provide an implementation
+    void operator()(const safe_numerics_error & e, const char * message);
     #endif
 };
 
-- 
2.43.0


From 69ce6626a9c5870f6b2b169f3d4d04f089c833f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:19 +0000
Subject: [PATCH 27/27] fix: operands which are enumerations took part in
 operations with the range [0,0]

---
 .../safe_numerics/safe_base_operations.hpp    | 54 +++++++++++--------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 57b7c90..08f1c19 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -371,6 +371,16 @@ constexpr inline static std::pair<R, R> casting_helper(const T & t, const U & u)
     return std::pair<R, R>(tr, ur);
 }
 
+// helper - std::numeric_limits is not specialized for enumerations: an operand
+// which is one takes part in an operation as a value of its underlying type.
+template<class T>
+using operand_type = boost::mp11::mp_eval_if_c<
+    ! std::is_enum<T>::value,
+    T,
+    std::underlying_type_t,
+    T
+>;
+
 // Note: the following global operators will be found via
 // argument dependent lookup.
 namespace {
@@ -492,10 +502,10 @@ template<class T, class U> using addition_operator
 template<class T, class U>
 typename boost::lazy_enable_if_c<
     legal_overload<addition_operator, T, U>::value,
-    addition_result<T, U>
+    addition_result<operand_type<T>, operand_type<U>>
 >::type
 constexpr inline operator+(const T & t, const U & u){
-    return addition_result<T, U>::return_value(t, u);
+    return addition_result<operand_type<T>, operand_type<U>>::return_value(t, u);
 }
 
 template<class T, class U>
@@ -615,10 +625,10 @@ template<class T, class U> using subtraction_operator
 template<class T, class U>
 typename boost::lazy_enable_if_c<
     legal_overload<subtraction_operator, T, U>::value,
-    subtraction_result<T, U>
+    subtraction_result<operand_type<T>, operand_type<U>>
 >::type
 constexpr inline operator-(const T & t, const U & u){
-    return subtraction_result<T, U>::return_value(t, u);
+    return subtraction_result<operand_type<T>, operand_type<U>>::return_value(t, u);
 }
 
 template<class T, class U>
@@ -740,10 +750,10 @@ template<class T, class U> using multiplication_operator
 template<class T, class U>
 typename boost::lazy_enable_if_c<
     legal_overload<multiplication_operator, T, U>::value,
-    multiplication_result<T, U>
+    multiplication_result<operand_type<T>, operand_type<U>>
 >::type
 constexpr inline operator*(const T & t, const U & u){
-    return multiplication_result<T, U>::return_value(t, u);
+    return multiplication_result<operand_type<T>, operand_type<U>>::return_value(t, u);
 }
 
 template<class T, class U>
@@ -928,10 +938,10 @@ template<class T, class U> using division_operator
 template<class T, class U>
 typename boost::lazy_enable_if_c<
     legal_overload<division_operator, T, U>::value,
-    division_result<T, U>
+    division_result<operand_type<T>, operand_type<U>>
 >::type
 constexpr inline operator/(const T & t, const U & u){
-    return division_result<T, U>::return_value(t, u);
+    return division_result<operand_type<T>, operand_type<U>>::return_value(t, u);
 }
 
 template<class T, class U>
@@ -1088,11 +1098,11 @@ template<class T, class U> using modulus_operator
 template<class T, class U>
 typename boost::lazy_enable_if_c<
     legal_overload<modulus_operator, T, U>::value,
-    modulus_result<T, U>
+    modulus_result<operand_type<T>, operand_type<U>>
 >::type
 constexpr inline operator%(const T & t, const U & u){
     // see https://en.wikipedia.org/wiki/Modulo_operation
-    return modulus_result<T, U>::return_value(t, u);
+    return modulus_result<operand_type<T>, operand_type<U>>::return_value(t, u);
 }
 
 template<class T, class U>
@@ -1190,7 +1200,7 @@ typename std::enable_if<
     bool
 >::type
 constexpr inline operator<(const T & lhs, const U & rhs) {
-    return less_than_result<T, U>::return_value(lhs, rhs);
+    return less_than_result<operand_type<T>, operand_type<U>>::return_value(lhs, rhs);
 }
 
 template<class T, class U>
@@ -1297,7 +1307,7 @@ typename std::enable_if<
     bool
 >::type
 constexpr inline operator==(const T & lhs, const U & rhs) {
-    return equal_result<T, U>::return_value(lhs, rhs);
+    return equal_result<operand_type<T>, operand_type<U>>::return_value(lhs, rhs);
 }
 
 template<class T, class U>
@@ -1471,12 +1481,12 @@ typename boost::lazy_enable_if_c<
     // exclude usage of << for file input here
     boost::safe_numerics::Numeric<T>()
     && legal_overload<left_shift_operator, T, U>::value,
-    left_shift_result<T, U>
+    left_shift_result<operand_type<T>, operand_type<U>>
 >::type
 constexpr inline operator<<(const T & t, const U & u){
     // INT13-CPP
     // C++ standards document N4618 & 5.8.2
-    return left_shift_result<T, U>::return_value(t, u);
+    return left_shift_result<operand_type<T>, operand_type<U>>::return_value(t, u);
 }
 
 template<class T, class U>
@@ -1625,12 +1635,12 @@ typename boost::lazy_enable_if_c<
     // exclude usage of >> for file input here
     boost::safe_numerics::Numeric<T>()
     && legal_overload<right_shift_operator, T, U>::value,
-    right_shift_result<T, U>
+    right_shift_result<operand_type<T>, operand_type<U>>
 >::type
 constexpr inline operator>>(const T & t, const U & u){
     // INT13-CPP
     // C++ standards document N4618 & 5.8.2
-    return right_shift_result<T, U>::return_value(t, u);
+    return right_shift_result<operand_type<T>, operand_type<U>>::return_value(t, u);
 }
 
 template<class T, class U>
@@ -1725,10 +1735,10 @@ template<class T, class U> using bitwise_or_operator
 template<class T, class U>
 typename boost::lazy_enable_if_c<
     legal_overload<bitwise_or_operator, T, U>::value,
-    bitwise_or_result<T, U>
+    bitwise_or_result<operand_type<T>, operand_type<U>>
 >::type
 constexpr inline operator|(const T & t, const U & u){
-    return bitwise_or_result<T, U>::return_value(t, u);
+    return bitwise_or_result<operand_type<T>, operand_type<U>>::return_value(t, u);
 }
 
 template<class T, class U>
@@ -1799,10 +1809,10 @@ template<class T, class U> using bitwise_and_operator
 template<class T, class U>
 typename boost::lazy_enable_if_c<
     legal_overload<bitwise_and_operator, T, U>::value,
-    bitwise_and_result<T, U>
+    bitwise_and_result<operand_type<T>, operand_type<U>>
 >::type
 constexpr inline operator&(const T & t, const U & u){
-    return bitwise_and_result<T, U>::return_value(t, u);
+    return bitwise_and_result<operand_type<T>, operand_type<U>>::return_value(t, u);
 }
 
 template<class T, class U>
@@ -1867,10 +1877,10 @@ template<class T, class U> using bitwise_xor_operator
 template<class T, class U>
 typename boost::lazy_enable_if_c<
     legal_overload<bitwise_xor_operator, T, U>::value,
-    bitwise_xor_result<T, U>
+    bitwise_xor_result<operand_type<T>, operand_type<U>>
 >::type
 constexpr inline operator^(const T & t, const U & u){
-    return bitwise_xor_result<T, U>::return_value(t, u);
+    return bitwise_xor_result<operand_type<T>, operand_type<U>>::return_value(t, u);
 }
 
 template<class T, class U>
-- 
2.43.0

