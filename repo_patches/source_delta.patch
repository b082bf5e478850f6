From c36aeced43f7f3e004fd4039767d3cdf7d3ac9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:19 +0000
Subject: [PATCH 01/31] fix: right shift of an unsigned value by exactly its
 width is reported instead of executed

---
 include/boost/safe_numerics/checked_integer.hpp      | 2 +-
 include/boost/safe_numerics/safe_base_operations.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/safe_numerics/checked_integer.hpp b/include/boost/safe_numerics/checked_integer.hpp
index 2893ca7..882f2d6 100644
--- a/include/boost/safe_numerics/checked_integer.hpp
+++ b/include/boost/safe_numerics/checked_integer.hpp
@@ -740,7 +740,7 @@ struct checked_operation<R, F,
                "shifting negative amount"
             );
         }
-        if(u > std::numeric_limits<R>::digits){
+        if(safe_compare::greater_than_equal(u, utility::bits_type<R>::value)){
             // behavior is undefined
             return F::template invoke<safe_numerics_error::shift_too_large>(
                "shifting more bits than available"
diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 985de91..27d68c6 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1494,7 +1494,7 @@ struct right_shift_result {
         return static_cast<bool>(
             // note undesirable coupling with checked::shift right here !
             ui.u > checked_result<result_base_type>(
-                std::numeric_limits<result_base_type>::digits
+                utility::bits_type<result_base_type>::value - 1
             )
             || ti.l < checked_result<result_base_type>(0)
             || ui.l < checked_result<result_base_type>(0)
-- 
2.43.0


From f0a63ed268882f4c59aaa9a2bbed8d3a8a37b3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:55 +0000
Subject: [PATCH 02/31] fix: remainder of the lowest value by itself is zero

---
 include/boost/safe_numerics/checked_integer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/safe_numerics/checked_integer.hpp b/include/boost/safe_numerics/checked_integer.hpp
index 882f2d6..e848422 100644
--- a/include/boost/safe_numerics/checked_integer.hpp
+++ b/include/boost/safe_numerics/checked_integer.hpp
@@ -549,8 +549,8 @@ struct checked_operation<R, F,
             if(u >= 0)
                 return t % u;
             checked_result<R> ux = checked::minus(u);
-            if(ux.exception())
-                return t;
+            if(ux.exception()) // u is the lowest value of R
+                return t == u ? R(0) : t;
             return t % static_cast<R>(ux);
         }
     }; // modulus_impl_detail
-- 
2.43.0


From e520ff406d185570763a8dc985e7f151e9c12224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:55 +0000
Subject: [PATCH 03/31] fix: modulus result ranges include every remainder and
 lowest % -1 does not trap

---
 include/boost/safe_numerics/automatic.hpp     | 20 +---
 include/boost/safe_numerics/interval.hpp      | 21 +++--
 .../safe_numerics/safe_base_operations.hpp    | 91 ++++++++-----------
 3 files changed, 50 insertions(+), 82 deletions(-)

diff --git a/include/boost/safe_numerics/automatic.hpp b/include/boost/safe_numerics/automatic.hpp
index 16cebc2..563c92d 100644
--- a/include/boost/safe_numerics/automatic.hpp
+++ b/include/boost/safe_numerics/automatic.hpp
@@ -255,25 +255,7 @@ public:
             checked::cast<temp_base_type>(base_value(std::numeric_limits<U>::max()))
         };
 
-        constexpr static r_interval_type rx(){
-            if(u_interval.u < r_type(0)
-            || u_interval.l > r_type(0))
-                return t_interval / u_interval;
-            return utility::minmax(
-                std::initializer_list<r_type> {
-                    t_interval.l % u_interval.l,
-                    t_interval.l % r_type(-1),
-                    t_interval.l % r_type(1),
-                    t_interval.l % u_interval.u,
-                    t_interval.u % u_interval.l,
-                    t_interval.u % r_type(-1),
-                    t_interval.u % r_type(1),
-                    t_interval.u % u_interval.u,
-                }
-            );
-        }
-
-        constexpr static const r_interval_type r_interval = rx();
+        constexpr static const r_interval_type r_interval = t_interval % u_interval;
 
         constexpr static auto rl = r_interval.l;
         constexpr static auto ru = r_interval.u;
diff --git a/include/boost/safe_numerics/interval.hpp b/include/boost/safe_numerics/interval.hpp
index c8a147e..2d2bb24 100644
--- a/include/boost/safe_numerics/interval.hpp
+++ b/include/boost/safe_numerics/interval.hpp
@@ -139,18 +139,19 @@ constexpr inline interval<T> operator/(const interval<T> & t, const interval<T>
 }
 
 // modulus of two intervals.  This will give a new range of for the modulus.
-// note: presumes 0 is not included in the range of the denominator
+// note: zero is not a valid denominator.  So it doesn't contribute to the result
 template<typename T>
 constexpr inline interval<T> operator%(const interval<T> & t, const interval<T> & u){
-    assert(static_cast<bool>(u.excludes(T(0))));
-    return utility::minmax<T>(
-        std::initializer_list<T> {
-            t.l % u.l,
-            t.l % u.u,
-            t.u % u.l,
-            t.u % u.u
-        }
-    );
+    // The result has the sign of the dividend.  Its magnitude is not larger
+    // than that of the dividend and it is smaller than that of the divisor.
+    const T zero = T(0);
+    const T n = u.l < zero ? zero - (u.l + T(1)) : zero;
+    const T p = u.u > zero ? u.u - T(1) : zero;
+    const T rmax = n < p ? p : n;
+    const T rmin = t.l < zero ? zero - rmax : zero;
+    const T l = t.l < zero ? t.l < rmin ? rmin : t.l : zero;
+    const T r = t.u > zero ? t.u < rmax ? t.u : rmax : zero;
+    return interval<T>(l, r);
 }
 
 template<typename T>
diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 27d68c6..e4d4afb 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -910,15 +910,6 @@ private:
     using promotion_policy = typename common_promotion_policy<T, U>::type;
     using result_base_type = typename promotion_policy::template modulus_result<T, U>::type;
 
-    // if exception not possible
-    constexpr static result_base_type
-    return_value(const T & t, const U & u, std::false_type){
-        return
-            static_cast<result_base_type>(base_value(t))
-            % static_cast<result_base_type>(base_value(u));
-    }
-
-    // if exception possible
     using exception_policy = typename common_exception_policy<T, U>::type;
 
     constexpr static const int bits = std::min(
@@ -930,17 +921,29 @@ private:
         }) + (std::numeric_limits<result_base_type>::is_signed ? 1 : 0)
     );
 
-    using r_type = checked_result<result_base_type>;
+    // note: the operands might not fit in the type of the result.
+    using temp_base = typename std::conditional<
+        std::numeric_limits<result_base_type>::is_signed,
+        typename boost::int_t<bits>::least,
+        typename boost::uint_t<bits>::least
+    >::type;
 
+    using t_type = checked_result<temp_base>;
+
+    // if exception not possible
+    constexpr static result_base_type
+    return_value(const T & t, const U & u, std::false_type){
+        // lowest value % -1 would trap on some machines so don't use %
+        const t_type rx = checked::modulus<temp_base>(
+            static_cast<temp_base>(base_value(t)),
+            static_cast<temp_base>(base_value(u))
+        );
+        return static_cast<result_base_type>(rx.m_contents.m_r);
+    }
+
+    // if exception possible
     constexpr static result_base_type
     return_value(const T & t, const U & u, std::true_type){
-        using temp_base = typename std::conditional<
-            std::numeric_limits<result_base_type>::is_signed,
-            typename boost::int_t<bits>::least,
-            typename boost::uint_t<bits>::least
-        >::type;
-        using t_type = checked_result<temp_base>;
-        
         const std::pair<t_type, t_type> r = casting_helper<
             exception_policy,
             temp_base
@@ -957,44 +960,24 @@ private:
             : rx;
     }
 
-    using r_type_interval_t = interval<r_type>;
+    using t_type_interval_t = interval<t_type>;
 
-    constexpr static const r_type_interval_t t_interval(){
-        return r_type_interval_t{
-            checked::cast<result_base_type>(base_value(std::numeric_limits<T>::min())),
-            checked::cast<result_base_type>(base_value(std::numeric_limits<T>::max()))
+    constexpr static const t_type_interval_t t_interval(){
+        return t_type_interval_t{
+            checked::cast<temp_base>(base_value(std::numeric_limits<T>::min())),
+            checked::cast<temp_base>(base_value(std::numeric_limits<T>::max()))
         };
     };
 
-    constexpr static const r_type_interval_t u_interval(){
-        return r_type_interval_t{
-            checked::cast<result_base_type>(base_value(std::numeric_limits<U>::min())),
-            checked::cast<result_base_type>(base_value(std::numeric_limits<U>::max()))
+    constexpr static const t_type_interval_t u_interval(){
+        return t_type_interval_t{
+            checked::cast<temp_base>(base_value(std::numeric_limits<U>::min())),
+            checked::cast<temp_base>(base_value(std::numeric_limits<U>::max()))
         };
     };
 
-    constexpr static const r_type_interval_t get_r_type_interval(){
-        constexpr const r_type_interval_t t = t_interval();
-        constexpr const r_type_interval_t u = u_interval();
-
-        if(u.u < r_type(0)
-        || u.l > r_type(0))
-            return t % u;
-        return utility::minmax(
-            std::initializer_list<r_type> {
-                t.l % u.l,
-                t.l % r_type(-1),
-                t.l % r_type(1),
-                t.l % u.u,
-                t.u % u.l,
-                t.u % r_type(-1),
-                t.u % r_type(1),
-                t.u % u.u,
-            }
-        );
-    }
-
-    constexpr static const r_type_interval_t r_type_interval = get_r_type_interval();
+    constexpr static const t_type_interval_t r_type_interval
+        = t_interval() % u_interval();
 
     constexpr static const interval<result_base_type> return_interval{
         r_type_interval.l.exception()
@@ -1006,12 +989,14 @@ private:
     };
 
     constexpr static bool exception_possible(){
-        constexpr const r_type_interval_t ri = get_r_type_interval();
-        constexpr const r_type_interval_t ui = u_interval();
+        constexpr const t_type_interval_t ti = t_interval();
+        constexpr const t_type_interval_t ui = u_interval();
         return
-            static_cast<bool>(ui.includes(r_type(0)))
-            || ri.l.exception()
-            || ri.u.exception();
+            static_cast<bool>(ui.includes(t_type(0)))
+            || ti.l.exception()
+            || ti.u.exception()
+            || ui.l.exception()
+            || ui.u.exception();
     }
 
     constexpr static auto rl = return_interval.l;
-- 
2.43.0


From 909b582884d0b5409c3ab1db960816a6c7bbc815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:10 +0000
Subject: [PATCH 04/31] fix: an unsigned value below the target range is
 reported as negative overflow

---
 include/boost/safe_numerics/checked_integer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/safe_numerics/checked_integer.hpp b/include/boost/safe_numerics/checked_integer.hpp
index e848422..bca3a0e 100644
--- a/include/boost/safe_numerics/checked_integer.hpp
+++ b/include/boost/safe_numerics/checked_integer.hpp
@@ -91,7 +91,7 @@ struct heterogeneous_checked_operation<
                 )
             :
             boost::safe_numerics::safe_compare::less_than(t, Min) ?
-                F::template invoke<safe_numerics_error::positive_overflow_error>(
+                F::template invoke<safe_numerics_error::negative_overflow_error>(
                     "converted unsigned value too small"
                 )
             :
@@ -113,7 +113,7 @@ struct heterogeneous_checked_operation<
                 )
             :
             boost::safe_numerics::safe_compare::less_than(t, Min) ?
-                F::template invoke<safe_numerics_error::positive_overflow_error>(
+                F::template invoke<safe_numerics_error::negative_overflow_error>(
                     "converted unsigned value too small"
                 )
             :
-- 
2.43.0


From 87d2eb4203d83f754664bd8b49da167ef517fd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:10 +0000
Subject: [PATCH 05/31] fix: ignored subtraction error yields the difference
 instead of the sum

---
 include/boost/safe_numerics/safe_base_operations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index e4d4afb..8d62925 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -530,7 +530,7 @@ private:
 
         return
             rx.exception()
-            ? r.first + r.second
+            ? r.first - r.second
             : rx.m_contents.m_r;
     }
     using r_type_interval_t = interval<r_type>;
-- 
2.43.0


From c8fb73e3f4291d61ccb4a86a5b4cd1b030b8a83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:10 +0000
Subject: [PATCH 06/31] fix: intersect is false for disjoint intervals

---
 include/boost/safe_numerics/interval.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/interval.hpp b/include/boost/safe_numerics/interval.hpp
index 2d2bb24..4559c9e 100644
--- a/include/boost/safe_numerics/interval.hpp
+++ b/include/boost/safe_numerics/interval.hpp
@@ -199,7 +199,7 @@ constexpr inline interval<T> operator&(const interval<T> & t, const interval<T>
 // determine whether two intervals intersect
 template<typename T>
 constexpr inline boost::logic::tribool intersect(const interval<T> & t, const interval<T> & u){
-    return t.u >= u.l || t.l <= u.u;
+    return t.u >= u.l && t.l <= u.u;
 }
 
 template<typename T>
-- 
2.43.0


From c414f0636522c7fbb3f700cc882a266e05fbc504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:10 +0000
Subject: [PATCH 07/31] fix: precision overflow is an arithmetic error

---
 include/boost/safe_numerics/exception.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/safe_numerics/exception.hpp b/include/boost/safe_numerics/exception.hpp
index 19cda01..82b03f1 100644
--- a/include/boost/safe_numerics/exception.hpp
+++ b/include/boost/safe_numerics/exception.hpp
@@ -172,6 +172,7 @@ public:
                 || code == safe_numerics_error::negative_overflow_error
                 || code == safe_numerics_error::underflow_error
                 || code == safe_numerics_error::range_error
+                || code == safe_numerics_error::precision_overflow_error
                 || code == safe_numerics_error::domain_error;
         case safe_numerics_actions::implementation_defined_behavior:
             return code == safe_numerics_error::negative_value_shift
-- 
2.43.0


From b8a25923c52d3d15fd13ef8d95ef645d4a677f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:05 +0000
Subject: [PATCH 08/31] fix: automatic result type holds the operands as well
 as the result

The operands are converted to the result type before the operation is
executed, so a result type chosen from the result's range alone made e.g.
safe_signed_range<100, 300> - safe_signed_range<100, 300> report an error.
---
 include/boost/safe_numerics/automatic.hpp | 25 ++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/include/boost/safe_numerics/automatic.hpp b/include/boost/safe_numerics/automatic.hpp
index 563c92d..d0aaa8d 100644
--- a/include/boost/safe_numerics/automatic.hpp
+++ b/include/boost/safe_numerics/automatic.hpp
@@ -49,6 +49,22 @@ private:
         >::type::template type<Min, Max>;
     };
 
+    // The operands are converted to the type of the result before the operation
+    // is executed.  So extend the interval of results to include the operands.
+    template<typename R>
+    constexpr static interval<R> include_operands(
+        const interval<R> & r,
+        const interval<R> & t,
+        const interval<R> & u
+    ){
+        const R & l = static_cast<bool>(t.l < u.l) ? t.l : u.l;
+        const R & h = static_cast<bool>(t.u < u.u) ? u.u : t.u;
+        return interval<R>(
+            static_cast<bool>(l < r.l) ? l : r.l,
+            static_cast<bool>(r.u < h) ? h : r.u
+        );
+    }
+
 public:
     ///////////////////////////////////////////////////////////////////////
     template<typename T, typename U>
@@ -76,7 +92,8 @@ public:
             checked::cast<temp_base_type>(base_value(std::numeric_limits<U>::max()))
         };
 
-        constexpr static const r_interval_type r_interval = t_interval + u_interval;
+        constexpr static const r_interval_type r_interval =
+            include_operands(t_interval + u_interval, t_interval, u_interval);
 
         constexpr static auto rl = r_interval.l;
         constexpr static auto ru = r_interval.u;
@@ -111,7 +128,8 @@ public:
             checked::cast<temp_base_type>(base_value(std::numeric_limits<U>::max()))
         };
 
-        constexpr static const r_interval_type r_interval = t_interval - u_interval;
+        constexpr static const r_interval_type r_interval =
+            include_operands(t_interval - u_interval, t_interval, u_interval);
 
         constexpr static auto rl = r_interval.l;
         constexpr static auto ru = r_interval.u;
@@ -153,7 +171,8 @@ public:
             checked::cast<temp_base_type>(base_value(std::numeric_limits<U>::max()))
         };
 
-        constexpr static const r_interval_type r_interval = t_interval * u_interval;
+        constexpr static const r_interval_type r_interval =
+            include_operands(t_interval * u_interval, t_interval, u_interval);
 
         constexpr static const auto rl = r_interval.l;
         constexpr static const auto ru = r_interval.u;
-- 
2.43.0


From d9d071f23bfca2848d4870ca273a2dab47ffdaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:05 +0000
Subject: [PATCH 09/31] fix: division converts its operands to a type which can
 hold them

The operands were converted to the result type even when they did not fit,
so automatic division truncated the divisor (wrong quotient, or SIGFPE when
it was truncated to zero).
---
 .../safe_numerics/safe_base_operations.hpp    | 84 ++++++++++---------
 1 file changed, 45 insertions(+), 39 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 8d62925..230d8ed 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -752,15 +752,6 @@ private:
     using result_base_type =
         typename promotion_policy::template division_result<T, U>::type;
 
-    // if exception not possible
-    constexpr static result_base_type
-    return_value(const T & t, const U & u, std::false_type){
-        return
-            static_cast<result_base_type>(base_value(t))
-            / static_cast<result_base_type>(base_value(u));
-    }
-
-    // if exception possible
     using exception_policy = typename common_exception_policy<T, U>::type;
 
     constexpr static const int bits = std::min(
@@ -772,17 +763,27 @@ private:
         }) + (std::numeric_limits<result_base_type>::is_signed ? 1 : 0)
     );
 
-    using r_type = checked_result<result_base_type>;
+    // note: the operands might not fit in the type of the result.
+    using temp_base = typename std::conditional<
+        std::numeric_limits<result_base_type>::is_signed,
+        typename boost::int_t<bits>::least,
+        typename boost::uint_t<bits>::least
+    >::type;
 
+    using t_type = checked_result<temp_base>;
+
+    // if exception not possible
     constexpr static result_base_type
-    return_value(const T & t, const U & u, std::true_type){
-        using temp_base = typename std::conditional<
-            std::numeric_limits<result_base_type>::is_signed,
-            typename boost::int_t<bits>::least,
-            typename boost::uint_t<bits>::least
-        >::type;
-        using t_type = checked_result<temp_base>;
+    return_value(const T & t, const U & u, std::false_type){
+        return static_cast<result_base_type>(
+            static_cast<temp_base>(base_value(t))
+            / static_cast<temp_base>(base_value(u))
+        );
+    }
 
+    // if exception possible
+    constexpr static result_base_type
+    return_value(const T & t, const U & u, std::true_type){
         const std::pair<t_type, t_type> r = casting_helper<
             exception_policy,
             temp_base
@@ -798,43 +799,43 @@ private:
             ? r.first / r.second
             : rx;
     }
-    using r_type_interval_t = interval<r_type>;
+    using t_type_interval_t = interval<t_type>;
 
-    constexpr static r_type_interval_t t_interval(){
-        return r_type_interval_t{
-            checked::cast<result_base_type>(base_value(std::numeric_limits<T>::min())),
-            checked::cast<result_base_type>(base_value(std::numeric_limits<T>::max()))
+    constexpr static t_type_interval_t t_interval(){
+        return t_type_interval_t{
+            checked::cast<temp_base>(base_value(std::numeric_limits<T>::min())),
+            checked::cast<temp_base>(base_value(std::numeric_limits<T>::max()))
         };
     };
 
-    constexpr static r_type_interval_t u_interval(){
-        return r_type_interval_t{
-            checked::cast<result_base_type>(base_value(std::numeric_limits<U>::min())),
-            checked::cast<result_base_type>(base_value(std::numeric_limits<U>::max()))
+    constexpr static t_type_interval_t u_interval(){
+        return t_type_interval_t{
+            checked::cast<temp_base>(base_value(std::numeric_limits<U>::min())),
+            checked::cast<temp_base>(base_value(std::numeric_limits<U>::max()))
         };
     };
 
-    constexpr static r_type_interval_t get_r_type_interval(){
-        constexpr const r_type_interval_t t = t_interval();
-        constexpr const r_type_interval_t u = u_interval();
+    constexpr static t_type_interval_t get_r_type_interval(){
+        constexpr const t_type_interval_t t = t_interval();
+        constexpr const t_type_interval_t u = u_interval();
 
-        if(u.u < r_type(0) || u.l > r_type(0))
+        if(u.u < t_type(0) || u.l > t_type(0))
             return t / u;
         return utility::minmax(
-            std::initializer_list<r_type> {
+            std::initializer_list<t_type> {
                 t.l / u.l,
-                t.l / r_type(-1),
-                t.l / r_type(1),
+                t.l / t_type(-1),
+                t.l / t_type(1),
                 t.l / u.u,
                 t.u / u.l,
-                t.u / r_type(-1),
-                t.u / r_type(1),
+                t.u / t_type(-1),
+                t.u / t_type(1),
                 t.u / u.u,
             }
         );
     }
 
-    constexpr static const r_type_interval_t r_type_interval = get_r_type_interval();
+    constexpr static const t_type_interval_t r_type_interval = get_r_type_interval();
 
     constexpr static const interval<result_base_type> return_interval{
         r_type_interval.l.exception()
@@ -846,10 +847,15 @@ private:
     };
 
     constexpr static bool exception_possible(){
-        constexpr const r_type_interval_t ri = get_r_type_interval();
-        constexpr const r_type_interval_t ui = u_interval();
+        constexpr const t_type_interval_t ri = get_r_type_interval();
+        constexpr const t_type_interval_t ti = t_interval();
+        constexpr const t_type_interval_t ui = u_interval();
         return
-            static_cast<bool>(ui.includes(r_type(0)))
+            static_cast<bool>(ui.includes(t_type(0)))
+            || ti.l.exception()
+            || ti.u.exception()
+            || ui.l.exception()
+            || ui.u.exception()
             || ri.l.exception()
             || ri.u.exception();
     }
-- 
2.43.0


From 726e15fe78f8612a8b7e614ca466f6128769ef47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:21 +0000
Subject: [PATCH 10/31] fix: shift counts which might be negative

The declared range of a right shift ignored a result bound it could not
compute, so unsigned >> signed claimed (and stored) a range of [0, 0].
Left and right shifts whose operands might be negative skipped the check
for negative operands when the range of the result fit the result type.
---
 .../safe_numerics/safe_base_operations.hpp    | 41 +++++++++++++++----
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 230d8ed..595c1b9 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1304,17 +1304,22 @@ private:
 
     using r_type_interval_t = interval<r_type>;
 
-    constexpr static r_type_interval_t get_r_type_interval(){
-        constexpr const r_type_interval_t t_interval{
+    constexpr static r_type_interval_t t_interval(){
+        return r_type_interval_t(
             checked::cast<result_base_type>(base_value(std::numeric_limits<T>::min())),
             checked::cast<result_base_type>(base_value(std::numeric_limits<T>::max()))
-        };
+        );
+    }
 
-        constexpr const r_type_interval_t u_interval{
+    constexpr static r_type_interval_t u_interval(){
+        return r_type_interval_t(
             checked::cast<result_base_type>(base_value(std::numeric_limits<U>::min())),
             checked::cast<result_base_type>(base_value(std::numeric_limits<U>::max()))
-        };
-        return (t_interval << u_interval);
+        );
+    }
+
+    constexpr static r_type_interval_t get_r_type_interval(){
+        return (t_interval() << u_interval());
     }
 
     constexpr static const r_type_interval_t r_type_interval = get_r_type_interval();
@@ -1329,6 +1334,18 @@ private:
     };
 
     constexpr static bool exception_possible(){
+        constexpr const r_type_interval_t ti = t_interval();
+        constexpr const r_type_interval_t ui = u_interval();
+        // shifting a negative value or by a negative amount is an error
+        if(ti.l.exception() || static_cast<bool>(ti.l < r_type(0)))
+            return true;
+        if(ui.l.exception() || static_cast<bool>(ui.l < r_type(0)))
+            return true;
+        // note undesirable coupling with checked::shift right here !
+        if(ui.u.exception() || static_cast<bool>(
+            ui.u > r_type(std::numeric_limits<result_base_type>::digits - 1)
+        ))
+            return true;
         if(r_type_interval.l.exception())
             return true;
         if(r_type_interval.u.exception())
@@ -1463,8 +1480,14 @@ struct right_shift_result {
             checked::cast<result_base_type>(base_value(std::numeric_limits<U>::max()))
         );
     }
-    constexpr static r_type_interval_t get_r_type_interval(){;
-        return (t_interval() >> u_interval());
+    constexpr static r_type_interval_t get_r_type_interval(){
+        constexpr const r_type_interval_t u = u_interval();
+        // note: a shift count which cannot be converted to the type of the
+        // result is an error so it doesn't contribute to the result
+        return t_interval() >> r_type_interval_t(
+            u.l.exception() ? checked_result<result_base_type>(0) : u.l,
+            u.u
+        );
     }
 
     constexpr static const r_type_interval_t r_type_interval = get_r_type_interval();
@@ -1487,6 +1510,8 @@ struct right_shift_result {
             ui.u > checked_result<result_base_type>(
                 utility::bits_type<result_base_type>::value - 1
             )
+            || ti.l.exception()
+            || ui.l.exception()
             || ti.l < checked_result<result_base_type>(0)
             || ui.l < checked_result<result_base_type>(0)
             || ri.l.exception()
-- 
2.43.0


From 61273a7c0dfa33cf2a09422ae186ded733d38c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:21 +0000
Subject: [PATCH 11/31] fix: range of bitwise results accounts for negative
 operands

The result of |, & and ^ was declared to be non-negative even when the
operands might be negative, so e.g. safe<int>(-1) | 1 was out of its range.
---
 .../safe_numerics/safe_base_operations.hpp    | 137 ++++++++++++------
 1 file changed, 95 insertions(+), 42 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 595c1b9..d4a3e61 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1593,6 +1593,49 @@ constexpr inline operator>>(
 /////////////////////////////////////////////////////////////////
 // bitwise operators
 
+// according to the C++ standard, the bitwise operators are executed as if
+// the operands are consider a logical array of bits.  So the range of the
+// result depends upon which bits might be set in each of the operands once
+// they have been converted to the type of the result.
+
+template<class R, class T>
+struct bitwise_operand {
+    using r_type = typename std::make_unsigned<R>::type;
+    using t_type = typename base_type<T>::type;
+
+    constexpr static bool is_negative(const t_type & t, std::true_type){
+        return t < 0;
+    }
+    constexpr static bool is_negative(const t_type &, std::false_type){
+        return false;
+    }
+    // true if the operand might be negative
+    constexpr static const bool negative = is_negative(
+        base_value(std::numeric_limits<T>::min()),
+        std::is_signed<t_type>()
+    );
+    // value not less than any value of the converted operand.  For a negative
+    // operand and a signed result consider the bits which aren't sign bits.
+    constexpr static r_type max(){
+        return ! negative
+            ? static_cast<r_type>(base_value(std::numeric_limits<T>::max()))
+            : ! std::numeric_limits<R>::is_signed
+            ? std::numeric_limits<r_type>::max()
+            : std::max(
+                static_cast<r_type>(
+                    ~static_cast<R>(base_value(std::numeric_limits<T>::min()))
+                ),
+                base_value(std::numeric_limits<T>::max()) < 0
+                ? r_type(0)
+                : static_cast<r_type>(base_value(std::numeric_limits<T>::max()))
+            );
+    }
+    // the lowest value with the same number of bits as some non-negative value
+    constexpr static R lowest(const r_type & m){
+        return static_cast<R>(-1) - static_cast<R>(m);
+    }
+};
+
 // operator |
 template<class T, class U>
 struct bitwise_or_result {
@@ -1601,27 +1644,27 @@ private:
     using result_base_type =
         typename promotion_policy::template bitwise_or_result<T, U>::type;
 
-    // according to the C++ standard, the bitwise operators are executed as if
-    // the operands are consider a logical array of bits.  That is, there is no
-    // sense that these are signed numbers.
-
     using r_type = typename std::make_unsigned<result_base_type>::type;
-    using r_type_interval_t = interval<r_type>;
     using exception_policy = typename common_exception_policy<T, U>::type;
 
+    using t_operand = bitwise_operand<result_base_type, T>;
+    using u_operand = bitwise_operand<result_base_type, U>;
+
+    constexpr static const r_type ru = utility::round_out(
+        std::max(t_operand::max(), u_operand::max())
+    );
+    constexpr static const result_base_type rl =
+        std::numeric_limits<result_base_type>::is_signed
+        && (t_operand::negative || u_operand::negative)
+        ? t_operand::lowest(ru)
+        : result_base_type(0);
+
 public:
     // lazy_enable_if_c depends on this
     using type = safe_base<
         result_base_type,
-        //r_interval.l,
-        r_type(0),
-        //r_interval.u,
-        utility::round_out(
-            std::max(
-                static_cast<r_type>(base_value(std::numeric_limits<T>::max())),
-                static_cast<r_type>(base_value(std::numeric_limits<U>::max()))
-            )
-        ),
+        rl,
+        ru,
         promotion_policy,
         exception_policy
     >;
@@ -1665,27 +1708,37 @@ private:
     using result_base_type =
         typename promotion_policy::template bitwise_and_result<T, U>::type;
 
-    // according to the C++ standard, the bitwise operators are executed as if
-    // the operands are consider a logical array of bits.  That is, there is no
-    // sense that these are signed numbers.
-
     using r_type = typename std::make_unsigned<result_base_type>::type;
-    using r_type_interval_t = interval<r_type>;
     using exception_policy = typename common_exception_policy<T, U>::type;
 
+    using t_operand = bitwise_operand<result_base_type, T>;
+    using u_operand = bitwise_operand<result_base_type, U>;
+
+    // note: the result is negative only if both operands are and it doesn't
+    // have bits which are not set in some operand which isn't negative
+    constexpr static const bool is_signed
+        = std::numeric_limits<result_base_type>::is_signed;
+
+    constexpr static const r_type ru = utility::round_out(
+        is_signed && t_operand::negative && u_operand::negative
+        ? std::max(t_operand::max(), u_operand::max())
+        : is_signed && t_operand::negative
+        ? u_operand::max()
+        : is_signed && u_operand::negative
+        ? t_operand::max()
+        : std::min(t_operand::max(), u_operand::max())
+    );
+    constexpr static const result_base_type rl =
+        is_signed && t_operand::negative && u_operand::negative
+        ? t_operand::lowest(ru)
+        : result_base_type(0);
+
 public:
     // lazy_enable_if_c depends on this
     using type = safe_base<
         result_base_type,
-        //r_interval.l,
-        r_type(0),
-        //r_interval.u,
-        utility::round_out(
-            std::min(
-                static_cast<r_type>(base_value(std::numeric_limits<T>::max())),
-                static_cast<r_type>(base_value(std::numeric_limits<U>::max()))
-            )
-        ),
+        rl,
+        ru,
         promotion_policy,
         exception_policy
     >;
@@ -1728,27 +1781,27 @@ struct bitwise_xor_result {
     using result_base_type =
         typename promotion_policy::template bitwise_xor_result<T, U>::type;
 
-    // according to the C++ standard, the bitwise operators are executed as if
-    // the operands are consider a logical array of bits.  That is, there is no
-    // sense that these are signed numbers.
-
     using r_type = typename std::make_unsigned<result_base_type>::type;
-    using r_type_interval_t = interval<r_type>;
     using exception_policy = typename common_exception_policy<T, U>::type;
 
+    using t_operand = bitwise_operand<result_base_type, T>;
+    using u_operand = bitwise_operand<result_base_type, U>;
+
+    constexpr static const r_type ru = utility::round_out(
+        std::max(t_operand::max(), u_operand::max())
+    );
+    constexpr static const result_base_type rl =
+        std::numeric_limits<result_base_type>::is_signed
+        && (t_operand::negative || u_operand::negative)
+        ? t_operand::lowest(ru)
+        : result_base_type(0);
+
 public:
     // lazy_enable_if_c depends on this
     using type = safe_base<
         result_base_type,
-        //r_interval.l,
-        r_type(0),
-        //r_interval.u,
-        utility::round_out(
-            std::max(
-                static_cast<r_type>(base_value(std::numeric_limits<T>::max())),
-                static_cast<r_type>(base_value(std::numeric_limits<U>::max()))
-            )
-        ),
+        rl,
+        ru,
         promotion_policy,
         exception_policy
     >;
-- 
2.43.0


From f348e508cbe36f0909560cf16974d5eb9d0855c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:53 +0000
Subject: [PATCH 12/31] fix: round_out of signed values with as many
 significant bits as the type

shifting a bit into the sign bit and subtracting one overflows
---
 include/boost/safe_numerics/utility.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/safe_numerics/utility.hpp b/include/boost/safe_numerics/utility.hpp
index ef7e1ef..1c32bc1 100644
--- a/include/boost/safe_numerics/utility.hpp
+++ b/include/boost/safe_numerics/utility.hpp
@@ -239,13 +239,13 @@ template<typename T>
 constexpr inline T round_out(const T & t){
     if(t >= 0){
         const std::uint8_t sb = utility::significant_bits(t);
-        return (sb < sizeof(T) * 8)
+        return (sb < std::numeric_limits<T>::digits)
             ? ((T)1 << sb) - 1
             : std::numeric_limits<T>::max();
     }
     else{
         const std::uint8_t sb = utility::significant_bits(~t);
-        return (sb < sizeof(T) * 8)
+        return (sb < std::numeric_limits<T>::digits)
             ? ~(((T)1 << sb) - 1)
             : std::numeric_limits<T>::min();
     }
-- 
2.43.0


From 980daadbed1c02690ecfd32834858581e191d2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:21 +0000
Subject: [PATCH 13/31] fix: operator~ of a checked result did not compile

---
 include/boost/safe_numerics/checked_result_operations.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/checked_result_operations.hpp b/include/boost/safe_numerics/checked_result_operations.hpp
index f5b8f9a..2d8a8fa 100644
--- a/include/boost/safe_numerics/checked_result_operations.hpp
+++ b/include/boost/safe_numerics/checked_result_operations.hpp
@@ -778,7 +778,10 @@ constexpr inline operator~(
     const checked_result<T> & t
 ){
 //    assert(false);
-    return ~t.m_r;
+    return
+        t.exception()
+        ? checked_result<T>(safe_numerics_error::range_error)
+        : checked_result<T>(static_cast<T>(~static_cast<T>(t)));
 }
 
 template<class T>
-- 
2.43.0


From 559c174af85ad3dbe9047059f324d227e4538577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:21 +0000
Subject: [PATCH 14/31] fix: left shift of a negative checked result to exactly
 the minimum is not an overflow

---
 include/boost/safe_numerics/checked_result_operations.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/boost/safe_numerics/checked_result_operations.hpp b/include/boost/safe_numerics/checked_result_operations.hpp
index 2d8a8fa..9af6062 100644
--- a/include/boost/safe_numerics/checked_result_operations.hpp
+++ b/include/boost/safe_numerics/checked_result_operations.hpp
@@ -813,7 +813,7 @@ constexpr inline operator<<(
             3, // -1,                                           // less_than_min,
             4, // - (-t >> -u),                                 // less_than_zero,
             5, // safe_numerics_error::negative_overflow_error, // zero,
-            6, // - (-t << u),                                  // greater_than_zero,
+            6, // - (-t << (u - 1)) * 2,                        // greater_than_zero,
             2, // safe_numerics_error::negative_overflow_error, // greater than max,
             1, // safe_numerics_error::range_error,             // indeterminate,
         //},
@@ -895,12 +895,11 @@ constexpr inline operator<<(
         return t;
     }
     else
-    if(6 == i){ // - (-t << u)
+    if(6 == i){ // - (-t << (u - 1)) * 2
         assert(static_cast<bool>(t < checked_result<T>(0)));
         assert(static_cast<bool>(u > checked_result<T>(0)));
-        const checked_result<T> temp_t = t * checked_result<T>(2);
         const checked_result<T> temp_u = u - checked_result<T>(1);
-        return  - (-temp_t << temp_u);
+        return - (-t << temp_u) * checked_result<T>(2);
     }
     else
     if(7 == i){  // t >> -u
-- 
2.43.0


From 6f101a4dbcb029724f8b0050b80fdd2768d5bea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:21 +0000
Subject: [PATCH 15/31] fix: right shift of a negative checked result rounds as
 the builtin shift does

---
 .../checked_result_operations.hpp             | 26 ++++++++++++-------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/include/boost/safe_numerics/checked_result_operations.hpp b/include/boost/safe_numerics/checked_result_operations.hpp
index 9af6062..55f68cc 100644
--- a/include/boost/safe_numerics/checked_result_operations.hpp
+++ b/include/boost/safe_numerics/checked_result_operations.hpp
@@ -810,7 +810,7 @@ constexpr inline operator<<(
         // t == less_than_zero,
         //{
             // u == ...
-            3, // -1,                                           // less_than_min,
+            10,// -1,                                           // less_than_min,
             4, // - (-t >> -u),                                 // less_than_zero,
             5, // safe_numerics_error::negative_overflow_error, // zero,
             6, // - (-t << (u - 1)) * 2,                        // greater_than_zero,
@@ -867,7 +867,7 @@ constexpr inline operator<<(
     // nested if statments - should be the same (more or less)
     // performancewise.
     const unsigned int i = result[tx * order + ux];
-    assert(i <= 9);
+    assert(i <= 10);
     if(1 == i){
         return safe_numerics_error::range_error;
     }
@@ -920,6 +920,10 @@ constexpr inline operator<<(
     if(9 == i){
         return safe_numerics_error::positive_overflow_error;
     }
+    else
+    if(10 == i){ // negative value shifted right by too much
+        return ~checked_result<T>(0);
+    }
     else{
         assert(false);
     };
@@ -955,8 +959,8 @@ constexpr inline operator>>(
             2, // safe_numerics_error::negative_overflow_error  // less_than_min,
             4, // - (-t << -u),                                 // less_than_zero,
             5, // safe_numerics_error::negative_overflow_error. // zero,
-            6, // - (-t >> u),                                  // greater_than_zero,
-            3, // 0, ? or -1                                    // greater than max,
+            6, // ~(~t >> u),                                   // greater_than_zero,
+            10,// -1                                            // greater than max,
             1, // safe_numerics_error::range_error,             // indeterminate,
         //},
         // t == zero,
@@ -1009,7 +1013,7 @@ constexpr inline operator>>(
     // nested if statments - should be the same (more or less)
     // performancewise.
     const unsigned int i = result[tx * order + ux];
-    assert(i <= 9);
+    assert(i <= 10);
     if(1 == i){
         return safe_numerics_error::range_error;
     }
@@ -1032,12 +1036,12 @@ constexpr inline operator>>(
         return t;
     }
     else
-    if(6 == i){ //  - (-t >> u)
+    if(6 == i){ // ~(~t >> u)
         assert(static_cast<bool>(t < checked_result<T>(0)));
         assert(static_cast<bool>(u > checked_result<T>(0)));
-        const checked_result<T> temp_t = t / checked_result<T>(2);
-        const checked_result<T> temp_u = u - checked_result<T>(1);
-        return  - (-temp_t >> temp_u);
+        // round toward negative infinity just as the shift of the
+        // builtin type does.
+        return ~(~t >> u);
     }
     else
     if(7 == i){  // t << -u,
@@ -1058,6 +1062,10 @@ constexpr inline operator>>(
     if(9 == i){
         return safe_numerics_error::positive_overflow_error;
     }
+    else
+    if(10 == i){ // negative value shifted right by too much
+        return ~checked_result<T>(0);
+    }
     else{
         assert(false);
     };
-- 
2.43.0


From 461bfcb57a821cc667465bb8f6a237dc97ca90f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:16 +0000
Subject: [PATCH 16/31] fix: comparing an error code with a safe numerics
 action did not compile

---
 include/boost/safe_numerics/exception.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/boost/safe_numerics/exception.hpp b/include/boost/safe_numerics/exception.hpp
index 82b03f1..cffd9fc 100644
--- a/include/boost/safe_numerics/exception.hpp
+++ b/include/boost/safe_numerics/exception.hpp
@@ -190,6 +190,14 @@ public:
     }
 } safe_numerics_actions_category {};
 
+// make it possible to compare an error code with an action
+inline std::error_condition make_error_condition(const safe_numerics_actions & a){
+    return std::error_condition(
+        static_cast<int>(a),
+        safe_numerics_actions_category
+    );
+}
+
 // the following function is used to "finish" implementation of conversion
 // of safe_numerics_error to std::error_condition.  At least for now, this
 // isn't being used and defining here it can lead duplicate symbol errors
-- 
2.43.0


From 5105e825c4e2dc83f2677de81df75f1ec43514c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:16 +0000
Subject: [PATCH 17/31] fix: error codes made in different translation units
 did not compare equal

The categories had internal linkage, so each translation unit had categories
of its own and an error caught in one did not match an error raised in another.
---
 include/boost/safe_numerics/exception.hpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/boost/safe_numerics/exception.hpp b/include/boost/safe_numerics/exception.hpp
index cffd9fc..a415b8a 100644
--- a/include/boost/safe_numerics/exception.hpp
+++ b/include/boost/safe_numerics/exception.hpp
@@ -81,7 +81,16 @@ namespace std {
 namespace boost {
 namespace safe_numerics {
 
-const class : public std::error_category {
+// Error categories are compared by address. So make sure that there is only
+// one object for all the translation units of a program.
+template<class Category>
+struct error_category_instance {
+    static const Category value;
+};
+template<class Category>
+const Category error_category_instance<Category>::value{};
+
+class safe_numerics_error_category_type : public std::error_category {
 public:
     virtual const char* name() const noexcept{
         return "safe numerics error";
@@ -115,7 +124,10 @@ public:
         }
         return ""; // suppress bogus warning
     }
-} safe_numerics_error_category {};
+};
+
+static const std::error_category & safe_numerics_error_category
+    = error_category_instance<safe_numerics_error_category_type>::value;
 
 // constexpr - damn, can't use constexpr due to std::error_code
 inline std::error_code make_error_code(const safe_numerics_error & e){
@@ -146,7 +158,7 @@ namespace std {
 namespace boost {
 namespace safe_numerics {
 
-const class : public std::error_category {
+class safe_numerics_actions_category_type : public std::error_category {
 public:
     virtual const char* name() const noexcept {
         return "safe numerics error group";
@@ -188,7 +200,10 @@ public:
         // suppress bogus warning
         return false; 
     }
-} safe_numerics_actions_category {};
+};
+
+static const std::error_category & safe_numerics_actions_category
+    = error_category_instance<safe_numerics_actions_category_type>::value;
 
 // make it possible to compare an error code with an action
 inline std::error_condition make_error_condition(const safe_numerics_actions & a){
-- 
2.43.0


From 65455c91b7ff238baad3e9c1166ad2a38f06cd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:28 +0000
Subject: [PATCH 18/31] fix: an ignored conversion error delivers the converted
 value instead of the bits of a message pointer

---
 include/boost/safe_numerics/safe_base_operations.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index d4a3e61..cf76112 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -115,7 +115,10 @@ struct validate_detail {
                 dispatch_and_return<E, R>
             >::cast(t);
 
-            return rx;
+            // if we arrive here in spite of an error, it has been ignored
+            return rx.exception()
+                ? static_cast<R>(base_value(t))
+                : rx.m_contents.m_r;
         }
     };
     struct exception_not_possible {
@@ -340,7 +343,7 @@ constexpr inline static std::pair<R, R> casting_helper(const T & t, const U & u)
         dispatch_and_return<EP, R>
     >::cast(base_value(t));
     const R tr = tx.exception()
-        ? static_cast<R>(t)
+        ? static_cast<R>(base_value(t))
         : tx.m_contents.m_r;
 
     const r_type ux = heterogeneous_checked_operation<
@@ -351,7 +354,7 @@ constexpr inline static std::pair<R, R> casting_helper(const T & t, const U & u)
         dispatch_and_return<EP, R>
     >::cast(base_value(u));
     const R ur = ux.exception()
-        ? static_cast<R>(u)
+        ? static_cast<R>(base_value(u))
         : ux.m_contents.m_r;
     return std::pair<R, R>(tr, ur);
 }
-- 
2.43.0


From 1644eee530f7a16998afd4bc9501a61f0f2278b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:45 +0000
Subject: [PATCH 19/31] fix: extraction from a stream stores only validated
 numbers and reports failure for character types

---
 .../safe_numerics/safe_base_operations.hpp    | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index cf76112..b121c21 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1886,9 +1886,18 @@ inline void safe_base<T, Min, Max, P, E>::input(
     || std::is_same<T, unsigned char>::value
     || std::is_same<T, wchar_t>::value
     ){
-        int x;
+        int x = 0;
         is >> x;
-        m_t = validated_cast(x);
+        if(is.fail()){
+            boost::safe_numerics::dispatch<
+                E,
+                boost::safe_numerics::safe_numerics_error::domain_error
+            >(
+                "error in file input"
+            );
+        }
+        else
+            m_t = validated_cast(x);
     }
     else{
         if(std::is_unsigned<T>::value){
@@ -1904,7 +1913,9 @@ inline void safe_base<T, Min, Max, P, E>::input(
                 is.setstate(std::ios_base::failbit);
             }
         }
-        is >> m_t;
+        // don't read into m_t - the value hasn't been validated yet
+        T t = 0;
+        is >> t;
         if(is.fail()){
             boost::safe_numerics::dispatch<
                 E,
@@ -1914,7 +1925,7 @@ inline void safe_base<T, Min, Max, P, E>::input(
             );
         }
         else
-            validated_cast(m_t);
+            m_t = validated_cast(t);
     }
 }
 
-- 
2.43.0


From 39e82e4c593cd66b8ae9b4c1a28caae587e58de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:45 +0000
Subject: [PATCH 20/31] fix: a safe char is extracted as the number it is
 inserted as

---
 include/boost/safe_numerics/safe_base_operations.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index b121c21..9bc87d1 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1882,7 +1882,8 @@ template<
 inline void safe_base<T, Min, Max, P, E>::input(
     std::basic_istream<CharT, Traits> & is
 ){
-    if(std::is_same<T, signed char>::value
+    if(std::is_same<T, char>::value
+    || std::is_same<T, signed char>::value
     || std::is_same<T, unsigned char>::value
     || std::is_same<T, wchar_t>::value
     ){
-- 
2.43.0


From 718a80aeb97032c121cef094034229c2de78aae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:46 +0000
Subject: [PATCH 21/31] fix: cpp policy converts to the unsigned version of the
 signed type in the last usual arithmetic conversion

---
 include/boost/safe_numerics/cpp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/cpp.hpp b/include/boost/safe_numerics/cpp.hpp
index 077fbfc..8377bb9 100644
--- a/include/boost/safe_numerics/cpp.hpp
+++ b/include/boost/safe_numerics/cpp.hpp
@@ -132,7 +132,7 @@ public:
             // use signed type
             select_signed<T, U>,
         // clause 4 - otherwise use unsigned version of the signed type
-            std::make_signed< select_signed<T, U>>
+            typename std::make_unsigned< select_signed<T, U>>::type
         >::type >::type >::type
     >;
 
-- 
2.43.0


From 4619ae253353c7ea6fbcfe4514d26e1678a71ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:46 +0000
Subject: [PATCH 22/31] fix: result of a shift with the cpp policy has the type
 of the promoted left operand

---
 include/boost/safe_numerics/cpp.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/safe_numerics/cpp.hpp b/include/boost/safe_numerics/cpp.hpp
index 8377bb9..f39c441 100644
--- a/include/boost/safe_numerics/cpp.hpp
+++ b/include/boost/safe_numerics/cpp.hpp
@@ -171,11 +171,13 @@ public:
     };
     template<typename T, typename U>
     struct left_shift_result {
-       using type = result_type<T, U>;
+       // section 5.8 - the type of the result is that of the promoted left operand
+       using type = integral_promotion<typename base_type<T>::type>;
     };
     template<typename T, typename U>
     struct right_shift_result {
-       using type = result_type<T, U>;
+       // section 5.8 - the type of the result is that of the promoted left operand
+       using type = integral_promotion<typename base_type<T>::type>;
     };
     template<typename T, typename U>
     struct bitwise_and_result {
-- 
2.43.0


From e79a21d3806849686f3447c7a26d54bb52dd6bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:47 +0000
Subject: [PATCH 23/31] fix: a checked unsigned char is displayed as a number

---
 .../safe_numerics/checked_result_operations.hpp    | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/boost/safe_numerics/checked_result_operations.hpp b/include/boost/safe_numerics/checked_result_operations.hpp
index 55f68cc..6554165 100644
--- a/include/boost/safe_numerics/checked_result_operations.hpp
+++ b/include/boost/safe_numerics/checked_result_operations.hpp
@@ -1160,6 +1160,20 @@ inline std::basic_ostream<CharT, Traits> & operator<<(
     return os;
 }
 
+template<typename CharT, typename Traits>
+inline std::basic_ostream<CharT, Traits> & operator<<(
+    std::basic_ostream<CharT, Traits> & os,
+    const boost::safe_numerics::checked_result<unsigned char> & r
+){
+    bool e = r.exception();
+    os << e;
+    if(! e)
+        os << static_cast<std::uint16_t>(static_cast<unsigned char>(r));
+    else
+        os << std::error_code(r.m_e).message() << ':' << static_cast<char const *>(r);
+    return os;
+}
+
 template<typename CharT, typename Traits, typename R>
 inline std::basic_istream<CharT, Traits> & operator>>(
     std::basic_istream<CharT, Traits> & is,
-- 
2.43.0


From 020286935a8c03c13d4872f07b5e100d969b33a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:57 +0000
Subject: [PATCH 24/31] fix: checked comparison functions on integers did not
 compile

---
 include/boost/safe_numerics/checked_default.hpp |  8 ++++----
 include/boost/safe_numerics/checked_integer.hpp | 16 ++++++++++++++++
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/boost/safe_numerics/checked_default.hpp b/include/boost/safe_numerics/checked_default.hpp
index d71921e..77bf7e0 100644
--- a/include/boost/safe_numerics/checked_default.hpp
+++ b/include/boost/safe_numerics/checked_default.hpp
@@ -89,17 +89,17 @@ struct checked_operation{
     modulus(const R & t, const R & u) noexcept {
         return t % u;
     }
-    constexpr static boost::logic::tribool
+    constexpr static bool
     less_than(const R & t, const R & u) noexcept {
         return t < u;
     }
-    constexpr static boost::logic::tribool
+    constexpr static bool
     greater_than(const R & t, const R & u) noexcept {
         return t > u;
     }
-    constexpr static boost::logic::tribool
+    constexpr static bool
     equal(const R & t, const R & u) noexcept {
-        return t < u;
+        return t == u;
     }
     constexpr static checked_result<R>
     left_shift(const R & t, const R & u) noexcept {
diff --git a/include/boost/safe_numerics/checked_integer.hpp b/include/boost/safe_numerics/checked_integer.hpp
index bca3a0e..345635b 100644
--- a/include/boost/safe_numerics/checked_integer.hpp
+++ b/include/boost/safe_numerics/checked_integer.hpp
@@ -571,6 +571,22 @@ struct checked_operation<R, F,
         return modulus_impl_detail::modulus(t, u, typename std::is_signed<R>::type());
     }
 
+    ///////////////////////////////////
+    // comparison operations
+
+    constexpr static bool
+    less_than(const R & t, const R & u) noexcept {
+        return t < u;
+    }
+    constexpr static bool
+    greater_than(const R & t, const R & u) noexcept {
+        return t > u;
+    }
+    constexpr static bool
+    equal(const R & t, const R & u) noexcept {
+        return t == u;
+    }
+
     ///////////////////////////////////
     // shift operations
 
-- 
2.43.0


From 80e065fe874d97a1953fba25893950e2ace2e5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:00 +0000
Subject: [PATCH 25/31] fix: conversion of an integer to a floating point type
 did not compile

---
 include/boost/safe_numerics/checked_integer.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/boost/safe_numerics/checked_integer.hpp b/include/boost/safe_numerics/checked_integer.hpp
index 345635b..9dfb329 100644
--- a/include/boost/safe_numerics/checked_integer.hpp
+++ b/include/boost/safe_numerics/checked_integer.hpp
@@ -203,8 +203,7 @@ struct heterogeneous_checked_operation<
      cast(const T & t){
         if(std::numeric_limits<R>::digits < std::numeric_limits<T>::digits){
             if(utility::significant_bits(t) > std::numeric_limits<R>::digits){
-                return F::invoke(
-                    safe_numerics_error::precision_overflow_error,
+                return F::template invoke<safe_numerics_error::precision_overflow_error>(
                     "keep precision"
                 );
             }
-- 
2.43.0


From e08c959094bb12fb48ffd8cb7084a80b43d98555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:00 +0000
Subject: [PATCH 26/31] fix: conversion of a floating point number to an
 integer type was not checked

---
 .../boost/safe_numerics/checked_integer.hpp   | 31 ++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/checked_integer.hpp b/include/boost/safe_numerics/checked_integer.hpp
index 9dfb329..1e962cf 100644
--- a/include/boost/safe_numerics/checked_integer.hpp
+++ b/include/boost/safe_numerics/checked_integer.hpp
@@ -174,7 +174,36 @@ struct heterogeneous_checked_operation<
 >{
     constexpr static checked_result<R>
     cast(const T & t){
-        return static_cast<R>(t);
+        // the smallest power of two which is larger than every value of R.
+        // In contrast to Max, it can be represented by T
+        constexpr const T limit =
+            T(2) * static_cast<T>(R(1) << (std::numeric_limits<R>::digits - 1));
+        if(t >= limit)
+            return F::template invoke<safe_numerics_error::positive_overflow_error>(
+                "converted floating point value too large"
+            );
+        if(std::is_signed<R>::value ? t < -limit : t <= T(-1))
+            return F::template invoke<safe_numerics_error::negative_overflow_error>(
+                "converted floating point value too small"
+            );
+        if(t != t)
+            return F::template invoke<safe_numerics_error::domain_error>(
+                "converted floating point value is not a number"
+            );
+        const R r = static_cast<R>(t);
+        if(r > Max)
+            return F::template invoke<safe_numerics_error::positive_overflow_error>(
+                "converted floating point value too large"
+            );
+        if(r < Min)
+            return F::template invoke<safe_numerics_error::negative_overflow_error>(
+                "converted floating point value too small"
+            );
+        if(static_cast<T>(r) != t)
+            return F::template invoke<safe_numerics_error::precision_overflow_error>(
+                "converted floating point value is not an integer"
+            );
+        return checked_result<R>(r);
     }
 }; // heterogeneous_checked_operation
 
-- 
2.43.0


From 224eb2b70d3fd45bcb43d0396c1490c9c0f69ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:21 +0000
Subject: [PATCH 27/31] fix: the headers did not compile without exceptions

---
 include/boost/safe_numerics/exception_policies.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/exception_policies.hpp b/include/boost/safe_numerics/exception_policies.hpp
index 5523a9c..cae50a8 100644
--- a/include/boost/safe_numerics/exception_policies.hpp
+++ b/include/boost/safe_numerics/exception_policies.hpp
@@ -77,7 +77,9 @@ struct throw_exception {
         throw std::system_error(std::error_code(e), message);
     }
     #else
-    constexpr trap_exception()(const safe_numerics_error & e, const char * message);
+    // not defined here. A program which is built without exceptions and uses
+    // this policy has to provide it.
+    void operator()(const safe_numerics_error & e, const char * message);
     #endif
 };
 
-- 
2.43.0


From 50ffe4659946ea0971229e356c86ce24e231d199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:35 +0000
Subject: [PATCH 28/31] fix: compound assignment returned a copy instead of its
 target

---
 .../safe_numerics/safe_base_operations.hpp    | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 9bc87d1..6c3d07d 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -489,7 +489,7 @@ constexpr inline operator+(const T & t, const U & u){
 template<class T, class U>
 typename std::enable_if<
     legal_overload<addition_operator, T, U>::value,
-    T
+    T &
 >::type
 constexpr inline operator+=(T & t, const U & u){
     t = static_cast<T>(t + u);
@@ -612,7 +612,7 @@ constexpr inline operator-(const T & t, const U & u){
 template<class T, class U>
 typename std::enable_if<
     legal_overload<subtraction_operator, T, U>::value,
-    T
+    T &
 >::type
 constexpr inline operator-=(T & t, const U & u){
     t = static_cast<T>(t - u);
@@ -737,7 +737,7 @@ constexpr inline operator*(const T & t, const U & u){
 template<class T, class U>
 typename std::enable_if<
     legal_overload<multiplication_operator, T, U>::value,
-    T
+    T &
 >::type
 constexpr inline operator*=(T & t, const U & u){
     t = static_cast<T>(t * u);
@@ -903,7 +903,7 @@ constexpr inline operator/(const T & t, const U & u){
 template<class T, class U>
 typename std::enable_if<
     legal_overload<division_operator, T, U>::value,
-    T
+    T &
 >::type
 constexpr inline operator/=(T & t, const U & u){
     t = static_cast<T>(t / u);
@@ -1049,7 +1049,7 @@ constexpr inline operator%(const T & t, const U & u){
 template<class T, class U>
 typename std::enable_if<
     legal_overload<modulus_operator, T, U>::value,
-    T
+    T &
 >::type
 constexpr inline operator%=(T & t, const U & u){
     t = static_cast<T>(t % u);
@@ -1404,7 +1404,7 @@ typename std::enable_if<
     // exclude usage of << for file output here
     boost::safe_numerics::Numeric<T>()
     && legal_overload<left_shift_operator, T, U>::value,
-    T
+    T &
 >::type
 constexpr inline operator<<=(T & t, const U & u){
     t = static_cast<T>(t << u);
@@ -1568,7 +1568,7 @@ typename std::enable_if<
     // exclude usage of << for file output here
     boost::safe_numerics::Numeric<T>()
     && legal_overload<right_shift_operator, T, U>::value,
-    T
+    T &
 >::type
 constexpr inline operator>>=(T & t, const U & u){
     t = static_cast<T>(t >> u);
@@ -1696,7 +1696,7 @@ constexpr inline operator|(const T & t, const U & u){
 template<class T, class U>
 typename std::enable_if<
     legal_overload<bitwise_or_operator, T, U>::value,
-    T
+    T &
 >::type
 constexpr inline operator|=(T & t, const U & u){
     t = static_cast<T>(t | u);
@@ -1770,7 +1770,7 @@ constexpr inline operator&(const T & t, const U & u){
 template<class T, class U>
 typename std::enable_if<
     legal_overload<bitwise_and_operator, T, U>::value,
-    T
+    T &
 >::type
 constexpr inline operator&=(T & t, const U & u){
     t = static_cast<T>(t & u);
@@ -1833,7 +1833,7 @@ constexpr inline operator^(const T & t, const U & u){
 template<class T, class U>
 typename std::enable_if<
     legal_overload<bitwise_xor_operator, T, U>::value,
-    T
+    T &
 >::type
 constexpr inline operator^=(T & t, const U & u){
     t = static_cast<T>(t ^ u);
-- 
2.43.0


From 9bf450dd08759c51e5a3bac5cf05159a2e2f69ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:45 +0000
Subject: [PATCH 29/31] fix: constructing a checked result from one of another
 type did not compile

---
 include/boost/safe_numerics/checked_result.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/boost/safe_numerics/checked_result.hpp b/include/boost/safe_numerics/checked_result.hpp
index c54c2a4..5e3dc74 100644
--- a/include/boost/safe_numerics/checked_result.hpp
+++ b/include/boost/safe_numerics/checked_result.hpp
@@ -57,16 +57,18 @@ struct checked_result {
     // permit construct from another checked result type
     template<typename T>
     constexpr /*explicit*/ checked_result(const checked_result<T> & t) noexcept :
-        m_e(t.m_e)
+        m_e(t.m_e),
+        m_contents(
+            t.exception() ?
+                contents(t.m_contents.m_msg)
+            :
+                contents(static_cast<R>(t.m_contents.m_r))
+        )
     {
         static_assert(
             std::is_convertible<T, R>::value,
             "T must be convertible to R"
         );
-        if(safe_numerics_error::success == t.m_e)
-            m_contents.m_r = t.m_r;
-        else
-            m_contents.m_msg = t.m_msg;
     }
 
     constexpr bool exception() const {
-- 
2.43.0


From 98ff5d204c259a9c0cd5956a84a3b9f3899f676a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:07 +0000
Subject: [PATCH 30/31] fix: displaying a checked result on a wide stream did
 not compile

---
 include/boost/safe_numerics/checked_result_operations.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/safe_numerics/checked_result_operations.hpp b/include/boost/safe_numerics/checked_result_operations.hpp
index 6554165..1f92938 100644
--- a/include/boost/safe_numerics/checked_result_operations.hpp
+++ b/include/boost/safe_numerics/checked_result_operations.hpp
@@ -1142,7 +1142,7 @@ inline std::basic_ostream<CharT, Traits> & operator<<(
     if(!e)
         os << static_cast<R>(r);
     else
-        os << std::error_code(r.m_e).message() << ':' << static_cast<char const *>(r);
+        os << std::error_code(r.m_e).message().c_str() << ':' << static_cast<char const *>(r);
     return os;
 }
 
@@ -1156,7 +1156,7 @@ inline std::basic_ostream<CharT, Traits> & operator<<(
     if(! e)
         os << static_cast<std::int16_t>(r);
     else
-        os << std::error_code(r.m_e).message() << ':' << static_cast<char const *>(r);
+        os << std::error_code(r.m_e).message().c_str() << ':' << static_cast<char const *>(r);
     return os;
 }
 
@@ -1170,7 +1170,7 @@ inline std::basic_ostream<CharT, Traits> & operator<<(
     if(! e)
         os << static_cast<std::uint16_t>(static_cast<unsigned char>(r));
     else
-        os << std::error_code(r.m_e).message() << ':' << static_cast<char const *>(r);
+        os << std::error_code(r.m_e).message().c_str() << ':' << static_cast<char const *>(r);
     return os;
 }
 
-- 
2.43.0


From 83f20afc81e1e5e45d6f0a5075b9cbc4c91bde55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:39 +0000
Subject: [PATCH 31/31] fix: extraction did not compile for ranges beyond int
 and for character types of another stream

---
 .../boost/safe_numerics/safe_base_operations.hpp   | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 6c3d07d..a37d889 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1882,12 +1882,22 @@ template<
 inline void safe_base<T, Min, Max, P, E>::input(
     std::basic_istream<CharT, Traits> & is
 ){
+    // the type extracted. One which every stream can extract as a number and
+    // whose conversion to T is possible
+    using x_type = typename std::conditional<
+        std::is_same<T, char>::value
+        || std::is_same<T, signed char>::value
+        || std::is_same<T, unsigned char>::value
+        || std::is_same<T, wchar_t>::value,
+        int,
+        T
+    >::type;
     if(std::is_same<T, char>::value
     || std::is_same<T, signed char>::value
     || std::is_same<T, unsigned char>::value
     || std::is_same<T, wchar_t>::value
     ){
-        int x = 0;
+        x_type x = 0;
         is >> x;
         if(is.fail()){
             boost::safe_numerics::dispatch<
@@ -1915,7 +1925,7 @@ inline void safe_base<T, Min, Max, P, E>::input(
             }
         }
         // don't read into m_t - the value hasn't been validated yet
-        T t = 0;
+        x_type t = 0;
         is >> t;
         if(is.fail()){
             boost::safe_numerics::dispatch<
-- 
2.43.0

