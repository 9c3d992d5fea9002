From 445be3c1b2adc895a2d51de4ed3e4abcf88dd9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:45 +0000
Subject: [PATCH 1/9] fix: compare frames in FramedVector::isApprox for
 non-const arguments

---
 resim/transforms/framed_vector.hh | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/resim/transforms/framed_vector.hh b/resim/transforms/framed_vector.hh
index 2b4c792..38300bb 100644
--- a/resim/transforms/framed_vector.hh
+++ b/resim/transforms/framed_vector.hh
@@ -7,6 +7,7 @@
 #pragma once
 
 #include <Eigen/Dense>
+#include <type_traits>
 #include <utility>
 
 #include "resim/assert/assert.hh"
@@ -101,10 +102,17 @@ class FramedVector : public Eigen::Matrix<double, dims, 1> {
 
   // Because the overload of isApprox above clobbers the base class method,
   // we must redeclare this method here in order to forward comparisons with
-  // non-FramedVector types to the base class method.
-  template <typename... Args>
-  bool isApprox(Args &&...args) const {
-    return Vector::isApprox(std::forward<Args>(args)...);
+  // non-FramedVector types to the base class method. FramedVectors (including
+  // non-const ones, for which this would otherwise be the better match) are
+  // excluded so that their frames are always considered.
+  template <typename Other, typename... Args>
+  requires(!std::is_base_of_v<
+           FramedVector<dims>,
+           std::remove_cvref_t<Other>>) bool
+  isApprox(Other &&other, Args &&...args) const {
+    return Vector::isApprox(
+        std::forward<Other>(other),
+        std::forward<Args>(args)...);
   }
 
   void set_frame(const Frame<dims> &frame) { frame_ = frame; }
-- 
2.43.0


From f731822895aad5235cf537db415625500e7d8898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:20 +0000
Subject: [PATCH 2/9] fix: evaluate DCurve at zero-length segments without
 dividing by zero

---
 resim/curves/d_curve.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/resim/curves/d_curve.cc b/resim/curves/d_curve.cc
index faa6036..bf33153 100644
--- a/resim/curves/d_curve.cc
+++ b/resim/curves/d_curve.cc
@@ -132,8 +132,11 @@ typename DCurve<Group>::PointAtData DCurve<Group>::point_at_impl(
       });
   REASSERT(s != segments_.end(), "Did not find valid segment.");
 
-  const double fraction = (arc_length - s->orig_arc_length) /
-                          (s->dest_arc_length - s->orig_arc_length);
+  // A segment has zero length if its control points coincide.
+  const double segment_length = s->dest_arc_length - s->orig_arc_length;
+  const double fraction =
+      segment_length > ZERO ? (arc_length - s->orig_arc_length) / segment_length
+                            : ZERO;
   return {.fraction = fraction, .s = s};
 }
 
-- 
2.43.0


From 787ff36fef4fb538e92cbb717d04dd6a811a2f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:48 +0000
Subject: [PATCH 3/9] fix: fail when the duration of an empty Trajectory is
 queried

---
 resim/actor/state/trajectory.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resim/actor/state/trajectory.cc b/resim/actor/state/trajectory.cc
index 1375305..65ad721 100644
--- a/resim/actor/state/trajectory.cc
+++ b/resim/actor/state/trajectory.cc
@@ -73,6 +73,9 @@ time::Timestamp Trajectory::end_time() const {
 }
 
 time::Duration Trajectory::time_duration() const {
+  constexpr auto EMPTY_ERR =
+      "Cannot query the duration of a trajectory with no control points";
+  REASSERT(!curve_.control_pts().empty(), EMPTY_ERR);
   return time::as_duration(curve_.control_pts().back().time);
 }
 
-- 
2.43.0


From 17c0379277a411408167e61690c408e7744e1bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:34 +0000
Subject: [PATCH 4/9] fix: count more than 2^31 samples in num_samples(double)

The count was converted to int before being returned as int64_t, so more than
INT_MAX samples gave an undefined (in practice negative) count.
---
 resim/time/sample_interval.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resim/time/sample_interval.cc b/resim/time/sample_interval.cc
index 4d842c1..3926c93 100644
--- a/resim/time/sample_interval.cc
+++ b/resim/time/sample_interval.cc
@@ -29,7 +29,7 @@ int64_t num_samples(double start_time, double end_time, double max_abs_dt) {
   //
   // n = ceil(total_time / max_abs_dt) + 1
   //
-  return static_cast<int>(std::ceil(total_time / max_abs_dt)) + 1;
+  return static_cast<int64_t>(std::ceil(total_time / max_abs_dt)) + 1;
 }
 
 void sample_interval(
-- 
2.43.0


From 5cf72613f9773485105094df8d6a03613c157cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:34 +0000
Subject: [PATCH 5/9] fix: one sample for an empty interval in
 num_samples(Timestamp)

The formula assumes a positive total time: for equal timestamps it gave 2
samples (1 if max_abs_dt is 1ns), where the minimum, which the double overload
and sample_interval() use, is 1.
---
 resim/time/sample_interval.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/resim/time/sample_interval.cc b/resim/time/sample_interval.cc
index 3926c93..e772342 100644
--- a/resim/time/sample_interval.cc
+++ b/resim/time/sample_interval.cc
@@ -58,6 +58,11 @@ int64_t num_samples(
       end_time.time_since_epoch().count(),
       start_time.time_since_epoch().count()))};
 
+  // A single sample covers an empty interval.
+  if (total_time.count() == 0) {
+    return 1;
+  }
+
   // We want to find the smallest integer n such that:
   //
   // max_abs_dt * (n - 1) >= total_time
-- 
2.43.0


From 739c2d14cf9915aeb41a14728bdda1cd59f8ef8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:34 +0000
Subject: [PATCH 6/9] fix: round to the nearest timestamp when sampling a
 reversed interval

For end_time < start_time the numerator is negative and was never rounded, so
sample_interval(8ns, 0ns, 3ns) gave 6ns where 5ns is closest to 16/3ns.
---
 resim/time/sample_interval.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/resim/time/sample_interval.cc b/resim/time/sample_interval.cc
index e772342..d13db78 100644
--- a/resim/time/sample_interval.cc
+++ b/resim/time/sample_interval.cc
@@ -115,7 +115,13 @@ void sample_interval(
   for (int64_t ii = 0; ii < samples; ++ii) {
     // Should never overflow since rounded will be less than or equal to
     // total_time.
-    const int64_t rounded = whole + ((2 * numerator >= intervals) ? 1 : 0);
+    int64_t rounded = whole;
+    if (2 * numerator >= intervals) {
+      ++rounded;
+    } else if (2 * numerator <= -intervals) {
+      // The numerator is negative if end_time is before start_time
+      --rounded;
+    }
     const Duration time{rounded};
 
     func(start_time + time);
-- 
2.43.0


From 6899c46408f742a77265b405d8f5f5ef52cdb979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:58 +0000
Subject: [PATCH 7/9] fix: evaluate the argument of CHECK_STATUS_OK only once

---
 resim/utils/status.hh | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/resim/utils/status.hh b/resim/utils/status.hh
index c46ff2f..8f4ae99 100644
--- a/resim/utils/status.hh
+++ b/resim/utils/status.hh
@@ -79,14 +79,15 @@ constexpr Status OKAY_STATUS{};
 
 // Define a macro to check that a given status is okay.
 // NOLINTNEXTLINE(cppcoreguidelines-macro-usage)
-#define CHECK_STATUS_OK(status)       \
-  ({                                  \
-    const auto err_msg = fmt::format( \
-        fg(fmt::color::red),          \
-        "{{{0}.what() == {1}}}",      \
-        #status,                      \
-        (status).what());             \
-    REASSERT((status).ok(), err_msg); \
+#define CHECK_STATUS_OK(status)             \
+  ({                                        \
+    const auto checked_status = (status);   \
+    const auto err_msg = fmt::format(       \
+        fg(fmt::color::red),                \
+        "{{{0}.what() == {1}}}",            \
+        #status,                            \
+        checked_status.what());             \
+    REASSERT(checked_status.ok(), err_msg); \
   })
 
 // Return from the enclosing function if the given status result is not ok.
-- 
2.43.0


From f8b9b22b471e8fc97d87543bd355c956a0cd1984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:44 +0000
Subject: [PATCH 8/9] fix: keep a temporary StatusValue alive in
 RETURN_OR_ASSIGN

---
 resim/utils/status_value.hh | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/resim/utils/status_value.hh b/resim/utils/status_value.hh
index 3d73fc6..819a47f 100644
--- a/resim/utils/status_value.hh
+++ b/resim/utils/status_value.hh
@@ -146,22 +146,33 @@ constexpr const Status &StatusValue<T>::status() const {
       [](const Status &status) -> const Status & { return status; });
 }
 
+namespace detail {
+
+// Holds a temporary StatusValue by value and any other one by reference. A
+// temporary passed to RETURN_OR_ASSIGN() would otherwise be destroyed before
+// its value is used.
+template <typename T>
+struct StatusValueHolder {
+  T held;
+};
+
+}  // namespace detail
+
 // Return from the enclosing function if the given status result is not
 // ok. Otherwise, assign the value as the value of this expression. We don't
 // really have a choice but to use the GNU statement expression extension here
 // unless we pass the assignment target in too. We use the lambda because
 // otherwise the statement expression doesn't preserve references.
 // NOLINTNEXTLINE(cppcoreguidelines-macro-usage)
-#define RETURN_OR_ASSIGN(status_value)                        \
-  ({                                                          \
-    auto &&evalutated_status_value =                          \
-        std::forward<decltype(status_value)>(status_value);   \
-    RETURN_IF_NOT_OK(evalutated_status_value.status());       \
-    [&]() -> decltype(auto) {                                 \
-      return std::forward<decltype(evalutated_status_value)>( \
-                 evalutated_status_value)                     \
-          .value();                                           \
-    };                                                        \
+#define RETURN_OR_ASSIGN(status_value)                                         \
+  ({                                                                           \
+    using StatusValueArg = decltype(status_value);                             \
+    resim::detail::StatusValueHolder<decltype((status_value))>                 \
+        evaluated_status_value{(status_value)};                                \
+    RETURN_IF_NOT_OK(evaluated_status_value.held.status());                    \
+    [holder = std::move(evaluated_status_value)]() mutable -> decltype(auto) { \
+      return std::forward<StatusValueArg>(holder.held).value();                \
+    };                                                                         \
   })()
 
 }  // namespace resim
-- 
2.43.0


From e660aca12035c107c1bf07b8c4485ad88b141d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:12 +0000
Subject: [PATCH 9/9] fix: reject StatusValue<Status> at compile time

---
 resim/utils/status_value.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resim/utils/status_value.hh b/resim/utils/status_value.hh
index 819a47f..7656ea0 100644
--- a/resim/utils/status_value.hh
+++ b/resim/utils/status_value.hh
@@ -19,7 +19,7 @@ template <class T>
 class StatusValue {
  public:
   static_assert(
-      not std::is_same_v<std::decay<T>, Status>,
+      not std::is_same_v<std::decay_t<T>, Status>,
       "StatusValue<Status> not allowed!");
 
   using ValueType = T;
-- 
2.43.0

