From bc53e9b79a2b1ba8711559164319b621e0478cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:39 +0000
Subject: [PATCH 01/17] fix: constrain the first heading to the unit circle

Without a pose constraint only the product of consecutive heading norms was
constrained, so norms alternating between r and 1/r were admitted.
---
 src/SwerveTrajectoryGenerator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/SwerveTrajectoryGenerator.cpp b/src/SwerveTrajectoryGenerator.cpp
index 173e752..27ced21 100644
--- a/src/SwerveTrajectoryGenerator.cpp
+++ b/src/SwerveTrajectoryGenerator.cpp
@@ -143,6 +143,12 @@ SwerveTrajectoryGenerator::SwerveTrajectoryGenerator(
   }
   problem.Minimize(std::move(T_tot));
 
+  // The kinematics constraints below only fix the product of consecutive
+  // headings' norms, so require the first heading to be a unit vector
+  problem.SubjectTo(thetacos.at(0) * thetacos.at(0) +
+                        thetasin.at(0) * thetasin.at(0) ==
+                    1.0);
+
   // Apply kinematics constraints
   for (size_t wptIndex = 1; wptIndex < wptCnt; ++wptIndex) {
     size_t N_sgmt = N.at(wptIndex - 1);
-- 
2.43.0


From 864a03d45f6b57d44b1ad69e701ce92641c1ed94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:50 +0000
Subject: [PATCH 02/17] fix: bound the time step by every pair of modules

Only modules listed next to each other were compared, so the bound depended on
the order in which the modules are listed.
---
 src/SwerveTrajectoryGenerator.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/SwerveTrajectoryGenerator.cpp b/src/SwerveTrajectoryGenerator.cpp
index 27ced21..16924c2 100644
--- a/src/SwerveTrajectoryGenerator.cpp
+++ b/src/SwerveTrajectoryGenerator.cpp
@@ -107,17 +107,19 @@ SwerveTrajectoryGenerator::SwerveTrajectoryGenerator(
 
   double minWidth = INFINITY;
   for (size_t i = 1; i < path.drivetrain.modules.size(); i++) {
-    if (std::abs(path.drivetrain.modules.at(i - 1).translation.X() -
-                 path.drivetrain.modules.at(i).translation.X()) != 0) {
-      minWidth = std::min(
-          minWidth, std::abs(path.drivetrain.modules.at(i - 1).translation.X() -
-                             path.drivetrain.modules.at(i).translation.X()));
-    }
-    if (std::abs(path.drivetrain.modules.at(i - 1).translation.Y() -
-                 path.drivetrain.modules.at(i).translation.Y()) != 0) {
-      minWidth = std::min(
-          minWidth, std::abs(path.drivetrain.modules.at(i - 1).translation.Y() -
-                             path.drivetrain.modules.at(i).translation.Y()));
+    for (size_t j = 0; j < i; j++) {
+      if (std::abs(path.drivetrain.modules.at(j).translation.X() -
+                   path.drivetrain.modules.at(i).translation.X()) != 0) {
+        minWidth = std::min(
+            minWidth, std::abs(path.drivetrain.modules.at(j).translation.X() -
+                               path.drivetrain.modules.at(i).translation.X()));
+      }
+      if (std::abs(path.drivetrain.modules.at(j).translation.Y() -
+                   path.drivetrain.modules.at(i).translation.Y()) != 0) {
+        minWidth = std::min(
+            minWidth, std::abs(path.drivetrain.modules.at(j).translation.Y() -
+                               path.drivetrain.modules.at(i).translation.Y()));
+      }
     }
   }
 
-- 
2.43.0


From 9cc885b455874859518355876c9d44263021b4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:58 +0000
Subject: [PATCH 03/17] fix: do not add a nonfinite time step bound

With a single module, or modules all at one place, there is no module spacing
and the bound was infinite, which makes the solver refuse the problem.
---
 src/SwerveTrajectoryGenerator.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/SwerveTrajectoryGenerator.cpp b/src/SwerveTrajectoryGenerator.cpp
index 16924c2..1248180 100644
--- a/src/SwerveTrajectoryGenerator.cpp
+++ b/src/SwerveTrajectoryGenerator.cpp
@@ -6,6 +6,7 @@
 
 #include <algorithm>
 #include <chrono>
+#include <cmath>
 #include <utility>
 
 #include <sleipnir/optimization/OptimizationProblem.hpp>
@@ -125,10 +126,12 @@ SwerveTrajectoryGenerator::SwerveTrajectoryGenerator(
 
   for (size_t sgmtIndex = 0; sgmtIndex < sgmtCnt; ++sgmtIndex) {
     dt.emplace_back(problem.DecisionVariable());
-    for (auto module : path.drivetrain.modules) {
-      problem.SubjectTo(dt.at(sgmtIndex) * module.wheelRadius *
-                            module.wheelMaxAngularVelocity <=
-                        minWidth);
+    if (std::isfinite(minWidth)) {
+      for (auto module : path.drivetrain.modules) {
+        problem.SubjectTo(dt.at(sgmtIndex) * module.wheelRadius *
+                              module.wheelMaxAngularVelocity <=
+                          minWidth);
+      }
     }
   }
 
-- 
2.43.0


From 824052a916928de4c562a1b10c67399dcab79285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:23 +0000
Subject: [PATCH 04/17] fix: compare squared line-point distance with squared
 minimum

---
 include/trajopt/constraint/LinePointConstraint.hpp | 5 +++--
 include/trajopt/constraint/PointLineConstraint.hpp | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/trajopt/constraint/LinePointConstraint.hpp b/include/trajopt/constraint/LinePointConstraint.hpp
index ded526c..4d0a392 100644
--- a/include/trajopt/constraint/LinePointConstraint.hpp
+++ b/include/trajopt/constraint/LinePointConstraint.hpp
@@ -61,8 +61,9 @@ class TRAJOPT_DLLEXPORT LinePointConstraint {
         pose.Translation() + m_robotLineStart.RotateBy(pose.Rotation());
     auto lineEnd =
         pose.Translation() + m_robotLineEnd.RotateBy(pose.Rotation());
-    auto dist = detail::LinePointDistance(lineStart, lineEnd, m_fieldPoint);
-    problem.SubjectTo(dist * dist >= m_minDistance * m_minDistance);
+    auto squaredDist =
+        detail::LinePointDistance(lineStart, lineEnd, m_fieldPoint);
+    problem.SubjectTo(squaredDist >= m_minDistance * m_minDistance);
   }
 
  private:
diff --git a/include/trajopt/constraint/PointLineConstraint.hpp b/include/trajopt/constraint/PointLineConstraint.hpp
index 13f362b..416fa5c 100644
--- a/include/trajopt/constraint/PointLineConstraint.hpp
+++ b/include/trajopt/constraint/PointLineConstraint.hpp
@@ -58,9 +58,9 @@ class TRAJOPT_DLLEXPORT PointLineConstraint {
              [[maybe_unused]] const Translation2v& linearAcceleration,
              [[maybe_unused]] const sleipnir::Variable& angularAcceleration) {
     auto point = pose.Translation() + m_robotPoint.RotateBy(pose.Rotation());
-    auto dist =
+    auto squaredDist =
         detail::LinePointDistance(m_fieldLineStart, m_fieldLineEnd, point);
-    problem.SubjectTo(dist * dist >= m_minDistance * m_minDistance);
+    problem.SubjectTo(squaredDist >= m_minDistance * m_minDistance);
   }
 
  private:
-- 
2.43.0


From de8db85ee5dd9c94f26343070ca7def81084ad9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:23 +0000
Subject: [PATCH 05/17] fix: let a point-at tolerance above pi allow any
 heading

---
 include/trajopt/constraint/PointAtConstraint.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/trajopt/constraint/PointAtConstraint.hpp b/include/trajopt/constraint/PointAtConstraint.hpp
index cab8077..729b0a2 100644
--- a/include/trajopt/constraint/PointAtConstraint.hpp
+++ b/include/trajopt/constraint/PointAtConstraint.hpp
@@ -2,7 +2,10 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cassert>
+#include <cmath>
+#include <numbers>
 #include <utility>
 
 #include <sleipnir/autodiff/Variable.hpp>
@@ -59,8 +62,10 @@ class TRAJOPT_DLLEXPORT PointAtConstraint {
     auto dx = m_fieldPoint.X() - pose.X();
     auto dy = m_fieldPoint.Y() - pose.Y();
     auto dot = pose.Rotation().Cos() * dx + pose.Rotation().Sin() * dy;
-    problem.SubjectTo(dot >=
-                      std::cos(m_headingTolerance) * sleipnir::hypot(dx, dy));
+    // the heading error is at most pi, so larger tolerances allow any heading
+    double cosTolerance =
+        std::cos(std::min(m_headingTolerance, std::numbers::pi));
+    problem.SubjectTo(dot >= cosTolerance * sleipnir::hypot(dx, dy));
   }
 
  private:
-- 
2.43.0


From 1fec2ab0eceab566d7243ef8743186efca4dbaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 06/17] fix: do not default construct the value when converting
 an expected

---
 include/trajopt/util/expected | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/trajopt/util/expected b/include/trajopt/util/expected
index 3163b07..2a05f26 100644
--- a/include/trajopt/util/expected
+++ b/include/trajopt/util/expected
@@ -1668,7 +1668,8 @@ class expected : private detail::expected_move_assign_base<T, E>,
             detail::expected_enable_from_other<T, E, U, G, const U&,
                                                const G&>* = nullptr>
   explicit TRAJOPT_EXPECTED_11_CONSTEXPR expected(const expected<U, G>& rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(*rhs);
     } else {
@@ -1683,7 +1684,8 @@ class expected : private detail::expected_move_assign_base<T, E>,
       detail::expected_enable_from_other<T, E, U, G, const U&, const G&>* =
           nullptr>
   TRAJOPT_EXPECTED_11_CONSTEXPR expected(const expected<U, G>& rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(*rhs);
     } else {
@@ -1697,7 +1699,8 @@ class expected : private detail::expected_move_assign_base<T, E>,
                             std::is_convertible<G&&, E>::value)>* = nullptr,
       detail::expected_enable_from_other<T, E, U, G, U&&, G&&>* = nullptr>
   explicit TRAJOPT_EXPECTED_11_CONSTEXPR expected(expected<U, G>&& rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(std::move(*rhs));
     } else {
@@ -1711,7 +1714,8 @@ class expected : private detail::expected_move_assign_base<T, E>,
                            std::is_convertible<G&&, E>::value)>* = nullptr,
       detail::expected_enable_from_other<T, E, U, G, U&&, G&&>* = nullptr>
   TRAJOPT_EXPECTED_11_CONSTEXPR expected(expected<U, G>&& rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(std::move(*rhs));
     } else {
-- 
2.43.0


From 4d9e6f439d2616796c25572c8dadae5311aa27b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 07/17] fix: compare errors for inequality in expected<void, E>

---
 include/trajopt/util/expected | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/trajopt/util/expected b/include/trajopt/util/expected
index 2a05f26..c61bee9 100644
--- a/include/trajopt/util/expected
+++ b/include/trajopt/util/expected
@@ -2467,7 +2467,7 @@ constexpr bool operator!=(const expected<void, E>& lhs,
                           const expected<void, F>& rhs) {
   return (lhs.has_value() != rhs.has_value())
              ? true
-             : (!lhs.has_value() ? lhs.error() == rhs.error() : false);
+             : (!lhs.has_value() ? lhs.error() != rhs.error() : false);
 }
 
 template <class T, class E, class U>
-- 
2.43.0


From ec23f15cbd03eae7af6ab45a0915e8047a8bd8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 08/17] fix: construct rolled back contents instead of
 assigning to dead objects

---
 include/trajopt/util/expected | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/trajopt/util/expected b/include/trajopt/util/expected
index c61bee9..4e970d0 100644
--- a/include/trajopt/util/expected
+++ b/include/trajopt/util/expected
@@ -799,7 +799,7 @@ struct expected_operations_base : expected_storage_base<T, E> {
       try {
         construct(rhs.get());
       } catch (...) {
-        geterr() = std::move(tmp);
+        new (std::addressof(geterr())) unexpected<E>(std::move(tmp));
         throw;
       }
 #else
@@ -834,7 +834,7 @@ struct expected_operations_base : expected_storage_base<T, E> {
       try {
         construct(std::move(rhs).get());
       } catch (...) {
-        geterr() = std::move(tmp);
+        new (std::addressof(geterr())) unexpected<E>(std::move(tmp));
         throw;
       }
 #else
@@ -1783,7 +1783,7 @@ class expected : private detail::expected_move_assign_base<T, E>,
         ::new (valptr()) T(std::forward<U>(v));
         this->m_has_val = true;
       } catch (...) {
-        err() = std::move(tmp);
+        ::new (errptr()) unexpected<E>(std::move(tmp));
         throw;
       }
 #else
@@ -1852,7 +1852,7 @@ class expected : private detail::expected_move_assign_base<T, E>,
         ::new (valptr()) T(std::forward<Args>(args)...);
         this->m_has_val = true;
       } catch (...) {
-        err() = std::move(tmp);
+        ::new (errptr()) unexpected<E>(std::move(tmp));
         throw;
       }
 #else
@@ -1892,7 +1892,7 @@ class expected : private detail::expected_move_assign_base<T, E>,
         ::new (valptr()) T(il, std::forward<Args>(args)...);
         this->m_has_val = true;
       } catch (...) {
-        err() = std::move(tmp);
+        ::new (errptr()) unexpected<E>(std::move(tmp));
         throw;
       }
 #else
@@ -1955,7 +1955,7 @@ class expected : private detail::expected_move_assign_base<T, E>,
       ::new (rhs.valptr()) T(std::move(temp));
       std::swap(this->m_has_val, rhs.m_has_val);
     } catch (...) {
-      val() = std::move(temp);
+      ::new (valptr()) T(std::move(temp));
       throw;
     }
 #else
@@ -1978,7 +1978,7 @@ class expected : private detail::expected_move_assign_base<T, E>,
       ::new (errptr()) unexpected_type(std::move(temp));
       std::swap(this->m_has_val, rhs.m_has_val);
     } catch (...) {
-      rhs.err() = std::move(temp);
+      ::new (rhs.errptr()) unexpected_type(std::move(temp));
       throw;
     }
 #else
-- 
2.43.0


From 6e3455aa8b47de45bcda724873a648f154b41c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:34 +0000
Subject: [PATCH 09/17] fix: let exceptions of contents leave assignments of
 expected

---
 include/trajopt/util/expected | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/include/trajopt/util/expected b/include/trajopt/util/expected
index 4e970d0..a10a3d8 100644
--- a/include/trajopt/util/expected
+++ b/include/trajopt/util/expected
@@ -756,7 +756,7 @@ struct expected_operations_base : expected_storage_base<T, E> {
   template <class U = T,
             detail::enable_if_t<std::is_nothrow_copy_constructible<U>::value>* =
                 nullptr>
-  void assign(const expected_operations_base& rhs) noexcept {
+  void assign(const expected_operations_base& rhs) {
     if (!this->m_has_val && rhs.m_has_val) {
       geterr().~unexpected<E>();
       construct(rhs.get());
@@ -771,7 +771,7 @@ struct expected_operations_base : expected_storage_base<T, E> {
             detail::enable_if_t<!std::is_nothrow_copy_constructible<U>::value &&
                                 std::is_nothrow_move_constructible<U>::value>* =
                 nullptr>
-  void assign(const expected_operations_base& rhs) noexcept {
+  void assign(const expected_operations_base& rhs) {
     if (!this->m_has_val && rhs.m_has_val) {
       T tmp = rhs.get();
       geterr().~unexpected<E>();
@@ -797,7 +797,8 @@ struct expected_operations_base : expected_storage_base<T, E> {
 
 #ifdef TRAJOPT_EXPECTED_EXCEPTIONS_ENABLED
       try {
-        construct(rhs.get());
+        new (std::addressof(this->m_val)) T(rhs.get());
+        this->m_has_val = true;
       } catch (...) {
         new (std::addressof(geterr())) unexpected<E>(std::move(tmp));
         throw;
@@ -814,7 +815,7 @@ struct expected_operations_base : expected_storage_base<T, E> {
   template <class U = T,
             detail::enable_if_t<std::is_nothrow_move_constructible<U>::value>* =
                 nullptr>
-  void assign(expected_operations_base&& rhs) noexcept {
+  void assign(expected_operations_base&& rhs) {
     if (!this->m_has_val && rhs.m_has_val) {
       geterr().~unexpected<E>();
       construct(std::move(rhs).get());
@@ -832,7 +833,8 @@ struct expected_operations_base : expected_storage_base<T, E> {
       geterr().~unexpected<E>();
 #ifdef TRAJOPT_EXPECTED_EXCEPTIONS_ENABLED
       try {
-        construct(std::move(rhs).get());
+        new (std::addressof(this->m_val)) T(std::move(rhs).get());
+        this->m_has_val = true;
       } catch (...) {
         new (std::addressof(geterr())) unexpected<E>(std::move(tmp));
         throw;
@@ -936,7 +938,7 @@ struct expected_operations_base<void, E> : expected_storage_base<void, E> {
   }
 
   template <class Rhs>
-  void assign(Rhs&& rhs) noexcept {
+  void assign(Rhs&& rhs) {
     if (!this->m_has_val) {
       if (rhs.m_has_val) {
         geterr().~unexpected<E>();
@@ -946,7 +948,9 @@ struct expected_operations_base<void, E> : expected_storage_base<void, E> {
       }
     } else {
       if (!rhs.m_has_val) {
-        construct_error(std::forward<Rhs>(rhs).geterr());
+        new (std::addressof(this->m_unexpect))
+            unexpected<E>(std::forward<Rhs>(rhs).geterr());
+        this->m_has_val = false;
       }
     }
   }
@@ -1107,8 +1111,10 @@ struct expected_move_assign_base<T, E, false>
 
   expected_move_assign_base&
   operator=(expected_move_assign_base&& rhs) noexcept(
-      std::is_nothrow_move_constructible<T>::value &&
-      std::is_nothrow_move_assignable<T>::value) {
+      is_void_or<T, conjunction<std::is_nothrow_move_constructible<T>,
+                                std::is_nothrow_move_assignable<T>>>::value &&
+      std::is_nothrow_move_constructible<E>::value &&
+      std::is_nothrow_move_assignable<E>::value) {
     this->assign(std::move(rhs));
     return *this;
   }
@@ -1813,7 +1819,8 @@ class expected : private detail::expected_move_assign_base<T, E>,
   template <class G = E,
             detail::enable_if_t<std::is_nothrow_move_constructible<G>::value &&
                                 std::is_move_assignable<G>::value>* = nullptr>
-  expected& operator=(unexpected<G>&& rhs) noexcept {
+  expected& operator=(unexpected<G>&& rhs) noexcept(
+      std::is_nothrow_move_assignable<G>::value) {
     if (!has_value()) {
       err() = std::move(rhs);
     } else {
-- 
2.43.0


From 217dd94e5b8796a9c74c3df38fa3087fffb9e0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:35 +0000
Subject: [PATCH 10/17] fix: keep the value of an expected if assigning an
 error throws

---
 include/trajopt/util/expected | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/include/trajopt/util/expected b/include/trajopt/util/expected
index a10a3d8..861cde1 100644
--- a/include/trajopt/util/expected
+++ b/include/trajopt/util/expected
@@ -877,8 +877,7 @@ struct expected_operations_base : expected_storage_base<T, E> {
       if (rhs.m_has_val) {
         get() = std::forward<Rhs>(rhs).get();
       } else {
-        destroy_val();
-        construct_error(std::forward<Rhs>(rhs).geterr());
+        replace_val(std::forward<Rhs>(rhs).geterr());
       }
     } else {
       if (!rhs.m_has_val) {
@@ -887,6 +886,35 @@ struct expected_operations_base : expected_storage_base<T, E> {
     }
   }
 
+  // Replaces the value by an error. The value is kept if constructing the error
+  // throws.
+  template <class Err>
+  void replace_val(Err&& e) {
+    if constexpr (std::is_nothrow_constructible<unexpected<E>, Err>::value) {
+      destroy_val();
+      construct_error(std::forward<Err>(e));
+    } else if constexpr (std::is_nothrow_move_constructible<E>::value) {
+      unexpected<E> tmp(std::forward<Err>(e));
+      destroy_val();
+      construct_error(std::move(tmp));
+    } else {
+      T tmp = std::move(get());
+      destroy_val();
+#ifdef TRAJOPT_EXPECTED_EXCEPTIONS_ENABLED
+      try {
+        new (std::addressof(this->m_unexpect))
+            unexpected<E>(std::forward<Err>(e));
+        this->m_has_val = false;
+      } catch (...) {
+        new (std::addressof(this->m_val)) T(std::move(tmp));
+        throw;
+      }
+#else
+      construct_error(std::forward<Err>(e));
+#endif
+    }
+  }
+
   bool has_value() const { return this->m_has_val; }
 
   TRAJOPT_EXPECTED_11_CONSTEXPR T& get() & { return this->m_val; }
-- 
2.43.0


From 12993308f3729e566e707626f41e71787fa96411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:35 +0000
Subject: [PATCH 11/17] fix: keep the value of an expected if emplacing another
 throws

---
 include/trajopt/util/expected | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/trajopt/util/expected b/include/trajopt/util/expected
index 861cde1..a684c76 100644
--- a/include/trajopt/util/expected
+++ b/include/trajopt/util/expected
@@ -1876,8 +1876,13 @@ class expected : private detail::expected_move_assign_base<T, E>,
                                T, Args&&...>::value>* = nullptr>
   void emplace(Args&&... args) {
     if (has_value()) {
-      val().~T();
-      ::new (valptr()) T(std::forward<Args>(args)...);
+      if constexpr (std::is_nothrow_move_constructible<T>::value) {
+        T t(std::forward<Args>(args)...);
+        val().~T();
+        ::new (valptr()) T(std::move(t));
+      } else {
+        val() = T(std::forward<Args>(args)...);
+      }
     } else {
       auto tmp = std::move(err());
       err().~unexpected<E>();
-- 
2.43.0


From b3c618ae70c01aef08814bdf8cde44585bda599c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:55 +0000
Subject: [PATCH 12/17] fix: keep progress report state per generator

---
 include/trajopt/SwerveTrajectoryGenerator.hpp |  2 +-
 src/SwerveTrajectoryGenerator.cpp             | 12 +++++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/trajopt/SwerveTrajectoryGenerator.hpp b/include/trajopt/SwerveTrajectoryGenerator.hpp
index 4e31baf..2b85f2c 100644
--- a/include/trajopt/SwerveTrajectoryGenerator.hpp
+++ b/include/trajopt/SwerveTrajectoryGenerator.hpp
@@ -70,7 +70,7 @@ class TRAJOPT_DLLEXPORT SwerveTrajectoryGenerator {
   std::vector<size_t> N;
 
   sleipnir::OptimizationProblem problem;
-  std::vector<std::function<void()>> callbacks;
+  std::vector<std::function<void(SwerveTrajectoryGenerator&)>> callbacks;
 
   void ApplyInitialGuess(const SwerveSolution& solution);
 
diff --git a/src/SwerveTrajectoryGenerator.cpp b/src/SwerveTrajectoryGenerator.cpp
index 1248180..18aa57f 100644
--- a/src/SwerveTrajectoryGenerator.cpp
+++ b/src/SwerveTrajectoryGenerator.cpp
@@ -43,12 +43,14 @@ SwerveTrajectoryGenerator::SwerveTrajectoryGenerator(
     : path(pathBuilder.GetPath()), N(pathBuilder.GetControlIntervalCounts()) {
   auto initialGuess = pathBuilder.CalculateInitialGuess();
 
-  callbacks.emplace_back([this, handle = handle] {
+  // The generator is passed in because it may have been copied or moved since
+  callbacks.emplace_back([handle = handle,
+                          lastFrameTime = std::chrono::steady_clock::now()](
+                             SwerveTrajectoryGenerator& generator) mutable {
     constexpr int fps = 60;
     constexpr std::chrono::duration<double> timePerFrame{1.0 / fps};
 
     // FPS limit on sending updates
-    static auto lastFrameTime = std::chrono::steady_clock::now();
     auto now = std::chrono::steady_clock::now();
     if (now - lastFrameTime < timePerFrame) {
       return;
@@ -56,8 +58,8 @@ SwerveTrajectoryGenerator::SwerveTrajectoryGenerator(
 
     lastFrameTime = now;
 
-    auto soln = ConstructSwerveSolution();
-    for (auto& callback : this->path.callbacks) {
+    auto soln = generator.ConstructSwerveSolution();
+    for (auto& callback : generator.path.callbacks) {
       callback(soln, handle);
     }
   });
@@ -287,7 +289,7 @@ expected<SwerveSolution, std::string> SwerveTrajectoryGenerator::Generate(
   GetCancellationFlag() = 0;
   problem.Callback([this](const sleipnir::SolverIterationInfo&) -> bool {
     for (auto& callback : callbacks) {
-      callback();
+      callback(*this);
     }
     return trajopt::GetCancellationFlag();
   });
-- 
2.43.0


From 0bd129644448407fdfcacf5742bbba63ebe7ab46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 13/17] fix: keep cancellation requests for running generations
 when another starts

---
 src/SwerveTrajectoryGenerator.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/SwerveTrajectoryGenerator.cpp b/src/SwerveTrajectoryGenerator.cpp
index 18aa57f..7f8024f 100644
--- a/src/SwerveTrajectoryGenerator.cpp
+++ b/src/SwerveTrajectoryGenerator.cpp
@@ -5,8 +5,10 @@
 #include <stdint.h>
 
 #include <algorithm>
+#include <atomic>
 #include <chrono>
 #include <cmath>
+#include <mutex>
 #include <utility>
 
 #include <sleipnir/optimization/OptimizationProblem.hpp>
@@ -286,12 +288,27 @@ SwerveTrajectoryGenerator::SwerveTrajectoryGenerator(
 
 expected<SwerveSolution, std::string> SwerveTrajectoryGenerator::Generate(
     bool diagnostics) {
-  GetCancellationFlag() = 0;
-  problem.Callback([this](const sleipnir::SolverIterationInfo&) -> bool {
+  // Clearing the cancellation flag must not hide a request from the generations
+  // already running, so they also stop when the number of cleared requests has
+  // changed since they started
+  static std::mutex startMutex;
+  static std::atomic<int> clearedRequests{0};
+  int clearedAtStart;
+  {
+    std::scoped_lock lock{startMutex};
+    if (GetCancellationFlag() != 0) {
+      ++clearedRequests;
+      GetCancellationFlag() = 0;
+    }
+    clearedAtStart = clearedRequests;
+  }
+
+  problem.Callback([this, clearedAtStart](
+                       const sleipnir::SolverIterationInfo&) -> bool {
     for (auto& callback : callbacks) {
       callback(*this);
     }
-    return trajopt::GetCancellationFlag();
+    return GetCancellationFlag() != 0 || clearedRequests != clearedAtStart;
   });
 
   // tolerance of 1e-4 is 0.1 mm
-- 
2.43.0


From c51bc3dfbd939c91193852611bf84328b3c9564d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:31 +0000
Subject: [PATCH 14/17] fix: close obstacles with the edge from their own last
 corner

---
 src/path/SwervePathBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/path/SwervePathBuilder.cpp b/src/path/SwervePathBuilder.cpp
index 73afbc4..3d1499b 100644
--- a/src/path/SwervePathBuilder.cpp
+++ b/src/path/SwervePathBuilder.cpp
@@ -104,7 +104,7 @@ void SwervePathBuilder::WptObstacle(size_t index, const Obstacle& obstacle) {
         if (obstacleCornerCount >= 3) {
           WptConstraint(index, PointLineConstraint{
                                    bumperCorner,
-                                   obstacle.points.at(bumperCornerCount - 1),
+                                   obstacle.points.at(obstacleCornerCount - 1),
                                    obstacle.points.at(0), minDistance});
         }
       } else {
@@ -168,7 +168,7 @@ void SwervePathBuilder::SgmtObstacle(size_t fromIndex, size_t toIndex,
           SgmtConstraint(
               fromIndex, toIndex,
               PointLineConstraint{bumperCorner,
-                                  obstacle.points.at(bumperCornerCount - 1),
+                                  obstacle.points.at(obstacleCornerCount - 1),
                                   obstacle.points.at(0), minDistance});
         }
       } else {
-- 
2.43.0


From 79cc4c1a98c463821c56e890a61f37527d2da7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:05 +0000
Subject: [PATCH 15/17] fix: apply an obstacle to all bumpers after a
 single-point one

---
 src/path/SwervePathBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/path/SwervePathBuilder.cpp b/src/path/SwervePathBuilder.cpp
index 3d1499b..c3d9663 100644
--- a/src/path/SwervePathBuilder.cpp
+++ b/src/path/SwervePathBuilder.cpp
@@ -66,7 +66,7 @@ void SwervePathBuilder::WptObstacle(size_t index, const Obstacle& obstacle) {
       WptConstraint(index,
                     PointPointConstraint{_bumpers.points.at(0),
                                          obstacle.points.at(0), minDistance});
-      return;
+      continue;
     }
 
     // robot bumper edge to obstacle point constraints
@@ -128,7 +128,7 @@ void SwervePathBuilder::SgmtObstacle(size_t fromIndex, size_t toIndex,
       SgmtConstraint(fromIndex, toIndex,
                      PointPointConstraint{_bumpers.points.at(0),
                                           obstacle.points.at(0), minDistance});
-      return;
+      continue;
     }
 
     // robot bumper edge to obstacle point constraints
-- 
2.43.0


From a230afd651ea382404ad1c262e8f79ca1f2ffb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:40 +0000
Subject: [PATCH 16/17] fix: read the coordinates of other translation types
 through accessors

---
 include/trajopt/geometry/Translation2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/trajopt/geometry/Translation2.hpp b/include/trajopt/geometry/Translation2.hpp
index 8b2ad7c..47384e5 100644
--- a/include/trajopt/geometry/Translation2.hpp
+++ b/include/trajopt/geometry/Translation2.hpp
@@ -55,7 +55,7 @@ class Translation2 {
    */
   template <typename U>
   constexpr explicit Translation2(const Translation2<U>& other)
-      : m_x{other.m_x}, m_y{other.m_y} {}
+      : m_x{other.X()}, m_y{other.Y()} {}
 
   /**
    * Returns the x component of the translation.
-- 
2.43.0


From 4d09314d2646dd5ca4bf4841eeefae6660681658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:40 +0000
Subject: [PATCH 17/17] fix: rotate rotations of variables by rotations of
 numbers

---
 include/trajopt/geometry/Rotation2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/trajopt/geometry/Rotation2.hpp b/include/trajopt/geometry/Rotation2.hpp
index 148665b..af452b2 100644
--- a/include/trajopt/geometry/Rotation2.hpp
+++ b/include/trajopt/geometry/Rotation2.hpp
@@ -90,7 +90,7 @@ class Rotation2 {
    * @return The new rotated rotation.
    */
   template <typename U>
-  constexpr Rotation2<U> RotateBy(const Rotation2<U>& other) const {
+  constexpr auto RotateBy(const Rotation2<U>& other) const {
     using R = decltype(std::declval<T>() + std::declval<U>());
     return Rotation2<R>{Cos() * other.Cos() - Sin() * other.Sin(),
                         Cos() * other.Sin() + Sin() * other.Cos()};
-- 
2.43.0

