From c8a6b8cfd321dcba443b8fe3beec805fabd771fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 1/9] fix: LaneSRoute::Intersects considers every range of a
 repeated lane

Only the first range of the other route with the same lane id was evaluated,
so routes that visit a lane more than once could miss an intersection.
---
 src/maliput/api/regions.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/maliput/api/regions.cc b/src/maliput/api/regions.cc
index 00289e0..fef5c78 100644
--- a/src/maliput/api/regions.cc
+++ b/src/maliput/api/regions.cc
@@ -136,11 +136,8 @@ std::optional<LaneSRange> LaneSRange::GetIntersection(const LaneSRange& lane_s_r
 
 bool LaneSRoute::Intersects(const LaneSRoute& lane_s_route, double tolerance) const {
   for (const auto& s_range : ranges()) {
-    const auto lane_s_range_it =
-        std::find_if(lane_s_route.ranges().begin(), lane_s_route.ranges().end(),
-                     [s_range](const LaneSRange& lane_s_range) { return s_range.lane_id() == lane_s_range.lane_id(); });
-    if (lane_s_range_it != lane_s_route.ranges().end()) {
-      if (s_range.Intersects(*lane_s_range_it, tolerance)) {
+    for (const auto& other_s_range : lane_s_route.ranges()) {
+      if (s_range.Intersects(other_s_range, tolerance)) {
         return true;
       }
     }
-- 
2.43.0


From f05c7f43009d0b6192731e48e1b0a17bf06a9154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 2/9] fix: IsIncluded evaluates every range, not only the first
 whose lane is close enough

The search stopped at the first range whose lane contained the position even
when the s coordinate fell out of that range, so a later range of the same (or
an overlapping) lane that includes the position was ignored.
---
 src/maliput/api/regions.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/maliput/api/regions.cc b/src/maliput/api/regions.cc
index fef5c78..eabeabc 100644
--- a/src/maliput/api/regions.cc
+++ b/src/maliput/api/regions.cc
@@ -158,7 +158,9 @@ bool IsIncluded(const InertialPosition& inertial_position, const std::vector<Lan
         road_geometry->ById().GetLane(lane_s_range.lane_id())->ToLanePosition(inertial_position);
     if (result.distance <= linear_tolerance) {
       const double s_position = result.lane_position.s();
-      return lane_s_range.s_range().Intersects(SRange(s_position, s_position), linear_tolerance);
+      if (lane_s_range.s_range().Intersects(SRange(s_position, s_position), linear_tolerance)) {
+        return true;
+      }
     }
   }
   return false;
-- 
2.43.0


From 6d438ba948d03b4b1354273350ccca33a507bcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 3/9] fix: Rotation::Distance is not NaN when rounding takes a
 cosine out of [-1, 1]

The distance of most rotations to themselves was NaN, which made IsContiguous
return false for ranges with the very same orientation.
---
 src/maliput/api/lane_data.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/maliput/api/lane_data.cc b/src/maliput/api/lane_data.cc
index 7540038..50fb6cc 100644
--- a/src/maliput/api/lane_data.cc
+++ b/src/maliput/api/lane_data.cc
@@ -29,6 +29,7 @@
 // OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #include "maliput/api/lane_data.h"
 
+#include <algorithm>
 #include <cmath>
 #include <iostream>
 
@@ -84,10 +85,10 @@ double Rotation::Distance(const Rotation& rot) const {
   const InertialPosition bs = rot.Apply({1., 0., 0.});
   const InertialPosition br = rot.Apply({0., 1., 0.});
   const InertialPosition bh = rot.Apply({0., 0., 1.});
-  // Compute angles between pairs of unit vectors.
-  const double ds = std::acos(as.xyz().dot(bs.xyz()));
-  const double dr = std::acos(ar.xyz().dot(br.xyz()));
-  const double dh = std::acos(ah.xyz().dot(bh.xyz()));
+  // Compute angles between pairs of unit vectors. Rounding may take the cosine slightly out of [-1, 1].
+  const double ds = std::acos(std::clamp(as.xyz().dot(bs.xyz()), -1., 1.));
+  const double dr = std::acos(std::clamp(ar.xyz().dot(br.xyz()), -1., 1.));
+  const double dh = std::acos(std::clamp(ah.xyz().dot(bh.xyz()), -1., 1.));
 
   return std::sqrt((ds * ds) + (dr * dr) + (dh * dh));
 }
-- 
2.43.0


From b63564ecc97aa5f18269a4f99047e05fedba161c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 4/9] fix: Quaternion::SetFromTwoVectors picks a helper axis
 that is not parallel to the first vector

The absolute value of the components was ignored in one comparison: for
(0, 0, -1) and (0, 0, 1) the rotation axis was the cross product of parallel
vectors and the quaternion was NaN.
---
 src/maliput/math/quaternion.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maliput/math/quaternion.cc b/src/maliput/math/quaternion.cc
index 42eed34..5e2cfbf 100644
--- a/src/maliput/math/quaternion.cc
+++ b/src/maliput/math/quaternion.cc
@@ -717,7 +717,7 @@ void Quaternion::SetFromTwoVectors(const Vector3& a, const Vector3& b) {
           other = Vector3(0, 0, 1);
         }
       } else {
-        if (a.y() < a.z()) {
+        if (a_abs.y() < a_abs.z()) {
           other = Vector3(0, 1, 0);
         } else {
           other = Vector3(0, 0, 1);
-- 
2.43.0


From 034ed929ed05077019a3e501019b888017600f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:28 +0000
Subject: [PATCH 5/9] fix: Rule::State equality compares related groups in both
 directions

---
 src/maliput/api/rules/rule.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/maliput/api/rules/rule.cc b/src/maliput/api/rules/rule.cc
index 8d3e6cd..a7c2105 100644
--- a/src/maliput/api/rules/rule.cc
+++ b/src/maliput/api/rules/rule.cc
@@ -29,6 +29,8 @@
 // OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #include "maliput/api/rules/rule.h"
 
+#include <algorithm>
+
 #include "maliput/common/maliput_throw.h"
 
 namespace maliput {
@@ -50,10 +52,8 @@ bool CompareMapAttributes(const std::map<std::string, std::vector<T>>& map_a,
     if (it == map_b.end()) {
       return false;
     }
-    for (const auto& value_id : key_val.second) {
-      if (std::find(it->second.begin(), it->second.end(), value_id) == it->second.end()) {
-        return false;
-      }
+    if (!std::is_permutation(key_val.second.begin(), key_val.second.end(), it->second.begin(), it->second.end())) {
+      return false;
     }
   }
   return true;
-- 
2.43.0


From 3607d4180ad8065528b1a7adf3afe49ea8726b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:49 +0000
Subject: [PATCH 6/9] fix: PhaseRing rejects phases of which only some define
 bulb states

---
 src/maliput/api/rules/phase_ring.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/maliput/api/rules/phase_ring.cc b/src/maliput/api/rules/phase_ring.cc
index daee203..8537c3d 100644
--- a/src/maliput/api/rules/phase_ring.cc
+++ b/src/maliput/api/rules/phase_ring.cc
@@ -66,6 +66,9 @@ void VerifyAllPhasesHaveSameCoverage(const PhaseRing::Id& id, const std::vector<
                            ") has duplicated discrete value rule states");
     }
     // Require both set of bulb states to be defined or undefined together.
+    MALIPUT_VALIDATE(phase.bulb_states().has_value() == r.bulb_states().has_value(),
+                     "PhaseRing(" + id.string() + "). Phase(" + phase.id().string() + ") and Phase(" + r.id().string() +
+                         ") must both have or both lack bulb_states.");
     if (r.bulb_states() != std::nullopt) {
       MALIPUT_VALIDATE(phase.bulb_states()->size() == r.bulb_states()->size(),
                        "Phase(" + id.string() + "). Phase(" + phase.id().string() + ") and Phase(" + r.id().string() +
-- 
2.43.0


From 2f19d40fcf1db30c99940ac9a504461890359601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:17 +0000
Subject: [PATCH 7/9] fix: PhaseRing rejects next phases that are not among its
 phases

---
 src/maliput/api/rules/phase_ring.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/maliput/api/rules/phase_ring.cc b/src/maliput/api/rules/phase_ring.cc
index 8537c3d..df32194 100644
--- a/src/maliput/api/rules/phase_ring.cc
+++ b/src/maliput/api/rules/phase_ring.cc
@@ -92,6 +92,14 @@ void VerifyNextPhases(const PhaseRing::Id& id, const std::vector<Phase>& phases,
         next_phases.find(phase.id()) != next_phases.end(),
         "In PhaseRing(" + id.string() + "), the Phase(" + phase.id().string() + ") is not in next_phases.");
   }
+  for (const auto& phase_id_to_next_phases : next_phases) {
+    for (const auto& next_phase : phase_id_to_next_phases.second) {
+      // The keys of `next_phases` are exactly the ids of `phases`.
+      MALIPUT_VALIDATE(
+          next_phases.find(next_phase.id) != next_phases.end(),
+          "In PhaseRing(" + id.string() + "), the next Phase(" + next_phase.id.string() + ") is not in phases.");
+    }
+  }
 }
 
 }  // namespace
-- 
2.43.0


From 68fe6b3d32d39c0cf632f62325f6fad20699edd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:20 +0000
Subject: [PATCH 8/9] fix: IntersectionBook::AddIntersection names a duplicate
 id without using the moved-from intersection

---
 src/maliput/base/intersection_book.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/maliput/base/intersection_book.cc b/src/maliput/base/intersection_book.cc
index b8a19e9..b133f71 100644
--- a/src/maliput/base/intersection_book.cc
+++ b/src/maliput/base/intersection_book.cc
@@ -53,9 +53,10 @@ class IntersectionBook::Impl {
 
   void AddIntersection(std::unique_ptr<Intersection> intersection) {
     MALIPUT_THROW_UNLESS(intersection != nullptr);
-    auto result = book_.emplace(intersection->id(), std::move(intersection));
+    const Intersection::Id id = intersection->id();
+    auto result = book_.emplace(id, std::move(intersection));
     if (!result.second) {
-      throw std::logic_error("Attempted to add multiple Intersection instances with ID " + intersection->id().string());
+      throw std::logic_error("Attempted to add multiple Intersection instances with ID " + id.string());
     }
   }
 
-- 
2.43.0


From 69ad945746ec2adafb24249d3a5e3c85dc943861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:20 +0000
Subject: [PATCH 9/9] fix: ManualPhaseRingBook::AddPhaseRing leaves the book
 unchanged when it throws

---
 src/maliput/base/manual_phase_ring_book.cc | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/maliput/base/manual_phase_ring_book.cc b/src/maliput/base/manual_phase_ring_book.cc
index cb20aae..6378de4 100644
--- a/src/maliput/base/manual_phase_ring_book.cc
+++ b/src/maliput/base/manual_phase_ring_book.cc
@@ -51,27 +51,35 @@ class ManualPhaseRingBook::Impl {
   ~Impl() {}
 
   void AddPhaseRing(const PhaseRing& ring) {
-    auto result = ring_book_.emplace(ring.id(), ring);
-    if (!result.second) {
+    if (ring_book_.find(ring.id()) != ring_book_.end()) {
       throw std::logic_error("Attempted to add multiple PhaseRing instances with ID " + ring.id().string());
     }
     const Phase& phase = ring.phases().begin()->second;
+    // Every rule is verified before the book is modified.
 #pragma GCC diagnostic push
 #pragma GCC diagnostic ignored "-Wdeprecated-declarations"
     for (const auto& element : phase.rule_states()) {
-      auto r = right_of_way_rule_book_.emplace(element.first, ring.id());
-#pragma GCC diagnostic pop
-      if (!r.second) {
+      if (right_of_way_rule_book_.find(element.first) != right_of_way_rule_book_.end()) {
         throw std::logic_error("RightOfWayRule with ID " + element.first.string() +
                                " is part of more than one PhaseRing.");
       }
     }
+#pragma GCC diagnostic pop
     for (const auto& element : phase.discrete_value_rule_states()) {
-      auto r = rule_book_.emplace(element.first, ring.id());
-      if (!r.second) {
+      if (rule_book_.find(element.first) != rule_book_.end()) {
         throw std::logic_error("Rule with ID " + element.first.string() + " is part of more than one PhaseRing.");
       }
     }
+    ring_book_.emplace(ring.id(), ring);
+#pragma GCC diagnostic push
+#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
+    for (const auto& element : phase.rule_states()) {
+      right_of_way_rule_book_.emplace(element.first, ring.id());
+    }
+#pragma GCC diagnostic pop
+    for (const auto& element : phase.discrete_value_rule_states()) {
+      rule_book_.emplace(element.first, ring.id());
+    }
   }
 
   void RemovePhaseRing(const PhaseRing::Id& ring_id) {
-- 
2.43.0

