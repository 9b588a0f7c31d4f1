// sources: src/maliput/geometry_base/strategy_base.cc src/maliput/api/lane.cc src/maliput/api/lane_data.cc src/maliput/math/vector.cc
// native: src/maliput/geometry_base/strategy_base.cc src/maliput/api/lane.cc src/maliput/api/lane_data.cc src/maliput/math/quaternion.cc src/maliput/math/vector.cc src/maliput/math/matrix.cc src/maliput/math/roll_pitch_yaw.cc src/maliput/common/maliput_abort_and_throw.cc
#include "maliput/geometry_base/strategy_base.h"

#include "maliput/api/lane.h"
#include "maliput/api/lane_data.h"
#include "fakes.h"
#include "vc.h"

using maliput::api::RBounds;
using maliput::api::RoadPositionResult;
using maliput::geometry_base::IsNewRoadPositionResultCloser;

namespace c08 {

double Abs(double x) { return x < 0. ? -x : x; }
// Whether the result is within the bounds of its lane (the right edge is, the left one is not).
bool Inside(const RoadPositionResult& x) {
  const RBounds b = x.road_position.lane->lane_bounds(x.road_position.pos.s());
  return b.min() <= x.road_position.pos.r() && x.road_position.pos.r() < b.max();
}
bool OnLane(const RoadPositionResult& x) {
  return x.road_position.lane != nullptr;
}

VC_PROOF("C08", "the closer distance wins unless the distances agree")
void Distance(const RoadPositionResult& a, const RoadPositionResult& b) {
  vc::assume(OnLane(a) && OnLane(b));
  const bool closer = IsNewRoadPositionResultCloser(a, b);
  vc::check(!(a.distance - b.distance < -1e-12) || closer, "a smaller distance is closer");
  vc::check(!(a.distance - b.distance >= 1e-12) || !closer, "a larger distance is not closer");
}

VC_PROOF("C08", "ties are settled by the lane bounds and then by the lateral coordinate")
void Ties(const RoadPositionResult& a, const RoadPositionResult& b) {
  vc::assume(OnLane(a) && OnLane(b));
  vc::assume(-1e-12 <= a.distance - b.distance && a.distance - b.distance < 1e-12);
  const bool closer = IsNewRoadPositionResultCloser(a, b);
  const bool in_a = Inside(a), in_b = Inside(b);
  vc::check(!(in_a && !in_b) || closer, "a position inside its lane is closer than one outside");
  vc::check(!(!in_a && in_b) || !closer, "a position outside its lane is not closer than one inside");
  vc::check(in_a != in_b || closer == (Abs(a.road_position.pos.r()) < Abs(b.road_position.pos.r())),
            "otherwise the smaller lateral coordinate is closer");
}

VC_PROOF("C08", "two results are never closer than each other")
void Asymmetric(const RoadPositionResult& a, const RoadPositionResult& b) {
  vc::assume(OnLane(a) && OnLane(b));
  vc::check(!IsNewRoadPositionResultCloser(a, a), "a result is not closer than itself");
  vc::check(!(IsNewRoadPositionResultCloser(a, b) && IsNewRoadPositionResultCloser(b, a)), "closeness is asymmetric");
}

VC_PROOF("C08", "results at the same distance are ranked consistently")
void Transitive(const RoadPositionResult& a, const RoadPositionResult& b, const RoadPositionResult& c) {
  vc::assume(OnLane(a) && OnLane(b) && OnLane(c));
  vc::assume(a.distance == b.distance && b.distance == c.distance);
  vc::check(!(IsNewRoadPositionResultCloser(a, b) && IsNewRoadPositionResultCloser(b, c)) || IsNewRoadPositionResultCloser(a, c),
            "closeness is transitive among equal distances");
  vc::check(!(!IsNewRoadPositionResultCloser(a, b) && !IsNewRoadPositionResultCloser(b, c)) || !IsNewRoadPositionResultCloser(a, c),
            "so is not being closer");
}

}  // namespace c08
