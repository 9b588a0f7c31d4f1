// sources: src/maliput/api/regions.cc src/maliput/api/lane_data.cc src/maliput/api/road_geometry.cc src/maliput/api/lane.cc src/maliput/math/quaternion.cc src/maliput/math/vector.cc src/maliput/math/matrix.cc src/maliput/math/roll_pitch_yaw.cc
// native: src/maliput/api/regions.cc src/maliput/api/lane_data.cc src/maliput/api/road_geometry.cc src/maliput/api/lane.cc src/maliput/math/quaternion.cc src/maliput/math/vector.cc src/maliput/math/matrix.cc src/maliput/math/roll_pitch_yaw.cc src/maliput/common/maliput_abort_and_throw.cc
#include "ranges.h"
#include "fakes.h"
#include "maliput/api/lane.h"
#include "maliput/api/lane_data.h"
#include "maliput/api/road_geometry.h"
using namespace ranges;
using maliput::api::InertialPosition;
using maliput::api::Lane;
using maliput::api::LanePosition;
using maliput::api::LanePositionResult;
using maliput::api::LaneSRange;
using maliput::api::LaneId;
using maliput::api::RoadGeometry;
using maliput::api::Rotation;

namespace c03 {

const Lane* LaneOf(const RoadGeometry& rg, const LaneSRange& r) { return rg.ById().GetLane(r.lane_id()); }

VC_PROOF("C03", "a point is included when some range holds it up to the linear tolerance")
void Included(const RoadGeometry& rg, const InertialPosition& p, const std::vector<LaneSRange>& rs) {
  vc::assume(!rs.empty() && rg.linear_tolerance() >= 0.);
  vc::assume(vc::forall(0, rs.size(), [&](long i) { return LaneOf(rg, rs[i]) != nullptr && LaneOf(rg, rs[i])->ToLanePosition(p).lane_position.s() >= 0.; }));
  const double tol = rg.linear_tolerance();
  const bool some = vc::exists(0, rs.size(), [&](long i) {
    const LanePositionResult r = LaneOf(rg, rs[i])->ToLanePosition(p);
    return r.distance <= tol && Within(r.lane_position.s(), rs[i].s_range(), tol);
  });
  vc::check(maliput::api::IsIncluded(p, rs, &rg) == some, "included exactly when a range holds the position");
}

VC_PROOF("C03", "inclusion rejects null, empty and unknown lanes")
void IncludedRejects(const RoadGeometry& rg, const InertialPosition& p, const std::vector<LaneSRange>& rs, bool null) {
  vc::assume(rg.linear_tolerance() >= 0.);
  vc::assume(vc::forall(0, rs.size(), [&](long i) { return LaneOf(rg, rs[i]) == nullptr || LaneOf(rg, rs[i])->ToLanePosition(p).lane_position.s() >= 0.; }));
  const bool bad = null || rs.empty() || vc::exists(0, rs.size(), [&](long i) { return LaneOf(rg, rs[i]) == nullptr; });
  const bool threw = vc::throws([&]() { maliput::api::IsIncluded(p, rs, null ? nullptr : &rg); });
  vc::check(threw == bad, "throws exactly for a null geometry, no ranges or an unknown lane");
}

VC_PROOF("C03", "contiguity compares the end of the first range with the start of the second")
void Contiguous(const RoadGeometry& rg, const LaneSRange& a, const LaneSRange& b, bool null) {
  bool res = false;
  const bool bad = null || LaneOf(rg, a) == nullptr || LaneOf(rg, b) == nullptr;
  const bool threw = vc::throws([&]() { res = maliput::api::IsContiguous(a, b, null ? nullptr : &rg); });
  vc::check(threw == bad, "throws exactly for a null geometry or an unknown lane");
  if (threw) return;
  const LanePosition end(a.s_range().s1(), 0., 0.);
  const LanePosition start(b.s_range().s0(), 0., 0.);
  const Lane* la = LaneOf(rg, a);
  const Lane* lb = LaneOf(rg, b);
  const bool close = la->ToInertialPosition(end).Distance(lb->ToInertialPosition(start)) < rg.linear_tolerance();
  const bool aligned = la->GetOrientation(end).Distance(lb->GetOrientation(start)) < rg.angular_tolerance();
  vc::check(res == (close && aligned), "contiguous exactly when close and aligned");
}

}  // namespace c03
