// sources: src/maliput/geometry_base/brute_force_strategy.cc src/maliput/geometry_base/strategy_base.cc src/maliput/geometry_base/filter_positions.cc src/maliput/api/lane.cc src/maliput/api/lane_data.cc src/maliput/math/vector.cc
// native: src/maliput/geometry_base/brute_force_strategy.cc src/maliput/geometry_base/strategy_base.cc src/maliput/geometry_base/filter_positions.cc src/maliput/api/road_geometry.cc src/maliput/api/basic_id_index.cc src/maliput/api/lane.cc src/maliput/api/lane_data.cc src/maliput/math/quaternion.cc src/maliput/math/vector.cc src/maliput/math/matrix.cc src/maliput/math/roll_pitch_yaw.cc src/maliput/common/maliput_abort_and_throw.cc
#include "maliput/geometry_base/brute_force_strategy.h"

#include "maliput/api/junction.h"
#include "maliput/api/lane.h"
#include "maliput/api/lane_data.h"
#include "maliput/api/road_geometry.h"
#include "maliput/api/segment.h"
#include "fakes.h"
#include "vc.h"

using namespace maliput::api;
using maliput::geometry_base::BruteForceStrategy;
using maliput::geometry_base::IsNewRoadPositionResultCloser;

namespace c07 {

// The elements of the geometry are there.
bool Complete(const RoadGeometry& rg) {
  return vc::forall(0, rg.num_junctions(), [&](long j) {
           return rg.junction(j) != nullptr && vc::forall(0, rg.junction(j)->num_segments(), [&](long s) {
             return rg.junction(j)->segment(s) != nullptr && vc::forall(0, rg.junction(j)->segment(s)->num_lanes(), [&](long l) {
               return rg.junction(j)->segment(s)->lane(l) != nullptr;
             });
           });
         });
}
bool SamePosition(const LanePosition& a, const LanePosition& b) { return a.s() == b.s() && a.r() == b.r() && a.h() == b.h(); }
bool SamePoint(const InertialPosition& a, const InertialPosition& b) { return a.x() == b.x() && a.y() == b.y() && a.z() == b.z(); }
// Whether the result is the one of the lane for the point.
bool Of(const RoadPositionResult& r, const Lane* lane, const InertialPosition& p) {
  const LanePositionResult x = lane->ToLanePosition(p);
  return r.road_position.lane == lane && SamePosition(r.road_position.pos, x.lane_position) && SamePoint(r.nearest_position, x.nearest_position) &&
         r.distance == x.distance;
}

VC_PROOF("C07", "the search within a radius is exhaustive")
void Find(const RoadGeometry& rg, const InertialPosition& p, double radius) {
  const BruteForceStrategy strategy(&rg);
  vc::assume(Complete(rg) && radius >= 0.);
  const std::vector<RoadPositionResult> found = strategy.FindRoadPositions(p, radius);
  vc::check(vc::forall(0, rg.num_junctions(), [&](long j) {
              return vc::forall(0, rg.junction(j)->num_segments(), [&](long s) {
                return vc::forall(0, rg.junction(j)->segment(s)->num_lanes(), [&](long l) {
                  const Lane* lane = rg.junction(j)->segment(s)->lane(l);
                  return lane->ToLanePosition(p).distance > radius || vc::exists(0, found.size(), [&](long i) { return Of(found[i], lane, p); });
                });
              });
            }), "every lane within the radius is found");
  vc::check(vc::forall(0, found.size(), [&](long i) {
              return found[i].distance <= radius && vc::exists(0, rg.num_junctions(), [&](long j) {
                return vc::exists(0, rg.junction(j)->num_segments(), [&](long s) {
                  return vc::exists(0, rg.junction(j)->segment(s)->num_lanes(), [&](long l) { return Of(found[i], rg.junction(j)->segment(s)->lane(l), p); });
                });
              });
            }), "everything found is a lane within the radius");
}

VC_PROOF("C07", "a negative radius is an error")
void Negative(const RoadGeometry& rg, const InertialPosition& p, double radius) {
  const BruteForceStrategy strategy(&rg);
  vc::assume(radius < 0.);
  vc::check(vc::throws([&]() { strategy.FindRoadPositions(p, radius); }), "throws");
}

VC_PROOF("C07", "with a hint the hinted lane answers")
void Hint(const RoadGeometry& rg, const InertialPosition& p, const RoadPosition& hint) {
  const BruteForceStrategy strategy(&rg);
  std::optional<RoadPositionResult> r;
  const bool threw = vc::throws([&]() { r = strategy.ToRoadPosition(p, hint); });
  vc::check(threw == (hint.lane == nullptr), "throws exactly for no lane");
  vc::check(threw || Of(*r, hint.lane, p), "the result is the one of the hinted lane");
}

}  // namespace c07
