import sys; sys.path.insert(0, "/verif/tools")
from mkseed import *
H = '#include <cmath>\n#include <cstdio>\n#include <memory>\n#include <vector>\n'
LANE = r'''
#include "maliput/api/lane.h"
#include "maliput/api/lane_data.h"
#include "maliput/geometry_base/lane.h"
#include "maliput/geometry_base/segment.h"
#include "maliput/geometry_base/junction.h"
#include "maliput/geometry_base/branch_point.h"
#include "maliput/geometry_base/road_geometry.h"
using namespace maliput;
namespace {
struct L : geometry_base::Lane {
  explicit L(const std::string& id, double lo = -1, double hi = 1) : geometry_base::Lane(api::LaneId(id)), lo_(lo), hi_(hi) {}
  double do_length() const override { return 10.; }
  api::RBounds do_lane_bounds(double) const override { return {lo_, hi_}; }
  api::RBounds do_segment_bounds(double) const override { return {lo_, hi_}; }
  api::HBounds do_elevation_bounds(double, double) const override { return {0, 1}; }
  api::Rotation DoGetOrientation(const api::LanePosition&) const override { return {}; }
  api::LanePosition DoEvalMotionDerivatives(const api::LanePosition&, const api::IsoLaneVelocity&) const override { return {}; }
  double lo_, hi_;
};
}
'''
GB = "src/maliput/geometry_base/*.cc src/maliput/api/*.cc " + MATH

seed("c04-replaced-before-throw", "C04", [("src/maliput/api/basic_id_index.cc",
'''void BasicIdIndex::AddLane(const Lane* lane) { MALIPUT_THROW_UNLESS(lane_map_.emplace(lane->id(), lane).second); }''',
'''void BasicIdIndex::AddLane(const Lane* lane) {
  MALIPUT_THROW_UNLESS(lane_map_.insert_or_assign(lane->id(), lane).second);
}''')],
H + '#include "maliput/api/basic_id_index.h"\n' + LANE + '''
int main() {
  L a("l"), b("l");
  api::BasicIdIndex index;
  index.AddLane(&a);
  bool threw = false;
  try { index.AddLane(&b); } catch (const std::exception&) { threw = true; }
  return threw && index.GetLane(api::LaneId("l")) == &a ? 0 : 1;
}
''', GB, "a lane added under an id already in use, and a lookup after the exception", "the failed addition replaces the registered lane")

seed("c05-callback-dropped", "C05", [("src/maliput/geometry_base/segment.cc",
'''  lane_indexing_callback_ = callback;
  // Index any Lanes that had already been added to this Segment.
  for (const auto& lane : lanes_) {
    lane_indexing_callback_(lane.get());
  }''',
'''  if (lanes_.empty()) {
    lane_indexing_callback_ = callback;
    return;
  }
  // Index any Lanes that had already been added to this Segment.
  for (const auto& lane : lanes_) {
    callback(lane.get());
  }''')],
H + LANE + '''
int main() {
  geometry_base::RoadGeometry rg(api::RoadGeometryId("rg"), 1e-3, 1e-3, 1., math::Vector3(0, 0, 0));
  auto* j = rg.AddJunction(std::make_unique<geometry_base::Junction>(api::JunctionId("j")));
  auto s = std::make_unique<geometry_base::Segment>(api::SegmentId("s"));
  auto* a = s->AddLane(std::make_unique<L>("a"));
  auto* sp = j->AddSegment(std::move(s));
  auto* b = sp->AddLane(std::make_unique<L>("b"));
  return rg.ById().GetLane(api::LaneId("a")) == a && rg.ById().GetLane(api::LaneId("b")) == b ? 0 : 1;
}
''', GB, "a segment that has lanes when its junction is indexed and gets another one later", "lanes added after the indexing of a segment that had lanes are not found by id")

seed("c06-first-default-stays", "C06", [("src/maliput/geometry_base/branch_point.cc",
'''  defaults_[lane_end] = default_branch;''', '''  defaults_.emplace(lane_end, default_branch);''')],
H + LANE + '''
int main() {
  geometry_base::BranchPoint bp(api::BranchPointId("bp"));
  L a("a"), b("b"), c("c");
  bp.AddABranch(&a, api::LaneEnd::kFinish);
  bp.AddBBranch(&b, api::LaneEnd::kStart);
  bp.AddBBranch(&c, api::LaneEnd::kStart);
  const api::LaneEnd end(&a, api::LaneEnd::kFinish);
  bp.SetDefault(end, {&b, api::LaneEnd::kStart});
  if (bp.GetDefaultBranch(end)->lane != &b) return 1;
  bp.SetDefault(end, {&c, api::LaneEnd::kStart});
  return bp.GetDefaultBranch(end)->lane == &c ? 0 : 1;
}
''', GB, "setting the default of a lane end a second time", "the first default set stays")

seed("c08-signed-r", "C08", [("src/maliput/geometry_base/strategy_base.cc",
'''    if (std::abs(new_road_position_result.road_position.pos.r()) <
        std::abs(road_position_result.road_position.pos.r())) {
      return true;
    }
  } else if''',
'''    if (std::abs(new_road_position_result.road_position.pos.r() + road_position_result.road_position.pos.r()) <
        2. * std::abs(road_position_result.road_position.pos.r())) {
      return true;
    }
  } else if''')],
H + '#include "maliput/geometry_base/strategy_base.h"\n' + LANE + '''
int main() {
  L a("a", -10, 10), b("b", -10, 10);
  const api::RoadPositionResult x{api::RoadPosition(&a, {0., 3., 0.}), {}, 1.}, y{api::RoadPosition(&b, {0., -2., 0.}), {}, 1.};
  return geometry_base::IsNewRoadPositionResultCloser(y, x) && !geometry_base::IsNewRoadPositionResultCloser(x, y) ? 0 : 1;
}
''', GB, "r coordinates of opposite signs at one distance", "two results are both closer than each other")
