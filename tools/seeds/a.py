import sys; sys.path.insert(0, "/verif/tools")
from mkseed import *
H = '#include <cmath>\n#include <cstdio>\n#include <vector>\n'
GEO = "src/maliput/api/regions.cc src/maliput/api/lane_data.cc " + MATH

seed("c01-shrunk-intersection", "C01", [("src/maliput/api/regions.cc",
'''    const double max = std::max(s_range.s0(), s_range.s1()) >= wider_s_range.s1()''',
'''    const double max = std::max(s_range.s0(), s_range.s1()) >= std::max(s0(), s1())''')],
H + '''#include "maliput/api/regions.h"
using maliput::api::SRange;
int main() {
  const auto i = SRange(0., 10.).GetIntersection(SRange(4., 9.5), -1.);
  if (!i || i->s1() != 10. || i->s0() != 4.) { std::puts("wrong end"); return 1; }
  const auto j = SRange(0., 10.).GetIntersection(SRange(4., 8.5), -1.);
  return j && j->s1() == 8.5 ? 0 : 1;
}
''', GEO, "a negative tolerance and a range ending between the shrunk and the plain end", "GetIntersection does not snap to this range's own end inside the shrunk band")

seed("c02-reversed-length", "C02", [("include/maliput/api/regions.h",
'''    return std::accumulate(ranges_.cbegin(), ranges_.cend(), 0.,
                           [](const double acc, const LaneSRange& lane_range) { return acc + lane_range.length(); });''',
'''    return std::accumulate(ranges_.cbegin(), ranges_.cend(), 0.f,
                           [](const double acc, const LaneSRange& lane_range) { return acc + lane_range.length(); });''')],
H + '''#include "maliput/api/regions.h"
using namespace maliput::api;
int main() {
  const double a = 0.1, b = 1e5 + 0.125;
  const LaneSRoute r({LaneSRange(LaneId("a"), SRange(0., a)), LaneSRange(LaneId("b"), SRange(0., b)), LaneSRange(LaneId("c"), SRange(b, 0.))});
  return std::abs(r.length() - (a + b + b)) < 1e-9 ? 0 : 1;
}
''', GEO, "lengths that a float cannot hold", "the route's length is accumulated in single precision")

seed("c03-reversed-contiguity", "C03", [("src/maliput/api/regions.cc",
'''  const Rotation lane_b_rot = lane_b->GetOrientation(LanePosition(lane_range_b.s_range().s0(), 0, 0));''',
'''  const Rotation lane_b_rot = lane_b->GetOrientation(LanePosition(lane_range_b.s_range().s1(), 0, 0));''')],
H + '''#include "maliput/api/regions.h"
#include "maliput/test_utilities/mock_geometry.h"
#include "maliput/api/road_geometry.h"
#include "maliput/api/lane.h"
using namespace maliput::api;
namespace {
// A lane along x whose heading turns with s.
struct L : Lane {
  LaneId do_id() const { return LaneId("l"); }
  const Segment* do_segment() const { return nullptr; }
  int do_index() const { return 0; }
  const Lane* do_to_left() const { return nullptr; }
  const Lane* do_to_right() const { return nullptr; }
  double do_length() const { return 10.; }
  RBounds do_lane_bounds(double) const { return {-1, 1}; }
  RBounds do_segment_bounds(double) const { return {-1, 1}; }
  HBounds do_elevation_bounds(double, double) const { return {0, 1}; }
  InertialPosition DoToInertialPosition(const LanePosition& p) const { return {p.s(), p.r(), p.h()}; }
  Rotation DoGetOrientation(const LanePosition& p) const { return Rotation::FromRpy(0., 0., p.s() * 0.1); }
  LanePosition DoEvalMotionDerivatives(const LanePosition&, const IsoLaneVelocity&) const { return {}; }
  LanePositionResult DoToLanePosition(const InertialPosition&) const { return {}; }
  LanePositionResult DoToSegmentPosition(const InertialPosition&) const { return {}; }
  const BranchPoint* DoGetBranchPoint(const LaneEnd::Which) const { return nullptr; }
  const LaneEndSet* DoGetConfluentBranches(const LaneEnd::Which) const { return nullptr; }
  const LaneEndSet* DoGetOngoingBranches(const LaneEnd::Which) const { return nullptr; }
  std::optional<LaneEnd> DoGetDefaultBranch(const LaneEnd::Which) const { return {}; }
};
struct Ids : RoadGeometry::IdIndex {
  L lane;
  const Lane* DoGetLane(const LaneId&) const { return &lane; }
  const std::unordered_map<LaneId, const Lane*>& DoGetLanes() const { static std::unordered_map<LaneId, const Lane*> m; return m; }
  const Segment* DoGetSegment(const SegmentId&) const { return nullptr; }
  const Junction* DoGetJunction(const JunctionId&) const { return nullptr; }
  const BranchPoint* DoGetBranchPoint(const BranchPointId&) const { return nullptr; }
};
struct RG : RoadGeometry {
  Ids ids;
  RoadGeometryId do_id() const { return RoadGeometryId("rg"); }
  int do_num_junctions() const { return 0; }
  const Junction* do_junction(int) const { return nullptr; }
  int do_num_branch_points() const { return 0; }
  const BranchPoint* do_branch_point(int) const { return nullptr; }
  const IdIndex& DoById() const { return ids; }
  RoadPositionResult DoToRoadPosition(const InertialPosition&, const std::optional<RoadPosition>&) const { return {}; }
  std::vector<RoadPositionResult> DoFindRoadPositions(const InertialPosition&, double) const { return {}; }
  double do_linear_tolerance() const { return 0.01; }
  double do_angular_tolerance() const { return 0.01; }
  double do_scale_length() const { return 1.; }
  std::vector<InertialPosition> DoSampleAheadWaypoints(const LaneSRoute&, double) const { return {}; }
  maliput::math::Vector3 do_inertial_to_backend_frame_translation() const { return {}; }
};
}  // namespace
int main() {
  RG rg;
  const LaneId l("l");
  return IsContiguous(LaneSRange(l, SRange(0., 5.)), LaneSRange(l, SRange(5., 9.)), &rg) ? 0 : 1;
}
''', GEO + " src/maliput/api/lane.cc src/maliput/api/road_geometry.cc", "a second range over a lane whose heading changes", "the orientation of the second range is taken at its end")

seed("c10-lower-z-tolerance", "C10", [("src/maliput/math/axis_aligned_box.cc", '''position.z() >= min_corner_.z() - tolerance_''', '''position.z() >= min_corner_.z()''')],
H + '''#include "maliput/math/axis_aligned_box.h"
using namespace maliput::math;
int main() {
  const AxisAlignedBox b({0., 0., 0.}, {1., 1., 1.}, 0.1);
  return b.Contains({0.5, 0.5, -0.05}) && !b.Contains({0.5, 0.5, -0.15}) ? 0 : 1;
}
''', MATH, "a point just under the box, within its tolerance", "containment forgets the tolerance at the lower z face")

seed("c14-matrix-to-quaternion", "C14", [("src/maliput/math/quaternion.cc", '''    z_ = (rotation_matrix[1][2] + rotation_matrix[2][1]) * s;''', '''    z_ = (rotation_matrix[1][2] - rotation_matrix[2][1]) * s;''')],
H + '''#include "maliput/math/matrix.h"
#include "maliput/math/quaternion.h"
using namespace maliput::math;
int main() {
  const Quaternion q = Quaternion(0.1, 0.2, 0.9, 0.3).normalized();
  const Quaternion p(q.ToRotationMatrix());
  return std::abs(std::abs(p.dot(q)) - 1.) < 1e-9 ? 0 : 1;
}
''', MATH, "a rotation of almost half a turn mostly around y with some z", "the z coefficient is lost when the y coefficient dominates")

seed("c32-height-below-road", "C32", [("src/maliput/api/lane.cc", '''IsWithinRange(h, elevation_bounds.min(), elevation_bounds.max(), linear_tolerance)''', '''IsWithinRange(h, elevation_bounds.min(), elevation_bounds.max(), h < 0. ? 0. : linear_tolerance)''')],
open("/verif/seeded/c03-reversed-contiguity/demo.cc").read().split("int main")[0].replace("HBounds do_elevation_bounds(double, double) const { return {0, 1}; }", "HBounds do_elevation_bounds(double, double r) const { return {0, r == 0. ? 5. : 1.}; }")
.replace("const Segment* do_segment() const { return nullptr; }", "const Segment* do_segment() const;")
.replace('''}  // namespace
''', '''RG rg;
struct J : Junction {
  JunctionId do_id() const { return JunctionId("j"); }
  const RoadGeometry* do_road_geometry() const { return &rg; }
  int do_num_segments() const { return 0; }
  const Segment* do_segment(int) const { return nullptr; }
} junction_;
struct S : Segment {
  SegmentId do_id() const { return SegmentId("s"); }
  const Junction* do_junction() const { return &junction_; }
  int do_num_lanes() const { return 0; }
  const Lane* do_lane(int) const { return nullptr; }
} segment_;
const Segment* L::do_segment() const { return &segment_; }
}  // namespace
''').replace('#include "maliput/api/lane.h"', '#include "maliput/api/lane.h"\n#include "maliput/api/junction.h"\n#include "maliput/api/segment.h"') + '''int main() {
  const L& l = rg.ids.lane;
  return l.Contains(LanePosition(1., 0.5, -0.005)) && !l.Contains(LanePosition(1., 0.5, -0.05)) ? 0 : 1;
}
''', GEO + " src/maliput/api/lane.cc src/maliput/api/road_geometry.cc", "a position under the road by less than the tolerance", "the tolerance is not granted under the road")

seed("c15-yaw-wrap", "C15", [("src/maliput/math/roll_pitch_yaw.cc", "if (yaw < -M_PI) yaw = yaw + 2 * M_PI;", "if (yaw < -M_PI) yaw = -yaw - 2 * M_PI;")],
H + """#include "maliput/math/matrix.h"
#include "maliput/math/quaternion.h"
#include "maliput/math/roll_pitch_yaw.h"
using namespace maliput::math;
int main() {
  for (double r = -3.; r < 3.1; r += 0.25) for (double p = -1.2; p < 1.3; p += 0.2) for (double y = -3.; y < 3.1; y += 0.25) for (int k = -1; k < 2; k += 2) {
    const Quaternion q = RollPitchYaw(r, p, y).ToQuaternion();
    const Matrix3 a = q.ToRotationMatrix(), b = RollPitchYaw(Quaternion(k * q.w(), k * q.x(), k * q.y(), k * q.z())).ToMatrix();
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (std::abs(a[i][j] - b[i][j]) > 1e-9) return 1;
  }
  return 0;
}
""", MATH, "a quaternion whose half angles sum to less than -pi", "the yaw is reflected instead of turned once around")

seed("c16-inner-range", "C16", [("src/maliput/common/range_validator.cc", "return std::clamp(s, min_ + epsilon_, max_ - epsilon_);", "return s < min_ ? min_ + epsilon_ : std::clamp(s, min_, max_ - epsilon_) + (s == min_ ? epsilon_ : 0.);")],
H + """#include "maliput/common/range_validator.h"
using maliput::common::RangeValidator;
int main() {
  const auto v = RangeValidator::GetAbsoluteEpsilonValidator(10., 20., 1., 0.1);
  return std::abs(v(10.05) - 10.1) < 1e-9 && v(11.) == 11. ? 0 : 1;
}
""", "src/maliput/common/range_validator.cc", "a value between the lower end and the inner lower end", "a value within epsilon of the lower end is returned as it is")

seed("c12-guarded-normalize", "C12", [("src/maliput/math/vector.cc", "  const double l = norm();\n  std::transform", "  const double l = std::max(norm(), 1e-3);\n  std::transform")],
H + """#include "maliput/math/vector.h"
using namespace maliput::math;
int main() {
  Vector3 a(1e-4, 0., 0.);
  a.normalize();
  return std::abs(a.norm() - 1.) < 1e-9 ? 0 : 1;
}
""", MATH, "a vector shorter than a millimetre", "short vectors are not normalized to length one")

seed("c13-squared-determinant", "C13", [("src/maliput/math/matrix.cc", "  if (std::abs(d) < kTolerance) MALIPUT_THROW_MESSAGE", "  if (d * d < kTolerance) MALIPUT_THROW_MESSAGE")],
H + """#include "maliput/math/matrix.h"
using namespace maliput::math;
int main() {
  const Matrix3 m({1e-3, 0., 0., 0., 1e-3, 0., 0., 0., 1e-2});
  try { return std::abs(m.inverse()[0][0] - 1e3) < 1e-6 ? 0 : 1; } catch (...) { return 1; }
}
""", MATH, "a regular matrix with a small determinant", "regular matrices are said to have no inverse")
