// sources: src/maliput/geometry_base/lane.cc src/maliput/geometry_base/segment.cc src/maliput/geometry_base/junction.cc src/maliput/geometry_base/road_geometry.cc src/maliput/geometry_base/branch_point.cc src/maliput/api/lane.cc src/maliput/api/basic_id_index.cc src/maliput/api/road_geometry.cc
// native: src/maliput/geometry_base/lane.cc src/maliput/geometry_base/segment.cc src/maliput/geometry_base/junction.cc src/maliput/geometry_base/road_geometry.cc src/maliput/geometry_base/branch_point.cc src/maliput/geometry_base/brute_force_strategy.cc src/maliput/geometry_base/strategy_base.cc src/maliput/geometry_base/filter_positions.cc src/maliput/api/lane.cc src/maliput/api/lane_data.cc src/maliput/api/road_geometry.cc src/maliput/api/basic_id_index.cc src/maliput/math/quaternion.cc src/maliput/math/vector.cc src/maliput/math/matrix.cc src/maliput/math/roll_pitch_yaw.cc src/maliput/common/maliput_abort_and_throw.cc
#include "maliput/geometry_base/junction.h"
#include "maliput/geometry_base/lane.h"
#include "maliput/geometry_base/segment.h"
#include "maliput/geometry_base/road_geometry.h"
#include "gbfakes.h"
#include "vc.h"

using maliput::geometry_base::BranchPoint;
using maliput::geometry_base::Junction;
using maliput::geometry_base::Lane;
using maliput::geometry_base::RoadGeometry;
using maliput::geometry_base::Segment;

namespace c05 {

// The number of elements fits the interface.
bool Counted(const Segment& s) { return s.lanes_.size() < 2147483647; }

VC_PROOF("C05", "a lane is attached once")
void AttachLane(Lane& lane, const maliput::api::Segment* segment, int index) {
  const maliput::api::Segment* const was = lane.segment();
  const int at = lane.index();
  const bool threw = vc::throws([&]() { lane.AttachToSegment({}, segment, index); });
  vc::check(threw == (segment == nullptr || index < 0 || was != nullptr || at != -1), "throws exactly for no segment, a negative index or when attached");
  vc::check(lane.segment() == (threw ? was : segment) && lane.index() == (threw ? at : index), "it keeps its segment and index");
}

VC_PROOF("C05", "a segment is attached once")
void AttachSegment(Segment& segment, const maliput::api::Junction* junction) {
  const maliput::api::Junction* const was = segment.junction();
  const bool threw = vc::throws([&]() { segment.AttachToJunction({}, junction); });
  vc::check(threw == (junction == nullptr || was != nullptr), "throws exactly for no junction or when attached");
  vc::check(segment.junction() == (threw ? was : junction), "it keeps its junction");
}

VC_PROOF("C05", "lanes are added at the next index")
void AddLane(Segment& segment, std::unique_ptr<Lane> lane, int other) {
  vc::assume(!segment.lane_indexing_callback_ && Counted(segment));
  const int n = segment.num_lanes();
  const bool old = 0 <= other && other < n;
  const maliput::api::Lane* const was = old ? segment.lane(other) : nullptr;
  Lane* const raw = lane.get();
  const bool fresh = raw != nullptr && raw->segment_ == nullptr && raw->index_ == -1;
  vc::assume(raw == nullptr || fresh);
  Lane* added = nullptr;
  const bool threw = vc::throws([&]() { added = segment.AddLane(std::move(lane)); });
  vc::check(threw == (raw == nullptr), "throws exactly for no lane");
  vc::check(!old || segment.lane(other) == was, "lanes added before keep their index");
  if (threw) {
    vc::check(segment.num_lanes() == n, "nothing is added");
  } else {
    vc::check(added == raw, "the lane is the one given");
    vc::check(segment.num_lanes() == n + 1 && segment.lane(n) == raw, "it is found at the next index");
    vc::check(raw->segment() == &segment && raw->index() == n, "it knows its segment and its index");
  }
}

VC_PROOF("C05", "lanes are found within the number of lanes only")
void LaneIndex(const Segment& segment, int i) {
  vc::assume(Counted(segment));
  vc::check(vc::throws([&]() { segment.lane(i); }) == (i < 0 || i >= segment.num_lanes()), "throws exactly out of range");
}

bool Placed(const Segment& s) {
  return vc::forall(0, s.num_lanes(), [&](long i) { return s.lanes_[i].get() != nullptr && s.lanes_[i]->segment_ == &s && s.lanes_[i]->index_ == i; });
}

VC_PROOF("C05", "neighbours are the lanes next by index")
void Neighbours(const Segment& segment, int i) {
  vc::assume(Counted(segment));
  vc::assume(Placed(segment));
  vc::assume(0 <= i && i < segment.num_lanes());
  const maliput::api::Lane* const lane = segment.lane(i);
  const maliput::api::Lane* const left = lane->to_left();
  const maliput::api::Lane* const right = lane->to_right();
  vc::check(i + 1 < segment.num_lanes() ? left == segment.lane(i + 1) : left == nullptr, "to the left is the next lane or nothing");
  vc::check(i > 0 ? right == segment.lane(i - 1) : right == nullptr, "to the right is the previous lane or nothing");
}

VC_PROOF("C05", "lanes of an indexed segment are reported")
void IndexLanes(Segment& segment, std::unique_ptr<Lane> lane) {
  vc::assume(Counted(segment) && Placed(segment) && !segment.lane_indexing_callback_);
  vc::assume(lane.get() != nullptr && lane->segment_ == nullptr && lane->index_ == -1);
  const int n = segment.num_lanes();
  std::vector<const maliput::api::Lane*> seen;
  segment.SetLaneIndexingCallback({}, [&](const maliput::api::Lane* x) { seen.push_back(x); });
  vc::check(static_cast<int>(seen.size()) == n && vc::forall(0, n, [&](long i) { return seen[i] == segment.lane(i); }), "every lane already there is reported in order");
  Lane* const raw = segment.AddLane(std::move(lane));
  vc::check(static_cast<int>(seen.size()) == n + 1 && seen[n] == raw, "so is the one added later");
  vc::check(segment.num_lanes() == n + 1 && segment.lane(n) == raw && raw->segment() == &segment && raw->index() == n, "which is placed in the segment");
  vc::check(vc::throws([&]() { segment.SetLaneIndexingCallback({}, [&](const maliput::api::Lane*) {}); }), "a segment is indexed once");
}

bool Counted(const Junction& j) { return j.segments_.size() < 2147483647; }

VC_PROOF("C05", "segments are added at the next index")
void AddSegment(Junction& junction, std::unique_ptr<Segment> segment, int other) {
  vc::assume(!junction.segment_indexing_callback_ && !junction.lane_indexing_callback_ && Counted(junction));
  const int n = junction.num_segments();
  const bool old = 0 <= other && other < n;
  const maliput::api::Segment* const was = old ? junction.segment(other) : nullptr;
  Segment* const raw = segment.get();
  vc::assume(raw == nullptr || raw->junction_ == nullptr);
  Segment* added = nullptr;
  const bool threw = vc::throws([&]() { added = junction.AddSegment(std::move(segment)); });
  vc::check(threw == (raw == nullptr), "throws exactly for no segment");
  vc::check(!old || junction.segment(other) == was, "segments added before keep their index");
  if (threw) {
    vc::check(junction.num_segments() == n, "nothing is added");
  } else {
    vc::check(added == raw, "the segment is the one given");
    vc::check(junction.num_segments() == n + 1 && junction.segment(n) == raw, "it is found at the next index");
    vc::check(raw->junction() == &junction, "it knows its junction");
  }
}

VC_PROOF("C05", "segments are found within their number only")
void SegmentIndex(const Junction& junction, int i) {
  vc::assume(Counted(junction));
  vc::check(vc::throws([&]() { junction.segment(i); }) == (i < 0 || i >= junction.num_segments()), "throws exactly out of range");
}

VC_PROOF("C05", "a junction is attached once")
void AttachJunction(Junction& junction, const maliput::api::RoadGeometry* rg) {
  vc::assume(junction.segments_.empty());
  vc::assume((junction.road_geometry_ == nullptr) == !junction.segment_indexing_callback_ && (junction.road_geometry_ == nullptr) == !junction.lane_indexing_callback_);
  const maliput::api::RoadGeometry* const was = junction.road_geometry();
  const bool threw = vc::throws([&]() { junction.AttachToRoadGeometry({}, rg, [](const maliput::api::Segment*) {}, [](const maliput::api::Lane*) {}); });
  vc::check(threw == (rg == nullptr || was != nullptr), "throws exactly for no road geometry or when attached");
  vc::check(junction.road_geometry() == (threw ? was : rg), "it keeps its road geometry");
}

VC_PROOF("C05", "elements of an indexed junction are reported")
void IndexSegments(Junction& junction, const maliput::api::RoadGeometry* rg, std::unique_ptr<Segment> segment, std::unique_ptr<Lane> lane) {
  vc::assume(junction.segments_.empty() && junction.road_geometry_ == nullptr && !junction.segment_indexing_callback_ && !junction.lane_indexing_callback_);
  vc::assume(rg != nullptr && segment.get() != nullptr && segment->junction_ == nullptr && !segment->lane_indexing_callback_ && segment->lanes_.empty());
  vc::assume(lane.get() != nullptr && lane->segment_ == nullptr && lane->index_ == -1);
  const maliput::api::Segment* seen_segment = nullptr;
  const maliput::api::Lane* seen_lane = nullptr;
  junction.AttachToRoadGeometry({}, rg, [&](const maliput::api::Segment* x) { seen_segment = x; }, [&](const maliput::api::Lane* x) { seen_lane = x; });
  Segment* const s = junction.AddSegment(std::move(segment));
  vc::check(seen_segment == s && seen_lane == nullptr, "a segment added later is reported");
  Lane* const l = s->AddLane(std::move(lane));
  vc::check(seen_lane == l, "so is a lane added to it");
  vc::check(l->segment() == s && s->junction() == &junction && junction.road_geometry() == rg, "every element knows its parent");
}

bool Counted(const RoadGeometry& rg) { return rg.junctions_.size() < 2147483647 && rg.branch_points_.size() < 2147483647; }

VC_PROOF("C05", "lanes of a segment are reported when it is added to an indexed junction")
void IndexLanesLate(Junction& junction, const maliput::api::RoadGeometry* rg, std::unique_ptr<Segment> segment) {
  vc::assume(junction.segments_.empty() && junction.road_geometry_ == nullptr && !junction.segment_indexing_callback_ && !junction.lane_indexing_callback_);
  vc::assume(rg != nullptr && segment.get() != nullptr && segment->junction_ == nullptr && !segment->lane_indexing_callback_ && Counted(*segment));
  const maliput::api::Segment* seen_segment = nullptr;
  std::vector<const maliput::api::Lane*> seen;
  junction.AttachToRoadGeometry({}, rg, [&](const maliput::api::Segment* x) { seen_segment = x; }, [&](const maliput::api::Lane* x) { seen.push_back(x); });
  Segment* const s = junction.AddSegment(std::move(segment));
  vc::check(seen_segment == s, "the segment is reported");
  vc::check(static_cast<int>(seen.size()) == s->num_lanes() && vc::forall(0, s->num_lanes(), [&](long i) { return seen[i] == s->lane(i); }), "its lanes are reported in order");
}

bool Free(const Junction& j) {
  return vc::forall(0, j.segments_.size(), [&](long i) {
    return j.segments_[i].get() != nullptr && !j.segments_[i]->lane_indexing_callback_ && j.segments_[i]->lanes_.empty() &&
           vc::forall(0, i, [&](long k) { return j.segments_[k].get() != j.segments_[i].get(); });
  });
}

VC_PROOF("C05", "segments already there are reported when a junction is attached")
void IndexSegmentsLate(Junction& junction, const maliput::api::RoadGeometry* rg) {
  vc::assume(junction.road_geometry_ == nullptr && !junction.segment_indexing_callback_ && !junction.lane_indexing_callback_ && Counted(junction) && Free(junction));
  vc::assume(rg != nullptr);
  std::vector<const maliput::api::Segment*> seen;
  junction.AttachToRoadGeometry({}, rg, [&](const maliput::api::Segment* x) { seen.push_back(x); }, [](const maliput::api::Lane*) {});
  vc::check(static_cast<int>(seen.size()) == junction.num_segments() && vc::forall(0, junction.num_segments(), [&](long i) { return seen[i] == junction.segment(i); }), "the segments are reported in order");
  vc::check(vc::forall(0, junction.num_segments(), [&](long i) { return static_cast<bool>(junction.segments_[i]->lane_indexing_callback_); }), "each of them reports its lanes from then on");
}

VC_PROOF("C05", "junctions are added at the next index and found by id")
void AddJunction(RoadGeometry& rg, std::unique_ptr<Junction> junction, int other) {
  vc::assume(Counted(rg));
  const int n = rg.num_junctions();
  const bool old = 0 <= other && other < n;
  const maliput::api::Junction* const was = old ? rg.junction(other) : nullptr;
  Junction* const raw = junction.get();
  vc::assume(raw == nullptr || (raw->segments_.empty() && raw->road_geometry_ == nullptr && !raw->segment_indexing_callback_ && !raw->lane_indexing_callback_));
  vc::assume(raw == nullptr || rg.ById().GetJunction(raw->id()) == nullptr);
  vc::assume(raw == nullptr || rg.id_index_.junction_map_.count(raw->id()) == 0);
  Junction* added = nullptr;
  const bool threw = vc::throws([&]() { added = rg.AddJunction(std::move(junction)); });
  vc::check(threw == (raw == nullptr), "throws exactly for no junction");
  vc::check(!old || rg.junction(other) == was, "junctions added before keep their index");
  if (threw) {
    vc::check(rg.num_junctions() == n, "nothing is added");
  } else {
    vc::check(added == raw, "the junction is the one given");
    vc::check(rg.num_junctions() == n + 1 && rg.junction(n) == raw, "it is found at the next index");
    vc::check(rg.ById().GetJunction(raw->id()) == raw, "it is found under its id");
    vc::check(raw->road_geometry() == &rg, "it knows its road geometry");
  }
}

VC_PROOF("C05", "branch points are added at the next index and found by id")
void AddBranchPoint(RoadGeometry& rg, std::unique_ptr<BranchPoint> bp, int other) {
  vc::assume(Counted(rg));
  const int n = rg.num_branch_points();
  const bool old = 0 <= other && other < n;
  const maliput::api::BranchPoint* const was = old ? rg.branch_point(other) : nullptr;
  BranchPoint* const raw = bp.get();
  vc::assume(raw == nullptr || (raw->road_geometry_ == nullptr && rg.id_index_.branch_point_map_.count(raw->id()) == 0));
  BranchPoint* added = nullptr;
  const bool threw = vc::throws([&]() { added = rg.AddBranchPoint(std::move(bp)); });
  vc::check(threw == (raw == nullptr), "throws exactly for no branch point");
  vc::check(!old || rg.branch_point(other) == was, "branch points added before keep their index");
  if (threw) {
    vc::check(rg.num_branch_points() == n, "nothing is added");
  } else {
    vc::check(added == raw, "the branch point is the one given");
    vc::check(rg.num_branch_points() == n + 1 && rg.branch_point(n) == raw, "it is found at the next index");
    vc::check(rg.ById().GetBranchPoint(raw->id()) == raw, "it is found under its id");
    vc::check(raw->road_geometry() == &rg, "it knows its road geometry");
  }
}

VC_PROOF("C05", "junctions and branch points are found within their number only")
void GeometryIndex(const RoadGeometry& rg, int i) {
  vc::assume(Counted(rg));
  vc::check(vc::throws([&]() { rg.junction(i); }) == (i < 0 || i >= rg.num_junctions()), "throws exactly out of range");
  vc::check(vc::throws([&]() { rg.branch_point(i); }) == (i < 0 || i >= rg.num_branch_points()), "throws exactly out of range for branch points");
}

VC_PROOF("C05", "elements of a road geometry are found by id")
void AddAll(RoadGeometry& rg, std::unique_ptr<Junction> junction, std::unique_ptr<Segment> segment, std::unique_ptr<Lane> lane) {
  vc::assume(Counted(rg));
  vc::assume(junction.get() != nullptr && junction->segments_.empty() && junction->road_geometry_ == nullptr && !junction->segment_indexing_callback_ &&
             !junction->lane_indexing_callback_ && rg.id_index_.junction_map_.count(junction->id()) == 0);
  vc::assume(segment.get() != nullptr && segment->junction_ == nullptr && !segment->lane_indexing_callback_ && segment->lanes_.empty() &&
             rg.id_index_.segment_map_.count(segment->id()) == 0);
  vc::assume(lane.get() != nullptr && lane->segment_ == nullptr && lane->index_ == -1 && rg.id_index_.lane_map_.count(lane->id()) == 0);
  Junction* const j = rg.AddJunction(std::move(junction));
  Segment* const s = j->AddSegment(std::move(segment));
  Lane* const l = s->AddLane(std::move(lane));
  vc::check(rg.ById().GetSegment(s->id()) == s, "a segment added to a junction of the geometry is found under its id");
  vc::check(rg.ById().GetLane(l->id()) == l, "so is a lane added to that segment");
}

}  // namespace c05
