// sources: src/maliput/api/basic_id_index.cc src/maliput/api/road_geometry.cc src/maliput/api/lane.cc 
// native: src/maliput/api/basic_id_index.cc src/maliput/api/road_geometry.cc src/maliput/api/lane.cc src/maliput/api/lane_data.cc src/maliput/math/quaternion.cc src/maliput/math/vector.cc src/maliput/math/matrix.cc src/maliput/math/roll_pitch_yaw.cc src/maliput/common/maliput_abort_and_throw.cc
#include "maliput/api/basic_id_index.h"

#include "maliput/api/branch_point.h"
#include "maliput/api/junction.h"
#include "maliput/api/lane.h"
#include "maliput/api/road_geometry.h"
#include "maliput/api/segment.h"
#include "fakes.h"
#include "vc.h"

#ifdef VC_NATIVE
namespace vc {
// Another object of the same id.
template <class T> T* twin(const std::string& id) {
  auto p = std::make_shared<T>(id);
  keep().push_back(p);
  return p.get();
}
template <> struct Gen<maliput::api::BasicIdIndex> {
  static std::shared_ptr<maliput::api::BasicIdIndex> make() {
    auto index = std::make_shared<maliput::api::BasicIdIndex>();
    World& w = world();
    for (auto& x : w.lanes) if (coin()) index->AddLane(coin() ? x.get() : twin<FakeLane>(x->id().string()));
    for (auto& x : w.segments) if (coin()) index->AddSegment(coin() ? x.get() : twin<FakeSegment>(x->id().string()));
    for (auto& x : w.junctions) if (coin()) index->AddJunction(coin() ? x.get() : twin<FakeJunction>(x->id().string()));
    for (auto& x : w.bps) if (coin()) index->AddBranchPoint(coin() ? x.get() : twin<FakeBranchPoint>(x->id().string()));
    return index;
  }
};
}  // namespace vc
#endif

using namespace maliput::api;

namespace c04 {

// Adds one object and states the effect on its own kind.
template <class T, class Id, class Add, class Get, class Has>
void AddOne(BasicIdIndex& index, const T* x, const Id& other, Add add, Get get, Has has) {
  vc::assume(x != nullptr);
  const bool known = has(x->id());
  const T* const was = get(other);
  const bool had = has(other);
  const bool threw = vc::throws([&]() { add(x); });
  vc::check(threw == known, "throws exactly for an id already known");
  vc::check(threw || get(x->id()) == x, "what was added is found under its id");
  vc::check((!threw && other == x->id()) || (get(other) == was && has(other) == had), "every other id keeps its object");
}

// What the index holds of the kinds not touched.
struct Rest {
  const Lane* lane{};
  const Segment* segment{};
  const Junction* junction{};
  const BranchPoint* branch_point{};
};
Rest Held(const BasicIdIndex& index, const LaneId& l, const SegmentId& s, const JunctionId& j, const BranchPointId& b) {
  return Rest{index.GetLane(l), index.GetSegment(s), index.GetJunction(j), index.GetBranchPoint(b)};
}

VC_PROOF("C04", "lanes are found under their ids")
void AddLane(BasicIdIndex& index, const Lane* x, const LaneId& l, const SegmentId& s, const JunctionId& j, const BranchPointId& b) {
  const Rest was = Held(index, l, s, j, b);
  AddOne(index, x, l, [&](const Lane* y) { index.AddLane(y); }, [&](const LaneId& i) { return index.GetLane(i); },
         [&](const LaneId& i) { return index.GetLanes().count(i) != 0; });
  const Rest now = Held(index, l, s, j, b);
  vc::check(now.segment == was.segment && now.junction == was.junction && now.branch_point == was.branch_point, "other kinds stay");
}

VC_PROOF("C04", "segments are found under their ids")
void AddSegment(BasicIdIndex& index, const Segment* x, const LaneId& l, const SegmentId& s, const JunctionId& j, const BranchPointId& b) {
  const Rest was = Held(index, l, s, j, b);
  AddOne(index, x, s, [&](const Segment* y) { index.AddSegment(y); }, [&](const SegmentId& i) { return index.GetSegment(i); },
         [&](const SegmentId& i) { return index.segment_map_.count(i) != 0; });
  const Rest now = Held(index, l, s, j, b);
  vc::check(now.lane == was.lane && now.junction == was.junction && now.branch_point == was.branch_point, "other kinds stay");
}

VC_PROOF("C04", "junctions are found under their ids")
void AddJunction(BasicIdIndex& index, const Junction* x, const LaneId& l, const SegmentId& s, const JunctionId& j, const BranchPointId& b) {
  const Rest was = Held(index, l, s, j, b);
  AddOne(index, x, j, [&](const Junction* y) { index.AddJunction(y); }, [&](const JunctionId& i) { return index.GetJunction(i); },
         [&](const JunctionId& i) { return index.junction_map_.count(i) != 0; });
  const Rest now = Held(index, l, s, j, b);
  vc::check(now.lane == was.lane && now.segment == was.segment && now.branch_point == was.branch_point, "other kinds stay");
}

VC_PROOF("C04", "branch points are found under their ids")
void AddBranchPoint(BasicIdIndex& index, const BranchPoint* x, const LaneId& l, const SegmentId& s, const JunctionId& j, const BranchPointId& b) {
  const Rest was = Held(index, l, s, j, b);
  AddOne(index, x, b, [&](const BranchPoint* y) { index.AddBranchPoint(y); }, [&](const BranchPointId& i) { return index.GetBranchPoint(i); },
         [&](const BranchPointId& i) { return index.branch_point_map_.count(i) != 0; });
  const Rest now = Held(index, l, s, j, b);
  vc::check(now.lane == was.lane && now.segment == was.segment && now.junction == was.junction, "other kinds stay");
}

VC_PROOF("C04", "a new index is empty")
void Construction(const LaneId& l, const SegmentId& s, const JunctionId& j, const BranchPointId& b) {
  const BasicIdIndex index;
  const Rest now = Held(index, l, s, j, b);
  vc::check(now.lane == nullptr && now.segment == nullptr && now.junction == nullptr && now.branch_point == nullptr, "nothing is found");
  vc::check(index.GetLanes().empty(), "nothing is listed");
}

}  // namespace c04
