// sources: src/maliput/geometry_base/branch_point.cc src/maliput/geometry_base/lane.cc src/maliput/api/lane.cc
// native: src/maliput/geometry_base/branch_point.cc src/maliput/geometry_base/lane.cc src/maliput/api/lane.cc src/maliput/api/lane_data.cc src/maliput/math/quaternion.cc src/maliput/math/vector.cc src/maliput/math/matrix.cc src/maliput/math/roll_pitch_yaw.cc src/maliput/common/maliput_abort_and_throw.cc
#include "maliput/geometry_base/branch_point.h"
#include "maliput/geometry_base/lane.h"
#include "gbfakes.h"
#include "vc.h"

using maliput::api::BranchPointId;
using maliput::api::LaneEnd;
using maliput::geometry_base::BranchPoint;
using maliput::geometry_base::Lane;
using maliput::geometry_base::LaneEndSet;

namespace c06 {

#ifdef VC_NATIVE
const vc::GbEnds ends;
#endif

bool Same(const LaneEnd& a, const LaneEnd& b) { return a.lane == b.lane && a.end == b.end; }
bool Which(LaneEnd::Which w) { return w == LaneEnd::kStart || w == LaneEnd::kFinish; }
bool Known(const BranchPoint& p, const LaneEnd& e) { return p.confluent_branches_.count(e) != 0; }
// Whether the i-th element of the side is the lane end.
bool In(const LaneEndSet& s, const LaneEnd& e) {
  return vc::exists(0, s.size(), [&](long i) { return Same(s.get(i), e); });
}

// What holds of a branch point between calls.
bool SidesPaired(const BranchPoint& p) {
  return vc::forall_v<LaneEnd>([&](const LaneEnd& e) {
    return (p.confluent_branches_.count(e) != 0) == (p.ongoing_branches_.count(e) != 0) &&
           (p.confluent_branches_.count(e) == 0 ||
            (p.confluent_branches_.at(e) == &p.a_side_ && p.ongoing_branches_.at(e) == &p.b_side_) ||
            (p.confluent_branches_.at(e) == &p.b_side_ && p.ongoing_branches_.at(e) == &p.a_side_));
  });
}
bool SideFiled(const BranchPoint& p, const LaneEndSet& s) {
  return vc::forall(0, s.size(), [&](long i) { return Known(p, s.get(i)) && p.confluent_branches_.at(s.get(i)) == &s; });
}
bool SideListed(const BranchPoint& p, const LaneEndSet& s) {
  return vc::forall_v<LaneEnd>([&](const LaneEnd& e) { return !(Known(p, e) && p.confluent_branches_.at(e) == &s) || In(s, e); });
}
bool Distinct(const LaneEndSet& s) {
  return vc::forall(0, s.size(), [&](long i) { return vc::forall(0, i, [&](long j) { return !Same(s.get(i), s.get(j)); }); });
}
bool DefaultsAcross(const BranchPoint& p) {
  return vc::forall_v<LaneEnd>([&](const LaneEnd& e) {
    return p.defaults_.count(e) == 0 ||
           (Known(p, e) && Known(p, p.defaults_.at(e)) && p.confluent_branches_.at(p.defaults_.at(e)) == p.ongoing_branches_.at(e));
  });
}
bool Inv(const BranchPoint& p) {
  return SidesPaired(p) && SideFiled(p, p.a_side_) && SideFiled(p, p.b_side_) && SideListed(p, p.a_side_) && SideListed(p, p.b_side_) &&
         Distinct(p.a_side_) && Distinct(p.b_side_) && DefaultsAcross(p);
}
void CheckInv(const BranchPoint& p) {
  vc::check(SidesPaired(p), "every lane end has one side confluent and the other ongoing");
  vc::check(SideFiled(p, p.a_side_), "the ends listed in side A are filed under it");
  vc::check(SideFiled(p, p.b_side_), "the ends listed in side B are filed under it");
  vc::check(SideListed(p, p.a_side_), "the ends filed under side A are listed in it");
  vc::check(SideListed(p, p.b_side_), "the ends filed under side B are listed in it");
  vc::check(Distinct(p.a_side_), "side A lists no end twice");
  vc::check(Distinct(p.b_side_), "side B lists no end twice");
  vc::check(DefaultsAcross(p), "defaults lead to the opposite side");
}

VC_PROOF("C06", "lane ends are ordered by identity")
void Order(const LaneEnd& a, const LaneEnd& b, const LaneEnd& c) {
  const LaneEnd::StrictOrder less{};
  vc::check(!less(a, a), "irreflexive");
  vc::check(!(less(a, b) && less(b, c)) || less(a, c), "transitive");
  vc::check((!less(a, b) && !less(b, a)) == Same(a, b), "equivalent exactly when the same end of the same lane");
}

VC_PROOF("C06", "a new branch point is empty")
void Construction(const BranchPointId& id) {
  const BranchPoint p(id);
  CheckInv(p);
  vc::check(p.GetASide()->size() == 0 && p.GetBSide()->size() == 0, "both sides start empty");
  vc::check(p.id() == id, "it keeps its id");
}

void Add(BranchPoint& p, Lane* lane, LaneEnd::Which w, bool to_a, const LaneEnd& other) {
  vc::assume(Inv(p) && Which(w));
  const LaneEnd e(lane, w);
  const LaneEndSet* const side = to_a ? &p.a_side_ : &p.b_side_;
  const LaneEndSet* const opposite = to_a ? &p.b_side_ : &p.a_side_;
  const bool known = Known(p, e);
  const bool attached = lane != nullptr && (w == LaneEnd::kStart ? lane->start_branch_point_ : lane->finish_branch_point_) != nullptr;
  const int n = side->size(), m = opposite->size();
  const std::vector<LaneEnd> was = side->ends_, was_opposite = opposite->ends_;
  const bool other_known = Known(p, other);
  const maliput::api::LaneEndSet* const other_side = other_known ? p.GetConfluentBranches(other) : nullptr;
  const bool other_default = p.GetDefaultBranch(other).has_value();
  const bool threw = vc::throws([&]() {
    if (to_a) p.AddABranch(lane, w);
    else p.AddBBranch(lane, w);
  });
  vc::check(threw == (lane == nullptr || known || attached), "throws exactly for no lane, a known end or an end with a branch point");
  vc::check(opposite->size() == m && vc::forall(0, m, [&](long i) { return Same(opposite->get(i), was_opposite[i]); }), "the opposite side stays");
  vc::check(side->size() >= n && vc::forall(0, n, [&](long i) { return Same(side->get(i), was[i]); }), "the ends already in the side stay");
  vc::check(!(lane == nullptr || known) || side->size() == n, "a rejected lane or known end changes nothing");
  vc::check(Same(other, e) || (Known(p, other) == other_known && (!other_known || p.GetConfluentBranches(other) == other_side)), "other ends keep their side");
  vc::check(p.GetDefaultBranch(other).has_value() == other_default, "defaults stay");
  if (threw) {
    CheckInv(p);
  } else {
    vc::check(side->size() == n + 1 && Same(side->get(n), e), "the end is appended to its side");
    vc::check(p.GetConfluentBranches(e) == side, "its confluent branches are its side");
    vc::check(p.GetOngoingBranches(e) == opposite, "its ongoing branches are the opposite side");
    vc::check(lane->GetBranchPoint(w) == &p, "the lane knows its branch point");
    vc::check(lane->GetConfluentBranches(w) == side && lane->GetOngoingBranches(w) == opposite, "the lane answers with the sides of the branch point");
    CheckInv(p);
  }
}

VC_PROOF("C06", "adding a lane end to side A")
void AddA(BranchPoint& p, Lane* lane, LaneEnd::Which w, const LaneEnd& other) { Add(p, lane, w, true, other); }

VC_PROOF("C06", "adding a lane end to side B")
void AddB(BranchPoint& p, Lane* lane, LaneEnd::Which w, const LaneEnd& other) { Add(p, lane, w, false, other); }

VC_PROOF("C06", "a default leads from a lane end to the opposite side")
void SetDefault(BranchPoint& p, const LaneEnd& e, const LaneEnd& d, const LaneEnd& other) {
  vc::assume(Inv(p));
  const int n = p.a_side_.size(), m = p.b_side_.size();
  const bool good = Known(p, e) && Known(p, d) && p.GetConfluentBranches(d) != p.GetConfluentBranches(e);
  const std::optional<LaneEnd> before = p.GetDefaultBranch(other);
  const bool threw = vc::throws([&]() { p.SetDefault(e, d); });
  vc::check(threw == !good, "throws unless both ends belong to the branch point, on opposite sides");
  const std::optional<LaneEnd> after = p.GetDefaultBranch(other);
  vc::check(threw || (p.GetDefaultBranch(e).has_value() && Same(*p.GetDefaultBranch(e), d)), "the default is the one set last");
  vc::check((!threw && Same(other, e)) || (after.has_value() == before.has_value() && (!before.has_value() || Same(*after, *before))),
            "every other default stays");
  vc::check(p.a_side_.size() == n && p.b_side_.size() == m, "the sides stay");
  CheckInv(p);
}

VC_PROOF("C06", "queries answer for the ends of the branch point only")
void Queries(const BranchPoint& p, const LaneEnd& e) {
  vc::assume(Inv(p));
  const bool known = In(p.a_side_, e) || In(p.b_side_, e);
  const maliput::api::LaneEndSet* confluent = nullptr;
  const maliput::api::LaneEndSet* ongoing = nullptr;
  vc::check(vc::throws([&]() { confluent = p.GetConfluentBranches(e); }) == !known, "the confluent side of an unknown end is an error");
  vc::check(vc::throws([&]() { ongoing = p.GetOngoingBranches(e); }) == !known, "the ongoing side of an unknown end is an error");
  if (known) {
    vc::check(confluent == (In(p.a_side_, e) ? p.GetASide() : p.GetBSide()), "the confluent side is the one that holds the end");
    vc::check(ongoing == (In(p.a_side_, e) ? p.GetBSide() : p.GetASide()), "the ongoing side is the other one");
    vc::check(!(In(p.a_side_, e) && In(p.b_side_, e)), "no end is in both sides");
    vc::check(!p.GetDefaultBranch(e).has_value() || vc::exists(0, ongoing->size(), [&](long i) { return Same(ongoing->get(i), *p.GetDefaultBranch(e)); }),
              "a default is one of the ongoing branches");
  } else {
    vc::check(!p.GetDefaultBranch(e).has_value(), "an unknown end has no default");
  }
}

VC_PROOF("C06", "a branch point is attached to one road geometry")
void Attach(BranchPoint& p, const maliput::api::RoadGeometry* rg) {
  const maliput::api::RoadGeometry* const before = p.road_geometry();
  const bool threw = vc::throws([&]() { p.AttachToRoadGeometry({}, rg); });
  vc::check(threw == (rg == nullptr || before != nullptr), "throws exactly for no geometry or when already attached");
  vc::check(p.road_geometry() == (threw ? before : rg), "it keeps its road geometry");
}

}  // namespace c06
