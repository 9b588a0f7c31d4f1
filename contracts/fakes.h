// A made-up road network for the native runs of the contract files (not seen by the verifier): every query of the abstract
// interfaces answers with an arbitrary value, the same one each time it is asked.
#pragma once
#ifdef VC_NATIVE
#include <array>
#include <map>
#include <memory>
#include <vector>

#include "gens.h"
#include "mathgens.h"
#include "maliput/api/branch_point.h"
#include "maliput/api/junction.h"
#include "maliput/api/lane.h"
#include "maliput/api/lane_data.h"
#include "maliput/api/road_geometry.h"
#include "maliput/api/segment.h"

namespace vc {
namespace api = maliput::api;

inline double pos_real() { return std::abs(real()); }
template <> struct Gen<api::InertialPosition> {
  static api::InertialPosition make() { return api::InertialPosition::FromXyz(Gen<maliput::math::Vector3>::make()); }
};
template <> struct Gen<api::LanePosition> {
  static api::LanePosition make() { return api::LanePosition::FromSrh(Gen<maliput::math::Vector3>::make()); }
};
template <> struct Gen<api::RBounds> {
  static api::RBounds make() { const double a = -pos_real(); return api::RBounds(a, pos_real()); }
};
template <> struct Gen<api::HBounds> {
  static api::HBounds make() { const double a = -pos_real(); return api::HBounds(a, pos_real()); }
};
template <> struct Gen<api::Rotation> {
  static api::Rotation make() {
    static const double a[] = {0., 0., 1., 2., 0.5, -1., 3.1};
    return api::Rotation::FromRpy(a[ctx().pick(7)], a[ctx().pick(6)], a[ctx().pick(7)]);
  }
};
template <> struct Gen<api::LanePositionResult> {
  static api::LanePositionResult make() {
    api::LanePositionResult r;
    r.lane_position = api::LanePosition(pos_real(), real(), real());
    r.nearest_position = Gen<api::InertialPosition>::make();
    r.distance = pos_real();
    return r;
  }
};

inline std::array<double, 3> key3(const maliput::math::Vector3& v) { return {v[0], v[1], v[2]}; }

struct FakeEnds : public api::LaneEndSet {
  std::vector<api::LaneEnd> ends;
  int do_size() const override { return static_cast<int>(ends.size()); }
  const api::LaneEnd& do_get(int i) const override { return ends.at(i); }
};

struct World;

struct FakeLane : public api::Lane {
  explicit FakeLane(const std::string& id) : id_(id) {}
  api::LaneId id_;
  const api::Segment* segment_{};
  int index_{};
  const api::Lane* left_{};
  const api::Lane* right_{};
  double length_{1.};
  const api::BranchPoint* bp_[2]{};
  FakeEnds confluent_[2], ongoing_[2];
  bool has_sets_[2]{true, true};
  std::optional<api::LaneEnd> default_[2];
  mutable std::map<double, api::RBounds> lb_, sb_;
  mutable std::map<std::pair<double, double>, api::HBounds> hb_;
  mutable std::map<std::array<double, 3>, api::InertialPosition> ip_;
  mutable std::map<std::array<double, 3>, api::Rotation> rot_;
  mutable std::map<std::array<double, 3>, api::LanePositionResult> lp_, sp_;
  template <class M, class K> static typename M::mapped_type memo(M& m, const K& k) {
    auto it = m.find(k);
    if (it == m.end()) {
      if (!m.empty() && coin(3)) it = m.emplace(k, m.begin()->second).first;
      else it = m.emplace(k, Gen<typename M::mapped_type>::make()).first;
    }
    return it->second;
  }
  api::LaneId do_id() const override { return id_; }
  const api::Segment* do_segment() const override { return segment_; }
  int do_index() const override { return index_; }
  const api::Lane* do_to_left() const override { return left_; }
  const api::Lane* do_to_right() const override { return right_; }
  double do_length() const override { return length_; }
  api::RBounds do_lane_bounds(double s) const override { return memo(lb_, s); }
  api::RBounds do_segment_bounds(double s) const override { return memo(sb_, s); }
  api::HBounds do_elevation_bounds(double s, double r) const override { return memo(hb_, std::make_pair(s, r)); }
  api::InertialPosition DoToInertialPosition(const api::LanePosition& p) const override { return memo(ip_, key3(p.srh())); }
  api::LanePositionResult DoToLanePosition(const api::InertialPosition& p) const override { return memo(lp_, key3(p.xyz())); }
  api::LanePositionResult DoToSegmentPosition(const api::InertialPosition& p) const override { return memo(sp_, key3(p.xyz())); }
  api::Rotation DoGetOrientation(const api::LanePosition& p) const override { return memo(rot_, key3(p.srh())); }
  api::LanePosition DoEvalMotionDerivatives(const api::LanePosition& p, const api::IsoLaneVelocity&) const override { return p; }
  const api::BranchPoint* DoGetBranchPoint(const api::LaneEnd::Which w) const override { return bp_[w == api::LaneEnd::kFinish]; }
  const api::LaneEndSet* DoGetConfluentBranches(const api::LaneEnd::Which w) const override {
    const bool f = w == api::LaneEnd::kFinish;
    return has_sets_[f] ? &confluent_[f] : nullptr;
  }
  const api::LaneEndSet* DoGetOngoingBranches(const api::LaneEnd::Which w) const override {
    const bool f = w == api::LaneEnd::kFinish;
    return has_sets_[f] ? &ongoing_[f] : nullptr;
  }
  std::optional<api::LaneEnd> DoGetDefaultBranch(const api::LaneEnd::Which w) const override { return default_[w == api::LaneEnd::kFinish]; }
};

struct FakeSegment : public api::Segment {
  explicit FakeSegment(const std::string& id) : id_(id) {}
  api::SegmentId id_;
  const api::Junction* junction_{};
  std::vector<const api::Lane*> lanes_;
  api::SegmentId do_id() const override { return id_; }
  const api::Junction* do_junction() const override { return junction_; }
  int do_num_lanes() const override { return static_cast<int>(lanes_.size()); }
  const api::Lane* do_lane(int i) const override { return lanes_.at(i); }
};

struct FakeJunction : public api::Junction {
  explicit FakeJunction(const std::string& id) : id_(id) {}
  api::JunctionId id_;
  const api::RoadGeometry* rg_{};
  std::vector<const api::Segment*> segments_;
  api::JunctionId do_id() const override { return id_; }
  const api::RoadGeometry* do_road_geometry() const override { return rg_; }
  int do_num_segments() const override { return static_cast<int>(segments_.size()); }
  const api::Segment* do_segment(int i) const override { return segments_.at(i); }
};

struct FakeBranchPoint : public api::BranchPoint {
  explicit FakeBranchPoint(const std::string& id) : id_(id) {}
  api::BranchPointId id_;
  const api::RoadGeometry* rg_{};
  FakeEnds side_[2];
  bool in(const FakeEnds& s, const api::LaneEnd& e) const {
    for (auto& x : s.ends) {
      if (x.lane == e.lane && x.end == e.end) return true;
    }
    return false;
  }
  api::BranchPointId do_id() const override { return id_; }
  const api::RoadGeometry* do_road_geometry() const override { return rg_; }
  const api::LaneEndSet* DoGetConfluentBranches(const api::LaneEnd& e) const override { return in(side_[0], e) ? &side_[0] : &side_[1]; }
  const api::LaneEndSet* DoGetOngoingBranches(const api::LaneEnd& e) const override { return in(side_[0], e) ? &side_[1] : &side_[0]; }
  std::optional<api::LaneEnd> DoGetDefaultBranch(const api::LaneEnd&) const override { return std::nullopt; }
  const api::LaneEndSet* DoGetASide() const override { return &side_[0]; }
  const api::LaneEndSet* DoGetBSide() const override { return &side_[1]; }
};

struct FakeIds : public api::RoadGeometry::IdIndex {
  std::unordered_map<api::LaneId, const api::Lane*> lanes;
  std::unordered_map<api::SegmentId, const api::Segment*> segments;
  std::unordered_map<api::JunctionId, const api::Junction*> junctions;
  std::unordered_map<api::BranchPointId, const api::BranchPoint*> bps;
  template <class M, class K> static typename M::mapped_type get(const M& m, const K& k) {
    auto it = m.find(k);
    return it == m.end() ? nullptr : it->second;
  }
  const api::Lane* DoGetLane(const api::LaneId& id) const override { return get(lanes, id); }
  const std::unordered_map<api::LaneId, const api::Lane*>& DoGetLanes() const override { return lanes; }
  const api::Segment* DoGetSegment(const api::SegmentId& id) const override { return get(segments, id); }
  const api::Junction* DoGetJunction(const api::JunctionId& id) const override { return get(junctions, id); }
  const api::BranchPoint* DoGetBranchPoint(const api::BranchPointId& id) const override { return get(bps, id); }
};

struct FakeRoadGeometry : public api::RoadGeometry {
  api::RoadGeometryId id_{"rg"};
  FakeIds ids;
  double lin{0.01}, ang{0.01}, scale{1.};
  std::vector<const api::Junction*> junctions_;
  std::vector<const api::BranchPoint*> bps_;
  api::RoadGeometryId do_id() const override { return id_; }
  int do_num_junctions() const override { return static_cast<int>(junctions_.size()); }
  const api::Junction* do_junction(int i) const override { return junctions_.at(i); }
  int do_num_branch_points() const override { return static_cast<int>(bps_.size()); }
  const api::BranchPoint* do_branch_point(int i) const override { return bps_.at(i); }
  const IdIndex& DoById() const override { return ids; }
  api::RoadPositionResult DoToRoadPosition(const api::InertialPosition&, const std::optional<api::RoadPosition>&) const override { return {}; }
  std::vector<api::RoadPositionResult> DoFindRoadPositions(const api::InertialPosition&, double) const override { return {}; }
  double do_linear_tolerance() const override { return lin; }
  double do_angular_tolerance() const override { return ang; }
  double do_scale_length() const override { return scale; }
  maliput::math::Vector3 do_inertial_to_backend_frame_translation() const override { return {0., 0., 0.}; }
};

// The network of the current run.
struct World {
  FakeRoadGeometry rg;
  std::vector<std::shared_ptr<FakeLane>> lanes;
  std::vector<std::shared_ptr<FakeSegment>> segments;
  std::vector<std::shared_ptr<FakeJunction>> junctions;
  std::vector<std::shared_ptr<FakeBranchPoint>> bps;
  World() {
    static const double tols[] = {0., 0.01, 0.5, 1., 2.};
    const bool q = ctx().quiet;
    rg.lin = tols[ctx().pick(5)];
    rg.ang = tols[ctx().pick(5)];
    const long nj = 1 + ctx().pick(2);
    int n = 0, ns = 0;
    for (long j = 0; j < nj; ++j) {
      auto jn = std::make_shared<FakeJunction>("j" + std::to_string(j));
      jn->rg_ = &rg;
      const long k = 1 + ctx().pick(2);
      for (long s = 0; s < k; ++s) {
        auto sg = std::make_shared<FakeSegment>("s" + std::to_string(ns++));
        sg->junction_ = jn.get();
        const long nl = 1 + ctx().pick(3);
        std::shared_ptr<FakeLane> prev;
        for (long l = 0; l < nl; ++l) {
          auto ln = std::make_shared<FakeLane>(std::string(1, static_cast<char>('a' + n++)));
          ln->segment_ = sg.get();
          ln->index_ = static_cast<int>(l);
          ln->length_ = pos_real();
          ln->right_ = prev.get();
          if (prev) prev->left_ = ln.get();
          prev = ln;
          sg->lanes_.push_back(ln.get());
          rg.ids.lanes.emplace(ln->id_, ln.get());
          lanes.push_back(ln);
        }
        jn->segments_.push_back(sg.get());
        rg.ids.segments.emplace(sg->id_, sg.get());
        segments.push_back(sg);
      }
      rg.junctions_.push_back(jn.get());
      rg.ids.junctions.emplace(jn->id_, jn.get());
      junctions.push_back(jn);
    }
    const long nb = 1 + ctx().pick(4);
    for (long b = 0; b < nb; ++b) {
      auto bp = std::make_shared<FakeBranchPoint>("bp" + std::to_string(b));
      bp->rg_ = &rg;
      rg.bps_.push_back(bp.get());
      rg.ids.bps.emplace(bp->id_, bp.get());
      bps.push_back(bp);
    }
    std::vector<std::array<int, 2>> where;
    for (auto& l : lanes) {
      std::array<int, 2> w{};
      for (int e = 0; e < 2; ++e) {
        const int b = static_cast<int>(ctx().pick(nb)), side = static_cast<int>(ctx().pick(2));
        w[e] = 2 * b + side;
        l->bp_[e] = bps[b].get();
        bps[b]->side_[side].ends.push_back(api::LaneEnd(l.get(), e ? api::LaneEnd::kFinish : api::LaneEnd::kStart));
      }
      where.push_back(w);
    }
    for (size_t i = 0; i < lanes.size(); ++i) {
      for (int e = 0; e < 2; ++e) {
        lanes[i]->confluent_[e].ends = bps[where[i][e] / 2]->side_[where[i][e] % 2].ends;
        lanes[i]->ongoing_[e].ends = bps[where[i][e] / 2]->side_[1 - where[i][e] % 2].ends;
        if (coin(6)) lanes[i]->has_sets_[e] = false;
        if (!lanes[i]->ongoing_[e].ends.empty() && coin()) lanes[i]->default_[e] = lanes[i]->ongoing_[e].ends[0];
      }
    }
    ctx().quiet = q;
    ctx().log << " <network: " << lanes.size() << " lanes, tolerance " << rg.lin << ">";
  }
};
inline std::shared_ptr<World>& world_ptr() { static std::shared_ptr<World> w; return w; }
inline uint64_t& world_run() { static uint64_t r = 0; return r; }
// One network per run (the run counter is advanced by the driver).
inline World& world() {
  if (!world_ptr() || world_run() != ctx().run) {
    world_ptr() = std::make_shared<World>();
    world_run() = ctx().run;
  }
  return *world_ptr();
}
template <class T> std::shared_ptr<T> share(T* p) { return std::shared_ptr<T>(p, [](T*) {}); }
template <> struct Gen<api::RoadGeometry> { static std::shared_ptr<api::RoadGeometry> make() { return share<api::RoadGeometry>(&world().rg); } };
template <> struct Gen<const api::RoadGeometry*> { static const api::RoadGeometry* make() { return coin(10) ? nullptr : &world().rg; } };
inline FakeLane* any_lane() {
  auto& ls = world().lanes;
  const long i = ctx().pick(ls.size());
  ctx().log << " lane:" << ls[i]->id_.string();
  return ls[i].get();
}
template <> struct Gen<api::Lane> { static std::shared_ptr<api::Lane> make() { return share<api::Lane>(any_lane()); } };
template <> struct Gen<const api::Lane*> { static const api::Lane* make() { return coin(10) ? nullptr : any_lane(); } };
template <> struct Gen<api::Segment> { static std::shared_ptr<api::Segment> make() { auto& s = world().segments; return share<api::Segment>(s[ctx().pick(s.size())].get()); } };
template <> struct Gen<const api::Segment*> { static const api::Segment* make() { auto& s = world().segments; return coin(10) ? nullptr : s[ctx().pick(s.size())].get(); } };
template <> struct Gen<const api::Junction*> { static const api::Junction* make() { auto& s = world().junctions; return coin(10) ? nullptr : s[ctx().pick(s.size())].get(); } };
template <> struct Gen<api::Junction> { static std::shared_ptr<api::Junction> make() { auto& s = world().junctions; return share<api::Junction>(s[ctx().pick(s.size())].get()); } };
template <> struct Gen<const api::BranchPoint*> { static const api::BranchPoint* make() { auto& s = world().bps; return coin(10) ? nullptr : s[ctx().pick(s.size())].get(); } };
// Where a contract file takes its lane ends from, when not from the network.
inline const api::Lane* (*&end_source())() {
  static const api::Lane* (*f)() = nullptr;
  return f;
}
template <> struct Gen<api::LaneEnd> {
  static api::LaneEnd make() { const api::Lane* l = end_source() ? end_source()() : any_lane(); return api::LaneEnd(l, integer(0, 1) ? api::LaneEnd::kFinish : api::LaneEnd::kStart); }
};
template <> struct Gen<api::RoadPosition> {
  static api::RoadPosition make() { auto* l = any_lane(); return api::RoadPosition(l, Gen<api::LanePosition>::make()); }
};
template <> struct Gen<api::RoadPositionResult> {
  static api::RoadPositionResult make() {
    api::RoadPositionResult r;
    r.road_position = Gen<api::RoadPosition>::make();
    r.nearest_position = Gen<api::InertialPosition>::make();
    r.distance = pos_real();
    return r;
  }
};
}  // namespace vc
#endif
