// Elements of geometry_base for the native runs of the contract files (not seen by the verifier).
#pragma once
#ifdef VC_NATIVE
#include "fakes.h"
#include "maliput/geometry_base/branch_point.h"
#include "maliput/geometry_base/junction.h"
#include "maliput/geometry_base/lane.h"
#include "maliput/geometry_base/road_geometry.h"
#include "maliput/geometry_base/segment.h"

namespace vc {
namespace gb = maliput::geometry_base;
struct GbLane : public gb::Lane {
  explicit GbLane(const std::string& id) : gb::Lane(api::LaneId(id)) {}
  double do_length() const override { return 1.; }
  api::RBounds do_lane_bounds(double) const override { return api::RBounds(-1., 1.); }
  api::RBounds do_segment_bounds(double) const override { return api::RBounds(-1., 1.); }
  api::HBounds do_elevation_bounds(double, double) const override { return api::HBounds(-1., 1.); }
  api::Rotation DoGetOrientation(const api::LanePosition&) const override { return api::Rotation(); }
  api::LanePosition DoEvalMotionDerivatives(const api::LanePosition& p, const api::IsoLaneVelocity&) const override { return p; }
};
struct GbWorld {
  std::vector<std::unique_ptr<GbLane>> lanes;
  std::vector<std::unique_ptr<gb::BranchPoint>> bps;
  GbWorld() {
    const long n = 1 + ctx().pick(4);
    for (long i = 0; i < n; ++i) lanes.push_back(std::make_unique<GbLane>(std::string(1, static_cast<char>('a' + i))));
    for (int b = 0; b < 2; ++b) bps.push_back(std::make_unique<gb::BranchPoint>(api::BranchPointId(b ? "q" : "p")));
    std::vector<api::LaneEnd> in[2];
    for (auto& l : lanes) {
      for (int e = 0; e < 2; ++e) {
        if (coin(3)) continue;
        const int b = coin(4);
        const auto w = e ? api::LaneEnd::kFinish : api::LaneEnd::kStart;
        if (coin()) bps[b]->AddABranch(l.get(), w);
        else bps[b]->AddBBranch(l.get(), w);
        in[b].emplace_back(l.get(), w);
      }
    }
    for (int b = 0; b < 2; ++b) {
      for (auto& e : in[b]) {
        const auto& f = in[b][ctx().pick(in[b].size())];
        try { bps[b]->SetDefault(e, f); } catch (const std::exception&) {}
      }
    }
  }
};
inline GbWorld& gb_world() {
  static std::unique_ptr<GbWorld> w;
  static uint64_t r = 0;
  if (!w || r != ctx().run) {
    w = std::make_unique<GbWorld>();
    r = ctx().run;
  }
  return *w;
}
template <> struct Gen<gb::BranchPoint> { static std::shared_ptr<gb::BranchPoint> make() { return share(gb_world().bps[0].get()); } };
inline GbLane* any_gb_lane() {
  auto& ls = gb_world().lanes;
  const long i = ctx().pick(ls.size());
  if (!ctx().quiet) ctx().log << " lane:" << i;
  return ls[i].get();
}
struct GbEnds {
  GbEnds() { end_source() = []() -> const api::Lane* { return any_gb_lane(); }; }
};
template <> struct Gen<gb::Lane> { static std::shared_ptr<gb::Lane> make() { return share<gb::Lane>(any_gb_lane()); } };
template <> struct Gen<gb::Lane*> { static gb::Lane* make() { return coin(8) ? nullptr : any_gb_lane(); } };
// Names of elements: few, so that they may coincide.
inline std::string gb_name(const char* kind) { return std::string(kind) + std::to_string(ctx().pick(6)); }
inline std::unique_ptr<gb::Lane> new_gb_lane() { return std::make_unique<GbLane>(gb_name("l")); }
inline std::unique_ptr<gb::Segment> new_gb_segment(bool filled) {
  auto s = std::make_unique<gb::Segment>(api::SegmentId(gb_name("s")));
  const long n = filled ? ctx().pick(4) : 0;
  for (long i = 0; i < n; ++i) s->AddLane(new_gb_lane());
  if (!ctx().quiet) ctx().log << " <segment of " << n << ">";
  return s;
}
inline std::unique_ptr<gb::Junction> new_gb_junction(bool filled) {
  auto j = std::make_unique<gb::Junction>(api::JunctionId(gb_name("j")));
  const long n = filled ? ctx().pick(4) : 0;
  for (long i = 0; i < n; ++i) j->AddSegment(new_gb_segment(coin()));
  if (!ctx().quiet) ctx().log << " <junction of " << n << ">";
  return j;
}
inline std::unique_ptr<gb::BranchPoint> new_gb_branch_point() { return std::make_unique<gb::BranchPoint>(api::BranchPointId(gb_name("b"))); }
inline std::shared_ptr<gb::RoadGeometry> new_gb_road_geometry() {
  auto rg = std::make_shared<gb::RoadGeometry>(api::RoadGeometryId("rg"), 0.1, 0.1, 1., maliput::math::Vector3(0., 0., 0.));
  const long n = ctx().pick(4), m = ctx().pick(4);
  for (long i = 0; i < n; ++i) {
    auto j = std::make_unique<gb::Junction>(api::JunctionId("j" + std::to_string(i)));
    rg->AddJunction(std::move(j));
  }
  for (long i = 0; i < m; ++i) rg->AddBranchPoint(std::make_unique<gb::BranchPoint>(api::BranchPointId("b" + std::to_string(i))));
  if (!ctx().quiet) ctx().log << " <geometry of " << n << " junctions, " << m << " branch points>";
  return rg;
}
template <> struct Gen<std::unique_ptr<gb::Lane>> { static std::unique_ptr<gb::Lane> make() { return coin(6) ? nullptr : new_gb_lane(); } };
template <> struct Gen<std::unique_ptr<gb::Segment>> { static std::unique_ptr<gb::Segment> make() { return coin(6) ? nullptr : new_gb_segment(coin(3)); } };
template <> struct Gen<std::unique_ptr<gb::Junction>> { static std::unique_ptr<gb::Junction> make() { return coin(6) ? nullptr : new_gb_junction(coin(3)); } };
template <> struct Gen<std::unique_ptr<gb::BranchPoint>> { static std::unique_ptr<gb::BranchPoint> make() { return coin(6) ? nullptr : new_gb_branch_point(); } };
template <> struct Gen<gb::Segment> { static std::shared_ptr<gb::Segment> make() { return new_gb_segment(true); } };
template <> struct Gen<gb::Junction> { static std::shared_ptr<gb::Junction> make() { return new_gb_junction(coin()); } };
template <> struct Gen<gb::RoadGeometry> { static std::shared_ptr<gb::RoadGeometry> make() { return new_gb_road_geometry(); } };
}  // namespace vc
#endif
