// sources: src/maliput/api/regions.cc
// native: src/maliput/api/regions.cc src/maliput/common/maliput_abort_and_throw.cc
#include "ranges.h"
using namespace ranges;
using maliput::api::LaneSRange;
using maliput::api::LaneSRoute;
using maliput::api::LaneId;

namespace c02 {

VC_PROOF("C02", "a lane range keeps its lane and range")
void Construction(const LaneId& id, const SRange& r) {
  const LaneSRange x(id, r);
  vc::check(x.lane_id() == id && x.s_range().s0() == r.s0() && x.s_range().s1() == r.s1(), "accessors return the constructor arguments");
  vc::check(x.length() == Hi(r) - Lo(r), "the length is the size of the range");
}

VC_PROOF("C02", "ranges of different lanes never intersect")
void DifferentLanes(const LaneSRange& a, const LaneSRange& b, double tol) {
  vc::assume(a.lane_id() != b.lane_id());
  vc::check(!a.Intersects(b, tol), "no intersection across lanes");
  vc::check(!a.Contains(b, tol), "no containment across lanes");
  vc::check(!a.GetIntersection(b, tol).has_value(), "no common range across lanes");
}

VC_PROOF("C02", "ranges of one lane behave as their s-ranges")
void SameLane(const LaneSRange& a, const LaneSRange& b, double tol) {
  vc::assume(a.lane_id() == b.lane_id());
  const SRange sa = a.s_range();
  const SRange sb = b.s_range();
  bool i = false, c = false;
  std::optional<LaneSRange> x;
  const bool ti = vc::throws([&]() { i = a.Intersects(b, tol); });
  const bool tc = vc::throws([&]() { c = a.Contains(b, tol); });
  const bool tx = vc::throws([&]() { x = a.GetIntersection(b, tol); });
  vc::check(ti == !Allowed(sa, sb, tol) && tc == ti && tx == ti, "only a tolerance that is too negative throws");
  if (ti) return;
  vc::check(i == Overlap(sa, sb, tol), "intersection is the one of the s-ranges");
  vc::check(c == (Within(sb.s0(), sa, tol) && Within(sb.s1(), sa, tol)), "containment is the one of the s-ranges");
  vc::check(x.has_value() == i, "a common range exists exactly when they intersect");
  vc::check(!x.has_value() || x->lane_id() == a.lane_id(), "the common range is on the same lane");
  const std::optional<SRange> sx = sa.GetIntersection(sb, tol);
  vc::check(!x.has_value() || (sx.has_value() && x->s_range().s0() == sx->s0() && x->s_range().s1() == sx->s1()), "the common range is the one of the s-ranges");
}

VC_PROOF("C02", "routes intersect when some of their ranges do")
void RouteIntersection(const LaneSRoute& a, const LaneSRoute& b, double tol) {
  vc::assume(tol >= 0.);
  const bool some = vc::exists(0, a.ranges().size(), [&](long i) {
    return vc::exists(0, b.ranges().size(), [&](long j) {
      const LaneSRange& x = a.ranges()[i];
      const LaneSRange& y = b.ranges()[j];
      return x.lane_id() == y.lane_id() && Overlap(x.s_range(), y.s_range(), tol);
    });
  });
  vc::check(a.Intersects(b, tol) == some, "routes intersect exactly when a range of one intersects a range of the other");
}

VC_PROOF("C02", "route intersection is symmetric")
void RouteSymmetry(const LaneSRoute& a, const LaneSRoute& b, double tol) {
  vc::assume(tol >= 0.);
  vc::check(a.Intersects(b, tol) == b.Intersects(a, tol), "the order of the routes does not matter");
}

VC_PROOF("C02", "a route is its ranges in order and is as long as all of them")
void RouteContent(const std::vector<LaneSRange>& ranges) {
  const LaneSRoute r(ranges);
  vc::check(r.ranges().size() == ranges.size(), "every range is kept");
  vc::check(vc::forall(0, ranges.size(), [&](long i) {
              return r.ranges()[i].lane_id() == ranges[i].lane_id() && r.ranges()[i].s_range().s0() == ranges[i].s_range().s0() &&
                     r.ranges()[i].s_range().s1() == ranges[i].s_range().s1();
            }), "ranges keep their order");
  vc::check(vc::eq(r.length(), vc::sum(0, ranges.size(), [&](long i) { return Hi(ranges[i].s_range()) - Lo(ranges[i].s_range()); })),
            "the length is the sum of the sizes of the ranges");
  vc::check(LaneSRoute().ranges().empty() && LaneSRoute().length() == 0., "a default route is empty");
}

}  // namespace c02
