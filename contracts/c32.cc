// sources: src/maliput/api/lane.cc src/maliput/api/lane_data.cc src/maliput/math/vector.cc
// native: src/maliput/api/lane.cc src/maliput/api/lane_data.cc src/maliput/math/quaternion.cc src/maliput/math/vector.cc src/maliput/math/matrix.cc src/maliput/math/roll_pitch_yaw.cc src/maliput/common/maliput_abort_and_throw.cc
#include "maliput/api/junction.h"
#include "maliput/api/lane.h"
#include "maliput/api/lane_data.h"
#include "maliput/api/road_geometry.h"
#include "maliput/api/segment.h"
#include "fakes.h"
#include "vc.h"

using maliput::api::HBounds;
using maliput::api::Lane;
using maliput::api::LanePosition;
using maliput::api::RBounds;

namespace c32 {

bool Within(double x, double lo, double hi, double tol) { return lo - tol <= x && x <= hi + tol; }

VC_PROOF("C32", "a lane contains a position up to the linear tolerance in each coordinate")
void Contains(const Lane& lane, const LanePosition& p) {
  vc::assume(lane.segment() != nullptr && lane.segment()->junction() != nullptr && lane.segment()->junction()->road_geometry() != nullptr);
  const double tol = lane.segment()->junction()->road_geometry()->linear_tolerance();
  const RBounds rb = lane.segment_bounds(p.s());
  const HBounds hb = lane.elevation_bounds(p.s(), p.r());
  const bool want = Within(p.s(), 0., lane.length(), tol) && Within(p.r(), rb.min(), rb.max(), tol) && Within(p.h(), hb.min(), hb.max(), tol);
  vc::check(lane.Contains(p) == want, "contained exactly when s, r and h are within length, segment and elevation bounds");
}

template <class B>
void Bounds(double lo, double hi, double x) {
  double a = 1., b = -1.;
  const bool threw = vc::throws([&]() {
    const B n(lo, hi);
    a = n.min();
    b = n.max();
  });
  vc::check(threw == (lo > 0. || hi < 0.), "construction throws exactly for a positive minimum or a negative maximum");
  vc::check(threw || (a == lo && b == hi), "construction keeps the bounds");
  if (threw) return;
  B m(lo, hi);
  vc::check(vc::throws([&]() { m.set_min(x); }) == (x > 0.), "a positive minimum is rejected");
  vc::check(m.min() == (x > 0. ? lo : x) && m.max() == hi, "only an accepted minimum replaces the minimum");
  B n(lo, hi);
  vc::check(vc::throws([&]() { n.set_max(x); }) == (x < 0.), "a negative maximum is rejected");
  vc::check(n.max() == (x < 0. ? hi : x) && n.min() == lo, "only an accepted maximum replaces the maximum");
  const B d;
  vc::check(d.min() == 0. && d.max() == 0., "no extent by default");
}

VC_PROOF("C32", "lateral bounds hold zero")
void Lateral(double lo, double hi, double x) { Bounds<RBounds>(lo, hi, x); }

VC_PROOF("C32", "elevation bounds hold zero")
void Elevation(double lo, double hi, double x) { Bounds<HBounds>(lo, hi, x); }

}  // namespace c32
