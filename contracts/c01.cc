// sources: src/maliput/api/regions.cc
// native: src/maliput/api/regions.cc src/maliput/common/maliput_abort_and_throw.cc
#include "ranges.h"
using namespace ranges;

namespace c01 {

VC_PROOF("C01", "construction keeps its ends and rejects negative ones")
void Constructor(double s0, double s1) {
  SRange r;
  vc::check(r.s0() == 0. && r.s1() == 0., "a default range is [0, 0]");
  const bool threw = vc::throws([&]() { r = SRange(s0, s1); });
  vc::check(threw == (s0 < 0. || s1 < 0.), "construction throws exactly for a negative end");
  vc::check(threw || (r.s0() == s0 && r.s1() == s1), "construction keeps its ends");
}

VC_PROOF("C01", "mutation changes one end or throws leaving the range as it was")
void Mutation(SRange r, double v, bool first) {
  const double s0 = r.s0();
  const double s1 = r.s1();
  const bool threw = vc::throws([&]() {
    if (first) {
      r.set_s0(v);
    } else {
      r.set_s1(v);
    }
  });
  vc::check(threw == (v < 0.), "mutation throws exactly for a negative end");
  vc::check(r.s0() == (first && !threw ? v : s0), "only set_s0 changes s0");
  vc::check(r.s1() == (!first && !threw ? v : s1), "only set_s1 changes s1");
}

VC_PROOF("C01", "size and direction")
void SizeAndDirection(const SRange& r) {
  vc::check(r.size() == Abs(r.s1() - r.s0()), "size is the distance between the ends");
  vc::check(r.WithS() == (r.s1() > r.s0()), "with s means increasing s");
}

VC_PROOF("C01", "intersection test is interval overlap")
void Intersects(const SRange& a, const SRange& b, double tol) {
  bool res = false;
  const bool threw = vc::throws([&]() { res = a.Intersects(b, tol); });
  vc::check(threw == !Allowed(a, b, tol), "Intersects throws exactly when a negative tolerance exceeds half of the smaller range");
  vc::check(threw || res == Overlap(a, b, tol), "Intersects is overlap up to the tolerance");
  vc::check(threw || res == b.Intersects(a, tol), "Intersects is symmetric");
}

VC_PROOF("C01", "containment test is interval inclusion")
void Contains(const SRange& a, const SRange& b, double tol) {
  bool res = false;
  const bool threw = vc::throws([&]() { res = a.Contains(b, tol); });
  vc::check(threw == !Allowed(a, b, tol), "Contains throws exactly when a negative tolerance exceeds half of the smaller range");
  vc::check(threw || res == (Within(b.s0(), a, tol) && Within(b.s1(), a, tol)), "Contains is inclusion up to the tolerance");
  vc::check(threw || !res || a.Intersects(b, tol), "Contains implies Intersects");
}

VC_PROOF("C01", "the intersection is the common interval")
void Intersection(const SRange& a, const SRange& b, double tol) {
  std::optional<SRange> x;
  const bool threw = vc::throws([&]() { x = a.GetIntersection(b, tol); });
  vc::check(threw == !Allowed(a, b, tol), "GetIntersection throws exactly when Intersects does");
  if (threw) return;
  vc::check(x.has_value() == Overlap(a, b, tol), "an intersection is returned exactly when the ranges intersect");
  if (!x.has_value()) return;
  vc::check(x->s0() == (Lo(b) <= Max(Lo(a) - tol, 0.) ? Lo(a) : Lo(b)), "its lower end is the other's inside the grown range, this range's own otherwise");
  vc::check(x->s1() == (Hi(b) >= Hi(a) + tol ? Hi(a) : Hi(b)), "its upper end is the other's inside the grown range, this range's own otherwise");
  vc::check(tol != 0. || (x->s0() == Max(Lo(a), Lo(b)) && x->s1() == Min(Hi(a), Hi(b))), "without tolerance it is the common interval");
  vc::check(tol < 0. || (Within(x->s0(), a, tol) && Within(x->s0(), b, tol) && Within(x->s1(), a, tol) && Within(x->s1(), b, tol)),
            "both ends are in both ranges up to the tolerance");
  vc::check(tol < 0. || (Lo(*x) <= Max(Lo(a), Lo(b)) && Hi(*x) >= Min(Hi(a), Hi(b))), "it covers the common interval");
}

VC_PROOF("C01", "the intersection does not depend on the order beyond the tolerance")
void IntersectionExact(const SRange& a, const SRange& b) {
  const std::optional<SRange> x = a.GetIntersection(b, 0.);
  const std::optional<SRange> y = b.GetIntersection(a, 0.);
  vc::check(x.has_value() == y.has_value(), "intersections are mutual");
  vc::check(!x.has_value() || (x->s0() == y->s0() && x->s1() == y->s1()), "the intersection is the same both ways");
  vc::check(!x.has_value() || (a.Contains(*x, 0.) && b.Contains(*x, 0.)), "the intersection is contained in both");
}

}  // namespace c01
