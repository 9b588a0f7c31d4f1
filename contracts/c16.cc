// sources: src/maliput/common/range_validator.cc src/maliput/math/saturate.cc
// native: src/maliput/common/range_validator.cc src/maliput/math/saturate.cc src/maliput/common/maliput_abort_and_throw.cc
#include "maliput/common/range_validator.h"
#include "maliput/math/saturate.h"
#include "vc.h"

using maliput::common::RangeValidator;

namespace c16 {

// A validator of the closed range [lo, hi], or nothing when it is rejected.
RangeValidator Make(bool relative, double lo, double hi, double tol, double eps) {
  return relative ? RangeValidator::GetRelativeEpsilonValidator(lo, hi, tol, eps) : RangeValidator::GetAbsoluteEpsilonValidator(lo, hi, tol, eps);
}
double Width(bool relative, double lo, double hi, double eps) { return relative ? (hi - lo) * eps : eps; }

VC_PROOF("C16", "a range validator is rejected exactly for an unusable tolerance, epsilon or range")
void Construction(bool relative, double lo, double hi, double tol, double eps) {
  const double e = Width(relative, lo, hi, eps);
  const bool threw = vc::throws([&]() { Make(relative, lo, hi, tol, eps); });
  vc::check(threw == (!(tol > 0.) || e < 0. || e > tol || lo + e > hi || hi - e < lo), "throws exactly when the tolerance is not positive, epsilon is not in [0, tolerance] or the range is narrower than epsilon");
}

VC_PROOF("C16", "a validated value is the value itself or the nearest end of the inner range")
void Validates(bool relative, double lo, double hi, double tol, double eps, double s) {
  const double e = Width(relative, lo, hi, eps);
  vc::assume(tol > 0. && e >= 0. && e <= tol && lo + e <= hi && lo <= hi - e && lo + e <= hi - e);
  const RangeValidator v = Make(relative, lo, hi, tol, eps);
  double r = 0.;
  const bool threw = vc::throws([&]() { r = v(s); });
  vc::check(threw == (s < lo - tol || s > hi + tol), "throws exactly for a value further than the tolerance outside the range");
  if (threw) return;
  vc::check(r == (s < lo + e ? lo + e : (s > hi - e ? hi - e : s)), "unchanged inside the inner range, its nearest end otherwise");
  vc::check(v(r) == r, "validating again changes nothing");
}

VC_PROOF("C16", "saturation is the value itself or the nearest bound")
void Saturate(double x, double lo, double hi) {
  double r = 0.;
  const bool threw = vc::throws([&]() { r = maliput::math::saturate(x, lo, hi); });
  vc::check(threw == (lo > hi), "throws exactly when the bounds are inverted");
  if (threw) return;
  vc::check(r == (x < lo ? lo : (x > hi ? hi : x)), "unchanged between the bounds, the nearest bound otherwise");
  vc::check(maliput::math::saturate(r, lo, hi) == r, "saturating again changes nothing");
}

}  // namespace c16
