// Logical reading of an s-range: the closed interval between its ends.
#pragma once
#include "maliput/api/regions.h"
#include "vc.h"
#include "gens.h"

namespace ranges {
using maliput::api::SRange;
VC_INV("maliput::api::SRange") inline bool Inv(const SRange& r) { return r.s0() >= 0. && r.s1() >= 0.; }
inline double Lo(const SRange& r) { return r.s0() < r.s1() ? r.s0() : r.s1(); }
inline double Hi(const SRange& r) { return r.s0() < r.s1() ? r.s1() : r.s0(); }
inline double Abs(double x) { return x < 0. ? -x : x; }
inline double Min(double a, double b) { return a < b ? a : b; }
inline double Max(double a, double b) { return a < b ? b : a; }
// Whether the tolerance is one the documentation allows for the two ranges.
inline bool Allowed(const SRange& a, const SRange& b, double tol) {
  return tol >= 0. || Min(Hi(a) - Lo(a), Hi(b) - Lo(b)) >= -2. * tol;
}
inline bool Overlap(const SRange& a, const SRange& b, double tol) { return Hi(b) >= Lo(a) - tol && Lo(b) <= Hi(a) + tol; }
inline bool Within(double x, const SRange& a, double tol) { return x >= Lo(a) - tol && x <= Hi(a) + tol; }
}  // namespace ranges
