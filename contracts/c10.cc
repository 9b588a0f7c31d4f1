// sources: src/maliput/math/axis_aligned_box.cc src/maliput/math/overlapping_type.cc src/maliput/math/vector.cc
// native: src/maliput/math/axis_aligned_box.cc src/maliput/math/overlapping_type.cc src/maliput/math/vector.cc src/maliput/common/maliput_abort_and_throw.cc
#include "maliput/math/axis_aligned_box.h"
#include "mathgens.h"
#include "vc.h"

using maliput::math::AxisAlignedBox;
using maliput::math::BoundingRegion;
using maliput::math::OverlappingType;
using maliput::math::Vector3;

namespace c10 {

// Box made of its corners; every box of the library is built this way.
AxisAlignedBox Box(const Vector3& lo, const Vector3& hi, double tol) {
  vc::assume(tol >= 0. && lo.x() <= hi.x() && lo.y() <= hi.y() && lo.z() <= hi.z());
  return AxisAlignedBox(lo, hi, tol);
}
bool Inside(const Vector3& p, const Vector3& lo, const Vector3& hi, double tol) {
  return vc::forall(0, 3, [&](long i) { return lo[i] - tol <= p[i] && p[i] <= hi[i] + tol; });
}
bool Meet(const Vector3& lo, const Vector3& hi, const Vector3& lo2, const Vector3& hi2) {
  return vc::forall(0, 3, [&](long i) { return lo[i] <= hi2[i] && lo2[i] <= hi[i]; });
}
double Max(double a, double b) { return a < b ? b : a; }
double Min(double a, double b) { return a < b ? a : b; }

VC_PROOF("C10", "construction keeps the corners and rejects inverted boxes")
void Construction(const Vector3& lo, const Vector3& hi, double tol) {
  const bool bad = tol < 0. || lo.x() > hi.x() || lo.y() > hi.y() || lo.z() > hi.z();
  bool kept = false;
  const bool threw = vc::throws([&]() {
    const AxisAlignedBox b(lo, hi, tol);
    kept = vc::forall(0, 3, [&](long i) {
      return b.min_corner()[i] == lo[i] && b.max_corner()[i] == hi[i] && vc::eq(b.position()[i], (lo[i] + hi[i]) / 2.);
    });
  });
  vc::check(threw == bad, "throws exactly for a negative tolerance or corners in the wrong order");
  vc::check(threw || kept, "keeps its corners and is centred between them");
}

VC_PROOF("C10", "a point is contained when every coordinate is between the corners")
void Contains(const Vector3& lo, const Vector3& hi, double tol, const Vector3& p) {
  const AxisAlignedBox b = Box(lo, hi, tol);
  vc::check(b.Contains(p) == Inside(p, lo, hi, tol), "containment is coordinate-wise up to the tolerance");
}

VC_PROOF("C10", "the vertices are the eight corner combinations")
void Vertices(const Vector3& lo, const Vector3& hi, double tol) {
  const AxisAlignedBox b = Box(lo, hi, tol);
  const std::vector<Vector3> v = b.get_vertices();
  vc::check(v.size() == 8, "there are eight vertices");
  vc::check(vc::forall(0, 8, [&](long i) {
              return vc::forall(0, 3, [&](long k) { return v[i][k] == lo[k] || v[i][k] == hi[k]; });
            }), "each vertex takes each coordinate from a corner");
  vc::check(vc::forall(0, 8, [&](long m) {
              return vc::exists(0, 8, [&](long i) {
                return v[i][0] == (m % 2 == 0 ? lo[0] : hi[0]) && v[i][1] == (m / 2 % 2 == 0 ? lo[1] : hi[1]) &&
                       v[i][2] == (m / 4 == 0 ? lo[2] : hi[2]);
              });
            }), "every combination is a vertex");
}

VC_PROOF("C10", "boxes intersect when they share a point")
void Intersects(const Vector3& lo, const Vector3& hi, double tol, const Vector3& lo2, const Vector3& hi2, double tol2) {
  const AxisAlignedBox a = Box(lo, hi, tol);
  const AxisAlignedBox b = Box(lo2, hi2, tol2);
  vc::check(a.IsBoxIntersected(b) == Meet(lo, hi, lo2, hi2), "intersected exactly when they overlap along every axis");
  vc::check(a.IsBoxIntersected(b) == b.IsBoxIntersected(a), "intersection is symmetric");
}

VC_PROOF("C10", "a box contains another when it contains all of it")
void ContainsBox(const Vector3& lo, const Vector3& hi, double tol, const Vector3& lo2, const Vector3& hi2, double tol2, const Vector3& p) {
  const AxisAlignedBox a = Box(lo, hi, tol);
  const AxisAlignedBox b = Box(lo2, hi2, tol2);
  vc::check(a.IsBoxContained(b) == (Inside(lo2, lo, hi, tol) && Inside(hi2, lo, hi, tol)), "contained exactly when both corners are inside");
  vc::check(!a.IsBoxContained(b) || !Inside(p, lo2, hi2, 0.) || a.Contains(p), "every point of a contained box is inside");
}

VC_PROOF("C10", "the intersection box is the set of common points")
void Intersection(const Vector3& lo, const Vector3& hi, double tol, const Vector3& lo2, const Vector3& hi2, double tol2) {
  const AxisAlignedBox a = Box(lo, hi, tol);
  const AxisAlignedBox b = Box(lo2, hi2, tol2);
  const std::optional<AxisAlignedBox> x = a.GetIntersection(b);
  vc::check(x.has_value() == Meet(lo, hi, lo2, hi2), "present exactly when the boxes share a point");
  vc::check(!x.has_value() || vc::forall(0, 3, [&](long i) {
              return x->min_corner()[i] == Max(lo[i], lo2[i]) && x->max_corner()[i] == Min(hi[i], hi2[i]);
            }), "its corners bound the common points");
}

VC_PROOF("C10", "overlap classification agrees with intersection and containment")
void Overlaps(const Vector3& lo, const Vector3& hi, double tol, const Vector3& lo2, const Vector3& hi2, double tol2) {
  const AxisAlignedBox a = Box(lo, hi, tol);
  const AxisAlignedBox b = Box(lo2, hi2, tol2);
  const OverlappingType o = a.Overlaps(b);
  const bool meet = Meet(lo, hi, lo2, hi2);
  const bool in = Inside(lo2, lo, hi, tol) && Inside(hi2, lo, hi, tol);
  vc::check((o == OverlappingType::kDisjointed) == !meet, "disjointed exactly when no point is shared");
  vc::check((o == OverlappingType::kContained) == (meet && in), "contained exactly when the other box is inside");
  vc::check((o == OverlappingType::kIntersected) == (meet && !in), "intersected otherwise");
}

}  // namespace c10
