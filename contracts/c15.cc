// sources: src/maliput/math/roll_pitch_yaw.cc src/maliput/math/quaternion.cc src/maliput/math/matrix.cc src/maliput/math/vector.cc src/maliput/api/lane_data.cc
// native: src/maliput/math/roll_pitch_yaw.cc src/maliput/math/quaternion.cc src/maliput/math/matrix.cc src/maliput/math/vector.cc src/maliput/api/lane_data.cc src/maliput/api/lane.cc src/maliput/common/maliput_abort_and_throw.cc
#include <cmath>

#include "maliput/api/lane_data.h"
#include "maliput/math/matrix.h"
#include "maliput/math/quaternion.h"
#include "maliput/math/roll_pitch_yaw.h"
#include "maliput/math/vector.h"
#include "fakes.h"
#include "mathgens.h"
#include "vc.h"

using maliput::api::InertialPosition;
using maliput::api::Rotation;
using maliput::math::Matrix3;
using maliput::math::Quaternion;
using maliput::math::RollPitchYaw;
using maliput::math::Vector3;

namespace c15 {

// Elementary rotations and their derivatives along the angle.
Matrix3 Rx(double c, double s) { return Matrix3({1., 0., 0., 0., c, -s, 0., s, c}); }
Matrix3 Ry(double c, double s) { return Matrix3({c, 0., s, 0., 1., 0., -s, 0., c}); }
Matrix3 Rz(double c, double s) { return Matrix3({c, -s, 0., s, c, 0., 0., 0., 1.}); }
Matrix3 Dx(double c, double s) { return Matrix3({0., 0., 0., 0., -s, -c, 0., c, -s}); }
Matrix3 Dy(double c, double s) { return Matrix3({-s, 0., c, 0., 0., 0., -c, 0., -s}); }
Matrix3 Dz(double c, double s) { return Matrix3({-s, -c, 0., c, -s, 0., 0., 0., 0.}); }
bool Equal(const Matrix3& a, const Matrix3& b) {
  return vc::forall(0, 3, [&](long i) { return vc::forall(0, 3, [&](long j) { return vc::eq(a[i][j], b[i][j]); }); });
}
void HalfAngle(double x) {
  vc::axiom(vc::eq(std::sin(x), 2. * std::sin(x / 2.) * std::cos(x / 2.)), "sin(x) = 2 sin(x/2) cos(x/2)");
  vc::axiom(vc::eq(std::cos(x), std::cos(x / 2.) * std::cos(x / 2.) - std::sin(x / 2.) * std::sin(x / 2.)), "cos(x) = cos(x/2)^2 - sin(x/2)^2");
}
void Atan2(double y, double x) {
  const double l = std::sqrt(x * x + y * y);
  vc::axiom(l == 0. || (vc::eq(l * std::cos(std::atan2(y, x)), x) && vc::eq(l * std::sin(std::atan2(y, x)), y)),
            "atan2(y, x) is the angle of (x, y)");
}
void Sum(double a, double b) {
  vc::axiom(vc::eq(std::sin(a + b), std::sin(a) * std::cos(b) + std::cos(a) * std::sin(b)) &&
                vc::eq(std::cos(a + b), std::cos(a) * std::cos(b) - std::sin(a) * std::sin(b)), "sine and cosine of a sum");
}
void Difference(double a, double b) {
  vc::axiom(vc::eq(std::sin(a - b), std::sin(a) * std::cos(b) - std::cos(a) * std::sin(b)) &&
                vc::eq(std::cos(a - b), std::cos(a) * std::cos(b) + std::sin(a) * std::sin(b)), "sine and cosine of a difference");
}
void Period(double a) {
  vc::axiom(vc::eq(std::sin(a - 2 * M_PI), std::sin(a)) && vc::eq(std::cos(a - 2 * M_PI), std::cos(a)) && vc::eq(std::sin(a + 2 * M_PI), std::sin(a)) &&
                vc::eq(std::cos(a + 2 * M_PI), std::cos(a)), "sine and cosine repeat after a full turn");
}
void Unit(Quaternion& q) {
#ifdef VC_NATIVE
  q.normalize();
#else
  vc::assume(q.w() * q.w() + q.x() * q.x() + q.y() * q.y() + q.z() * q.z() == 1.);
#endif
}

VC_PROOF("C15", "the angles are kept")
void Angles(const Vector3& v, double r, double p, double y) {
  const RollPitchYaw a(v), b(r, p, y);
  vc::check(a.roll_angle() == v[0] && a.pitch_angle() == v[1] && a.yaw_angle() == v[2] && a.vector() == v, "from a vector");
  vc::check(b.roll_angle() == r && b.pitch_angle() == p && b.yaw_angle() == y, "from three angles");
  RollPitchYaw c(v);
  c.set(r, p, y);
  RollPitchYaw d(b);
  d.set(v);
  vc::check(c.roll_angle() == r && c.pitch_angle() == p && c.yaw_angle() == y && d.vector() == v, "setters replace every angle");
}

VC_PROOF("C15", "the matrix rolls, then pitches, then yaws")
void ToMatrix(const RollPitchYaw& a) {
  const double r = a.roll_angle(), p = a.pitch_angle(), y = a.yaw_angle();
  const Matrix3 m = a.ToMatrix();
  vc::check(Equal(m, Rz(std::cos(y), std::sin(y)) * Ry(std::cos(p), std::sin(p)) * Rx(std::cos(r), std::sin(r))), "Rz(yaw) Ry(pitch) Rx(roll)");
  vc::check(Equal(m * m.transpose(), Matrix3::Identity()), "rows are orthonormal");
  vc::check(vc::eq(m.determinant(), 1.), "a proper rotation");
}

VC_PROOF("C15", "the quaternion is the same rotation as the matrix")
void ToQuaternion(const RollPitchYaw& a) {
  HalfAngle(a.roll_angle());
  HalfAngle(a.pitch_angle());
  HalfAngle(a.yaw_angle());
  const Quaternion q = a.ToQuaternion();
  vc::check(vc::eq(q.squared_norm(), 1.), "of norm one");
  vc::check(vc::eq(q.norm(), 1.), "of norm one, rooted");
  vc::check(Equal(q.ToRotationMatrix(), a.ToMatrix()), "the same matrix");
}

VC_PROOF("C15", "the time derivative of the matrix follows the angular rates")
void Derivative(const RollPitchYaw& a, const Vector3& rate) {
  const double cr = std::cos(a.roll_angle()), sr = std::sin(a.roll_angle());
  const double cp = std::cos(a.pitch_angle()), sp = std::sin(a.pitch_angle());
  const double cy = std::cos(a.yaw_angle()), sy = std::sin(a.yaw_angle());
  const Matrix3 d = a.CalcRotationMatrixDt(rate);
  const Matrix3 e = Rz(cy, sy) * Ry(cp, sp) * Dx(cr, sr) * rate[0] + Rz(cy, sy) * Dy(cp, sp) * Rx(cr, sr) * rate[1] + Dz(cy, sy) * Ry(cp, sp) * Rx(cr, sr) * rate[2];
  vc::check(Equal(d, e), "chain rule over the three angles");
}

// entry == angles follows once both, times w = c^2 (the squared cosine of the pitch), are the same polynomial of other entries
void Entry(double entry, double angles, double product, double c, double w) {
  vc::check(vc::eq(angles * (c * c), product), "entry of the product of rotations");
  const double e = vc::opaque(entry), a = vc::opaque(angles), p = vc::opaque(product);
  vc::check(vc::eq(a * w, p), "named entry of the product of rotations");
  vc::check(vc::eq(entry * w, product), "entry of the matrix");
  vc::check(vc::eq(e * w, p), "named entry of the matrix");
  vc::check(vc::eq((e - a) * w, 0.), "difference");
  vc::check(w >= 1e-3 && vc::eq((e - a) * w, 0.) && vc::eq(e, a), "equal named entries");
  vc::check(vc::eq(entry, angles), "equal entries");
}

VC_PROOF("C15", "the angles of a quaternion are the same rotation, away from vertical pitch")
void FromQuaternion(Quaternion& q) {
  Unit(q);
  const Quaternion n = q.normalized();
  vc::check(vc::eq(q.norm(), 1.), "of norm one");
  const Matrix3 m = q.ToRotationMatrix();
  vc::assume(1. - m[2][0] * m[2][0] >= 1e-3);
  const double u = vc::opaque(m[2][0]);
  vc::check(1. - u * u >= 1e-3, "pitch away from the vertical");
  vc::check(1. - u >= 1e-4 && 1. + u >= 1e-4, "sine of the pitch away from one");
  const double ya = n.x() + n.z(), xa = n.w() - n.y(), yb = n.z() - n.x(), xb = n.w() + n.y();
  const double la = std::sqrt(xa * xa + ya * ya), lb = std::sqrt(xb * xb + yb * yb);
  vc::check(vc::eq(la * la, 1. + m[2][0]) && vc::eq(lb * lb, 1. - m[2][0]), "lengths of the half angle vectors");
  vc::check(la * la >= 1e-4 && lb * lb >= 1e-4, "squares not vanishing");
  vc::check(la >= 1e-2 && lb >= 1e-2, "not vanishing");
  const double eps = std::numeric_limits<double>::epsilon();
  const double ua = vc::opaque(xa), va = vc::opaque(ya), ub = vc::opaque(xb), vb = vc::opaque(yb);
  vc::check(vc::eq(ua * ua + va * va, la * la) && vc::eq(ub * ub + vb * vb, lb * lb), "squares of the lengths");
  vc::check(ua * ua + va * va >= 1e-4 && ub * ub + vb * vb >= 1e-4, "squared lengths not vanishing");
  vc::check(!(std::abs(va) <= eps && std::abs(ua) <= eps) && !(std::abs(vb) <= eps && std::abs(ub) <= eps), "named coordinates not both vanishing");
  vc::check(!(std::abs(ya) <= eps && std::abs(xa) <= eps) && !(std::abs(yb) <= eps && std::abs(xb) <= eps), "not singular");
  Atan2(ya, xa);
  Atan2(yb, xb);
  const double a = std::atan2(ya, xa), b = std::atan2(yb, xb);
  const double cp = std::sqrt((m[2][2] * m[2][2] + m[2][1] * m[2][1] + m[1][0] * m[1][0] + m[0][0] * m[0][0]) / 2);
  vc::check(vc::eq(cp * cp, 1. - m[2][0] * m[2][0]), "square of the cosine of the pitch");
  vc::check(vc::eq(cp * cp, (la * lb) * (la * lb)), "squared product of the lengths");
  const double nc = vc::opaque(cp), na = vc::opaque(la), nb = vc::opaque(lb);
  vc::check(nc >= 0. && na >= 1e-2 && nb >= 1e-2 && vc::eq(nc * nc, (na * nb) * (na * nb)), "named lengths");
  vc::check(vc::eq(nc, na * nb), "product of the named lengths");
  vc::check(vc::eq(cp, la * lb), "product of the lengths");
  Atan2(-m[2][0], cp);
  const double lp = std::sqrt(cp * cp + -m[2][0] * -m[2][0]);
  vc::check(vc::eq(lp * lp, 1.), "sine and cosine of the pitch squared");
  vc::check(vc::eq(lp, 1.), "sine and cosine of the pitch");
  const double p = std::atan2(-m[2][0], cp);
  vc::check(vc::eq(std::cos(p), cp) && vc::eq(std::sin(p), -m[2][0]), "pitch");
  Difference(a, b);
  Sum(a, b);
  Period(a - b);
  Period(a + b);
  const RollPitchYaw r(q);
  vc::check(r.pitch_angle() == p, "pitch angle");
  vc::check(r.roll_angle() == a - b || r.roll_angle() == a - b - 2 * M_PI || r.roll_angle() == a - b + 2 * M_PI, "roll angle up to a turn");
  vc::check(r.yaw_angle() == a + b || r.yaw_angle() == a + b - 2 * M_PI || r.yaw_angle() == a + b + 2 * M_PI, "yaw angle up to a turn");
  vc::check(r.roll_angle() <= M_PI && r.roll_angle() >= -M_PI || !(a <= M_PI && a >= -M_PI && b <= M_PI && b >= -M_PI), "roll within half a turn");
  vc::check(r.yaw_angle() <= M_PI && r.yaw_angle() >= -M_PI || !(a <= M_PI && a >= -M_PI && b <= M_PI && b >= -M_PI), "yaw within half a turn");
  const double sr = std::sin(r.roll_angle()), cr = std::cos(r.roll_angle()), sy = std::sin(r.yaw_angle()), cy = std::cos(r.yaw_angle());
  vc::check(vc::eq(sr, std::sin(a - b)) && vc::eq(cr, std::cos(a - b)) && vc::eq(sy, std::sin(a + b)) && vc::eq(cy, std::cos(a + b)), "sines and cosines of roll and yaw");
  vc::check(vc::eq(cr * la * lb, xa * xb + ya * yb) && vc::eq(sr * la * lb, ya * xb - xa * yb), "roll");
  vc::check(vc::eq(cy * la * lb, xa * xb - ya * yb) && vc::eq(sy * la * lb, ya * xb + xa * yb), "yaw");
  const double sp = std::sin(p);
  vc::check(vc::eq(cr * cp, m[2][2]) && vc::eq(sr * cp, m[2][1]), "roll in the matrix");
  vc::check(vc::eq(cy * cp, m[0][0]) && vc::eq(sy * cp, m[1][0]), "yaw in the matrix");
  const double ncy = vc::opaque(cy), nsy = vc::opaque(sy), ncr = vc::opaque(cr), nsr = vc::opaque(sr), nsp = vc::opaque(sp);
  const double m00 = vc::opaque(m[0][0]), m10 = vc::opaque(m[1][0]), m21 = vc::opaque(m[2][1]), m22 = vc::opaque(m[2][2]);
  vc::check(vc::eq(ncy * nc, m00) && vc::eq(nsy * nc, m10) && vc::eq(ncr * nc, m22) && vc::eq(nsr * nc, m21) && vc::eq(nsp, -u), "named angles");
  const double w = vc::opaque(1. - u * u);
  vc::check(vc::eq(nc * nc, w) && w >= 1e-3, "named square");
  Entry(m[0][1], ncy * nsp * nsr - nsy * ncr, m00 * -u * m21 - m10 * m22, nc, w);
  Entry(m[0][2], ncy * nsp * ncr + nsy * nsr, m00 * -u * m22 + m10 * m21, nc, w);
  Entry(m[1][1], nsy * nsp * nsr + ncy * ncr, m10 * -u * m21 + m00 * m22, nc, w);
  Entry(m[1][2], nsy * nsp * ncr - ncy * nsr, m10 * -u * m22 - m00 * m21, nc, w);
  vc::check(Equal(Rz(cy, sy) * Ry(std::cos(p), std::sin(p)) * Rx(cr, sr), m), "the same matrix");
}

VC_PROOF("C15", "a rotation applies its matrix")
void Apply(const Quaternion& q, const InertialPosition& x) {
  vc::assume(q.norm() >= 1e-15);
  const Rotation r = Rotation::FromQuat(q);
  const Vector3 v = r.Apply(x).xyz();
  const Vector3 w = r.matrix() * x.xyz();
  vc::check(vc::eq(r.quat().squared_norm(), 1.), "of norm one");
  vc::check(vc::eq(r.quat().norm(), 1.), "of norm one, rooted");
  vc::check(vc::forall(0, 3, [&](long i) { return vc::eq(v[i], w[i]); }), "applying is multiplying by the matrix");
  vc::check(vc::eq(v.dot(v), x.xyz().dot(x.xyz())), "distance to the origin is kept");
}

VC_PROOF("C15", "the distance between rotations is a symmetric, non-negative measure that vanishes for equal ones")
void Distance(const Quaternion& p, const Quaternion& q) {
  vc::assume(p.norm() >= 1e-15 && q.norm() >= 1e-15);
  const Rotation a = Rotation::FromQuat(p), b = Rotation::FromQuat(q);
  vc::check(a.Distance(b) >= 0., "never negative");
  vc::check(vc::eq(a.Distance(b), b.Distance(a)), "symmetric");
}

VC_PROOF("C15", "no distance from a rotation to itself")
void NoDistance(Quaternion& q) {
  Unit(q);
  vc::axiom(std::acos(1.) == 0., "acos(1) = 0");
  const Rotation a = Rotation::FromQuat(q);
  vc::check(vc::eq(a.quat().squared_norm(), 1.), "of norm one");
  const Vector3 s = a.Apply(InertialPosition(1., 0., 0.)).xyz(), r = a.Apply(InertialPosition(0., 1., 0.)).xyz(), h = a.Apply(InertialPosition(0., 0., 1.)).xyz();
  vc::check(vc::eq(s.dot(s), 1.) && vc::eq(r.dot(r), 1.) && vc::eq(h.dot(h), 1.), "axes are of length one");
#ifdef VC_NATIVE
  vc::check(a.Distance(a) < 1e-6, "no distance to itself");
#else
  vc::check(a.Distance(a) == 0., "no distance to itself");
#endif
}

VC_PROOF("C15", "reversing turns half way around the vertical axis")
void Reversed(Quaternion& q, double x, double y, double z) {
  Unit(q);
  vc::axiom(vc::eq(std::sin(M_PI * 0.5), 1.) && vc::eq(std::cos(M_PI * 0.5), 0.), "sin(pi/2) = 1, cos(pi/2) = 0");
  const Rotation a = Rotation::FromQuat(q);
  const Vector3 v = a.Reverse().Apply(InertialPosition(x, y, z)).xyz();
  const Vector3 w = a.Apply(InertialPosition(-x, -y, z)).xyz();
  vc::check(vc::eq(q.norm(), 1.), "of norm one");
  vc::check(vc::forall(0, 3, [&](long i) { return vc::eq(v[i], w[i]); }), "forward and left change sign");
}

}  // namespace c15
