// sources: src/maliput/math/quaternion.cc src/maliput/math/matrix.cc src/maliput/math/vector.cc
// native: src/maliput/math/quaternion.cc src/maliput/math/matrix.cc src/maliput/math/vector.cc src/maliput/common/maliput_abort_and_throw.cc
#include <cmath>

#include "maliput/math/matrix.h"
#include "maliput/math/quaternion.h"
#include "maliput/math/vector.h"
#include "mathgens.h"
#include "vc.h"

using maliput::math::Matrix3;
using maliput::math::Quaternion;
using maliput::math::Vector3;
using maliput::math::Vector4;

namespace c14 {

double Sq(const Quaternion& q) { return q.w() * q.w() + q.x() * q.x() + q.y() * q.y() + q.z() * q.z(); }
bool Is(const Quaternion& q, double w, double x, double y, double z) {
  return vc::eq(q.w(), w) && vc::eq(q.x(), x) && vc::eq(q.y(), y) && vc::eq(q.z(), z);
}
// A quaternion of norm one.
void Unit(Quaternion& q) {
#ifdef VC_NATIVE
  if (Sq(q) < 1e-6) q = Quaternion();
  q.normalize();
#else
  vc::assume(Sq(q) == 1.);
#endif
}

VC_PROOF("C14", "coefficients")
void Coefficients(double w, double x, double y, double z, const Quaternion& o) {
  const Quaternion q(w, x, y, z);
  vc::check(q.w() == w && q.x() == x && q.y() == y && q.z() == z, "a quaternion keeps its coefficients");
  const Quaternion c(q.coeffs());
  vc::check(c.w() == w && c.x() == x && c.y() == y && c.z() == z && q.vec().x() == x && q.vec().y() == y && q.vec().z() == z, "coefficients as vectors");
  vc::check((q == o) == (w == o.w() && x == o.x() && y == o.y() && z == o.z()), "equal exactly when every coefficient is");
  vc::check((q != o) == !(q == o), "different exactly when not equal");
  vc::check(vc::eq(q.dot(o), w * o.w() + x * o.x() + y * o.y() + z * o.z()), "dot product of the coefficients");
  vc::check(Is(Quaternion(), 1., 0., 0., 0.) && Is(Quaternion::Identity(), 1., 0., 0., 0.), "the identity");
  vc::check(Is(q.conjugate(), w, -x, -y, -z), "the conjugate negates the vector part");
}

VC_PROOF("C14", "the product is Hamilton's")
void Product(const Quaternion& p, const Quaternion& q) {
  const Quaternion r = p * q;
  vc::check(Is(r, p.w() * q.w() - p.x() * q.x() - p.y() * q.y() - p.z() * q.z(), p.w() * q.x() + p.x() * q.w() + p.y() * q.z() - p.z() * q.y(),
               p.w() * q.y() - p.x() * q.z() + p.y() * q.w() + p.z() * q.x(), p.w() * q.z() + p.x() * q.y() - p.y() * q.x() + p.z() * q.w()),
            "Hamilton product");
  Quaternion s(p);
  s *= q;
  vc::check(s == r, "the compound product is the product");
  vc::check(vc::eq(r.squared_norm(), p.squared_norm() * q.squared_norm()), "norms multiply");
}

VC_PROOF("C14", "norm, normalization and inverse")
void Norms(const Quaternion& q) {
  vc::check(vc::eq(q.squared_norm(), Sq(q)) && q.norm() >= 0. && vc::eq(q.norm() * q.norm(), Sq(q)), "norm of the coefficients");
  const Quaternion n = q.normalized();
  if (q.norm() < 1e-15) {
    vc::check(Is(n, 1., 0., 0., 0.), "a vanishing quaternion normalizes to the identity");
  } else {
    const double l = q.norm();
    vc::check(vc::eq(n.w() * l, q.w()) && vc::eq(n.x() * l, q.x()) && vc::eq(n.y() * l, q.y()) && vc::eq(n.z() * l, q.z()), "normalizing divides by the norm");
    vc::check(vc::eq(Sq(n) * (l * l), l * l), "scaled back");
    vc::check(vc::eq(Sq(n), 1.), "a normalized quaternion has norm one");
  }
  const Quaternion i = q.Inverse();
  if (Sq(q) <= 1e-15) {
    vc::check(Is(i, 0., 0., 0., 0.), "a vanishing quaternion has no inverse");
  } else {
    const double s = Sq(q);
    vc::check(vc::eq(i.w() * s, q.w()) && vc::eq(i.x() * s, -q.x()) && vc::eq(i.y() * s, -q.y()) && vc::eq(i.z() * s, -q.z()), "the inverse is the conjugate over the squared norm");
    const Quaternion a = q * i;
    vc::check(vc::eq(a.w() * s, s) && vc::eq(a.x() * s, 0.) && vc::eq(a.y() * s, 0.) && vc::eq(a.z() * s, 0.), "scaled back");
    vc::check(Is(a, 1., 0., 0., 0.), "a quaternion times its inverse is one");
  }
}

VC_PROOF("C14", "a unit quaternion rotates as its matrix does and preserves lengths")
void Rotates(Quaternion& q, const Vector3& v) {
  Unit(q);
  const Vector3 r = q * v;
  const Vector3 t = q.TransformVector(v);
  const Matrix3 m = q.ToRotationMatrix();
  vc::check(q.norm() == 1. || vc::eq(q.norm(), 1.), "its norm is one");
  const Vector3 w = m * v;
  vc::check(vc::forall(0, 3, [&](long i) { return vc::eq(r[i], w[i]) && t[i] == r[i]; }), "rotating is multiplying by the matrix");
  vc::check(vc::eq(r.dot(r), v.dot(v)), "rotating preserves lengths");
}

VC_PROOF("C14", "the matrix of a unit quaternion is orthogonal")
void Orthogonal(Quaternion& q) {
  Unit(q);
  const Matrix3 m = q.ToRotationMatrix();
  vc::check(vc::forall(0, 3, [&](long i) {
              return vc::forall(0, 3, [&](long j) { return vc::eq(m[i][0] * m[j][0] + m[i][1] * m[j][1] + m[i][2] * m[j][2], i == j ? 1. : 0.); });
            }), "rows are orthonormal");
  vc::check(vc::eq(m[1][0] * m[2][1] - m[1][1] * m[2][0], m[0][2]) && vc::eq(m[1][1] * m[2][2] - m[1][2] * m[2][1], m[0][0]) &&
                vc::eq(m[1][2] * m[2][0] - m[1][0] * m[2][2], m[0][1]), "rows are right-handed");
}

VC_PROOF("C14", "products compose rotations")
void Composes(Quaternion& p, Quaternion& q, const Vector3& v) {
  Unit(p);
  Unit(q);
  const Vector3 a = (q * p) * v;
  const Vector3 b = q * (p * v);
  vc::check(vc::forall(0, 3, [&](long i) { return vc::eq(a[i], b[i]); }), "the product rotates by one and then the other");
}

VC_PROOF("C14", "a quaternion from axis and angle")
void AxisAngle(double angle, const Vector3& axis) {
  vc::assume(axis.norm() >= 1e-15);
  const double l = axis.norm();
  const Quaternion q(angle, axis);
  const double c = std::cos(angle * 0.5), s = std::sin(angle * 0.5);
  const double k = s / l;
  vc::check(vc::eq(k * k * (l * l), s * s), "scaled sine");
  vc::check(vc::eq(c * c + (axis.x() * k) * (axis.x() * k) + (axis.y() * k) * (axis.y() * k) + (axis.z() * k) * (axis.z() * k), 1.), "already of norm one");
  vc::check(Is(q, c, axis.x() * k, axis.y() * k, axis.z() * k), "cosine and scaled axis of half the angle");
}

VC_PROOF("C14", "a quaternion survives the conversion to a matrix and back")
void FromMatrix(Quaternion& p) {
  Unit(p);
  const Matrix3 m = p.ToRotationMatrix();
  vc::check(vc::eq(1. + m[0][0] + m[1][1] + m[2][2], 4. * p.w() * p.w()) && vc::eq(1. + m[0][0] - m[1][1] - m[2][2], 4. * p.x() * p.x()) &&
                vc::eq(1. - m[0][0] + m[1][1] - m[2][2], 4. * p.y() * p.y()) && vc::eq(1. - m[0][0] - m[1][1] + m[2][2], 4. * p.z() * p.z()),
            "diagonal of the matrix");
  const Quaternion q(m);
  vc::check(Is(q, p.w(), p.x(), p.y(), p.z()) || Is(q, -p.w(), -p.x(), -p.y(), -p.z()), "the same quaternion up to sign");
}

VC_PROOF("C14", "a quaternion from two vectors turns one into the direction of the other")
void FromTwoVectors(const Vector3& a, const Vector3& b) {
  vc::assume(a.norm() >= 1e-3 && b.norm() >= 1e-3);
  const double k = a.norm() * b.norm();
  const double c = a.dot(b);
  vc::assume(c + k >= 1e-6 * k);
  // The same quantities as they are computed, step by step.
  const double kk = std::sqrt(a.norm() * a.norm() * b.norm() * b.norm());
  vc::check(vc::eq(kk, k), "product of the lengths");
  vc::check(!(std::abs(c / kk + 1.) < 1e-15), "not opposite");
  const Vector3 x = a.cross(b);
  const double l = Quaternion(c + kk, x.x(), x.y(), x.z()).norm();
  vc::check(vc::eq(l * l, 2. * k * (k + c)), "length before normalization");
  vc::check(k >= 1e-6, "product not vanishing");
  vc::check(2. * k * (k + c) >= 1e-18, "square not vanishing");
  vc::check(l >= 1e-15, "not vanishing");
  const Quaternion q = Quaternion::FromTwoVectors(a, b);
  const Vector3 r = q * a;
  vc::check(vc::eq(Sq(q), 1.), "of norm one");
  vc::check(vc::forall(0, 3, [&](long i) { return vc::eq(r[i] * b.norm(), b[i] * a.norm()); }), "takes the direction of the first to that of the second");
}

VC_PROOF("C14", "a quaternion from opposite vectors turns one into the other")
void FromOppositeVectors(const Vector3& a, double f) {
  vc::assume(a.norm() >= 1e-3 && f >= 1e-3);
  const Vector3 b = a * -f;
  vc::check(vc::eq(b.norm(), f * a.norm()), "length of the opposite");
  const double kk = std::sqrt(a.norm() * a.norm() * b.norm() * b.norm());
  vc::check(vc::eq(kk, f * a.norm() * a.norm()), "product of the lengths");
  vc::check(vc::eq(a.dot(b), -kk), "opposite directions");
  vc::check(std::abs(a.dot(b) / kk + 1.) < 1e-15, "recognized as opposite");
  const double ax = std::abs(a.x()), ay = std::abs(a.y()), az = std::abs(a.z());
  vc::check((ax > ay && ax > az) || a.cross(Vector3::UnitX()).norm() > 0., "not along x");
  vc::check((ay > ax && ay > az) || a.cross(Vector3::UnitY()).norm() > 0., "not along y");
  vc::check((az > ax && az > ay) || a.cross(Vector3::UnitZ()).norm() > 0., "not along z");
  const Quaternion q = Quaternion::FromTwoVectors(a, b);
  const Vector3 r = q * a;
  vc::check(vc::eq(Sq(q), 1.), "of norm one");
  vc::check(vc::forall(0, 3, [&](long i) { return vc::eq(r[i], -a[i]); }), "turns the first around");
}

VC_PROOF("C14", "distance and interpolation at the ends")
void Ends(Quaternion& p, Quaternion& q) {
  Unit(p);
  Unit(q);
  vc::axiom(std::sin(0.) == 0., "sin(0) = 0");
  vc::axiom(vc::forall_v<double>([](double x) { return x <= 0. || std::atan2(0., x) == 0.; }), "atan2(0, x) = 0 for x > 0");
  vc::axiom(vc::forall_v<double>([](double x) { return x < 0. || x >= 1. - 1e-15 || std::sin(std::acos(x)) > 0.; }), "sin(acos(x)) > 0 for 0 <= x < 1");
  const Quaternion d = p * p.conjugate();
  vc::check(Is(d, 1., 0., 0., 0.) && d.vec().norm() == 0., "no turn from itself");
  vc::check(vc::eq(p.AngularDistance(p), 0.), "no distance to itself");
  const double dot = std::abs(p.dot(q));
  vc::check(dot >= 1. - 1e-15 || std::sin(std::acos(dot)) > 0., "no division by zero");
  const Quaternion a = p.Slerp(0., q);
  const Quaternion b = p.Slerp(1., q);
  const double s = p.dot(q) < 0. ? -1. : 1.;
  vc::check(Is(a, p.w(), p.x(), p.y(), p.z()), "interpolation starts at the first");
  vc::check(Is(b, s * q.w(), s * q.x(), s * q.y(), s * q.z()), "interpolation ends at the second up to sign");
}

}  // namespace c14
