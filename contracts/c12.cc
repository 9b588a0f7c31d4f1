// sources: src/maliput/math/vector.cc
// native: src/maliput/math/vector.cc src/maliput/common/maliput_abort_and_throw.cc
#include <cmath>

#include "maliput/math/vector.h"
#include "mathgens.h"
#include "vc.h"

using maliput::math::Vector;
using maliput::math::Vector2;
using maliput::math::Vector3;
using maliput::math::Vector4;

namespace c12 {

// Laws that hold in every dimension.
template <class V>
void Algebra(const V& a, const V& b, double k) {
  const long n = V::kDimension;
  const V s = a + b;
  const V d = a - b;
  const V ak = a * k;
  const V ka = k * a;
  vc::check(vc::forall(0, n, [&](long i) { return s[i] == a[i] + b[i]; }), "the sum adds component by component");
  vc::check(vc::forall(0, n, [&](long i) { return d[i] == a[i] - b[i]; }), "the difference subtracts component by component");
  vc::check(vc::forall(0, n, [&](long i) { return ak[i] == k * a[i] && ka[i] == k * a[i]; }), "scaling multiplies every component");
  vc::check(k == 0. || vc::forall(0, n, [&](long i) { return vc::eq((a / k)[i] * k, a[i]); }), "dividing undoes scaling");
  vc::check(vc::eq(a.dot(b), vc::sum(0, n, [&](long i) { return a[i] * b[i]; })), "the dot product sums the products of the components");
  vc::check((a == b) == vc::forall(0, n, [&](long i) { return a[i] == b[i]; }), "equal exactly when every component is");
  vc::check((a != b) == !(a == b), "different exactly when not equal");
}

template <class V>
void Norm(const V& a) {
  const long n = V::kDimension;
  const double l = a.norm();
  vc::check(l >= 0. && vc::eq(l * l, vc::sum(0, n, [&](long i) { return a[i] * a[i]; })), "the norm is the root of the dot product with itself");
  if (l == 0.) return;
  V c(a);
  c.normalize();
  const V u = a.normalized();
  vc::check(vc::forall(0, n, [&](long i) { return vc::eq(u[i] * l, a[i]) && c[i] == u[i]; }), "normalizing divides by the norm");
  const double uu = vc::sum(0, n, [&](long i) { return u[i] * u[i]; });
  vc::check(vc::eq(vc::sum(0, n, [&](long i) { return (u[i] * l) * (u[i] * l); }), l * l), "scaled back");
  vc::check(vc::eq(uu, 1.), "a normalized vector has norm one");
}

template <class V>
void Access(const V& a, const V& b, unsigned long i, double x) {
  const unsigned long n = V::kDimension;
  V w(a);
  vc::check(vc::throws([&]() { a[i]; }) == (i >= n), "reading throws exactly out of range");
  vc::check(vc::throws([&]() { w[i] = x; }) == (i >= n), "writing throws exactly out of range");
  vc::check(vc::forall(0, n, [&](long k) { return w[k] == (static_cast<unsigned long>(k) == i ? x : a[k]); }), "writing changes that component only");
  V c(a);
  c = b;
  V e(a);
  e += b;
  vc::check(vc::forall(0, n, [&](long k) { return c[k] == b[k] && e[k] == a[k] + b[k]; }), "assignments update every component");
  vc::check(a.size() == n && vc::forall(0, n, [&](long k) { return a.to_array()[k] == a[k]; }), "the array of a vector holds its components");
  vc::check(vc::forall(0, n, [&](long k) { return V::Zero()[k] == 0. && V::Ones()[k] == 1. && V()[k] == 0.; }), "zero and ones");
}

VC_PROOF("C12", "2D algebra is component-wise")
void Algebra2(const Vector2& a, const Vector2& b, double k) { Algebra(a, b, k); }
VC_PROOF("C12", "3D algebra is component-wise")
void Algebra3(const Vector3& a, const Vector3& b, double k) { Algebra(a, b, k); }
VC_PROOF("C12", "4D algebra is component-wise")
void Algebra4(const Vector4& a, const Vector4& b, double k) { Algebra(a, b, k); }
VC_PROOF("C12", "2D norm and normalization")
void Norm2(const Vector2& a) { Norm(a); }
VC_PROOF("C12", "3D norm and normalization")
void Norm3(const Vector3& a) { Norm(a); }
VC_PROOF("C12", "4D norm and normalization")
void Norm4(const Vector4& a) { Norm(a); }
VC_PROOF("C12", "2D access and assignment")
void Access2(const Vector2& a, const Vector2& b, unsigned long i, double x) { Access(a, b, i, x); }
VC_PROOF("C12", "3D access and assignment")
void Access3(const Vector3& a, const Vector3& b, unsigned long i, double x) { Access(a, b, i, x); }
VC_PROOF("C12", "4D access and assignment")
void Access4(const Vector4& a, const Vector4& b, unsigned long i, double x) { Access(a, b, i, x); }

VC_PROOF("C12", "named components and unit vectors")
void Components(const Vector2& a, const Vector3& b, const Vector4& c, double v) {
  vc::check(a.x() == a[0] && a.y() == a[1] && b.x() == b[0] && b.y() == b[1] && b.z() == b[2], "2D and 3D components by name");
  vc::check(c.x() == c[0] && c.y() == c[1] && c.z() == c[2] && c.w() == c[3], "4D components by name");
  const Vector2 p(a[1], v);
  const Vector3 q(a[1], v, b[2]);
  const Vector4 r(a[1], v, b[2], c[3]);
  vc::check(p[0] == a[1] && p[1] == v && q[0] == a[1] && q[1] == v && q[2] == b[2], "2D and 3D from components");
  vc::check(r[0] == a[1] && r[1] == v && r[2] == b[2] && r[3] == c[3], "4D from components");
  vc::check(vc::forall(0, 2, [&](long i) { return Vector2::UnitX()[i] == (i == 0 ? 1. : 0.) && Vector2::UnitY()[i] == (i == 1 ? 1. : 0.); }), "2D unit vectors");
  vc::check(vc::forall(0, 3, [&](long i) {
              return Vector3::UnitX()[i] == (i == 0 ? 1. : 0.) && Vector3::UnitY()[i] == (i == 1 ? 1. : 0.) && Vector3::UnitZ()[i] == (i == 2 ? 1. : 0.);
            }), "3D unit vectors");
  vc::check(vc::forall(0, 4, [&](long i) {
              return Vector4::UnitX()[i] == (i == 0 ? 1. : 0.) && Vector4::UnitY()[i] == (i == 1 ? 1. : 0.) &&
                     Vector4::UnitZ()[i] == (i == 2 ? 1. : 0.) && Vector4::UnitW()[i] == (i == 3 ? 1. : 0.);
            }), "4D unit vectors");
  Vector3 m(b);
  m.x() = v;
  m.z() = a[0];
  vc::check(m[0] == v && m[1] == b[1] && m[2] == a[0], "writing a named component changes that one");
}

VC_PROOF("C12", "the cross product is bilinear, anti-commutative and orthogonal")
void Cross(const Vector3& a, const Vector3& b, const Vector3& c, double k) {
  const Vector3 x = a.cross(b);
  vc::check(x[0] == a[1] * b[2] - a[2] * b[1] && x[1] == a[2] * b[0] - a[0] * b[2] && x[2] == a[0] * b[1] - a[1] * b[0], "cross product by components");
  vc::check(vc::forall(0, 3, [&](long i) { return vc::eq(b.cross(a)[i], -x[i]); }), "anti-commutative");
  vc::check(vc::forall(0, 3, [&](long i) { return vc::eq((a * k + c).cross(b)[i], k * x[i] + c.cross(b)[i]); }), "linear in the first factor");
  vc::check(vc::eq(x.dot(a), 0.) && vc::eq(x.dot(b), 0.), "orthogonal to both factors");
  vc::check(vc::eq(x.dot(x) + a.dot(b) * a.dot(b), a.dot(a) * b.dot(b)), "Lagrange's identity");
}

VC_PROOF("C12", "removing a component keeps the others in order")
void Reduce(const Vector<4>& a, const Vector<3>& b, unsigned long i) {
  bool ok = true;
  const bool threw = vc::throws([&]() {
    const Vector<3> r = a.reduce(i);
    ok = vc::forall(0, 3, [&](long k) { return r[k] == a[static_cast<unsigned long>(k) < i ? k : k + 1]; });
  });
  vc::check(threw == (i >= 4), "throws exactly out of range, four components");
  vc::check(ok, "the other three components keep their order");
  bool ok3 = true;
  const bool threw3 = vc::throws([&]() {
    const Vector<2> r = b.reduce(i);
    ok3 = vc::forall(0, 2, [&](long k) { return r[k] == b[static_cast<unsigned long>(k) < i ? k : k + 1]; });
  });
  vc::check(threw3 == (i >= 3), "throws exactly out of range, three components");
  vc::check(ok3, "the other two components keep their order");
}

}  // namespace c12
