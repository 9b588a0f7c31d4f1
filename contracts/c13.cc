// sources: src/maliput/math/matrix.cc src/maliput/math/vector.cc
// native: src/maliput/math/matrix.cc src/maliput/math/vector.cc src/maliput/common/maliput_abort_and_throw.cc
#include <cmath>

#include "maliput/math/matrix.h"
#include "maliput/math/vector.h"
#include "mathgens.h"
#include "vc.h"

using maliput::math::Matrix;
using maliput::math::Matrix2;
using maliput::math::Matrix3;
using maliput::math::Matrix4;
using maliput::math::Vector;
using maliput::math::Vector2;
using maliput::math::Vector3;
using maliput::math::Vector4;

namespace c13 {

template <std::size_t N, class F>
bool Each(F f) {
  return vc::forall(0, N, [&](long i) { return vc::forall(0, N, [&](long j) { return f(i, j); }); });
}

// Determinants by the Leibniz formula, written out.
double Det(const Matrix<2>& m) { return m[0][0] * m[1][1] - m[0][1] * m[1][0]; }
double Minor3(const Matrix<3>& m, int a, int b, int c) { return m[0][a] * m[1][b] * m[2][c]; }
double Det(const Matrix<3>& m) {
  return Minor3(m, 0, 1, 2) + Minor3(m, 1, 2, 0) + Minor3(m, 2, 0, 1) - Minor3(m, 2, 1, 0) - Minor3(m, 1, 0, 2) - Minor3(m, 0, 2, 1);
}
double Minor4(const Matrix<4>& m, int a, int b, int c, int d) { return m[0][a] * m[1][b] * m[2][c] * m[3][d]; }
double Det(const Matrix<4>& m) {
  return Minor4(m, 0, 1, 2, 3) - Minor4(m, 0, 1, 3, 2) - Minor4(m, 0, 2, 1, 3) + Minor4(m, 0, 2, 3, 1) + Minor4(m, 0, 3, 1, 2) -
         Minor4(m, 0, 3, 2, 1) - Minor4(m, 1, 0, 2, 3) + Minor4(m, 1, 0, 3, 2) + Minor4(m, 1, 2, 0, 3) - Minor4(m, 1, 2, 3, 0) -
         Minor4(m, 1, 3, 0, 2) + Minor4(m, 1, 3, 2, 0) + Minor4(m, 2, 0, 1, 3) - Minor4(m, 2, 0, 3, 1) - Minor4(m, 2, 1, 0, 3) +
         Minor4(m, 2, 1, 3, 0) + Minor4(m, 2, 3, 0, 1) - Minor4(m, 2, 3, 1, 0) - Minor4(m, 3, 0, 1, 2) + Minor4(m, 3, 0, 2, 1) +
         Minor4(m, 3, 1, 0, 2) - Minor4(m, 3, 1, 2, 0) - Minor4(m, 3, 2, 0, 1) + Minor4(m, 3, 2, 1, 0);
}

template <std::size_t N>
void Entries(const Matrix<N>& a, const Matrix<N>& b, double k) {
  const Matrix<N> s = a + b, d = a - b, ak = a * k, ka = k * a, t = a.transpose(), id = Matrix<N>::Identity();
  vc::check(Each<N>([&](long i, long j) { return s[i][j] == a[i][j] + b[i][j] && d[i][j] == a[i][j] - b[i][j]; }), "sum and difference entry by entry");
  vc::check(Each<N>([&](long i, long j) { return ak[i][j] == k * a[i][j] && ka[i][j] == k * a[i][j]; }), "scaling every entry");
  vc::check(k == 0. || Each<N>([&](long i, long j) { return vc::eq((a / k)[i][j] * k, a[i][j]); }), "dividing undoes scaling");
  vc::check(Each<N>([&](long i, long j) { return t[i][j] == a[j][i] && id[i][j] == (i == j ? 1. : 0.); }), "transpose and identity");
  vc::check((a == b) == Each<N>([&](long i, long j) { return a[i][j] == b[i][j]; }), "equal exactly when every entry is");
  vc::check((a != b) == !(a == b), "different exactly when not equal");
  Matrix<N> c(a);
  c = b;
  vc::check(Each<N>([&](long i, long j) { return c[i][j] == b[i][j]; }), "assignment copies every entry");
}

template <std::size_t N>
void Product(const Matrix<N>& a, const Matrix<N>& b) {
  const Matrix<N> p = a * b;
  vc::check(Each<N>([&](long i, long j) { return vc::eq(p[i][j], vc::sum(0, N, [&](long k) { return a[i][k] * b[k][j]; })); }), "product of rows and columns");
}

template <std::size_t N, class V>
void Apply(const Matrix<N>& a, const V& v) {
  const V w = a * v;
  vc::check(vc::forall(0, N, [&](long i) { return vc::eq(w[i], vc::sum(0, N, [&](long k) { return a[i][k] * v[k]; })); }), "product of rows and the vector");
}

template <std::size_t N>
void Access(const Matrix<N>& a, unsigned long i, unsigned long j, double x) {
  Matrix<N> c(a);
  bool row = true, col = true;
  const bool r = vc::throws([&]() { const Vector<N> v = a.row(i); row = vc::forall(0, N, [&](long k) { return v[k] == a[i][k]; }); });
  const bool q = vc::throws([&]() { const Vector<N> v = a.col(j); col = vc::forall(0, N, [&](long k) { return v[k] == a[k][j]; }); });
  const bool w = vc::throws([&]() { c[i][j] = x; });
  vc::check(r == (i >= N) && q == (j >= N) && w == (i >= N || j >= N), "access throws exactly out of range");
  vc::check(row && col, "rows and columns hold the entries");
  vc::check(Each<N>([&](long m, long n) {
              return c[m][n] == (static_cast<unsigned long>(m) == i && static_cast<unsigned long>(n) == j ? x : a[m][n]);
            }), "writing changes that entry only");
}

template <std::size_t N>
void Determinant(const Matrix<N>& a) {
  vc::check(vc::eq(a.determinant(), Det(a)), "the determinant is the signed sum over permutations");
  vc::check(a.is_singular() == (std::abs(a.determinant()) < 1e-15), "singular exactly when the determinant vanishes");
}

template <std::size_t N>
void Adjoint(const Matrix<N>& a) {
  const Matrix<N> adj = a.adjoint(), cof = a.cofactor();
  const double det = a.determinant();
  vc::check(Each<N>([&](long i, long j) { return adj[i][j] == cof[j][i]; }), "the adjoint transposes the cofactors");
  vc::check(Each<N>([&](long i, long j) { return cof[i][j] == a.cofactor(i, j); }), "the cofactor matrix holds the cofactors");
  vc::check(Each<N>([&](long i, long j) { return vc::eq(vc::sum(0, N, [&](long k) { return a[i][k] * adj[k][j]; }), i == j ? det : 0.); }),
            "a matrix times its adjoint is its determinant times the identity");
}

template <std::size_t N>
void Inverse(const Matrix<N>& a) {
  const double det = a.determinant();
  Matrix<N> inv;
  const bool threw = vc::throws([&]() { inv = a.inverse(); });
  vc::check(threw == (std::abs(det) < 1e-15), "only a singular matrix has no inverse");
  if (threw) return;
  const Matrix<N> adj = a.adjoint();
  vc::check(Each<N>([&](long i, long j) { return vc::eq(inv[i][j] * det, adj[i][j]); }), "the inverse is the adjoint over the determinant");
}

VC_PROOF("C13", "2x2 entries")
void Entries2(const Matrix2& a, const Matrix2& b, double k) { Entries<2>(a, b, k); }
VC_PROOF("C13", "3x3 entries")
void Entries3(const Matrix3& a, const Matrix3& b, double k) { Entries<3>(a, b, k); }
VC_PROOF("C13", "4x4 entries")
void Entries4(const Matrix4& a, const Matrix4& b, double k) { Entries<4>(a, b, k); }
VC_PROOF("C13", "2x2 product")
void Product2(const Matrix2& a, const Matrix2& b) { Product<2>(a, b); }
VC_PROOF("C13", "3x3 product")
void Product3(const Matrix3& a, const Matrix3& b) { Product<3>(a, b); }
VC_PROOF("C13", "4x4 product")
void Product4(const Matrix4& a, const Matrix4& b) { Product<4>(a, b); }
VC_PROOF("C13", "matrix by vector")
void Applied(const Matrix2& a, const Matrix3& b, const Matrix4& c, const Vector2& u, const Vector3& v, const Vector4& w) {
  Apply<2>(a, u);
  Apply<3>(b, v);
  Apply<4>(c, w);
}
VC_PROOF("C13", "2x2 access")
void Access2(const Matrix2& a, unsigned long i, unsigned long j, double x) { Access<2>(a, i, j, x); }
VC_PROOF("C13", "3x3 access")
void Access3(const Matrix3& a, unsigned long i, unsigned long j, double x) { Access<3>(a, i, j, x); }
VC_PROOF("C13", "4x4 access")
void Access4(const Matrix4& a, unsigned long i, unsigned long j, double x) { Access<4>(a, i, j, x); }

VC_PROOF("C13", "removing a row and a column keeps the other entries in order")
void Reduced(const Matrix4& a, const Matrix3& b, unsigned long i, unsigned long j) {
  bool ok = true, ok3 = true;
  const bool threw = vc::throws([&]() {
    const Matrix3 r = a.reduce(i, j);
    ok = Each<3>([&](long m, long n) { return r[m][n] == a[static_cast<unsigned long>(m) < i ? m : m + 1][static_cast<unsigned long>(n) < j ? n : n + 1]; });
  });
  const bool threw3 = vc::throws([&]() {
    const Matrix2 r = b.reduce(i, j);
    ok3 = Each<2>([&](long m, long n) { return r[m][n] == b[static_cast<unsigned long>(m) < i ? m : m + 1][static_cast<unsigned long>(n) < j ? n : n + 1]; });
  });
  vc::check(threw == (i >= 4 || j >= 4) && threw3 == (i >= 3 || j >= 3), "throws exactly out of range");
  vc::check(ok && ok3, "the other entries keep their order");
}

VC_PROOF("C13", "2x2 determinant")
void Determinant2(const Matrix2& a) { Determinant<2>(a); }
VC_PROOF("C13", "3x3 determinant")
void Determinant3(const Matrix3& a) { Determinant<3>(a); }
VC_PROOF("C13", "4x4 determinant")
void Determinant4(const Matrix4& a) { Determinant<4>(a); }
VC_PROOF("C13", "2x2 adjoint")
void Adjoint2(const Matrix2& a) { Adjoint<2>(a); }
VC_PROOF("C13", "3x3 adjoint")
void Adjoint3(const Matrix3& a) { Adjoint<3>(a); }
VC_PROOF("C13", "4x4 adjoint")
void Adjoint4(const Matrix4& a) { Adjoint<4>(a); }
VC_PROOF("C13", "2x2 inverse")
void Inverse2(const Matrix2& a) { Inverse<2>(a); }
VC_PROOF("C13", "3x3 inverse")
void Inverse3(const Matrix3& a) { Inverse<3>(a); }
VC_PROOF("C13", "4x4 inverse")
void Inverse4(const Matrix4& a) { Inverse<4>(a); }

}  // namespace c13
