// Generators of vectors for the native runs (not seen by the verifier).
#pragma once
#ifdef VC_NATIVE
#include "maliput/math/matrix.h"
#include "maliput/math/quaternion.h"
#include "maliput/math/roll_pitch_yaw.h"
#include "maliput/math/vector.h"
#include "vc.h"
namespace vc {
template <> struct Gen<maliput::math::Vector2> {
  static maliput::math::Vector2 make() { const double a = real(); return maliput::math::Vector2(a, real()); }
};
template <> struct Gen<maliput::math::Vector3> {
  static maliput::math::Vector3 make() { const double a = real(), b = real(); return maliput::math::Vector3(a, b, real()); }
};
template <> struct Gen<maliput::math::Vector4> {
  static maliput::math::Vector4 make() { const double a = real(), b = real(), c = real(); return maliput::math::Vector4(a, b, c, real()); }
};
template <std::size_t N> struct Gen<maliput::math::Vector<N>> {
  static maliput::math::Vector<N> make() { maliput::math::Vector<N> v; for (std::size_t i = 0; i < N; ++i) v[i] = real(); return v; }
};
template <std::size_t N> struct Gen<maliput::math::Matrix<N>> {
  static maliput::math::Matrix<N> make() {
    maliput::math::Matrix<N> m;
    const bool small = coin();
    for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) m[i][j] = small ? static_cast<double>(integer(-2, 2)) : real();
    return m;
  }
};
template <> struct Gen<maliput::math::Quaternion> {
  static maliput::math::Quaternion make() { const double a = real(), b = real(), c = real(); return maliput::math::Quaternion(a, b, c, real()); }
};
template <> struct Gen<maliput::math::RollPitchYaw> {
  static maliput::math::RollPitchYaw make() { const double a = real(), b = real(); return maliput::math::RollPitchYaw(a, b, real()); }
};
}  // namespace vc
#endif
