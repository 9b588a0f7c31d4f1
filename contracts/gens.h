// Generators of library values for the native runs of the contract files (not seen by the verifier).
#pragma once
#ifdef VC_NATIVE
#include "vc.h"
#include "maliput/api/regions.h"
#include "maliput/api/type_specific_identifier.h"
namespace vc {
template <class T> struct Gen<maliput::api::TypeSpecificIdentifier<T>> {
  static maliput::api::TypeSpecificIdentifier<T> make() {
    static const char* n[] = {"a", "b", "c", "d"};
    const char* s = n[ctx().pick(coin(4) ? 4 : 2)];
    if (!ctx().quiet) ctx().log << " " << s;
    return maliput::api::TypeSpecificIdentifier<T>(s);
  }
};
template <class T> struct All<maliput::api::TypeSpecificIdentifier<T>> {
  static constexpr bool known = true;
  static std::vector<maliput::api::TypeSpecificIdentifier<T>> values() {
    std::vector<maliput::api::TypeSpecificIdentifier<T>> r;
    for (const char* s : {"a", "b", "c", "d"}) r.emplace_back(s);
    return r;
  }
};
template <> struct Gen<maliput::api::SRange> {
  static maliput::api::SRange make() {
    return retry([]() {
      const double a = real();
      return maliput::api::SRange(a, real());
    });
  }
};
template <> struct Gen<maliput::api::LaneSRange> {
  static maliput::api::LaneSRange make() {
    auto id = Gen<maliput::api::LaneId>::make();
    return maliput::api::LaneSRange(id, Gen<maliput::api::SRange>::make());
  }
};
template <> struct Gen<maliput::api::LaneSRoute> {
  static maliput::api::LaneSRoute make() { return maliput::api::LaneSRoute(Gen<std::vector<maliput::api::LaneSRange>>::make()); }
};
}  // namespace vc
#endif
