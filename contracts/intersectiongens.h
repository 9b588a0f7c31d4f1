// Made-up intersections for the native runs (not seen by the verifier).
#pragma once
#include "maliput/api/intersection.h"
#ifdef VC_NATIVE
#include "fakes.h"
#include "phasegens.h"
namespace vc {
struct FakeIntersection : public maliput::api::Intersection {
  using maliput::api::Intersection::Intersection;
  std::optional<rules::PhaseProvider::Result> phase;
  std::optional<rules::PhaseProvider::Result> Phase() const override { return phase; }
  void SetPhase(const rules::Phase::Id& p, const std::optional<rules::Phase::Id>&, const std::optional<double>&) override { phase = rules::PhaseProvider::Result{p, std::nullopt}; }
};
inline std::unique_ptr<maliput::api::Intersection> intersection(const maliput::api::Intersection::Id& id) {
  std::vector<maliput::api::LaneSRange> region;
  for (long n = integer(1, 2); n > 0; --n) {
    const char* lane = world().lanes[ctx().pick(world().lanes.size())]->id_.string().c_str();
    region.emplace_back(maliput::api::LaneId(lane), Gen<maliput::api::SRange>::make());
  }
  const rules::PhaseRing ring = retry([]() {
    std::vector<rules::Phase> ps{Gen<rules::Phase>::make()};
    if (coin()) ps.push_back(Gen<rules::Phase>::make());
    return rules::PhaseRing(rules::PhaseRing::Id("r"), ps, std::nullopt);
  });
  auto p = std::make_unique<FakeIntersection>(id, region, ring);
  if (!coin(4)) p->phase = rules::PhaseProvider::Result{coin() ? ring.phases().begin()->first : Gen<rules::Phase::Id>::make(), std::nullopt};
  if (p->phase && ring.phases().count(p->phase->state) == 0) p->phase = std::nullopt;
  return p;
}
template <> struct Gen<std::unique_ptr<maliput::api::Intersection>> {
  static std::unique_ptr<maliput::api::Intersection> make() { return coin(8) ? nullptr : intersection(Gen<maliput::api::Intersection::Id>::make()); }
};
template <> struct Gen<maliput::api::Intersection> {
  static std::shared_ptr<maliput::api::Intersection> make() { return intersection(Gen<maliput::api::Intersection::Id>::make()); }
};
}  // namespace vc
#endif
