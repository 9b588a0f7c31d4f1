// sources: src/maliput/base/traffic_light_book.cc src/maliput/api/rules/traffic_lights.cc
// native: src/maliput/base/traffic_light_book.cc src/maliput/api/rules/*.cc src/maliput/api/*.cc src/maliput/math/*.cc src/maliput/common/maliput_abort_and_throw.cc
#include <memory>
#include <vector>

#include "maliput/api/rules/traffic_lights.h"
#include "maliput/base/traffic_light_book.h"
#include "gens.h"
#include "vc.h"

using maliput::TrafficLightBook;
using maliput::api::rules::TrafficLight;

#ifdef VC_NATIVE
namespace vc {
inline std::unique_ptr<const TrafficLight> traffic_light(const TrafficLight::Id& id) {
  return std::make_unique<const TrafficLight>(id, maliput::api::InertialPosition(0., 0., 0.), maliput::api::Rotation(), std::vector<std::unique_ptr<maliput::api::rules::BulbGroup>>{});
}
template <> struct Gen<std::unique_ptr<const TrafficLight>> {
  static std::unique_ptr<const TrafficLight> make() { return coin(8) ? nullptr : traffic_light(Gen<TrafficLight::Id>::make()); }
};
template <> struct Gen<TrafficLightBook> {
  static std::shared_ptr<TrafficLightBook> make() {
    auto p = std::make_shared<TrafficLightBook>();
    for (const char* s : {"a", "b", "c"})
      if (coin()) p->AddTrafficLight(traffic_light(TrafficLight::Id(s)));
    return p;
  }
};
}  // namespace vc
#endif

namespace c23 {

using Base = maliput::api::rules::TrafficLightBook;
// What is found under an id has that id, and nothing null is listed.
bool Good(const Base& b) {
  const std::vector<const TrafficLight*> all = b.TrafficLights();
  return vc::forall_v<TrafficLight::Id>([&](const TrafficLight::Id& k) { return b.GetTrafficLight(k) == nullptr || b.GetTrafficLight(k)->id() == k; }) &&
         vc::forall(0, all.size(), [&](long i) { return all[i] != nullptr; });
}
bool Listed(const std::vector<const TrafficLight*>& all, const TrafficLight* x) {
  return vc::exists(0, all.size(), [&](long i) { return all[i] == x; });
}

VC_PROOF("C23", "adding a traffic light to a book")
void AddTrafficLight(TrafficLightBook& book, std::unique_ptr<const TrafficLight> light, const TrafficLight::Id& other) {
  vc::assume(book.impl_ != nullptr);
  const Base& base = book;
  vc::assume(Good(base));
  const TrafficLight* const p = light.get();
  const bool null = p == nullptr;
  const TrafficLight::Id id = null ? other : p->id();
  const TrafficLight* const was = base.GetTrafficLight(other);
  const bool known = !null && base.GetTrafficLight(id) != nullptr;
  const bool threw = vc::throws([&]() { book.AddTrafficLight(std::move(light)); });
  vc::check(threw == (null || known), "throws exactly for no traffic light or a known id");
  vc::check(threw || base.GetTrafficLight(id) == p, "what was added is found under its id");
  vc::check((!threw && other == id) || base.GetTrafficLight(other) == was, "every other id keeps its object, and a rejected one changes nothing");
  vc::check(Good(base), "what is found under an id has that id");
}

VC_PROOF("C23", "listing traffic lights")
void ListTrafficLights(const TrafficLightBook& book, const TrafficLight::Id& id) {
  vc::assume(book.impl_ != nullptr);
  const Base& base = book;
  vc::assume(Good(base));
  const std::vector<const TrafficLight*> all = base.TrafficLights();
  vc::check(base.GetTrafficLight(id) == nullptr || Listed(all, base.GetTrafficLight(id)), "everything added is listed");
  vc::check(vc::forall(0, all.size(), [&](long i) { return base.GetTrafficLight(all[i]->id()) == all[i]; }), "everything listed is found under its id");
  vc::check(vc::forall(0, all.size(), [&](long i) { return vc::forall(0, i, [&](long j) { return all[i] != all[j]; }); }), "nothing is listed twice");
}

VC_PROOF("C23", "a new traffic light book is empty")
void NewTrafficLightBook(const TrafficLight::Id& id) {
  const TrafficLightBook book;
  const Base& base = book;
  vc::check(base.GetTrafficLight(id) == nullptr && base.TrafficLights().empty(), "nothing is found or listed");
}

}  // namespace c23
