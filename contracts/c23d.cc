// sources: src/maliput/api/intersection.cc src/maliput/api/regions.cc src/maliput/api/rules/phase_ring.cc src/maliput/api/rules/phase.cc
// native: src/maliput/api/*.cc src/maliput/api/rules/*.cc src/maliput/math/*.cc src/maliput/common/maliput_abort_and_throw.cc
#include <optional>
#include <vector>

#include "intersectiongens.h"
#include "vc.h"

using maliput::api::Intersection;
using namespace maliput::api::rules;

namespace c23d {

// The current phase of an intersection, when there is one, is a phase of its ring.
bool Good(const Intersection& x) { return !x.Phase().has_value() || x.ring_.phases().count(x.Phase()->state) == 1; }

VC_PROOF("C23", "an intersection includes the traffic lights of its current phase")
void IncludesTrafficLight(const Intersection& x, const TrafficLight::Id& id) {
  vc::assume(Good(x));
  const bool has = x.Phase().has_value() && x.ring_.phases().at(x.Phase()->state).bulb_states().has_value();
  const bool some = has && vc::exists_v<UniqueBulbId>([&](const UniqueBulbId& b) {
    return b.traffic_light_id() == id && x.ring_.phases().at(x.Phase()->state).bulb_states()->count(b) == 1;
  });
  vc::check(x.Includes(id) == some, "included exactly when a bulb of its current phase is of the traffic light");
}

VC_PROOF("C23", "an intersection includes the rules of its current phase")
void IncludesRule(const Intersection& x, const DiscreteValueRule::Id& id, const RightOfWayRule::Id& row) {
  vc::assume(Good(x));
  const bool has = x.Phase().has_value();
  vc::check(x.Includes(id) == (has && x.ring_.phases().at(x.Phase()->state).discrete_value_rule_states().count(id) == 1), "included exactly when its current phase has a state of the rule");
  vc::check(x.Includes(row) == (has && x.ring_.phases().at(x.Phase()->state).rule_states().count(row) == 1), "included exactly when its current phase has a state of the right of way rule");
}

}  // namespace c23d
