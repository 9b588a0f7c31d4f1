// sources: src/maliput/api/rules/rule.cc src/maliput/api/rules/discrete_value_rule.cc src/maliput/api/rules/range_value_rule.cc src/maliput/api/rules/rule_registry.cc src/maliput/api/regions.cc
// native: src/maliput/api/rules/rule.cc src/maliput/api/rules/discrete_value_rule.cc src/maliput/api/rules/range_value_rule.cc src/maliput/api/rules/rule_registry.cc src/maliput/api/regions.cc src/maliput/api/lane_data.cc src/maliput/math/quaternion.cc src/maliput/math/vector.cc src/maliput/math/matrix.cc src/maliput/math/roll_pitch_yaw.cc src/maliput/common/maliput_abort_and_throw.cc
// pure: maliput::api::rules::Rule::State::operator==
// validates: maliput::api::rules::Rule::ValidateRelatedRules maliput::api::rules::Rule::ValidateRelatedUniqueIds
#include "maliput/api/rules/rule.h"

#include <algorithm>

#include "maliput/api/rules/discrete_value_rule.h"
#include "maliput/api/rules/range_value_rule.h"
#include "maliput/api/rules/rule_registry.h"
#include "rulegens.h"
#include "vc.h"

using maliput::api::LaneSRoute;
using maliput::api::rules::DiscreteValueRule;
using maliput::api::rules::RangeValueRule;
using maliput::api::rules::Rule;
using maliput::api::rules::RuleRegistry;

namespace c17 {

// Each element occurs once.
template <class T>
bool Distinct(const std::vector<T>& v) {
  return vc::forall(0, v.size(), [&](long i) { return std::count(v.begin(), v.end(), v[i]) == 1; });
}
// The severity and the related groups are accepted; c17b.cc says which groups are.
bool Valid(const Rule& any, const Rule::State& s) {
  return s.severity >= 0 && !vc::throws([&]() { any.ValidateRelatedRules(s.related_rules); }) &&
         !vc::throws([&]() { any.ValidateRelatedUniqueIds(s.related_unique_ids); });
}
template <class T>
bool AllValid(const Rule& any, const std::vector<T>& v) {
  return vc::forall(0, v.size(), [&](long i) { return Valid(any, v[i]); });
}

VC_PROOF("C17", "a discrete value rule has valid distinct states")
void Discrete(const Rule& any, const Rule::Id& id, const Rule::TypeId& type, const LaneSRoute& zone, const std::vector<DiscreteValueRule::DiscreteValue>& v) {
  const bool good = !v.empty() && AllValid(any, v) && Distinct(v);
  bool kept = false;
  const bool threw = vc::throws([&]() {
    const DiscreteValueRule r(id, type, zone, v);
    kept = r.id() == id && r.type_id() == type && vc::same(r.states(), v);
  });
  vc::check(threw == !good, "constructed exactly from valid distinct states");
  vc::check(threw || kept, "the rule has the id, type and states given");
}

VC_PROOF("C17", "a range value rule has valid distinct ordered states")
void Range(const Rule& any, const Rule::Id& id, const Rule::TypeId& type, const LaneSRoute& zone, const std::vector<RangeValueRule::Range>& v) {
  const bool good = !v.empty() && AllValid(any, v) && Distinct(v) && vc::forall(0, v.size(), [&](long i) { return v[i].min <= v[i].max; });
  bool kept = false;
  const bool threw = vc::throws([&]() {
    const RangeValueRule r(id, type, zone, v);
    kept = r.id() == id && r.type_id() == type && vc::same(r.states(), v);
  });
  vc::check(threw == !good, "constructed exactly from valid distinct states");
  vc::check(threw || kept, "the rule has the id, type and states given");
}

}  // namespace c17
