// Generators of phases for the native runs (not seen by the verifier).
#pragma once
#ifdef VC_NATIVE
#include "maliput/api/rules/phase.h"
#include "maliput/api/rules/phase_ring.h"
#include "rulegens.h"
namespace maliput {
namespace api {
namespace rules {
inline bool operator==(const PhaseRing::NextPhase& a, const PhaseRing::NextPhase& b) { return a.id == b.id && a.duration_until == b.duration_until; }
inline bool operator==(const Phase& a, const Phase& b) {
  return a.id() == b.id() && a.rule_states() == b.rule_states() && a.discrete_value_rule_states() == b.discrete_value_rule_states() && a.bulb_states() == b.bulb_states();
}
}  // namespace rules
}  // namespace api
}  // namespace maliput
namespace vc {
inline rules::UniqueBulbId bulb(const char* s) { return rules::UniqueBulbId(rules::TrafficLight::Id("t"), rules::BulbGroup::Id("g"), rules::Bulb::Id(s)); }
template <> struct All<rules::UniqueBulbId> {
  static constexpr bool known = true;
  static std::vector<rules::UniqueBulbId> values() { return {bulb("a"), bulb("b")}; }
};
template <class K, class V> std::unordered_map<K, V> some_of(bool all) {
  static const char* n[] = {"a", "b"};
  std::unordered_map<K, V> m;
  for (const char* s : n) if (all || coin()) m.emplace(K(s), Gen<V>::make());
  return m;
}
template <> struct Gen<rules::BulbState> {
  static rules::BulbState make() { return static_cast<rules::BulbState>(ctx().pick(3)); }
};
template <> struct Gen<rules::Phase> {
  static rules::Phase make() {
    const bool all = !coin(4);
    std::optional<rules::BulbStates> bulbs;
    if (coin()) {
      bulbs.emplace();
      if (all || coin()) bulbs->emplace(bulb("a"), Gen<rules::BulbState>::make());
      if (!all && coin()) bulbs->emplace(bulb("b"), Gen<rules::BulbState>::make());
    }
    if (!ctx().quiet) ctx().log << (bulbs ? " bulbs" : " no-bulbs") << (bulbs ? bulbs->size() : 0);
    return rules::Phase(Gen<rules::Phase::Id>::make(), some_of<rules::RightOfWayRule::Id, rules::RightOfWayRule::State::Id>(all),
                        some_of<rules::Rule::Id, rules::DiscreteValueRule::DiscreteValue>(all), bulbs);
  }
};
template <> struct Gen<rules::PhaseRing::NextPhase> {
  static rules::PhaseRing::NextPhase make() { return {Gen<rules::Phase::Id>::make(), {}}; }
};
}  // namespace vc
#endif
