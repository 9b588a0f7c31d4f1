// Rulebooks for the native runs (not seen by the verifier).
#pragma once
#ifdef VC_NATIVE
#include <stdexcept>

#include "maliput/api/rules/road_rulebook.h"
#include "maliput/base/manual_discrete_value_rule_state_provider.h"
#include "maliput/base/manual_range_value_rule_state_provider.h"
#include "rulegens.h"
namespace maliput {
namespace api {
namespace rules {
template <class S> bool operator==(const StateProviderResult<S>& a, const StateProviderResult<S>& b) {
  return a.state == b.state && a.next.has_value() == b.next.has_value() &&
         (!a.next.has_value() || (a.next->state == b.next->state && a.next->duration_until == b.next->duration_until));
}
}  // namespace rules
}  // namespace api
}  // namespace maliput
namespace vc {
template <class S, class R> R any_rule(const rules::Rule::Id& id) {
  return retry([&]() {
    return R(id, Gen<rules::Rule::TypeId>::make(), Gen<maliput::api::LaneSRoute>::make(), Gen<std::vector<S>>::make());
  });
}
template <> struct Gen<rules::DiscreteValueRule> {
  static rules::DiscreteValueRule make() { return any_rule<rules::DiscreteValueRule::DiscreteValue, rules::DiscreteValueRule>(Gen<rules::Rule::Id>::make()); }
};
template <> struct Gen<rules::RangeValueRule> {
  static rules::RangeValueRule make() { return any_rule<rules::RangeValueRule::Range, rules::RangeValueRule>(Gen<rules::Rule::Id>::make()); }
};
struct FakeRulebook : rules::RoadRulebook {
  QueryResults all;
  QueryResults DoFindRules(const std::vector<maliput::api::LaneSRange>&, double) const override { return {}; }
  QueryResults DoRules() const override { return all; }
  rules::RightOfWayRule DoGetRule(const rules::RightOfWayRule::Id& id) const override { return all.right_of_way.at(id); }
  rules::SpeedLimitRule DoGetRule(const rules::SpeedLimitRule::Id& id) const override { return all.speed_limit.at(id); }
  rules::DirectionUsageRule DoGetRule(const rules::DirectionUsageRule::Id& id) const override { return all.direction_usage.at(id); }
  rules::DiscreteValueRule DoGetDiscreteValueRule(const rules::Rule::Id& id) const override { return all.discrete_value_rules.at(id); }
  rules::RangeValueRule DoGetRangeValueRule(const rules::Rule::Id& id) const override { return all.range_value_rules.at(id); }
};
inline FakeRulebook* fake_rulebook() {
  auto b = std::make_shared<FakeRulebook>();
  keep().push_back(b);
  for (long n = length(); n > 0; --n) {
    auto r = Gen<rules::DiscreteValueRule>::make();
    b->all.discrete_value_rules.emplace(r.id(), r);
  }
  for (long n = length(); n > 0; --n) {
    auto r = Gen<rules::RangeValueRule>::make();
    b->all.range_value_rules.emplace(r.id(), r);
  }
  return b.get();
}
template <> struct Gen<const rules::RoadRulebook*> {
  static const rules::RoadRulebook* make() { return coin(6) ? nullptr : fake_rulebook(); }
};
template <> struct Gen<maliput::ManualDiscreteValueRuleStateProvider> {
  static std::shared_ptr<maliput::ManualDiscreteValueRuleStateProvider> make() {
    FakeRulebook* b = fake_rulebook();
    auto p = std::make_shared<maliput::ManualDiscreteValueRuleStateProvider>(b);
    for (auto& r : b->all.discrete_value_rules) {
      if (coin()) p->SetState(r.first, r.second.states().front(), coin() ? std::make_optional(r.second.states().back()) : std::nullopt, std::nullopt);
    }
    return p;
  }
};
template <> struct Gen<maliput::ManualRangeValueRuleStateProvider> {
  static std::shared_ptr<maliput::ManualRangeValueRuleStateProvider> make() {
    FakeRulebook* b = fake_rulebook();
    auto p = std::make_shared<maliput::ManualRangeValueRuleStateProvider>(b);
    for (auto& r : b->all.range_value_rules) {
      if (coin()) p->SetState(r.first, r.second.states().front(), coin() ? std::make_optional(r.second.states().back()) : std::nullopt, std::nullopt);
    }
    return p;
  }
};
}  // namespace vc
#endif
