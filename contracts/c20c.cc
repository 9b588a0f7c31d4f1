// sources: src/maliput/base/manual_discrete_value_rule_state_provider.cc src/maliput/base/manual_range_value_rule_state_provider.cc src/maliput/base/rule_filter.cc src/maliput/api/rules/rule.cc src/maliput/api/rules/discrete_value_rule.cc src/maliput/api/rules/range_value_rule.cc src/maliput/api/regions.cc src/maliput/api/lane.cc
// native: src/maliput/base/manual_discrete_value_rule_state_provider.cc src/maliput/base/manual_range_value_rule_state_provider.cc src/maliput/base/rule_filter.cc src/maliput/api/rules/*.cc src/maliput/common/*.cc src/maliput/api/*.cc src/maliput/math/*.cc
// pure: maliput::api::LaneSRoute::Intersects
#include <optional>

#include "maliput/api/lane.h"
#include "maliput/api/lane_data.h"
#include "maliput/api/rules/road_rulebook.h"
#include "maliput/base/manual_discrete_value_rule_state_provider.h"
#include "maliput/base/manual_range_value_rule_state_provider.h"
#include "fakes.h"
#include "rulebookgens.h"
#include "vc.h"

using namespace maliput::api::rules;
using maliput::ManualDiscreteValueRuleStateProvider;
using maliput::ManualRangeValueRuleStateProvider;
using maliput::api::LaneSRange;
using maliput::api::LaneSRoute;
using maliput::api::RoadPosition;
using maliput::api::SRange;

namespace c20c {

// The state of some rule of the type at the position, nothing exactly when there is no such rule.
template <class Provider, class Base, class Rules, class Result>
void At(const Provider& p, const Base& base, const Rules& rules, const RoadPosition& position, const Rule::TypeId& type, double tolerance, std::optional<Result>) {
  vc::assume(position.lane != nullptr && position.pos.s() >= 0.);
  if (tolerance < 0.) {
    vc::check(vc::throws([&]() { base.GetState(position, type, tolerance); }), "a negative tolerance throws");
    return;
  }
  const LaneSRoute here({LaneSRange(position.lane->id(), SRange(position.pos.s(), position.pos.s()))});
  const auto applies = [&](const Rule::Id& k) { return rules.count(k) == 1 && rules.at(k).type_id() == type && rules.at(k).zone().Intersects(here, tolerance); };
  std::optional<Result> got{};
  const bool threw = vc::throws([&]() { got = base.GetState(position, type, tolerance); });
  const bool none = vc::forall_v<Rule::Id>([&](const Rule::Id& k) { return !applies(k); });
  vc::check(threw || got.has_value() == !none, "a state exactly when a rule of the type applies there");
  vc::check(threw || none || vc::exists_v<Rule::Id>([&](const Rule::Id& k) { return applies(k) && base.GetState(k).has_value() && vc::same(base.GetState(k)->state, got->state); }), "the state of such a rule");
  vc::check(!threw || vc::exists_v<Rule::Id>([&](const Rule::Id& k) { return applies(k) && !base.GetState(k).has_value(); }), "throws only when such a rule has no state");
}

VC_PROOF("C20", "the state of a discrete value rule at a position")
void Discrete(const ManualDiscreteValueRuleStateProvider& p, const RoadPosition& position, const Rule::TypeId& type, double tolerance) {
  vc::assume(p.rulebook_ != nullptr);
  const RoadRulebook::QueryResults all = p.rulebook_->Rules();
  const std::optional<DiscreteValueRuleStateProvider::StateResult> none;
  At(p, static_cast<const DiscreteValueRuleStateProvider&>(p), all.discrete_value_rules, position, type, tolerance, none);
}

VC_PROOF("C20", "the state of a range value rule at a position")
void Range(const ManualRangeValueRuleStateProvider& p, const RoadPosition& position, const Rule::TypeId& type, double tolerance) {
  vc::assume(p.rulebook_ != nullptr);
  const RoadRulebook::QueryResults all = p.rulebook_->Rules();
  const std::optional<RangeValueRuleStateProvider::StateResult> none;
  At(p, static_cast<const RangeValueRuleStateProvider&>(p), all.range_value_rules, position, type, tolerance, none);
}

}  // namespace c20c
