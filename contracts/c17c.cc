// sources: src/maliput/api/rules/rule.cc src/maliput/api/rules/discrete_value_rule.cc src/maliput/api/rules/range_value_rule.cc src/maliput/api/rules/rule_registry.cc src/maliput/api/regions.cc
// native: src/maliput/api/rules/rule.cc src/maliput/api/rules/discrete_value_rule.cc src/maliput/api/rules/range_value_rule.cc src/maliput/api/rules/rule_registry.cc src/maliput/api/regions.cc src/maliput/api/lane_data.cc src/maliput/math/quaternion.cc src/maliput/math/vector.cc src/maliput/math/matrix.cc src/maliput/math/roll_pitch_yaw.cc src/maliput/common/maliput_abort_and_throw.cc
// pure: maliput::api::rules::Rule::State::operator==
// validates: maliput::api::rules::Rule::ValidateRelatedRules maliput::api::rules::Rule::ValidateRelatedUniqueIds
#include "maliput/api/rules/rule_registry.h"

#include <algorithm>
#include <optional>
#include <variant>

#include "rulegens.h"
#include "vc.h"

using maliput::api::LaneSRoute;
using maliput::api::rules::DiscreteValueRule;
using maliput::api::rules::RangeValueRule;
using maliput::api::rules::Rule;
using maliput::api::rules::RuleRegistry;
using Value = DiscreteValueRule::DiscreteValue;
using Interval = RangeValueRule::Range;

namespace c17c {

template <class T>
bool Distinct(const std::vector<T>& v) {
  return vc::forall(0, v.size(), [&](long i) { return std::count(v.begin(), v.end(), v[i]) == 1; });
}
// No type id is registered as both kinds.
bool OneKind(const RuleRegistry& r) {
  return vc::forall_v<Rule::TypeId>([&](const Rule::TypeId& t) { return r.range_rule_types_.count(t) == 0 || r.discrete_rule_types_.count(t) == 0; });
}

VC_PROOF("C17", "registering a range rule type")
void RegisterRange(RuleRegistry& r, const Rule::TypeId& type, const std::vector<Interval>& v, const Rule::TypeId& other) {
  vc::assume(OneKind(r));
  const bool had_range = r.RangeValueRuleTypes().count(other) == 1, had_discrete = r.DiscreteValueRuleTypes().count(other) == 1;
  const bool known = r.RangeValueRuleTypes().count(type) == 1 || r.DiscreteValueRuleTypes().count(type) == 1;
  const std::vector<Interval> was = had_range ? r.RangeValueRuleTypes().at(other) : std::vector<Interval>{};
  const std::vector<Value> was_values = had_discrete ? r.DiscreteValueRuleTypes().at(other) : std::vector<Value>{};
  const bool threw = vc::throws([&]() { r.RegisterRangeValueRule(type, v); });
  vc::check(threw == (known || v.empty() || !Distinct(v)), "accepted exactly for a new type with distinct ranges");
  vc::check(threw || (r.RangeValueRuleTypes().count(type) == 1 && vc::same(r.RangeValueRuleTypes().at(type), v)), "the ranges are kept");
  if (threw || !(other == type)) {
    vc::check((r.RangeValueRuleTypes().count(other) == 1) == had_range, "no other range type appears or disappears");
    vc::check(!had_range || vc::same(r.RangeValueRuleTypes().at(other), was), "every other range type keeps its ranges");
  }
  vc::check((r.DiscreteValueRuleTypes().count(other) == 1) == had_discrete, "no discrete type appears or disappears");
  vc::check(!had_discrete || vc::same(r.DiscreteValueRuleTypes().at(other), was_values), "discrete types keep their values");
  vc::check(OneKind(r), "a type has one kind");
}

VC_PROOF("C17", "registering a discrete rule type")
void RegisterDiscrete(RuleRegistry& r, const Rule::TypeId& type, const std::vector<Value>& v, const Rule::TypeId& other) {
  vc::assume(OneKind(r));
  const bool had_range = r.RangeValueRuleTypes().count(other) == 1, had_discrete = r.DiscreteValueRuleTypes().count(other) == 1;
  const bool known = r.RangeValueRuleTypes().count(type) == 1 || r.DiscreteValueRuleTypes().count(type) == 1;
  const std::vector<Interval> was = had_range ? r.RangeValueRuleTypes().at(other) : std::vector<Interval>{};
  const std::vector<Value> was_values = had_discrete ? r.DiscreteValueRuleTypes().at(other) : std::vector<Value>{};
  const bool threw = vc::throws([&]() { r.RegisterDiscreteValueRule(type, v); });
  vc::check(threw == (known || v.empty() || !Distinct(v)), "accepted exactly for a new type with distinct values");
  vc::check(threw || (r.DiscreteValueRuleTypes().count(type) == 1 && vc::same(r.DiscreteValueRuleTypes().at(type), v)), "the values are kept");
  if (threw || !(other == type)) {
    vc::check((r.DiscreteValueRuleTypes().count(other) == 1) == had_discrete, "no other discrete type appears or disappears");
    vc::check(!had_discrete || vc::same(r.DiscreteValueRuleTypes().at(other), was_values), "every other discrete type keeps its values");
  }
  vc::check((r.RangeValueRuleTypes().count(other) == 1) == had_range, "no range type appears or disappears");
  vc::check(!had_range || vc::same(r.RangeValueRuleTypes().at(other), was), "range types keep their ranges");
  vc::check(OneKind(r), "a type has one kind");
}

VC_PROOF("C17", "looking a rule type up")
void Query(const RuleRegistry& r, const Rule::TypeId& type) {
  vc::assume(OneKind(r));
  const std::optional<RuleRegistry::QueryResult> q = r.GetPossibleStatesOfRuleType(type);
  const bool range = r.RangeValueRuleTypes().count(type) == 1, discrete = r.DiscreteValueRuleTypes().count(type) == 1;
  vc::check(q.has_value() == (range || discrete), "known exactly when registered");
  if (q.has_value()) {
    vc::check(q->type_id == type, "the type asked for");
    vc::check(std::holds_alternative<RuleRegistry::QueryResult::Ranges>(q->rule_values) == range, "the kind registered");
    if (range) vc::check(vc::same(std::get<RuleRegistry::QueryResult::Ranges>(q->rule_values), r.RangeValueRuleTypes().at(type)), "the ranges registered");
    if (discrete) vc::check(vc::same(std::get<RuleRegistry::QueryResult::DiscreteValues>(q->rule_values), r.DiscreteValueRuleTypes().at(type)), "the values registered");
  }
}

VC_PROOF("C17", "building a range rule")
void BuildRange(const RuleRegistry& r, const Rule::Id& id, const Rule::TypeId& type, const LaneSRoute& zone, const std::vector<Interval>& v) {
  const bool known = r.RangeValueRuleTypes().count(type) == 1;
  bool kept = false;
  const bool threw = vc::throws([&]() {
    const RangeValueRule b = r.BuildRangeValueRule(id, type, zone, v);
    kept = b.id() == id && b.type_id() == type && vc::same(b.states(), v);
  });
  const bool valid = !vc::throws([&]() { RangeValueRule(id, type, zone, v); });
  const bool listed = known && vc::forall(0, v.size(), [&](long i) {
    const std::vector<Interval>& all = r.RangeValueRuleTypes().at(type);
    return vc::exists(0, all.size(), [&](long j) { return all[j].severity == v[i].severity && all[j].min == v[i].min && all[j].max == v[i].max && all[j].description == v[i].description; });
  });
  vc::check(threw == !(listed && valid), "built exactly when the type is registered, each range is one of its ranges, and the rule is valid");
  vc::check(threw || kept, "the rule has the id, type and ranges given");
}

VC_PROOF("C17", "building a discrete rule")
void BuildDiscrete(const RuleRegistry& r, const Rule::Id& id, const Rule::TypeId& type, const LaneSRoute& zone, const std::vector<Value>& v) {
  const bool known = r.DiscreteValueRuleTypes().count(type) == 1;
  bool kept = false;
  const bool threw = vc::throws([&]() {
    const DiscreteValueRule b = r.BuildDiscreteValueRule(id, type, zone, v);
    kept = b.id() == id && b.type_id() == type && vc::same(b.states(), v);
  });
  const bool valid = !vc::throws([&]() { DiscreteValueRule(id, type, zone, v); });
  const bool listed = known && vc::forall(0, v.size(), [&](long i) {
    const std::vector<Value>& all = r.DiscreteValueRuleTypes().at(type);
    return vc::exists(0, all.size(), [&](long j) { return all[j].severity == v[i].severity && all[j].value == v[i].value; });
  });
  vc::check(threw == !(listed && valid), "built exactly when the type is registered, each value is one of its values, and the rule is valid");
  vc::check(threw || kept, "the rule has the id, type and values given");
}

}  // namespace c17c
