// Generators of rules for the native runs of the contract files (not seen by the verifier).
#pragma once
#ifdef VC_NATIVE
#include "gens.h"
#include "maliput/api/rules/discrete_value_rule.h"
#include "maliput/api/rules/range_value_rule.h"
#include "maliput/api/rules/rule_registry.h"
#include "maliput/api/unique_id.h"
namespace vc {
namespace rules = maliput::api::rules;
template <> struct Gen<maliput::api::UniqueId> {
  static maliput::api::UniqueId make() { return maliput::api::UniqueId(Gen<maliput::api::TypeSpecificIdentifier<rules::Rule>>::make().string()); }
};
template <class T> T few() {  // values that often coincide
  T v = static_cast<T>(ctx().pick(2));
  if (!ctx().quiet) ctx().log << " " << v;
  return v;
}
inline std::string few_name() {
  std::string s = coin() ? "x" : "y";
  if (!ctx().quiet) ctx().log << " " << s;
  return s;
}
inline rules::Rule::RelatedRules related_rules() { return coin() ? rules::Rule::RelatedRules{} : Gen<rules::Rule::RelatedRules>::make(); }
inline rules::Rule::RelatedUniqueIds related_ids() { return coin() ? rules::Rule::RelatedUniqueIds{} : Gen<rules::Rule::RelatedUniqueIds>::make(); }
inline int severity() { return coin(20) ? -1 : few<int>(); }
template <> struct Gen<rules::Rule::State> {
  static rules::Rule::State make() { return rules::Rule::State(severity(), related_rules(), related_ids()); }
};
template <> struct Gen<rules::DiscreteValueRule::DiscreteValue> {
  static rules::DiscreteValueRule::DiscreteValue make() { return rules::DiscreteValueRule::DiscreteValue(severity(), related_rules(), related_ids(), few_name()); }
};
template <> struct Gen<rules::RangeValueRule::Range> {
  static rules::RangeValueRule::Range make() {
    return rules::RangeValueRule::Range(severity(), related_rules(), related_ids(), few_name(), few<double>(), few<double>());
  }
};
template <> struct Gen<rules::Rule> {
  static rules::Rule make() {
    return rules::Rule(rules::Rule::Id("id"), rules::Rule::TypeId("type"), maliput::api::LaneSRoute(std::vector<maliput::api::LaneSRange>{}));
  }
};
template <> struct Gen<rules::RuleRegistry> {
  static rules::RuleRegistry make() {
    rules::RuleRegistry r;
    r.range_rule_types_ = Gen<std::map<rules::Rule::TypeId, std::vector<rules::RangeValueRule::Range>>>::make();
    for (const auto& x : Gen<std::map<rules::Rule::TypeId, std::vector<rules::DiscreteValueRule::DiscreteValue>>>::make())
      if (r.range_rule_types_.count(x.first) == 0) r.discrete_rule_types_.insert(x);
    return r;
  }
};
}  // namespace vc
#endif
