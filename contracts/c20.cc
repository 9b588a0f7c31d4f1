// sources: src/maliput/base/manual_discrete_value_rule_state_provider.cc src/maliput/base/manual_range_value_rule_state_provider.cc src/maliput/base/rule_filter.cc src/maliput/api/rules/rule.cc src/maliput/api/rules/discrete_value_rule.cc src/maliput/api/rules/range_value_rule.cc src/maliput/api/regions.cc
// native: src/maliput/base/manual_discrete_value_rule_state_provider.cc src/maliput/base/manual_range_value_rule_state_provider.cc src/maliput/base/rule_filter.cc src/maliput/api/rules/*.cc src/maliput/common/logger.cc src/maliput/api/regions.cc src/maliput/api/lane_data.cc src/maliput/math/quaternion.cc src/maliput/math/vector.cc src/maliput/math/matrix.cc src/maliput/math/roll_pitch_yaw.cc src/maliput/common/maliput_abort_and_throw.cc
// pure: maliput::api::rules::Rule::State::operator==
// validates: maliput::api::rules::Rule::ValidateRelatedRules maliput::api::rules::Rule::ValidateRelatedUniqueIds
#include <algorithm>
#include <optional>

#include "maliput/api/rules/road_rulebook.h"
#include "maliput/base/manual_discrete_value_rule_state_provider.h"
#include "maliput/base/manual_range_value_rule_state_provider.h"
#include "rulebookgens.h"
#include "vc.h"

using namespace maliput::api::rules;
using maliput::ManualDiscreteValueRuleStateProvider;
using maliput::ManualRangeValueRuleStateProvider;

namespace c20 {

// One call of SetState and what GetState gives afterwards, for the id and for any other.
template <class Provider, class Base, class S, class Get>
void SetOne(Provider& p, Base& base, const Rule::Id& id, const S& state, const std::optional<S>& next, const std::optional<double>& duration, const Rule::Id& other, Get get) {
  const auto was = base.GetState(other);
  bool is = false;
  const bool known = !vc::throws([&]() { get(id); });
  const bool good = known && [&]() {
    const auto all = get(id).states();
    return vc::exists(0, all.size(), [&](long i) { return all[i] == state; }) &&
           (next.has_value() ? vc::exists(0, all.size(), [&](long i) { return all[i] == *next; }) && (!duration.has_value() || *duration > 0.) : !duration.has_value());
  }();
  const bool threw = vc::throws([&]() { p.SetState(id, state, next, duration); });
  vc::check(threw == !good, "throws exactly for an unknown rule, a state or next state not among its states, or a duration that is not positive or has no next state");
  const auto got = base.GetState(id);
  vc::check(threw || got.has_value(), "a state set is there");
  if (!threw && got.has_value()) {
    vc::check(vc::same(got->state, state), "the state is the one set");
    vc::check(got->next.has_value() == next.has_value(), "there is a next state exactly when one was given");
    if (next.has_value() && got->next.has_value()) {
      vc::check(vc::same(got->next->state, *next), "the next state is the one given");
      vc::check(got->next->duration_until == duration, "the duration is the one given");
    }
  }
  const auto now = base.GetState(other);
  vc::check((!threw && other == id) || (now.has_value() == was.has_value() && (!now.has_value() || vc::same(*now, *was))), "every other entry is unchanged, and a rejected call changes nothing");
}

VC_PROOF("C20", "the manual discrete value rule state provider")
void Discrete(ManualDiscreteValueRuleStateProvider& p, const Rule::Id& id, const DiscreteValueRule::DiscreteValue& state,
              const std::optional<DiscreteValueRule::DiscreteValue>& next, const std::optional<double>& duration, const Rule::Id& other) {
  vc::assume(p.rulebook_ != nullptr);
  const RoadRulebook& book = *p.rulebook_;
  SetOne(p, static_cast<DiscreteValueRuleStateProvider&>(p), id, state, next, duration, other, [&](const Rule::Id& i) { return book.GetDiscreteValueRule(i); });
}

VC_PROOF("C20", "the manual range value rule state provider")
void Range(ManualRangeValueRuleStateProvider& p, const Rule::Id& id, const RangeValueRule::Range& state,
           const std::optional<RangeValueRule::Range>& next, const std::optional<double>& duration, const Rule::Id& other) {
  vc::assume(p.rulebook_ != nullptr);
  const RoadRulebook& book = *p.rulebook_;
  SetOne(p, static_cast<RangeValueRuleStateProvider&>(p), id, state, next, duration, other, [&](const Rule::Id& i) { return book.GetRangeValueRule(i); });
}

VC_PROOF("C20", "a new discrete provider knows nothing and has a rulebook")
void NewDiscrete(const RoadRulebook* book, const Rule::Id& id) {
  bool none = false;
  const bool threw = vc::throws([&]() {
    const ManualDiscreteValueRuleStateProvider p(book);
    none = !static_cast<const DiscreteValueRuleStateProvider&>(p).GetState(id).has_value();
  });
  vc::check(threw == (book == nullptr), "throws exactly without a rulebook");
  vc::check(threw || none, "nothing is set");
}

VC_PROOF("C20", "a new range provider knows nothing and has a rulebook")
void NewRange(const RoadRulebook* book, const Rule::Id& id) {
  bool none = false;
  const bool threw = vc::throws([&]() {
    const ManualRangeValueRuleStateProvider p(book);
    none = !static_cast<const RangeValueRuleStateProvider&>(p).GetState(id).has_value();
  });
  vc::check(threw == (book == nullptr), "throws exactly without a rulebook");
  vc::check(threw || none, "nothing is set");
}

}  // namespace c20
