// sources: src/maliput/api/rules/rule.cc
// native: src/maliput/api/rules/rule.cc src/maliput/api/rules/range_value_rule.cc src/maliput/common/maliput_abort_and_throw.cc
#include "maliput/api/rules/rule.h"

#include <algorithm>

#include "maliput/api/rules/discrete_value_rule.h"
#include "maliput/api/rules/range_value_rule.h"
#include "rulegens.h"
#include "vc.h"

using maliput::api::rules::DiscreteValueRule;
using maliput::api::rules::RangeValueRule;
using maliput::api::rules::Rule;

namespace c18 {

// The same groups hold the same elements, in any order.
template <class M>
bool SameGroups(const M& a, const M& b) {
  return a.size() == b.size() && vc::forall_v<std::string>([&](const std::string& k) {
           return a.count(k) == b.count(k) && (a.count(k) == 0 || std::is_permutation(a.at(k).begin(), a.at(k).end(), b.at(k).begin(), b.at(k).end()));
         });
}
template <class M>
bool Within(const M& a, const M& b) {
  return vc::forall_v<std::string>([&](const std::string& k) { return a.count(k) == 0 || b.count(k) != 0; });
}
template <class M>
void Finite(const M& a, const M& b) {
  vc::axiom(vc::implies(a.size() == b.size() && Within(a, b), Within(b, a)), "keys of maps of one size that are all in the other are the keys of the other");
}
bool SameState(const Rule::State& a, const Rule::State& b) {
  return a.severity == b.severity && SameGroups(a.related_rules, b.related_rules) && SameGroups(a.related_unique_ids, b.related_unique_ids);
}
void FiniteState(const Rule::State& a, const Rule::State& b) {
  Finite(a.related_rules, b.related_rules);
  Finite(a.related_unique_ids, b.related_unique_ids);
}

VC_PROOF("C18", "states are equal exactly when every part is")
void State(const Rule::State& a, const Rule::State& b) {
  FiniteState(a, b);
  vc::check((a == b) == SameState(a, b), "equal exactly for the same severity and the same related groups");
  vc::check((a != b) == !(a == b), "different means not equal");
}

VC_PROOF("C18", "equality of states is reflexive and symmetric")
void Symmetric(const Rule::State& a, const Rule::State& b) {
  FiniteState(a, b);
  FiniteState(b, a);
  vc::check(a == a, "reflexive");
  const bool ab = a == b, ba = b == a;
  vc::check(ab == SameState(a, b), "equal exactly when every part is");
  vc::check(ba == SameState(b, a), "equal exactly when every part is, the other way round");
  vc::check(vc::implies(SameState(a, b), SameState(b, a)), "having the same parts is symmetric");
  vc::check(vc::implies(SameState(b, a), SameState(a, b)), "having the same parts is symmetric, the other way round");
  vc::check(ab == ba, "symmetric");
}

VC_PROOF("C18", "equality of states is transitive")
void Transitive(const Rule::State& a, const Rule::State& b, const Rule::State& c) {
  vc::check(vc::implies(a == b && b == c, a == c), "transitive");
}

VC_PROOF("C18", "discrete values are equal exactly when every part is")
void Discrete(const DiscreteValueRule::DiscreteValue& a, const DiscreteValueRule::DiscreteValue& b) {
  FiniteState(a, b);
  vc::check((a == b) == (a.value == b.value && SameState(a, b)), "equal exactly for the same value and the same state");
  vc::check((a != b) == !(a == b), "different means not equal");
}

VC_PROOF("C18", "ranges are equal exactly when every part is")
void Range(const RangeValueRule::Range& a, const RangeValueRule::Range& b) {
  FiniteState(a, b);
  vc::check((a == b) == (a.min == b.min && a.max == b.max && a.description == b.description && SameState(a, b)),
            "equal exactly for the same description, limits and state");
  vc::check((a != b) == !(a == b), "different means not equal");
}

}  // namespace c18
