// sources: src/maliput/api/rules/rule.cc
// native: src/maliput/api/rules/rule.cc src/maliput/api/regions.cc src/maliput/api/lane_data.cc src/maliput/math/quaternion.cc src/maliput/math/vector.cc src/maliput/math/matrix.cc src/maliput/math/roll_pitch_yaw.cc src/maliput/common/maliput_abort_and_throw.cc
#include <algorithm>

#include "maliput/api/rules/rule.h"
#include "rulegens.h"
#include "vc.h"

using maliput::api::rules::Rule;

namespace c17b {

// Groups have names and elements that occur once.
template <class M>
bool Grouped(const M& m) {
  return vc::forall_v<std::string>([&](const std::string& k) {
    return m.count(k) == 0 || (!k.empty() && vc::forall(0, m.at(k).size(), [&](long i) { return std::count(m.at(k).begin(), m.at(k).end(), m.at(k)[i]) == 1; }));
  });
}

VC_PROOF("C17", "related rules are named groups of distinct rules")
void Rules(const Rule& rule, const Rule::RelatedRules& m) {
  vc::check(vc::throws([&]() { rule.ValidateRelatedRules(m); }) == !Grouped(m), "rejected exactly when a group has no name or repeats a rule");
}

VC_PROOF("C17", "related ids are named groups of distinct ids")
void UniqueIds(const Rule& rule, const Rule::RelatedUniqueIds& m) {
  vc::check(vc::throws([&]() { rule.ValidateRelatedUniqueIds(m); }) == !Grouped(m), "rejected exactly when a group has no name or repeats an id");
}

VC_PROOF("C17", "a severity is not negative")
void Severity(const Rule& rule, int severity) {
  vc::check(vc::throws([&]() { rule.ValidateSeverity(severity); }) == (severity < 0), "rejected exactly when negative");
}

}  // namespace c17b
