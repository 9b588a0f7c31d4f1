// sources: src/maliput/api/rules/phase_ring.cc src/maliput/api/rules/phase.cc
// native: src/maliput/api/rules/*.cc src/maliput/api/regions.cc src/maliput/api/lane_data.cc src/maliput/math/quaternion.cc src/maliput/math/vector.cc src/maliput/math/matrix.cc src/maliput/math/roll_pitch_yaw.cc src/maliput/common/maliput_abort_and_throw.cc
#include "maliput/api/rules/phase_ring.h"

#include <optional>
#include <unordered_map>
#include <vector>

#include "phasegens.h"
#include "vc.h"

using maliput::api::rules::Phase;
using maliput::api::rules::PhaseRing;
using NextPhases = std::unordered_map<Phase::Id, std::vector<PhaseRing::NextPhase>>;

namespace c19 {

template <class K, class M>
bool Within(const M& a, const M& b) {
  return vc::forall_v<K>([&](const K& k) { return a.count(k) == 0 || b.count(k) != 0; });
}
// Two maps have the same keys.
template <class K, class M>
bool SameKeys(const M& a, const M& b) { return Within<K>(a, b) && Within<K>(b, a); }
// What finite maps satisfy (pigeonhole).
template <class K, class M>
bool Finite(const M& a, const M& b) {
  return vc::implies(a.size() == b.size() && Within<K>(a, b), Within<K>(b, a)) && vc::implies(Within<K>(a, b) && Within<K>(b, a), a.size() == b.size());
}
using RuleId = maliput::api::rules::RightOfWayRule::Id;
using DiscreteId = maliput::api::rules::Rule::Id;
using BulbId = maliput::api::rules::UniqueBulbId;

bool SameCoverage(const Phase& a, const Phase& b) {
  return SameKeys<RuleId>(a.rule_states(), b.rule_states()) && SameKeys<DiscreteId>(a.discrete_value_rule_states(), b.discrete_value_rule_states()) &&
         a.bulb_states().has_value() == b.bulb_states().has_value() && (!a.bulb_states().has_value() || SameKeys<BulbId>(*a.bulb_states(), *b.bulb_states()));
}
bool DistinctIds(const std::vector<Phase>& v) {
  return vc::forall(0, v.size(), [&](long i) { return vc::forall(0, i, [&](long j) { return !(v[i].id() == v[j].id()); }); });
}
bool Has(const std::vector<Phase>& v, const Phase::Id& id) {
  return vc::exists(0, v.size(), [&](long i) { return v[i].id() == id; });
}
// The entries are those of the phases, and name phases only.
bool NextOf(const std::vector<Phase>& v, const NextPhases& next) {
  return vc::forall(0, v.size(), [&](long i) { return next.count(v[i].id()) == 1; }) &&
         vc::forall_v<Phase::Id>([&](const Phase::Id& k) {
           return next.count(k) == 0 || (Has(v, k) && vc::forall(0, next.at(k).size(), [&](long j) { return Has(v, next.at(k)[j].id); }));
         });
}
bool Closed(const std::vector<Phase>& v, const std::optional<const NextPhases>& next) {
  return !v.empty() && DistinctIds(v) && vc::forall(0, v.size(), [&](long i) { return SameCoverage(v[i], v[0]); }) && (!next.has_value() || NextOf(v, *next));
}

VC_PROOF("C19", "a phase ring is constructed exactly from consistent phases")
void Construct(const PhaseRing::Id& id, const std::vector<Phase>& v, const std::optional<const NextPhases>& next, const Phase::Id& other) {
  if (!v.empty()) {
    vc::axiom(vc::forall(0, v.size(), [&](long i) {
      return Finite<RuleId>(v[i].rule_states(), v[0].rule_states()) && Finite<DiscreteId>(v[i].discrete_value_rule_states(), v[0].discrete_value_rule_states()) &&
             (!v[i].bulb_states().has_value() || !v[0].bulb_states().has_value() || Finite<BulbId>(*v[i].bulb_states(), *v[0].bulb_states()));
    }), "maps of one size whose keys are all in the other have the same keys, and maps with the same keys have one size");
  }
  if (next.has_value()) {
    const bool all = vc::forall(0, v.size(), [&](long i) { return next->count(v[i].id()) == 1; });
    const bool only = vc::forall_v<Phase::Id>([&](const Phase::Id& k) { return next->count(k) == 0 || Has(v, k); });
    vc::axiom(vc::implies(DistinctIds(v) && all, (v.size() == next->size()) == only), "a map that has n distinct keys has no other exactly when its size is n");
  }
  const bool good = Closed(v, next);
  bool is = false, phases = false, nexts = false, found = false;
  const bool threw = vc::throws([&]() {
    const PhaseRing r(id, v, next);
    is = r.id() == id;
    phases = vc::forall(0, v.size(), [&](long i) { return r.phases().count(v[i].id()) == 1 && vc::same(r.phases().at(v[i].id()), v[i]); }) &&
             (r.phases().count(other) == 1) == Has(v, other);
    nexts = r.next_phases().count(other) == r.phases().count(other) && (next.has_value() ? vc::same(r.next_phases(), *next) : r.next_phases().count(other) == 0 || r.next_phases().at(other).empty());
    const std::optional<Phase> p = r.GetPhase(other);
    found = p.has_value() == Has(v, other) && (!p.has_value() || p->id() == other);
  });
  vc::check(threw || !v.empty(), "there are phases");
  vc::check(threw || DistinctIds(v), "phase ids are distinct");
  vc::check(threw || vc::forall(0, v.size(), [&](long i) { return SameCoverage(v[i], v[0]); }), "all phases cover the same rules and bulbs");
  vc::check(threw || !next.has_value() || NextOf(v, *next), "next phases are given for exactly the phases, and are phases");
  vc::check(!threw || !good, "consistent phases make a ring");
  vc::check(threw || is, "the ring has the id given");
  vc::check(threw || phases, "the ring holds exactly the phases given");
  vc::check(threw || nexts, "the ring has next phases for exactly its phases, those given or none");
  vc::check(threw || found, "looking an id up gives that phase or nothing");
}

}  // namespace c19
