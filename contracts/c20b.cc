// sources: src/maliput/base/manual_phase_provider.cc src/maliput/base/manual_right_of_way_rule_state_provider.cc
// native: src/maliput/base/manual_phase_provider.cc src/maliput/base/manual_right_of_way_rule_state_provider.cc src/maliput/api/rules/*.cc src/maliput/api/regions.cc src/maliput/api/lane_data.cc src/maliput/math/quaternion.cc src/maliput/math/vector.cc src/maliput/math/matrix.cc src/maliput/math/roll_pitch_yaw.cc src/maliput/common/maliput_abort_and_throw.cc
#include <optional>

#include "maliput/base/manual_phase_provider.h"
#include "maliput/base/manual_right_of_way_rule_state_provider.h"
#include "gens.h"
#include "vc.h"

using namespace maliput::api::rules;
using maliput::ManualPhaseProvider;
using maliput::ManualRightOfWayRuleStateProvider;

#ifdef VC_NATIVE
namespace vc {
template <> struct Gen<ManualPhaseProvider> {
  static std::shared_ptr<ManualPhaseProvider> make() {
    auto p = std::make_shared<ManualPhaseProvider>();
    for (const char* s : {"a", "b", "c"})
      if (coin()) p->AddPhaseRing(PhaseRing::Id(s), Gen<Phase::Id>::make(), Gen<Phase::Id>::make(), Gen<std::optional<double>>::make());
    return p;
  }
};
template <> struct Gen<ManualRightOfWayRuleStateProvider> {
  static std::shared_ptr<ManualRightOfWayRuleStateProvider> make() {
    auto p = std::make_shared<ManualRightOfWayRuleStateProvider>();
    for (const char* s : {"a", "b", "c"})
      if (coin()) p->AddState(RightOfWayRule::Id(s), Gen<RightOfWayRule::State::Id>::make());
    return p;
  }
};
}  // namespace vc
#endif

namespace c20b {

using Result = std::optional<PhaseProvider::Result>;
bool SameResult(const Result& a, const Result& b) {
  return a.has_value() == b.has_value() &&
         (!a.has_value() || (a->state == b->state && a->next.has_value() == b->next.has_value() &&
                             (!a->next.has_value() || (a->next->state == b->next->state && a->next->duration_until == b->next->duration_until))));
}
bool Is(const Result& r, const Phase::Id& phase, const std::optional<Phase::Id>& next, const std::optional<double>& duration) {
  return r.has_value() && r->state == phase && r->next.has_value() == next.has_value() && (!next.has_value() || (r->next->state == *next && r->next->duration_until == duration));
}

VC_PROOF("C20", "adding a phase ring")
void AddRing(ManualPhaseProvider& p, const PhaseRing::Id& id, const Phase::Id& phase, const std::optional<Phase::Id>& next, const std::optional<double>& duration, const PhaseRing::Id& other) {
  vc::assume(p.impl_ != nullptr);
  PhaseProvider& base = p;
  const Result was = base.GetPhase(other);
  const bool known = base.GetPhase(id).has_value();
  const bool threw = vc::throws([&]() { p.AddPhaseRing(id, phase, next, duration); });
  vc::check(threw == (known || (duration.has_value() && !next.has_value())), "throws exactly for a known ring or a duration without a next phase");
  vc::check(threw || Is(base.GetPhase(id), phase, next, duration), "the phase is the one given");
  vc::check((!threw && other == id) || SameResult(base.GetPhase(other), was), "every other entry is unchanged, and a rejected call changes nothing");
}

VC_PROOF("C20", "setting a phase")
void SetPhase(ManualPhaseProvider& p, const PhaseRing::Id& id, const Phase::Id& phase, const std::optional<Phase::Id>& next, const std::optional<double>& duration, const PhaseRing::Id& other) {
  vc::assume(p.impl_ != nullptr);
  PhaseProvider& base = p;
  const Result was = base.GetPhase(other);
  const bool known = base.GetPhase(id).has_value();
  const bool threw = vc::throws([&]() { p.SetPhase(id, phase, next, duration); });
  vc::check(threw == (!known || (duration.has_value() && !next.has_value())), "throws exactly for an unknown ring or a duration without a next phase");
  vc::check(threw || Is(base.GetPhase(id), phase, next, duration), "the phase is the one given");
  vc::check((!threw && other == id) || SameResult(base.GetPhase(other), was), "every other entry is unchanged, and a rejected call changes nothing");
}

VC_PROOF("C20", "a new phase provider knows no ring")
void NewPhase(const PhaseRing::Id& id) {
  const ManualPhaseProvider p;
  vc::check(!static_cast<const PhaseProvider&>(p).GetPhase(id).has_value(), "nothing is set");
}

using RowResult = std::optional<RightOfWayRuleStateProvider::RightOfWayResult>;

VC_PROOF("C20", "adding a right of way rule")
void AddRightOfWay(ManualRightOfWayRuleStateProvider& p, const RightOfWayRule::Id& id, const RightOfWayRule::State::Id& state, const RightOfWayRule::Id& other) {
  RightOfWayRuleStateProvider& base = p;
  const RowResult was = base.GetState(other);
  const bool known = base.GetState(id).has_value();
  const bool threw = vc::throws([&]() { p.AddState(id, state); });
  vc::check(threw == known, "throws exactly for a known rule");
  const RowResult is = base.GetState(id);
  vc::check(threw || (is.has_value() && is->state == state && !is->next.has_value()), "the state is the one given");
  const RowResult now = base.GetState(other);
  vc::check((!threw && other == id) || (now.has_value() == was.has_value() && (!now.has_value() || now->state == was->state)), "every other entry is unchanged, and a rejected call changes nothing");
}

VC_PROOF("C20", "setting the state of a right of way rule")
void SetRightOfWay(ManualRightOfWayRuleStateProvider& p, const RightOfWayRule::Id& id, const RightOfWayRule::State::Id& state, const RightOfWayRule::Id& other) {
  RightOfWayRuleStateProvider& base = p;
  const RowResult was = base.GetState(other);
  const bool known = base.GetState(id).has_value();
  const bool threw = vc::throws([&]() { p.SetState(id, state); });
  vc::check(threw == !known, "throws exactly for an unknown rule");
  const RowResult is = base.GetState(id);
  vc::check(threw || (is.has_value() && is->state == state && !is->next.has_value()), "the state is the one given");
  const RowResult now = base.GetState(other);
  vc::check((!threw && other == id) || (now.has_value() == was.has_value() && (!now.has_value() || now->state == was->state)), "every other entry is unchanged, and a rejected call changes nothing");
}

}  // namespace c20b
