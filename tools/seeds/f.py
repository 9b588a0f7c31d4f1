import sys; sys.path.insert(0, "/verif/tools")
from mkseed import *
H = '#include <cstdio>\n#include <memory>\n#include <vector>\n'
SRC = "src/maliput/common/logger.cc src/maliput/api/rules/*.cc src/maliput/api/*.cc " + MATH
seed("c23-region-against-s", "C23", [("src/maliput/base/intersection_book.cc",
'''            return lane_s_range_intersection.Intersects(lane_s_range, tolerance);
''', '''            return lane_s_range_intersection.s_range().WithS() && lane_s_range_intersection.Intersects(lane_s_range, tolerance);
''')],
H + '''#include "maliput/base/intersection_book.h"
#include "maliput/api/rules/phase_ring.h"
using namespace maliput;
using namespace maliput::api;
struct X : Intersection {
  using Intersection::Intersection;
  std::optional<rules::PhaseProvider::Result> Phase() const override { return {}; }
  void SetPhase(const rules::Phase::Id&, const std::optional<rules::Phase::Id>&, const std::optional<double>&) override {}
};
int main() {
  maliput::IntersectionBook book(reinterpret_cast<const RoadGeometry*>(&book));
  const rules::PhaseRing ring(rules::PhaseRing::Id("r"), {rules::Phase(rules::Phase::Id("p"), {}, {})}, std::nullopt);
  const LaneSRange a(LaneId("a"), SRange(0., 1.)), b(LaneId("b"), SRange(1., 0.)), c(LaneId("c"), SRange(0., 1.));
  book.AddIntersection(std::make_unique<X>(Intersection::Id("x"), std::vector<LaneSRange>{a, b}, ring));
  book.AddIntersection(std::make_unique<X>(Intersection::Id("y"), std::vector<LaneSRange>{c}, ring));
  return book.FindIntersections({b}, 0.).size() == 1 ? 0 : 1;
}
''', "src/maliput/base/intersection_book.cc " + SRC, "an intersection that meets the searched region only with a range whose s decreases", "the intersection is not found")
seed("c23-removed-rules-stay", "C23", [("src/maliput/base/manual_phase_ring_book.cc",
'''    for (const auto& element : phase.discrete_value_rule_states()) {
      MALIPUT_THROW_UNLESS(rule_book_.erase(element.first) == 1);
    }
''', '''    if (!phase.bulb_states().has_value()) {
      for (const auto& element : phase.discrete_value_rule_states()) {
        MALIPUT_THROW_UNLESS(rule_book_.erase(element.first) == 1);
      }
    }
''')],
H + '''#include "maliput/base/manual_phase_ring_book.h"
using namespace maliput;
using namespace maliput::api::rules;
int main() {
  ManualPhaseRingBook book;
  const Phase p(Phase::Id("p"), {{RightOfWayRule::Id("row"), RightOfWayRule::State::Id("s")}}, {{Rule::Id("rule"), DiscreteValueRule::DiscreteValue(0, {}, {}, "v")}},
                BulbStates{{UniqueBulbId(TrafficLight::Id("t"), BulbGroup::Id("g"), Bulb::Id("b")), BulbState::kOff}});
  book.AddPhaseRing(PhaseRing(PhaseRing::Id("r"), {p}, std::nullopt));
  book.RemovePhaseRing(PhaseRing::Id("r"));
  try {
    return static_cast<PhaseRingBook&>(book).FindPhaseRing(Rule::Id("rule")).has_value() ? 1 : 0;
  } catch (const std::exception&) {
    return 1;
  }
}
''', "src/maliput/base/manual_phase_ring_book.cc " + SRC, "a ring whose phases have bulb states and discrete value rules is removed", "looking one of its rules up afterwards throws")
