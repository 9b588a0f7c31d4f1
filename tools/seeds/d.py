import sys; sys.path.insert(0, "/verif/tools")
from mkseed import *
H = '#include <cstdio>\n#include <memory>\n#include <vector>\n'
RULES = "src/maliput/api/rules/*.cc src/maliput/api/regions.cc src/maliput/api/lane_data.cc " + MATH
seed("c19-later-phase-covers-less", "C19", [("src/maliput/api/rules/phase_ring.cc",
'''    MALIPUT_VALIDATE(phase.discrete_value_rule_states().size() == r.discrete_value_rule_states().size(),
''', '''    MALIPUT_VALIDATE(phase.discrete_value_rule_states().size() <= r.discrete_value_rule_states().size(),
''')],
H + '''#include "maliput/api/rules/phase_ring.h"
using namespace maliput::api::rules;
int main() {
  const DiscreteValueRule::DiscreteValue v(0, {}, {}, "v");
  const Phase a(Phase::Id("a"), {}, {{Rule::Id("r"), v}, {Rule::Id("q"), v}}), b(Phase::Id("b"), {}, {{Rule::Id("r"), v}});
  try { PhaseRing ring(PhaseRing::Id("i"), {a, b}); } catch (const std::exception&) { return 0; }
  return 1;
}
''', RULES, "a later phase that covers a proper subset of the rules of the first", "a ring is built from phases that do not cover the same rules")
