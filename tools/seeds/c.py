import sys; sys.path.insert(0, "/verif/tools")
from mkseed import *
H = '#include <cstdio>\n#include <memory>\n#include <vector>\n'
RULES = "src/maliput/api/rules/*.cc src/maliput/api/regions.cc src/maliput/api/lane_data.cc " + MATH

seed("c17-subrange-built", "C17", [("src/maliput/api/rules/rule_registry.cc",
'''           return r.severity == range.severity && r.min == range.min && r.max == range.max &&
''', '''           return r.severity == range.severity && r.min <= range.min && r.max >= range.max &&
''')],
H + '''#include "maliput/api/rules/rule_registry.h"
using namespace maliput::api;
using namespace maliput::api::rules;
int main() {
  RuleRegistry reg;
  const Rule::TypeId type("t");
  reg.RegisterRangeValueRule(type, {RangeValueRule::Range(0, {}, {}, "d", 10., 20.)});
  try {
    reg.BuildRangeValueRule(Rule::Id("i"), type, LaneSRoute(std::vector<LaneSRange>{}), {RangeValueRule::Range(0, {}, {}, "d", 11., 19.)});
  } catch (const std::exception&) { return 0; }
  return 1;
}
''', RULES, "a rule built with a range strictly inside a registered one", "a rule can carry a range that is not among the registered ones")

seed("c18-empty-group-ignored", "C18", [("src/maliput/api/rules/rule.cc",
'''    if (it == map_b.end()) {
      return false;
    }
''', '''    if (it == map_b.end()) {
      if (!key_val.second.empty()) {
        return false;
      }
      continue;
    }
''')],
H + '''#include "maliput/api/rules/rule.h"
using namespace maliput::api::rules;
int main() {
  const Rule::State a(0, {{"x", {}}}, {}), b(0, {{"y", {}}}, {});
  return a == b ? 1 : 0;
}
''', RULES, "two states whose groups have different names and no members", "states with different related groups compare equal")
