import sys; sys.path.insert(0, "/verif/tools")
from mkseed import *
H = '#include <cstdio>\n#include <memory>\n#include <vector>\n'
RULES = "src/maliput/base/rule_filter.cc src/maliput/common/logger.cc src/maliput/api/rules/*.cc src/maliput/api/regions.cc src/maliput/api/lane_data.cc " + MATH
BOOK = '''#include "maliput/api/rules/road_rulebook.h"
using namespace maliput;
using namespace maliput::api;
using namespace maliput::api::rules;
struct Book : RoadRulebook {
  QueryResults all;
  QueryResults DoFindRules(const std::vector<LaneSRange>&, double) const override { return {}; }
  QueryResults DoRules() const override { return all; }
  RightOfWayRule DoGetRule(const RightOfWayRule::Id& id) const override { return all.right_of_way.at(id); }
  SpeedLimitRule DoGetRule(const SpeedLimitRule::Id& id) const override { return all.speed_limit.at(id); }
  DirectionUsageRule DoGetRule(const DirectionUsageRule::Id& id) const override { return all.direction_usage.at(id); }
  DiscreteValueRule DoGetDiscreteValueRule(const Rule::Id& id) const override { return all.discrete_value_rules.at(id); }
  RangeValueRule DoGetRangeValueRule(const Rule::Id& id) const override { return all.range_value_rules.at(id); }
};
'''
seed("c20-stale-next-state", "C20", [("src/maliput/base/manual_range_value_rule_state_provider.cc",
'''  api::rules::RangeValueRuleStateProvider::StateResult state_result;
  state_result.state = state;
  if (next_state.has_value()) {
    state_result.next = {{*next_state, duration_until}};
  }

  states_[id] = state_result;
''', '''  api::rules::RangeValueRuleStateProvider::StateResult& state_result = states_[id];
  state_result.state = state;
  if (next_state.has_value()) {
    state_result.next = {{*next_state, duration_until}};
  }
''')],
H + '#include "maliput/base/manual_range_value_rule_state_provider.h"\n' + BOOK + '''
int main() {
  Book book;
  const RangeValueRule::Range a(0, {}, {}, "a", 1., 2.), b(0, {}, {}, "b", 3., 4.);
  const Rule::Id id("r");
  book.all.range_value_rules.emplace(id, RangeValueRule(id, Rule::TypeId("t"), LaneSRoute(std::vector<LaneSRange>{}), {a, b}));
  ManualRangeValueRuleStateProvider p(&book);
  p.SetState(id, a, b, 5.);
  p.SetState(id, b, std::nullopt, std::nullopt);
  const auto s = static_cast<RangeValueRuleStateProvider&>(p).GetState(id);
  return s.has_value() && s->state == b && !s->next.has_value() ? 0 : 1;
}
''', "src/maliput/base/manual_range_value_rule_state_provider.cc " + RULES, "a state set with a next state, then set again without one", "the provider reports the next state of the previous setting")
