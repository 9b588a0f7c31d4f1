// sources: src/maliput/base/manual_phase_ring_book.cc src/maliput/api/rules/phase_ring.cc src/maliput/api/rules/phase.cc
// native: src/maliput/base/manual_phase_ring_book.cc src/maliput/api/rules/*.cc src/maliput/api/*.cc src/maliput/math/*.cc src/maliput/common/maliput_abort_and_throw.cc
#include <optional>
#include <vector>

#include "maliput/base/manual_phase_ring_book.h"
#include "phasegens.h"
#include "vc.h"

using namespace maliput::api::rules;
using maliput::ManualPhaseRingBook;

#ifdef VC_NATIVE
namespace vc {
template <> struct Gen<PhaseRing> {
  static PhaseRing make() {
    return retry([]() { return PhaseRing(Gen<PhaseRing::Id>::make(), {Gen<Phase>::make()}, std::nullopt); });
  }
};
template <> struct Gen<ManualPhaseRingBook> {
  static std::shared_ptr<ManualPhaseRingBook> make() {
    auto p = std::make_shared<ManualPhaseRingBook>();
    for (long n = integer(0, 3); n > 0; --n) {
      const PhaseRing r = Gen<PhaseRing>::make();
      const Phase& phase = r.phases().begin()->second;
      bool ok = !p->GetPhaseRing(r.id()).has_value();
      for (auto& x : phase.rule_states()) ok = ok && !p->FindPhaseRing(x.first).has_value();
      for (auto& x : phase.discrete_value_rule_states()) ok = ok && !p->FindPhaseRing(x.first).has_value();
      if (ok) p->AddPhaseRing(r);
    }
    return p;
  }
};
}  // namespace vc
#endif

namespace c23b {

using Base = PhaseRingBook;
bool Covers(const PhaseRing& r, const Rule::Id& rule) { return !r.phases().empty() && r.phases().begin()->second.discrete_value_rule_states().count(rule) == 1; }
bool Covers(const PhaseRing& r, const RightOfWayRule::Id& rule) { return !r.phases().empty() && r.phases().begin()->second.rule_states().count(rule) == 1; }

// What the book holds about a ring id.
bool Kept(const Base& b, const PhaseRing::Id& id) {
  const std::optional<PhaseRing> ring = b.GetPhaseRing(id);
  return !ring.has_value() || (ring->id() == id && !ring->phases().empty());
}
// What the book holds about a rule.
template <class R>
bool Found(const Base& b, const R& rule) {
  if (vc::throws([&]() { b.FindPhaseRing(rule); })) return false;
  const std::optional<PhaseRing> of = b.FindPhaseRing(rule);
  if (!of.has_value()) return true;
  const std::optional<PhaseRing> held = b.GetPhaseRing(of->id());
  return Covers(*of, rule) && held.has_value() && Covers(*held, rule);
}
// The rules of a ring are found in it.
template <class R>
bool Owns(const Base& b, const PhaseRing::Id& id, const R& rule) {
  const std::optional<PhaseRing> ring = b.GetPhaseRing(id);
  if (!ring.has_value() || !Covers(*ring, rule)) return true;
  if (vc::throws([&]() { b.FindPhaseRing(rule); })) return false;
  const std::optional<PhaseRing> of = b.FindPhaseRing(rule);
  return of.has_value() && of->id() == id;
}
bool Same(const std::optional<PhaseRing>& a, const std::optional<PhaseRing>& b) {
  return a.has_value() == b.has_value() && (!a.has_value() || (a->id() == b->id() && vc::same(a->phases(), b->phases()) && vc::same(a->next_phases(), b->next_phases())));
}
bool SameRing(const std::optional<PhaseRing>& a, const std::optional<PhaseRing>& b) { return a.has_value() == b.has_value() && (!a.has_value() || a->id() == b->id()); }

// The book's invariant is Kept for every id, Found for every rule and Owns for every id and rule: the proofs below
// assume the instances they need, and check every clause for an arbitrary id and rule.
VC_PROOF("C23", "adding a phase ring throws for a known id or a rule that is part of another ring")
void AddPhaseRing(ManualPhaseRingBook& book, const PhaseRing& ring) {
  vc::assume(book.impl_ != nullptr && !ring.phases().empty());
  const Base& base = book;
  vc::assume(Kept(base, ring.id()));
  vc::assume(vc::forall_v<Rule::Id>([&](const Rule::Id& r) { return Found(base, r); }));
  vc::assume(vc::forall_v<RightOfWayRule::Id>([&](const RightOfWayRule::Id& r) { return Found(base, r); }));
  const bool known = base.GetPhaseRing(ring.id()).has_value();
  const bool taken = vc::exists_v<Rule::Id>([&](const Rule::Id& r) { return Covers(ring, r) && base.FindPhaseRing(r).has_value(); }) ||
                     vc::exists_v<RightOfWayRule::Id>([&](const RightOfWayRule::Id& r) { return Covers(ring, r) && base.FindPhaseRing(r).has_value(); });
  const bool threw = vc::throws([&]() { book.AddPhaseRing(ring); });
  vc::check(!threw || known || taken, "throws only for a known id or a rule that is part of another ring");
  vc::check(threw || !known, "throws for a known id");
  vc::check(threw || !taken, "throws for a rule that is part of another ring");
  vc::check(threw || Same(base.GetPhaseRing(ring.id()), ring), "what was added is found under its id");
}

VC_PROOF("C23", "adding a phase ring and the other rings")
void AddPhaseRingFrame(ManualPhaseRingBook& book, const PhaseRing& ring, const PhaseRing::Id& other) {
  vc::assume(book.impl_ != nullptr && !ring.phases().empty());
  const Base& base = book;
  vc::assume(Kept(base, other));
  const std::optional<PhaseRing> was = base.GetPhaseRing(other);
  const bool threw = vc::throws([&]() { book.AddPhaseRing(ring); });
  vc::check((!threw && other == ring.id()) || Same(base.GetPhaseRing(other), was), "every other id keeps its ring, and a rejected one changes nothing");
  vc::check(Kept(base, other), "what is found under an id has that id");
}

template <class R>
void AddRules(ManualPhaseRingBook& book, const PhaseRing& ring, const PhaseRing::Id& other, const R& rule) {
  vc::assume(book.impl_ != nullptr && !ring.phases().empty());
  const Base& base = book;
  vc::assume(Kept(base, other) && Kept(base, ring.id()) && Found(base, rule) && Owns(base, other, rule));
  const std::optional<PhaseRing> was = base.FindPhaseRing(rule);
  vc::assume(!was.has_value() || Kept(base, was->id()));
  const bool threw = vc::throws([&]() { book.AddPhaseRing(ring); });
  vc::check(Found(base, rule), "the ring found for a rule is in the book and covers it");
  vc::check(SameRing(base.FindPhaseRing(rule), !threw && Covers(ring, rule) ? std::optional<PhaseRing>(ring) : was), "its rules are found in it, every other rule as before");
  vc::check(Owns(base, other, rule), "the rules of a ring are found in it");
}
VC_PROOF("C23", "adding a phase ring and the rules")
void AddPhaseRingRules(ManualPhaseRingBook& book, const PhaseRing& ring, const PhaseRing::Id& other, const Rule::Id& rule) { AddRules(book, ring, other, rule); }
VC_PROOF("C23", "adding a phase ring and the right of way rules")
void AddPhaseRingRightOfWayRules(ManualPhaseRingBook& book, const PhaseRing& ring, const PhaseRing::Id& other, const RightOfWayRule::Id& rule) { AddRules(book, ring, other, rule); }

VC_PROOF("C23", "removing a phase ring from a book")
void RemovePhaseRing(ManualPhaseRingBook& book, const PhaseRing::Id& id, const PhaseRing::Id& other) {
  vc::assume(book.impl_ != nullptr);
  const Base& base = book;
  vc::assume(Kept(base, id) && Kept(base, other));
  vc::assume(vc::forall_v<Rule::Id>([&](const Rule::Id& r) { return Owns(base, id, r); }));
  vc::assume(vc::forall_v<RightOfWayRule::Id>([&](const RightOfWayRule::Id& r) { return Owns(base, id, r); }));
  const std::optional<PhaseRing> ring = base.GetPhaseRing(id), was = base.GetPhaseRing(other);
  const bool threw = vc::throws([&]() { book.RemovePhaseRing(id); });
  vc::check(!threw || !ring.has_value(), "throws only for an unknown id");
  vc::check(threw || ring.has_value(), "throws for an unknown id");
  vc::check(threw || !base.GetPhaseRing(id).has_value(), "what was removed is not found");
  vc::check((!threw && other == id) || Same(base.GetPhaseRing(other), was), "every other id keeps its ring, and a rejected removal changes nothing");
  vc::check(Kept(base, other), "what is found under an id has that id");
}

template <class R>
void RemoveRules(ManualPhaseRingBook& book, const PhaseRing::Id& id, const PhaseRing::Id& other, const R& rule) {
  vc::assume(book.impl_ != nullptr);
  const Base& base = book;
  vc::assume(Kept(base, id) && Kept(base, other) && Found(base, rule) && Owns(base, id, rule) && Owns(base, other, rule));
  const std::optional<PhaseRing> ring = base.GetPhaseRing(id), was = base.FindPhaseRing(rule);
  vc::assume(!was.has_value() || Kept(base, was->id()));
  const bool threw = vc::throws([&]() { book.RemovePhaseRing(id); });
  if (threw && ring.has_value()) return;  // excluded by the proof above
  const bool rules = ring.has_value() && Covers(*ring, rule);
  vc::check(!was.has_value() || rules || !(was->id() == id), "the rules found in a ring are those it covers");
  vc::check(!rules || !base.FindPhaseRing(rule).has_value(), "the rules of a removed ring are not found");
  vc::check(rules || SameRing(base.FindPhaseRing(rule), was), "every other rule is found as before");
  vc::check(Found(base, rule), "the ring found for a rule is in the book and covers it");
  vc::check(Owns(base, other, rule), "the rules of a ring are found in it");
}
VC_PROOF("C23", "removing a phase ring and the rules")
void RemovePhaseRingRules(ManualPhaseRingBook& book, const PhaseRing::Id& id, const PhaseRing::Id& other, const Rule::Id& rule) { RemoveRules(book, id, other, rule); }
VC_PROOF("C23", "removing a phase ring and the right of way rules")
void RemovePhaseRingRightOfWayRules(ManualPhaseRingBook& book, const PhaseRing::Id& id, const PhaseRing::Id& other, const RightOfWayRule::Id& rule) { RemoveRules(book, id, other, rule); }

VC_PROOF("C23", "listing phase rings")
void ListPhaseRings(const ManualPhaseRingBook& book, const PhaseRing::Id& id) {
  vc::assume(book.impl_ != nullptr);
  const Base& base = book;
  const std::vector<PhaseRing::Id> all = base.GetPhaseRings();
  vc::check(base.GetPhaseRing(id).has_value() == vc::exists(0, all.size(), [&](long i) { return all[i] == id; }), "exactly the rings added are listed");
  vc::check(vc::forall(0, all.size(), [&](long i) { return vc::forall(0, i, [&](long j) { return !(all[i] == all[j]); }); }), "nothing is listed twice");
}

VC_PROOF("C23", "a new phase ring book is empty")
void NewPhaseRingBook(const PhaseRing::Id& id, const Rule::Id& rule, const RightOfWayRule::Id& row) {
  const ManualPhaseRingBook book;
  const Base& base = book;
  vc::check(!base.GetPhaseRing(id).has_value() && base.GetPhaseRings().empty() && !base.FindPhaseRing(rule).has_value() && !base.FindPhaseRing(row).has_value(), "nothing is found or listed");
}

}  // namespace c23b
