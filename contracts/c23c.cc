// sources: src/maliput/api/intersection.cc src/maliput/api/regions.cc
// native: src/maliput/api/*.cc src/maliput/api/rules/*.cc src/maliput/math/*.cc src/maliput/common/maliput_abort_and_throw.cc
// pure: maliput::api::Intersection::Includes maliput::api::LaneSRange::Intersects
#include <memory>
#include <vector>

#include "intersectiongens.h"
#include "maliput/base/intersection_book.cc"  // for its Impl
#include "vc.h"

using maliput::IntersectionBook;
using maliput::api::InertialPosition;
using maliput::api::Intersection;
using maliput::api::LaneSRange;
using maliput::api::RoadGeometry;
using maliput::api::rules::DiscreteValueRule;
using maliput::api::rules::RightOfWayRule;
using maliput::api::rules::TrafficLight;

#ifdef VC_NATIVE
namespace vc {
template <> struct Gen<IntersectionBook> {
  static std::shared_ptr<IntersectionBook> make() {
    auto p = std::make_shared<IntersectionBook>(&world().rg);
    for (const char* s : {"a", "b", "c"})
      if (coin()) p->AddIntersection(intersection(Intersection::Id(s)));
    return p;
  }
};
}  // namespace vc
#endif

namespace c23c {

using Base = maliput::api::IntersectionBook;
// What is found under an id has that id, and nothing null is listed.
bool Good(Base& b) {
  const std::vector<Intersection*> all = b.GetIntersections();
  return vc::forall_v<Intersection::Id>([&](const Intersection::Id& k) { return b.GetIntersection(k) == nullptr || b.GetIntersection(k)->id() == k; }) &&
         vc::forall(0, all.size(), [&](long i) { return all[i] != nullptr; });
}
bool Listed(const std::vector<Intersection*>& all, const Intersection* x) {
  return vc::exists(0, all.size(), [&](long i) { return all[i] == x; });
}

VC_PROOF("C23", "adding an intersection to a book")
void AddIntersection(IntersectionBook& book, std::unique_ptr<Intersection> x, const Intersection::Id& other) {
  vc::assume(book.impl_ != nullptr);
  Base& base = book;
  vc::assume(Good(base));
  Intersection* const p = x.get();
  const bool null = p == nullptr;
  const Intersection::Id id = null ? other : p->id();
  Intersection* const was = base.GetIntersection(other);
  const bool known = !null && base.GetIntersection(id) != nullptr;
  const bool threw = vc::throws([&]() { book.AddIntersection(std::move(x)); });
  vc::check(threw == (null || known), "throws exactly for no intersection or a known id");
  vc::check(threw || base.GetIntersection(id) == p, "what was added is found under its id");
  vc::check((!threw && other == id) || base.GetIntersection(other) == was, "every other id keeps its object, and a rejected one changes nothing");
  vc::check(Good(base), "what is found under an id has that id");
}

VC_PROOF("C23", "listing intersections")
void ListIntersections(IntersectionBook& book, const Intersection::Id& id) {
  vc::assume(book.impl_ != nullptr);
  Base& base = book;
  vc::assume(Good(base));
  const std::vector<Intersection*> all = base.GetIntersections();
  vc::check(base.GetIntersection(id) == nullptr || Listed(all, base.GetIntersection(id)), "everything added is listed");
  vc::check(vc::forall(0, all.size(), [&](long i) { return base.GetIntersection(all[i]->id()) == all[i]; }), "everything listed is found under its id");
  vc::check(vc::forall(0, all.size(), [&](long i) { return vc::forall(0, i, [&](long j) { return all[i] != all[j]; }); }), "nothing is listed twice");
}

VC_PROOF("C23", "a new intersection book is empty and needs a road geometry")
void NewIntersectionBook(const RoadGeometry* rg, const Intersection::Id& id) {
  vc::check(vc::throws([&]() { IntersectionBook book(rg); }) == (rg == nullptr), "throws exactly for no road geometry");
  if (rg == nullptr) return;
  IntersectionBook book(rg);
  Base& base = book;
  vc::check(base.GetIntersection(id) == nullptr && base.GetIntersections().empty(), "nothing is found or listed");
}

template <class Key>
void Find(IntersectionBook& book, const Key& key) {
  vc::assume(book.impl_ != nullptr);
  Base& base = book;
  vc::assume(Good(base));
  const std::vector<Intersection*> all = base.GetIntersections();
  Intersection* const found = base.FindIntersection(key);
  const bool some = vc::exists(0, all.size(), [&](long i) { return all[i]->Includes(key); });
  vc::check((found != nullptr) == some, "an intersection is found exactly when one includes it");
  vc::check(found == nullptr || (Listed(all, found) && found->Includes(key)), "what is found is in the book and includes it");
}
VC_PROOF("C23", "finding the intersection of a traffic light")
void FindByTrafficLight(IntersectionBook& book, const TrafficLight::Id& id) { Find(book, id); }
VC_PROOF("C23", "finding the intersection of a rule")
void FindByRule(IntersectionBook& book, const DiscreteValueRule::Id& id) { Find(book, id); }
VC_PROOF("C23", "finding the intersection of a right of way rule")
void FindByRightOfWayRule(IntersectionBook& book, const RightOfWayRule::Id& id) { Find(book, id); }
VC_PROOF("C23", "finding the intersection of a point")
void FindByPoint(IntersectionBook& book, const InertialPosition& p) {
  vc::assume(book.impl_ != nullptr);
  const RoadGeometry* const rg = book.impl_->road_geometry_;
  Base& base = book;
  vc::assume(Good(base));
  const std::vector<Intersection*> all = base.GetIntersections();
  Intersection* const found = base.FindIntersection(p);
  const bool some = vc::exists(0, all.size(), [&](long i) { return all[i]->Includes(p, rg); });
  vc::check((found != nullptr) == some, "an intersection is found exactly when one includes it");
  vc::check(found == nullptr || (Listed(all, found) && found->Includes(p, rg)), "what is found is in the book and includes it");
}

VC_PROOF("C23", "finding the intersections of a region")
void FindByRegion(IntersectionBook& book, const std::vector<LaneSRange>& region, double tolerance) {
  vc::assume(book.impl_ != nullptr && tolerance >= 0.);
  Base& base = book;
  vc::assume(Good(base));
  const std::vector<Intersection*> all = base.GetIntersections();
  const std::vector<Intersection*> found = book.FindIntersections(region, tolerance);
  auto meets = [&](const Intersection* x) {
    return vc::exists(0, x->region().size(), [&](long i) { return vc::exists(0, region.size(), [&](long j) { return x->region()[i].Intersects(region[j], tolerance); }); });
  };
  vc::check(vc::forall(0, found.size(), [&](long i) { return Listed(all, found[i]); }), "what is found is in the book");
  vc::check(vc::forall(0, found.size(), [&](long i) { return vc::exists(0, all.size(), [&](long k) { return all[k] == found[i] && meets(all[k]); }); }), "what is found meets the region");
  vc::check(vc::forall(0, all.size(), [&](long i) { return !meets(all[i]) || Listed(found, all[i]); }), "everything that meets the region is found");
}

}  // namespace c23c
