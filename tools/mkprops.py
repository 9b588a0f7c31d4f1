#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property statements)."""
import json, os
P = []
T0 = "The unit tests sample a handful of inputs; the statement quantifies over all of them."
def p(id, title, statement, text, files, mech, why=None, over=("inputs",), observe=None):
    d = dict(id=id, title=title, statement=" ".join(statement.split()),
             quantifier=dict(over=list(over), text=" ".join(text.split())),
             why_tests_cant=" ".join((why or T0).split()),
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    P.append(d)

p("C01", "Longitudinal s-range algebra is exact interval arithmetic",
  """An SRange never holds a negative bound: construction and mutation throw (leaving the object unchanged) instead, its size is |s1-s0| and it runs with s exactly when s1 > s0.
  With a tolerance t (a negative one with 2|t| larger than the smaller size throws) Intersects is true iff the two closed intervals [min,max], this one grown by t and cut at zero, share a point, and Contains is true iff both ends of the other range lie in the grown interval; for t >= 0 Intersects is symmetric and is implied by Contains.
  GetIntersection returns a value exactly when Intersects is true, and each of its ends is the other range's end when that lies strictly inside the grown interval and this range's own end otherwise.""",
  "all pairs of ranges with non-negative real bounds and all real tolerances",
  ["src/maliput/api/regions.cc", "include/maliput/api/regions.h"],
  [("SRange ctor/setters/size/WithS", "include/maliput/api/regions.h"), ("SRange::Intersects/Contains/GetIntersection", "src/maliput/api/regions.cc")])

p("C02", "Lane ranges and routes combine ids with interval algebra",
  """Two LaneSRanges intersect / contain / have an intersection exactly when they name the same lane and their s-ranges do, and the intersection keeps the lane id; a range on another lane never intersects and is never an error.
  Two LaneSRoutes intersect exactly when some range of one intersects some range of the other, whatever the order and however often a lane appears, and a route's length is the sum of the sizes of its ranges.""",
  "all lane ids, ranges, tolerances and routes of any length",
  ["src/maliput/api/regions.cc", "include/maliput/api/regions.h"],
  [("LaneSRange::Intersects/Contains/GetIntersection", "src/maliput/api/regions.cc"), ("LaneSRoute::Intersects/length", "src/maliput/api/regions.cc")])

p("C03", "Point inclusion and contiguity of lane ranges follow the road geometry",
  """IsIncluded is true iff some given LaneSRange's lane maps the inertial point to a lane position at distance at most the linear tolerance whose s is within that range up to the linear tolerance; it throws for a null geometry, an empty list or any unknown lane, whatever its place in the list.
  IsContiguous is true iff the end of the first range and the start of the second are closer than the linear tolerance and their orientations closer than the angular tolerance, and it throws for a null geometry or an unknown lane.""",
  "all road geometries (abstract Lane behaviour), all points and all lists of ranges",
  ["src/maliput/api/regions.cc"], [("IsIncluded", "src/maliput/api/regions.cc"), ("IsContiguous", "src/maliput/api/regions.cc")])

p("C04", "Id lookup returns exactly the registered object",
  """A BasicIdIndex returns, for every junction, segment, lane and branch point that was added, that very object under its own id, and null for every id never added; a new index holds nothing.
  Adding a second object with a known id throws and every id keeps its object, and additions of one kind leave the other kinds as they were.""",
  "all states of the index (any history of additions), all objects and all ids",
  ["src/maliput/api/basic_id_index.cc", "include/maliput/api/basic_id_index.h"],
  [("BasicIdIndex::AddLane/AddSegment/AddJunction/AddBranchPoint", "src/maliput/api/basic_id_index.cc"), ("BasicIdIndex::DoGet*", "src/maliput/api/basic_id_index.cc")],
  over=("inputs", "histories"))

p("C05", "Geometry hierarchy: attach once, consistent back pointers and indices",
  """Adding an unattached lane to a segment, an unattached segment to a junction or an unattached junction or branch point to a road geometry stores it at the next index, gives it that parent (and its index, for a lane) and makes it retrievable at that index; elements added earlier keep theirs. Adding nothing (null) throws and changes nothing; attaching to nothing, or attaching a second time, throws and the element keeps the parent and index it has.
  Asking for an index outside [0, count) throws. The lane at index i has the lane at i+1 to its left and the lane at i-1 to its right, null at the edges.
  A junction or branch point added to a road geometry, a segment added to such a junction and a lane added to such a segment are found by their id in the road geometry; segments and lanes that are already there when their parent is attached are reported to it in order, and the ones added later as they are added.""",
  "all histories of additions, all indices",
  ["src/maliput/geometry_base/lane.cc", "src/maliput/geometry_base/segment.cc", "src/maliput/geometry_base/junction.cc", "src/maliput/geometry_base/road_geometry.cc", "include/maliput/geometry_base/junction.h", "include/maliput/geometry_base/segment.h"],
  [("AttachTo*", "src/maliput/geometry_base/lane.cc"), ("AddLane/AddSegment", "include/maliput/geometry_base/segment.h")], over=("inputs", "histories"))

p("C06", "Branch point sides: confluent is my side, ongoing is the other side",
  """After a lane end is added to side A (B) of a branch point it is the last element of that side and not in the other, its confluent branches are that side and its ongoing branches the opposite one, as the lane itself answers too; every other lane end keeps its side, its place and its default. Adding no lane or an end already there throws and changes nothing, and adding an end that has a branch point throws.
  A default branch can only be set for a lane end of the branch point to a lane end of the opposite side, otherwise it throws and nothing changes; asking for the sides of a lane end that was not added throws, and the default branch query returns what was last set for that lane end and nothing for one never set.""",
  "all histories of AddABranch / AddBBranch / SetDefault and all lane ends",
  ["src/maliput/geometry_base/branch_point.cc"], [("BranchPoint", "src/maliput/geometry_base/branch_point.cc")], over=("inputs", "histories"))

p("C07", "Brute-force road position search is exhaustive and minimal",
  """FindRoadPositions returns exactly one result per lane of the geometry whose lane mapping of the point is within the radius, each carrying that lane's own result, and throws for a negative radius.
  ToRoadPosition returns the result of a lane of the geometry such that no other lane's result is closer under the closer-than order; with a hint, that is the hinted lane, its neighbours and its ongoing lanes when the hint lane already contains the point.""",
  "all road geometries (any number of lanes, abstract lane mappings), points, radii",
  ["src/maliput/geometry_base/brute_force_strategy.cc"], [("BruteForceStrategy", "src/maliput/geometry_base/brute_force_strategy.cc")])

p("C08", "Closer-than comparison of road position results is a consistent order",
  """The comparison that picks the better of two road-position results prefers the strictly smaller distance; when distances agree within 1e-12 it prefers a position inside its lane bounds, and when both or neither are inside it prefers the strictly smaller |r| (a position is inside its lane bounds when min <= r < max).
  It is irreflexive and asymmetric: two results are never both closer than each other; among results at one distance it is transitive, and so is its negation.""",
  "all results (any distances) on all lanes with any lane bounds", ["src/maliput/geometry_base/strategy_base.cc"], [("IsNewRoadPositionResultCloser", "src/maliput/geometry_base/strategy_base.cc")])

p("C10", "Axis-aligned box geometry is exact",
  """An axis-aligned box is only built from corners in order and a non-negative tolerance (anything else throws), keeps its corners, is centred between them and has the eight corner combinations as vertices.
  It contains a point iff every coordinate lies between the corners widened by the tolerance, contains another box iff it contains all of it, and two boxes intersect iff they share a point (touching counts, and the relation is symmetric).
  The intersection box of two boxes is present exactly when they intersect and is the set of common points, and the overlap classification says disjointed, contained or intersected in agreement with those relations.""",
  "all corner pairs, points and tolerances", ["src/maliput/math/axis_aligned_box.cc", "include/maliput/math/axis_aligned_box.h"],
  [("AxisAlignedBox", "src/maliput/math/axis_aligned_box.cc"), ("BoundingRegion::Overlaps", "include/maliput/math/bounding_region.h")])

p("C12", "Vector algebra satisfies the vector-space and product laws",
  """For 2-, 3- and 4-vectors sum, difference, scaling, dot product and equality are the component-wise definitions (compound forms included), the norm is the non-negative root of v.v, and normalization yields v divided by its norm, of norm one.
  The 3D cross product is linear in each factor, anti-commutative and orthogonal to both factors, and removing a component keeps the others in order.
  Access by index throws exactly out of range and reaches the indexed component, named components and unit vectors agree with the indices, and writing one component leaves the others as they were.""",
  "all real component values and indices", ["src/maliput/math/vector.cc", "include/maliput/math/vector.h"], [("VectorBase", "src/maliput/math/vector.cc"), ("Vector3::cross", "include/maliput/math/vector.h")])

p("C13", "Matrix algebra: product, transpose, determinant, cofactor, inverse agree",
  """For 2x2, 3x3 and 4x4 matrices the products with matrices and vectors, sum, difference, scaling, transpose, rows, columns and reductions are the textbook definitions, and access out of range throws.
  The determinant is the signed sum over permutations, the cofactor and adjoint matrices hold the signed minors, and a matrix is singular iff its determinant vanishes.
  The inverse is the adjoint divided by the determinant, and asking for the inverse of a singular matrix throws.""",
  "all real entries, N in {2,3,4}", ["src/maliput/math/matrix.cc", "include/maliput/math/matrix.h"], [("Matrix<N>", "src/maliput/math/matrix.cc")])

p("C14", "Quaternion algebra represents rotations faithfully",
  """The quaternion product is Hamilton's (norms multiply), conjugate, norm, normalization and inverse satisfy q * q^-1 = 1 for non-vanishing q, and rotating a vector by a unit quaternion equals multiplying it by the quaternion's matrix, which is a proper rotation, preserves lengths and composes with the product.
  A unit quaternion converted to its matrix and back is the same quaternion up to sign, the one built from an axis and an angle has the cosine and the scaled axis of half the angle, and the one built from two vectors is unit and takes the direction of the first to that of the second, opposite vectors included.
  No angular distance separates a rotation from itself, and interpolation starts at the first rotation and ends at the second.""",
  "all real components (vectors and quaternions of non-negligible length where one is normalized)", ["src/maliput/math/quaternion.cc", "include/maliput/math/quaternion.h"], [("Quaternion", "src/maliput/math/quaternion.cc")])

p("C15", "Roll-pitch-yaw, matrix, quaternion and Rotation describe the same rotation",
  """A roll-pitch-yaw triple keeps its angles, its matrix is Rz(yaw) Ry(pitch) Rx(roll), a proper rotation, its quaternion's matrix is that same matrix, and the derivative matrix is the derivative of it along the given angular rates.
  The angles taken from a unit quaternion give back the same rotation, with roll and yaw within half a turn, away from vertical pitch.
  A Rotation applies its matrix, its distance to another is non-negative, symmetric and zero to itself, and reversing it flips its forward and left axes.""",
  "all real angles, rates and unit quaternions", ["src/maliput/math/roll_pitch_yaw.cc", "include/maliput/api/lane_data.h", "src/maliput/api/lane_data.cc"], [("RollPitchYaw", "src/maliput/math/roll_pitch_yaw.cc"), ("Rotation", "src/maliput/api/lane_data.cc")])

p("C16", "Range validation and saturation keep values inside their interval",
  """A range validator is rejected exactly when its tolerance is not positive, its epsilon (relative ones scaled by the range) is not in [0, tolerance], or the range is narrower than epsilon.
  It throws exactly for values further than the tolerance outside the range and otherwise returns the value itself inside the range shrunk by epsilon on each side, and the nearest end of that inner range elsewhere.
  Saturating returns the value between the bounds and the nearest bound otherwise, and throws exactly when the bounds are inverted; doing either twice changes nothing.""",
  "all bounds, tolerances, epsilons (twice epsilon fitting in the range) and values", ["src/maliput/common/range_validator.cc", "src/maliput/math/saturate.cc"], [("RangeValidator", "src/maliput/common/range_validator.cc"), ("saturate", "src/maliput/math/saturate.cc")])

p("C17", "Rules only carry states their type allows",
  """A discrete or range value rule is constructed exactly from a non-empty list of distinct states with non-negative severities, related groups that are named and hold distinct entries, and (for ranges) min not above max; it then has the id, type and states given, and otherwise construction throws.
  A registry accepts a rule type exactly when its id is not yet registered (as either kind) and its values are non-empty and distinct, keeps the values given, returns them for that id and nothing for an unknown one; a registration, accepted or rejected, changes no other entry.
  A registry builds a rule exactly when its type is registered for that kind, each state is among the registered ones (severity and value; severity, min, max and description), and the rule is valid.""",
  "all rules, states, registries and registration histories", ["src/maliput/api/rules/rule.cc", "src/maliput/api/rules/discrete_value_rule.cc", "src/maliput/api/rules/range_value_rule.cc", "src/maliput/api/rules/rule_registry.cc"],
  [("RuleRegistry", "src/maliput/api/rules/rule_registry.cc"), ("rule constructors", "src/maliput/api/rules/range_value_rule.cc")], over=("inputs", "histories"))

p("C18", "Rule state equality is an equivalence that sees every field",
  """Two rule states compare equal iff severity, related rules and related unique ids are the same and, for discrete values, the value string and, for ranges, description, min and max are the same; != is its negation.
  Equality is reflexive, symmetric and transitive.""",
  "all pairs and triples of states", ["src/maliput/api/rules/rule.cc", "include/maliput/api/rules/rule.h"], [("Rule::State::operator==", "src/maliput/api/rules/rule.cc")])

p("C19", "A phase ring is closed: uniform coverage and consistent next phases",
  """A PhaseRing is constructed exactly from at least one phase, with distinct phase ids, all phases covering the same right-of-way rules, discrete value rules and bulbs (or none defining bulbs), and, when next phases are given, entries for exactly its phases that name only its phases; otherwise construction throws.
  The ring then holds exactly the phases given, with the next phases given or none; looking up a phase id returns that phase or nothing.""",
  "all lists of phases and next-phase maps", ["src/maliput/api/rules/phase_ring.cc"], [("PhaseRing", "src/maliput/api/rules/phase_ring.cc")])

p("C20", "Manual state providers return what was last set and reject the invalid",
  """SetState of the discrete and range value rule providers throws exactly for a rule unknown to the rulebook, a state or next state not among the rule's states, a duration that is not positive, or a duration without a next state; otherwise GetState of that rule returns exactly that state, next state and duration until it is set again.
  The phase provider's AddPhaseRing (SetPhase) throws exactly for a ring already known (unknown) or a duration without a next phase, and otherwise GetPhase returns exactly the phase, next phase and duration given (that they belong to the ring is not validated); the right-of-way provider's AddState (SetState) likewise for a known (unknown) rule.
  A call leaves every other entry unchanged, and a rejected call changes nothing; a query for an id never set returns nothing, as does every query of a new provider.
  Asking the state of a rule type at a road position returns a state exactly when a rule of that type applies there, namely the state of such a rule; it throws for a negative tolerance.""",
  "all histories of calls", ["src/maliput/base/manual_discrete_value_rule_state_provider.cc", "src/maliput/base/manual_range_value_rule_state_provider.cc", "src/maliput/base/manual_phase_provider.cc", "src/maliput/base/manual_right_of_way_rule_state_provider.cc"],
  [("SetState/GetState", "src/maliput/base/manual_discrete_value_rule_state_provider.cc"), ("ManualPhaseProvider", "src/maliput/base/manual_phase_provider.cc")], over=("inputs", "histories"))

p("C22", "The rulebook finds exactly the rules whose zone intersects",
  """After any sequence of additions and removals a rulebook returns exactly the rules added and not removed, by id and in the full listing; re-adding a known id or removing or getting an unknown one throws and changes nothing.
  FindRules over lane ranges returns exactly the rules whose zone (or controlled zone, or lane) intersects one of the ranges up to the tolerance, and throws for a negative tolerance.""",
  "all histories of rules, all ranges and tolerances", ["src/maliput/base/manual_rulebook.cc"], [("ManualRulebook::Impl", "src/maliput/base/manual_rulebook.cc")], over=("inputs", "histories"))

p("C23", "Books of traffic lights, intersections and phase rings are exact maps",
  """Each book returns under an id exactly the object added under it (null or nothing for any other), lists exactly the added objects, each once, and starts empty; adding throws exactly for a duplicate id, a null object or, for phase rings, a rule that is part of another ring, removing a phase ring exactly for an unknown id, and a rejected call changes nothing.
  A rule is found in a phase ring exactly when a ring in the book covers it, and then in that ring.
  Searching an intersection by traffic light, rule or point returns a stored intersection that includes it whenever one exists and nothing otherwise; searching by lane ranges returns exactly the stored intersections with a range that intersects one of them up to the tolerance. An intersection includes exactly the traffic lights and rules its current phase has states for.""",
  "all histories of additions and removals, all ids, phases, points and regions", ["src/maliput/base/traffic_light_book.cc", "src/maliput/base/intersection_book.cc", "src/maliput/base/manual_phase_ring_book.cc", "src/maliput/api/intersection.cc"],
  [("TrafficLightBook", "src/maliput/base/traffic_light_book.cc"), ("IntersectionBook", "src/maliput/base/intersection_book.cc"), ("ManualPhaseRingBook", "src/maliput/base/manual_phase_ring_book.cc")], over=("inputs", "histories"))

p("C25", "Lane sequences are simple connected paths from start to end",
  """Every lane sequence found starts at the start lane, ends at the end lane, has no repeated lane, links consecutive lanes through a common branch point's ongoing set, and stays within the length bound.
  With U-turn removal no sequence leaves a lane through the end it entered.""",
  "all road networks and bounds", ["src/maliput/routing/find_lane_sequences.cc"], [("FindLaneSequences", "src/maliput/routing/find_lane_sequences.cc")])

p("C28", "Routing phases validate and locate positions within their lane ranges",
  """A routing Phase is only constructed when its index and tolerance are non-negative, its lists non-empty, every lane range inside its lane, consecutive ranges adjacent and every start and end position within one of its ranges.
  Finding a position in a phase returns a valid range index whose lane produced the returned position.""",
  "all phases and positions", ["src/maliput/routing/phase.cc"], [("Phase", "src/maliput/routing/phase.cc")])

p("C32", "Lane containment and bounds respect tolerance and order",
  """A lane contains a position iff s, r and h each lie within the lane's length, the segment bounds at s and the elevation bounds at (s, r), widened by the linear tolerance.
  Lateral and elevation bounds always hold zero: construction and mutation with a positive minimum or a negative maximum throw and leave the object unchanged, and anything else is kept as given.""",
  "all lanes (abstract behaviour), positions and bounds", ["src/maliput/api/lane.cc", "include/maliput/api/lane_data.h"], [("Lane::Contains", "src/maliput/api/lane.cc"), ("RBounds/HBounds", "include/maliput/api/lane_data.h")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for d in P: f.write(json.dumps(d) + "\n")
    print(len(P), "properties")
