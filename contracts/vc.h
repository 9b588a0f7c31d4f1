// Specification vocabulary of the contract files.  The verifier gives every function below its logical meaning and never
// executes the bodies; they exist so that the contract files are ordinary, compilable C++.
#pragma once
#ifdef VC_NATIVE
#include "../native/vc.h"
#else
#include <cstddef>

namespace vc {

// Precondition of the proof: only states satisfying c are considered from here on.
inline void assume(bool c) { (void)c; }
// Assumed fact about a library function (listed in the evidence as an assumption).
inline double opaque(double x) { return x; }
inline void axiom(bool c, const char* what) { (void)c; (void)what; }
// Proof obligation, reported under the given name.
inline void check(bool c, const char* name) { (void)c; (void)name; }
// Reachability: the named point must be reachable (guards against contradictory preconditions).
inline void cover(const char* name) { (void)name; }
// Quantifiers over integers lo <= i < hi.
template <class F> bool forall(long lo, long hi, F f) { (void)lo; (void)hi; (void)f; return true; }
template <class F> bool exists(long lo, long hi, F f) { (void)lo; (void)hi; (void)f; return true; }
// Quantifiers over all values of a type.
template <class T, class F> bool forall_v(F f) { (void)f; return true; }
template <class T, class F> bool exists_v(F f) { (void)f; return true; }
// Sum of f(i) for lo <= i < hi.
template <class F> double sum(long lo, long hi, F f) { (void)lo; (void)hi; (void)f; return 0.; }
// An arbitrary object (by reference); may be of a class that cannot be copied.
template <class T> T& any_ref() { static T* p = nullptr; return *p; }
// An arbitrary value of a type.
template <class T> T any() { return any_ref<T>(); }
// Runs f and tells whether it threw; its effects are kept.
template <class F> bool throws(F f) { (void)f; return false; }
// Identical values, member by member.
template <class T> bool same(const T& a, const T& b) { return &a == &b; }
inline bool implies(bool a, bool b) { return !a || b; }
// Equality and order of reals (natively: up to rounding).
inline bool eq(double a, double b) { return a == b; }
inline bool le(double a, double b) { return a <= b; }

}  // namespace vc

// A proof: an annotated function whose parameters stand for arbitrary values of their types.
#define VC_PROOF(id, title) [[clang::annotate("proof:" id ":" title)]]
// Boolean member functions describing a class invariant: assumed for every value, proved for every constructor and mutator.
#define VC_INV(cls) [[clang::annotate("inv:" cls)]]
#define VC_LOOP(fn) [[clang::annotate("loopinv:" fn)]]
#define VC_CONTRACT(fn) [[clang::annotate("contract:" fn)]]
#endif  // VC_NATIVE
