// Native meaning of the specification vocabulary: the same contract files, compiled and run against the real library on
// generated inputs.  Used to replay what the verifier reports, and as a cross-check of the verifier's model of C++.
#pragma once
#include <array>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <exception>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#define VC_NATIVE_RUN 1

namespace vc {

struct Skip {};

struct Ctx {
  uint64_t state{1};
  std::vector<double> reals;
  std::vector<double> run_reals;
  std::vector<long> ints;
  std::vector<std::string> failures;
  std::ostringstream log;
  long checks{0};
  int depth{0};
  bool quiet{false};
  uint64_t run{0};
  uint64_t next() {
    state += 0x9e3779b97f4a7c15ull;
    uint64_t z = state;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  long pick(long n) { return n <= 1 ? 0 : static_cast<long>(next() % static_cast<uint64_t>(n)); }
};
Ctx& ctx();

inline void assume(bool c) {
  if (!c) throw Skip{};
}
inline void check(bool c, const char* name) {
  ++ctx().checks;
  if (!c) ctx().failures.push_back(name);
}
inline double opaque(double x) { return x; }
inline void axiom(bool c, const char* name) {
  if (!c) ctx().failures.push_back(std::string("assumed fact does not hold: ") + name);
}
inline void cover(const char*) {}
template <class F> bool forall(long lo, long hi, F f) {
  for (long i = lo; i < hi; ++i) {
    if (!f(i)) return false;
  }
  return true;
}
template <class F> bool exists(long lo, long hi, F f) {
  for (long i = lo; i < hi; ++i) {
    if (f(i)) return true;
  }
  return false;
}
template <class F> double sum(long lo, long hi, F f) {
  double r = 0.;
  for (long i = lo; i < hi; ++i) r += f(i);
  return r;
}

inline bool coin(long n = 2) { return ctx().pick(n) == 0; }
inline double real() {
  Ctx& c = ctx();
  double v;
  if (!c.run_reals.empty() && !coin(3)) v = c.run_reals[c.pick(c.run_reals.size())];
  else v = c.reals[c.pick(c.reals.size())];
  if (coin(12)) v = -v;
  if (coin(12)) v = v + 1.;
  if (!c.quiet) c.log << " " << v;
  return v;
}
inline long integer(long lo, long hi) {  // [lo, hi]
  long v = lo + ctx().pick(hi - lo + 1);
  if (!ctx().quiet) ctx().log << " " << v;
  return v;
}

// Generator of values of a type; contract files specialize it for their classes.
template <class T, class Enable = void> struct Gen;
template <class T> using Made = decltype(Gen<T>::make());
template <class T> T& deref(T& t) { return t; }
template <class T> T& deref(std::unique_ptr<T>& t) { return *t; }
template <class T> T& deref(std::shared_ptr<T>& t) { return *t; }

template <> struct Gen<bool> { static bool make() { return integer(0, 1); } };
template <> struct Gen<double> { static double make() { return real(); } };
template <> struct Gen<std::string> {
  static std::string make() {
    static const char* n[] = {"a", "b", "c", "d", ""};
    std::string s = n[ctx().pick(coin(10) ? 5 : 3)];
    if (!ctx().quiet) ctx().log << " \"" << s << "\"";
    return s;
  }
};
template <class T> struct Gen<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> {
  static T make() {
    Ctx& c = ctx();
    if (!c.ints.empty() && coin(4)) {
      T v = static_cast<T>(c.ints[c.pick(c.ints.size())]);
      if (!c.quiet) c.log << " " << +v;
      return v;
    }
    if (std::is_signed_v<T> && coin(8)) return static_cast<T>(-integer(1, 2));
    return static_cast<T>(integer(0, 4));
  }
};
template <class T> struct EnumRange { static constexpr long lo = 0, hi = 3; };
template <class T> struct Gen<T, std::enable_if_t<std::is_enum_v<T>>> {
  static T make() { return static_cast<T>(integer(EnumRange<T>::lo, EnumRange<T>::hi)); }
};
inline long length() { return coin(6) ? integer(0, 4) : integer(0, 2); }
template <class T> struct Gen<std::vector<T>> {
  static std::vector<T> make() {
    std::vector<T> r;
    long n = length();
    if (!ctx().quiet) ctx().log << " [";
    for (long i = 0; i < n; ++i) {
      if (!r.empty() && std::is_copy_constructible_v<T> && coin(4)) {
        if constexpr (std::is_copy_constructible_v<T>) r.push_back(T(r[ctx().pick(r.size())]));
        if (!ctx().quiet) ctx().log << " (dup)";
      } else r.push_back(Gen<T>::make());
    }
    if (!ctx().quiet) ctx().log << " ]";
    return r;
  }
};
template <class T> struct Gen<std::optional<T>> {
  static std::optional<T> make() {
    if (integer(0, 2) == 0) return std::nullopt;
    return Gen<std::remove_const_t<T>>::make();
  }
};
template <class A, class B2> struct Gen<std::pair<A, B2>> {
  static std::pair<A, B2> make() { auto a = Gen<A>::make(); return {std::move(a), Gen<B2>::make()}; }
};
template <class T, size_t N> struct Gen<std::array<T, N>> {
  static std::array<T, N> make() { std::array<T, N> r; for (auto& x : r) x = Gen<T>::make(); return r; }
};
template <class... A> struct Gen<std::variant<A...>> {
  static std::variant<A...> make() {
    using V = std::variant<A...>;
    std::vector<std::function<V()>> fs{[]() { return V(Gen<A>::make()); }...};
    return fs[ctx().pick(fs.size())]();
  }
};
template <class M> M gen_map() {
  M m;
  long n = length();
  if (!ctx().quiet) ctx().log << " {";
  for (long i = 0; i < n; ++i) {
    auto k = Gen<std::decay_t<typename M::key_type>>::make();
    m.emplace(std::move(k), Gen<typename M::mapped_type>::make());
  }
  if (!ctx().quiet) ctx().log << " }";
  return m;
}
template <class M> M gen_set() {
  M m;
  long n = length();
  if (!ctx().quiet) ctx().log << " {";
  for (long i = 0; i < n; ++i) m.insert(Gen<typename M::key_type>::make());
  if (!ctx().quiet) ctx().log << " }";
  return m;
}
template <class... A> struct Gen<std::map<A...>> { static auto make() { return gen_map<std::map<A...>>(); } };
template <class... A> struct Gen<std::unordered_map<A...>> { static auto make() { return gen_map<std::unordered_map<A...>>(); } };
template <class... A> struct Gen<std::set<A...>> { static auto make() { return gen_set<std::set<A...>>(); } };
template <class... A> struct Gen<std::unordered_set<A...>> { static auto make() { return gen_set<std::unordered_set<A...>>(); } };
// Class values whose construction may be rejected: retried, then the run is skipped.
template <class F> auto retry(F f) {
  for (int i = 0; i < 20; ++i) {
    try { return f(); } catch (const std::exception&) {}
  }
  throw Skip{};
}

// Types of which the generators make few values: all of them.
template <class T> struct All { static constexpr bool known = false; };
template <> struct All<std::string> {
  static constexpr bool known = true;
  static std::vector<std::string> values() { return {"a", "b", "c", "d", ""}; }
};
template <class T, class F> bool forall_v(F f) {
  if constexpr (All<T>::known) {
    for (const auto& x : All<T>::values()) {
      if (!f(x)) return false;
    }
    return true;
  } else {
    const bool q = ctx().quiet;
    ctx().quiet = true;
    bool r = true;
    for (int i = 0; i < 12 && r; ++i) {
      try { auto x = Gen<T>::make(); r = f(deref(x)); } catch (const Skip&) {}
    }
    ctx().quiet = q;
    return r;
  }
}
template <class T, class F> bool exists_v(F f) {
  for (const auto& x : All<T>::values()) {
    if (f(x)) return true;
  }
  return false;
}
template <class T> T any() { return Gen<T>::make(); }
std::vector<std::shared_ptr<void>>& keep();
template <class T> T& any_ref() {
  using M = Made<T>;
  auto p = std::make_shared<M>(Gen<T>::make());
  keep().push_back(p);
  return deref(*p);
}
template <class F> bool throws(F f) {
  try { f(); } catch (const std::exception&) { return true; }
  return false;
}
template <class T> bool same(const T& a, const T& b) { return a == b; }
inline bool implies(bool a, bool b) { return !a || b; }
// Equality of reals: the verifier reads it as equality, natively up to rounding.
inline bool eq(double a, double b) {
  if (a == b) return true;
  return std::abs(a - b) <= 1e-9 * (1. + std::abs(a) + std::abs(b));
}
inline bool le(double a, double b) { return a <= b || eq(a, b); }

struct Proof { const char* name; std::function<void()> run; };
std::vector<Proof>& proofs();
template <class A, class M> decltype(auto) argument(M& m) {
  if constexpr (!std::is_reference_v<A> && std::is_same_v<A, M>) return std::move(m);
  else return deref(m);
}
template <class... A, class Tuple, size_t... I>
void call_with(void (*f)(A...), Tuple& t, std::index_sequence<I...>) { f(argument<A>(std::get<I>(t))...); }
template <class... A> std::function<void()> runner(void (*f)(A...)) {
  return [f]() {
    std::tuple<Made<std::remove_cv_t<std::remove_reference_t<A>>>...> t{
        (ctx().log << " |", Gen<std::remove_cv_t<std::remove_reference_t<A>>>::make())...};
    call_with(f, t, std::index_sequence_for<A...>{});
  };
}
}  // namespace vc

#define VC_PROOF(id, title) [[maybe_unused]]
#define VC_INV(cls) [[maybe_unused]]
#define VC_LOOP(fn) [[maybe_unused]]
#define VC_CONTRACT(fn) [[maybe_unused]]
