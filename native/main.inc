#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <iostream>
#include <unistd.h>
namespace vc {
Ctx& ctx() { static Ctx c; return c; }
std::vector<std::shared_ptr<void>>& keep() { static std::vector<std::shared_ptr<void>> k; return k; }
std::vector<Proof>& proofs() { static std::vector<Proof> p; return p; }
}
static const char* g_name = "";
static uint64_t g_seed = 0;
static void report(const char* what) {
  std::string s = vc::ctx().log.str();
  std::printf("FAIL\t%s\t%llu\t%s\t%s\n", g_name, (unsigned long long)g_seed, what, s.c_str());
  std::fflush(stdout);
}
static void on_signal(int sig) {
  char b[64];
  std::snprintf(b, sizeof b, sig == SIGALRM ? "does not terminate" : "crash (signal %d)", sig);
  report(b);
  _exit(3);
}
int main(int argc, char** argv) {
  double seconds = 5;
  uint64_t seed = 1;
  bool one = false;
  std::vector<std::string> only;
  vc::Ctx& c = vc::ctx();
  c.reals = {0., 0., 1., 2., 3., 0.5, 0.25, 1.5, 4., 10., 1., 2., -1., 5., 0.125, 100.};
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--seconds") seconds = std::atof(argv[++i]);
    else if (a == "--seed") seed = std::strtoull(argv[++i], nullptr, 10);
    else if (a == "--once") { one = true; seed = std::strtoull(argv[++i], nullptr, 10); }
    else if (a == "--proof") only.push_back(argv[++i]);
    else if (a == "--reals") { std::stringstream ss(argv[++i]); std::string t; while (std::getline(ss, t, ',')) { double v = std::atof(t.c_str()); c.reals.push_back(v); c.reals.push_back(v * 0.5); c.reals.push_back(v + 0.5); c.reals.push_back(v - 0.5); } }
    else if (a == "--ints") { std::stringstream ss(argv[++i]); std::string t; while (std::getline(ss, t, ',')) { long v = std::atol(t.c_str()); for (long d = -1; d <= 1; ++d) c.ints.push_back(v + d); } }
  }
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGALRM, SIGBUS, SIGILL}) std::signal(s, on_signal);
  register_proofs();
  std::vector<vc::Proof> ps;
  for (auto& p : vc::proofs()) {
    bool ok = only.empty();
    for (auto& o : only) ok = ok || o == p.name;
    if (ok) ps.push_back(p);
  }
  std::vector<long> runs(ps.size()), skips(ps.size()), fails(ps.size()), checks(ps.size());
  const auto t0 = std::chrono::steady_clock::now();
  uint64_t n = 0;
  while (!ps.empty()) {
    const double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (dt > seconds && !one) break;
    for (size_t i = 0; i < ps.size(); ++i) {
      if (fails[i] >= 3) continue;
      g_name = ps[i].name;
      g_seed = one ? seed : seed * 1000003ull + n * 7919ull + 17;
      c.state = g_seed;
      c.log.str("");
      c.failures.clear();
      c.checks = 0;
      ++c.run;
      c.quiet = false;
      c.run_reals.clear();
      for (long k = c.pick(4) + 1; k > 0; --k) c.run_reals.push_back(c.reals[c.pick(c.reals.size())]);
      ::alarm(5);
      bool skipped = false;
      std::string exc;
      try { ps[i].run(); }
      catch (const vc::Skip&) { skipped = true; }
      catch (const std::exception& e) { exc = std::string("unexpected exception: ") + e.what(); }
      ::alarm(0);
      vc::keep().clear();
      ++runs[i];
      if (skipped && c.failures.empty()) { ++skips[i]; continue; }
      checks[i] += c.checks;
      if (!exc.empty()) c.failures.push_back(exc);
      if (!c.failures.empty()) { ++fails[i]; report(c.failures[0].c_str()); }
    }
    ++n;
    if (one) break;
  }
  for (size_t i = 0; i < ps.size(); ++i) std::printf("RUNS\t%s\t%ld\t%ld\t%ld\n", ps[i].name, runs[i], skips[i], checks[i]);
  return 0;
}
