// Replay/search harness support: runs concrete inputs through the real code of /repo and compares with an oracle.
// A child process does the work; the parent turns crashes, sanitizer reports and hangs into failing inputs.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <sstream>
#include <iomanip>
#include <functional>
#include <fstream>
#include <algorithm>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>

namespace vh {

struct Shared {
  volatile uint64_t beat;
  volatile uint64_t evals;
  volatile uint64_t nontrivial;
  volatile int nfail;
  char cur[1 << 16];
  char key[256];
};
static Shared* S = nullptr;
static std::vector<double> pool;
static uint64_t rngs = 1;
static std::string outPath;
static std::set<std::string> seenKeys;
static std::vector<std::string> samples;
static std::set<uint64_t> distinctHash;

inline uint64_t rnd() { // splitmix64
  uint64_t z = (rngs += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline double u01() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }
inline int irange(int lo, int hi) { return lo + (int)(rnd() % (uint64_t)(hi - lo + 1)); }
inline bool chance(double p) { return u01() < p; }
// real in [lo,hi]: uniform, grid, end points, or a value taken from the verifier's counterexample
inline double real(double lo, double hi) {
  int k = irange(0, 9);
  if (!pool.empty() && k <= 2) {
    double v = pool[rnd() % pool.size()];
    if (v >= lo && v <= hi) return v;
  }
  if (k == 3) return chance(0.5) ? lo : hi;
  if (k == 4) { double v = std::floor(lo + u01() * (hi - lo)); return v < lo ? lo : v; }
  if (k == 5) { double v = std::floor((lo + u01() * (hi - lo)) * 10) / 10; return v < lo ? lo : v; }
  return lo + u01() * (hi - lo);
}
template <class T> const T& pick(const std::vector<T>& v) { return v[rnd() % v.size()]; }

inline std::string num(double v) { std::ostringstream o; o << std::setprecision(17) << v; return o.str(); }

// describe the case about to run (also used when it crashes)
inline void begin(const char* key, const std::string& text) {
  S->beat = S->beat + 1;
  strncpy((char*)S->key, key, 255);
  strncpy((char*)S->cur, text.c_str(), sizeof(S->cur) - 1);
  S->evals = S->evals + 1;
}
inline void nontrivial(uint64_t h) {
  if (distinctHash.size() < 2000000 && distinctHash.insert(h).second) S->nontrivial = S->nontrivial + 1;
}
inline uint64_t hashText(const std::string& s) { uint64_t h = 1469598103934665603ull; for (char c : s) { h ^= (unsigned char)c; h *= 1099511628211ull; } return h; }
// begin + count as a distinct non-trivial input
inline void input(const char* key, const std::string& text) {
  begin(key, text);
  nontrivial(hashText(text));
  if (samples.size() < 4 && S->evals % 7 == 1) {
    samples.push_back(std::string(key) + ": " + text.substr(0, 300));
    std::ofstream f(outPath + ".samples", std::ios::app);
    f << key << ": " << text.substr(0, 300) << "\n";
  }
}
inline void fail(const std::string& key, const std::string& text) {
  if (!seenKeys.insert(key).second) return;
  std::ofstream f(outPath, std::ios::app);
  f << "FAIL " << key << "\n" << text << "\ninput: " << S->cur << "\nENDFAIL\n";
  f.flush();
  S->nfail = S->nfail + 1;
}
#define VH_CHECK(cond, key, msg) do { if (!(cond)) { std::ostringstream o_; o_ << std::setprecision(17) << msg; vh::fail(key, o_.str()); } } while (0)

inline bool near(double a, double b, double tol) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  return std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
}

static double startT = 0, budgetS = 10;
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
// rounds() bounds the search by a count (deterministic); the time budget only cuts it short on a slow machine
static uint64_t maxRounds = 0;
inline bool more(uint64_t i) { return i < maxRounds && now() - startT < budgetS && S->nfail < 12; }

typedef void (*Body)();
// usage: exe OUT SEED BUDGET_S ROUNDS [pool values...]
inline int run(int argc, char** argv, const std::vector<Body>& bodies) {
  if (argc < 5) { fprintf(stderr, "usage: OUT SEED BUDGET ROUNDS [pool]\n"); return 2; }
  outPath = argv[1];
  uint64_t seed = strtoull(argv[2], 0, 10);
  budgetS = atof(argv[3]);
  maxRounds = strtoull(argv[4], 0, 10);
  for (int i = 5; i < argc; ++i) pool.push_back(atof(argv[i]));
  S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  uint64_t evals = 0, nontriv = 0;
  int bad = 0;
  double per = budgetS / bodies.size();
  for (size_t b = 0; b < bodies.size(); ++b) {
    memset(S, 0, sizeof(Shared));
    fflush(0);
    pid_t pid = fork();
    if (pid == 0) {
      rngs = seed * 7919 + b * 104729 + 12345;
      startT = now();
      budgetS = per;
      bodies[b]();
      _exit(0);
    }
    uint64_t last = 0; double cpuLast = 0;
    clockid_t cid; bool haveClock = clock_getcpuclockid(pid, &cid) == 0;
    for (;;) {
      int st;
      pid_t r = waitpid(pid, &st, WNOHANG);
      if (r == pid) {
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
          std::ofstream f(outPath, std::ios::app);
          f << "FAIL crash:" << S->key << "\nthe process ended abnormally (" << (WIFSIGNALED(st) ? "signal " : "exit ")
            << (WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)) << ")\ninput: " << S->cur << "\nENDFAIL\n";
          bad++;
        }
        break;
      }
      timespec t{0, 20000000}; nanosleep(&t, 0);
      timespec c; double cpu = 0;
      if (haveClock && clock_gettime(cid, &c) == 0) cpu = c.tv_sec + c.tv_nsec * 1e-9;
      if (S->beat != last) { last = S->beat; cpuLast = cpu; }
      else if (cpu - cpuLast > 25.0) {
        kill(pid, SIGKILL); waitpid(pid, &st, 0);
        std::ofstream f(outPath, std::ios::app);
        f << "FAIL hang:" << S->key << "\nno result after 25 s of processor time\ninput: " << S->cur << "\nENDFAIL\n";
        bad++;
        break;
      }
    }
    evals += S->evals; nontriv += S->nontrivial; bad += S->nfail;
  }
  printf("evaluations=%llu distinct=%llu failures=%d\n", (unsigned long long)evals, (unsigned long long)nontriv, bad);
  return bad ? 1 : 0;
}
}
