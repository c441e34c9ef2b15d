// Small property-based testing engine.
//
// A property is a set of sub-checks. A sub-check is a function of a recorded
// choice sequence (Src): it draws a case, runs the code under test and calls
// an oracle. Shrinking and replay operate on the choice sequence, so every
// random decision of a case is inside it.
#pragma once
#include <fcntl.h>
#include <unistd.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

constexpr uint32_t MAX_CHOICES = 1u << 20;

// The lowest free descriptor: a case that changes it left a file open.
inline int lowest_fd() { int d = fcntl(0, F_DUPFD, 0); if (d >= 0) close(d); return d; }

struct Failure : std::runtime_error {
  using std::runtime_error::runtime_error;
};
// Thrown by a generator whose drawn case lies outside the domain.
struct Discard {};

// Shared memory image of the case being run (so that a parent process can see
// the choices of a case that crashed its worker).
struct Slot {
  volatile int32_t sub;
  volatile int64_t index;
  volatile uint32_t n;
  volatile int32_t failed;   // 1: oracle failure recorded in msg
  char msg[4096];
  char desc[32768];
  uint64_t choices[MAX_CHOICES];
};

struct Src {
  enum Mode { RANDOM, REPLAY, BYTES } mode = RANDOM;
  uint64_t st = 0;                  // RANDOM: splitmix state
  std::vector<uint64_t> pre;        // RANDOM: forced prefix; REPLAY: sequence
  size_t pos = 0;
  const uint8_t *data = nullptr;    // BYTES
  size_t size = 0, bpos = 0;
  Slot *slot = nullptr;
  uint64_t hash = 1469598103934665603ull;

  uint64_t rnd() {
    uint64_t z = (st += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  // uniform in [0, bound); bound>=1. 0 is the "simplest" value.
  uint64_t draw(uint64_t bound) {
    if (bound == 0) bound = 1;
    uint64_t v = 0;
    if (mode == RANDOM) {
      if (pos < pre.size()) v = pre[pos] % bound;
      else v = bound == 1 ? 0 : rnd() % bound;
    } else if (mode == REPLAY) {
      v = pos < pre.size() ? pre[pos] : 0;
      if (v >= bound) v = bound - 1;
    } else {
      uint64_t b = bound - 1;
      while (b) {
        v = (v << 8) | (bpos < size ? data[bpos] : 0);
        ++bpos;
        b >>= 8;
      }
      v %= bound;
    }
    ++pos;
    if (slot) {
      uint32_t k = slot->n;
      if (k < MAX_CHOICES) { slot->choices[k] = v; slot->n = k + 1; }
    }
    hash = (hash ^ (v + 0x9E37)) * 1099511628211ull;
    hash ^= hash >> 29;
    return v;
  }
  int range(int lo, int hi) {       // inclusive, simplest = lo
    if (hi <= lo) return lo;
    return lo + (int)draw((uint64_t)((int64_t)hi - lo + 1));
  }
  bool flip() { return draw(2) == 1; }
  bool chance(int num, int den) {   // true with probability num/den; simplest=false
    return (int)draw((uint64_t)den) >= den - num;
  }
  template <class T> const T &pick(const std::vector<T> &v) { return v[draw(v.size())]; }
  size_t weighted(std::initializer_list<int> w) {
    int tot = 0;
    for (int x : w) tot += x;
    int r = (int)draw(tot);
    size_t k = 0;
    for (int x : w) { if (r < x) return k; r -= x; ++k; }
    return 0;
  }
};

struct Ctx {
  int64_t index = 0;
  int tier = 0;                     // 0 quick, 1 thorough
  bool nontrivial = false;
  std::map<std::string, int> labels;
  std::ostringstream desc;          // human-readable rendering of the case
  Slot *slot = nullptr;
  void label(const std::string &s) { labels[s] = 1; }
  // Describe the case; visible to the parent process even if the case crashes.
  template <class... A> void show(A &&...a) {
    using x = int[];
    (void)x{0, ((desc << a), 0)...};
    if (slot) snprintf(slot->desc, sizeof slot->desc, "%s", desc.str().c_str());
  }
};

struct Sub {
  std::string name;
  std::string rule;                                  // when a case is non-trivial
  std::function<void(Src &, Ctx &)> fn;
  int64_t quick, thorough;                           // number of cases
  std::function<std::vector<uint64_t>(int64_t)> prefix; // forced choices of case i
  int big = 0;                                       // size limit of large cases, 0: ordinary sizes
};

// Size limit the generators use instead of their own while a large case runs.
inline int &big_mode() { static int b = 0; return b; }
// Runs a registered sub-check once more, as "<name>@big", on large cases.
struct BigReq { std::string name; int limit; int64_t quick, thorough; };
inline std::vector<BigReq> &big_requests() { static std::vector<BigReq> r; return r; }
struct Big { Big(std::string name, int limit, int64_t quick, int64_t thorough) { big_requests().push_back({name, limit, quick, thorough}); } };

std::vector<Sub> &registry();
struct Reg {
  Reg(std::string name, std::string rule, int64_t quick, int64_t thorough,
      std::function<void(Src &, Ctx &)> fn,
      std::function<std::vector<uint64_t>(int64_t)> prefix = nullptr) {
    registry().push_back({name, rule, fn, quick, thorough, prefix, 0});
  }
};

// A recorded defect (known_findings.txt): fn runs the listed failing call in a child
// process and throws or crashes as long as the defect is there.
struct KnownDefect { std::string name; std::function<void()> fn; };
std::vector<KnownDefect> &known_registry();
struct Known { Known(std::string name, std::function<void()> fn) { known_registry().push_back({name, fn}); } };

template <class... A> std::string cat(A &&...a) {
  std::ostringstream o;
  using x = int[];
  (void)x{0, ((o << a), 0)...};
  return o.str();
}
template <class V> std::string vec(const V &v) {
  std::ostringstream o;
  o.precision(17);
  o << "[";
  bool f = true;
  for (auto &x : v) { if (!f) o << ","; o << x; f = false; }
  o << "]";
  return o.str();
}
[[noreturn]] inline void fail(const std::string &m) { throw Failure(m); }
#define CHECK(cond, ...) do { if (!(cond)) ::pbt::fail(::pbt::cat(__VA_ARGS__)); } while (0)

std::string scratch_dir();          // private directory of this process

} // namespace pbt
