// Deterministic OpenMP runtime for the code under test.
//
// The repository's sources are compiled with g++ -fopenmp -fsanitize=thread and linked
// against this runtime instead of libgomp and libtsan: OpenMP threads become fibers of one
// system thread, and every instrumented memory access is a point where the runtime may
// switch to another fiber. Which switches happen follows from the seed alone, so a schedule
// is part of the case and replays exactly.
#pragma once
#include "pbt.h"
#include <cstddef>
#include <cstdint>
#include <string>

namespace omp_sim {
enum { RUN_THROUGH, ROUND_ROBIN, RANDOM };
struct Config {
  int threads = 1;             // threads of a parallel region without num_threads
  int policy = RUN_THROUGH;    // RUN_THROUGH: switch only where a thread waits
  int mean = 10;               // RANDOM: mean number of accesses between switches
  uint64_t seed = 0;
  bool races = false;          // report conflicting plain accesses
  const void *watch = nullptr; // memory whose writing threads are recorded
  size_t watch_bytes = 0;
  std::string str() const;
};
struct Stats { long regions = 0, switches = 0, accesses = 0; int max_team = 1; uint64_t writers = 0; std::string race; };
void begin(const Config &);    // from here to end() parallel regions run under this schedule
Stats end();
Config gen_config(pbt::Src &s, pbt::Ctx &c, int max_threads = 6);

struct Scope {                 // begin/end around one call
  Stats st; bool done = false;
  explicit Scope(const Config &c) { begin(c); }
  Stats finish() { if (!done) { st = end(); done = true; } return st; }
  ~Scope() { finish(); }
};
} // namespace omp_sim
