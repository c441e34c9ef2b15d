// libFuzzer driver: the fuzzer's bytes are the choice sequence of a sub-check.
// The running case lives in a file shared with run_check.py, which confirms and
// shrinks a failure with the ordinary harness.
#include "pbt.h"
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>

namespace pbt {
std::vector<Sub> &registry() { static std::vector<Sub> r; return r; }
std::vector<KnownDefect> &known_registry() { static std::vector<KnownDefect> r; return r; }
static std::string g_scratch = "/tmp";
std::string scratch_dir() { return g_scratch; }
}
using namespace pbt;
extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:exitcode=99:max_malloc_fill_size=1073741824:malloc_fill_byte=190:"
         "allocator_may_return_null=0:max_allocation_size_mb=2048:symbolize=1:fast_unwind_on_malloc=1:"
         "malloc_context_size=3:detect_odr_violation=0:quarantine_size_mb=16";
}
struct Shared { int64_t evals, discards, nontrivial, running, full; Slot slot; };
static Shared *S;
static std::vector<size_t> subs;

extern "C" int LLVMFuzzerInitialize(int *, char ***) {
  const char *f = getenv("VERIF_FUZZ_SLOT"), *sc = getenv("VERIF_FUZZ_SCRATCH"), *only = getenv("VERIF_ONLY");
  if (!f || !sc) { fprintf(stderr, "VERIF_FUZZ_SLOT and VERIF_FUZZ_SCRATCH must be set\n"); _exit(3); }
  int fd = open(f, O_RDWR | O_CREAT, 0600);
  if (fd < 0 || ftruncate(fd, sizeof(Shared))) _exit(3);
  S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  close(fd);
  g_scratch = sc;
  for (size_t k = 0; k < registry().size(); ++k) if (!only || registry()[k].name.find(only) != std::string::npos) subs.push_back(k);
  return 0;
}
static long rss_mb() {
  long t = 0, r = 0;
  if (FILE *f = fopen("/proc/self/statm", "r")) { if (fscanf(f, "%ld %ld", &t, &r) != 2) r = 0; fclose(f); }
  return r * (sysconf(_SC_PAGESIZE) / 1024) / 1024;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
  if (size < 2) return -1;
  size_t k = subs[data[0] % subs.size()];
  S->slot.sub = (int)k; S->slot.n = 0; S->slot.failed = 0; S->slot.msg[0] = 0; S->slot.desc[0] = 0;
  S->running = 1;
  Src s; s.mode = Src::BYTES; s.data = data + 1; s.size = size - 1; s.slot = &S->slot;
  Ctx c; c.slot = &S->slot; c.tier = 1;
  int r = 0, fd = lowest_fd();
  try { registry()[k].fn(s, c); if (lowest_fd() != fd) throw Failure("a file is left open"); }
  catch (Discard &) { r = 2; }
  catch (std::exception &e) { snprintf(S->slot.msg, sizeof S->slot.msg, "%s", e.what()); r = 1; }
  catch (...) { snprintf(S->slot.msg, sizeof S->slot.msg, "unexpected exception of unknown type"); r = 1; }
  S->evals++;
  if (r == 1) { S->slot.failed = 1; abort(); }
  if (r == 2) S->discards++;
  else if (c.nontrivial) S->nontrivial++;
  S->running = 0;
  // the code under test leaks; start over before memory runs short
  if ((S->evals & 1023) == 0 && rss_mb() > 1500) { S->full = 1; _exit(0); }
  return r == 2 ? -1 : 0;
}
