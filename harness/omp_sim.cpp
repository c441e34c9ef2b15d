#include "omp_sim.h"
#include <cstdarg>
#include <cstdlib>
#include <malloc.h>
#include <new>
#include <sys/mman.h>
#include <vector>

namespace omp_sim {
constexpr int MAXT = 64;
constexpr size_t STACK = 512 * 1024;

struct Fiber {
  void *sp = nullptr;
  char *stack = nullptr;
  bool done = true, waiting = false;   // waiting: at the barrier
  const void *blocked_on = nullptr;    // lock this fiber waits for
  int tid = 0;
  unsigned singles = 0, loops = 0;     // work-sharing constructs met so far
  void (*fn)(void *) = nullptr; void *arg = nullptr;
};
struct Loop { long next, end, incr, chunk; int joined = 0; bool guided = false; };
struct Team {
  int n = 0, cur = -1;                 // cur: running fiber, -1: scheduler
  Fiber f[MAXT];
  unsigned singles = 0;
  std::vector<Loop> loops;
  void *copyprivate = nullptr;
};
static Team T;
static void *sched_sp;
static bool active = false;            // inside begin/end
static bool in_team = false;           // fibers are running
static Config cfg;
static Stats st;
static uint64_t rng;
static long countdown;

static uint64_t rnd() {
  uint64_t z = (rng += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static void reset_countdown() {
  countdown = cfg.policy == RUN_THROUGH ? (1l << 62) : cfg.policy == ROUND_ROBIN ? 1 : 1 + (long)(rnd() % (2 * cfg.mean - 1));
}

extern "C" void omp_sim_switch(void **from, void *to);
asm(R"(
.text
.globl omp_sim_switch
.type omp_sim_switch,@function
omp_sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size omp_sim_switch,.-omp_sim_switch
)");

static void to_scheduler() { Fiber &f = T.f[T.cur]; T.cur = -1; omp_sim_switch(&f.sp, sched_sp); }
static void entry() {
  Fiber &f = T.f[T.cur];
  f.fn(f.arg);
  f.done = true;
  to_scheduler();
  abort();
}

// ---- data races between two barriers
struct Sh { uint64_t gran; uint32_t gen; int writer; uint64_t readers; };
static std::vector<Sh> shadow;
static uint32_t gen = 1;
static void phase() { if (++gen == 0) { gen = 1; for (auto &s : shadow) s.gen = 0; } }
static void race_access(uint64_t a, int size, bool write) {
  if (!st.race.empty() || size < 4) return;
  for (uint64_t g = a >> 2; g <= (a + size - 1) >> 2; ++g) {
    size_t h = (size_t)(g * 0x9E3779B97F4A7C15ull >> 40) & (shadow.size() - 1), k = 0;
    for (; k < 64; ++k, h = (h + 1) & (shadow.size() - 1)) if (shadow[h].gen != gen || shadow[h].gran == g) break;
    if (k == 64) continue;               // table crowded: skip
    Sh &s = shadow[h];
    if (s.gen != gen) s = {g, gen, -1, 0};
    uint64_t me = 1ull << T.cur;
    if (s.writer >= 0 && s.writer != T.cur) st.race = pbt::cat("threads ", s.writer, " and ", T.cur, write ? " both write" : " write and read", " one location between two barriers");
    else if (write && (s.readers & ~me)) st.race = pbt::cat("thread ", T.cur, " writes a location another thread reads between the same barriers");
    if (write) s.writer = T.cur; else s.readers |= me;
  }
}
static void forget(void *p, size_t n) { // memory that is handed out again carries no history
  if (!in_team || !cfg.races || T.cur < 0 || n > (1u << 20)) return;
  for (uint64_t g = (uint64_t)p >> 2; g <= ((uint64_t)p + n) >> 2; ++g) {
    size_t h = (size_t)(g * 0x9E3779B97F4A7C15ull >> 40) & (shadow.size() - 1);
    for (int k = 0; k < 64 && shadow[h].gen == gen; ++k, h = (h + 1) & (shadow.size() - 1))
      if (shadow[h].gran == g) { shadow[h].writer = -1; shadow[h].readers = 0; }
  }
}

static inline void access(void *a, int size, bool write) {
  if (!in_team || T.cur < 0) return;
  ++st.accesses;
  if (cfg.races) race_access((uint64_t)a, size, write);
  if (write && (uint64_t)a - (uint64_t)cfg.watch < cfg.watch_bytes) st.writers |= 1ull << T.cur;
  if (--countdown <= 0 && T.n > 1) { to_scheduler(); }
}

static void check_progress(bool any) {
  if (any) return;
  // every unfinished thread waits: some wait at a barrier others never reach
  fprintf(stderr, "\nERROR: AddressSanitizer: deadlock: threads of one team meet different barriers\n");
  _Exit(98);
}
static void run_team(void (*fn)(void *), void *arg, int n) {
  if (n > MAXT) n = MAXT;
  T.n = n; T.singles = 0; T.loops.clear();
  ++st.regions; if (n > st.max_team) st.max_team = n;
  for (int k = 0; k < n; ++k) {
    Fiber &f = T.f[k];
    if (!f.stack) {
      f.stack = (char *)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      mprotect(f.stack, 4096, PROT_NONE);
    }
    uint64_t *sp = (uint64_t *)(f.stack + STACK);
    *--sp = 0;                       // alignment: entry sees rsp = 16k+8
    *--sp = (uint64_t)(void *)entry; // return address of the first switch
    for (int r = 0; r < 6; ++r) *--sp = 0;
    f.sp = sp; f.done = f.waiting = false; f.blocked_on = nullptr; f.tid = k; f.singles = f.loops = 0; f.fn = fn; f.arg = arg;
  }
  in_team = true; phase();
  int last = -1;
  for (;;) {
    int alive = 0, at_barrier = 0, run[MAXT], nr = 0;
    for (int k = 0; k < n; ++k) {
      if (T.f[k].done) continue;
      ++alive;
      if (T.f[k].waiting) ++at_barrier; else if (!T.f[k].blocked_on) run[nr++] = k;
    }
    if (!alive) break;
    if (at_barrier == n) {
      for (int k = 0; k < n; ++k) T.f[k].waiting = false;
      phase();
      continue;
    }
    check_progress(nr > 0);
    int pick = run[0];
    if (cfg.policy == ROUND_ROBIN) { for (int k = 0; k < nr; ++k) if (run[k] > last) { pick = run[k]; break; } }
    else pick = run[rnd() % nr];
    if (pick != last) ++st.switches;
    last = pick;
    reset_countdown();
    T.cur = pick;
    omp_sim_switch(&sched_sp, T.f[pick].sp);
  }
  in_team = false; T.cur = -1; phase();
}
static void barrier() {
  if (!in_team || T.cur < 0) return;
  T.f[T.cur].waiting = true;
  to_scheduler();
}

std::string Config::str() const {
  return pbt::cat("threads=", threads, " schedule=", policy == RUN_THROUGH ? "run-through" : policy == ROUND_ROBIN ? "round-robin" : "random/", policy == RANDOM ? std::to_string(mean) : "", "#", seed);
}
void begin(const Config &c) {
  active = true; cfg = c; st = Stats(); rng = c.seed * 0x2545F4914F6CDD1Dull + 99;
  if (shadow.empty()) shadow.resize(1 << 15);
  reset_countdown();
}
Stats end() { active = false; Stats r = st; cfg = Config(); return r; }
Config gen_config(pbt::Src &s, pbt::Ctx &c, int max_threads) {
  Config k;
  k.threads = s.range(1, max_threads);
  switch (s.weighted({3, 2, 5})) {
  case 0: k.policy = RUN_THROUGH; c.label("schedule: threads run through"); break;
  case 1: k.policy = ROUND_ROBIN; c.label("schedule: round robin"); break;
  default: { static const int m[] = {2, 5, 20, 100}; k.policy = RANDOM; k.mean = m[s.draw(4)]; c.label("schedule: random"); }
  }
  k.seed = s.draw(1 << 20);
  c.label(k.threads > 1 ? "threads>1" : "one thread");
  return k;
}
} // namespace omp_sim
using namespace omp_sim;

// ---------------------------------------------------------------- GOMP and omp_ interface
typedef unsigned long long ull;
extern "C" {
void GOMP_parallel(void (*fn)(void *), void *data, unsigned num_threads, unsigned) {
  int n = num_threads ? (int)num_threads : cfg.threads;
  if (in_team) {               // nested region: one thread
    Team &t = T; int cur = t.cur; in_team = false; t.cur = -1;
    fn(data);
    in_team = true; t.cur = cur;
    return;
  }
  if (!active) { fn(data); return; }
  run_team(fn, data, n < 1 ? 1 : n);
}
void GOMP_barrier(void) { barrier(); }
bool GOMP_single_start(void) {
  if (!in_team) return true;
  Fiber &f = T.f[T.cur];
  if (f.singles++ == T.singles) { ++T.singles; return true; }
  return false;
}
void *GOMP_single_copy_start(void) { if (!in_team) return nullptr; if (GOMP_single_start()) return nullptr; barrier(); return T.copyprivate; }
void GOMP_single_copy_end(void *d) { if (!in_team) return; T.copyprivate = d; barrier(); }

static Loop *cur_loop() { return &T.loops[T.f[T.cur].loops - 1]; }
static Loop seq_loop;
static bool take(Loop &l, long *s, long *e) {
  long left = l.incr > 0 ? (l.end - l.next + l.incr - 1) / l.incr : (l.end - l.next + l.incr + 1) / l.incr;
  if (left <= 0) return false;
  long c = l.chunk;
  if (l.guided) { long q = (left + T.n - 1) / (T.n > 0 ? T.n : 1); if (q > c) c = q; }
  if (c > left) c = left;
  *s = l.next; *e = l.next + c * l.incr; l.next = *e;
  return true;
}
static bool loop_start(long s, long e, long incr, long chunk, bool guided, long *is, long *ie) {
  if (chunk < 1) chunk = 1;
  Loop l{s, e, incr, chunk, 0, guided};
  if (!in_team) { seq_loop = l; return take(seq_loop, is, ie); }
  Fiber &f = T.f[T.cur];
  if (f.loops++ == T.loops.size()) T.loops.push_back(l);
  access(&T, 8, false);
  return take(*cur_loop(), is, ie);
}
static bool loop_next(long *is, long *ie) {
  if (!in_team) return take(seq_loop, is, ie);
  if (cfg.policy != RUN_THROUGH || rnd() % 2) to_scheduler();
  return take(*cur_loop(), is, ie);
}
#define LOOP(name, guided) \
  bool GOMP_loop_##name##_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, guided, a, b); } \
  bool GOMP_loop_##name##_next(long *a, long *b) { return loop_next(a, b); } \
  void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned fl);
#define RLOOP(name) \
  bool GOMP_loop_##name##_start(long s, long e, long i, long *a, long *b) { return loop_start(s, e, i, 1, false, a, b); } \
  bool GOMP_loop_##name##_next(long *a, long *b) { return loop_next(a, b); }
LOOP(dynamic, false) LOOP(nonmonotonic_dynamic, false) LOOP(guided, true) LOOP(nonmonotonic_guided, true) LOOP(static, false)
RLOOP(runtime) RLOOP(nonmonotonic_runtime) RLOOP(maybe_nonmonotonic_runtime)
// unsigned long long iteration spaces
#define ULOOP(name, guided) \
  bool GOMP_loop_ull_##name##_start(bool, ull s, ull e, ull i, ull c, ull *a, ull *b) { return loop_start((long)s, (long)e, (long)i, (long)c, guided, (long *)a, (long *)b); } \
  bool GOMP_loop_ull_##name##_next(ull *a, ull *b) { return loop_next((long *)a, (long *)b); }
#define URLOOP(name) \
  bool GOMP_loop_ull_##name##_start(bool, ull s, ull e, ull i, ull *a, ull *b) { return loop_start((long)s, (long)e, (long)i, 1, false, (long *)a, (long *)b); } \
  bool GOMP_loop_ull_##name##_next(ull *a, ull *b) { return loop_next((long *)a, (long *)b); }
ULOOP(dynamic, false) ULOOP(nonmonotonic_dynamic, false) ULOOP(guided, true) ULOOP(nonmonotonic_guided, true) ULOOP(static, false)
URLOOP(runtime) URLOOP(nonmonotonic_runtime) URLOOP(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { barrier(); }
void GOMP_loop_end_nowait(void) {}
// combined parallel loops: the work share exists before the threads start
static void par_loop(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, long c, bool guided) {
  if (c < 1) c = 1;
  if (!active || in_team) {
    struct R { bool it; int cur; ~R() { in_team = it; T.cur = cur; } } r{in_team, T.cur};
    in_team = false; T.cur = -1; seq_loop = Loop{s, e, i, c, 0, false};
    fn(d);
    return;
  }
  static Loop pre; pre = Loop{s, e, i, c, 0, guided};
  struct P { void (*fn)(void *); void *d; } p{fn, d};
  run_team([](void *v) {
    P *p = (P *)v; Fiber &f = T.f[T.cur];
    if (f.loops++ == T.loops.size()) T.loops.push_back(pre);
    p->fn(p->d);
  }, &p, nt ? (int)nt : (cfg.threads < 1 ? 1 : cfg.threads));
}
#define PLOOP(name, guided) void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) { par_loop(fn, d, n, s, e, i, c, guided); }
PLOOP(dynamic, false) PLOOP(nonmonotonic_dynamic, false) PLOOP(guided, true) PLOOP(nonmonotonic_guided, true) PLOOP(static, false)
#define PRLOOP(name) void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned) { par_loop(fn, d, n, s, e, i, 1, false); }
PRLOOP(runtime) PRLOOP(nonmonotonic_runtime) PRLOOP(maybe_nonmonotonic_runtime)

// locks: one holder each
struct Lock { const void *key; bool held; };
static std::vector<Lock> locks;
static void lock(const void *k) {
  if (!in_team) return;
  for (;;) {
    Lock *l = nullptr;
    for (auto &x : locks) if (x.key == k) l = &x;
    if (!l) { locks.push_back({k, true}); return; }
    if (!l->held) { l->held = true; return; }
    T.f[T.cur].blocked_on = k;
    to_scheduler();
  }
}
static void unlock(const void *k) {
  if (!in_team) return;
  for (auto &x : locks) if (x.key == k) x.held = false;
  for (int t = 0; t < T.n; ++t) if (T.f[t].blocked_on == k) T.f[t].blocked_on = nullptr;
}
static char crit_key, atomic_key;
void GOMP_critical_start(void) { lock(&crit_key); }
void GOMP_critical_end(void) { unlock(&crit_key); }
void GOMP_critical_name_start(void **p) { lock(p); }
void GOMP_critical_name_end(void **p) { unlock(p); }
void GOMP_atomic_start(void) { lock(&atomic_key); }
void GOMP_atomic_end(void) { unlock(&atomic_key); }
void omp_init_lock(void *) {} void omp_destroy_lock(void *) {}
void omp_set_lock(void *l) { lock(l); } void omp_unset_lock(void *l) { unlock(l); }
// tasks run where they are created
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool, unsigned, void **, int, void *) {
  if (!cpy) { fn(data); return; }
  std::vector<char> buf(size + align); char *a = (char *)(((uintptr_t)buf.data() + align - 1) & ~(uintptr_t)(align - 1));
  cpy(a, data); fn(a);
}
void GOMP_taskwait(void) {} void GOMP_taskyield(void) { if (in_team) to_scheduler(); } void GOMP_taskgroup_start(void) {} void GOMP_taskgroup_end(void) {}
void GOMP_ordered_start(void) {} void GOMP_ordered_end(void) {}
static bool sect_take(long n, unsigned *r) { (void)n; long a, b; if (!loop_next(&a, &b)) { *r = 0; return false; } *r = (unsigned)a; return true; }
unsigned GOMP_sections_start(unsigned n) { long a, b; return loop_start(1, (long)n + 1, 1, 1, false, &a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_next(void) { unsigned r; sect_take(0, &r); return r; }
void GOMP_sections_end(void) { barrier(); } void GOMP_sections_end_nowait(void) {}
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned c, unsigned) { par_loop(fn, d, n, 1, (long)c + 1, 1, 1, false); }

int omp_get_thread_num(void) { return in_team && T.cur >= 0 ? T.cur : 0; }
int omp_get_num_threads(void) { return in_team && T.cur >= 0 ? T.n : 1; }
int omp_get_max_threads(void) { return cfg.threads; }
void omp_set_num_threads(int n) { if (n > 0) cfg.threads = n; }
int omp_get_num_procs(void) { return cfg.threads; }
int omp_get_thread_limit(void) { return MAXT; }
int omp_in_parallel(void) { return in_team && T.n > 1; }
int omp_get_level(void) { return in_team; }
void omp_set_dynamic(int) {} void omp_set_nested(int) {} int omp_get_dynamic(void) { return 0; }
void omp_set_schedule(int, int) {}
double omp_get_wtime(void) { static double t = 0; return t += 1e-3; }

// ---------------------------------------------------------------- instrumentation hooks
#define RW(n) \
  void __tsan_read##n(void *a) { access(a, n, false); } \
  void __tsan_write##n(void *a) { access(a, n, true); } \
  void __tsan_unaligned_read##n(void *a) { access(a, n, false); } \
  void __tsan_unaligned_write##n(void *a) { access(a, n, true); } \
  void __tsan_volatile_read##n(void *a) { access(a, n, false); } \
  void __tsan_volatile_write##n(void *a) { access(a, n, true); } \
  void __tsan_read##n##_pc(void *a, void *) { access(a, n, false); } \
  void __tsan_write##n##_pc(void *a, void *) { access(a, n, true); } \
  void __tsan_read_write##n(void *a) { access(a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init(void) {} void __tsan_func_entry(void *) {} void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **, void *) {} void __tsan_vptr_read(void **) {}
void __tsan_read_range(void *a, unsigned long n) { access(a, n > 1u << 16 ? 1 << 16 : (int)n, false); }
void __tsan_write_range(void *a, unsigned long n) { access(a, n > 1u << 16 ? 1 << 16 : (int)n, true); }
#define ATOMIC(bits, T_) \
  T_ __tsan_atomic##bits##_load(const volatile T_ *a, int) { access((void *)a, 1, false); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##bits##_store(volatile T_ *a, T_ v, int) { access((void *)a, 1, false); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T_ __tsan_atomic##bits##_exchange(volatile T_ *a, T_ v, int) { access((void *)a, 1, false); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T_ __tsan_atomic##bits##_fetch_add(volatile T_ *a, T_ v, int) { access((void *)a, 1, false); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T_ __tsan_atomic##bits##_fetch_sub(volatile T_ *a, T_ v, int) { access((void *)a, 1, false); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T_ __tsan_atomic##bits##_fetch_and(volatile T_ *a, T_ v, int) { access((void *)a, 1, false); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T_ __tsan_atomic##bits##_fetch_or(volatile T_ *a, T_ v, int) { access((void *)a, 1, false); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T_ __tsan_atomic##bits##_fetch_xor(volatile T_ *a, T_ v, int) { access((void *)a, 1, false); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T_ *a, T_ *c, T_ v, int, int) { access((void *)a, 1, false); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T_ *a, T_ *c, T_ v, int, int) { access((void *)a, 1, false); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T_ __tsan_atomic##bits##_compare_exchange_val(volatile T_ *a, T_ c, T_ v, int, int) { access((void *)a, 1, false); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) { access(nullptr, 1, false); }
void __tsan_atomic_signal_fence(int) {}
}

// fresh memory is never zero
static int perturbed = mallopt(M_PERTURB, 0x41);
// memory handed out again within a region carries no access history
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); forget(p, n); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
