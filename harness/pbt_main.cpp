#include "pbt.h"
#include <atomic>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <algorithm>
#include <fstream>
#include <iostream>
#include <set>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace pbt {
std::vector<Sub> &registry() { static std::vector<Sub> r; return r; }
std::vector<KnownDefect> &known_registry() { static std::vector<KnownDefect> r; return r; }
static std::string g_scratch = "/tmp";
std::string scratch_dir() { return g_scratch; }
}
using namespace pbt;

#ifndef PBT_ASAN_OPTS
#define PBT_ASAN_OPTS ""
#endif
extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:exitcode=99:max_malloc_fill_size=1073741824:malloc_fill_byte=190:"
         "allocator_may_return_null=0:max_allocation_size_mb=2048:hard_rss_limit_mb=3500:"
         "handle_segv=1:handle_abort=1:handle_sigfpe=1:symbolize=1:fast_unwind_on_malloc=1:"
         "malloc_context_size=3:detect_odr_violation=0:quarantine_size_mb=16" PBT_ASAN_OPTS;
}
extern "C" const char *__ubsan_default_options() { return "halt_on_error=1:print_stacktrace=1:exitcode=99"; }

static double now() {
  timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}
static uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x632BE59BD9B4E019ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static uint64_t hstr(const std::string &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}

static Slot *new_slot() {
  void *p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  return (Slot *)p;
}

static int CASE_CPU_S = 30;   // set for each sub-check
static void case_limit(const Sub &q) { CASE_CPU_S = q.big >= 70000 ? 100 : 30; }
static void on_timeout(int) {
  const char m[] = "\nPBT-TIMEOUT\n";
  (void)!write(2, m, sizeof m - 1);
  _exit(97);
}
static void arm(int s) {
  itimerval it{}; it.it_value.tv_sec = s;
  setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

// Runs one case; returns 0 ok, 1 failed (slot->msg), 2 discarded
static int run_case(const Sub &sub, Src &src, Ctx &ctx, Slot *slot) {
  slot->n = 0; slot->failed = 0; slot->msg[0] = 0; slot->desc[0] = 0;
  src.slot = slot; ctx.slot = slot;
  int r = 0, fd = lowest_fd();
  big_mode() = sub.big;
  try { sub.fn(src, ctx); if (lowest_fd() != fd) throw Failure("a file is left open"); }
  catch (Discard &) { r = 2; }
  catch (Failure &f) { snprintf(slot->msg, sizeof slot->msg, "%s", f.what()); r = 1; }
  catch (std::exception &e) { snprintf(slot->msg, sizeof slot->msg, "unexpected exception: %s", e.what()); r = 1; }
  catch (...) { snprintf(slot->msg, sizeof slot->msg, "unexpected exception of unknown type"); r = 1; }
  slot->failed = r == 1;
  snprintf(slot->desc, sizeof slot->desc, "%s", ctx.desc.str().c_str());
  return r;
}

struct SubStats {
  int64_t evals = 0, discards = 0, nontrivial = 0;
  std::map<std::string, int64_t> labels;
  std::vector<std::string> samples;
};

static std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

struct Args {
  uint64_t seed = 1; int tier = 0, jobs = 8; double cap = 600; std::string out, replay, only, scratch; double scale = 1;
  int shrink_s = 60; int64_t one = -1;
} A;

static void worker_stdio(const std::string &errfile) {
  int dn = open("/dev/null", O_WRONLY);
  dup2(dn, 1);
  int e = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  dup2(e, 2);
  if (dn > 2) close(dn);
  if (e > 2) close(e);
}
static std::string crash_summary(const std::string &errfile, int status) {
  std::ifstream f(errfile);
  std::string l, s, first;
  int frames = 0;
  while (std::getline(f, l)) {
    if (l.find("PBT-TIMEOUT") != std::string::npos) return cat("no termination within ", CASE_CPU_S, " s of CPU time");
    if (l.find("ERROR: AddressSanitizer") != std::string::npos || l.find("runtime error:") != std::string::npos ||
        l.find("hard rss limit") != std::string::npos) { if (first.empty()) first = l; }
    else if (!first.empty() && frames < 6 && l.find("    #") == 0) { s += " |" + l.substr(4); ++frames; }
  }
  if (first.empty()) first = WIFSIGNALED(status) ? cat("killed by signal ", WTERMSIG(status)) : cat("process exit ", WEXITSTATUS(status));
  return "crash: " + first + s;
}

struct Found { int sub; int64_t index; std::string msg, desc; std::vector<uint64_t> ch; bool confirmed = false;
  int J = 1; std::vector<int64_t> hist; };

static void seed_src(Src &s, int subi, int64_t i) {
  s.st = mix(mix(A.seed, hstr(registry()[subi].name)), (uint64_t)i);
  if (registry()[subi].prefix) s.pre = registry()[subi].prefix(i);
}

// Run a choice sequence in a fresh child. true = failed.
static bool attempt(int subi, const std::vector<uint64_t> &ch, int cpu, std::string &msg, std::string &desc,
                    std::vector<uint64_t> *normal, Slot *slot) {
  std::string ef = g_scratch + "/attempt.err";
  slot->n = 0; slot->failed = 0; slot->msg[0] = slot->desc[0] = 0;
  pid_t p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    worker_stdio(ef);
    signal(SIGVTALRM, on_timeout);
    arm(cpu);
    Src s; s.mode = Src::REPLAY; s.pre = ch;
    Ctx c; c.tier = A.tier;
    int r = run_case(registry()[subi], s, c, slot);
    _exit(r == 1 ? 1 : 0);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
  if (bad) {
    if (WIFEXITED(st) && WEXITSTATUS(st) == 1 && slot->failed) msg = slot->msg;
    else msg = crash_summary(ef, st);
    desc = slot->desc;
    if (normal) normal->assign(slot->choices, slot->choices + (uint32_t)slot->n);
  }
  return bad;
}

// Run generated cases one after the other in a fresh child. true = the last one failed.
static bool attempt_hist(int subi, const std::vector<int64_t> &idx, std::string &msg, std::string &desc, Slot *slot) {
  std::string ef = g_scratch + "/attempt.err";
  pid_t p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    worker_stdio(ef);
    signal(SIGVTALRM, on_timeout);
    for (int64_t i : idx) {
      slot->index = i;
      Src s; seed_src(s, subi, i);
      Ctx c; c.tier = A.tier; c.index = i;
      arm(CASE_CPU_S);
      if (run_case(registry()[subi], s, c, slot) == 1) _exit(1);
    }
    _exit(0);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
  if (bad) {
    msg = WIFEXITED(st) && WEXITSTATUS(st) == 1 && slot->failed ? std::string(slot->msg) : crash_summary(ef, st);
    desc = slot->desc;
  }
  return bad;
}

static std::vector<uint64_t> shrink(int subi, std::vector<uint64_t> cur, double budget, std::string &msg, std::string &desc, Slot *slot) {
  double end = now() + budget;
  auto trial = [&](std::vector<uint64_t> c) {
    if (now() > end) return false;
    std::string m, d; std::vector<uint64_t> norm;
    if (!attempt(subi, c, registry()[subi].big >= 70000 ? CASE_CPU_S : 5, m, d, &norm, slot)) return false;
    if (m.compare(0, 14, "no termination") == 0 && msg.compare(0, 14, "no termination") != 0) return false; // only slow
    // accept only if simpler (shorter, or lexicographically smaller)
    if (norm.size() > c.size()) norm = c;
    cur = norm; msg = m; desc = d;
    return true;
  };
  bool prog = true;
  while (prog && now() < end) {
    prog = false;
    for (size_t len = std::max<size_t>(1, cur.size() / 2); len >= 1 && now() < end; len /= 2) {
      for (size_t i = 0; i + len <= cur.size() && now() < end;) {
        auto c = cur; c.erase(c.begin() + i, c.begin() + i + len);
        if (trial(c)) { prog = true; } else i += len;
      }
      if (len == 1) break;
    }
    for (size_t len = std::max<size_t>(1, cur.size() / 2); len >= 1 && now() < end; len /= 2) {
      for (size_t i = 0; i < cur.size() && now() < end; i += len) {
        auto c = cur; bool nz = false;
        for (size_t k = i; k < std::min(i + len, c.size()); ++k) { nz |= c[k] != 0; c[k] = 0; }
        if (nz && trial(c)) prog = true;
      }
      if (len == 1) break;
    }
    for (size_t i = 0; i < cur.size() && now() < end; ++i) {
      uint64_t lo = 0;
      while (i < cur.size() && lo < cur[i] && now() < end) {
        uint64_t mid = lo + (cur[i] - lo) / 2;
        auto c = cur; c[i] = mid;
        uint64_t before = cur[i];
        if (trial(c)) { prog = true; if (i >= cur.size() || cur[i] >= before) break; }
        else lo = mid + 1;
      }
    }
    // lower a size choice while deleting one later choice
    for (size_t i = 0; i < cur.size() && i < 12 && now() < end; ++i)
      for (size_t j = i + 1; j < cur.size() && j < i + 40 && i < cur.size() && cur[i] > 0 && now() < end; ++j) {
        auto c = cur; c[i]--; c.erase(c.begin() + j);
        if (trial(c)) { prog = true; }
      }
  }
  return cur;
}

int main(int argc, char **argv) {
  std::string known, confirm;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--seed") A.seed = std::stoull(nx());
    else if (a == "--tier") A.tier = nx() == "thorough";
    else if (a == "--jobs") A.jobs = std::stoi(nx());
    else if (a == "--cap") A.cap = std::stod(nx());
    else if (a == "--out") A.out = nx();
    else if (a == "--replay") A.replay = nx();   // file: sub name, then choices
    else if (a == "--only") A.only = nx();
    else if (a == "--scratch") A.scratch = nx();
    else if (a == "--scale") A.scale = std::stod(nx());
    else if (a == "--shrink") A.shrink_s = std::stoi(nx());
    else if (a == "--known") known = nx();
    else if (a == "--confirm") confirm = nx();   // same file: confirm and shrink it
    else if (a == "--list") { for (auto &s : registry()) printf("%s\n", s.name.c_str()); return 0; }
    else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 3; }
  }
  if (A.scratch.empty()) { char t[] = "/tmp/pbtXXXXXX"; A.scratch = mkdtemp(t); }
  mkdir(A.scratch.c_str(), 0700);
  g_scratch = A.scratch;
  auto &R = registry();
  if (const char *e = getenv("VERIF_BIG_ALL")) { // development: large cases for every sub-check
    int limit = 400, cases = 100; sscanf(e, "%d,%d", &limit, &cases);
    big_requests().clear();
    for (auto &q : R) big_requests().push_back({q.name, limit, cases, cases});
  }
  for (auto &b : big_requests()) {
    size_t k = 0; while (k < R.size() && R[k].name != b.name) ++k;
    if (k == R.size()) { fprintf(stderr, "no sub-check %s\n", b.name.c_str()); return 3; }
    Sub q = R[k]; q.name += b.limit >= 70000 ? "@huge" : "@big"; q.quick = b.quick; q.thorough = b.thorough; q.big = b.limit;
    // graphs come first where small ones are enumerated: go through the huge families in turn
    if (b.limit < 70000) q.prefix = nullptr; else if (q.prefix) q.prefix = [](int64_t i) { return std::vector<uint64_t>{(uint64_t)i}; };
    R.push_back(q);
  }
  Slot *aslot = new_slot();

  if (!known.empty()) {             // exit 1: the recorded defect is there, 0: it is gone
    for (auto &k : known_registry()) if (k.name == known) {
      pid_t p = fork();
      if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        worker_stdio(g_scratch + "/known.err");
        signal(SIGVTALRM, on_timeout);
        arm(CASE_CPU_S);
        try { k.fn(); } catch (...) { _exit(1); }
        _exit(0);
      }
      int st = 0;
      while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
      return WIFEXITED(st) && WEXITSTATUS(st) == 0 ? 0 : 1;
    }
    fprintf(stderr, "no recorded defect %s\n", known.c_str());
    return 3;
  }
  if (!A.replay.empty()) {
    std::ifstream f(A.replay);
    std::string name; f >> name;
    bool hist = name == "HIST";
    if (hist) f >> name >> A.seed;
    std::vector<uint64_t> ch; uint64_t v;
    while (f >> v) ch.push_back(v);
    for (size_t i = 0; i < R.size(); ++i) if (R[i].name == name) {
      case_limit(R[i]);
      std::string m, d;
      bool bad = hist ? attempt_hist((int)i, std::vector<int64_t>(ch.begin(), ch.end()), m, d, aslot)
                      : attempt((int)i, ch, CASE_CPU_S, m, d, nullptr, aslot);
      if (bad) { printf("FAILS: %s\ncase: %s\n", m.c_str(), d.c_str()); return 1; }
      printf("passes\ncase: %s\n", aslot->desc);
      return 0;
    }
    fprintf(stderr, "no sub-check %s\n", name.c_str());
    return 3;
  }

  double t0 = now();
  std::vector<SubStats> stats(R.size());
  std::vector<std::unordered_set<uint64_t>> distinct(R.size());
  std::vector<Found> found;
  std::vector<char> dead(R.size(), 0);   // sub-check already failed
  bool capped = false;
  int errors = 0;

  if (!confirm.empty()) {
    std::ifstream f(confirm);
    std::string name; f >> name;
    Found fd; fd.sub = -1; fd.index = -1;
    for (size_t i = 0; i < R.size(); ++i) if (R[i].name == name) fd.sub = (int)i;
    if (fd.sub < 0) { fprintf(stderr, "no sub-check %s\n", name.c_str()); return 3; }
    uint64_t v; while (f >> v) fd.ch.push_back(v);
    found.push_back(fd);
  }
  for (size_t si = 0; si < R.size() && confirm.empty(); ++si) {
    if (!A.only.empty() && R[si].name.find(A.only) == std::string::npos) continue;
    // large cases of a sub-check that failed already say no more, nor does anything after minutes
    bool skip = !found.empty() && now() - t0 > 150;
    for (auto &f : found) if (R[si].name.compare(0, R[f.sub].name.size() + 1, R[f.sub].name + "@") == 0) skip = true;
    if (skip) continue;
    case_limit(R[si]);
    // scaled-down development runs leave the huge cases out
    if (A.scale < 0.1 && R[si].name.find("@huge") != std::string::npos) continue;
    int64_t N = (int64_t)((A.tier ? R[si].thorough : R[si].quick) * A.scale);
    if (N < 1) N = 1;
    int J = (int)std::min<int64_t>(A.jobs, N);
    double t1 = now();
    struct W { pid_t pid; Slot *slot; std::string ef, rf; };
    std::vector<W> ws;
    for (int w = 0; w < J; ++w) {
      W x; x.slot = new_slot();
      x.ef = g_scratch + "/w" + std::to_string(w) + ".err";
      x.rf = g_scratch + "/w" + std::to_string(w) + ".res";
      unlink(x.rf.c_str());
      x.pid = fork();
      if (x.pid < 0) { perror("fork"); return 3; }
      if (x.pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        worker_stdio(x.ef);
        g_scratch = A.scratch + "/d" + std::to_string(w);
        mkdir(g_scratch.c_str(), 0700);
        signal(SIGVTALRM, on_timeout);
        SubStats S; std::vector<uint64_t> hs;
        int rc = 0;
        for (int64_t i = w; i < N; i += J) {
          if (now() - t0 > A.cap) { rc = 4; break; }
          x.slot->sub = (int)si; x.slot->index = i;
          Src s; seed_src(s, (int)si, i);
          Ctx c; c.index = i; c.tier = A.tier;
          arm(CASE_CPU_S);
          int r = run_case(R[si], s, c, x.slot);
          ++S.evals;
          if (r == 1) { rc = 1; break; }
          if (r == 2) { ++S.discards; continue; }
          for (auto &l : c.labels) S.labels[l.first]++;
          if (c.nontrivial) {
            ++S.nontrivial; hs.push_back(s.hash);
            if (S.samples.size() < 2) S.samples.push_back(c.desc.str().substr(0, 400));
          }
        }
        arm(0);
        std::ofstream o(x.rf);
        o << S.evals << " " << S.discards << " " << S.nontrivial << " " << S.labels.size() << "\n";
        for (auto &l : S.labels) o << l.second << " " << l.first << "\n";
        o << S.samples.size() << "\n";
        for (auto &t : S.samples) { std::string u = t; for (char &ch : u) if (ch == '\n') ch = ' '; o << u << "\n"; }
        o << hs.size() << "\n";
        for (auto h : hs) o << h << "\n";
        o.close();
        _exit(rc);
      }
      ws.push_back(x);
    }
    bool failed = false;
    int64_t best = -1;
    Found fd;
    int left = J;
    while (left > 0) {
      int st; pid_t p = waitpid(-1, &st, 0);
      if (p < 0) { if (errno == EINTR) continue; break; }
      for (auto &x : ws) if (x.pid == p) {
        --left;
        int rc = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
        if (rc == 4) capped = true;
        if (rc != 0 && rc != 4) {
          // with several failing workers, keep the smallest index (deterministic)
          if (!failed || x.slot->index < best) {
            best = x.slot->index;
            fd.sub = (int)si; fd.index = best; fd.J = J;
            fd.msg = rc == 1 && x.slot->failed ? std::string(x.slot->msg) : crash_summary(x.ef, st);
            fd.desc = x.slot->desc;
            fd.ch.assign(x.slot->choices, x.slot->choices + (uint32_t)x.slot->n);
          }
          failed = true;
        }
        std::ifstream f(x.rf);
        int64_t e, d, nt; size_t nl;
        if (f >> e >> d >> nt >> nl) {
          stats[si].evals += e; stats[si].discards += d; stats[si].nontrivial += nt;
          std::string l;
          for (size_t k = 0; k < nl; ++k) { int64_t c; f >> c; std::getline(f, l); stats[si].labels[l.substr(1)] += c; }
          size_t ns; f >> ns; std::getline(f, l);
          for (size_t k = 0; k < ns; ++k) { std::getline(f, l); if (stats[si].samples.size() < 3) stats[si].samples.push_back(l); }
          size_t nh; f >> nh; uint64_t h;
          for (size_t k = 0; k < nh && f >> h; ++k) distinct[si].insert(h);
        }
        munmap(x.slot, sizeof(Slot));
      }
    }
    if (failed) found.push_back(fd);
    if (getenv("VERIF_TIMES")) fprintf(stderr, "TIME %-28s %7lld cases %7.2f s%s\n", R[si].name.c_str(), (long long)N, now() - t1, failed ? " FAILED" : "");
  }

  // confirm and shrink
  std::vector<int> confirmed;
  for (auto &f : found) {
    if (!confirmed.empty() && now() - t0 > 400) continue;   // one reproduced failure is enough
    case_limit(R[f.sub]);
    bool slow = f.msg.compare(0, 14, "no termination") == 0;
    int again = slow ? 1 : 3;
    std::string m, d; int n = 0;
    for (int k = 0; k < again; ++k) n += attempt(f.sub, f.ch, CASE_CPU_S, m, d, nullptr, aslot);
    if (n < again) {
      // The case fails only after others ran in the same process: replay that history.
      std::vector<int64_t> h;
      for (int64_t i = f.index % f.J; i <= f.index; i += f.J) h.push_back(i);
      int k = 0;
      while (k < 3 && attempt_hist(f.sub, h, m, d, aslot)) ++k;
      if (k < 3) {
        fprintf(stderr, "sub-check %s case %lld failed in its worker (%s) but does not replay, alone or with its history\n",
                R[f.sub].name.c_str(), (long long)f.index, f.msg.c_str());
        ++errors;
        continue;
      }
      double end = now() + A.shrink_s;
      for (size_t len = h.size() / 2; len >= 1 && now() < end; len /= 2)
        for (size_t i = 0; i + len < h.size() && now() < end;) {
          auto c = h; c.erase(c.begin() + i, c.begin() + i + len);
          std::string mm, dd;
          if (attempt_hist(f.sub, c, mm, dd, aslot)) h = c; else i += len;
        }
      k = 0;
      while (k < 3 && attempt_hist(f.sub, h, m, d, aslot)) ++k;
      f.hist = h; f.msg = m + " (after earlier cases in the same process)"; f.desc = d; f.ch.clear(); f.confirmed = true; confirmed.push_back(f.sub);
      continue;
    }
    f.msg = m; f.desc = d;
    auto orig = f.ch; std::string om = f.msg, od = f.desc;
    if (!slow || R[f.sub].big < 70000) f.ch = shrink(f.sub, f.ch, A.shrink_s, f.msg, f.desc, aslot);
    n = 0;
    for (int k = 0; k < again; ++k) n += attempt(f.sub, f.ch, CASE_CPU_S, m, d, nullptr, aslot);
    if (n == again) { f.msg = m; f.desc = d; }
    else { f.ch = orig; f.msg = om; f.desc = od; }
    f.confirmed = true; confirmed.push_back(f.sub);
  }

  std::ostringstream o;
  int64_t ev = 0, dn = 0;
  o << "{\"subs\":[";
  bool first = true;
  for (size_t i = 0; i < R.size(); ++i) {
    if (!stats[i].evals && found.empty()) continue;
    ev += stats[i].evals; dn += (int64_t)distinct[i].size();
    if (!first) o << ","; first = false;
    o << "{\"name\":" << jstr(R[i].name) << ",\"rule\":" << jstr(R[i].rule) << ",\"evaluations\":" << stats[i].evals
      << ",\"discards\":" << stats[i].discards << ",\"nontrivial\":" << stats[i].nontrivial
      << ",\"distinct_nontrivial\":" << distinct[i].size() << ",\"labels\":{";
    bool g = true;
    for (auto &l : stats[i].labels) { if (!g) o << ","; g = false; o << jstr(l.first) << ":" << l.second; }
    o << "},\"samples\":[";
    g = true;
    for (auto &l : stats[i].samples) { if (!g) o << ","; g = false; o << jstr(l); }
    o << "]}";
  }
  o << "],\"evaluations\":" << ev << ",\"distinct_nontrivial\":" << dn << ",\"capped\":" << (capped ? "true" : "false")
    << ",\"errors\":" << errors << ",\"wall_s\":" << (now() - t0) << ",\"failures\":[";
  first = true;
  for (auto &f : found) if (f.confirmed) {
    if (!first) o << ","; first = false;
    o << "{\"sub\":" << jstr(R[f.sub].name) << ",\"index\":" << f.index << ",\"msg\":" << jstr(f.msg)
      << ",\"case\":" << jstr(f.desc) << ",\"seed\":" << A.seed << ",\"history\":[";
    for (size_t k = 0; k < f.hist.size(); ++k) o << (k ? "," : "") << f.hist[k];
    o << "],\"choices\":[";
    for (size_t k = 0; k < f.ch.size(); ++k) o << (k ? "," : "") << f.ch[k];
    o << "]}";
  }
  o << "]}\n";
  if (!A.out.empty()) { std::ofstream f(A.out); f << o.str(); }
  else std::cout << o.str();
  for (auto &f : found) if (f.confirmed) return 1;
  return errors ? 3 : 0;
}
