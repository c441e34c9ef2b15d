// C27: the evaluation harness, its result tables and the demo programs
#define DBG_LOG
#define CSV_LOG
#define main repo_demo_main_unused
#include "sys.h"
#include "mtx.h"
#include "aggregation/csv_utils.h"
#include "aggregation/FusionDemo.h"
#include "aggregation/lbc.h"
#include "aggregation/sparse_inspector.h"
#include "aggregation/sparse_utilities.h"
#include "aggregation/test_utils.h"
#include "aggregation/metis_interface.h"
#include "aggregation/utils.h"
#include "aggregation/sparse_io.h"
#include "sptrsv_demo_utils.h"
// the two demo programs, each in a namespace of its own
namespace demo_solve {
#include "sptrsv_demo.cpp"
}
namespace demo_schedule {
#include "lbc_demo.cpp"
}
#undef main
#include <memory>
using namespace gen;
using namespace pbt;
using sym_lib::CSC; using sym_lib::CSR; using sym_lib::timing_measurement;

struct Out { // captures std::cout
  std::ostringstream o; std::streambuf *old;
  Out() : old(std::cout.rdbuf(o.rdbuf())) {}
  ~Out() { std::cout.rdbuf(old); }
};

// ------------------------------------------------------------------ result tables
static std::string word(Src &s) {
  static const char al[] = "abcXYZ019_-. /";
  std::string w; for (int k = s.range(1, 8); k-- > 0;) w += al[s.draw(sizeof al - 1)];
  return w;
}
static void csv(Src &s, Ctx &c) {
  int nc = s.range(1, 6);
  VI dummy; std::vector<std::string> cols;
  for (int k = 0; k < nc; ++k) cols.push_back("c" + std::to_string(k) + word(s));
  std::string base = tmp_path("csv"), file = base + ".csv";
  unlink(file.c_str());
  c.show(nc, " columns");
  std::string want; bool exists = false;
  if (s.chance(1, 4)) { want = "old," + word(s) + "\n1,2\n"; put(file, want); exists = true; c.show("; a file is already there"); }
  int sessions = s.range(1, 3), records = 0, refused = 0, multi = 0;
  for (int t = 0; t < sessions; ++t) {
    bool force = s.flip();
    c.show("; session", force ? " forced:" : ":");
    Out quiet;
    profiling_utils::CSVManager m(base, "somewhere", cols, force);
    if (force || !exists) { want.clear(); for (int k = 0; k < nc; ++k) want += cols[k] + (k + 1 < nc ? "," : "\n"); }
    else ++multi;
    exists = true;
    CHECK(m.getHeaderNames() == cols, "getHeaderNames");
    std::vector<std::string> rec(nc); std::vector<bool> set(nc, false);
    bool complete = false; // rec holds a whole record
    for (int op = s.range(0, 14); op-- > 0;) {
      int what = (int)s.weighted({6, 3, 1, 3});
      if (what == 3) { // fill in all that is missing, then store
        for (int k = 0; k < nc; ++k) if (!set[k]) { int v = s.range(-9, 9); m.addElementToRecord(v, cols[k]); rec[k] = std::to_string(v); set[k] = true; }
        c.show(" fill"); what = 1;
        if (!nc) continue;
      }
      if (what == 0) {
        int k = s.range(0, nc - 1);
        bool pr = s.chance(1, 5);
        switch (s.range(0, 4)) {
        case 0: { int v = s.range(-100000, 100000); m.addElementToRecord(v, cols[k], pr); rec[k] = std::to_string(v); break; }
        case 1: { double v = s.range(-9999, 9999) / 64.0; m.addElementToRecord(v, cols[k], pr); rec[k] = std::to_string(v); CHECK(atof(rec[k].c_str()) == v, "harness"); break; }
        case 2: { std::string v = word(s); m.addElementToRecord(v, cols[k], pr); rec[k] = v; break; }
        case 3: { std::string v = word(s); m.addElementToRecord(v.c_str(), cols[k], pr); rec[k] = v; break; }
        default: { size_t v = s.draw(1u << 30); m.addElementToRecord(v, cols[k], pr); rec[k] = std::to_string(v); }
        }
        set[k] = true; c.show(" ", k, "=", rec[k]);
      } else if (what == 1) {
        bool any = false, all = true;
        for (bool b : set) { any |= b; all &= b; }
        c.show(" store");
        m.addRecord();
        if (any && all) { for (int k = 0; k < nc; ++k) want += rec[k] + (k + 1 < nc ? "," : "\n"); set.assign(nc, false); ++records; CHECK(get(file) == want, "after a stored record the file holds ", esc(get(file)), " instead of ", esc(want)); }
        else { ++refused; }
      } else { c.show(" unknown-column"); m.addElementToRecord(1, "no such column"); }
    }
    (void)complete;
  }
  CHECK(get(file) == want, "the file holds ", esc(get(file)), " instead of ", esc(want));
  unlink(file.c_str());
  if (refused) c.label("refused"); if (multi) c.label("appended");
  c.nontrivial = records >= 2 && nc >= 2;
}
static Reg r1("result-table", "at least 2 records of at least 2 columns", 12000, 200000, csv);

// ------------------------------------------------------------------ the evaluation protocol
struct Probe : sym_lib::FusionDemo {
  std::vector<double> times; std::string log; size_t run = 0; bool own_setup, touch; double *ref;
  std::chrono::time_point<std::chrono::system_clock> b0, b1;
  std::vector<VD> xin, xs; VD result;
  Probe(int n, int nnz, bool c3, const std::string &name) : FusionDemo(n, name) { (void)nnz; (void)c3; }
  Probe(int n, int nnz, const std::string &name) : FusionDemo(n, nnz, name) {}
  void reference(double *r) { correct_x_ = r; }
  int n() { return n_; } int threads() { return num_threads_; }
  void build_set() override { log += 'B'; b0 = std::chrono::system_clock::now(); volatile double z = 0; for (int i = 0; i < 200; ++i) z = z + i; b1 = std::chrono::system_clock::now(); }
  void setting_up() override { log += 'S'; FusionDemo::setting_up(); }
  void testing() override { log += 'T'; FusionDemo::testing(); }
  timing_measurement fused_code() override {
    log += 'F';
    xin.push_back(VD(x_in_, x_in_ + n_)); xs.push_back(VD(x_, x_ + n_));
    for (int i = 0; i < n_; ++i) { x_[i] = result[i]; x_in_[i] = -7; }
    timing_measurement t; t.elapsed_time = times[run++]; return t;
  }
};
static void protocol(Src &s, Ctx &c) {
  int n = sz_of(s, 1, 8), runs = s.chance(1, 6) ? 5 : s.range(0, up(9));
  bool dflt = runs == 5 && s.flip();
  std::string name = word(s);
  std::unique_ptr<Probe> p(s.flip() ? new Probe(n, 3, name) : new Probe(n, 3, false, name));
  if (!dflt) p->set_num_test(runs);
  int thr = s.range(1, 8); p->set_num_threads(thr);
  for (int k = 0; k < runs; ++k) p->times.push_back(s.range(0, 20) / 4.0);
  for (int k = 0; k < n; ++k) p->result.push_back(s.range(-50, 50));
  VD ref = p->result; int cmp = (int)s.weighted({2, 3, 3}); // none, equal, different
  if (cmp == 2) ref[s.range(0, n - 1)] += s.flip() ? 1 : -0.25;
  if (cmp == 1 && s.flip()) ref[s.range(0, n - 1)] += 1e-9;
  if (cmp) p->reference(ref.data());
  c.show("n=", n, " runs=", runs, " times=", vec(p->times), cmp == 0 ? " no reference" : cmp == 1 ? " right result" : " wrong result");
  c.nontrivial = runs >= 3;
  if (runs == 0 && cmp) p->result.assign(n, 0), ref = cmp == 1 ? VD(n, 0) : VD(n, 1), p->reference(ref.data());
  std::string said; timing_measurement t;
  { Out o; t = p->evaluate(); said = o.o.str(); }
  std::string w = "B"; for (int k = 0; k < runs; ++k) w += "SF"; w += "T";
  CHECK(p->log == w, "evaluate called ", p->log, " instead of ", w);
  for (int k = 0; k < runs; ++k) CHECK(p->xin[k] == VD(n, 1) && p->xs[k] == VD(n, 0), "run ", k, " does not start from ones and zeros: ", vec(p->xin[k]), vec(p->xs[k]));
  VD st = p->times; std::sort(st.begin(), st.end());
  if (runs) {
    size_t below = 0, above = 0; for (double v : st) { below += v < t.elapsed_time; above += v > t.elapsed_time; }
    CHECK(std::find(st.begin(), st.end(), t.elapsed_time) != st.end() && below * 2 <= st.size() && above * 2 <= st.size(), "reported time ", t.elapsed_time, " is not a median of the runs");
  }
  CHECK((said.find("!=") != std::string::npos) == (cmp == 2) && (cmp == 2 ? said.find(name) != std::string::npos : true), "report on the result: ", esc(said));
  timing_measurement a = p->analysisTime();
  CHECK(a.start_time <= p->b0 && a.end_time >= p->b1 && std::abs(a.elapsed_time - std::chrono::duration<double>(a.end_time - a.start_time).count()) < 1e-9, "analysis time does not span the analysis");
  CHECK(p->Name() == name && p->n() == n && p->threads() == thr, "attributes");
  if (runs) for (int k = 0; k < n; ++k) CHECK(p->solution()[k] == p->result[k], "solution()");
  CHECK(p->redundantNodes() == 0 && p->redundantNNZ() == 0 && p->CostUnit() == 0 && p->CostNNZ() == 0 && p->avgParallleism() == 0 && p->avgIterParallelism() == 0 && p->criticalPath() == 0 && p->maxDiff() == 0, "counters of a demo that measures nothing");
}
static Reg r2("evaluation-protocol", "at least 3 timed runs", 30000, 400000, protocol);

// ------------------------------------------------------------------ input preparation
static VI order_of(const Mat &A, const Ent &e, int n) { // the relabelling, read from the distinct diagonal values
  std::map<double, int> where; for (int j = 0; j < n; ++j) where[A.col[j][0].second] = j;
  VI of(n, -1);
  for (auto &q : e) if (q.first.first == q.first.second) { CHECK(where.count(q.second), "diagonal value ", q.second, " is not in the input"); of[q.first.first] = where[q.second]; }
  for (int v : of) CHECK(v >= 0, "a diagonal entry is missing");
  return of;
}
static Mat gen_spd_lower(Src &s, Ctx &c, int maxn) {
  Mat A = gen_mat(s, c, LOWER_M, false, true, false, maxn, 0);
  for (int j = 0; j < A.n; ++j) for (auto &e : A.col[j]) e.second = e.first == j ? 100.0 + j : e.second / 16.0;
  A.flat(); return A;
}
static void matrices(Src &s, Ctx &c) {
  Mat A = gen_spd_lower(s, c, 20); int n = A.n;
  std::unique_ptr<CSC> in(make_csc(A));
  c.show(A.str());
  CSR *L = nullptr, *Br = nullptr; CSC *B = nullptr;
  sym_lib::generate_matrices_from_mtx(in.get(), L, B, Br);
  std::unique_ptr<CSR> l(L), br(Br); std::unique_ptr<CSC> b(B);
  check_untouched(in.get(), A, "generate_matrices_from_mtx");
  CHECK(L && B && Br, "a matrix is missing");
  Ent el, ec, er;
  for (int r = 0; r < n; ++r) { for (int k = L->p[r]; k < L->p[r + 1]; ++k) { CHECK(L->i[k] <= r && (k == L->p[r] || L->i[k - 1] < L->i[k]), "L row ", r); el[{r, L->i[k]}] = L->x[k]; } CHECK(L->i[L->p[r + 1] - 1] == r, "the diagonal does not end row ", r); }
  for (int j = 0; j < n; ++j) for (int k = B->p[j]; k < B->p[j + 1]; ++k) { CHECK(k == B->p[j] || B->i[k - 1] < B->i[k], "B column ", j, " is not sorted"); ec[{B->i[k], j}] = B->x[k]; }
  for (int r = 0; r < n; ++r) for (int k = Br->p[r]; k < Br->p[r + 1]; ++k) er[{r, Br->i[k]}] = Br->x[k];
  CHECK((int)L->n == n && (int)B->n == n && (int)Br->n == n && L->nnz == A.nnz() && el.size() == A.nnz(), "dimensions of the results");
  CHECK(ec == er && (size_t)B->nnz == ec.size() && (size_t)Br->nnz == er.size(), "the two forms of B differ");
  Ent full = el; for (auto &q : el) full[{q.first.second, q.first.first}] = q.second;
  CHECK(full == ec, "B is not the symmetric matrix of which L is the lower half");
  VI of = order_of(A, el, n); Ent orig = A.entries();
  for (auto &q : el) { int x = of[q.first.first], y = of[q.first.second]; auto it = orig.find({std::max(x, y), std::min(x, y)}); CHECK(it != orig.end() && it->second == q.second, "entry (", q.first.first, ",", q.first.second, ") does not come from the input"); }
  c.nontrivial = n >= 4 && A.nnz() >= (size_t)n + 2;
  // the report line has the fields its header announces
  std::string head, row;
  { Out o; sym_lib::print_common_header(); head = o.o.str(); }
  { Out o; sym_lib::print_common("name", "var", "strat", B, in.get(), s.range(1, 99)); row = o.o.str(); }
  CHECK(std::count(head.begin(), head.end(), ',') == std::count(row.begin(), row.end(), ','), "report line ", row, " under header ", head);
  CHECK(row.compare(0, 5, "name,") == 0 && row.find(cat("name,", B->m, ",", B->nnz, ",", in->nnz, ",var,strat,Metis,")) == 0, "report line ", row);
}
static Reg r3("input-preparation", "at least 4 unknowns and 2 off-diagonal entries", 8000, 150000, matrices);

// ------------------------------------------------------------------ strategies of the solver demo
static void strategies(Src &s, Ctx &c) {
  Sys S = gen_sys(s, c, 60); int n = S.d.n;
  CSC L(n, n, S.ci.size(), S.cp.data(), S.ci.data(), S.cx.data()); L.stype = -1;
  CSR R(n, n, S.ri.size(), S.rp.data(), S.ri.data(), -1); R.x = S.rx.data(); R.is_pattern = false;
  // the demos solve for a right-hand side of ones
  VD ref(n); for (int u = 0; u < n; ++u) { double v = 1; for (int k = S.rp[u]; k + 1 < S.rp[u + 1]; ++k) v -= S.rx[k] * ref[S.ri[k]]; ref[u] = v / S.rx[S.rp[u + 1] - 1]; }
  int which = s.range(0, 5), ip = s.range(1, 6), lev = s.flip() ? -1 : s.range(1, 4), div = s.range(2, 5); bool srt = s.flip();
  static const char *nm[] = {"SptrsvSerial", "SptrsvLevelSet", "SptrsvLBC", "SptrsvLBCDAG", "SptrsvLBCDAGParallel", "SptrsvLBC_W_Sorting"};
  c.show(nm[which], " ", ip, ",", lev, ",", div, " sort=", srt, " ", S.str()); c.label(nm[which]);
  VD cx = S.cx, rx = S.rx; VI cp = S.cp, ci = S.ci, rp = S.rp, ri = S.ri;
  std::string said; VD got;
  bool finite = true; for (double v : ref) finite &= std::abs(v) < 1e200;
  {
    Out o; sym_lib::FusionDemo *f; using namespace sym_lib;
    double *w = s.chance(1, 4) ? nullptr : ref.data();
    switch (which) {
    case 0: f = new SptrsvSerial(&R, &L, w, "d"); break;
    case 1: f = new SptrsvLevelSet(&R, &L, w, "d"); break;
    case 2: f = new SptrsvLBC(&R, &L, w, "d", ip, lev, div); break;
    case 3: f = new SptrsvLBCDAG(&R, &L, w, "d", ip, lev, div); break;
    case 4: f = new SptrsvLBCDAGParallel(&R, &L, w, "d", ip, lev, div); break;
    default: f = new SptrsvLBC_W_Sorting(&R, &L, w, "d", ip, lev, div, srt);
    }
    std::unique_ptr<FusionDemo> keep(f);
    f->set_num_test(s.range(1, 3));
    f->evaluate();
    got.assign(f->solution(), f->solution() + n);
    said = o.o.str();
  }
  CHECK(S.cx == cx && S.rx == rx && S.cp == cp && S.ci == ci && S.rp == rp && S.ri == ri, nm[which], " changed its matrix");
  if (finite) {
    for (int u = 0; u < n; ++u) CHECK(std::abs(got[u] - ref[u]) <= 1e-9 * std::max(1.0, std::abs(ref[u])), nm[which], ": unknown ", u, " is ", got[u], " instead of ", ref[u]);
    bool big = false; for (double v : ref) big |= std::abs(v) > 1e6;
    if (!big) CHECK(said.find("!=") == std::string::npos, nm[which], " reports ", said);
  }
  c.nontrivial = n >= 4 && S.ci.size() >= (size_t)n + 2;
}
static Reg r4("demo-strategies", "at least 4 unknowns and 2 dependences", 20000, 300000, strategies);

// ------------------------------------------------------------------ the demo programs on matrix files
static void programs(Src &s, Ctx &c) {
  Mat A = gen_spd_lower(s, c, 26); int n = A.n;
  std::string text = gen_mtx_text(s, c, A, false), f = tmp_path("dp") + ".mtx";
  put(f, text);
  std::vector<std::string> av{"demo", f};
  int lev = -1, div = 4000;
  int extra = s.range(0, 3);
  if (extra >= 1) { lev = s.flip() ? -1 : s.range(1, 4); av.push_back(std::to_string(lev)); }
  if (extra >= 2) { div = s.range(2, 6); av.push_back(std::to_string(div)); }
  bool solve = s.flip(); int thr = 20;
  if (extra >= 3 && solve) { thr = s.range(1, 9); av.push_back(std::to_string(thr)); }
  c.show(solve ? "sptrsv_demo" : "lbc_demo", " ", vec(av), " ", A.str()); c.label(solve ? "sptrsv_demo" : "lbc_demo");
  c.nontrivial = n >= 4 && A.nnz() >= (size_t)n + 2;
  std::vector<char *> argv; for (auto &a : av) argv.push_back((char *)a.data()); argv.push_back(nullptr);
  std::string said; int rc;
  { Out o; rc = solve ? demo_solve::lbc_demo((int)av.size(), argv.data()) : demo_schedule::lbc_demo((int)av.size(), argv.data()); said = o.o.str(); }
  CHECK(rc == 0, "the program fails with ", rc);
  if (solve) {
    CHECK(said.find("!=") == std::string::npos, "the program reports a wrong solution: ", esc(said));
    std::string want = cat("dp", getpid(), ".mtx,METIS,", thr, ",", lev, ",", div, ",");
    CHECK(said.compare(0, want.size(), want) == 0 && std::count(said.begin(), said.end(), ',') == 15, "report line ", esc(said), " does not start with ", want);
  } else {
    CHECK(said.compare(0, 12, "HLevel set:\n") == 0, "no schedule is printed: ", esc(said));
    VI seen(n, 0); std::string d;
    for (char ch : said.substr(12)) if (isdigit(ch)) d += ch; else if (!d.empty()) { int v = atoi(d.c_str()); CHECK(v < n, "vertex ", v, " is scheduled"); ++seen[v]; d.clear(); }
    for (int v = 0; v < n; ++v) CHECK(seen[v] == 1, "vertex ", v, " is scheduled ", seen[v], " times");
  }
  unlink(f.c_str());
}
static Reg r5("demo-programs", "at least 4 unknowns and 2 off-diagonal entries", 10000, 150000, programs);

// the same on large cases
static pbt::Big big0("evaluation-protocol", 2500, 1500, 30000);
static pbt::Big big1("input-preparation", 2500, 1500, 30000);
static pbt::Big big2("demo-strategies", 2500, 1500, 30000);
static pbt::Big big3("demo-programs", 2500, 1500, 30000);
