// C02: DAG LBC schedules
#include "gen.h"
#include "aggregation/def.h"
#include "aggregation/lbc.h"
using namespace gen;
using namespace pbt;

struct Arr { int *lp = nullptr, *pp = nullptr, *np = nullptr; ~Arr() { delete[] lp; delete[] pp; delete[] np; } };

static void params(Src &s, Ctx &c, int n, int &inner, int &dist, int &div) {
  inner = s.weighted({6, 3}) == 0 ? gen_par(s, 1, 4) : gen_par(s, 1, 20);
  if (s.weighted({2, 5}) == 0) { dist = -1; div = gen_par(s, 2, 7); }
  else { dist = s.range(1, s.chance(1, 5) ? n + 2 : 5); div = gen_par(s, 1, 7); }
}

enum { CC_BP, CC_NOBP, V03, PAR_BP, PAR_NOBP };
static void run(Src &s, Ctx &c, int variant) {
  Dag d = gen_dag(s, c);
  VI p, i;
  to_csc(d, p, i);
  VD w = gen_cost_any(s, c, d.n);
  int inner, dist, div, thr = 1;
  params(s, c, d.n, inner, dist, div);
  if (variant >= PAR_BP) thr = s.range(1, 8);
  c.show(d.str(), " cost=", vec(w), " innerParts=", inner, " minLevelDist=", dist, " divRate=", div, " threads=", thr);
  Arr a; int nl = 0, parts = 0;
  switch (variant) {
  case CC_BP: case CC_NOBP:
    sym_lib::get_coarse_levelSet_DAG_CSC(d.n, p.data(), i.data(), nl, a.lp, parts, a.pp, a.np, inner, dist, div, w.data(), variant == CC_BP); break;
  case V03:
    sym_lib::get_coarse_Level_set_DAG_CSC03(d.n, p.data(), i.data(), nl, a.lp, parts, a.pp, a.np, inner, dist, div, w.data()); break;
  default:
    sym_lib::get_coarse_Level_set_DAG_CSC03_parallel(d.n, p.data(), i.data(), nl, a.lp, parts, a.pp, a.np, inner, dist, div, w.data(), thr, variant == PAR_BP);
  }
  Sched S = read_sched(d.n, nl, a.lp, a.pp, a.np);
  CHECK(parts == S.nparts, "reported ", parts, " partitions, arrays hold ", S.nparts);
  try { check_sched_dag(S, d); } catch (Failure &f) { fail(cat(f.what(), "  schedule ", show_sched(nl, a.lp, a.pp, a.np))); }
  sched_labels(c, S, d);
}
static const char *RULE = "pattern with >=3 columns and an off-diagonal entry";
static Reg r1("cc+binpack", RULE, 100000, 2000000, [](Src &s, Ctx &c) { run(s, c, CC_BP); }, small_dag_prefix);
static Reg r2("cc", RULE, 80000, 2000000, [](Src &s, Ctx &c) { run(s, c, CC_NOBP); }, small_dag_prefix);
static Reg r3("03", RULE, 80000, 2000000, [](Src &s, Ctx &c) { run(s, c, V03); }, small_dag_prefix);
static Reg r4("03-parallel+binpack", RULE, 80000, 2000000, [](Src &s, Ctx &c) { run(s, c, PAR_BP); }, small_dag_prefix);
static Reg r5("03-parallel", RULE, 80000, 2000000, [](Src &s, Ctx &c) { run(s, c, PAR_NOBP); }, small_dag_prefix);

// bands of more than 250000 nodes take a path of their own
static void large(Src &s, Ctx &c) {
  std::string desc;
  Dag d = gen_large(s, c, 250000, desc);
  int n = d.n, inner = s.range(1, 8), dist = s.range(1, 4), div = s.range(1, 3), thr = s.range(1, 8), top = s.range(0, 9);
  bool bp = s.flip();
  c.show(desc, " cost=1+u%", top + 1, " innerParts=", inner, " minLevelDist=", dist, " divRate=", div, " threads=", thr, bp ? " binpack" : "");
  VI p, i; to_csc(d, p, i);
  VD w(n); for (int u = 0; u < n; ++u) w[u] = 1 + u % (top + 1);
  VI p0 = p, i0 = i; VD w0 = w;
  Arr a; int nl = 0, parts = 0;
  sym_lib::get_coarse_Level_set_DAG_CSC03_parallel(n, p.data(), i.data(), nl, a.lp, parts, a.pp, a.np, inner, dist, div, w.data(), thr, bp);
  Sched S = read_sched(n, nl, a.lp, a.pp, a.np);
  CHECK(parts == S.nparts, "reported ", parts, " partitions, arrays hold ", S.nparts);
  check_sched_dag(S, d);
  CHECK(p == p0 && i == i0 && w == w0, "an input was modified");
  VI L = levels_of(d), size(nl, 0);
  for (int u = 0; u < n; ++u) ++size[S.lev[u]];
  bool big = *std::max_element(size.begin(), size.end()) > 250000;
  if (big) c.label(size[0] > 250000 ? "large first level" : "large later level");
  if (nl > 1) c.label("levels>1");
  c.nontrivial = big && d.edges() > 0;
}
static Reg r6("03-parallel-large", "a level of more than 250000 columns and an off-diagonal entry", 32, 1200, large);

// the same on large cases
static pbt::Big big0("cc+binpack", 2500, 1500, 30000);
static pbt::Big big1("cc", 2500, 1500, 30000);
static pbt::Big big2("03", 2500, 1500, 30000);
static pbt::Big big3("03-parallel+binpack", 2500, 1500, 30000);
static pbt::Big big4("03-parallel", 2500, 1500, 30000);
// and on more nodes, edges or levels than 16 bits can count
static pbt::Big huge0("cc+binpack", 70001, 16, 320);
static pbt::Big huge1("cc", 70001, 16, 320);
static pbt::Big huge2("03", 70001, 16, 320);
static pbt::Big huge3("03-parallel+binpack", 70001, 16, 320);
static pbt::Big huge4("03-parallel", 70001, 16, 320);
