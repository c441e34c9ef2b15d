// C11: scheduled triangular solves equal the serial solve
#include "groups.h"
#include "sys.h"
#include "blocks.h"
#include "aggregation/def.h"
#include "aggregation/hdagg.h"
#include "aggregation/lbc.h"
#include "aggregation/group.h"
#include "aggregation/test_utils.h"
#include "sptrsv.h"
#include "executor.h"
using namespace gen;
using namespace pbt;

static void same(const VD &got, const VD &want, const std::string &what) {
  for (size_t u = 0; u < want.size(); ++u) CHECK(got[u] == want[u], what, ": x[", u, "]=", got[u], " instead of ", want[u]);
}
static void row(const Sys &S, VD &x, int i) {
  for (int k = S.rp[i]; k + 1 < S.rp[i + 1]; ++k) x[i] -= S.rx[k] * x[S.ri[k]];
  x[i] /= S.rx[S.rp[i + 1] - 1];
}
// one random interleaving of the partitions of every level; rows are the unit of
// interleaving because a row writes only its own entry
static void interleave(Src &s, const Sys &S, int nl, const int *lp, const int *pp, const int *np, const std::string &what) {
  VD x = S.b;
  VI trace;
  int how = s.range(0, 2);  // 0 random, 1 last partition first, 2 round robin
  uint64_t h = s.draw(1 << 16) * 2 + 1;
  for (int l = 0; l < nl; ++l) {
    VI at, end;
    for (int k = lp[l]; k < lp[l + 1]; ++k) if (pp[k] < pp[k + 1]) { at.push_back(pp[k]); end.push_back(pp[k + 1]); }
    size_t turn = 0;
    while (!at.empty()) {
      h = h * 6364136223846793005ull + 1442695040888963407ull;
      size_t k = how == 0 ? (h >> 33) % at.size() : how == 1 ? at.size() - 1 : turn++ % at.size();
      trace.push_back(np[at[k]]);
      row(S, x, np[at[k]++]);
      if (at[k] == end[k]) { at.erase(at.begin() + k); end.erase(end.begin() + k); }
    }
  }
  CHECK((int)trace.size() == S.d.n, what, ": ", trace.size(), " rows executed instead of ", S.d.n);
  for (int u = 0; u < S.d.n; ++u) CHECK(x[u] == S.x[u], what, ": x[", u, "]=", x[u], " instead of ", S.x[u], " for the execution order ", vec(trace), " of schedule ", show_sched(nl, lp, pp, np));
}
// several interleavings and the repository's own executors
static void execute(Src &s, Sys &S, int nl, int *lp, int *pp, int *np, const std::string &what) {
  for (int t = 0; t < 3; ++t) interleave(s, S, nl, lp, pp, np, what);
  int n = S.d.n;
  VD x = S.b; sym_lib::sptrsv_csr_lbc(n, S.rp.data(), S.ri.data(), S.rx.data(), x.data(), nl, lp, pp, np); same(x, S.x, what + " sptrsv_csr_lbc");
  x = S.b; sym_lib::sptrsv_csr_lbc_seq(n, S.rp.data(), S.ri.data(), S.rx.data(), x.data(), nl, lp, pp, np); same(x, S.x, what + " sptrsv_csr_lbc_seq");
}
static void mark(Ctx &c, const Sys &S, int nl, const int *lp) {
  int w = 0; for (int l = 0; l < nl; ++l) w = std::max(w, lp[l + 1] - lp[l]);
  if (w > 1) c.label("parallel-level");
  c.nontrivial = S.d.n >= 3 && S.d.edges() > 0 && w > 1;
}
struct Arr { int *lp = nullptr, *pp = nullptr, *np = nullptr; ~Arr() { delete[] lp; delete[] pp; delete[] np; } };

static void lbc(Src &s, Ctx &c) {
  Sys S = gen_sys(s, c);
  int n = S.d.n;
  VD w = gen_cost(s, c, n);
  int inner = s.weighted({6, 3}) == 0 ? gen_par(s, 1, 4) : gen_par(s, 1, 20);
  int dist, div;
  if (s.weighted({2, 5}) == 0) { dist = -1; div = gen_par(s, 2, 7); } else { dist = gen_par(s, 1, 5); div = gen_par(s, 1, 7); }
  int v = s.range(0, 4);
  static const char *nm[] = {"tree", "cc+binpack", "cc", "03", "03-parallel"};
  c.label(nm[v]);
  c.show(S.str(), " ", nm[v], " cost=", vec(w), " innerParts=", inner, " minLevelDist=", dist, " divRate=", div);
  Arr a; int nl = 0, parts = 0;
  if (v == 0) sym_lib::get_coarse_levelSet_DAG_CSC_tree(n, S.cp.data(), S.ci.data(), -1, nl, a.lp, parts, a.pp, a.np, inner, dist, std::max(2, div), w.data());
  else if (v <= 2) sym_lib::get_coarse_levelSet_DAG_CSC(n, S.cp.data(), S.ci.data(), nl, a.lp, parts, a.pp, a.np, inner, dist, div, w.data(), v == 1);
  else if (v == 3) sym_lib::get_coarse_Level_set_DAG_CSC03(n, S.cp.data(), S.ci.data(), nl, a.lp, parts, a.pp, a.np, inner, dist, div, w.data());
  else sym_lib::get_coarse_Level_set_DAG_CSC03_parallel(n, S.cp.data(), S.ci.data(), nl, a.lp, parts, a.pp, a.np, inner, dist, div, w.data(), 2, s.flip());
  execute(s, S, nl, a.lp, a.pp, a.np, nm[v]);
  mark(c, S, nl, a.lp);
}
static const char *RULE = "matrix with >=3 rows, an off-diagonal entry and a coarsened level of several partitions";
static Reg r1("lbc", RULE, 200000, 3000000, lbc, small_dag_prefix);

static void hdagg(Src &s, Ctx &c) {
  Sys S = gen_sys(s, c);
  int n = S.d.n, cores = s.weighted({7, 3}) == 0 ? gen_par(s, 1, 5) : gen_par(s, 1, 16);
  int v = s.range(0, 2);
  bool bp = s.flip(), po = s.flip();
  static const char *nm[] = {"HDAGG", "GLC_V2", "coarsened levels"};
  c.label(nm[v]);
  c.show(S.str(), " ", nm[v], " cores=", cores, " bin_pack=", bp, " postOrder=", po);
  VD w(n, 0);
  HDAGG::costComputation(n, S.cp.data(), S.ci.data(), S.rp.data(), S.ri.data(), s.flip() ? HDAGG::SpTrSv_LL : HDAGG::SpICh0_UL, nullptr, nullptr, false, w);
  VI lp, pp, np; int nl = 0;
  if (v == 0) HDAGG::HDAGG(n, (int)S.ci.size(), S.cp, S.ci, w, cores, nl, lp, pp, np, false, po, bp);
  else if (v == 1) HDAGG::GLC_V2(n, (int)S.ci.size(), S.cp, S.ci, w, cores, nl, lp, pp, np, false, po, bp);
  else HDAGG::build_coarsened_level_parallel(n, S.cp.data(), S.ci.data(), cores, nl, lp, pp, np);
  execute(s, S, nl, lp.data(), pp.data(), np.data(), nm[v]);
  mark(c, S, nl, lp.data());
}
static Reg r2("hdagg", RULE, 150000, 2500000, hdagg, small_dag_prefix);

// the whole pipeline of the runtime: sparsify (or elimination tree), group, contract, schedule, ungroup, solve
static void pipeline(Src &s, Ctx &c) {
  Sys S = gen_sys(s, c);
  int n = S.d.n, nnz = (int)S.ci.size(), cores = s.weighted({7, 3}) == 0 ? gen_par(s, 1, 5) : gen_par(s, 1, 16);
  bool lf = s.chance(1, 4), v2 = s.chance(1, 3), bp = s.flip();
  int grp = s.range(0, 2), order = s.range(0, 1);
  static const char *gn[] = {"tree", "tree-bfs", "chain"};
  c.label(cat(gn[grp], lf ? "/etree" : "/sparsified"));
  c.show(S.str(), " ", lf ? "elimination tree" : "sparsified", " ", gn[grp], " cores=", cores, v2 ? " GLC_V2" : " HDAGG", " bin_pack=", bp, order ? " post-order" : " sorted");
  VI dp, di;
  if (lf) {
    sym_lib::CSR A(n, n, nnz);
    std::copy(S.rp.begin(), S.rp.end(), A.p); std::copy(S.ri.begin(), S.ri.end(), A.i);
    int ne = 0; HDAGG::buildETree(&A, ne, dp, di);
  } else HDAGG::partialSparsification(n, nnz, S.cp.data(), S.ci.data(), dp, di, s.flip());
  int ng = 0; VI gp, gs, qp, qi;
  if (grp == 0) HDAGG::treeBasedGrouping(n, dp, di, ng, gp, gs, lf);
  else if (grp == 1) HDAGG::treeBasedGroupingBFS(n, dp, di, ng, gp, gs, lf);
  else HDAGG::chainGrouping(n, dp, di, ng, gp, gs);
  HDAGG::buildGroupDAG(n, ng, gp.data(), gs.data(), dp.data(), di.data(), qp, qi);
  VD w(ng, 0);
  HDAGG::costComputation(ng, S.cp.data(), S.ci.data(), S.rp.data(), S.ri.data(), HDAGG::SpTrSv_LL, gp.data(), gs.data(), true, w);
  VI lp, pp, np; int nl = 0;
  if (v2) HDAGG::GLC_V2(ng, qp[ng], qp, qi, w, cores, nl, lp, pp, np, false, s.flip(), bp);
  else HDAGG::HDAGG(ng, qp[ng], qp, qi, w, cores, nl, lp, pp, np, false, s.flip(), bp);
  HDAGG::ungroupingScheduleAndApplyOrdering(n, nl, lp, pp, np, gp, gs, dp.data(), di.data(), order == 0, order == 1);
  execute(s, S, nl, lp.data(), pp.data(), np.data(), "pipeline");
  mark(c, S, nl, lp.data());
  c.nontrivial = S.d.n >= 3 && ng < n && ng > 1;
  // grouped wavefronts without unpacking
  VI l2, ls; int wl = 0;
  sym_lib::computingLevelSet_CSC(ng, qp.data(), qi.data(), l2, ls, wl);
  for (int g = 0; g < ng; ++g) std::sort(gs.data() + gp[g], gs.data() + gp[g + 1]);
  VD x = S.b; sym_lib::sptrsv_csr_group_levelset(S.rp.data(), S.ri.data(), S.rx.data(), x.data(), wl, l2.data(), ls.data(), gp.data(), gs.data());
  same(x, S.x, "grouped wavefronts");
}
static Reg r3("grouped-pipeline", "matrix with >=3 rows, several groups, one of several rows", 200000, 3000000, pipeline, small_dag_prefix);

// pipelines of the demo: first-off-diagonal groups scheduled by wavefronts or LBC
static void demo(Src &s, Ctx &c) {
  Sys S = gen_sys(s, c);
  int n = S.d.n;
  int kind = s.range(0, 2), ng = 0, blk = s.range(1, 6);
  c.show(S.str(), kind == 0 ? " v1" : kind == 1 ? " v2" : " blocks", " block=", blk);
  VI gp(n + 1, 0), gs(n, 0), gi(n, 0);
  sym_lib::group g(n, S.rp.data(), S.ri.data());
  if (kind == 0) g.inspection_sptrsvcsr_v1(gp.data(), gs.data(), ng, gi.data());
  else if (kind == 1) g.inspection_sptrsvcsr_v2(gp.data(), gs.data(), ng, gi.data());
  else g.NaiveGrouping(n, gp.data(), gs.data(), ng, gi.data(), blk);
  std::vector<VI> dag(ng);
  sym_lib::fs_csr_inspector_dep(ng, gp.data(), gs.data(), gi.data(), S.rp.data(), S.ri.data(), dag);
  VI gv(n + 1, 0), ge;
  for (int k = 0; k < ng; ++k) {
    dag[k].erase(std::unique(dag[k].begin(), dag[k].end()), dag[k].end());
    gv[k] = (int)ge.size(); ge.push_back(k); ge.insert(ge.end(), dag[k].begin(), dag[k].end()); gv[k + 1] = (int)ge.size();
  }
  VI lv(n + 1, 0), ls(n, 0); int *a = lv.data(), *b = ls.data();
  int nl = sym_lib::buildLevelSet_CSC_Queue(ng, 0, gv.data(), ge.data(), a, b);
  VD x = S.b; CHECK(sym_lib::fs_csr_executor_sgroup(n, S.rp.data(), S.ri.data(), S.rx.data(), x.data(), x.data(), gp.data(), gs.data(), ng, nl, lv.data(), ls.data()) == 1, "fs_csr_executor_sgroup reports failure");
  same(x, S.x, "fs_csr_executor_sgroup");
  if (n <= 60) { // refused: nothing solved, nothing touched
    VD y = S.b; int miss = (int)s.draw(3);
    CHECK(sym_lib::fs_csr_executor_sgroup(n, miss == 0 ? nullptr : S.rp.data(), miss == 1 ? nullptr : S.ri.data(), S.rx.data(), S.b.data(), miss == 2 ? nullptr : y.data(), gp.data(), gs.data(), ng, nl, lv.data(), ls.data()) == 0, "fs_csr_executor_sgroup accepts a missing array");
    CHECK(y == S.b, "fs_csr_executor_sgroup changes the vector it refuses");
  }
  x = S.b; sym_lib::sptrsv_csr_group_levelset(S.rp.data(), S.ri.data(), S.rx.data(), x.data(), nl, lv.data(), ls.data(), gp.data(), gs.data());
  same(x, S.x, "sptrsv_csr_group_levelset");
  bool lower = true; // LBC takes lower-triangular group graphs
  for (int k = 0; k < ng; ++k) for (int v : dag[k]) lower &= v > k;
  if (lower) {
    VD w(ng, 0); for (int k = 0; k < ng; ++k) for (int j = gp[k]; j < gp[k + 1]; ++j) w[k] += S.rp[gs[j] + 1] - S.rp[gs[j]];
    Arr A; int fl = 0, parts = 0;
    std::vector<VI> sorted = dag;
    ge.clear();
    for (int k = 0; k < ng; ++k) { std::sort(dag[k].begin(), dag[k].end()); dag[k].erase(std::unique(dag[k].begin(), dag[k].end()), dag[k].end()); gv[k] = (int)ge.size(); ge.push_back(k); ge.insert(ge.end(), dag[k].begin(), dag[k].end()); gv[k + 1] = (int)ge.size(); }
    sym_lib::get_coarse_Level_set_DAG_CSC03(ng, gv.data(), ge.data(), fl, A.lp, parts, A.pp, A.np, s.range(1, 4), s.range(1, 4), s.range(1, 4), w.data());
    if (s.flip()) for (int k = 0; k < A.lp[fl]; ++k) std::sort(A.np + A.pp[k], A.np + A.pp[k + 1]);
    x = S.b; sym_lib::sptrsv_csr_group_lbc(n, S.rp.data(), S.ri.data(), S.rx.data(), x.data(), fl, A.lp, A.pp, A.np, gp.data(), gs.data());
    same(x, S.x, "sptrsv_csr_group_lbc");
    c.label("group LBC");
  }
  c.nontrivial = n >= 3 && ng < n && ng > 1;
}
static Reg r4("demo-groups", "matrix with >=3 rows, several groups, one of several rows", 200000, 3000000, demo, small_dag_prefix);

// executors on arbitrary valid schedules, serial kernels and right-hand sides
static void executors(Src &s, Ctx &c) {
  Sys S = gen_sys(s, c);
  int n = S.d.n;
  Schedule T = gen_schedule(s, c, S.d, s.range(0, 1));
  c.show(S.str(), " schedule=", T.str());
  VD x = S.b; sym_lib::sptrsv_csr(n, S.rp.data(), S.ri.data(), S.rx.data(), x.data()); same(x, S.x, "sptrsv_csr");
  VI rp = S.rp, ri = S.ri; VD rx = S.rx;
  execute(s, S, T.nlev, T.lp.data(), T.pp.data(), T.np.data(), "given schedule");
  CHECK(rp == S.rp && ri == S.ri && rx == S.rx, "an executor modified the matrix");
  VI L = levels_of(S.d); int h = *std::max_element(L.begin(), L.end()) + 1;
  VI lv(h + 1, 0), ls; for (int l = 0; l < h; ++l) { for (int u = n - 1; u >= 0; --u) if (L[u] == l) ls.push_back(u); lv[l + 1] = (int)ls.size(); }
  x = S.b; sym_lib::sptrsv_csr_levelset(n, S.rp.data(), S.ri.data(), S.rx.data(), x.data(), h, lv.data(), ls.data()); same(x, S.x, "sptrsv_csr_levelset");
  x = S.b; sym_lib::sptrsv_csr_levelset_seq(n, S.rp.data(), S.ri.data(), S.rx.data(), x.data(), h, lv.data(), ls.data()); same(x, S.x, "sptrsv_csr_levelset_seq");
  x = S.b; sym_lib::sptrsv_csr_levelset(n, S.rp.data(), S.ri.data(), S.rx.data(), h, lv.data(), ls.data(), x.data()); same(x, S.x, "sptrsv_csr_levelset (HDAGG)");
  // groups and a schedule of the groups
  Grouping G = gen_grouping(s, c, S.d, false, false);
  Dag q = quotient(S.d, G);
  Schedule U = gen_schedule(s, c, q, 1);
  x = S.b; sym_lib::sptrsv_csr_group_lbc(n, S.rp.data(), S.ri.data(), S.rx.data(), x.data(), U.nlev, U.lp.data(), U.pp.data(), U.np.data(), G.ptr.data(), G.set.data());
  same(x, S.x, "sptrsv_csr_group_lbc");
  // all-ones solution
  VD b(n, 7), one(n, 1);
  sym_lib::rhs_init(n, S.cp.data(), S.ci.data(), S.cx.data(), b.data());
  sym_lib::sptrsv_csr(n, S.rp.data(), S.ri.data(), S.rx.data(), b.data()); same(b, one, "right-hand side for ones");
  c.nontrivial = n >= 3 && S.d.edges() > 0;
}
static Reg r5("executors", "matrix with >=3 rows and an off-diagonal entry", 200000, 3000000, executors, small_dag_prefix);

// right-hand side of a blocked matrix: A*1
static void rhs_blocked(Src &s, Ctx &c) {
  Blk b = gen_blk(s, c);
  int n = b.ncol;
  VD v(b.lp[n]), want(n, 0), got(n, 3);
  for (auto &y : v) y = s.range(-5, 5);
  for (int j = 0; j < n; ++j) for (size_t k = 0; k < b.lp[j + 1] - b.lp[j]; ++k) want[b.li[b.lip[j] + k]] += v[b.lp[j] + k];
  c.show(b.str());
  sym_lib::rhs_init_blocked(n, b.d.n, b.lp.data(), b.li.data(), b.lip.data(), v.data(), got.data());
  same(got, want, "rhs_init_blocked");
  c.nontrivial = n > b.d.n && b.d.edges() > 0;
}
static Reg r6("rhs-blocked", "a block of several columns and a dependence", 60000, 600000, rhs_blocked);

// the same on large cases
static pbt::Big big0("lbc", 2500, 1500, 30000);
static pbt::Big big1("hdagg", 2500, 1500, 30000);
static pbt::Big big2("grouped-pipeline", 2500, 1500, 30000);
static pbt::Big big3("demo-groups", 2500, 1500, 30000);
static pbt::Big big4("executors", 2500, 1500, 30000);
static pbt::Big big5("rhs-blocked", 2500, 1500, 30000);
// and on more nodes, edges or levels than 16 bits can count
static pbt::Big huge0("lbc", 70001, 16, 320);
static pbt::Big huge1("demo-groups", 70001, 16, 320);
static pbt::Big huge2("executors", 70001, 16, 320);
static pbt::Big huge3("rhs-blocked", 70001, 16, 320);
static pbt::Big huge4("hdagg", 70000, 16, 320);
static pbt::Big huge5("grouped-pipeline", 70000, 8, 160);
