// C26: with several OpenMP threads, executors and inspectors give what they give with one
// build: omp
#include "groups.h"
#include "blocks.h"
#include "sys.h"
#include "omp_sim.h"
#include "aggregation/def.h"
#include "aggregation/hdagg.h"
#include "aggregation/lbc.h"
#include "aggregation/group.h"
#include "aggregation/group_utils.h"
#include "sptrsv.h"
#include "executor.h"
using namespace gen;
using namespace pbt;

// not in a header: absent if it becomes internal
namespace sym_lib {
int parallel_cc(int *lC, int *lR, int dfsLevel, int ubLevel, int *node2Level, int *levelPtr, int *levelSet, int *node2partition, double *outCost, double *nodeCost, int &curLeveledParCost, int numNodes, int *nodes, int numThreads) __attribute__((weak));
}

struct Arr { int *lp = nullptr, *pp = nullptr, *np = nullptr; ~Arr() { delete[] lp; delete[] pp; delete[] np; } };
static void same(const VD &got, const VD &want, const std::string &what) {
  for (size_t u = 0; u < want.size(); ++u) CHECK(got[u] == want[u], what, ": x[", u, "]=", got[u], " instead of ", want[u]);
}
static int bits(uint64_t x) { int k = 0; for (; x; x &= x - 1) ++k; return k; }

// Runs one executor on the schedule `cfg`: right solution, no conflicting accesses, and
// several threads at work when they take turns and some level has several partitions.
template <class F> static omp_sim::Stats solve(const omp_sim::Config &k, const Sys &S, int widest, const std::string &what, F f) {
  VD x = S.b;
  omp_sim::Config q = k; q.races = true; q.watch = x.data(); q.watch_bytes = x.size() * sizeof(double);
  omp_sim::Scope sc(q);
  f(x.data());
  omp_sim::Stats st = sc.finish();
  CHECK(st.race.empty(), what, ": ", st.race);
  same(x, S.x, what);
  if (k.policy == omp_sim::ROUND_ROBIN && k.threads > 1 && widest > 1)
    CHECK(bits(st.writers) > 1, what, ": one thread does all the work of a level with ", widest, " partitions");
  return st;
}
static int widest(int nl, const int *lp) { int w = 0; for (int l = 0; l < nl; ++l) w = std::max(w, lp[l + 1] - lp[l]); return w; }
// partitions of the widest level that are not empty
static int widest_used(int nl, const int *lp, const int *pp) {
  int w = 0;
  for (int l = 0; l < nl; ++l) { int k = 0; for (int j = lp[l]; j < lp[l + 1]; ++j) k += pp[j] < pp[j + 1]; if (k == lp[l + 1] - lp[l]) w = std::max(w, k); }
  return w;
}

// ---------------------------------------------------------------- executors
static void executors(Src &s, Ctx &c) {
  Sys S = gen_sys(s, c, 60);
  int n = S.d.n;
  omp_sim::Config k = omp_sim::gen_config(s, c);
  static const char *nm[] = {"sptrsv_csr_levelset", "sptrsv_csr_levelset (HDAGG)", "sptrsv_csr_lbc", "sptrsv_csr_group_lbc", "sptrsv_csr_group_levelset", "fs_csr_executor_sgroup"};
  int v = s.range(0, 5);
  c.label(nm[v]);
  omp_sim::Stats st; int w = 0;
  VI rp = S.rp, ri = S.ri; VD rx = S.rx;
  auto wave = [&](const Dag &d, VI &lv, VI &ls) {
    VI L = levels_of(d); int h = *std::max_element(L.begin(), L.end()) + 1;
    lv.assign(h + 1, 0); bool rev = s.flip();
    for (int l = 0; l < h; ++l) { for (int u = 0; u < d.n; ++u) { int x = rev ? d.n - 1 - u : u; if (L[x] == l) ls.push_back(x); } lv[l + 1] = (int)ls.size(); }
    return h;
  };
  if (v <= 1) {
    VI lv, ls; int h = wave(S.d, lv, ls); w = widest(h, lv.data());
    c.show(S.str(), " ", nm[v], " ", k.str(), " wavefronts=", vec(lv), vec(ls));
    if (v == 0) st = solve(k, S, w, nm[v], [&](double *x) { sym_lib::sptrsv_csr_levelset(n, rp.data(), ri.data(), rx.data(), x, h, lv.data(), ls.data()); });
    else st = solve(k, S, w, nm[v], [&](double *x) { sym_lib::sptrsv_csr_levelset(n, rp.data(), ri.data(), rx.data(), h, lv.data(), ls.data(), x); });
  } else if (v == 2) {
    Schedule T = gen_schedule(s, c, S.d, s.range(0, 1)); w = widest_used(T.nlev, T.lp.data(), T.pp.data());
    c.show(S.str(), " ", nm[v], " ", k.str(), " schedule=", T.str());
    st = solve(k, S, w, nm[v], [&](double *x) { sym_lib::sptrsv_csr_lbc(n, rp.data(), ri.data(), rx.data(), x, T.nlev, T.lp.data(), T.pp.data(), T.np.data()); });
  } else {
    Grouping G = gen_grouping(s, c, S.d, false, false);
    Dag q = quotient(S.d, G);
    if (v == 3) {
      Schedule U = gen_schedule(s, c, q, 1); w = widest_used(U.nlev, U.lp.data(), U.pp.data());
      c.show(S.str(), " ", nm[v], " ", k.str(), " ", G.str(), " schedule=", U.str());
      st = solve(k, S, w, nm[v], [&](double *x) { sym_lib::sptrsv_csr_group_lbc(n, rp.data(), ri.data(), rx.data(), x, U.nlev, U.lp.data(), U.pp.data(), U.np.data(), G.ptr.data(), G.set.data()); });
    } else {
      VI lv, ls; int h = wave(q, lv, ls); w = widest(h, lv.data());
      c.show(S.str(), " ", nm[v], " ", k.str(), " ", G.str(), " wavefronts=", vec(lv), vec(ls));
      if (v == 4) st = solve(k, S, w, nm[v], [&](double *x) { sym_lib::sptrsv_csr_group_levelset(rp.data(), ri.data(), rx.data(), x, h, lv.data(), ls.data(), G.ptr.data(), G.set.data()); });
      else st = solve(k, S, w, nm[v], [&](double *x) { sym_lib::fs_csr_executor_sgroup(n, rp.data(), ri.data(), rx.data(), x, x, G.ptr.data(), G.set.data(), G.ng, h, lv.data(), ls.data()); });
    }
  }
  CHECK(rp == S.rp && ri == S.ri && rx == S.rx, nm[v], " modified the matrix");
  c.nontrivial = k.threads > 1 && w > 1 && st.max_team > 1 && S.d.edges() > 0;
}
static Reg r1("executors", "several threads, a level of several partitions and a dependence", 120000, 3000000, executors, small_dag_prefix);

// inspected with several threads, then executed with several threads
static void pipeline(Src &s, Ctx &c) {
  Sys S = gen_sys(s, c, 60);
  int n = S.d.n;
  omp_sim::Config k = omp_sim::gen_config(s, c), k2 = omp_sim::gen_config(s, c);
  VD w(n, 0); for (auto &x : w) x = s.range(1, 9);
  int v = s.range(0, 3);
  static const char *nm[] = {"03-parallel", "HDAGG", "GLC_V2", "grouped HDAGG"};
  c.label(nm[v]);
  int inner = s.range(1, 5), dist = s.range(1, 4), div = s.range(1, 4); bool bp = s.flip(), po = s.flip(), cl = s.flip();
  c.show(S.str(), " ", nm[v], " ", k.str(), " then ", k2.str(), " cost=", vec(w), " parts=", inner, " minLevelDist=", dist, " divRate=", div, " bin_pack=", bp, " postOrder=", po, cl ? " cliques" : "");
  VI lp, pp, np; int nl = 0;
  {
    omp_sim::Scope sc(k);
    if (v == 0) {
      Arr a; int parts = 0;
      sym_lib::get_coarse_Level_set_DAG_CSC03_parallel(n, S.cp.data(), S.ci.data(), nl, a.lp, parts, a.pp, a.np, inner, dist, div, w.data(), k.threads, bp);
      lp.assign(a.lp, a.lp + nl + 1); pp.assign(a.pp, a.pp + lp[nl] + 1); np.assign(a.np, a.np + n);
    } else if (v == 1) HDAGG::HDAGG(n, (int)S.ci.size(), S.cp, S.ci, w, inner, nl, lp, pp, np, false, po, bp);
    else if (v == 2) HDAGG::GLC_V2(n, (int)S.ci.size(), S.cp, S.ci, w, inner, nl, lp, pp, np, false, po, bp);
    else {
      VI dp, di, gp, gs, qp, qi; int ng = 0;
      HDAGG::partialSparsification(n, (int)S.ci.size(), S.cp.data(), S.ci.data(), dp, di, cl);
      HDAGG::treeBasedGrouping(n, dp, di, ng, gp, gs, false);
      HDAGG::buildGroupDAG(n, ng, gp.data(), gs.data(), dp.data(), di.data(), qp, qi);
      VD gw; HDAGG::costComputation(ng, S.cp.data(), S.ci.data(), S.rp.data(), S.ri.data(), HDAGG::SpTrSv_LL, gp.data(), gs.data(), true, gw);
      HDAGG::HDAGG(ng, qp[ng], qp, qi, gw, inner, nl, lp, pp, np, false, po, bp);
      HDAGG::ungroupingScheduleAndApplyOrdering(n, nl, lp, pp, np, gp, gs, dp.data(), di.data(), po, !po);
    }
  }
  Sched T = read_sched(n, nl, lp.data(), pp.data(), np.data());
  check_sched_dag(T, S.d);
  int wd = widest_used(nl, lp.data(), pp.data());
  omp_sim::Stats st = solve(k2, S, wd, "sptrsv_csr_lbc", [&](double *x) { sym_lib::sptrsv_csr_lbc(n, S.rp.data(), S.ri.data(), S.rx.data(), x, nl, lp.data(), pp.data(), np.data()); });
  c.nontrivial = k.threads > 1 && k2.threads > 1 && wd > 1 && S.d.edges() > 0;
}
static Reg r2("pipeline", "several threads in both phases, a level of several partitions and a dependence", 60000, 1500000, pipeline, small_dag_prefix);

// ---------------------------------------------------------------- inspectors: same result as with one thread
static void lbc(Src &s, Ctx &c) {
  Dag d = gen_dag(s, c, 80);
  int n = d.n;
  VI p, i; to_csc(d, p, i);
  omp_sim::Config k = omp_sim::gen_config(s, c);
  VD w(n); for (auto &x : w) x = s.range(1, 9);
  int inner = s.range(1, 6), dist = s.range(1, 4), div = s.range(1, 4); bool bp = s.flip();
  c.show(d.str(), " ", k.str(), " cost=", vec(w), " innerParts=", inner, " minLevelDist=", dist, " divRate=", div, bp ? " binpack" : "");
  auto run = [&](int threads, int &nl, VI &lp, VI &pp, VI &np, int &parts) {
    Arr a; VI q = p, r = i; VD v = w;
    sym_lib::get_coarse_Level_set_DAG_CSC03_parallel(n, q.data(), r.data(), nl, a.lp, parts, a.pp, a.np, inner, dist, div, v.data(), threads, bp);
    CHECK(q == p && r == i && v == w, "the inspector changed its inputs");
    lp.assign(a.lp, a.lp + nl + 1); pp.assign(a.pp, a.pp + lp[nl] + 1); np.assign(a.np, a.np + n);
  };
  VI l1, p1, n1, l2, p2, n2; int nl1 = 0, nl2 = 0, k1 = 0, k2 = 0;
  run(1, nl1, l1, p1, n1, k1);
  omp_sim::Scope sc(k);
  run(k.threads, nl2, l2, p2, n2, k2);
  omp_sim::Stats st = sc.finish();
  check_sched_dag(read_sched(n, nl2, l2.data(), p2.data(), n2.data()), d);
  CHECK(nl1 == nl2 && l1 == l2 && p1 == p2 && n1 == n2, "schedule with ", k.threads, " threads ", show_sched(nl2, l2.data(), p2.data(), n2.data()), " differs from that with one ", show_sched(nl1, l1.data(), p1.data(), n1.data()));
  CHECK(st.max_team <= k.threads, st.max_team, " threads instead of ", k.threads);
  c.nontrivial = k.threads > 1 && st.max_team > 1 && nl2 > 1 && d.edges() > 0;
}
static Reg r3("lbc", "several threads, several coarsened levels and a dependence", 80000, 2000000, lbc, small_dag_prefix);

// levels of more than 250000 nodes take another path: their components are found in parallel
static void lbc_large(Src &s, Ctx &c) {
  omp_sim::Config k = omp_sim::gen_config(s, c, 4);
  if (k.policy != omp_sim::RUN_THROUGH) { k.policy = omp_sim::RANDOM; k.mean = 2000; }
  int m = s.range(2, 5), n = 250001 + s.range(0, 40000), inner = s.range(1, 6); bool bp = s.flip();
  int tail = s.range(0, 3); // columns that make further levels
  Dag d; d.n = n; d.out.assign(n, {});
  uint64_t h = s.draw(1 << 20) + 1;
  auto rnd = [&](int b) { h = h * 6364136223846793005ull + 1442695040888963407ull; return (int)((h >> 33) % b); };
  int far = s.range(0, 2);
  for (int u = 0; u + 1 < n; ++u) if (u % m != m - 1 && rnd(3)) d.out[u].push_back(far ? u + 1 : u - u % m + m - 1 < n ? u - u % m + m - 1 : n - 1);
  for (int t = 0; t < far * 20; ++t) { int a = rnd(n - 1), b = a + 1 + rnd(std::min(n - 1 - a, 30)); d.out[a].push_back(b); }
  for (int t = 0; t < tail; ++t) for (int x = 0; x < 3; ++x) d.out[rnd(n - 8)].push_back(n - 4 + t);
  for (int t = 0; t + 1 < tail; ++t) d.out[n - 4 + t].push_back(n - 3 + t);
  d.norm();
  VI p, i; to_csc(d, p, i);
  VD w(n); for (int u = 0; u < n; ++u) w[u] = 1 + rnd(5);
  VI L = levels_of(d); int ht = *std::max_element(L.begin(), L.end()) + 1;
  int dist = s.range(std::max(1, ht - 1), ht + 1), div = s.range(1, 2);
  c.show("n=", n, " block=", m, " far=", far, " tail=", tail, " ", k.str(), " innerParts=", inner, " minLevelDist=", dist, " divRate=", div, bp ? " binpack" : "");
  int nl = 0, parts = 0; Arr a;
  omp_sim::Scope sc(k);
  sym_lib::get_coarse_Level_set_DAG_CSC03_parallel(n, p.data(), i.data(), nl, a.lp, parts, a.pp, a.np, inner, dist, div, w.data(), k.threads, bp);
  omp_sim::Stats st = sc.finish();
  Sched S = read_sched(n, nl, a.lp, a.pp, a.np);
  check_sched_dag(S, d);
  if (bp && inner > 1) for (int l = 0; l < nl; ++l) {
    CHECK(a.lp[l + 1] - a.lp[l] <= inner, "level ", l, " has ", a.lp[l + 1] - a.lp[l], " partitions instead of at most ", inner);
    if (l) continue; // hundreds of thousands of tiny components: packing them by true cost levels the partitions
    double lo = 1e18, hi = 0;
    for (int q = a.lp[0]; q < a.lp[1]; ++q) { double x = 0; for (int j = a.pp[q]; j < a.pp[q + 1]; ++j) x += w[a.np[j]]; lo = std::min(lo, x); hi = std::max(hi, x); }
    if (!far) CHECK(hi - lo <= 5.0 * m, "partitions of level 0 have costs from ", lo, " to ", hi, " though no component costs more than ", 5 * m);
  }
  c.label(bp ? "binpack" : "components");
  c.nontrivial = k.threads > 1 && st.max_team > 1;
}
static Reg r4("lbc-large-level", "several threads", 12, 300, lbc_large);

static void hdagg(Src &s, Ctx &c) {
  Dag d = gen_dag(s, c, 80);
  int n = d.n;
  VI p, i; to_csc(d, p, i);
  omp_sim::Config k = omp_sim::gen_config(s, c);
  VD w(n); for (auto &x : w) x = s.range(1, 9);
  int cores = s.range(1, 6); bool bp = s.flip(), po = s.flip(), v2 = s.flip();
  c.show(d.str(), " ", k.str(), v2 ? " GLC_V2" : " HDAGG", " cost=", vec(w), " cores=", cores, " bin_pack=", bp, " postOrder=", po);
  VI q = p, r = i, l1, p1, n1, l2, p2, n2; int a = 0, b = 0;
  auto f = v2 ? HDAGG::GLC_V2 : HDAGG::HDAGG;
  VI w1 = f(n, (int)i.size(), q, r, w, cores, a, l1, p1, n1, false, po, bp);
  omp_sim::Scope sc(k);
  VI w2 = f(n, (int)i.size(), q, r, w, cores, b, l2, p2, n2, false, po, bp);
  omp_sim::Stats st = sc.finish();
  check_sched_dag(read_sched(n, b, l2.data(), p2.data(), n2.data()), d);
  CHECK(a == b && l1 == l2 && p1 == p2 && n1 == n2, "schedule with ", k.threads, " threads ", show_sched(b, l2.data(), p2.data(), n2.data()), " differs from that with one ", show_sched(a, l1.data(), p1.data(), n1.data()));
  CHECK(w1 == w2, "coarsened wavefronts ", vec(w2), " differ from those with one thread ", vec(w1));
  CHECK(q == p && r == i, "the inspector changed its inputs");
  c.nontrivial = k.threads > 1 && st.max_team > 1 && d.edges() > 0 && b > 0 && n >= 3;
}
static Reg r5("hdagg", "several threads, at least 3 nodes and a dependence", 80000, 2000000, hdagg, small_dag_prefix);

static void components(Src &s, Ctx &c) {
  Dag d = gen_dag(s, c, 60);
  int n = d.n;
  VI p, i; to_csc(d, p, i);
  VI L = levels_of(d); int nl = *std::max_element(L.begin(), L.end()) + 1;
  VI lp(1, 0), ls;
  bool rev = s.flip();
  for (int l = 0; l < nl; ++l) { for (int u = 0; u < n; ++u) { int x = rev ? n - 1 - u : u; if (L[x] == l) ls.push_back(x); } lp.push_back((int)ls.size()); }
  int lb = s.range(0, nl - 1), ub = s.range(lb + 1, nl);
  omp_sim::Config k = omp_sim::gen_config(s, c);
  VD w(n); for (auto &x : w) x = s.range(1, 30);
  c.show(d.str(), " ", k.str(), " levels=", vec(lp), vec(ls), " range=[", lb, ",", ub, ") cost=", vec(w));
  auto comps = [&](int up) {
    VI f(n); std::iota(f.begin(), f.end(), 0);
    std::function<int(int)> root = [&](int x) { while (f[x] != x) x = f[x] = f[f[x]]; return x; };
    for (int u = 0; u < n; ++u) for (int v : d.out[u]) if (L[u] >= lb && L[v] < up) f[root(u)] = root(v);
    VI r(n, -1); for (int u = 0; u < n; ++u) if (L[u] >= lb && L[u] < up) r[u] = root(u);
    return r;
  };
  auto match = [&](const VI &want, const VI &got, const char *what) {
    std::map<int, int> a, b;
    for (int u = 0; u < n; ++u) {
      if (want[u] < 0) { CHECK(got[u] == -1, what, ": node ", u, " outside the levels got component ", got[u]); continue; }
      auto x = a.emplace(want[u], got[u]).first; CHECK(x->second == got[u], what, ": node ", u, " is separated from its component: ", vec(got));
      auto y = b.emplace(got[u], want[u]).first; CHECK(y->second == want[u], what, ": node ", u, " is joined with another component: ", vec(got));
    }
  };
  omp_sim::Stats st;
  {
    VI np(n, -1);
    omp_sim::Scope sc(k);
    HDAGG::parallel_cc(n, p.data(), i.data(), lb, ub, L.data(), lp[ub] - lp[lb], ls.data() + lp[lb], np.data());
    st = sc.finish();
    match(comps(ub), np, "parallel_cc");
  }
  VI np(n, -1);
  for (int done = lb; done < ub; ++done) {
    VD pc(n, 0); int cnt = -1; double tot = 0;
    omp_sim::Config kk = k; kk.seed += done;
    omp_sim::Scope sc(kk);
    HDAGG::computeCC(lb, done, done + 1, n, p.data(), i.data(), lp.data(), ls.data(), L.data(), np, cnt, pc, w, tot);
    sc.finish();
    VI want = comps(done + 1);
    match(want, np, "computeCC");
    std::map<int, double> cw; double t = 0;
    for (int u = 0; u < n; ++u) if (want[u] >= 0) { cw[np[u]] += w[u]; t += w[u]; }
    CHECK(cnt == (int)cw.size(), "computeCC counts ", cnt, " components instead of ", cw.size());
    CHECK(tot == t, "computeCC: total cost ", tot, " instead of ", t);
    int q = 0; for (auto &x : cw) { CHECK(pc[q] == x.second, "computeCC: cost of component ", q, " is ", pc[q], " instead of ", x.second); ++q; }
  }
  c.nontrivial = k.threads > 1 && st.max_team > 1 && ub - lb > 1 && n >= 3;
}
static Reg r6("components", "several threads, at least 3 nodes and several levels", 80000, 2000000, components, small_dag_prefix);

// components of one band of wavefronts as parallel LBC finds them in large bands
static void lbc_components(Src &s, Ctx &c) {
  Dag d = gen_dag(s, c, 50);
  int n = d.n;
  VI p, i; to_csc(d, p, i);
  VI L = levels_of(d); int h = *std::max_element(L.begin(), L.end()) + 1;
  VI lp(1, 0), ls; for (int l = 0; l < h; ++l) { for (int u = 0; u < n; ++u) if (L[u] == l) ls.push_back(u); lp.push_back((int)ls.size()); }
  int lb = s.range(0, h - 1), ub = s.range(lb + 1, h);
  VD w(n); for (auto &x : w) x = s.range(1, 9);
  omp_sim::Config k = omp_sim::gen_config(s, c);
  c.show(d.str(), " ", k.str(), " range=[", lb, ",", ub, ") cost=", vec(w));
  if (!sym_lib::parallel_cc) return;
  VI P = p, I = i, V = L, lp2 = lp, ls2 = ls;
  auto run = [&](int threads, VI &np, VD &out) {
    np.assign(n, -7); out.assign(n, 0.0); int cost = 0;
    VI nodes(ls.begin() + lp[lb], ls.begin() + lp[ub]);
    return sym_lib::parallel_cc(P.data(), I.data(), lb, ub, V.data(), lp2.data(), ls2.data(), np.data(), out.data(), w.data(), cost, (int)nodes.size(), nodes.data(), threads);
  };
  VI a, b; VD ca, cb;
  int ra = run(1, a, ca);
  omp_sim::Scope sc(k);
  int rb = run(k.threads, b, cb);
  omp_sim::Stats st = sc.finish();
  CHECK(P == p && I == i && V == L && lp2 == lp && ls2 == ls, "parallel_cc modified an input");
  CHECK(ra == rb, "parallel_cc returns ", rb, " components with ", k.threads, " threads and ", ra, " with one");
  CHECK(a == b, "parallel_cc: components ", vec(b), " with ", k.threads, " threads, ", vec(a), " with one");
  CHECK(ca == cb, "parallel_cc: costs ", vec(cb), " with ", k.threads, " threads, ", vec(ca), " with one");
  c.nontrivial = k.threads > 1 && st.max_team > 1 && ub - lb > 1 && n >= 3;
}
static Reg r6b("lbc-components", "several threads, at least 3 nodes and several levels", 80000, 2000000, lbc_components, small_dag_prefix);

static void large(Src &s, Ctx &c) {
  std::string desc;
  Dag d = gen_large(s, c, 250000, desc);
  int n = d.n, inner = s.range(2, 8), dist = s.range(1, 4), div = s.range(1, 3), top = s.range(0, 9);
  bool bp = s.flip();
  omp_sim::Config k = omp_sim::gen_config(s, c);
  k.mean = 1000 + 10 * k.mean;
  c.show(desc, " cost=1+u%", top + 1, " innerParts=", inner, " minLevelDist=", dist, " divRate=", div, bp ? " binpack" : "", " ", k.str());
  VI p, i; to_csc(d, p, i);
  VD w(n); for (int u = 0; u < n; ++u) w[u] = 1 + u % (top + 1);
  Arr a, b; int na = 0, nb = 0, parts = 0;
  sym_lib::get_coarse_Level_set_DAG_CSC03_parallel(n, p.data(), i.data(), na, a.lp, parts, a.pp, a.np, inner, dist, div, w.data(), 1, bp);
  omp_sim::Scope sc(k);
  sym_lib::get_coarse_Level_set_DAG_CSC03_parallel(n, p.data(), i.data(), nb, b.lp, parts, b.pp, b.np, inner, dist, div, w.data(), k.threads, bp);
  sc.finish();
  CHECK(na == nb && std::equal(a.lp, a.lp + na + 1, b.lp), "other coarsened levels with ", k.threads, " threads than with one");
  CHECK(std::equal(a.pp, a.pp + a.lp[na] + 1, b.pp) && std::equal(a.np, a.np + n, b.np), "other partitions with ", k.threads, " threads than with one");
  int most = 0; for (int l = 0; l < na; ++l) most = std::max(most, a.pp[a.lp[l + 1]] - a.pp[a.lp[l]]);
  if (most > 250000) c.label("large level");
  c.nontrivial = k.threads > 1 && most > 250000 && na > 1;
}
static Reg r6c("03-parallel-large", "several threads and a level of more than 250000 columns", 24, 800, large);

// runs of columns that form cliques
static Dag gen_cliques(Src &s, Ctx &c) {
  Dag b = gen_dag(s, c, 12);
  VI st(b.n + 1, 0); int w = s.range(1, 6);
  for (int k = 0; k < b.n; ++k) st[k + 1] = st[k] + s.range(1, w);
  Dag d; d.n = st[b.n]; d.out.assign(d.n, {}); d.family = "cliques";
  for (int k = 0; k < b.n; ++k) {
    VI below;
    for (int v : b.out[k]) for (int t = st[v]; t < st[v + 1]; ++t) if (s.flip()) below.push_back(t);
    for (int u = st[k]; u < st[k + 1]; ++u) {
      for (int v = u + 1; v < st[k + 1]; ++v) d.out[u].push_back(v);
      d.out[u].insert(d.out[u].end(), below.begin(), below.end());
    }
  }
  d.norm();
  c.label("cliques");
  return d;
}
static void sparsify(Src &s, Ctx &c) {
  Dag d = s.weighted({2, 3}) == 0 ? gen_dag(s, c, 50) : gen_cliques(s, c);
  int n = d.n; bool clique = s.weighted({1, 3}) > 0;
  VI p, i; to_csc(d, p, i);
  omp_sim::Config k = omp_sim::gen_config(s, c);
  c.show(d.str(), clique ? " cliques " : " ", k.str());
  VI q, r, q1, r1;
  HDAGG::partialSparsification(n, (int)i.size(), p.data(), i.data(), q1, r1, clique);
  k.races = !clique;
  omp_sim::Scope sc(k);
  HDAGG::partialSparsification(n, (int)i.size(), p.data(), i.data(), q, r, clique);
  omp_sim::Stats st = sc.finish();
  CHECK(st.race.empty(), "partialSparsification: ", st.race);
  CHECK((int)q.size() == n + 1 && q[0] == 0 && q[n] == (int)r.size(), "malformed pointer array: ", vec(q), " with ", r.size(), " entries");
  if (!clique) CHECK(q == q1 && r == r1, "result ", vec(q), vec(r), " differs from that with one thread ", vec(q1), vec(r1));
  Dag o; o.n = n; o.out.assign(n, {});
  for (int u = 0; u < n; ++u) {
    CHECK(q[u] < q[u + 1] && r[q[u]] == u, "column ", u, " lost its diagonal entry");
    for (int j = q[u] + 1; j < q[u + 1]; ++j) {
      CHECK(r[j] > r[j - 1], "column ", u, " is not sorted");
      CHECK(std::binary_search(d.out[u].begin(), d.out[u].end(), r[j]), "edge ", u, "->", r[j], " is not in the input");
      o.out[u].push_back(r[j]);
    }
  }
  auto R = reach_of(o);
  for (int u = 0; u < n; ++u) for (int v : d.out[u]) CHECK(R[u][v], "ordering ", u, "->", v, " is no longer implied");
  if (o.edges() < d.edges()) c.label("edges removed");
  c.nontrivial = k.threads > 1 && st.max_team > 1 && o.edges() < d.edges();
}
static Reg r7("sparsification", "several threads, at least one edge removed", 80000, 2000000, sparsify);

// group DAG, costs, block schedules and group dependences
static void grouping(Src &s, Ctx &c) {
  Dag d = gen_dag(s, c, 60);
  int n = d.n;
  VI cp, ci, rp, ri; to_csc(d, cp, ci); to_csr(d, rp, ri);
  Grouping G = gen_grouping(s, c, d, true, true);
  omp_sim::Config k = omp_sim::gen_config(s, c); k.races = true;
  int v = s.range(0, 3);
  static const char *nm[] = {"buildGroupDAG", "costComputation", "fs_ic0csc_inspector_group", "convertCNScheduleToSuperNode"};
  c.label(nm[v]);
  c.show(d.str(), " ", nm[v], " ", k.str(), " ", G.str());
  omp_sim::Stats st;
  if (v == 0) {
    VI a, b, a1, b1;
    HDAGG::buildGroupDAG(n, G.ng, G.ptr.data(), G.set.data(), cp.data(), ci.data(), a1, b1);
    omp_sim::Scope sc(k);
    HDAGG::buildGroupDAG(n, G.ng, G.ptr.data(), G.set.data(), cp.data(), ci.data(), a, b);
    st = sc.finish();
    CHECK(a == a1 && b == b1, "group DAG ", vec(a), vec(b), " differs from that with one thread ", vec(a1), vec(b1));
  } else if (v == 1) {
    static const HDAGG::Kernel ks[] = {HDAGG::SpTrSv_LL, HDAGG::SpTrSv_RL, HDAGG::SpICh0_LL, HDAGG::SpICh0_RL, HDAGG::SpICh0_UL, HDAGG::SpILU0_UL, HDAGG::General};
    int q = s.range(0, 6); bool g = s.flip(); VD w, w1;
    c.show(" kernel ", q, g ? " grouped" : "");
    HDAGG::costComputation(g ? G.ng : n, cp.data(), ci.data(), rp.data(), ri.data(), ks[q], G.ptr.data(), G.set.data(), g, w1);
    omp_sim::Scope sc(k);
    HDAGG::costComputation(g ? G.ng : n, cp.data(), ci.data(), rp.data(), ri.data(), ks[q], G.ptr.data(), G.set.data(), g, w);
    st = sc.finish();
    CHECK(w == w1, "costs ", vec(w), " differ from those with one thread ", vec(w1));
  } else if (v == 2) {
    std::vector<VI> a(G.ng), b(G.ng);
    sym_lib::fs_ic0csc_inspector_group(G.ng, G.ptr.data(), G.set.data(), G.inv.data(), cp.data(), ci.data(), b);
    omp_sim::Scope sc(k);
    sym_lib::fs_ic0csc_inspector_group(G.ng, G.ptr.data(), G.set.data(), G.inv.data(), cp.data(), ci.data(), a);
    st = sc.finish();
    for (int g = 0; g < G.ng; ++g) CHECK(a[g] == b[g], "dependences of group ", g, " are ", vec(a[g]), " instead of ", vec(b[g]), " with one thread");
  } else {
    // groups of consecutive nodes scheduled one per partition, supernodes that refine them
    VI gp(1, 0), gs(n), sp(1, 0); std::iota(gs.begin(), gs.end(), 0);
    while (gp.back() < n) gp.push_back(std::min(n, gp.back() + s.range(1, 5)));
    for (size_t g = 0; g + 1 < gp.size(); ++g) while (sp.back() < gp[g + 1]) sp.push_back(std::min(gp[g + 1], sp.back() + s.range(1, 3)));
    int ng = (int)gp.size() - 1, nl = 1; VI lp{0, ng}, pp(ng + 1), np(ng); std::iota(pp.begin(), pp.end(), 0); std::iota(np.begin(), np.end(), 0);
    VI lp1 = lp, pp1 = pp, np1 = np; int nl1 = 1;
    HDAGG::convertCNScheduleToSuperNode(n, (int)sp.size() - 1, gp.data(), gs.data(), sp.data(), nl1, lp1, pp1, np1);
    omp_sim::Scope sc(k);
    HDAGG::convertCNScheduleToSuperNode(n, (int)sp.size() - 1, gp.data(), gs.data(), sp.data(), nl, lp, pp, np);
    st = sc.finish();
    CHECK(nl == nl1 && lp == lp1 && pp == pp1 && np == np1, "supernode schedule ", vec(pp), vec(np), " differs from that with one thread ", vec(pp1), vec(np1));
  }
  CHECK(st.race.empty(), nm[v], ": ", st.race);
  c.nontrivial = k.threads > 1 && st.max_team > 1 && n >= 3;
}
static Reg r8("groups-and-costs", "several threads and at least 3 nodes", 80000, 2000000, grouping, small_dag_prefix);

// imbalance statistics: largest difference between the threads' costs in a level
static void stats(Src &s, Ctx &c) {
  Dag d = gen_dag(s, c, 50);
  int n = d.n;
  VI rp, ri; to_csr(d, rp, ri);
  Schedule T = gen_schedule(s, c, d, 1);
  Grouping G = gen_grouping(s, c, d, false, false);
  Schedule U = gen_schedule(s, c, quotient(d, G), 1);
  omp_sim::Config k = omp_sim::gen_config(s, c); k.races = true;
  int v = s.range(0, 2);
  static const char *nm[] = {"fs_csr_levelset_stat", "sptrsv_csr_lbc_stat", "sptrsv_csr_group_lbc_stat"};
  c.label(nm[v]);
  c.show(d.str(), " ", nm[v], " ", k.str(), " ", G.str(), " schedule=", v == 2 ? U.str() : T.str());
  // cost of every item shared out among the threads, per level
  std::vector<std::vector<int>> item;
  VI lc; omp_sim::Stats st;
  auto len = [&](int r) { return rp[r + 1] - rp[r]; };
  if (v == 0) {
    Dag q = quotient(d, G); VI L = levels_of(q); int h = *std::max_element(L.begin(), L.end()) + 1; VI lv(1, 0), ls;
    item.resize(h);
    for (int l = 0; l < h; ++l) { for (int g = 0; g < q.n; ++g) if (L[g] == l) { ls.push_back(g); int t = 0; for (int j = G.ptr[g]; j < G.ptr[g + 1]; ++j) t += len(G.set[j]); item[l].push_back(t); } lv.push_back((int)ls.size()); }
    lc.assign(h, -7);
    omp_sim::Scope sc(k);
    sym_lib::fs_csr_levelset_stat(rp.data(), ri.data(), G.ptr.data(), G.set.data(), h, lv.data(), ls.data(), lc.data());
    st = sc.finish();
  } else {
    Schedule &W = v == 1 ? T : U;
    item.resize(W.nlev); lc.assign(W.nlev, -7);
    for (int l = 0; l < W.nlev; ++l) for (int j = W.lp[l]; j < W.lp[l + 1]; ++j) {
      int t = 0;
      for (int q = W.pp[j]; q < W.pp[j + 1]; ++q) { int u = W.np[q]; if (v == 1) t += len(u); else for (int e = G.ptr[u]; e < G.ptr[u + 1]; ++e) t += len(G.set[e]); }
      item[l].push_back(t);
    }
    omp_sim::Scope sc(k);
    if (v == 1) sym_lib::sptrsv_csr_lbc_stat(n, rp.data(), ri.data(), W.nlev, W.lp.data(), W.pp.data(), W.np.data(), lc.data());
    else sym_lib::sptrsv_csr_group_lbc_stat(n, rp.data(), ri.data(), W.nlev, W.lp.data(), W.pp.data(), W.np.data(), G.ptr.data(), G.set.data(), lc.data());
    st = sc.finish();
  }
  CHECK(st.race.empty(), nm[v], ": ", st.race);
  for (size_t l = 0; l < item.size(); ++l) {
    // whichever thread runs an item: the difference is 0 with one thread, at most all the
    // work, and all of a single item's cost when it is alone
    int tot = std::accumulate(item[l].begin(), item[l].end(), 0), used = 0;
    for (int x : item[l]) used += x > 0;
    CHECK(lc[l] >= 0 && lc[l] <= tot, nm[v], ": imbalance ", lc[l], " of level ", l, " with work ", vec(item[l]));
    if (k.threads == 1) CHECK(lc[l] == 0, nm[v], ": imbalance ", lc[l], " with one thread");
    else if (used == 1) CHECK(lc[l] == tot, nm[v], ": imbalance ", lc[l], " of level ", l, " whose only work is ", tot, " on one of ", k.threads, " threads");
  }
  c.nontrivial = k.threads > 1 && n >= 3;
}
static Reg r9("statistics", "several threads and at least 3 nodes", 40000, 1000000, stats, small_dag_prefix);

// the same on large cases
static pbt::Big big0("executors", 500, 1500, 30000);
static pbt::Big big1("pipeline", 500, 1500, 30000);
static pbt::Big big2("lbc", 500, 1500, 30000);
static pbt::Big big3("hdagg", 400, 400, 8000);
static pbt::Big big4("components", 500, 1500, 30000);
static pbt::Big big5("sparsification", 300, 400, 8000);
static pbt::Big big6("groups-and-costs", 500, 1500, 30000);
static pbt::Big big7("statistics", 500, 1500, 30000);
