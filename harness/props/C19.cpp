// C19: cost models count exactly the touched nonzeros and conserve totals.
#include "mat.h"
#include "groups.h"
#include "executor.h"
#include "aggregation/hdagg.h"
#include "aggregation/sparse_utilities.h"
#include <memory>
using namespace gen;
using namespace sym_lib;

namespace {
// Any partition of 0..n-1 into nonempty groups
void any_groups(Src &s, int n, VI &gp, VI &gs) {
  VI q = gen_perm(s, n);
  int w = s.range(1, 5);
  gp.assign(1, 0); gs = q;
  while (gp.back() < n) gp.push_back(std::min(n, gp.back() + s.range(1, w)));
}

void kernel_cost(Src &s, Ctx &c) {
  Dag d = gen_dag(s, c, 60);
  int n = d.n;
  VI cp, ci, rp, ri; to_csc(d, cp, ci); to_csr(d, rp, ri);
  VI gp, gs; any_groups(s, n, gp, gs);
  int g = (int)gp.size() - 1;
  int kern = (int)s.draw(7); bool grouped = s.flip();
  static const HDAGG::Kernel ks[] = {HDAGG::SpTrSv_LL, HDAGG::SpTrSv_RL, HDAGG::SpICh0_LL, HDAGG::SpICh0_RL, HDAGG::SpICh0_UL, HDAGG::SpILU0_UL, HDAGG::General};
  static const char *kn[] = {"SpTrSv_LL", "SpTrSv_RL", "SpICh0_LL", "SpICh0_RL", "SpICh0_UL", "SpILU0_UL", "General"};
  c.show(d.str(), " kernel=", kn[kern], grouped ? " groups=" + pbt::vec(gp) + pbt::vec(gs) : std::string());
  c.label(kn[kern]); if (grouped) c.label("grouped");
  c.nontrivial = n >= 3 && d.edges() > 0;
  std::vector<VI> in(n);
  for (int u = 0; u < n; ++u) for (int v : d.out[u]) in[v].push_back(u);
  auto row = [&](int v) { return 1.0 + in[v].size(); };
  auto col = [&](int v) { return 1.0 + d.out[v].size(); };
  VD one(n, 0);
  for (int v = 0; v < n; ++v) switch (kern) {
    case 0: one[v] = row(v); break;
    case 1: one[v] = col(v); break;
    case 2: one[v] = col(v); for (int u : in[v]) one[v] += col(u); break;
    case 3: one[v] = col(v); for (int u : d.out[v]) one[v] += col(u); break;
    default: one[v] = row(v); for (int u : in[v]) one[v] += row(u);
  }
  VD want = one;
  if (grouped) { want.assign(g, 0); for (int k = 0; k < g; ++k) for (int j = gp[k]; j < gp[k + 1]; ++j) want[k] += one[gs[j]]; }
  int nodes = grouped ? g : n;
  VD cost; int pre = (int)s.draw(3);
  if (pre) cost.assign(pre == 1 ? nodes : s.range(1, 2 * n), 13.5);
  VI a1 = cp, a2 = ci, a3 = rp, a4 = ri, a5 = gp, a6 = gs;
  HDAGG::costComputation(nodes, cp.data(), ci.data(), rp.data(), ri.data(), ks[kern], gp.data(), gs.data(), grouped, cost);
  CHECK((int)cost.size() == nodes, "costComputation returns ", cost.size(), " costs for ", nodes, " nodes");
  for (int k = 0; k < nodes; ++k) CHECK(cost[k] == want[k], "cost of ", k, " is ", cost[k], " instead of ", want[k]);
  CHECK(a1 == cp && a2 == ci && a3 == rp && a4 == ri && a5 == gp && a6 == gs, "costComputation changed its inputs");
}

void subtree(Src &s, Ctx &c) {
  VI par = gen_forest(s, c, 150);
  int n = (int)par.size();
  VD w(n); for (auto &x : w) x = s.range(0, 50);
  c.show("parent=", pbt::vec(par), " weight=", pbt::vec(w));
  c.nontrivial = n >= 3;
  VD want(n, 0), w0 = w;
  for (int v = 0; v < n; ++v) for (int u = v; u >= 0; u = par[u]) want[u] += w[v];
  double *r = compute_subtree_cost(n, par.data(), w.data());
  for (int v = 0; v < n; ++v) CHECK(r[v] == want[v], "cost of the subtree of ", v, " is ", r[v], " instead of ", want[v]);
  CHECK(w == w0, "compute_subtree_cost changed the weights");
  delete[] r;
}

void percol(Src &s, Ctx &c) {
  Mat M = gen_mat(s, c, GENERAL_M, true, false, true);
  c.show(M.str());
  c.nontrivial = M.n >= 3 && M.nnz() > 0;
  std::unique_ptr<CSC> A(make_csc(M));
  VD out(M.n, -3);
  compute_nnz_per_col(A.get(), out.data());
  for (int j = 0; j < M.n; ++j) CHECK(out[j] == (double)M.col[j].size(), "column ", j, " has ", M.col[j].size(), " nonzeros, not ", out[j]);
  check_untouched(A.get(), M, "compute_nnz_per_col");
}

// components of the subgraph induced by levels [lb,ub): smallest member of each
VI induced(const Dag &d, const VI &lev, int lb, int ub) {
  VI r(d.n, -1);
  std::vector<VI> adj(d.n);
  auto in = [&](int v) { return lev[v] >= lb && lev[v] < ub; };
  for (int u = 0; u < d.n; ++u) for (int v : d.out[u]) if (in(u) && in(v)) { adj[u].push_back(v); adj[v].push_back(u); }
  for (int u = 0; u < d.n; ++u) if (in(u) && r[u] < 0) {
    VI st(1, u); r[u] = u;
    while (!st.empty()) { int x = st.back(); st.pop_back(); for (int y : adj[x]) if (r[y] < 0) { r[y] = u; st.push_back(y); } }
  }
  return r;
}
void same_classes(const char *what, const VI &want, const VI &got) {
  std::map<int, int> f, b;
  for (size_t v = 0; v < want.size(); ++v) {
    if (want[v] < 0) continue;
    CHECK(got[v] >= 0, what, ": node ", v, " has no component");
    auto x = f.emplace(want[v], got[v]); CHECK(x.first->second == got[v], what, ": nodes ", want[v], " and ", v, " are connected but in different components");
    auto y = b.emplace(got[v], want[v]); CHECK(y.first->second == want[v], what, ": nodes ", y.first->second, " and ", v, " share a component but are not connected");
  }
}

void components(Src &s, Ctx &c) {
  Dag d = gen_dag(s, c, 60);
  int n = d.n;
  VI cp, ci; to_csc(d, cp, ci);
  VI lev = levels_of(d);
  int nl = *std::max_element(lev.begin(), lev.end()) + 1;
  std::vector<VI> by(nl);
  for (int v = 0; v < n; ++v) by[lev[v]].push_back(v);
  bool mix = s.chance(1, 3);
  VI lp(1, 0), ls;
  for (auto &b : by) { if (mix) gen_shuffle(s, b); ls.insert(ls.end(), b.begin(), b.end()); lp.push_back((int)ls.size()); }
  int lb = s.range(0, nl - 1), ub = s.range(lb + 1, huge() ? std::min(nl, lb + 4) : nl);
  VD w(n); for (auto &x : w) x = s.range(1, 30);
  c.show(d.str(), " levels=", pbt::vec(lp), pbt::vec(ls), " range=[", lb, ",", ub, ") cost=", pbt::vec(w));
  VI cc = induced(d, lev, lb, ub);
  VI np(n, -1);
  HDAGG::parallel_cc(n, cp.data(), ci.data(), lb, ub, lev.data(), lp[ub] - lp[lb], ls.data() + lp[lb], np.data());
  same_classes("parallel_cc", cc, np);
  for (int v = 0; v < n; ++v) if (cc[v] < 0) CHECK(np[v] == -1, "parallel_cc: node ", v, " outside the levels got component ", np[v]);
  // incrementally growing range, as the inspector does
  VI np2(n, -1); int done = lb, at = lb;
  while (done < ub) {
    at = done + 1; // the inspector grows one level at a time
    VD pc(n, 0); int cnt = -1; double tot = 0;
    HDAGG::computeCC(lb, done, at, n, cp.data(), ci.data(), lp.data(), ls.data(), lev.data(), np2, cnt, pc, w, tot);
    VI want = induced(d, lev, lb, at);
    same_classes("computeCC", want, np2);
    std::map<int, double> cw; std::map<int, int> rep; double t = 0;
    for (int v = 0; v < n; ++v) if (want[v] >= 0) { cw[np2[v]] += w[v]; t += w[v]; rep[np2[v]] = 1; }
    CHECK(cnt == (int)cw.size(), "computeCC counts ", cnt, " components instead of ", cw.size(), " in levels [", lb, ",", at, ")");
    CHECK(tot == t, "computeCC: total cost ", tot, " instead of ", t);
    int k = 0;
    for (auto &x : cw) { CHECK(pc[k] == x.second, "computeCC: cost of component ", k, " is ", pc[k], " instead of ", x.second, " in levels [", lb, ",", at, ")"); ++k; }
    for (; k < n; ++k) CHECK(pc[k] == 0, "computeCC: cost ", pc[k], " for component ", k, " that does not exist");
    done = at;
  }
  if (ub - lb > 1) c.label("several levels");
  c.nontrivial = ub - lb > 1 && n >= 3;
}

// statistics of the example kernels
void stats(Src &s, Ctx &c) {
  Dag d = gen_dag(s, c, 40);
  int n = d.n;
  VI cp, ci, rp, ri; to_csc(d, cp, ci); to_csr(d, rp, ri);
  c.show(d.str());
  c.nontrivial = n >= 3 && d.edges() > 0;
  int e = (int)d.edges(), ru = 0, fl = -1, mem = -1, re = -1;
  for (int u = 0; u + 1 < n; ++u) for (int v : d.out[u]) ru += v == u + 1;
  fs_csr_stat(n, rp.data(), ri.data(), fl, mem, re);
  CHECK(fl == 2 * e + n, "fs_csr_stat: ", fl, " operations instead of ", 2 * e + n);
  CHECK(mem == 3 * e + 2 * n, "fs_csr_stat: ", mem, " accesses instead of ", 3 * e + 2 * n);
  CHECK(re == ru, "fs_csr_stat: reuse ", re, " instead of ", ru);
  int wf = 0, wm = 0;
  for (int i = 0; i < n; ++i) {
    int k = (int)d.out[i].size();
    wf += k + 2; wm += k + 1;
    for (int m = 0; m < k; ++m) {
      int u = d.out[i][m];
      wm += (k - m) * (1 + (int)d.out[u].size());
      std::set<int> cu(d.out[u].begin(), d.out[u].end()); cu.insert(u);
      for (int l = m; l < k; ++l) if (cu.count(d.out[i][l])) { wf += 2; wm += 3; }
    }
  }
  fl = mem = re = -1;
  ic0_csc_stat(n, cp.data(), ci.data(), fl, mem, re);
  CHECK(fl == wf, "ic0_csc_stat: ", fl, " operations instead of ", wf);
  CHECK(mem == wm, "ic0_csc_stat: ", mem, " accesses instead of ", wm);
  CHECK(re == 0, "ic0_csc_stat: reuse ", re);
}

// Recorded defect: one thread, so no imbalance between threads in any schedule
void imbalance() {
  const int n = 3;
  VI rp{0, 1, 3, 4}, ri{0, 0, 1, 2}, lp{0, 2, 3}, ls{0, 2, 1}, gp{0, 1, 2, 3}, gs{0, 1, 2};
  for (int k = 0; k < 3; ++k) {
    VI lc(2, -7);
    if (k == 0) fs_csr_levelset_stat(rp.data(), ri.data(), gp.data(), gs.data(), 2, lp.data(), ls.data(), lc.data());
    else if (k == 1) sptrsv_csr_lbc_stat(n, rp.data(), ri.data(), 2, lp.data(), gp.data(), ls.data(), lc.data());
    else sptrsv_csr_group_lbc_stat(n, rp.data(), ri.data(), 2, lp.data(), gp.data(), ls.data(), gp.data(), gs.data(), lc.data());
    for (int l = 0; l < 2; ++l) CHECK(lc[l] == 0, "imbalance statistic ", k, " of level ", l, " is ", lc[l], " with one thread");
  }
}
pbt::Known k1("imbalance-statistics", imbalance);

pbt::Reg r1("kernel-cost", "at least 3 nodes and one dependence", 200000, 3000000, kernel_cost, small_dag_prefix);
pbt::Reg r2("subtree-cost", "at least 3 nodes", 80000, 1000000, subtree, small_forest_prefix);
pbt::Reg r3("column-counts", "at least 3 columns and one entry", 50000, 500000, percol);
pbt::Reg r4("components", "at least 3 nodes and a range of several levels", 150000, 2500000, components, small_dag_prefix);
pbt::Reg r5("kernel-statistics", "at least 3 nodes and one dependence", 80000, 1000000, stats, small_dag_prefix);
}

// the same on large cases
static pbt::Big big0("kernel-cost", 1500, 1500, 30000);
static pbt::Big big1("subtree-cost", 1500, 1500, 30000);
static pbt::Big big2("column-counts", 1500, 1500, 30000);
static pbt::Big big3("components", 1500, 1500, 30000);
static pbt::Big big4("kernel-statistics", 1500, 1500, 30000);
// and on more nodes, edges or levels than 16 bits can count
static pbt::Big huge0("kernel-cost", 70001, 16, 320);
static pbt::Big huge1("subtree-cost", 70001, 16, 320);
static pbt::Big huge2("column-counts", 70000, 16, 320);
static pbt::Big huge3("components", 70000, 16, 320);
