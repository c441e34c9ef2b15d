// C01: tree LBC schedules
#include "gen.h"
#include "aggregation/def.h"
#include "aggregation/lbc.h"
using namespace gen;
using namespace pbt;

struct Arr { int *lp = nullptr, *pp = nullptr, *np = nullptr; ~Arr() { delete[] lp; delete[] pp; delete[] np; } };

static void tree_params(Src &s, Ctx &c, int &inner, int &dist, int &div) {
  inner = (int)s.weighted({6, 3, 1}) == 0 ? gen_par(s, 1, 4) : gen_par(s, 1, 20);
  dist = s.weighted({2, 3, 1}) == 0 ? -1 : gen_par(s, 0, 6);
  div = gen_par(s, 2, 6);
  if (s.chance(1, 12)) { div = s.range(-1, 1); c.label("divRate<=1"); }
}

static void tree_case(Src &s, Ctx &c) {
  VI par = gen_forest(s, c);
  int n = (int)par.size();
  VD w = gen_cost_any(s, c, n);
  int inner, dist, div;
  tree_params(s, c, inner, dist, div);
  c.show("parent=", vec(par), " cost=", vec(w), " innerParts=", inner, " minLevelDist=", dist, " divRate=", div);
  Arr a; int nl = 0, parts = 0;
  int ret = sym_lib::get_coarse_levelSet_tree(n, par.data(), nl, a.lp, parts, a.pp, a.np, inner, dist, div, w.data());
  CHECK(ret == nl, "returned ", ret, " but the level count is ", nl);
  Sched S = read_sched(n, nl, a.lp, a.pp, a.np);
  CHECK(parts == S.nparts, "reported ", parts, " partitions, arrays hold ", S.nparts);
  bool e = false;
  for (int u = 0; u < n; ++u) if (par[u] >= 0) { check_edge(S, u, par[u]); e = true; }
  if (nl > 1) c.label("levels>1");
  if (S.nparts > nl) c.label("parallel-level");
  c.nontrivial = n >= 3 && e;
}
static Reg r1("tree", "forest with >=3 nodes and an edge", 250000, 5000000, tree_case, small_forest_prefix);

// matrix entry point: lower half (stype -1) or upper half (1) or general (0) storage of a symmetric-pattern matrix
static void matrix_case(Src &s, Ctx &c) {
  Dag d = gen_dag(s, c, 90);
  int n = d.n;
  VD w = gen_cost_any(s, c, n);
  int inner, dist, div;
  tree_params(s, c, inner, dist, div);
  int kind = (int)s.weighted({4, 2, 2});
  VI p, i; int st;
  if (kind == 0) { to_csc(d, p, i); st = -1; c.label("lower half"); }
  else if (kind == 1) { to_csr(d, p, i); st = 1; c.label("upper half"); }
  else { // general symmetric pattern, both halves
    st = 0; c.label("general");
    std::vector<VI> col(n);
    for (int u = 0; u < n; ++u) { col[u].push_back(u); for (int v : d.out[u]) { col[u].push_back(v); col[v].push_back(u); } }
    p.assign(n + 1, 0);
    for (int u = 0; u < n; ++u) { std::sort(col[u].begin(), col[u].end()); i.insert(i.end(), col[u].begin(), col[u].end()); p[u + 1] = (int)i.size(); }
    i.shrink_to_fit();
  }
  c.show(d.str(), " stype=", st, " cost=", vec(w), " innerParts=", inner, " minLevelDist=", dist, " divRate=", div);
  Arr a; int nl = 0, parts = 0;
  sym_lib::get_coarse_levelSet_DAG_CSC_tree(n, p.data(), i.data(), st, nl, a.lp, parts, a.pp, a.np, inner, dist, div, w.data());
  Sched S = read_sched(n, nl, a.lp, a.pp, a.np);
  CHECK(parts == S.nparts, "reported ", parts, " partitions, arrays hold ", S.nparts);
  check_sched_dag(S, d);
  sched_labels(c, S, d);
}
static Reg r2("matrix", "matrix with >=3 columns and an off-diagonal entry", 160000, 3000000, matrix_case, small_dag_prefix);

// the same on large cases
static pbt::Big big0("tree", 2500, 1500, 30000);
static pbt::Big big1("matrix", 2500, 1500, 30000);
// and on more nodes, edges or levels than 16 bits can count
static pbt::Big huge0("tree", 70001, 32, 320);
static pbt::Big huge1("matrix", 70001, 32, 320);
