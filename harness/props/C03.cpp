// C03: blocked LBC schedules
#include "blocks.h"
#include "aggregation/def.h"
#include "aggregation/lbc.h"
#include "aggregation/sparse_inspector.h"
using namespace gen;
using namespace pbt;

struct Arr { int *lp = nullptr, *pp = nullptr, *np = nullptr; ~Arr() { delete[] lp; delete[] pp; delete[] np; } };

static void lbc(Src &s, Ctx &c) {
  Blk b = gen_blk(s, c);
  int n = b.d.n;
  VD w = gen_cost_any(s, c, n);
  int inner = s.weighted({6, 3}) == 0 ? gen_par(s, 1, 4) : gen_par(s, 1, 20);
  int dist = s.weighted({2, 3}) == 0 ? -1 : gen_par(s, 0, 6);
  int div = gen_par(s, 2, 6);
  c.show(b.str(), " rows=", vec(b.li), " cost=", vec(w), " innerParts=", inner, " minLevelDist=", dist, " divRate=", div);
  Arr a; int nl = 0, parts = 0, *pls = nullptr;
  int ret = sym_lib::getCoarseLevelSet_DAG_BCSC02(n, b.lp.data(), b.lip.data(), b.li.data(), b.blk2col.data(), b.col2blk.data(), nl, a.lp, pls, parts, a.pp, a.np, inner, dist, div, w.data());
  CHECK(ret == nl, "returned ", ret, " but the level count is ", nl);
  Sched S = read_sched(n, nl, a.lp, a.pp, a.np);
  CHECK(parts == S.nparts, "reported ", parts, " partitions, arrays hold ", S.nparts);
  try { check_sched_dag(S, b.d); } catch (Failure &f) { fail(cat(f.what(), "  schedule ", show_sched(nl, a.lp, a.pp, a.np))); }
  sched_labels(c, S, b.d);
}
static Reg r1("blocked-lbc", "block pattern with >=3 blocks and a dependence", 300000, 4000000, lbc, small_dag_prefix);

static void wave(Src &s, Ctx &c) {
  Blk b = gen_blk(s, c);
  int n = b.d.n;
  c.show(b.str(), " rows=", vec(b.li));
  int *lp = nullptr; size_t *ls = nullptr;
  int nl = sym_lib::build_levelSet_BCSC(b.ncol, (int)b.lp[b.ncol], b.lp.data(), b.lip.data(), b.li.data(), n, b.blk2col.data(), b.col2blk.data(), lp, ls);
  VI L = levels_of(b.d), seen(n, 0);
  int mx = *std::max_element(L.begin(), L.end()) + 1;
  CHECK(nl == mx, "reported ", nl, " wavefronts, longest dependence path needs ", mx);
  CHECK(lp[0] == 0 && lp[nl] == n, "wavefront pointer covers ", lp[0], "..", lp[nl], " of ", n);
  for (int l = 0; l < nl; ++l) {
    CHECK(lp[l] <= lp[l + 1] && lp[l + 1] <= n, "bad wavefront pointer");
    for (int j = lp[l]; j < lp[l + 1]; ++j) {
      size_t u = ls[j];
      CHECK(u < (size_t)n, "block ", u, " out of range");
      CHECK(!seen[u]++, "block ", u, " listed twice");
      CHECK(L[u] == l, "block ", u, " in wavefront ", l, ", its longest dependence path has length ", L[u]);
    }
  }
  delete[] lp; delete[] ls;
  c.nontrivial = n >= 3 && b.d.edges() > 0;
}
static Reg r2("block-wavefronts", "block pattern with >=3 blocks and a dependence", 200000, 3000000, wave, small_dag_prefix);

// the same on large cases
static pbt::Big big0("blocked-lbc", 2500, 1500, 30000);
static pbt::Big big1("block-wavefronts", 2500, 1500, 30000);
// and on more nodes, edges or levels than 16 bits can count
static pbt::Big huge0("blocked-lbc", 70001, 32, 320);
static pbt::Big huge1("block-wavefronts", 70001, 32, 320);
