// C04: HDAGG-family schedules
#include "gen.h"
#include "aggregation/def.h"
#include "aggregation/hdagg.h"
using namespace gen;
using namespace pbt;

static int gen_cores(Src &s) { return s.weighted({7, 3}) == 0 ? gen_par(s, 1, 5) : gen_par(s, 1, 24); }
// output vectors may be reused by a caller, so they sometimes hold old contents
static void dirty(Src &s, VI &a, VI &b, VI &d) {
  if (!s.chance(1, 3)) return;
  a.assign(s.range(1, 9), 7); b.assign(s.range(1, 9), 5); d.assign(s.range(1, 9), 3);
}
static Sched check_vec(Ctx &c, const Dag &d, int nl, const VI &lp, const VI &pp, const VI &np) {
  CHECK((int)lp.size() == nl + 1, "level pointer has ", lp.size(), " entries for ", nl, " levels");
  CHECK(nl >= 1 && lp[nl] >= 0 && (int)pp.size() == lp[nl] + 1, "partition pointer has ", pp.size(), " entries for ", lp[nl], " partitions");
  CHECK((int)np.size() == d.n, "node array has ", np.size(), " entries for ", d.n, " nodes");
  Sched S = read_sched(d.n, nl, lp.data(), pp.data(), np.data());
  try { check_sched_dag(S, d); } catch (Failure &f) { fail(cat(f.what(), "  schedule ", show_sched(nl, lp.data(), pp.data(), np.data()))); }
  sched_labels(c, S, d);
  return S;
}

static void inspect(Src &s, Ctx &c, bool v2) {
  Dag d = gen_dag(s, c);
  VI p, i; to_csc(d, p, i);
  VD w = gen_cost(s, c, d.n);
  int cores = gen_cores(s);
  bool bp = s.flip(), po = s.flip();
  VI lp, pp, np; dirty(s, lp, pp, np);
  c.show(d.str(), " cost=", vec(w), " cores=", cores, " bin_pack=", bp, " postOrder=", po);
  int nl = 0;
  VI wm = (v2 ? HDAGG::GLC_V2 : HDAGG::HDAGG)(d.n, (int)i.size(), p, i, w, cores, nl, lp, pp, np, false, po, bp);
  c.label(bp ? "bin-pack" : "components");
  Sched S = check_vec(c, d, nl, lp, pp, np);
  // the returned merge vector describes the coarsened levels
  VI L = levels_of(d);
  int h = *std::max_element(L.begin(), L.end()) + 1;
  CHECK((int)wm.size() == nl + 1 && wm[0] == 0 && wm[nl] == h, "merge vector ", vec(wm), " for ", nl, " coarsened levels and ", h, " wavefronts");
  for (int l = 0; l < nl; ++l) CHECK(wm[l] < wm[l + 1], "merge vector not increasing ", vec(wm));
  for (int u = 0; u < d.n; ++u) CHECK(wm[S.lev[u]] <= L[u] && L[u] < wm[S.lev[u] + 1], "node ", u, " of wavefront ", L[u], " is in coarsened level ", S.lev[u], " = wavefronts ", wm[S.lev[u]], "..", wm[S.lev[u] + 1] - 1);
}
static const char *RULE = "pattern with >=3 columns and an off-diagonal entry";
static Reg r1("hdagg", RULE, 220000, 4000000, [](Src &s, Ctx &c) { inspect(s, c, false); }, small_dag_prefix);
static Reg r2("glc_v2", RULE, 220000, 4000000, [](Src &s, Ctx &c) { inspect(s, c, true); }, small_dag_prefix);

// coarsened levels by fixed number of wavefronts: the number depends on the average row size,
// so half of the cases are dense enough (>=10 entries per row)
static void coarsened(Src &s, Ctx &c) {
  Dag d;
  if (s.weighted({2, 5}) == 0) d = gen_dag(s, c);
  else {
    int shape = s.range(0, 2);
    d.n = s.range(20, shape == 2 ? 260 : 90); d.out.assign(d.n, {}); d.family = "dense";
    int b = s.range(10, 22), blk = s.range(20, 45), drop = s.range(8, 40);
    for (int u = 0; u < d.n; ++u) for (int v = u + 1; v < d.n; ++v) {
      bool in = shape == 0 ? v <= u + b : shape == 1 ? v / blk == u / blk : true;
      if (in && !s.chance(1, drop)) d.out[u].push_back(v);
    }
    c.label(cat("dense:", shape));
  }
  VI p, i; to_csc(d, p, i);
  int cores = gen_cores(s);
  c.show(d.n > 60 ? cat("n=", d.n, " nnz=", i.size()) : d.str(), " cores=", cores);
  if (p[d.n] / d.n >= 10) c.label("merged wavefronts");
  if (p[d.n] / d.n >= 100) c.label("very dense");
  VI lp, pp, np; int nl = 0;
  if (s.chance(1, 3)) { lp.assign(s.range(1, 5), 0); pp.assign(s.range(1, 5), 0); np.assign(s.range(1, 5), 0); }
  HDAGG::build_coarsened_level_parallel(d.n, p.data(), i.data(), cores, nl, lp, pp, np);
  // the fallback for very sparse graphs keeps vectors of n+1 entries
  CHECK(nl >= 1 && (int)lp.size() >= nl + 1 && (int)pp.size() >= lp[nl] + 1 && (int)np.size() >= d.n, "output arrays too short");
  Sched S = read_sched(d.n, nl, lp.data(), pp.data(), np.data());
  // wavefronts put independent nodes of one level into one partition
  try { check_sched_dag(S, d); } catch (Failure &f) { fail(cat(f.what(), "  schedule ", show_sched(nl, lp.data(), pp.data(), np.data()))); }
  sched_labels(c, S, d);
}
static Reg r3("coarsened-levels", RULE, 60000, 800000, coarsened);

// the schedule builder on its own: any cut of the wavefronts, any monotone assignment of components to cores
static void schedule(Src &s, Ctx &c) {
  Dag d = gen_dag(s, c);
  int n = d.n;
  VI p, i; to_csc(d, p, i);
  VI L = levels_of(d);
  int h = *std::max_element(L.begin(), L.end()) + 1;
  VI lptr(h + 1, 0), lset;
  for (int l = 0; l < h; ++l) { for (int u = 0; u < n; ++u) if (L[u] == l) lset.push_back(u); lptr[l + 1] = (int)lset.size(); }
  VI wm{0};
  for (int l = 1; l < h; ++l) if (s.chance(1, 3)) wm.push_back(l);
  wm.push_back(h);
  int cores = gen_cores(s);
  bool serial = s.flip(), po = s.flip();
  std::vector<VI> chunks(wm.size() - 1);
  for (auto &ch : chunks) {
    ch.assign(cores + 1, 0);
    for (int k = 1; k < cores; ++k) ch[k] = std::min(n, ch[k - 1] + s.range(0, 3));
    ch[cores] = n; // clipped to the number of components
  }
  VI lp, pp, np; dirty(s, lp, pp, np);
  c.show(d.str(), " WM=", vec(wm), " cores=", cores, " merge=", serial, " postOrder=", po);
  int nl = 0;
  HDAGG::computeSchedule(cores, n, p.data(), i.data(), lptr.data(), lset.data(), L.data(), wm, chunks, nl, lp, pp, np, serial, po);
  CHECK(nl == (int)wm.size() - 1, nl, " coarsened levels for merge vector ", vec(wm));
  Sched S = check_vec(c, d, nl, lp, pp, np);
  for (int u = 0; u < n; ++u) CHECK(wm[S.lev[u]] <= L[u] && L[u] < wm[S.lev[u] + 1], "node ", u, " of wavefront ", L[u], " is in coarsened level ", S.lev[u]);
  for (int l = 0; serial && l < nl; ++l) CHECK(lp[l + 1] - lp[l] == cores, "level ", l, " has ", lp[l + 1] - lp[l], " partitions for ", cores, " cores");
}
static Reg r4("schedule-builder", RULE, 220000, 4000000, schedule, small_dag_prefix);

// the same on large cases
static pbt::Big big0("hdagg", 2500, 1500, 30000);
static pbt::Big big1("glc_v2", 2500, 1500, 30000);
static pbt::Big big2("coarsened-levels", 2500, 1500, 30000);
static pbt::Big big3("schedule-builder", 2500, 1500, 30000);
// and on more nodes, edges or levels than 16 bits can count
static pbt::Big huge0("coarsened-levels", 70001, 16, 320);
static pbt::Big huge1("schedule-builder", 70001, 16, 320);
static pbt::Big huge2("hdagg", 70000, 16, 320);
static pbt::Big huge3("glc_v2", 70000, 16, 320);
