// C29: HDAGG merges wavefronts while the cores stay balanced and deals components by cost
#include "gen.h"
#include "aggregation/def.h"
#include "aggregation/hdagg.h"
#include "aggregation/lbc.h"
using namespace gen;
using namespace pbt;

struct Band { std::vector<VI> comp; std::vector<long> cost; long total = 0; };
// connected components of wavefronts lb..ub-1, in the order of their first member (by wavefront, then index)
static Band band_of(const Dag &d, const VI &L, const VD &w, int lb, int ub) {
  VI p(d.n); std::iota(p.begin(), p.end(), 0);
  auto find = [&](int x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; };
  auto in = [&](int u) { return L[u] >= lb && L[u] < ub; };
  for (int u = 0; u < d.n; ++u) if (in(u)) for (int v : d.out[u]) if (in(v)) p[find(u)] = find(v);
  VI order; for (int u = 0; u < d.n; ++u) if (in(u)) order.push_back(u);
  std::stable_sort(order.begin(), order.end(), [&](int a, int b) { return L[a] < L[b]; });
  Band B; std::map<int, int> id;
  for (int u : order) {
    auto r = id.insert({find(u), (int)B.comp.size()});
    if (r.second) { B.comp.push_back({}); B.cost.push_back(0); }
    B.comp[r.first->second].push_back(u);
    B.cost[r.first->second] += w.empty() ? 1 : (long)w[u];
    B.total += w.empty() ? 1 : (long)w[u];
  }
  for (auto &x : B.comp) std::sort(x.begin(), x.end());
  return B;
}
// every core takes components until it holds its share of what is left, the last core takes the rest
static std::vector<VI> deal(const Band &B, int cores, std::vector<long> &load) {
  std::vector<VI> r(cores); load.assign(cores, 0);
  int nc = (int)B.comp.size();
  if (nc < cores) { for (int k = 0; k < nc; ++k) { r[k] = {k}; load[k] = B.cost[k]; } return r; }
  long rest = B.total; int t = 0;
  for (int k = 0; k < nc;) {
    if (t == cores - 1 || load[t] * (cores - t) < rest) { load[t] += B.cost[k]; r[t].push_back(k++); }
    else { rest -= load[t]; ++t; }
  }
  return r;
}
// divergence of the loads from an even distribution; NaN when a core is idle
static double divergence(const std::vector<long> &load, long total, int eff) {
  double s = 0;
  for (int k = 0; k < eff; ++k) { double x = (double)load[k] / (double)total; s += x * std::log2(x * eff); }
  return s;
}
static const double LIMIT = 0.003, EPS = 1e-9;

static Dag gen_wide(Src &s, Ctx &c) {
  Dag d;
  int k = (int)s.weighted({4, 3, 3});
  if (k == 0) return gen_dag(s, c);
  if (k == 1) {                       // several independent, often equal blocks
    int m = s.range(1, up(6)), len = s.range(1, up(8)), dev = s.range(0, 2), cross = s.range(0, 2);
    VI at; d.n = 0; std::vector<int> ls;
    for (int b = 0; b < m; ++b) { at.push_back(d.n); ls.push_back(std::max(1, len - (dev ? s.range(0, dev) : 0))); d.n += ls[b]; }
    d.out.assign(d.n, {});
    for (int b = 0; b < m; ++b) for (int t = 0; t + 1 < ls[b]; ++t) d.out[at[b] + t].push_back(at[b] + t + 1);
    for (int t = 0; t < cross && d.n > 1; ++t) { int u = s.range(0, d.n - 2); d.out[u].push_back(s.range(u + 1, d.n - 1)); }
    c.label("parallel chains");
  } else {                            // layers of equal width
    int lay = s.range(1, up(7)), wd = s.range(1, up(7)), extra = s.range(0, 3);
    d.n = lay * wd; d.out.assign(d.n, {});
    bool mix = s.flip();
    for (int l = 0; l + 1 < lay; ++l) for (int t = 0; t < wd; ++t) {
      d.out[l * wd + t].push_back((l + 1) * wd + (mix && s.chance(1, 6) ? s.range(0, wd - 1) : t));
      if (extra && s.chance(extra, 20)) d.out[l * wd + t].push_back((l + 1) * wd + s.range(0, wd - 1));
    }
    c.label("equal layers");
  }
  d.norm();
  return d;
}
static VD gen_even_cost(Src &s, Ctx &c, int n) {
  if (s.flip()) return gen_cost(s, c, n);
  VD w(n); int base = s.pick(VI{1, 7, 100, 1000}), dev = s.range(0, 3);
  for (auto &x : w) x = base + (dev ? s.range(0, dev) : 0);
  return w;
}

static void merged(Src &s, Ctx &c, bool v2) {
  Dag d = gen_wide(s, c);
  int n = d.n;
  VI p, i; to_csc(d, p, i);
  VD w = gen_even_cost(s, c, n);
  int cores = s.weighted({6, 2}) == 0 ? gen_par(s, 1, 4) : gen_par(s, 1, 12);
  bool bp = s.weighted({1, 3}) == 1, po = s.flip();
  VI lp, pp, np; int nl = 0;
  c.show(d.str(), " cost=", vec(w), " cores=", cores, " bin_pack=", bp);
  VI wm = (v2 ? HDAGG::GLC_V2 : HDAGG::HDAGG)(n, (int)i.size(), p, i, w, cores, nl, lp, pp, np, false, po, bp);
  Sched S = read_sched(n, nl, lp.data(), pp.data(), np.data());
  VI L = levels_of(d), width(n + 1, 0);
  int h = *std::max_element(L.begin(), L.end()) + 1;
  for (int x : L) width[x]++;
  CHECK((int)wm.size() == nl + 1 && wm[0] == 0 && wm[nl] == h, "merge vector ", vec(wm), " for ", nl, " levels and ", h, " wavefronts");
  auto sch = [&] { return show_sched(nl, lp.data(), pp.data(), np.data()); };
  bool packed = false;
  for (int l = 0; l < nl; ++l) {
    int lb = wm[l], ub = wm[l + 1];
    Band B = band_of(d, L, w, lb, ub);
    std::vector<long> load;
    std::vector<VI> part;
    for (int q = lp[l]; q < lp[l + 1]; ++q) { VI x(np.begin() + pp[q], np.begin() + pp[q + 1]); std::sort(x.begin(), x.end()); part.push_back(x); }
    if (!bp) {
      auto a = part, b = B.comp; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
      CHECK(a == b, "level ", l, " of wavefronts ", lb, "..", ub - 1, " does not hold one partition per connected component: ", sch());
    } else {
      auto want = deal(B, cores, load);
      CHECK((int)part.size() == cores, "level ", l, " has ", part.size(), " partitions for ", cores, " cores");
      for (int k = 0; k < cores; ++k) {
        VI x; for (int q : want[k]) x.insert(x.end(), B.comp[q].begin(), B.comp[q].end());
        std::sort(x.begin(), x.end());
        long got = 0; for (int u : part[k]) got += w.empty() ? 1 : (long)w[u];
        CHECK(x == part[k], "core ", k, " of level ", l, " (wavefronts ", lb, "..", ub - 1, ") gets ", vec(part[k]), " with cost ", got, ", its share by cost is ", vec(x), " with cost ", load[k], ": ", sch());
      }
      packed = packed || (int)B.comp.size() > cores;
    }
    // a level of several wavefronts is balanced; one that ends before the last wavefront could not take the next
    double sum = 0, last = 0; int eff = cores; bool idle = false;
    for (int k = lb + 1; k <= std::min(h, ub + 1); ++k) {
      if (k == lb + 1 && width[lb] < cores) eff = width[lb];
      else if (width[k - 1] > eff) eff = cores;
      Band X = band_of(d, L, w, lb, k);
      std::vector<long> ld; deal(X, cores, ld);
      double v = divergence(ld, X.total, eff);
      if (k == ub) last = v;
      if (std::isnan(v)) idle = true;
      sum += v;
    }
    if (ub - lb > 1) CHECK(last < LIMIT + EPS, "wavefronts ", lb, "..", ub - 1, " are merged with a divergence of ", last, " between the cores: ", sch());
    if (ub < h) CHECK(idle || sum >= LIMIT - EPS, "level ", l, " ends at wavefront ", ub, " of ", h, " although wavefronts ", lb, "..", ub, " are balanced (divergence ", sum, "): ", sch());
  }
  if (nl < h) c.label("merged wavefronts");
  if (nl < h && nl > 1) c.label("merged and cut");
  if (packed) c.label("several components per core");
  if (nl > 1 && wm[nl] - wm[nl - 1] > 1) c.label("last level merged");
  c.nontrivial = n >= 3 && h > 1 && nl < h && cores > 1;
}
static const char *RULE = "several cores, and several wavefronts some of which were merged";
static Reg r1("hdagg", RULE, 200000, 3000000, [](Src &s, Ctx &c) { merged(s, c, false); });
static Reg r2("glc_v2", RULE, 200000, 3000000, [](Src &s, Ctx &c) { merged(s, c, true); });

// fixed number of wavefronts per level, chosen by the average number of entries per column
static void fixed(Src &s, Ctx &c) {
  Dag d;
  if (s.weighted({1, 4}) == 0) d = gen_dag(s, c);
  else {
    int shape = s.range(0, 3);
    d.n = shape == 3 ? s.range(215, 260) : s.range(20, 90); d.out.assign(d.n, {}); d.family = "dense";
    int b = s.range(10, 22), blk = s.range(20, 45), drop = s.range(8, 40);
    for (int u = 0; u < d.n; ++u) for (int v = u + 1; v < d.n; ++v) {
      bool in = shape == 0 ? v <= u + b : shape == 1 ? v / blk == u / blk : true;
      if (in && !s.chance(1, drop)) d.out[u].push_back(v);
    }
  }
  int n = d.n, cores = gen_par(s, 1, 9);
  VI p, i; to_csc(d, p, i);
  c.show(n > 60 ? cat("n=", n, " nnz=", i.size()) : d.str(), " cores=", cores);
  VI lp, pp, np; int nl = 0;
  HDAGG::build_coarsened_level_parallel(n, p.data(), i.data(), cores, nl, lp, pp, np);
  VI L = levels_of(d);
  int h = *std::max_element(L.begin(), L.end()) + 1, ratio = p[n] / n, k = ratio < 10 ? 0 : ratio < 100 ? 6 : 9;
  int want = k ? (h + k - 1) / k : h;
  CHECK(nl == want, nl, " levels for ", h, " wavefronts in steps of ", k);
  int parts = -1, step = -1, cut = -1; bool pack = true;
  sym_lib::lbc_config(n, p[n], cores, parts, step, cut, pack);
  CHECK(parts == cores && step == k && cut == k && !pack, "tuning for ", n, " nodes, ", p[n], " entries, ", cores, " cores: ", parts, " parts, step ", step, ", cut ", cut, ", packing ", pack);
  for (int l = 0; l < nl; ++l) {
    std::vector<VI> part;
    for (int q = lp[l]; q < lp[l + 1]; ++q) { VI x(np.begin() + pp[q], np.begin() + pp[q + 1]); std::sort(x.begin(), x.end()); part.push_back(x); }
    std::sort(part.begin(), part.end());
    if (k) {
      Band B = band_of(d, L, {}, l * k, std::min(h, l * k + k));
      std::sort(B.comp.begin(), B.comp.end());
      CHECK(part == B.comp, "level ", l, " does not hold one partition per component of wavefronts ", l * k, "..", std::min(h, l * k + k) - 1);
    } else {
      VI x; for (int u = 0; u < n; ++u) if (L[u] == l) x.push_back(u);
      CHECK(part.size() == 1 && part[0] == x, "level ", l, " is not wavefront ", l);
    }
  }
  c.label(cat("step ", k));
  c.nontrivial = n >= 3 && h > 1;
}
static Reg r3("fixed-steps", "at least 3 nodes and two wavefronts", 40000, 600000, fixed);

// the same on large cases
static pbt::Big big0("hdagg", 2500, 1500, 30000);
static pbt::Big big1("glc_v2", 2500, 1500, 30000);
static pbt::Big big2("fixed-steps", 2500, 1500, 30000);
// and on more nodes, edges or levels than 16 bits can count
static pbt::Big huge0("fixed-steps", 70001, 16, 320);
static pbt::Big huge1("hdagg", 70000, 16, 320);
static pbt::Big huge2("glc_v2", 70000, 16, 320);
