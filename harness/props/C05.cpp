// C05: parallelism bound and bin packing
#include "gen.h"
#include "blocks.h"
#include "aggregation/def.h"
#include "aggregation/hdagg.h"
#include "aggregation/lbc.h"
#include "aggregation/lbc_utils.h"
using namespace gen;
using namespace pbt;

// integer-valued cost so that every sum is exact whatever the order
static double icost(Src &s, int kind) {
  switch (kind) {
  case 0: return s.range(1, 9);
  case 1: return s.chance(1, 4) ? s.range(100, 5000) : s.range(0, 3);
  case 2: return (double)(1 + s.draw(1ull << 34));
  case 3: return 5;
  default: return std::ldexp(1.0 + s.range(0, 7), s.range(0, pbt::big_mode() ? 36 : 40)); // sums stay exact
  }
}
static void pack(Src &s, Ctx &c) {
  int np = sz_of(s, 0, s.chance(1, 3) ? 60 : 12), bins = s.range(1, up(9));
  int kind = s.range(0, 4);
  std::vector<VI> parts(np);
  VD cost(np);
  int node = 0;
  for (int k = 0; k < np; ++k) {
    int m = s.range(s.chance(1, 8) ? 0 : 1, 3);
    for (int t = 0; t < m; ++t) parts[k].push_back(node++);
    cost[k] = icost(s, kind);
  }
  // labels of the nodes are arbitrary
  VI lab(node); std::iota(lab.begin(), lab.end(), 0);
  for (int k = node - 1; k > 0; --k) std::swap(lab[k], lab[s.range(0, k)]);
  VI owner(node, -1);
  for (int k = 0; k < np; ++k) for (int &u : parts[k]) { u = lab[u]; owner[u] = k; }
  VD load(bins, 0.0);
  if (s.chance(1, 4)) { c.label("preloaded bins"); for (auto &x : load) x = icost(s, kind); }
  double thr = s.range(0, 50);
  std::ostringstream ps; for (auto &q : parts) ps << vec(q);
  c.show("parts=", ps.str(), " cost=", vec(cost), " bins=", bins, " initial load=", vec(load));
  VD out = load, in = cost;
  in.shrink_to_fit(); out.shrink_to_fit();
  std::vector<VI> merged(bins);
  int ret = sym_lib::worst_fit_bin_pack(parts, in.data(), merged, out.data(), (int)thr, bins);
  CHECK(ret == bins, "returned ", ret, " bins instead of ", bins);
  CHECK((int)merged.size() == bins, merged.size(), " bins instead of ", bins);
  CHECK(in == cost, "input costs changed");
  // every part lies whole and in order in exactly one bin, heavier parts first
  VI bin_of(np, -1); VD got = load; int seen = 0;
  for (int b = 0; b < bins; ++b) {
    double prev = HUGE_VAL;
    for (size_t j = 0; j < merged[b].size();) {
      int u = merged[b][j];
      CHECK(u >= 0 && u < node, "unknown node ", u, " in bin ", b);
      int k = owner[u];
      CHECK(bin_of[k] < 0, "part ", k, " packed twice");
      CHECK(j + parts[k].size() <= merged[b].size() && std::equal(parts[k].begin(), parts[k].end(), merged[b].begin() + j), "part ", k, " is split or reordered in bin ", b, ": ", vec(merged[b]));
      CHECK(cost[k] <= prev, "bin ", b, " received part ", k, " of cost ", cost[k], " after a lighter one of cost ", prev);
      prev = cost[k]; bin_of[k] = b; got[b] += cost[k]; seen += (int)parts[k].size(); j += parts[k].size();
    }
  }
  CHECK(seen == node, seen, " of ", node, " nodes packed");
  // empty parts have no visible place; their cost only has to be conserved
  bool empty_cost = false;
  double total = 0, outsum = 0;
  for (int k = 0; k < np; ++k) { total += cost[k]; if (parts[k].empty() && cost[k] != 0) empty_cost = true; }
  for (int b = 0; b < bins; ++b) { total += load[b]; outsum += out[b]; }
  CHECK(outsum == total, "reported loads ", vec(out), " add up to ", outsum, ", parts and initial load to ", total);
  if (!empty_cost) for (int b = 0; b < bins; ++b) CHECK(out[b] == got[b], "bin ", b, " reports load ", out[b], ", it holds ", got[b]);
  // longest-processing-time reference: the multiset of loads does not depend on how ties are broken
  VD ref = load, sorted = cost, o = out;
  std::sort(sorted.rbegin(), sorted.rend());
  for (double x : sorted) *std::min_element(ref.begin(), ref.end()) += x;
  std::sort(ref.begin(), ref.end()); std::sort(o.begin(), o.end());
  CHECK(ref == o, "loads ", vec(o), ", packing each heaviest part into a lightest bin gives ", vec(ref));
  c.nontrivial = np > bins && bins > 1;
}
static Reg r1("bin-packing", "more parts than bins and at least two bins", 900000, 12000000, pack);

// consecutive parts are merged until the cost of the merged part reaches the threshold
static void merging(Src &s, Ctx &c) {
  int np = sz_of(s, 0, s.chance(1, 4) ? 40 : 10), kind = s.range(0, 3);
  std::vector<VI> parts(np);
  VI cost(np);
  int node = 0;
  for (int k = 0; k < np; ++k) {
    for (int m = s.range(s.chance(1, 6) ? 0 : 1, 3); m > 0; --m) parts[k].push_back(node++);
    cost[k] = kind == 0 ? s.range(0, 9) : kind == 1 ? s.range(1, 9) : kind == 2 ? s.range(0, 40000000) : 7;
  }
  VI lab(node); std::iota(lab.begin(), lab.end(), 0);
  for (int k = node - 1; k > 0; --k) std::swap(lab[k], lab[s.range(0, k)]);
  for (auto &q : parts) for (int &u : q) u = lab[u];
  int thr = kind == 2 ? s.range(1, 120000000) : s.range(1, s.chance(1, 3) ? 300 : 20);
  std::ostringstream ps; for (auto &q : parts) ps << vec(q);
  c.show("parts=", ps.str(), " cost=", vec(cost), " threshold=", thr);
  std::vector<VI> ref; VI rcost; bool open = false;
  for (int k = 0; k < np; ++k) {
    if (!open) { ref.push_back({}); rcost.push_back(0); open = true; }
    ref.back().insert(ref.back().end(), parts[k].begin(), parts[k].end());
    rcost.back() += cost[k];
    if (rcost.back() >= thr) open = false;
  }
  std::vector<VI> merged(np), parts0 = parts;
  VI in = cost, out(np, -1); in.shrink_to_fit(); out.shrink_to_fit();
  int ret = sym_lib::merge_inner_part(parts, in.data(), merged, out.data(), thr);
  CHECK(ret == (int)ref.size(), "returned ", ret, " merged parts instead of ", ref.size());
  CHECK(in == cost && parts == parts0, "the input changed");
  for (int k = 0; k < np; ++k) {
    CHECK(merged[k] == (k < ret ? ref[k] : VI()), "merged part ", k, " holds ", vec(merged[k]), " instead of ", vec(k < ret ? ref[k] : VI()));
    CHECK(k >= ret || out[k] == rcost[k], "merged part ", k, " reports cost ", out[k], ", it holds ", rcost[k]);
  }
  c.nontrivial = ret > 1 && ret < np;
}
static Reg r7("merging", "two or more merged parts, one of several parts", 300000, 3000000, merging);

static void minbin(Src &s, Ctx &c) {
  int n = sz_of(s, 1, 20);
  VD v(n);
  for (auto &x : v) x = s.chance(1, 6) ? std::ldexp(1.0, s.range(20, 300)) : gen_double(s);
  if (s.chance(1, 4)) std::fill(v.begin(), v.end(), v[0]);
  c.show("costs=", vec(v));
  int k = sym_lib::find_min(v.data(), n);
  CHECK(k >= 0 && k < n, "index ", k, " of ", n);
  CHECK(v[k] == *std::min_element(v.begin(), v.end()), "bin ", k, " with cost ", v[k], " is not a minimum");
  c.nontrivial = n > 1;
}
static Reg r2("lightest-bin", "at least two bins", 300000, 3000000, minbin);

struct Arr { int *lp = nullptr, *pp = nullptr, *np = nullptr; ~Arr() { delete[] lp; delete[] pp; delete[] np; } };
static void widths(Ctx &c, int nl, const int *lp, int bound, bool exact) {
  for (int l = 0; l < nl; ++l) {
    int k = lp[l + 1] - lp[l];
    if (exact) CHECK(k == bound, "coarsened level ", l, " has ", k, " partitions for ", bound, " cores");
    else CHECK(k <= bound, "coarsened level ", l, " has ", k, " partitions, ", bound, " were requested");
    if (k == bound && bound > 1) c.label("full level");
  }
}
static std::vector<VI> level_sets(const Sched &S) {
  std::vector<VI> r(S.nlev);
  for (size_t u = 0; u < S.lev.size(); ++u) r[S.lev[u]].push_back((int)u);
  return r;
}
static void tree(Src &s, Ctx &c) {
  VI par = gen_forest(s, c);
  int n = (int)par.size();
  VD w = gen_cost_any(s, c, n);
  int inner = gen_par(s, 2, 12), dist = s.weighted({2, 3}) == 0 ? -1 : gen_par(s, 0, 6), div = gen_par(s, 2, 6);
  c.show("parent=", vec(par), " cost=", vec(w), " innerParts=", inner, " minLevelDist=", dist, " divRate=", div);
  Arr a; int nl = 0, parts = 0;
  sym_lib::get_coarse_levelSet_tree(n, par.data(), nl, a.lp, parts, a.pp, a.np, inner, dist, div, w.data());
  read_sched(n, nl, a.lp, a.pp, a.np);
  widths(c, nl, a.lp, inner, false);
  c.nontrivial = n > inner;
}
static Reg r3("tree-lbc", "more nodes than parts", 250000, 3000000, tree);

static void dag(Src &s, Ctx &c) {
  Dag d = gen_dag(s, c);
  int n = d.n;
  VI p, i; to_csc(d, p, i);
  VD w = gen_cost_any(s, c, n);
  int inner = gen_par(s, 2, 12), dist, div;
  if (s.weighted({2, 5}) == 0) { dist = -1; div = gen_par(s, 2, 7); } else { dist = gen_par(s, 1, 5); div = gen_par(s, 1, 7); }
  int variant = s.range(0, 2);
  c.show(d.str(), " cost=", vec(w), " innerParts=", inner, " minLevelDist=", dist, " divRate=", div, " variant=", variant);
  Arr a, b; int nl = 0, nl2 = 0, parts = 0;
  if (variant == 0) sym_lib::get_coarse_levelSet_DAG_CSC(n, p.data(), i.data(), nl, a.lp, parts, a.pp, a.np, inner, dist, div, w.data(), true);
  else if (variant == 1) sym_lib::get_coarse_Level_set_DAG_CSC03(n, p.data(), i.data(), nl, a.lp, parts, a.pp, a.np, inner, dist, div, w.data());
  else sym_lib::get_coarse_Level_set_DAG_CSC03_parallel(n, p.data(), i.data(), nl, a.lp, parts, a.pp, a.np, inner, dist, div, w.data(), s.range(1, 4), true);
  Sched S = read_sched(n, nl, a.lp, a.pp, a.np);
  widths(c, nl, a.lp, inner, false);
  if (variant != 1) {
    if (variant == 0) sym_lib::get_coarse_levelSet_DAG_CSC(n, p.data(), i.data(), nl2, b.lp, parts, b.pp, b.np, inner, dist, div, w.data(), false);
    else sym_lib::get_coarse_Level_set_DAG_CSC03_parallel(n, p.data(), i.data(), nl2, b.lp, parts, b.pp, b.np, inner, dist, div, w.data(), 1, false);
    Sched T = read_sched(n, nl2, b.lp, b.pp, b.np);
    CHECK(level_sets(S) == level_sets(T), "coarsened levels differ with and without bin packing: ", show_sched(nl, a.lp, a.pp, a.np), " and ", show_sched(nl2, b.lp, b.pp, b.np));
    // packing keeps every unpacked partition whole
    for (auto &q : T.parts) for (int u : q) CHECK(S.part[u] == S.part[q[0]], "nodes ", q[0], " and ", u, " of one component are packed into two partitions");
  }
  c.nontrivial = n > inner;
}
static Reg r4("dag-lbc", "more nodes than parts", 250000, 3000000, dag, small_dag_prefix);

static void blocked(Src &s, Ctx &c) {
  Blk b = gen_blk(s, c);
  int n = b.d.n;
  VD w = gen_cost_any(s, c, n);
  int inner = gen_par(s, 2, 12), dist = s.weighted({2, 3}) == 0 ? -1 : gen_par(s, 0, 6), div = gen_par(s, 2, 6);
  c.show(b.str(), " rows=", vec(b.li), " cost=", vec(w), " innerParts=", inner, " minLevelDist=", dist, " divRate=", div);
  Arr a; int nl = 0, parts = 0, *pls = nullptr;
  sym_lib::getCoarseLevelSet_DAG_BCSC02(n, b.lp.data(), b.lip.data(), b.li.data(), b.blk2col.data(), b.col2blk.data(), nl, a.lp, pls, parts, a.pp, a.np, inner, dist, div, w.data());
  read_sched(n, nl, a.lp, a.pp, a.np);
  widths(c, nl, a.lp, inner, false);
  c.nontrivial = n > inner;
}
static Reg r5("blocked-lbc", "more blocks than parts", 150000, 2000000, blocked, small_dag_prefix);

static void hdagg(Src &s, Ctx &c) {
  Dag d = gen_dag(s, c);
  VI p, i; to_csc(d, p, i);
  VD w = gen_cost(s, c, d.n);
  int cores = s.weighted({7, 3}) == 0 ? gen_par(s, 1, 5) : gen_par(s, 1, 24);
  bool v2 = s.flip();
  VI lp, pp, np, lp2, pp2, np2; int nl = 0, nl2 = 0;
  c.show(d.str(), " cost=", vec(w), " cores=", cores, v2 ? " GLC_V2" : " HDAGG");
  auto f = v2 ? HDAGG::GLC_V2 : HDAGG::HDAGG;
  f(d.n, (int)i.size(), p, i, w, cores, nl, lp, pp, np, false, false, true);
  f(d.n, (int)i.size(), p, i, w, cores, nl2, lp2, pp2, np2, false, false, false);
  Sched S = read_sched(d.n, nl, lp.data(), pp.data(), np.data()), T = read_sched(d.n, nl2, lp2.data(), pp2.data(), np2.data());
  widths(c, nl, lp.data(), cores, true);
  CHECK(level_sets(S) == level_sets(T), "coarsened levels differ with and without bin packing: ", show_sched(nl, lp.data(), pp.data(), np.data()), " and ", show_sched(nl2, lp2.data(), pp2.data(), np2.data()));
  for (auto &q : T.parts) for (int u : q) CHECK(S.part[u] == S.part[q[0]], "nodes ", q[0], " and ", u, " of one component are packed into two partitions");
  // unpacked partitions are exactly the connected components of the coarsened level
  VI uf(d.n); std::iota(uf.begin(), uf.end(), 0);
  std::function<int(int)> root = [&](int x) { while (uf[x] != x) x = uf[x] = uf[uf[x]]; return x; };
  for (int u = 0; u < d.n; ++u) for (int v : d.out[u]) if (T.lev[u] == T.lev[v]) uf[root(u)] = root(v);
  for (auto &q : T.parts) { CHECK(!q.empty(), "empty partition without bin packing"); for (int u : q) CHECK(root(u) == root(q[0]), "unconnected nodes ", q[0], " and ", u, " share an unpacked partition"); }
  c.nontrivial = d.n > cores;
}
static Reg r6("hdagg", "more nodes than cores", 250000, 3000000, hdagg, small_dag_prefix);

// the same on large cases
static pbt::Big big0("bin-packing", 2500, 1500, 30000);
static pbt::Big big1("merging", 2500, 1500, 30000);
static pbt::Big big2("lightest-bin", 2500, 1500, 30000);
static pbt::Big big3("tree-lbc", 2500, 1500, 30000);
static pbt::Big big4("dag-lbc", 2500, 1500, 30000);
static pbt::Big big5("blocked-lbc", 2500, 1500, 30000);
static pbt::Big big6("hdagg", 2500, 1500, 30000);
// and on more nodes, edges or levels than 16 bits can count
static pbt::Big huge0("tree-lbc", 70001, 16, 320);
static pbt::Big huge1("dag-lbc", 70001, 16, 320);
static pbt::Big huge2("blocked-lbc", 70001, 16, 320);
static pbt::Big huge3("bin-packing", 70001, 16, 320);
static pbt::Big huge4("hdagg", 70000, 16, 320);
