// C25: coarsened levels are bands of wavefronts, partitions are whole components, packed by their true cost
#include "gen.h"
#include "blocks.h"
#include "aggregation/def.h"
#include "aggregation/lbc.h"
#include "aggregation/lbc_utils.h"
using namespace gen;
using namespace pbt;

struct Arr { int *lp = nullptr, *pp = nullptr, *np = nullptr; ~Arr() { delete[] lp; delete[] pp; delete[] np; } };

// wavefront range of every coarsened level
static std::vector<std::pair<int, int>> bands(const Sched &S, const VI &L) {
  std::vector<std::pair<int, int>> r(S.nlev, {INT_MAX, -1});
  for (size_t u = 0; u < L.size(); ++u) { auto &b = r[S.lev[u]]; b.first = std::min(b.first, L[u]); b.second = std::max(b.second, L[u]); }
  int h = *std::max_element(L.begin(), L.end()) + 1, at = 0;
  for (int l = 0; l < S.nlev; ++l) {
    CHECK(r[l].second >= 0, "coarsened level ", l, " is empty");
    CHECK(r[l].first == at, "coarsened level ", l, " starts at wavefront ", r[l].first, ", the previous one ends before ", at);
    at = r[l].second + 1;
  }
  CHECK(at == h, "coarsened levels end at wavefront ", at, " of ", h);
  return r;
}

// components of the subgraph induced by each coarsened level
static VI components(const Sched &S, const Dag &d) {
  VI uf(d.n); std::iota(uf.begin(), uf.end(), 0);
  std::function<int(int)> root = [&](int x) { while (uf[x] != x) x = uf[x] = uf[uf[x]]; return x; };
  for (int u = 0; u < d.n; ++u) for (int v : d.out[u]) if (S.lev[u] == S.lev[v]) uf[root(u)] = root(v);
  VI r(d.n); for (int u = 0; u < d.n; ++u) r[u] = root(u);
  return r;
}

// Partitions of every level: whole components; one each unless packed, else packed heaviest first into the lightest.
static void partitions(Ctx &c, const Sched &S, const Dag &d, const VD &w, bool packed) {
  VI comp = components(S, d);
  for (int l = 0; l < S.nlev; ++l) {
    std::map<int, double> cost; std::map<int, int> where;
    int first = -1, cnt = 0, used = 0;
    for (int k = 0; k < S.nparts; ++k) {
      if (S.part_lev[k] != l) continue;
      if (first < 0) first = k;
      ++cnt; if (!S.parts[k].empty()) ++used;
      for (int u : S.parts[k]) {
        cost[comp[u]] += w[u];
        auto it = where.emplace(comp[u], k).first;
        CHECK(it->second == k, "connected nodes of level ", l, " are in partitions ", it->second, " and ", k);
      }
    }
    if ((int)cost.size() == used) { if (used > 1) c.label("one component per partition"); continue; }
    CHECK(packed, "coarsened level ", l, " has ", cost.size(), " components in ", used, " partitions without bin packing");
    VD load(cnt, 0.0), ref(cnt, 0.0), items;
    for (int k = first; k < first + cnt; ++k) for (int u : S.parts[k]) load[k - first] += w[u];
    for (auto &e : cost) items.push_back(e.second);
    std::sort(items.rbegin(), items.rend());
    for (double x : items) *std::min_element(ref.begin(), ref.end()) += x;
    VD a = load, b = ref;
    std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
    CHECK(a == b, "coarsened level ", l, " has partitions of cost ", vec(load), "; packing its components ", vec(items), " heaviest first into the lightest partition gives ", vec(ref));
    if (cnt > 1) c.label("packed level"), c.label(l > 0 ? "packed level>0" : "packed level 0");
  }
}

enum { CC_BP, CC_NOBP, V03, PAR_BP, PAR_NOBP };
static void dag(Src &s, Ctx &c, int variant) {
  Dag d = gen_dag(s, c);
  int n = d.n;
  VI p, i; to_csc(d, p, i);
  VD w = gen_cost_any(s, c, n);
  int inner = s.weighted({6, 3}) == 0 ? gen_par(s, 1, 4) : gen_par(s, 1, 20), dist, div;
  if (s.weighted({2, 5}) == 0) { dist = -1; div = gen_par(s, 2, 7); }
  else { dist = s.range(1, s.chance(1, 5) ? n + 2 : 5); div = gen_par(s, 1, 7); }
  c.show(d.str(), " cost=", vec(w), " innerParts=", inner, " minLevelDist=", dist, " divRate=", div);
  Arr a; int nl = 0, parts = 0;
  switch (variant) {
  case CC_BP: case CC_NOBP:
    sym_lib::get_coarse_levelSet_DAG_CSC(n, p.data(), i.data(), nl, a.lp, parts, a.pp, a.np, inner, dist, div, w.data(), variant == CC_BP); break;
  case V03:
    sym_lib::get_coarse_Level_set_DAG_CSC03(n, p.data(), i.data(), nl, a.lp, parts, a.pp, a.np, inner, dist, div, w.data()); break;
  default:
    sym_lib::get_coarse_Level_set_DAG_CSC03_parallel(n, p.data(), i.data(), nl, a.lp, parts, a.pp, a.np, inner, dist, div, w.data(), s.range(1, 4), variant == PAR_BP);
  }
  Sched S = read_sched(n, nl, a.lp, a.pp, a.np);
  VI L = levels_of(d);
  bool bp = variant == CC_BP || variant == V03 || variant == PAR_BP;
  try {
    auto b = bands(S, L);
    // the first cut follows minLevelDist wavefronts, each further one divRate wavefronts
    int h = *std::max_element(L.begin(), L.end()) + 1;
    VI width(h, 0); for (int x : L) ++width[x];
    int at = 0;
    for (int l = 0; l + 1 < nl; ++l) {
      int len = b[l].second + 1 - at; at += len;
      int want = l == 0 ? (dist < 1 ? dist + div : dist) : div;
      CHECK(len == want, "coarsened level ", l, " covers ", len, " wavefronts, the tuning parameters ask for ", want);
    }
    if (dist >= h) CHECK(nl == 1, nl, " coarsened levels although all ", h, " wavefronts fit into the first");
    if (nl > 1 && inner > 1) { // no level but the last is serialised
      VI comp = components(S, d); 
      for (int l = 0; l + 1 < nl; ++l) {
        std::set<int> cs; int used = 0;
        for (int u = 0; u < n; ++u) if (S.lev[u] == l) cs.insert(comp[u]);
        for (int k = a.lp[l]; k < a.lp[l + 1]; ++k) ++used;
        int want = std::min<int>({(int)cs.size(), inner, std::max(1, width[b[l].second] / 2)});
        CHECK(used >= want, "coarsened level ", l, " has ", used, " partitions for ", cs.size(), " components, ", inner, " parts and a wavefront of ", width[b[l].second]);
      }
    }
    partitions(c, S, d, w, bp);
  } catch (Failure &f) { fail(cat(f.what(), "  schedule ", show_sched(nl, a.lp, a.pp, a.np))); }
  sched_labels(c, S, d);
}
static const char *RULE = "pattern with >=3 columns and an off-diagonal entry";
static Reg r1("cc+binpack", RULE, 100000, 2000000, [](Src &s, Ctx &c) { dag(s, c, CC_BP); }, small_dag_prefix);
static Reg r2("cc", RULE, 80000, 2000000, [](Src &s, Ctx &c) { dag(s, c, CC_NOBP); }, small_dag_prefix);
static Reg r3("03", RULE, 80000, 2000000, [](Src &s, Ctx &c) { dag(s, c, V03); }, small_dag_prefix);
static Reg r4("03-parallel+binpack", RULE, 80000, 2000000, [](Src &s, Ctx &c) { dag(s, c, PAR_BP); }, small_dag_prefix);
static Reg r5("03-parallel", RULE, 80000, 2000000, [](Src &s, Ctx &c) { dag(s, c, PAR_NOBP); }, small_dag_prefix);

// bands of more than 250000 nodes take a path of their own
static void large(Src &s, Ctx &c) {
  std::string desc;
  Dag d = gen_large(s, c, 250000, desc);
  int n = d.n, inner = s.range(1, 8), dist = s.range(1, 4), div = s.range(1, 3), thr = s.range(1, 8), top = s.range(0, 9);
  bool bp = s.flip();
  c.show(desc, " cost=1+u%", top + 1, " innerParts=", inner, " minLevelDist=", dist, " divRate=", div, " threads=", thr, bp ? " binpack" : "");
  VI p, i; to_csc(d, p, i);
  VD w(n); for (int u = 0; u < n; ++u) w[u] = 1 + u % (top + 1);
  Arr a; int nl = 0, parts = 0;
  sym_lib::get_coarse_Level_set_DAG_CSC03_parallel(n, p.data(), i.data(), nl, a.lp, parts, a.pp, a.np, inner, dist, div, w.data(), thr, bp);
  Sched S = read_sched(n, nl, a.lp, a.pp, a.np);
  VI L = levels_of(d), size(nl, 0);
  auto b = bands(S, L);
  for (int l = 0; l + 1 < nl; ++l) CHECK(b[l].second + 1 - b[l].first == (l ? div : dist), "coarsened level ", l, " covers ", b[l].second + 1 - b[l].first, " wavefronts, the tuning parameters ask for ", l ? div : dist);
  partitions(c, S, d, w, bp);
  for (int u = 0; u < n; ++u) ++size[S.lev[u]];
  bool big = *std::max_element(size.begin(), size.end()) > 250000;
  if (big) c.label(size[0] > 250000 ? "large first level" : "large later level");
  c.nontrivial = big && d.edges() > 0;
}
static Reg r6l("03-parallel-large", "a level of more than 250000 columns and an off-diagonal entry", 32, 1200, large);

static void blocked(Src &s, Ctx &c) {
  Blk b = gen_blk(s, c);
  int n = b.d.n;
  VD w = gen_cost_any(s, c, n);
  int inner = gen_par(s, 1, 12), dist = s.weighted({2, 3}) == 0 ? -1 : gen_par(s, 0, 6), div = gen_par(s, 2, 6);
  c.show(b.str(), " rows=", vec(b.li), " cost=", vec(w), " innerParts=", inner, " minLevelDist=", dist, " divRate=", div);
  Arr a; int nl = 0, parts = 0, *pls = nullptr;
  sym_lib::getCoarseLevelSet_DAG_BCSC02(n, b.lp.data(), b.lip.data(), b.li.data(), b.blk2col.data(), b.col2blk.data(), nl, a.lp, pls, parts, a.pp, a.np, inner, dist, div, w.data());
  Sched S = read_sched(n, nl, a.lp, a.pp, a.np);
  try { bands(S, levels_of(b.d)); partitions(c, S, b.d, w, true); }
  catch (Failure &f) { fail(cat(f.what(), "  schedule ", show_sched(nl, a.lp, a.pp, a.np))); }
  sched_labels(c, S, b.d);
}
static Reg r6("blocked", "block pattern with >=3 blocks and a dependence", 150000, 2000000, blocked, small_dag_prefix);

static void tree(Src &s, Ctx &c) {
  VI par = gen_forest(s, c);
  Dag d; d.n = (int)par.size(); d.out.assign(d.n, {});
  for (int u = 0; u < d.n; ++u) if (par[u] >= 0) d.out[u].push_back(par[u]);
  VD w = gen_cost_any(s, c, d.n);
  int inner = gen_par(s, 1, 12), dist = s.weighted({2, 3}) == 0 ? -1 : gen_par(s, 0, 6), div = gen_par(s, 2, 6);
  c.show("parent=", vec(par), " cost=", vec(w), " innerParts=", inner, " minLevelDist=", dist, " divRate=", div);
  Arr a; int nl = 0, parts = 0;
  sym_lib::get_coarse_levelSet_tree(d.n, par.data(), nl, a.lp, parts, a.pp, a.np, inner, dist, div, w.data());
  Sched S = read_sched(d.n, nl, a.lp, a.pp, a.np);
  try { bands(S, levels_of(d)); partitions(c, S, d, w, true); }
  catch (Failure &f) { fail(cat(f.what(), "  schedule ", show_sched(nl, a.lp, a.pp, a.np))); }
  sched_labels(c, S, d);
}
static Reg r7("tree", "forest with >=3 nodes and an edge", 250000, 3000000, tree, small_forest_prefix);

// the cuts on their own, for any profile of wavefront widths
static void cuts(Src &s, Ctx &c) {
  int h = s.range(1, 30), top = s.pick(VI{1, 2, 4, 10, 40});
  VI width(h), lp(h + 1, 0);
  int shape = s.range(0, 2);   // any, narrowing towards the root, narrow tail
  for (int l = 0; l < h; ++l) width[l] = shape == 2 && l > h / 2 ? 1 : s.range(1, top);
  if (shape == 1) std::sort(width.rbegin(), width.rend());
  for (int l = 0; l < h; ++l) lp[l + 1] = lp[l] + width[l];
  int inner = s.range(1, 12), div = s.range(1, 6), kind = s.range(0, 2);
  int dist = kind == 0 ? s.range(-1, 6) : s.range(1, 6);
  c.show("widths=", vec(width), " innerParts=", inner, " minLevelDist=", dist, " divRate=", div, kind == 0 ? " height" : kind == 1 ? " fixed distance" : " dag");
  VI got(h + 1, -7), sizes; std::vector<VI> slack(h + 1);
  int nl;
  if (kind == 2) nl = sym_lib::height_partitioning_DAG_trng(h, lp.data(), nullptr, h, inner, dist, div, sizes, slack, nullptr, got.data());
  else nl = sym_lib::height_partitioning(h, lp.data(), nullptr, h, inner, dist, div, sizes, slack, nullptr, got.data(), kind == 1);
  VI want{0}, parts;
  if (kind == 2) {            // minLevelDist wavefronts, then divRate each while some wider wavefront is left
    int last = h; while (last > 0 && width[last - 1] == 1) --last;
    int th = inner > 1 ? inner : 6;
    if (h > dist) {
      parts.push_back(std::max(1, std::min(th, width[dist - 1] / 2))); want.push_back(dist);
      for (int t = dist + div; t < last; t += div) { want.push_back(t); parts.push_back(std::min(th, width[t - 1])); }
    }
  } else if (kind == 1) {     // every minLevelDist wavefronts while the cut wavefront is wide enough for two parts
    if (div <= 1) div = 10;
    if (h > 2) for (int t = dist; t < h && width[t] / 2 > 1 - (width[t] >= div * inner); t += dist) { want.push_back(t); parts.push_back(width[t] >= div * inner ? inner : width[t] / 2); }
  } else {                    // minLevelDist wavefronts before the narrow ones at the root, for ever fewer parts
    if (div <= 1) div = 10;
    if (h > 2) for (int p = inner; p > 1; p /= div) {
      int k = 0; while (k < h && width[h - 1 - k] <= p) ++k;
      parts.push_back(p);
      if (h - k - dist > want.back() && h - k - dist < h) want.push_back(h - k - dist);
    }
  }
  want.push_back(h); parts.push_back(1);
  CHECK(nl >= 1 && nl <= h, nl, " bands of ", h, " wavefronts");
  got.resize(nl + 1);
  CHECK(got == want, "bands are cut at ", vec(got), " instead of ", vec(want));
  CHECK(sizes == parts, "the bands are given ", vec(sizes), " parts instead of ", vec(parts));
  if (nl > 1) c.label("several bands");
  c.nontrivial = nl > 1;
}
static Reg r8("cuts", "more than one band", 300000, 4000000, cuts);

// the same on large cases
static pbt::Big big0("cc+binpack", 2500, 1500, 30000);
static pbt::Big big1("cc", 2500, 1500, 30000);
static pbt::Big big2("03", 2500, 1500, 30000);
static pbt::Big big3("03-parallel+binpack", 2500, 1500, 30000);
static pbt::Big big4("03-parallel", 2500, 1500, 30000);
static pbt::Big big5("blocked", 2500, 1500, 30000);
static pbt::Big big6("tree", 2500, 1500, 30000);
// and on more nodes, edges or levels than 16 bits can count
static pbt::Big huge0("cc+binpack", 70001, 16, 320);
static pbt::Big huge1("cc", 70001, 16, 320);
static pbt::Big huge2("03", 70001, 16, 320);
static pbt::Big huge3("03-parallel+binpack", 70001, 16, 320);
static pbt::Big huge4("03-parallel", 70001, 16, 320);
static pbt::Big huge5("blocked", 70001, 16, 320);
static pbt::Big huge6("tree", 70001, 16, 320);
