// C06: wavefront builders
#include "gen.h"
#include "aggregation/def.h"
#include "aggregation/hdagg.h"
#include "aggregation/sparse_inspector.h"
#include "aggregation/sparse_utilities.h"
using namespace gen;
using namespace pbt;

// general digraph with self entries; edges may point anywhere
struct Gr { int n; std::vector<VI> out; };
static bool acyclic_levels(const Gr &g, VI &L) {
  VI in(g.n, 0), q; L.assign(g.n, 0);
  for (auto &o : g.out) for (int v : o) in[v]++;
  for (int u = 0; u < g.n; ++u) if (!in[u]) q.push_back(u);
  for (size_t k = 0; k < q.size(); ++k) for (int v : g.out[q[k]]) { L[v] = std::max(L[v], L[q[k]] + 1); if (--in[v] == 0) q.push_back(v); }
  return (int)q.size() == g.n;
}
static void csc(const Gr &g, VI &p, VI &i, bool diag_first) {
  p.assign(g.n + 1, 0); i.clear();
  for (int u = 0; u < g.n; ++u) {
    VI c = g.out[u];
    if (!diag_first) { c.push_back(u); std::sort(c.begin(), c.end()); } else i.push_back(u);
    i.insert(i.end(), c.begin(), c.end());
    p[u + 1] = (int)i.size();
  }
  i.shrink_to_fit();
}
template <class T> static void wavefronts(int n, int nl, const int *lp, const T *ls, const VI &L, const char *who) {
  int h = *std::max_element(L.begin(), L.end()) + 1;
  CHECK(nl == h, who, " reports ", nl, " wavefronts, the longest path needs ", h);
  CHECK(lp[0] == 0 && lp[nl] == n, who, ": wavefront pointer covers ", lp[0], "..", lp[nl], " of ", n, " nodes");
  VI seen(n, 0);
  for (int l = 0; l < nl; ++l) {
    CHECK(lp[l] < lp[l + 1] && lp[l + 1] <= n, who, ": wavefront ", l, " is bounded by ", lp[l], "..", lp[l + 1]);
    for (int j = lp[l]; j < lp[l + 1]; ++j) {
      int64_t u = (int64_t)ls[j];
      CHECK(u >= 0 && u < n, who, ": node ", u, " out of range");
      CHECK(!seen[u]++, who, ": node ", u, " listed twice");
      CHECK(L[u] == l, who, ": node ", u, " is in wavefront ", l, ", its longest dependence path has length ", L[u]);
    }
  }
}
static Gr gen_graph(Src &s, Ctx &c, bool may_cycle) {
  Gr g;
  if (s.weighted({4, 3}) == 0 || !may_cycle) {
    Dag d = gen_dag(s, c); g.n = d.n; g.out = d.out;
    if (s.chance(1, 3)) { // relabel: not triangular any more
      VI lab(g.n); std::iota(lab.begin(), lab.end(), 0);
      for (int k = g.n - 1; k > 0; --k) std::swap(lab[k], lab[s.range(0, k)]);
      std::vector<VI> o(g.n);
      for (int u = 0; u < g.n; ++u) for (int v : g.out[u]) o[lab[u]].push_back(lab[v]);
      for (auto &x : o) std::sort(x.begin(), x.end());
      g.out = o; c.label("not triangular");
    }
    if (may_cycle && g.n > 1 && s.chance(1, 3)) { // one or more back edges
      int k = s.range(1, 3);
      for (int t = 0; t < k; ++t) { int u = s.range(0, g.n - 1), v = s.range(0, g.n - 1); if (u != v) g.out[u].push_back(v); }
    }
  } else {
    g.n = sz_of(s, 1, s.chance(1, 3) ? 40 : 7); g.out.assign(g.n, {});
    int m = s.range(0, 2 * g.n);
    for (int t = 0; t < m; ++t) { int u = s.range(0, g.n - 1), v = s.range(0, g.n - 1); if (u != v) g.out[u].push_back(v); }
  }
  for (auto &o : g.out) { std::sort(o.begin(), o.end()); o.erase(std::unique(o.begin(), o.end()), o.end()); }
  return g;
}
static std::string str(const Gr &g) {
  std::ostringstream o; o << "n=" << g.n << " edges={";
  for (int u = 0; u < g.n; ++u) for (int v : g.out[u]) o << " " << u << ">" << v;
  o << " }"; return o.str();
}

// 0 allocating, 1 caller arrays, 2 HDAGG, 3 vectors
static void detect(Src &s, Ctx &c, int variant) {
  Gr g = gen_graph(s, c, true);
  int n = g.n;
  VI p, i, L; csc(g, p, i, s.flip());
  bool ok = acyclic_levels(g, L);
  c.label(ok ? "acyclic" : "cyclic");
  c.show(str(g));
  int nl;
  if (variant == 0) {
    int *lp = nullptr, *ls = nullptr;
    nl = sym_lib::build_levelSet_CSC(n, p.data(), i.data(), lp, ls);
    if (ok) wavefronts(n, nl, lp, ls, L, "build_levelSet_CSC");
    delete[] lp; delete[] ls;
  } else if (variant == 1) {
    VI lp(n + 1, 0), ls(n, 0);
    nl = sym_lib::build_levelSet_CSC(n, (const int *)p.data(), (const int *)i.data(), lp.data(), ls.data());
    if (ok) wavefronts(n, nl, lp.data(), ls.data(), L, "build_levelSet_CSC (caller arrays)");
  } else if (variant == 2) {
    VI lp(n + 1, 0), ls(n, 0), nd(n, 0);
    nl = HDAGG::build_levelSet_CSC(n, p.data(), i.data(), lp.data(), ls.data(), nd.data());
    if (ok) {
      wavefronts(n, nl, lp.data(), ls.data(), L, "HDAGG::build_levelSet_CSC");
      CHECK(nd == L, "node-to-level map ", vec(nd), " is not ", vec(L));
      VI nd2(s.range(0, 3), 4);
      HDAGG::computingNode2Level(lp, ls, nl, n, nd2);
      CHECK(nd2 == L, "computingNode2Level gives ", vec(nd2), " instead of ", vec(L));
    }
  } else {
    VI lp, ls;
    if (s.flip()) { VI p1{0, 1}, i1{0}; int k; sym_lib::computingLevelSet_CSC(1, p1.data(), i1.data(), lp, ls, k); }
    sym_lib::computingLevelSet_CSC(n, p.data(), i.data(), lp, ls, nl);
    if (ok) { CHECK((int)lp.size() >= n + 1 && (int)ls.size() >= n, "output vectors too short"); wavefronts(n, nl, lp.data(), ls.data(), L, "computingLevelSet_CSC"); }
  }
  if (!ok) CHECK(nl == -1, "a cyclic graph is reported with ", nl, " wavefronts instead of -1");
  c.nontrivial = n >= 3 && i.size() > (size_t)n;
}
static const char *RULE = "graph with >=3 nodes and an edge";
static std::vector<uint64_t> pre(int64_t i) { // exhaustive small DAGs through gen_graph's first branch
  auto v = small_dag_prefix(i);
  if (v.empty()) return v;
  v.insert(v.begin(), 0); v.push_back(0);
  return v;
}
static Reg r1("csc", RULE, 250000, 4000000, [](Src &s, Ctx &c) { detect(s, c, 0); }, pre);
static Reg r2("csc-arrays", RULE, 200000, 3000000, [](Src &s, Ctx &c) { detect(s, c, 1); }, pre);
static Reg r3("csc-hdagg", RULE, 200000, 3000000, [](Src &s, Ctx &c) { detect(s, c, 2); }, pre);
static Reg r4("csc-vectors", RULE, 200000, 3000000, [](Src &s, Ctx &c) { detect(s, c, 3); }, pre);

static void queue(Src &s, Ctx &c) {
  Gr g = gen_graph(s, c, false);
  int n = g.n;
  VI p, i, L; csc(g, p, i, true);
  acyclic_levels(g, L);
  c.show(str(g));
  VI lp(n + 1, 0), ls(n, 0); int *a = lp.data(), *b = ls.data();
  int nl = sym_lib::buildLevelSet_CSC_Queue(n, (int)i.size(), p.data(), i.data(), a, b);
  wavefronts(n, nl, a, b, L, "buildLevelSet_CSC_Queue");
  int *lp2 = nullptr, *ls2 = nullptr;
  nl = sym_lib::level_set_multi_graphs(n, p.data(), i.data(), lp2, ls2, 1);
  wavefronts(n, nl, lp2, ls2, L, "level_set_multi_graphs");
  delete[] lp2; delete[] ls2;
  c.nontrivial = n >= 3 && i.size() > (size_t)n;
}
static Reg r5("queue", RULE, 200000, 3000000, queue, small_dag_prefix);

static void tree(Src &s, Ctx &c) {
  VI par = gen_forest(s, c);
  int n = (int)par.size();
  VI L(n, 0), kids(n, 0);
  for (int u = 0; u < n; ++u) if (par[u] >= 0) { L[par[u]] = std::max(L[par[u]], L[u] + 1); kids[par[u]]++; }
  if (s.chance(1, 4) && n > 1) { // labels need not grow towards the root
    VI lab(n); std::iota(lab.begin(), lab.end(), 0);
    for (int k = n - 1; k > 0; --k) std::swap(lab[k], lab[s.range(0, k)]);
    VI p2(n, -1), L2(n), k2(n);
    for (int u = 0; u < n; ++u) { p2[lab[u]] = par[u] < 0 ? -1 : lab[par[u]]; L2[lab[u]] = L[u]; k2[lab[u]] = kids[u]; }
    par = p2; L = L2; kids = k2; c.label("unordered labels");
  }
  c.show("parent=", vec(par));
  VI lp(n + 1, 0), ls(n, 0);
  int nl = sym_lib::build_level_set_tree(n, par.data(), lp.data(), ls.data());
  wavefronts(n, nl, lp.data(), ls.data(), L, "build_level_set_tree");
  VI lp2(n + 1, 0), ls2(n, 0), nd(n, 0);
  nl = sym_lib::build_level_set_tree_efficient(n, par.data(), kids.data(), lp2.data(), ls2.data(), nd.data());
  wavefronts(n, nl, lp2.data(), ls2.data(), L, "build_level_set_tree_efficient");
  CHECK(nd == L, "node-to-level map ", vec(nd), " is not ", vec(L));
  c.nontrivial = n >= 3;
}
static Reg r6("tree", "forest with >=3 nodes", 300000, 4000000, tree, small_forest_prefix);

// depth = longest path to a sink
static void depth(Src &s, Ctx &c) {
  Dag d = gen_dag(s, c);
  int n = d.n;
  VI p, i; to_csc(d, p, i);
  VI D(n, 0);
  for (int u = n - 1; u >= 0; --u) for (int v : d.out[u]) D[u] = std::max(D[u], D[v] + 1);
  c.show(d.str());
  sym_lib::CSC A(n, n, (int)i.size());
  std::copy(p.begin(), p.end(), A.p); std::copy(i.begin(), i.end(), A.i); std::fill(A.x, A.x + i.size(), 1.0);
  A.stype = 0;
  VI got(n, -7);
  sym_lib::compute_depth(&A, got.data());
  CHECK(got == D, "depths ", vec(got), " instead of ", vec(D));
  c.nontrivial = n >= 3 && d.edges() > 0;
}
static Reg r7("depth", RULE, 150000, 2000000, depth, small_dag_prefix);

// supernodal wavefronts over representative columns, lower and upper
static void supern(Src &s, Ctx &c) {
  bool lower = s.flip();
  Dag d = gen_dag(s, c, 60);
  int nb = d.n, wmax = s.range(1, 4);
  VI w(nb), st(nb + 1, 0);
  for (int k = 0; k < nb; ++k) { w[k] = s.range(1, wmax); st[k + 1] = st[k] + w[k]; }
  int n = st[nb];
  // lower-triangular block columns: own columns dense, rows below a non-empty subset of the target block
  std::vector<VI> col(n);
  for (int k = 0; k < nb; ++k) {
    VI below;
    for (int v : d.out[k]) { int mask = s.range(1, (1 << w[v]) - 1); for (int t = 0; t < w[v]; ++t) if (mask >> t & 1) below.push_back(st[v] + t); }
    for (int j = st[k]; j < st[k + 1]; ++j) { for (int r = j; r < st[k + 1]; ++r) col[j].push_back(r); col[j].insert(col[j].end(), below.begin(), below.end()); }
  }
  VI L = levels_of(d), sup(nb + 1);
  c.show(d.str(), " widths=", vec(w), lower ? " lower" : " upper");
  VI p(n + 1, 0), i, rep(nb);
  if (lower) {
    for (int j = 0; j < n; ++j) { i.insert(i.end(), col[j].begin(), col[j].end()); p[j + 1] = (int)i.size(); }
    for (int k = 0; k <= nb; ++k) sup[k] = st[k];
    for (int k = 0; k < nb; ++k) rep[k] = st[k];
  } else { // mirror the matrix: index j becomes n-1-j
    for (int j = 0; j < n; ++j) { VI &x = col[n - 1 - j]; for (size_t t = x.size(); t-- > 0;) i.push_back(n - 1 - x[t]); p[j + 1] = (int)i.size(); }
    for (int k = 0; k <= nb; ++k) sup[k] = n - 1 - st[k];
    for (int k = 0; k < nb; ++k) rep[k] = n - 1 - st[k];
  }
  i.shrink_to_fit();
  int *lp = nullptr, *ls = nullptr;
  int nl = sym_lib::level_set_bn(n, p.data(), i.data(), lp, ls, sup.data(), nb, 1, lower);
  int h = *std::max_element(L.begin(), L.end()) + 1;
  CHECK(nl == h, "reported ", nl, " wavefronts, the longest path needs ", h);
  CHECK(lp[0] == 0 && lp[nl] == nb, "wavefront pointer covers ", lp[nl], " of ", nb, " supernodes");
  std::map<int, int> blk; for (int k = 0; k < nb; ++k) blk[rep[k]] = k;
  VI seen(nb, 0);
  for (int l = 0; l < nl; ++l) for (int j = lp[l]; j < lp[l + 1]; ++j) {
    CHECK(blk.count(ls[j]), "column ", ls[j], " does not represent a supernode");
    int k = blk[ls[j]];
    CHECK(!seen[k]++, "supernode ", k, " listed twice");
    CHECK(L[k] == l, "supernode ", k, " in wavefront ", l, ", its longest dependence path has length ", L[k]);
  }
  delete[] lp; delete[] ls;
  c.nontrivial = nb >= 3 && d.edges() > 0;
}
static Reg r8("supernodes", "at least 3 supernodes and a dependence", 200000, 3000000, supern, [](int64_t i) { auto v = small_dag_prefix(i / 2); if (!v.empty()) v.insert(v.begin(), i & 1); return v; });

// the same on large cases
static pbt::Big big0("csc", 2500, 1500, 30000);
static pbt::Big big1("csc-arrays", 2500, 1500, 30000);
static pbt::Big big2("csc-hdagg", 2500, 1500, 30000);
static pbt::Big big3("csc-vectors", 2500, 1500, 30000);
static pbt::Big big4("queue", 2500, 1500, 30000);
static pbt::Big big5("tree", 2500, 1500, 30000);
static pbt::Big big6("depth", 2500, 1500, 30000);
static pbt::Big big7("supernodes", 2500, 1500, 30000);
// and on more nodes, edges or levels than 16 bits can count
static pbt::Big huge0("csc", 70001, 16, 320);
static pbt::Big huge1("queue", 70001, 16, 320);
static pbt::Big huge2("tree", 70001, 16, 320);
static pbt::Big huge3("depth", 70001, 16, 320);
static pbt::Big huge4("supernodes", 70001, 16, 320);
static pbt::Big huge5("csc-arrays", 70000, 16, 320);
static pbt::Big huge6("csc-hdagg", 70000, 16, 320);
static pbt::Big huge7("csc-vectors", 70000, 16, 320);
