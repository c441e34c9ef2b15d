// C28: groupings merge exactly the chains, subtrees and supernodes they define
#include "gen.h"
#include "groups.h"
#include "aggregation/def.h"
#include "aggregation/hdagg.h"
#include "aggregation/group.h"
using namespace gen;
using namespace pbt;

namespace HDAGG {
bool treeBasedGrouping_Aggressive(int n, VI &DAG_ptr, VI &DAG_set, int &ngroups, VI &group_ptr, VI &group_set, bool apply_size_restriction);
void computePostOrderAndGroup(int n, const VI &DAG_ptr, const VI &DAG_set, int &ngroups, VI &groupPtr, VI &post_order, VI &group_DAG_ptr, VI &group_DAG_set);
}

static VI label(int n, int ng, const int *gp, const int *gs) {
  VI of(n, -1);
  CHECK(ng >= 1 && ng <= n && gp[0] == 0 && gp[ng] == n, ng, " groups covering ", gp[ng < 0 || ng > n ? 0 : ng], " of ", n, " nodes");
  for (int g = 0; g < ng; ++g) for (int k = gp[g]; k < gp[g + 1]; ++k) { CHECK(k < n && gs[k] >= 0 && gs[k] < n, "group ", g, " leaves the node list"); of[gs[k]] = g; }
  for (int u = 0; u < n; ++u) CHECK(of[u] >= 0, "node ", u, " has no group");
  return of;
}
// representative of every class -> smallest member, so partitions compare as vectors
static VI canon(const VI &of) {
  std::map<int, int> first; VI r(of.size());
  for (size_t u = 0; u < of.size(); ++u) r[u] = first.insert({of[u], (int)u}).first->second;
  return r;
}
static void same(const VI &got, const VI &want, const char *what) {
  VI a = canon(got), b = canon(want);
  for (size_t u = 0; u < a.size(); ++u) if (a[u] != b[u]) {
    VI x, y; for (size_t k = 0; k < a.size(); ++k) { if (got[k] == got[u]) x.push_back((int)k); if (want[k] == want[u]) y.push_back((int)k); }
    CHECK(false, "node ", u, " is grouped as ", vec(x), ", its ", what, " is ", vec(y));
  }
}
static VI indeg(const Dag &d) { VI r(d.n, 0); for (auto &x : d.out) for (int v : x) r[v]++; return r; }
struct Uf { VI p; Uf(int n) : p(n) { std::iota(p.begin(), p.end(), 0); } int find(int x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; } void join(int a, int b) { p[find(a)] = find(b); } VI all() { VI r(p.size()); for (size_t u = 0; u < p.size(); ++u) r[u] = find((int)u); return r; } };
// the subtree of every node whose way down is unique, rooted where it branches or ends
static VI trees(const Dag &d) {
  VI r(d.n);
  for (int u = d.n - 1; u >= 0; --u) r[u] = d.out[u].size() == 1 ? r[d.out[u][0]] : u;
  return r;
}
static VI chains(const Dag &d) {
  VI in = indeg(d); Uf f(d.n);
  for (int u = 0; u < d.n; ++u) if (d.out[u].size() == 1 && in[d.out[u][0]] == 1) f.join(u, d.out[u][0]);
  return f.all();
}
static void finish(Ctx &c, const VI &want, size_t edges) {
  VI k = canon(want); std::map<int, int> sz; for (int x : k) sz[x]++;
  int big = 0; for (auto &x : sz) if (x.second > 1) big++;
  if (big > 1) c.label("several merged groups");
  if ((int)sz.size() > 1 && big) c.label("merged and unmerged");
  c.nontrivial = big && sz.size() > 1 && edges;
}
// DAGs rich in chains and subtrees next to whatever gen_dag gives
static Dag gen_chains(Src &s, Ctx &c) {
  if (s.chance(2, 3)) return gen_dag(s, c);
  Dag d; d.family = "chains"; d.n = sz_of(s, 2, 40); d.out.assign(d.n, {});
  int p1 = s.range(1, 6), p2 = s.range(0, 4), far = s.range(0, 4);
  for (int u = 0; u + 1 < d.n; ++u) {
    if (s.range(0, p1)) d.out[u].push_back(u + 1);
    if (p2 && s.chance(p2, 12)) d.out[u].push_back(s.range(u + 1, d.n - 1));
    if (far && d.out[u].empty() && s.flip()) d.out[u].push_back(s.range(u + 1, std::min(d.n - 1, u + far * 3)));
  }
  d.norm();
  c.label("chain family");
  return d;
}
static const char *RULE = "some merged group next to another group, graph with edges";

enum { DFS, AGG, BFS, CHAIN, POST };
static void by_dag(Src &s, Ctx &c, int kind) {
  Dag d = gen_chains(s, c);
  int n = d.n;
  VI p, i; to_csc(d, p, i);
  c.show(d.str());
  VI gp, gs, qp, qs; int ng = 0;
  switch (kind) {
  case DFS: HDAGG::treeBasedGrouping(n, p, i, ng, gp, gs, false); break;
  case AGG: HDAGG::treeBasedGrouping_Aggressive(n, p, i, ng, gp, gs, false); break;
  case BFS: HDAGG::treeBasedGroupingBFS(n, p, i, ng, gp, gs, false); break;
  case CHAIN: HDAGG::chainGrouping(n, p, i, ng, gp, gs); break;
  default: HDAGG::computePostOrderAndGroup(n, p, i, ng, gp, gs, qp, qs);
  }
  CHECK((int)gp.size() == ng + 1, "group pointer of ", gp.size(), " entries for ", ng, " groups");
  VI of = label(n, ng, gp.data(), gs.data());
  VI want = kind == CHAIN || kind == POST ? chains(d) : trees(d);
  if (kind == BFS) {
    // The breadth-first grouping closes a group at a node fed by a branching
    // node; everything still pending starts groups of its own.
    std::vector<char> fed(n, 0), closed(ng, 0);
    for (int u = 0; u < n; ++u) if (d.out[u].size() > 1) for (int v : d.out[u]) fed[v] = 1;
    for (int u = 0; u < n; ++u) if (fed[u]) closed[of[u]] = 1;
    std::map<int, int> tree_of;
    for (int u = 0; u < n; ++u) {
      CHECK(tree_of.insert({of[u], want[u]}).first->second == want[u], "group ", of[u], " mixes the subtrees of ", tree_of[of[u]], " and ", want[u]);
      if (d.out[u].size() == 1 && of[u] != of[d.out[u][0]])
        CHECK(closed[of[d.out[u][0]]], "node ", u, " is not grouped with its only successor ", d.out[u][0], " although no branching node feeds that group");
    }
    // a group is connected: all but one of its members have their successor in it
    VI heads(ng, 0);
    for (int u = 0; u < n; ++u) if (!(d.out[u].size() == 1 && of[d.out[u][0]] == of[u])) heads[of[u]]++;
    for (int g = 0; g < ng; ++g) CHECK(heads[g] == 1, "group ", g, " consists of ", heads[g], " separate subtrees");
    finish(c, of, d.edges());
    return;
  }
  same(of, want, kind == CHAIN || kind == POST ? "chain" : "subtree");
  finish(c, want, d.edges());
}
static Reg r1("subtrees", RULE, 200000, 3000000, [](Src &s, Ctx &c) { by_dag(s, c, DFS); }, small_dag_prefix);
static Reg r2("subtrees-aggressive", RULE, 100000, 2000000, [](Src &s, Ctx &c) { by_dag(s, c, AGG); }, small_dag_prefix);
static Reg r3("subtrees-bfs", RULE, 200000, 3000000, [](Src &s, Ctx &c) { by_dag(s, c, BFS); }, small_dag_prefix);
static Reg r4("chains", RULE, 200000, 3000000, [](Src &s, Ctx &c) { by_dag(s, c, CHAIN); }, small_dag_prefix);
static Reg r5("chains-postorder", RULE, 200000, 3000000, [](Src &s, Ctx &c) { by_dag(s, c, POST); }, small_dag_prefix);

// with the size restriction every subtree is cut into full pieces plus one rest
static void restricted(Src &s, Ctx &c) {
  int kind = (int)s.weighted({5, 5, 1});
  int n = kind == BFS ? s.range(20000, 45000) : s.range(1000, 7000);
  Dag d; d.n = n; d.out.assign(n, {}); d.family = "big";
  int win = s.pick(VI{3, 8, 30, 200, 100000}), extra = s.range(0, 4), roots = s.range(2, 40);
  for (int u = 0; u + 1 < n; ++u) {
    if (!s.chance(1, roots * 10)) d.out[u].push_back(s.range(u + 1, std::min(n - 1, u + win)));
    if (extra && s.chance(extra, 40)) d.out[u].push_back(s.range(u + 1, std::min(n - 1, u + win)));
  }
  d.norm();
  VI p, i; to_csc(d, p, i);
  c.show("n=", n, " window=", win, " extra=", extra, " edges=", d.edges());
  c.label(kind == DFS ? "dfs" : kind == BFS ? "bfs" : "aggressive");
  VI gp, gs; int ng = 0;
  if (kind == DFS) HDAGG::treeBasedGrouping(n, p, i, ng, gp, gs, true);
  else if (kind == AGG) HDAGG::treeBasedGrouping_Aggressive(n, p, i, ng, gp, gs, true);
  else HDAGG::treeBasedGroupingBFS(n, p, i, ng, gp, gs, true);
  VI of = label(n, ng, gp.data(), gs.data()), want = trees(d);
  int lim = std::max(1, (int)((kind == DFS ? 0.001 : kind == AGG ? 0.002 : 0.0001) * n));
  std::map<int, int> tree_of, size_of, pieces, rests;
  for (int u = 0; u < n; ++u) {
    CHECK(tree_of.insert({of[u], want[u]}).first->second == want[u], "group ", of[u], " mixes the subtrees of ", tree_of[of[u]], " and ", want[u]);
    size_of[want[u]]++;
  }
  if (kind != BFS) {
    for (int g = 0; g < ng; ++g) {
      int sz = gp[g + 1] - gp[g];
      CHECK(sz <= lim, "a group holds ", sz, " nodes, the restriction is ", lim);
      if (sz < lim) rests[tree_of[g]]++;
      pieces[tree_of[g]]++;
    }
    for (auto &t : size_of) {
      CHECK(pieces[t.first] == (t.second + lim - 1) / lim, "the subtree of ", t.first, " with ", t.second, " nodes is cut into ", pieces[t.first], " groups of at most ", lim);
      CHECK(rests[t.first] <= 1, "the subtree of ", t.first, " has ", rests[t.first], " groups below the restriction");
    }
  } else {
    std::vector<char> closed(ng, 0);
    for (int g = 0; g < ng; ++g) { CHECK(gp[g + 1] - gp[g] <= lim, "a group holds ", gp[g + 1] - gp[g], " nodes, the restriction is ", lim); closed[g] = gp[g + 1] - gp[g] == lim; }
    for (int u = 0; u < n; ++u) if (d.out[u].size() > 1) for (int v : d.out[u]) closed[of[v]] = 1;
    for (int u = 0; u < n; ++u) if (d.out[u].size() == 1 && of[u] != of[d.out[u][0]])
      CHECK(closed[of[d.out[u][0]]], "node ", u, " is not grouped with its only successor ", d.out[u][0], " although that group is neither full nor closed");
  }
  c.nontrivial = lim > 1 && ng < n;
}
static Reg r6("subtrees-size-restricted", "restriction above one and some group of several nodes", 800, 20000, restricted);

enum { CSC1, CSC2, CSR1, CSR2 };
static void cls(Src &s, Ctx &c, int kind) {
  Dag d = gen_chains(s, c);
  int n = d.n;
  VI p, i;
  if (kind <= CSC2) to_csc(d, p, i); else to_csr(d, p, i);
  c.show(d.str());
  VI gp(n + 1, -3), gs(n, -3), gi(n, -3); int ng = -1;
  sym_lib::group g(n, p.data(), i.data());
  switch (kind) {
  case CSC1: g.inspection_spicocsc_v1(gp.data(), gs.data(), ng, gi.data()); break;
  case CSC2: g.inspection_spicocsc_v2(gp.data(), gs.data(), ng, gi.data()); break;
  case CSR1: g.inspection_sptrsvcsr_v1(gp.data(), gs.data(), ng, gi.data()); break;
  default: g.inspection_sptrsvcsr_v2(gp.data(), gs.data(), ng, gi.data());
  }
  VI of = label(n, ng, gp.data(), gs.data());
  Uf f(n);
  if (kind == CSC1) {         // consecutive columns, the second being the first to need the first
    for (int u = 0; u + 1 < n; ++u) if (!d.out[u].empty() && d.out[u][0] == u + 1) f.join(u, u + 1);
  } else if (kind == CSC2) {  // a column joins the first one that needs it; a new group takes its whole chain and up to n/12 isolated columns after it
    std::vector<char> in(n, 0);
    auto first = [&](int u) { return d.out[u].empty() ? -1 : d.out[u][0]; };
    for (int u = 0; u < n; ++u) {
      int v = first(u);
      if (in[u] || v < 0) continue;
      f.join(u, v); in[u] = 1;
      if (in[v]) continue;
      in[v] = 1;
      while (first(v) == v + 1 && !in[v + 1]) { f.join(v, v + 1); in[++v] = 1; }
      for (int k = 0; k < n / 12 && v + 1 < n && first(v + 1) < 0 && !in[v + 1]; ++k) { f.join(v, v + 1); in[++v] = 1; }
    }
  } else {                    // consecutive rows, the second needing the first last of all
    std::vector<int> last(n, -1);
    for (int u = 0; u < n; ++u) for (int v : d.out[u]) last[v] = u;
    for (int v = 1; v < n; ++v) if (last[v] == v - 1) f.join(v - 1, v);
  }
  VI want = f.all();
  same(of, want, "chain");
  finish(c, want, d.edges());
}
static Reg c1("ic0-csc-v1", RULE, 200000, 3000000, [](Src &s, Ctx &c) { cls(s, c, CSC1); }, small_dag_prefix);
static Reg c2("ic0-csc-v2", RULE, 200000, 3000000, [](Src &s, Ctx &c) { cls(s, c, CSC2); }, small_dag_prefix);
static Reg c3("trsv-csr-v1", RULE, 200000, 3000000, [](Src &s, Ctx &c) { cls(s, c, CSR1); }, small_dag_prefix);
static Reg c4("trsv-csr-v2", RULE, 200000, 3000000, [](Src &s, Ctx &c) { cls(s, c, CSR2); }, small_dag_prefix);

// average size of the supernodes that stay inside one part of a schedule
static void supernodes(Src &s, Ctx &c) {
  Dag d;
  if (s.chance(1, 3)) d = gen_dag(s, c);
  else {
    d.n = sz_of(s, 1, 40); d.out.assign(d.n, {}); d.family = "supernodes";
    int w = s.range(1, up(6)), tail = s.range(0, up(5)), noise = s.range(0, 3);
    for (int a = 0; a < d.n;) {
      int b = std::min(d.n, a + s.range(1, w));
      VI t; if (b < d.n) for (int k = s.range(0, tail); k > 0; --k) t.push_back(s.range(b, d.n - 1));
      for (int u = a; u < b; ++u) {
        for (int v = u + 1; v < b; ++v) d.out[u].push_back(v);
        for (int v : t) if (!(noise && s.chance(noise, 20))) d.out[u].push_back(v);
        if (noise && u + 1 < d.n && s.chance(noise, 20)) d.out[u].push_back(s.range(u + 1, d.n - 1));
      }
      a = b;
    }
    d.norm();
  }
  int n = d.n;
  Grouping G = gen_grouping(s, c, d, true, true);
  Dag q; q.n = G.ng; q.out.assign(G.ng, {}); 
  for (int u = 0; u < n; ++u) for (int v : d.out[u]) if (G.inv[u] != G.inv[v]) q.out[G.inv[u]].push_back(G.inv[v]);
  for (auto &o : q.out) { std::sort(o.begin(), o.end()); o.erase(std::unique(o.begin(), o.end()), o.end()); }
  Schedule S = gen_schedule(s, c, q, 1);
  VI p, i; to_csc(d, p, i);
  c.show(d.str(), " ", G.str(), " schedule ", S.str());
  VI p0 = p, i0 = i, lp = S.lp, pp = S.pp, np = S.np;
  int nl = S.nlev;
  std::vector<std::pair<int, int>> at(n);
  for (int l = 0; l < nl; ++l) for (int w = lp[l]; w < lp[l + 1]; ++w) for (int k = pp[w]; k < pp[w + 1]; ++k)
    for (int m = G.ptr[np[k]]; m < G.ptr[np[k] + 1]; ++m) at[G.set[m]] = {l, w};
  VI head(n, -1); int count = 0; size_t size = 1;
  for (int u = 0; u < n; ++u) {
    if (head[u] >= 0) continue;
    head[u] = u; ++count; size_t sz = 1;
    VI mine{u}; mine.insert(mine.end(), d.out[u].begin(), d.out[u].end());
    for (int v : d.out[u]) {
      if (at[u] != at[v] || head[v] >= 0) continue;
      VI his{v}; his.insert(his.end(), d.out[v].begin(), d.out[v].end());
      int skip = v - u;
      if ((int)mine.size() - skip != (int)his.size()) break;
      if (std::equal(his.begin(), his.end(), mine.begin() + skip)) { head[v] = u; ++sz; }
    }
    size = std::max(size, sz);
  }
  double r = HDAGG::aggressiveSupernodeGrouping(n, G.ptr.data(), G.set.data(), p.data(), i.data(), nl, lp, pp, np);
  CHECK(p == p0 && i == i0 && lp == S.lp && pp == S.pp && np == S.np, "an input was modified");
  CHECK(r == (double)n / count, "average supernode size ", r, " for ", n, " columns in ", count, " supernodes");
  if (size > 1) c.label("wide supernode");
  c.nontrivial = size > 1 && count > 1;
}
static Reg r7("average-supernode", "several supernodes, one wider than a column", 100000, 1500000, supernodes);

// the same on large cases
static pbt::Big big0("subtrees", 2500, 1500, 30000);
static pbt::Big big1("subtrees-aggressive", 2500, 1500, 30000);
static pbt::Big big2("subtrees-bfs", 2500, 1500, 30000);
static pbt::Big big3("chains", 2500, 1500, 30000);
static pbt::Big big4("chains-postorder", 2500, 1500, 30000);
static pbt::Big big5("ic0-csc-v1", 2500, 1500, 30000);
static pbt::Big big6("ic0-csc-v2", 2500, 1500, 30000);
static pbt::Big big7("trsv-csr-v1", 2500, 1500, 30000);
static pbt::Big big8("trsv-csr-v2", 2500, 1500, 30000);
static pbt::Big big9("average-supernode", 2500, 1500, 30000);
// and on more nodes, edges or levels than 16 bits can count
static pbt::Big huge0("subtrees", 70001, 16, 320);
static pbt::Big huge1("subtrees-aggressive", 70001, 16, 320);
static pbt::Big huge2("subtrees-bfs", 70001, 16, 320);
static pbt::Big huge3("chains", 70001, 16, 320);
static pbt::Big huge4("ic0-csc-v1", 70001, 16, 320);
static pbt::Big huge5("ic0-csc-v2", 70001, 16, 320);
static pbt::Big huge6("trsv-csr-v1", 70001, 16, 320);
static pbt::Big huge7("trsv-csr-v2", 70001, 16, 320);
static pbt::Big huge8("average-supernode", 70001, 16, 320);
static pbt::Big huge9("chains-postorder", 70000, 16, 320);
