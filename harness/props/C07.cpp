// C07: groupings partition the nodes and their quotient is acyclic
#include "gen.h"
#include "aggregation/def.h"
#include "aggregation/hdagg.h"
#include "aggregation/group.h"
using namespace gen;
using namespace pbt;

namespace HDAGG {
bool treeBasedGrouping_Aggressive(int n, VI &DAG_ptr, VI &DAG_set, int &ngroups, VI &group_ptr, VI &group_set, bool apply_size_restriction);
void computePostOrderAndGroup(int n, const VI &DAG_ptr, const VI &DAG_set, int &ngroups, VI &groupPtr, VI &post_order, VI &group_DAG_ptr, VI &group_DAG_set);
}

struct Groups { int ng; VI of; };   // group of each node
static Groups partition(int n, int ng, const int *gp, const int *gs) {
  CHECK(ng >= 1 && ng <= n, ng, " groups for ", n, " nodes");
  CHECK(gp[0] == 0, "group pointer starts at ", gp[0]);
  for (int g = 0; g < ng; ++g) CHECK(gp[g] < gp[g + 1], "group ", g, " is empty or its pointer decreases: ", gp[g], " -> ", gp[g + 1]);
  CHECK(gp[ng] == n, "groups cover ", gp[ng], " of ", n, " nodes");
  Groups G{ng, VI(n, -1)};
  for (int g = 0; g < ng; ++g) for (int k = gp[g]; k < gp[g + 1]; ++k) {
    int u = gs[k];
    CHECK(u >= 0 && u < n, "node ", u, " outside 0..", n - 1);
    CHECK(G.of[u] < 0, "node ", u, " is in groups ", G.of[u], " and ", g);
    G.of[u] = g;
  }
  return G;
}
static void quotient_acyclic(const Dag &d, const Groups &G) {
  std::vector<std::set<int>> out(G.ng);
  VI in(G.ng, 0);
  for (int u = 0; u < d.n; ++u) for (int v : d.out[u]) if (G.of[u] != G.of[v] && out[G.of[u]].insert(G.of[v]).second) in[G.of[v]]++;
  VI q; for (int g = 0; g < G.ng; ++g) if (!in[g]) q.push_back(g);
  size_t done = 0;
  while (!q.empty()) { int g = q.back(); q.pop_back(); ++done; for (int h : out[g]) if (--in[h] == 0) q.push_back(h); }
  CHECK(done == (size_t)G.ng, "the contracted graph has a cycle through ", G.ng - done, " groups; node->group ", vec(G.of));
}
// groups are numbered so that the group graph stays lower triangular
static void quotient_lower(const Dag &d, const Groups &G) {
  for (int u = 0; u < d.n; ++u) for (int v : d.out[u])
    CHECK(G.of[u] <= G.of[v], "dependence ", u, "->", v, " goes from group ", G.of[u], " back to group ", G.of[v], ": group graph not lower triangular");
}
static void order_inside(const Dag &d, const Groups &G, const int *gs) {
  VI pos(d.n);
  for (int k = 0; k < d.n; ++k) pos[gs[k]] = k;
  for (int u = 0; u < d.n; ++u) for (int v : d.out[u]) if (G.of[u] == G.of[v])
    CHECK(pos[u] < pos[v], "group ", G.of[u], " lists ", v, " before ", u, " which it depends on");
}
static void finish(Ctx &c, const Dag &d, const Groups &G) {
  if (G.ng < d.n) c.label("grouped");
  if (G.ng > 1 && G.ng < d.n) c.label("several groups, one larger than 1");
  c.nontrivial = d.n >= 3 && d.edges() > 0 && G.ng < d.n;
}

enum { DFS, BFS, AGG, CHAIN };
static Groups run_tree(const Dag &d, int kind, bool lf, VI &gp, VI &gs) {
  VI p, i; to_csc(d, p, i);
  int ng = 0;
  VI p0 = p, i0 = i;
  bool r = kind == DFS ? HDAGG::treeBasedGrouping(d.n, p, i, ng, gp, gs, lf)
         : kind == BFS ? HDAGG::treeBasedGroupingBFS(d.n, p, i, ng, gp, gs, lf)
         : kind == AGG ? HDAGG::treeBasedGrouping_Aggressive(d.n, p, i, ng, gp, gs, lf)
                       : HDAGG::chainGrouping(d.n, p, i, ng, gp, gs);
  CHECK(r, "grouping reported failure");
  CHECK(p == p0 && i == i0, "the input graph was modified");
  CHECK((int)gp.size() == ng + 1 && (int)gs.size() == d.n, "group pointer has ", gp.size(), " entries for ", ng, " groups, group set ", gs.size(), " for ", d.n, " nodes");
  return partition(d.n, ng, gp.data(), gs.data());
}
static void tree(Src &s, Ctx &c, int kind) {
  Dag d = gen_dag(s, c);
  bool lf = s.flip();
  VI gp, gs;
  if (s.chance(1, 3)) { gp.assign(s.range(1, 5), 1); gs.assign(s.range(1, 5), 2); }
  c.show(d.str(), kind == CHAIN ? "" : lf ? " size restriction" : "");
  Groups G = run_tree(d, kind, lf, gp, gs);
  quotient_acyclic(d, G);
  quotient_lower(d, G);
  if (kind == CHAIN) order_inside(d, G, gs.data());
  finish(c, d, G);
}
static const char *RULE = "graph with >=3 nodes and an edge where some group holds several nodes";
static Reg r1("tree-dfs", RULE, 260000, 4000000, [](Src &s, Ctx &c) { tree(s, c, DFS); }, small_dag_prefix);
static Reg r2("tree-bfs", RULE, 260000, 4000000, [](Src &s, Ctx &c) { tree(s, c, BFS); }, small_dag_prefix);
static Reg r3("tree-aggressive", RULE, 150000, 2000000, [](Src &s, Ctx &c) { tree(s, c, AGG); }, small_dag_prefix);
static Reg r4("chain", RULE, 260000, 4000000, [](Src &s, Ctx &c) { tree(s, c, CHAIN); }, small_dag_prefix);

// the size restriction only exceeds one node for thousands of nodes
static void big(Src &s, Ctx &c) {
  int kind = (int)s.weighted({5, 1, 5});
  int n = kind == BFS ? s.range(20000, 45000) : s.range(1000, 7000);
  Dag d; d.n = n; d.out.assign(n, {}); d.family = "big";
  int win = s.pick(VI{3, 8, 30, 200, 100000}), extra = s.range(0, 4), roots = s.range(2, 40);
  for (int u = 0; u + 1 < n; ++u) {
    if (!s.chance(1, roots * 10)) d.out[u].push_back(s.range(u + 1, std::min(n - 1, u + win)));
    if (extra && s.chance(extra, 40)) d.out[u].push_back(s.range(u + 1, std::min(n - 1, u + win)));
  }
  d.norm();
  VI gp, gs;
  c.show("n=", n, " window=", win, " extra=", extra, " edges=", d.edges());
  c.label(kind == DFS ? "dfs" : kind == BFS ? "bfs" : "aggressive");
  Groups G = run_tree(d, kind, true, gp, gs);
  int lim = std::max(1, (int)((kind == DFS ? 0.001 : kind == AGG ? 0.002 : 0.0001) * n)), mx = 0;
  for (int g = 0; g < G.ng; ++g) mx = std::max(mx, gp[g + 1] - gp[g]);
  CHECK(mx <= lim, "a group holds ", mx, " nodes, the restriction is ", lim);
  quotient_acyclic(d, G);
  quotient_lower(d, G);
  finish(c, d, G);
}
static Reg r5("tree-size-restricted", RULE, 1600, 30000, big);

// chains of the post-order together with the graph of the chains
static void cn(Src &s, Ctx &c) {
  Dag d = gen_dag(s, c);
  int n = d.n;
  VI p, i; to_csc(d, p, i);
  c.show(d.str());
  int ng = 0; VI gp, po, qp, qs;
  HDAGG::computePostOrderAndGroup(n, p, i, ng, gp, po, qp, qs);
  CHECK((int)gp.size() == ng + 1 && (int)po.size() == n, "group pointer has ", gp.size(), " entries for ", ng, " groups");
  Groups G = partition(n, ng, gp.data(), po.data());
  quotient_acyclic(d, G);
  quotient_lower(d, G);
  order_inside(d, G, po.data());
  CHECK((int)qp.size() == ng + 1 && qp[0] == 0 && qp[ng] == (int)qs.size(), "malformed group graph");
  std::vector<std::set<int>> want(ng);
  for (int u = 0; u < n; ++u) { want[G.of[u]].insert(G.of[u]); for (int v : d.out[u]) want[G.of[u]].insert(G.of[v]); }
  for (int g = 0; g < ng; ++g) {
    std::set<int> got(qs.begin() + qp[g], qs.begin() + qp[g + 1]);
    CHECK(qp[g + 1] > qp[g] && qs[qp[g]] == g, "group ", g, " does not start with itself");
    CHECK(got == want[g] && (int)got.size() == qp[g + 1] - qp[g], "group ", g, " points to ", vec(got), " instead of ", vec(want[g]));
  }
  finish(c, d, G);
}
static Reg r6("post-order-chains", RULE, 200000, 3000000, cn, small_dag_prefix);

enum { CSC1, CSC2, CSR1, CSR2 };
static void cls(Src &s, Ctx &c, int kind) {
  Dag d = gen_dag(s, c);
  int n = d.n;
  VI p, i;
  if (kind <= CSC2) to_csc(d, p, i); else to_csr(d, p, i);
  c.show(d.str());
  VI gp(n + 1, -3), gs(n, -3), gi(n, -3); int ng = -1;
  sym_lib::group g(n, p.data(), i.data());
  switch (kind) {
  case CSC1: g.inspection_spicocsc_v1(gp.data(), gs.data(), ng, gi.data()); break;
  case CSC2: g.inspection_spicocsc_v2(gp.data(), gs.data(), ng, gi.data()); break;
  case CSR1: g.inspection_sptrsvcsr_v1(gp.data(), gs.data(), ng, gi.data()); break;
  default: g.inspection_sptrsvcsr_v2(gp.data(), gs.data(), ng, gi.data());
  }
  Groups G = partition(n, ng, gp.data(), gs.data());
  CHECK(gi == G.of, "node->group map ", vec(gi), " disagrees with the groups ", vec(G.of));
  quotient_acyclic(d, G);
  order_inside(d, G, gs.data());
  finish(c, d, G);
}
static Reg c1("ic0-csc-v1", RULE, 200000, 3000000, [](Src &s, Ctx &c) { cls(s, c, CSC1); }, small_dag_prefix);
static Reg c2("ic0-csc-v2", RULE, 200000, 3000000, [](Src &s, Ctx &c) { cls(s, c, CSC2); }, small_dag_prefix);
static Reg c3("trsv-csr-v1", RULE, 200000, 3000000, [](Src &s, Ctx &c) { cls(s, c, CSR1); }, small_dag_prefix);
static Reg c4("trsv-csr-v2", RULE, 200000, 3000000, [](Src &s, Ctx &c) { cls(s, c, CSR2); }, small_dag_prefix);

static void naive(Src &s, Ctx &c) {
  Dag d = gen_dag(s, c);
  int n = d.n, b = s.chance(1, 2) ? s.range(1, 6) : s.range(1, n + 3);
  VI p, i; to_csr(d, p, i);
  c.show(d.str(), " block=", b);
  int need = (n + b - 1) / b;
  VI gp(need + 1, -3), gs(n, -3), gi(n, -3); int ng = -1;
  sym_lib::group g(n, p.data(), i.data());
  g.NaiveGrouping(n, gp.data(), gs.data(), ng, gi.data(), b);
  CHECK(ng == need, ng, " groups instead of ", need);
  Groups G = partition(n, ng, gp.data(), gs.data());
  CHECK(gi == G.of, "node->group map disagrees with the groups");
  for (int g = 0; g + 1 < ng; ++g) CHECK(gp[g + 1] - gp[g] == b, "group ", g, " has ", gp[g + 1] - gp[g], " nodes instead of ", b);
  quotient_acyclic(d, G);
  order_inside(d, G, gs.data());
  finish(c, d, G);
}
static Reg c5("naive", RULE, 150000, 2000000, naive, small_dag_prefix);

// the same on large cases
static pbt::Big big0("tree-dfs", 2500, 1500, 30000);
static pbt::Big big1("tree-bfs", 2500, 1500, 30000);
static pbt::Big big2("tree-aggressive", 2500, 1500, 30000);
static pbt::Big big3("chain", 2500, 1500, 30000);
static pbt::Big big4("post-order-chains", 2500, 1500, 30000);
static pbt::Big big5("ic0-csc-v1", 2500, 1500, 30000);
static pbt::Big big6("ic0-csc-v2", 2500, 1500, 30000);
static pbt::Big big7("trsv-csr-v1", 2500, 1500, 30000);
static pbt::Big big8("trsv-csr-v2", 2500, 1500, 30000);
static pbt::Big big9("naive", 2500, 1500, 30000);
// and on more nodes, edges or levels than 16 bits can count
static pbt::Big huge0("tree-dfs", 70001, 16, 320);
static pbt::Big huge1("tree-bfs", 70001, 16, 320);
static pbt::Big huge2("tree-aggressive", 70001, 16, 320);
static pbt::Big huge3("chain", 70001, 16, 320);
static pbt::Big huge4("ic0-csc-v1", 70001, 16, 320);
static pbt::Big huge5("ic0-csc-v2", 70001, 16, 320);
static pbt::Big huge6("trsv-csr-v1", 70001, 16, 320);
static pbt::Big huge7("trsv-csr-v2", 70001, 16, 320);
static pbt::Big huge8("naive", 70001, 16, 320);
static pbt::Big huge9("post-order-chains", 70000, 16, 320);
