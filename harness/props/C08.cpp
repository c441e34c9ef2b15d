// C08: contracted DAGs equal the quotient of the original DAG
#include "groups.h"
#include "aggregation/def.h"
#include "aggregation/hdagg.h"
#include "aggregation/group_utils.h"
using namespace gen;
using namespace pbt;

static const char *RULE = "graph with >=3 nodes, an edge between two groups and a group of several nodes";
static void finish(Ctx &c, const Dag &d, const Grouping &G, const Dag &q) {
  c.nontrivial = d.n >= 3 && G.ng < d.n && q.edges() > 0;
}
// sorted lists with the group itself
static void check_csc(const Dag &q, bool topo, int ng, const VI &p, const VI &i) {
  CHECK((int)p.size() == ng + 1, "pointer has ", p.size(), " entries for ", ng, " groups");
  CHECK(p[0] == 0 && p[ng] == (int)i.size(), "pointer runs from ", p[0], " to ", p[ng], ", ", i.size(), " entries");
  for (int g = 0; g < ng; ++g) {
    CHECK(p[g] <= p[g + 1], "pointer decreases at ", g);
    VI want = q.out[g]; want.push_back(g); std::sort(want.begin(), want.end());
    VI got(i.begin() + p[g], i.begin() + p[g + 1]);
    CHECK(got == want, "group ", g, " lists ", vec(got), " instead of ", vec(want));
    CHECK(!topo || got[0] == g, "diagonal entry of group ", g, " is not first");
  }
}
static void build(Src &s, Ctx &c) {
  Dag d = gen_dag(s, c);
  Grouping G = gen_grouping(s, c, d, true, true);
  VI p, i; to_csc(d, p, i);
  if (s.chance(1, 4)) { // children need not be sorted for this function, but the diagonal stays first
    for (int u = 0; u < d.n; ++u) std::reverse(i.begin() + p[u] + 1, i.begin() + p[u + 1]);
    c.label("unsorted children");
  }
  c.show(d.str(), " ", G.str());
  VI qp, qi;
  if (s.chance(1, 4)) { qp.assign(s.range(1, G.ng + 1), 9); qi.assign(s.range(1, 9), 9); }
  HDAGG::buildGroupDAG(d.n, G.ng, G.ptr.data(), G.set.data(), p.data(), i.data(), qp, qi);
  Dag q = quotient(d, G);
  check_csc(q, G.topo, G.ng, qp, qi);
  finish(c, d, G, q);
}
static Reg r1("group-dag", RULE, 250000, 4000000, build, small_dag_prefix);

static void final_dag(Src &s, Ctx &c) {
  Dag d = gen_dag(s, c);
  Schedule S = gen_schedule(s, c, d, 1);
  VI p, i; to_csc(d, p, i);
  c.show(d.str(), " schedule=", S.str());
  int ng = -1; VI gp, gs, qp, qi;
  if (s.chance(1, 3)) { gp.assign(s.range(1, 9), 9); gs.assign(s.range(1, d.n + 3), 9); qp.assign(s.range(1, 9), 9); qi.assign(s.range(1, 9), 9); }
  HDAGG::getFinalScheduleDAG(d.n, S.nlev, S.lp.data(), S.pp.data(), S.np.data(), p.data(), i.data(), ng, gp, gs, qp, qi);
  // groups are the non-empty partitions in schedule order
  Grouping G; G.inv.assign(d.n, -1); G.ptr.push_back(0); G.set = S.np;
  for (size_t k = 0; k + 1 < S.pp.size(); ++k) if (S.pp[k + 1] > S.pp[k]) { for (int j = S.pp[k]; j < S.pp[k + 1]; ++j) G.inv[S.np[j]] = G.ng; ++G.ng; G.ptr.push_back(S.pp[k + 1]); }
  CHECK(ng == G.ng, ng, " groups for ", G.ng, " non-empty partitions");
  CHECK(gp == G.ptr && gs == G.set, "groups ", vec(gp), " ", vec(gs), " are not the partitions ", vec(G.ptr), " ", vec(G.set));
  Dag q = quotient(d, G);
  check_csc(q, true, ng, qp, qi);
  finish(c, d, G, q);
}
static Reg r2("schedule-dag", RULE, 200000, 3000000, final_dag, small_dag_prefix);

using VVI = std::vector<VI>;
static void lists(Src &s, Ctx &c) {
  Dag d = gen_dag(s, c);
  Grouping G = gen_grouping(s, c, d, true, true);
  VI cp, ci, rp, ri; to_csc(d, cp, ci); to_csr(d, rp, ri);
  c.show(d.str(), " ", G.str());
  Dag q = quotient(d, G);
  auto same = [&](VVI got, const Dag &want, const char *what, bool strict) {
    CHECK(got.size() == want.out.size(), what, ": ", got.size(), " lists for ", want.out.size(), " nodes");
    for (size_t g = 0; g < got.size(); ++g) {
      if (!strict) { std::sort(got[g].begin(), got[g].end()); got[g].erase(std::unique(got[g].begin(), got[g].end()), got[g].end()); }
      CHECK(got[g] == want.out[g], what, ": node ", g, " lists ", vec(got[g]), " instead of ", vec(want.out[g]));
    }
  };
  VVI base(d.n); sym_lib::fs_csr_inspector_dep(d.n, rp.data(), ri.data(), base);
  same(base, d, "fs_csr_inspector_dep", true);
  VVI g1(G.ng); sym_lib::fs_csr_inspector_dep(G.ng, G.ptr.data(), G.set.data(), G.inv.data(), rp.data(), ri.data(), g1);
  same(g1, q, "fs_csr_inspector_dep (groups)", false);
  VVI g2(G.ng); sym_lib::fs_ic0csc_inspector_group(G.ng, G.ptr.data(), G.set.data(), G.inv.data(), cp.data(), ci.data(), g2);
  same(g2, q, "fs_ic0csc_inspector_group", false);
  VVI g3 = sym_lib::Group_DAG(base, G.ptr.data(), G.set.data(), G.inv.data(), G.ng);
  same(g3, q, "Group_DAG", true);
  finish(c, d, G, q);
}
static Reg r3("group-lists", RULE, 200000, 3000000, lists, small_dag_prefix);

// the same on large cases
static pbt::Big big0("group-dag", 2500, 1500, 30000);
static pbt::Big big1("schedule-dag", 2500, 1500, 30000);
static pbt::Big big2("group-lists", 2500, 1500, 30000);
// and on more nodes, edges or levels than 16 bits can count
static pbt::Big huge0("group-dag", 70001, 16, 320);
static pbt::Big huge1("schedule-dag", 70001, 16, 320);
static pbt::Big huge2("group-lists", 70001, 16, 320);
