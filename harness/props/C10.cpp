// C10: expanding a schedule keeps validity and content
#include "groups.h"
#include "aggregation/def.h"
#include "aggregation/hdagg.h"
using namespace gen;
using namespace pbt;

static void ungroup(Src &s, Ctx &c) {
  Dag d = gen_dag(s, c);
  Grouping G = gen_grouping(s, c, d, true, true);
  Dag q = quotient(d, G);
  // the quotient may be numbered arbitrarily, so build its schedule over a relabelled copy
  Schedule S;
  {
    VI order(G.ng), lab(G.ng);
    { VI in(G.ng, 0), ready; for (auto &o : q.out) for (int v : o) in[v]++; for (int g = 0; g < G.ng; ++g) if (!in[g]) ready.push_back(g);
      int t = 0; while (!ready.empty()) { int g = ready.back(); ready.pop_back(); order[t] = g; lab[g] = t++; for (int v : q.out[g]) if (--in[v] == 0) ready.push_back(v); } }
    Dag r; r.n = G.ng; r.out.assign(G.ng, {});
    for (int g = 0; g < G.ng; ++g) for (int v : q.out[g]) r.out[lab[g]].push_back(lab[v]);
    r.norm();
    S = gen_schedule(s, c, r, s.range(1, 2));
    for (auto &g : S.np) g = order[g];
  }
  int mode = (int)s.weighted({4, 4, 2});   // sort, post-order, none
  VI p, i; to_csc(d, p, i);
  c.show(d.str(), " ", G.str(), " schedule=", S.str(), mode == 0 ? " sort" : mode == 1 ? " post-order" : " as listed");
  VI lp = S.lp, pp = S.pp, np = S.np, gp = G.ptr, gs = G.set;
  HDAGG::ungroupingScheduleAndApplyOrdering(d.n, S.nlev, lp, pp, np, gp, gs, mode == 1 || s.flip() ? p.data() : nullptr, mode == 1 ? i.data() : nullptr, mode == 0, mode == 1);
  CHECK(lp == S.lp && gp == G.ptr && gs == G.set, "levels or groups were modified");
  CHECK(pp.size() == S.pp.size() && (int)np.size() == d.n, "result has ", pp.size() - 1, " partitions (", S.pp.size() - 1, " expected) and ", np.size(), " nodes");
  Sched R = read_sched(d.n, S.nlev, lp.data(), pp.data(), np.data());
  for (size_t k = 0; k + 1 < S.pp.size(); ++k) {
    VI want; for (int j = S.pp[k]; j < S.pp[k + 1]; ++j) for (int t = G.ptr[S.np[j]]; t < G.ptr[S.np[j] + 1]; ++t) want.push_back(G.set[t]);
    VI got = R.parts[k];
    if (mode == 2) CHECK(got == want, "partition ", k, " holds ", vec(got), " instead of ", vec(want));
    std::sort(want.begin(), want.end());
    if (mode == 0) CHECK(got == want, "partition ", k, " holds ", vec(got), " instead of sorted ", vec(want));
    std::sort(got.begin(), got.end());
    CHECK(got == want, "partition ", k, " holds ", vec(got), " instead of ", vec(want));
  }
  if (mode != 2) check_sched_dag(R, d);
  if (G.ng < d.n) { c.label("grouped"); c.nontrivial = d.n >= 3 && d.edges() > 0; }
}
static Reg r1("ungroup", "graph with >=3 nodes, an edge and a group of several nodes", 350000, 5000000, ungroup, small_dag_prefix);

static void ungroup_errors(Src &s, Ctx &c) {
  Dag d = gen_dag(s, c, 20);
  VI p, i; to_csc(d, p, i);
  VI lp{0, 1}, pp{0, d.n}, np(d.n), gp(d.n + 1), gs(d.n);
  std::iota(np.begin(), np.end(), 0); std::iota(gp.begin(), gp.end(), 0); std::iota(gs.begin(), gs.end(), 0);
  int k = s.range(0, 2);
  c.show(d.str(), k == 0 ? " both orders" : k == 1 ? " post-order without pointer array" : " post-order without index array");
  bool thrown = false;
  try { HDAGG::ungroupingScheduleAndApplyOrdering(d.n, 1, lp, pp, np, gp, gs, k == 1 ? nullptr : p.data(), k == 2 ? nullptr : i.data(), k == 0, true); }
  catch (std::logic_error &) { thrown = true; }
  CHECK(thrown, "conflicting options were accepted");
  c.nontrivial = true;
}
static Reg r2("ungroup-errors", "every case", 20000, 200000, ungroup_errors);

// groups are ranges of consecutive columns made of whole supernodes
static void supernodes(Src &s, Ctx &c) {
  Dag d = gen_dag(s, c);
  int n = d.n;
  VI sp{0}, gp{0}, gs(n);
  std::iota(gs.begin(), gs.end(), 0);
  int w = gen_par(s, 1, 5), gw = gen_par(s, 1, 4);
  while (sp.back() < n) sp.push_back(std::min(n, sp.back() + s.range(1, w)));
  for (size_t k = 1; k < sp.size(); ++k) if (k + 1 == sp.size() || s.range(0, gw) == 0) gp.push_back(sp[k]);
  Grouping G; G.ng = (int)gp.size() - 1; G.inv.assign(n, 0); for (int g = 0; g < G.ng; ++g) for (int u = gp[g]; u < gp[g + 1]; ++u) G.inv[u] = g;
  Dag q = quotient(d, G);
  Schedule S = gen_schedule(s, c, q, 1);
  int ns = (int)sp.size() - 1, nl = S.nlev;
  c.show(d.str(), " supernodes=", vec(sp), " groups=", vec(gp), " schedule=", S.str());
  VI lp = S.lp, pp = S.pp, np = S.np;
  VI gp1 = gp, gs1 = gs, sp1 = sp;
  HDAGG::convertCNScheduleToSuperNode(n, ns, gp1.data(), gs1.data(), sp1.data(), nl, lp, pp, np);
  CHECK(nl == S.nlev && lp == S.lp && gp1 == gp && gs1 == gs && sp1 == sp, "levels, groups or supernodes were modified");
  CHECK(pp.size() == S.pp.size() && (int)np.size() == ns, np.size(), " supernodes in the result instead of ", ns);
  Sched R = read_sched(ns, nl, lp.data(), pp.data(), np.data());
  for (size_t k = 0; k + 1 < S.pp.size(); ++k) {
    VI want; for (int j = S.pp[k]; j < S.pp[k + 1]; ++j) for (int b = 0; b < ns; ++b) if (sp[b] >= gp[S.np[j]] && sp[b] < gp[S.np[j] + 1]) want.push_back(b);
    CHECK(R.parts[k] == want, "partition ", k, " holds supernodes ", vec(R.parts[k]), " instead of ", vec(want));
  }
  c.nontrivial = ns >= 2 && ns < n && G.ng < ns;
}
static Reg r3("to-supernodes", "several supernodes, some of several columns, and a group of several supernodes", 250000, 4000000, supernodes, small_dag_prefix);

static void tiles(Src &s, Ctx &c) {
  Dag d = gen_dag(s, c);
  int n = d.n;
  VI p, i; to_csr(d, p, i);
  Schedule S = gen_schedule(s, c, d, s.range(0, 1));
  int tile = s.range(1, n);
  c.show(d.str(), " schedule=", S.str(), " tile=", tile);
  VI lp = S.lp, pp = S.pp, np = S.np, p1 = p, i1 = i, tp;
  std::vector<HDAGG::twoDIteration> it(s.range(0, 4));
  HDAGG::twoDReordering(n, (int)i.size(), p1.data(), i1.data(), S.nlev, lp, pp, np, tile, tp, it);
  CHECK(lp == S.lp && pp == S.pp && np == S.np && p1 == p && i1 == i, "inputs were modified");
  CHECK(tp.size() == S.pp.size() && tp[0] == 0, "tuple pointer has ", tp.size(), " entries for ", S.pp.size() - 1, " partitions");
  CHECK(it.size() == i.size() && tp.back() == (int)it.size(), it.size(), " iterations for ", i.size(), " nonzeros");
  VI part(n), lev(n), at(i.size(), -1), dg(n, -1);
  for (int l = 0; l < S.nlev; ++l) for (int k = S.lp[l]; k < S.lp[l + 1]; ++k) for (int j = S.pp[k]; j < S.pp[k + 1]; ++j) { part[S.np[j]] = k; lev[S.np[j]] = l; }
  for (size_t k = 0; k + 1 < tp.size(); ++k) {
    CHECK(tp[k] <= tp[k + 1], "tuple pointer decreases at ", k);
    for (int t = tp[k]; t < tp[k + 1]; ++t) {
      auto &x = it[t];
      CHECK(x.i >= 0 && x.i < n && x.k >= p[x.i] && x.k < p[x.i + 1] && x.j == i[x.k], "iteration (", x.i, ",", x.k, ",", x.j, ") is not an entry of the matrix");
      CHECK(part[x.i] == (int)k, "row ", x.i, " of partition ", part[x.i], " is iterated in partition ", k);
      CHECK(at[x.k] < 0, "entry ", x.k, " iterated twice");
      at[x.k] = t; if (x.i == x.j) dg[x.i] = t;
    }
  }
  // a row's diagonal comes after its other entries, and each entry after the diagonal of its column
  for (int u = 0; u < n; ++u) for (int k = p[u]; k + 1 < p[u + 1]; ++k) {
    CHECK(at[k] < dg[u], "entry (", u, ",", i[k], ") is executed after row ", u, " was finished");
    int v = i[k];
    CHECK(lev[v] < lev[u] || (part[v] == part[u] && dg[v] < at[k]), "entry (", u, ",", v, ") is executed before row ", v, " was finished");
  }
  bool moved = false; for (size_t k = 1; k < it.size(); ++k) moved |= it[k].i < it[k - 1].i && part[it[k].i] == part[it[k - 1].i];
  if (moved) c.label("rows interleaved");
  c.nontrivial = n >= 3 && moved;
}
static Reg r4("tiling", "matrix with >=3 rows where iterations of several rows interleave", 250000, 4000000, tiles, small_dag_prefix);

// the same on large cases
static pbt::Big big0("ungroup", 2500, 1500, 30000);
static pbt::Big big1("to-supernodes", 2500, 1500, 30000);
static pbt::Big big2("tiling", 2500, 1500, 30000);
// and on more nodes, edges or levels than 16 bits can count
static pbt::Big huge0("ungroup", 70000, 16, 320);
static pbt::Big huge1("to-supernodes", 70000, 16, 320);
static pbt::Big huge2("tiling", 70000, 16, 320);
