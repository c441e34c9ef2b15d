// C21: merged graphs keep every dependence of their parts.
#include "mat.h"
#include "aggregation/BCSCMatrix.h"
#include "aggregation/sparse_inspector.h"
#include "aggregation/sparse_utilities.h"
#include <memory>
using namespace gen;
using namespace sym_lib;

namespace {
using Edges = std::set<std::pair<int, int>>; // (from, to)

// The targets of node u, drawn from first..n-1: a few, the next one, or (some) all after a hub
struct Wide {
  Lcg r; int n, kind, hub; bool big;
  Wide(Src &s, int n_) : n(n_), big(n_ > 150) { if (big) { r.h = s.draw(1 << 20); kind = s.range(0, 3); hub = s.range(0, n - 1); } }
  VI of(int u, int first) {
    VI o;
    if (kind == 0) { for (int t = r(4); t > 0 && first < n; --t) o.push_back(first + r(n - first)); }
    else if (kind == 1) { if (first < n && r(20)) o.push_back(first); }
    else if (kind == 2) { if (hub >= first && r(9)) o.push_back(hub); }
    else if (u == hub) { for (int v = first; v < n; ++v) if (r(9)) o.push_back(v); }
    std::sort(o.begin(), o.end()); o.erase(std::unique(o.begin(), o.end()), o.end());
    return o;
  }
};
// A DAG with the given number of nodes
Dag dag_of(Src &s, int n) {
  Dag d; d.n = n; d.out.resize(n);
  Wide w(s, n);
  if (w.big) { for (int u = 0; u < n; ++u) d.out[u] = w.of(u, u + 1); return d; }
  int k = (int)s.weighted({3, 2, 1, 1});
  for (int u = 0; u < n; ++u)
    for (int v = u + 1; v < n; ++v)
      if (k == 0 ? s.chance(2, n + 1) : k == 1 ? s.chance(1, 3) : k == 2 ? v == u + 1 : false) d.out[u].push_back(v);
  return d;
}
std::string show_edges(const std::vector<VI> &o) {
  std::ostringstream t; t << "{";
  for (size_t u = 0; u < o.size(); ++u) for (int v : o[u]) t << " " << u << ">" << v;
  t << " }"; return t.str();
}
void flat(const std::vector<VI> &col, VI &p, VI &i) {
  p.assign(1, 0); i.clear();
  for (auto &c : col) { i.insert(i.end(), c.begin(), c.end()); p.push_back((int)i.size()); }
  p.shrink_to_fit(); i.shrink_to_fit();
}
// inter-graph dependences: arbitrary square pattern, sorted, columns may be empty
std::vector<VI> cross(Src &s, Ctx &c, int n) {
  std::vector<VI> o(n);
  int k = (int)s.weighted({3, 2, 2, 1});
  static const char *nm[] = {"cross:sparse", "cross:identity", "cross:dense", "cross:none"};
  Wide w(s, n);
  if (w.big) { c.label("cross:large"); for (int u = 0; u < n; ++u) o[u] = w.of(u, 0); return o; }
  c.label(nm[k]);
  for (int u = 0; u < n; ++u) for (int v = 0; v < n; ++v)
    if (k == 0 ? s.chance(2, n + 1) : k == 1 ? u == v : k == 2 ? s.chance(1, 2) : false) o[u].push_back(v);
  return o;
}
Ent edges_to_ent(const Edges &e) { Ent r; for (auto &q : e) r[{q.second, q.first}] = 1; return r; }

void fuse(Src &s, Ctx &c) {
  int n = sz_of(s, 1, s.chance(1, 3) ? 30 : 6), g = s.range(1, huge() ? 3 : up(5)), variant = (int)s.draw(3);
  bool diag = !s.chance(1, 6);
  std::vector<std::vector<VI>> G(g), D(g > 1 ? g - 1 : 0);
  std::vector<VI> P(g), I(g), DP(D.size()), DI(D.size());
  std::ostringstream sh; sh << "n=" << n << " variant=" << variant << (diag ? "" : " no-diagonal");
  Edges want;
  for (int q = 0; q < g; ++q) {
    Dag d = dag_of(s, n); G[q] = d.out;
    sh << " G" << q << "=" << show_edges(G[q]);
    if (diag) for (int u = 0; u < n; ++u) G[q][u].insert(G[q][u].begin(), u);
    flat(G[q], P[q], I[q]);
    for (int u = 0; u < n; ++u) for (int v : G[q][u]) want.insert({u + q * n, v + q * n});
    if (q + 1 < g) {
      if (variant == 2) {
        D[q] = cross(s, c, n); sh << " D" << q << "=" << show_edges(D[q]);
        flat(D[q], DP[q], DI[q]);
        for (int u = 0; u < n; ++u) for (int v : D[q][u]) want.insert({u + q * n, v + (q + 1) * n});
      } else for (int u = 0; u < n; ++u) want.insert({u + q * n, u + (q + 1) * n});
    }
  }
  c.show(sh.str());
  std::vector<int *> gp, gi, dp, di;
  for (int q = 0; q < g; ++q) { gp.push_back(P[q].data()); gi.push_back(I[q].data()); }
  for (size_t q = 0; q < D.size(); ++q) { dp.push_back(DP[q].data()); di.push_back(DI[q].data()); }
  auto P0 = P, I0 = I, DP0 = DP, DI0 = DI;
  int N = n * g;
  if (variant == 0) {
    int *np = nullptr, *ni = nullptr;
    merge_graph(g, n, gp.data(), gi.data(), np, ni);
    Ent got = read_comp("merge_graph (arrays)", N, N, np, ni, nullptr, true, false);
    same_ent("merge_graph (arrays)", got, edges_to_ent(want), false);
    delete[] np; delete[] ni;
  } else {
    std::unique_ptr<CSC> M(variant == 1 ? merge_graph(g, n, gp.data(), gi.data())
                                        : merge_DAGs_with_partial_order(g, n, gp.data(), gi.data(), g - 1, dp.data(), di.data()));
    const char *who = variant == 1 ? "merge_graph" : "merge_DAGs_with_partial_order";
    check_csc(who, M.get(), N, N, edges_to_ent(want), true, false);
  }
  CHECK(P == P0 && I == I0 && DP == DP0 && DI == DI0, "merging changed a part");
  c.nontrivial = g >= 2 && n >= 2 && want.size() > (size_t)(N + (g - 1) * n);
}

// Block partition with supernodal lower-triangular matrices over it
struct Part { int nb, n; VI st, blk; };
Part part(Src &s) {
  Part q; q.nb = sz_of(s, 1, s.chance(1, 3) ? 20 : 5);
  int w = s.range(1, 4);
  q.st.assign(1, 0);
  for (int k = 0; k < q.nb; ++k) q.st.push_back(q.st.back() + s.range(1, w));
  q.n = q.st.back(); q.blk.resize(q.n);
  for (int k = 0; k < q.nb; ++k) for (int j = q.st[k]; j < q.st[k + 1]; ++j) q.blk[j] = k;
  return q;
}
Mat blocked(Src &s, const Part &q, Dag &d) {
  d = dag_of(s, q.nb);
  Mat M; M.m = M.n = q.n; M.stype = -1; M.col.resize(q.n);
  for (int k = 0; k < q.nb; ++k) {
    VI below;
    for (int v : d.out[k]) { int w = q.st[v + 1] - q.st[v], mask = s.range(1, (1 << w) - 1); for (int t = 0; t < w; ++t) if (mask >> t & 1) below.push_back(q.st[v] + t); }
    for (int j = q.st[k]; j < q.st[k + 1]; ++j) {
      for (int r = j; r < q.st[k + 1]; ++r) M.col[j].push_back({r, 1.0});
      for (int r : below) M.col[j].push_back({r, 2.0});
    }
  }
  M.flat();
  return M;
}
Mat general(Src &s, Ctx &c, int n) {
  auto o = cross(s, c, n);
  Mat M; M.m = M.n = n; M.col.resize(n);
  for (int u = 0; u < n; ++u) for (int v : o[u]) M.col[u].push_back({v, 3.0});
  M.flat();
  return M;
}
// longest path levels of a graph whose edges all go from smaller to larger nodes
VI levels(int n, const Edges &e) {
  VI L(n, 0);
  for (auto &q : e) if (q.first != q.second) L[q.second] = std::max(L[q.second], L[q.first] + 1); // set order: sources ascending
  return L;
}

void joint(Src &s, Ctx &c) {
  Part q = part(s);
  Dag da, dc;
  Mat A = blocked(s, q, da), C = blocked(s, q, dc), B = general(s, c, q.n);
  c.show("blocks=", pbt::vec(q.st), " A=", da.str(), " C=", dc.str(), " B=", B.str());
  int nb = q.nb, n = q.n;
  std::unique_ptr<CSC> a(make_csc(A)), b(make_csc(B)), cc(make_csc(C));
  // fused block graph of solve, product, solve
  {
    VI sn = q.st;
    BCSCMatrix SA(a.get(), nb, sn.data()), SC(cc.get(), nb, sn.data());
    std::unique_ptr<CSC> M(merge_graphs(SA.getBCSC(), b.get(), SC.getBCSC()));
    Edges want;
    for (int k = 0; k < nb; ++k) {
      want.insert({k, k}); want.insert({nb + k, nb + k}); want.insert({2 * nb + k, 2 * nb + k});
      want.insert({k, nb + k});
      for (int v : da.out[k]) want.insert({k, v});
      for (int v : dc.out[k]) want.insert({2 * nb + k, 2 * nb + v});
    }
    for (int j = 0; j < n; ++j) for (auto &e : B.col[j]) want.insert({nb + q.blk[j], 2 * nb + q.blk[e.first]});
    check_csc("merge_graphs", M.get(), 3 * nb, 3 * nb, edges_to_ent(want), true, false);
  }
  // joint wavefronts; the product is fused into the first solve
  {
    VI sn = q.st;
    int *lp = nullptr, *ls = nullptr;
    int nl = bcsc_csc_bcsc_levelset(a.get(), b.get(), cc.get(), lp, ls, nb, sn.data());
    Edges e;
    for (int k = 0; k < nb; ++k) { for (int v : da.out[k]) e.insert({k, v}); for (int v : dc.out[k]) e.insert({nb + k, nb + v}); }
    for (int j = 0; j < n; ++j) for (auto &x : B.col[j]) e.insert({q.blk[j], nb + q.blk[x.first]});
    VI L = levels(2 * nb, e);
    int h = *std::max_element(L.begin(), L.end()) + 1;
    CHECK(lp[0] == 0, "joint wavefronts start at ", lp[0]);
    for (int l = 0; l < nl; ++l) CHECK(lp[l] < lp[l + 1] && lp[l + 1] <= 2 * nb, "joint wavefront ", l, " is bounded by ", lp[l], "..", lp[l + 1]);
    CHECK(lp[nl] == 2 * nb, "joint wavefronts list ", lp[nl], " of ", 2 * nb, " nodes");
    VI seen(2 * nb, -1);
    for (int l = 0; l < nl; ++l) for (int t = lp[l]; t < lp[l + 1]; ++t) {
      int u = ls[t], kern = u >= n, j = u - kern * n;
      CHECK(u >= 0 && u < 2 * n, "joint wavefronts contain ", u);
      CHECK(q.st[q.blk[j]] == j, "joint wavefronts contain ", u, ", which starts no supernode");
      int k = q.blk[j] + kern * nb;
      CHECK(seen[k] < 0, "supernode ", q.blk[j], " of solve ", kern, " is listed twice");
      seen[k] = l;
    }
    for (auto &x : e) CHECK(seen[x.first] < seen[x.second], "node ", x.second, " in wavefront ", seen[x.second], " depends on node ", x.first, " in wavefront ", seen[x.first]);
    CHECK(nl == h, "joint level set has ", nl, " wavefronts, the longest path needs ", h);
    CHECK(sn == q.st, "the supernodes changed");
    delete[] lp; delete[] ls;
  }
  check_untouched(a.get(), A, "first matrix"); check_untouched(b.get(), B, "second matrix"); check_untouched(cc.get(), C, "third matrix");
  VI brow(nb, 0); for (auto &x : B.i) brow[q.blk[x]] = 1;
  if (std::count(brow.begin(), brow.end(), 0)) c.label("rows without product");
  c.nontrivial = nb >= 2 && da.edges() + dc.edges() > 0 && B.nnz() > 0;
}

// k copies of the same kernel, node i of copy q+1 depending on node i of copy q
void repeated(Src &s, Ctx &c) {
  bool blocked_ = s.flip();
  int kern = s.range(1, 4);
  Part q = part(s);
  if (!blocked_) { q.st.resize(q.nb + 1); std::iota(q.st.begin(), q.st.end(), 0); q.n = q.nb; q.blk = VI(q.st.begin(), q.st.end() - 1); }
  Dag d; Mat A = blocked(s, q, d);
  bool lower = !blocked_ || s.flip();
  int nb = q.nb, n = q.n;
  c.show("blocks=", pbt::vec(q.st), " ", d.str(), " kernels=", kern, lower ? " lower" : " upper", blocked_ ? " blocked" : "");
  VI p = A.p, i = A.i, sn = q.st;
  if (!lower) { // mirror: index j becomes n-1-j
    std::vector<VI> col(n);
    for (int j = 0; j < n; ++j) for (auto &e : A.col[j]) col[n - 1 - j].insert(col[n - 1 - j].begin(), n - 1 - e.first);
    flat(col, p, i);
    for (auto &x : sn) x = n - 1 - x;
  }
  VI p0 = p, i0 = i, sn0 = sn;
  int *lp = nullptr, *ls = nullptr;
  int nl = blocked_ ? level_set_bn(n, p.data(), i.data(), lp, ls, sn.data(), nb, kern, lower)
                    : level_set_multi_graphs(n, p.data(), i.data(), lp, ls, kern);
  VI L = levels_of(d);
  int h = *std::max_element(L.begin(), L.end()) + kern;
  CHECK(lp[0] == 0, "wavefronts start at ", lp[0]);
  for (int l = 0; l < nl; ++l) CHECK(lp[l] < lp[l + 1] && lp[l + 1] <= kern * nb, "wavefront ", l, " is bounded by ", lp[l], "..", lp[l + 1]);
  CHECK(lp[nl] == kern * nb, "wavefronts list ", lp[nl], " of ", kern * nb, " nodes");
  CHECK(nl == h, "there are ", nl, " wavefronts, the longest path needs ", h);
  std::vector<VI> seen(kern, VI(nb, -1));
  for (int l = 0; l < nl; ++l) for (int t = lp[l]; t < lp[l + 1]; ++t) {
    int u = ls[t];
    CHECK(u >= 0 && u < kern * n, "wavefronts contain ", u);
    int kn = u / n, j = u % n; if (!lower) j = n - 1 - j;
    int k = q.blk[j];
    CHECK(q.st[k] == j, "wavefronts contain ", u, ", which starts no supernode");
    CHECK(seen[kn][k] < 0, "node ", k, " of kernel ", kn, " is listed twice");
    seen[kn][k] = l;
    CHECK(l == L[k] + kn, "node ", k, " of kernel ", kn, " is in wavefront ", l, " instead of ", L[k] + kn);
  }
  CHECK(p == p0 && i == i0 && sn == sn0, "the input changed");
  if (lower) { // the supernode of every listed node
    int *s2n = nullptr;
    sup2node_gen(n, kern * nb, ls, nb, sn.data(), s2n);
    for (int t = 0; t < kern * nb; ++t) CHECK(s2n[t] == q.blk[ls[t] % n], "node ", ls[t], " starts supernode ", q.blk[ls[t] % n], ", the map says ", s2n[t]);
    CHECK(sn == sn0, "the supernodes changed");
    delete[] s2n;
  }
  delete[] lp; delete[] ls;
  if (kern > 1) c.label("several kernels");
  c.nontrivial = nb >= 2 && d.edges() > 0 && kern > 1;
}

pbt::Reg r1("fuse", "two or more graphs of two or more nodes with an edge inside", 200000, 3000000, fuse);
pbt::Reg r2("joint", "two or more blocks, an edge inside a solve and one between", 150000, 2000000, joint);
pbt::Reg r3("repeated", "two or more kernels and nodes, and an edge", 200000, 3000000, repeated);
}

// the same on large cases
static pbt::Big big0("fuse", 400, 1500, 30000);
static pbt::Big big1("joint", 400, 1500, 30000);
static pbt::Big big2("repeated", 1000, 1500, 30000);
// and on more nodes, edges and wavefronts than 16 bits can count
static pbt::Big huge0("fuse", 70001, 16, 320);
static pbt::Big huge1("joint", 70001, 16, 320);
static pbt::Big huge2("repeated", 70001, 16, 320);
