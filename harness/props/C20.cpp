// C20: weight-based partitioners cover all elements within bounds.
#include "mat.h"
#include "aggregation/utils.h"
#include <memory>
using namespace gen;
using namespace sym_lib;

namespace {
// weights that are multiples of 1/4 so that sums are exact
VD weights(Src &s, Ctx &c, int n) {
  int k = (int)s.weighted({3, 3, 2, 2, 1});
  VD w(n, 1.0);
  for (auto &x : w) x = k == 0 ? 1 : k == 1 ? s.range(1, 9) : k == 2 ? s.range(0, 3) : k == 3 ? s.range(1, 40) * 0.25 : s.chance(1, 6) ? s.range(100, 1000) : s.range(0, 2);
  static const char *nm[] = {"w:ones", "w:small", "w:zeros", "w:quarters", "w:skewed"};
  c.label(nm[k]);
  return w;
}
VD targets(Src &s, Ctx &c, int parts, double sum, bool &given) {
  given = s.flip();
  VD t(parts, std::ceil(sum / parts));
  if (given) {
    c.label("targets given");
    for (auto &x : t) x = s.chance(1, 8) ? 0 : s.range(0, std::max(1, (int)(2 * sum / parts))) + 0.25 * s.range(0, 3);
  }
  return t;
}

void by_weight(Src &s, Ctx &c) {
  int n = gen_size(s, 120), parts = s.range(1, s.flip() ? 4 : n + 3);
  VI set = gen_perm(s, n);
  VD w = weights(s, c, n);
  double sum = 0; for (double x : w) sum += x;
  bool given; VD t = targets(s, c, parts, sum, given);
  c.show("set=", pbt::vec(set), " weight=", pbt::vec(w), " parts=", parts, given ? " targets=" + pbt::vec(t) : std::string());
  c.nontrivial = n >= 3 && parts >= 2;
  VI set0 = set; VD w0 = w, t0 = t;
  int *b = partition_by_weight(n, set.data(), w.data(), parts, given ? t.data() : nullptr);
  CHECK(b[0] == 0, "first boundary is ", b[0]);
  CHECK(b[parts] == n, "last boundary is ", b[parts], " for ", n, " elements");
  int j = 0;
  for (int p = 0; p < parts; ++p) {
    CHECK(b[p] <= b[p + 1] && b[p + 1] <= n, "boundary ", p + 1, " is ", b[p + 1], " after ", b[p]);
    double c_w = 0;
    while (c_w < t[p] && j < n) c_w += w[set[j++]];
    if (p == parts - 1) { if (j < n) c.label("remainder"); j = n; }
    CHECK(b[p + 1] == j, "part ", p, " ends at ", b[p + 1], " instead of ", j);
  }
  CHECK(set == set0 && w == w0 && t == t0, "partition_by_weight changed its inputs");
  delete[] b;
}

void by_bfs(Src &s, Ctx &c) {
  Dag d = gen_dag(s, c, 80);
  int n = d.n, parts = s.range(1, s.flip() ? 4 : n + 3);
  bool both = s.chance(1, 4), diag = !s.chance(1, 4);
  VD w = weights(s, c, n);
  double sum = 0; for (double x : w) sum += x;
  bool given; VD t = targets(s, c, parts, sum, given);
  c.show(d.str(), both ? " symmetric" : "", diag ? "" : " no diagonal", " weight=", pbt::vec(w), " parts=", parts, given ? " targets=" + pbt::vec(t) : std::string());
  c.nontrivial = n >= 3 && parts >= 2 && d.edges() > 0;
  Mat M; M.m = M.n = n; M.pattern = true; M.col.resize(n);
  for (int u = 0; u < n; ++u) { if (diag) M.col[u].push_back({u, 1}); for (int v : d.out[u]) { M.col[u].push_back({v, 1}); if (both) M.col[v].push_back({u, 1}); } }
  M.sort(); M.flat();
  std::unique_ptr<CSC> A(make_csc(M));
  VD w0 = w, t0 = t;
  int nl = -1, *lp = nullptr, *pp = nullptr, *np = nullptr;
  partition_by_bfs(n, A.get(), w.data(), nl, lp, parts, pp, np, given ? t.data() : nullptr);
  CHECK(nl == 1, "number of levels ", nl);
  CHECK(lp[0] == 0 && lp[1] == parts, "level pointer ", lp[0], ",", lp[1], " for ", parts, " parts");
  CHECK(pp[0] == 0 && pp[parts] == n, "part pointer runs from ", pp[0], " to ", pp[parts], " for ", n, " nodes");
  VI seen(n, 0);
  for (int p = 0; p < parts; ++p) CHECK(pp[p] <= pp[p + 1] && pp[p + 1] <= n, "part pointer ", p + 1, " is ", pp[p + 1]);
  for (int k = 0; k < n; ++k) { CHECK(np[k] >= 0 && np[k] < n, "node ", np[k], " at ", k); CHECK(!seen[np[k]]++, "node ", np[k], " is in two places"); }
  // breadth-first visit from the smallest unvisited node, cut into parts
  VI order; std::vector<char> vis(n, 0);
  for (int r = 0; r < n; ++r) if (!vis[r]) {
    size_t h = order.size(); order.push_back(r); vis[r] = 1;
    for (; h < order.size(); ++h) for (auto &e : M.col[order[h]]) if (!vis[e.first]) { vis[e.first] = 1; order.push_back(e.first); }
  }
  int j = 0;
  for (int p = 0; p < parts; ++p) {
    double c_w = 0; int st = j;
    while (c_w < t[p] && j < n) c_w += w[order[j++]];
    for (int k = st; k < j; ++k) CHECK(np[k] == order[k], "position ", k, " (part ", p, ") holds node ", np[k], " instead of ", order[k]);
    if (p < parts - 1) CHECK(pp[p + 1] == j, "part ", p, " ends at ", pp[p + 1], " instead of ", j);
    else if (j < n) c.label("remainder");
  }
  CHECK(w == w0 && t == t0, "partition_by_bfs changed its inputs");
  check_untouched(A.get(), M, "partition_by_bfs");
  delete[] lp; delete[] pp; delete[] np;
}

pbt::Reg r1("by-weight", "at least 3 elements and 2 parts", 300000, 4000000, by_weight);
pbt::Reg r2("by-bfs", "at least 3 nodes, 2 parts and one edge", 200000, 3000000, by_bfs, small_dag_prefix);
}

// the same on large cases
static pbt::Big big0("by-weight", 2500, 1500, 30000);
static pbt::Big big1("by-bfs", 2500, 1500, 30000);
// and on more nodes, edges or levels than 16 bits can count
static pbt::Big huge0("by-weight", 70001, 32, 320);
static pbt::Big huge1("by-bfs", 70001, 32, 320);
