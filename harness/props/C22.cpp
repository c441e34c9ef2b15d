// C22: tree utilities agree with their definitions on every forest.
#include "gen.h"
#include "aggregation/def.h"
#include "aggregation/sparse_utilities.h"
using namespace gen;
using namespace sym_lib;

namespace {
// labels need not grow towards the roots
VI relabel(Src &s, Ctx &c, const VI &par) {
  int n = (int)par.size();
  VI lab(n); std::iota(lab.begin(), lab.end(), 0);
  for (int k = n - 1; k > 0; --k) std::swap(lab[k], lab[s.range(0, k)]);
  VI p2(n, -1);
  for (int u = 0; u < n; ++u) p2[lab[u]] = par[u] < 0 ? par[u] : lab[par[u]];
  c.label("unordered labels");
  return p2;
}
// remove some nodes: they become -2, edges into them are cut
VI non_members(Src &s, Ctx &c, VI par) {
  int n = (int)par.size(), den = s.range(2, 8);
  VI out(n, 0);
  for (int u = 0; u < n; ++u) out[u] = s.chance(1, den);
  for (int u = 0; u < n; ++u) if (!out[u] && par[u] >= 0 && out[par[u]]) par[u] = -1;
  for (int u = 0; u < n; ++u) if (out[u]) par[u] = -2;
  c.label("non-members");
  return par;
}
std::vector<VI> kids_of(const VI &par) {
  std::vector<VI> k(par.size());
  for (size_t u = 0; u < par.size(); ++u) if (par[u] >= 0) k[par[u]].push_back((int)u);
  return k;
}

void children(Src &s, Ctx &c) {
  VI par = gen_forest(s, c);
  if (s.chance(1, 4)) par = relabel(s, c, par);
  if (s.chance(1, 3)) par = non_members(s, c, par);
  int n = (int)par.size();
  c.show("parent=", pbt::vec(par));
  auto kids = kids_of(par);
  size_t m = 0; for (auto &k : kids) m += k.size();
  VI par0 = par, ptr(n + 1, -7), no(m), cnt(n, 0);
  no.shrink_to_fit();
  populate_children(n, par.data(), ptr.data(), no.data(), cnt.data());
  CHECK(par == par0, "populate_children changed the tree");
  CHECK(ptr[0] == 0, "child pointers start at ", ptr[0]);
  for (int u = 0; u < n; ++u) {
    CHECK(cnt[u] == (int)kids[u].size(), "node ", u, " has ", cnt[u], " children instead of ", kids[u].size());
    CHECK(ptr[u + 1] - ptr[u] == cnt[u], "child list of ", u, " has ", ptr[u + 1] - ptr[u], " entries instead of ", cnt[u]);
    VI got(no.begin() + ptr[u], no.begin() + ptr[u + 1]);
    std::sort(got.begin(), got.end());
    CHECK(got == kids[u], "children of ", u, " are ", pbt::vec(got), " instead of ", pbt::vec(kids[u]));
  }
  c.nontrivial = n >= 3 && m > 0;
}

void height(Src &s, Ctx &c) {
  VI par = gen_forest(s, c);
  if (s.chance(1, 4)) par = relabel(s, c, par);
  int n = (int)par.size();
  bool weighted = s.flip();
  VI w(n, 1);
  if (weighted) { int k = s.range(0, 2); for (auto &x : w) x = k == 0 ? s.range(1, 5) : k == 1 ? s.range(0, 3) : s.chance(1, 5) ? s.range(50, 1000) : s.range(0, 2); }
  c.show("parent=", pbt::vec(par), weighted ? " weight=" + pbt::vec(w) : std::string());
  VI depth(n), cnt(n, 0); int H = 0;
  for (int u = 0; u < n; ++u) {
    int d = weighted ? w[u] : 0;
    for (int v = par[u]; v >= 0; v = par[v]) d += weighted ? w[v] : 1;
    depth[u] = d; H = std::max(H, d);
    if (par[u] >= 0) cnt[par[u]]++;
  }
  VI par0 = par, w0 = w, cnt0 = cnt;
  int *W = weighted ? w.data() : nullptr;
  for (int u = 0; u < n; ++u) { int d = get_node_depth(u, n, par.data(), W); CHECK(d == depth[u], "depth of node ", u, " is ", d, " instead of ", depth[u]); }
  int h = get_tree_height_bruteforce(n, par.data(), W);
  CHECK(h == H, "height from all nodes is ", h, " instead of ", H);
  h = get_tree_height(n, par.data(), cnt.data(), W);
  CHECK(h == H, "height from the leaves is ", h, " instead of ", H);
  h = get_tree_height_efficient(n, par.data(), cnt.data(), W);
  CHECK(h == H, "height from the efficient traversal is ", h, " instead of ", H);
  CHECK(par == par0 && w == w0 && cnt == cnt0, "the input changed");
  if (weighted) c.label("weighted");
  c.nontrivial = n >= 3 && H > 0;
}

void split(Src &s, Ctx &c) {
  VI par = gen_forest(s, c);
  if (s.chance(1, 4)) par = relabel(s, c, par);
  if (s.chance(1, 2)) par = non_members(s, c, par);
  int n = (int)par.size(), parts = gen_par(s, 1, 8);
  VD cost(n); for (auto &x : cost) x = s.range(0, 40) * 0.25;
  c.show("parent=", pbt::vec(par), " cost=", pbt::vec(cost), " parts=", parts);
  auto kids = kids_of(par);
  VI ptr(1, 0), no, cnt;
  for (auto &k : kids) { no.insert(no.end(), k.begin(), k.end()); ptr.push_back((int)no.size()); cnt.push_back((int)k.size()); }
  no.shrink_to_fit();
  VI root(n, -1); int trees = 0, members = 0; double total = 0;
  for (int u = 0; u < n; ++u) if (par[u] != -2) { int v = u; while (par[v] >= 0) v = par[v]; root[u] = v; trees += par[u] == -1; members++; total += cost[u]; }
  VI par0 = par, ptr0 = ptr, no0 = no; VD cost0 = cost;
  int out = -1; VD oc(n, 0.0); VI n2p(n, -5); std::vector<VI> list;
  int ret = post_order_spliting(n, par.data(), cost.data(), ptr.data(), no.data(), cnt.data(), (int)total, parts, out, oc.data(), n2p.data(), list);
  CHECK(par == par0 && ptr == ptr0 && no == no0 && cost == cost0, "post_order_spliting changed the tree, its children or costs");
  CHECK(ret == out && out == (int)list.size(), "reported ", ret, " and ", out, " parts, but the list has ", list.size());
  CHECK(out == trees, "there are ", out, " parts for ", trees, " trees");
  VI seen(n, 0); int k = 0;
  for (int q = 0; q < out; ++q) {
    CHECK(!list[q].empty(), "part ", q, " is empty");
    double sum = 0;
    for (int u : list[q]) {
      CHECK(u >= 0 && u < n && par[u] != -2, "part ", q, " lists ", u);
      CHECK(!seen[u]++, "node ", u, " is listed twice");
      CHECK(root[u] == root[list[q][0]], "part ", q, " mixes the trees of ", u, " and ", list[q][0]);
      for (int v : kids[u]) CHECK(seen[v], "node ", u, " comes before its child ", v);
      CHECK(n2p[u] == q, "node ", u, " is mapped to part ", n2p[u], " instead of ", q);
      sum += cost[u]; ++k;
    }
    CHECK(oc[q] == sum, "cost of part ", q, " is ", oc[q], " instead of ", sum);
  }
  CHECK(k == members, "parts list ", k, " of ", members, " member nodes");
  for (int u = 0; u < n; ++u) if (par[u] == -2) CHECK(n2p[u] == -5, "node ", u, ", which is no member, was mapped to part ", n2p[u]);
  c.nontrivial = n >= 3 && !no.empty();
}

pbt::Reg r1("children", "at least 3 nodes and an edge", 250000, 4000000, children, small_forest_prefix);
pbt::Reg r2("height", "at least 3 nodes and a positive height", 250000, 4000000, height, small_forest_prefix);
pbt::Reg r3("splitting", "at least 3 nodes and an edge", 250000, 4000000, split, small_forest_prefix);
}

// the same on large cases
static pbt::Big big0("children", 2500, 1500, 30000);
static pbt::Big big1("height", 2500, 1500, 30000);
static pbt::Big big2("splitting", 2500, 1500, 30000);
// and on more nodes, edges or levels than 16 bits can count
static pbt::Big huge0("children", 70001, 32, 320);
static pbt::Big huge1("height", 70001, 32, 320);
static pbt::Big huge2("splitting", 70001, 32, 320);
