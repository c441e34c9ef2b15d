// C15: elimination trees and row patterns are exact.
#include "gen.h"
#include "symb.h"
#include "aggregation/sparse_inspector.h"
#include "aggregation/sparse_utilities.h"
#include "aggregation/hdagg.h"
#include <memory>
using namespace gen;
using namespace sym_lib;

namespace {
void same_parent(const char *what, const int *got, const VI &want) {
  for (size_t k = 0; k < want.size(); ++k) CHECK(got[k] == want[k], what, ": parent of ", k, " is ", got[k], " instead of ", want[k]);
}

void sym_etree(Src &s, Ctx &c) {
  Dag d = gen_dag(s, c, 70);
  std::vector<VI> L; if (d.n <= 400) L = eliminate(d);
  VI par = d.n > 400 ? parents_by_joining(d) : parents_of(L);
  int kind = (int)s.draw(3); bool sh = s.flip();
  VI p, i; sym_cols(s, d, kind, sh, p, i);
  c.show(d.str(), " kind=", kind, " shuffled=", sh);
  symb_labels(c, d, L);
  auto A = wrap(d.n, d.n, p, i, 1);
  VI out(d.n, 77);
  CHECK(compute_etree(A.get(), out.data()), "compute_etree reports failure");
  same_parent("compute_etree", out.data(), par);
  for (size_t k = 0; k < i.size(); ++k) CHECK(A->i[k] == i[k], "compute_etree changed its input");
  int n = d.n; VI v(s.range(0, 3), 5);
  HDAGG::computeParents(n, p.data(), i.data(), v);
  CHECK(n == d.n && (int)v.size() == d.n, "computeParents returns ", v.size(), " parents for ", d.n, " nodes");
  same_parent("computeParents", v.data(), par);
}

// tree as a graph in both encodings
void tree_graph(Src &s, Ctx &c) {
  Dag d = gen_dag(s, c, 70);
  std::vector<VI> L; if (d.n <= 400) L = eliminate(d);
  VI par = d.n > 400 ? parents_by_joining(d) : parents_of(L);
  VI p, i; to_csr(d, p, i);
  if (s.flip()) sym_cols(s, d, (int)s.draw(2), s.flip(), p, i);
  c.show(d.str());
  symb_labels(c, d, L);
  CSR A(d.n, d.n, i.size(), true);
  std::copy(p.begin(), p.end(), A.p); std::copy(i.begin(), i.end(), A.i);
  int ne = -1; VI tp(s.range(0, 4), 9), ts(s.range(0, 4), 9);
  HDAGG::buildETree(&A, ne, tp, ts);
  CHECK((int)tp.size() == d.n + 1, "buildETree: pointer array of size ", tp.size());
  CHECK(ne == (int)ts.size() && tp[d.n] == ne && tp[0] == 0, "buildETree: edge count ", ne, " but ", ts.size(), " entries");
  for (int u = 0; u < d.n; ++u) {
    int w = par[u] < 0 ? 1 : 2;
    CHECK(tp[u + 1] - tp[u] == w, "buildETree: node ", u, " has ", tp[u + 1] - tp[u], " entries instead of ", w);
    CHECK(ts[tp[u]] == u, "buildETree: first entry of node ", u, " is ", ts[tp[u]]);
    if (w == 2) CHECK(ts[tp[u] + 1] == par[u], "buildETree: node ", u, " points to ", ts[tp[u] + 1], " instead of ", par[u]);
  }
  VI t = par;
  CSC *T = tree_to_csc(d.n, t.data());
  Ent want; for (int u = 0; u < d.n; ++u) if (par[u] >= 0) want[{u, par[u]}] = 1;
  CHECK((int)T->m == d.n && (int)T->n == d.n, "tree_to_csc: dimensions ", T->m, "x", T->n);
  Ent got = read_comp("tree_to_csc", d.n, d.n, T->p, T->i, nullptr, true, false);
  same_ent("tree_to_csc", got, want, false);
  CHECK(T->nnz == want.size(), "tree_to_csc: nonzero count ", T->nnz, " for ", want.size(), " edges");
  CHECK(t == par, "tree_to_csc changed the tree");
  int *a = T->p, *b = T->i; delete T; delete[] a; delete[] b;
}

// every forest directly
void forest_csc(Src &s, Ctx &c) {
  VI par = gen_forest(s, c, 120);
  int n = (int)par.size();
  c.show("parent=", pbt::vec(par));
  if (n >= 3) c.nontrivial = true;
  VI t = par;
  CSC *T = tree_to_csc(n, t.data());
  Ent want; for (int u = 0; u < n; ++u) if (par[u] >= 0) want[{u, par[u]}] = 1;
  Ent got = read_comp("tree_to_csc", n, n, T->p, T->i, nullptr, true, false);
  same_ent("tree_to_csc", got, want, false);
  CHECK(T->nnz == want.size(), "tree_to_csc: nonzero count ", T->nnz, " for ", want.size(), " edges");
  CHECK(t == par, "tree_to_csc changed the tree");
  int *a = T->p, *b = T->i; delete T; delete[] a; delete[] b;
  // the matrix made of the edges of a forest has that forest as etree
  Dag d; d.n = n; d.out.resize(n);
  for (int u = 0; u < n; ++u) if (par[u] >= 0) d.out[u].push_back(par[u]);
  VI p, i; sym_cols(s, d, 0, false, p, i);
  auto A = wrap(n, n, p, i, 1);
  VI out(n, 77);
  CHECK(compute_etree(A.get(), out.data()), "compute_etree reports failure");
  same_parent("compute_etree of a forest", out.data(), par);
}

void ata_etree(Src &s, Ctx &c) {
  Mat M = gen_mat(s, c, GENERAL_M, true, false, true, 30);
  M.stype = 0; M.flat();
  c.show(M.str());
  std::vector<VI> rows(M.m);
  for (int j = 0; j < M.n; ++j) for (auto &e : M.col[j]) rows[e.first].push_back(j);
  Dag d; d.n = M.n; d.out.resize(M.n);
  for (auto &r : rows) for (int a : r) for (int b : r) if (a < b) d.out[a].push_back(b);
  d.norm();
  auto L = eliminate(d); VI par = parents_of(L);
  CHECK(par == parents_by_joining(d), "the two references disagree");
  CHECK(fill_of(d, par, 1u << 30) == L, "the two references disagree on the pattern");
  symb_labels(c, d, L);
  std::unique_ptr<CSC> A(make_csc(M));
  VI out(M.n, 77);
  CHECK(compute_etree(A.get(), out.data()), "compute_etree reports failure");
  same_parent("compute_etree of a general matrix", out.data(), par);
  check_untouched(A.get(), M, "compute_etree");
  if (M.m != M.n) return;
  A->stype = -1;
  CHECK(!compute_etree(A.get(), out.data()), "compute_etree accepts a lower half");
}

void row_pattern(Src &s, Ctx &c) {
  Dag d = gen_dag(s, c, 70);
  auto L = eliminate(d); VI par = parents_of(L);
  int kind = (int)s.draw(3); bool sh = s.flip();
  VI p, i; sym_cols(s, d, kind, sh, p, i);
  VI p2, i2; sym_cols(s, d, kind == 1 ? 0 : kind, sh, p2, i2);
  c.show(d.str(), " kind=", kind, " shuffled=", sh);
  symb_labels(c, d, L);
  int n = d.n;
  std::vector<std::set<int>> row(n);
  for (int j = 0; j < n; ++j) for (int r : L[j]) row[r].insert(j);
  VI w(n), st(n); int fill = s.chance(1, 3) ? s.range(0, 5) : 0;
  for (auto &x : w) x = fill;
  std::vector<bool> wb(n, false); VI sb(n, 0x3e3e3e3e);
  VI order(n); std::iota(order.begin(), order.end(), 0);
  if (s.flip()) for (int k = n; k > 1; --k) std::swap(order[k - 1], order[s.draw(k)]);
  auto chk = [&](const char *what, int k, const VI &sv, int top, int end) {
    CHECK(top >= 0 && top <= end, what, ": top ", top, " for row ", k);
    VI pos(n, -1);
    for (int t = top; t < end; ++t) {
      int v = sv[t];
      CHECK(v >= 0 && v < n, what, ": row ", k, " lists column ", v);
      CHECK(pos[v] < 0, what, ": row ", k, " lists column ", v, " twice");
      pos[v] = t;
      CHECK(row[k].count(v), what, ": row ", k, " of the factor has no entry in column ", v);
    }
    CHECK(end - top == (int)row[k].size(), what, ": row ", k, " lists ", end - top, " of ", row[k].size(), " columns");
    for (int v : row[k]) if (par[v] >= 0 && par[v] != k) CHECK(pos[par[v]] > pos[v], what, ": row ", k, ": column ", par[v], " comes before its descendant ", v);
  };
  for (int k : order) {
    int top = ereach(n, p.data(), i.data(), k, par.data(), st.data(), w.data());
    chk("ereach", k, st, top, n);
    for (int x : w) CHECK(x == fill, "ereach of row ", k, " leaves its workspace marked");
    top = HDAGG::computeNoneZeroPatternOfRowK(n, p2.data(), i2.data(), k, par.data(), sb.data(), wb);
    chk("computeNoneZeroPatternOfRowK", k, sb, top, n - 1);
    CHECK(sb[n - 1] == k, "computeNoneZeroPatternOfRowK: row ", k, " ends with ", sb[n - 1]);
    for (int x = 0; x < n; ++x) CHECK(!wb[x], "computeNoneZeroPatternOfRowK of row ", k, " leaves node ", x, " marked");
  }
  CHECK(ereach(n, nullptr, i.data(), 0, par.data(), st.data(), w.data()) == -1, "ereach accepts a missing matrix");
}

pbt::Reg r1("etree", "at least 3 columns and one off-diagonal entry", 150000, 3000000, sym_etree, small_dag_prefix);
pbt::Reg r2("tree-graph", "at least 3 columns and one off-diagonal entry", 80000, 1500000, tree_graph, small_dag_prefix);
pbt::Reg r3("forest", "at least 3 nodes", 80000, 1500000, forest_csc, small_forest_prefix);
pbt::Reg r4("etree-general", "at least 3 columns with one shared row", 100000, 2000000, ata_etree);
pbt::Reg r5("row-pattern", "at least 3 columns and one off-diagonal entry", 80000, 1500000, row_pattern, small_dag_prefix);
}

// the same on large cases
static pbt::Big big0("etree", 2500, 1500, 30000);
static pbt::Big big1("tree-graph", 2500, 1500, 30000);
static pbt::Big big2("forest", 2500, 1500, 30000);
static pbt::Big big3("etree-general", 400, 1500, 30000);
static pbt::Big big4("row-pattern", 400, 1500, 30000);
// and on more nodes, edges or levels than 16 bits can count
static pbt::Big huge0("forest", 70001, 32, 320);
static pbt::Big huge1("etree", 70001, 16, 320);
static pbt::Big huge2("tree-graph", 70001, 16, 320);
