// C16: symbolic Cholesky factorisation is exact.
#include "symb.h"
#include "aggregation/lfactor_creation.h"
#include "aggregation/sparse_inspector.h"
#include "aggregation/sparse_utilities.h"
using namespace gen;
using namespace sym_lib;

namespace {
// A post-order: permutation, descendants first, subtrees contiguous. Returns position of each node.
VI check_post(const char *what, const VI &par, const int *post) {
  int n = (int)par.size();
  VI pos(n, -1), size(n, 1);
  for (int k = 0; k < n; ++k) {
    CHECK(post[k] >= 0 && post[k] < n, what, ": entry ", k, " is ", post[k]);
    CHECK(pos[post[k]] < 0, what, ": node ", post[k], " occurs twice");
    pos[post[k]] = k;
  }
  VI lo = pos;
  for (int k = 0; k < n; ++k) {
    int v = post[k], p = par[v];
    if (p < 0) continue;
    CHECK(pos[p] > k, what, ": node ", v, " follows its parent ", p);
    size[p] += size[v]; lo[p] = std::min(lo[p], lo[v]);
  }
  for (int v = 0; v < n; ++v) CHECK(pos[v] - lo[v] + 1 == size[v], what, ": the subtree of ", v, " is not contiguous");
  return pos;
}

void postorder(Src &s, Ctx &c) {
  VI par = gen_forest(s, c, 120);
  int n = (int)par.size();
  if (s.chance(1, 4)) { // arbitrary numbering of the forest
    VI q = gen_perm(s, n), r(n);
    for (int i = 0; i < n; ++i) r[q[i]] = par[i] < 0 ? -1 : q[par[i]];
    par = r; c.label("relabelled");
  }
  int wk = (int)s.draw(4);
  VI w(n, 0);
  for (auto &x : w) x = wk == 1 ? s.range(0, 3) : wk == 2 ? s.range(-2, n + 2) : wk == 3 ? s.range(0, n - 1) : 0;
  c.show("parent=", pbt::vec(par), wk ? " weight=" + pbt::vec(w) : std::string(" no weights"));
  if (n >= 3) c.nontrivial = true;
  VI p2 = par, w2 = w, post(n, 88);
  int r = tree_post_order(p2.data(), n, wk ? w2.data() : nullptr, post.data());
  CHECK(r == n, "tree_post_order returns ", r, " for ", n, " nodes");
  CHECK(p2 == par && w2 == w, "tree_post_order changed its inputs");
  VI pos = check_post("tree_post_order", par, post.data());
  // children in order of (clamped) weight, then index; roots by index
  auto key = [&](int v) { int x = wk && par[v] >= 0 ? std::min(std::max(w[v], 0), n - 1) : 0; return x; };
  std::vector<VI> ch(n + 1);
  for (int k = 0; k < n; ++k) ch[par[post[k]] < 0 ? n : par[post[k]]].push_back(post[k]);
  for (auto &q : ch) for (size_t k = 1; k < q.size(); ++k) {
    int a = q[k - 1], b = q[k];
    CHECK(key(a) <= key(b), "tree_post_order: sibling ", a, " of weight ", key(a), " precedes ", b, " of weight ", key(b));
  }
  if (!wk) for (auto &q : ch) for (size_t k = 1; k < q.size(); ++k) CHECK(q[k - 1] < q[k], "tree_post_order: siblings ", q[k - 1], " and ", q[k], " out of order");
}

struct Sym { Dag d; std::vector<VI> L; VI par, cc, rc; size_t fl = 0; };
Sym symbolic(const Dag &d) {
  Sym y; y.d = d;
  if (d.n > 400) { y.par = parents_by_joining(d); y.L = fill_of(d, y.par, 3000000); } else { y.L = eliminate(d); y.par = parents_of(y.L); }
  y.cc.assign(d.n, 1); y.rc.assign(d.n, 1);
  for (int j = 0; j < d.n; ++j) { y.cc[j] += (int)y.L[j].size(); for (int r : y.L[j]) y.rc[r]++; }
  for (int x : y.cc) y.fl += (size_t)x * x;
  return y;
}

void counts(Src &s, Ctx &c) {
  Dag d = gen_dag(s, c, 70);
  Sym y;
  if (d.n > 400) { y.d = d; y.par = parents_by_joining(d); counts_of(d, y.par, y.rc, y.cc); for (int x : y.cc) y.fl += (size_t)x * x; }
  else { y = symbolic(d); VI r, q; counts_of(d, parents_by_joining(d), r, q); CHECK(r == y.rc && q == y.cc, "the two references disagree"); }
  c.show(d.str());
  symb_labels(c, d, y.L);
  int n = d.n;
  // lower half, diagonal possibly missing, possibly with the upper half too, shuffled
  std::vector<VI> col(n); bool both = s.chance(1, 5), sh = s.chance(1, 3), nodiag = s.chance(1, 5);
  for (int u = 0; u < n; ++u) { if (!nodiag) col[u].push_back(u); for (int v : d.out[u]) { col[u].push_back(v); if (both) col[v].push_back(u); } }
  VI p(1, 0), i;
  for (auto &q : col) {
    std::sort(q.begin(), q.end());
    if (sh && !huge()) for (size_t k = q.size(); k > 1; --k) std::swap(q[k - 1], q[s.draw(k)]);
    if (sh && huge()) { Lcg r{q.size()}; for (size_t k = q.size(); k > 1; --k) std::swap(q[k - 1], q[r((int)k)]); }
    i.insert(i.end(), q.begin(), q.end()); p.push_back((int)i.size());
  }
  auto A = wrap(n, n, p, i, -1);
  // any post-order of the tree
  VI w(n), post(n, 88);
  { Lcg r{huge() ? s.draw(1 << 20) : 0}; for (auto &x : w) x = huge() ? r(4) : s.range(0, 3); }
  VI par = y.par;
  tree_post_order(par.data(), n, s.flip() ? w.data() : nullptr, post.data());
  VI pos = check_post("tree_post_order", y.par, post.data());
  VI rc(n, 55), cc(n, 55), first(n, 55), lev(n, 55); size_t fl = 7;
  bool rows = !s.chance(1, 4);
  CHECK(row_col_counts_symmetric(A.get(), par.data(), post.data(), rows ? rc.data() : nullptr, cc.data(), first.data(), lev.data(), fl), "row_col_counts_symmetric reports failure");
  CHECK(par == y.par, "row_col_counts_symmetric changed the tree");
  VI depth(n, 0); for (int j = n; j-- > 0;) if (y.par[j] >= 0) depth[j] = depth[y.par[j]] + 1;
  for (int j = 0; j < n; ++j) {
    CHECK(cc[j] == y.cc[j], "column count of ", j, " is ", cc[j], " instead of ", y.cc[j]);
    if (rows) CHECK(rc[j] == y.rc[j], "row count of ", j, " is ", rc[j], " instead of ", y.rc[j]);
    CHECK(lev[j] == depth[j], "level of ", j, " is ", lev[j], " instead of ", depth[j]);
  }
  VI f = pos;
  for (int k = 0; k < n; ++k) { int v = post[k]; if (y.par[v] >= 0) f[y.par[v]] = std::min(f[y.par[v]], f[v]); }
  for (int j = 0; j < n; ++j) CHECK(first[j] == f[j], "first descendant of ", j, " is ", first[j], " instead of ", f[j]);
  CHECK(fl == y.fl, "flop count ", fl, " instead of ", y.fl);
  for (size_t k = 0; k < i.size(); ++k) CHECK(A->i[k] == i[k], "row_col_counts_symmetric changed the matrix");
  for (int st = 0; st < 2; ++st) { A->stype = st; CHECK(!row_col_counts_symmetric(A.get(), par.data(), post.data(), nullptr, cc.data(), first.data(), lev.data(), fl), "row_col_counts_symmetric accepts stype ", st); }
}

void check_L(const char *what, const CSC *L, const Sym &y) {
  int n = y.d.n;
  CHECK(L, what, ": no factor");
  CHECK((int)L->m == n && (int)L->n == n, what, ": dimensions ", L->m, "x", L->n);
  CHECK(L->p[0] == 0, what, ": pointers start at ", L->p[0]);
  for (int j = 0; j < n; ++j) {
    CHECK(L->p[j + 1] - L->p[j] == y.cc[j], what, ": column ", j, " has ", L->p[j + 1] - L->p[j], " entries instead of ", y.cc[j]);
    CHECK(L->i[L->p[j]] == j, what, ": first entry of column ", j, " is ", L->i[L->p[j]]);
    for (size_t k = 0; k < y.L[j].size(); ++k) CHECK(L->i[L->p[j] + 1 + k] == y.L[j][k], what, ": entry ", k + 1, " of column ", j, " is row ", L->i[L->p[j] + 1 + k], " instead of ", y.L[j][k]);
  }
  CHECK((int)L->nnz == L->p[n], what, ": nonzero count ", L->nnz);
}
void check_access(const char *what, const double *acc, const Sym &y) {
  int n = y.d.n;
  VI up(n, 1); // entries of the upper half per column
  for (int u = 0; u < n; ++u) for (int v : y.d.out[u]) up[v]++;
  std::vector<double> a(up.begin(), up.end());
  for (int j = 0; j < n; ++j) for (int r : y.L[j]) a[r] += up[j];
  for (int j = 0; j < n; ++j) CHECK(acc[j] == a[j], what, ": accessed nonzeros of ", j, " are ", acc[j], " instead of ", a[j]);
}

void pattern(Src &s, Ctx &c) {
  Dag d = gen_dag(s, c, 70);
  Sym y = symbolic(d);
  c.show(d.str());
  symb_labels(c, d, y.L);
  int n = d.n;
  VI p, i; sym_cols(s, d, 0, s.flip(), p, i);
  auto A = wrap(n, n, p, i, 1);
  VI cc = y.cc, par = y.par; VD acc(n, -5);
  std::unique_ptr<CSC> L(build_L_pattern_from_col_counts(n, A.get(), cc.data(), par.data(), acc.data()));
  check_L("build_L_pattern_from_col_counts", L.get(), y);
  check_access("build_L_pattern_from_col_counts", acc.data(), y);
  CHECK(cc == y.cc && par == y.par, "build_L_pattern_from_col_counts changed its inputs");
}

void lfactor(Src &s, Ctx &c) {
  Dag d = gen_dag(s, c, s.chance(1, 20) ? 250 : 50);
  c.show(d.str());
  int n = d.n;
  Mat M; M.m = M.n = n; M.stype = -1; M.pattern = s.flip(); M.col.resize(n);
  for (int u = 0; u < n; ++u) { M.col[u].push_back({u, 4.0}); for (int v : d.out[u]) M.col[u].push_back({v, -1.0 - v}); }
  M.flat();
  std::unique_ptr<CSC> A(make_csc(M));
  std::unique_ptr<LFactorSymbolicInfo> I(build_symbolic_simplicial_lfactor(A.get()));
  CHECK(I, "build_symbolic_simplicial_lfactor: no result");
  check_untouched(A.get(), M, "build_symbolic_simplicial_lfactor");
  VI inv(n, -1);
  for (int k = 0; k < n; ++k) {
    int q = I->perm[k];
    CHECK(q >= 0 && q < n && inv[q] < 0, "the ordering is not a permutation at ", k);
    inv[q] = k;
  }
  for (int k = 0; k < n; ++k) CHECK(I->iperm[k] == inv[k], "inverse ordering of ", k, " is ", I->iperm[k], " instead of ", inv[k]);
  for (int k = 0; k < n; ++k) { CHECK(I->post[k] >= 0 && I->post[k] < n, "post-order entry ", k, " is ", I->post[k]); CHECK(I->ipost[I->post[k]] == k, "inverse post-order of ", I->post[k], " is ", I->ipost[I->post[k]]); }
  Dag e; e.n = n; e.out.resize(n);
  for (int u = 0; u < n; ++u) for (int v : d.out[u]) e.out[std::min(inv[u], inv[v])].push_back(std::max(inv[u], inv[v]));
  e.norm();
  Sym y = symbolic(e);
  symb_labels(c, d, y.L);
  bool moved = false; for (int k = 0; k < n; ++k) moved |= inv[k] != k;
  if (moved) c.label("reordered");
  for (int k = 0; k < n; ++k) {
    CHECK(I->parent[k] == y.par[k], "etree of the ordered matrix: parent of ", k, " is ", I->parent[k], " instead of ", y.par[k]);
    CHECK(I->col_counts[k] == y.cc[k], "column count of ", k, " is ", I->col_counts[k], " instead of ", y.cc[k]);
  }
  VI id(n); std::iota(id.begin(), id.end(), 0);
  check_post("combined ordering", y.par, id.data());
  CHECK(I->flops == y.fl, "flop count ", I->flops, " instead of ", y.fl);
  check_L("build_symbolic_simplicial_lfactor", I->L, y);
  check_access("build_symbolic_simplicial_lfactor", I->accessed_nnz_per_col, y);
}

pbt::Reg r1("postorder", "at least 3 nodes", 150000, 3000000, postorder, small_forest_prefix);
pbt::Reg r2("counts", "at least 3 columns and one off-diagonal entry", 120000, 2000000, counts, small_dag_prefix);
pbt::Reg r3("factor-pattern", "at least 3 columns and one off-diagonal entry", 100000, 2000000, pattern, small_dag_prefix);
pbt::Reg r4("symbolic-factor", "at least 3 columns and one off-diagonal entry", 60000, 800000, lfactor, small_dag_prefix);
}

// the same on large cases
static pbt::Big big0("postorder", 2500, 1500, 30000);
static pbt::Big big1("counts", 2500, 1500, 30000);
static pbt::Big big2("factor-pattern", 2500, 1500, 30000);
static pbt::Big big3("symbolic-factor", 2500, 1500, 30000);
// and on more nodes, edges or levels than 16 bits can count
static pbt::Big huge0("postorder", 70001, 32, 320);
static pbt::Big huge1("counts", 70001, 24, 480);
static pbt::Big huge2("factor-pattern", 70000, 24, 480);
static pbt::Big huge3("symbolic-factor", 70000, 16, 320);
