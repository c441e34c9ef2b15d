// Reference symbolic factorisation by explicit elimination.
#pragma once
#include "gen.h"
#include "mat.h"
#include <memory>
namespace gen {
// L[j] = rows below the diagonal of column j of the filled pattern.
inline std::vector<VI> eliminate(const Dag &d) {
  int n = d.n;
  std::vector<std::vector<char>> a(n, std::vector<char>(n, 0));
  for (int u = 0; u < n; ++u) for (int v : d.out[u]) a[v][u] = 1;
  std::vector<VI> L(n);
  for (int k = 0; k < n; ++k) {
    for (int i = k + 1; i < n; ++i) if (a[i][k]) L[k].push_back(i);
    for (size_t x = 0; x < L[k].size(); ++x) for (size_t y = x + 1; y < L[k].size(); ++y) a[L[k][y]][L[k][x]] = 1;
  }
  return L;
}
inline VI parents_of(const std::vector<VI> &L) { VI p; for (auto &c : L) p.push_back(c.empty() ? -1 : c[0]); return p; }
// the same without the filled pattern, by joining subtrees; for graphs too large to eliminate
inline VI parents_by_joining(const Dag &d) {
  VI par(d.n, -1), root(d.n);
  std::iota(root.begin(), root.end(), 0);
  auto find = [&](int x) { int r = x; while (root[r] != r) r = root[r]; while (root[x] != r) { int y = root[x]; root[x] = r; x = y; } return r; };
  std::vector<VI> in(d.n);
  for (int u = 0; u < d.n; ++u) for (int v : d.out[u]) in[v].push_back(u);
  for (int j = 0; j < d.n; ++j) for (int u : in[j]) { int r = find(u); if (r != j) { par[r] = j; root[r] = j; } }
  return par;
}
// filled pattern from the parents: row i is what lies on the paths from its entries towards i
inline std::vector<VI> fill_of(const Dag &d, const VI &par, size_t limit) {
  std::vector<VI> L(d.n), in(d.n);
  for (int u = 0; u < d.n; ++u) for (int v : d.out[u]) in[v].push_back(u);
  VI mark(d.n, -1); size_t total = 0;
  for (int i = 0; i < d.n; ++i) {
    mark[i] = i;
    for (int u : in[i]) for (int x = u; x >= 0 && mark[x] != i; x = par[x]) { mark[x] = i; L[x].push_back(i); if (++total > limit) throw pbt::Discard(); }
  }
  return L;
}
// row and column counts (with the diagonal) of the filled pattern, without the pattern itself:
// row i is the union of the paths from its entries to i, added up by lowest common ancestors
inline void counts_of(const Dag &d, const VI &par, VI &rc, VI &cc) {
  int n = d.n, lg = 1;
  VI depth(n, 0), pos(n), kid(n, -1), sib(n, -1), st;
  for (int j = n; j-- > 0;) if (par[j] >= 0) depth[j] = depth[par[j]] + 1;
  while ((1 << lg) <= n) ++lg;
  std::vector<VI> up(lg, VI(n));
  for (int j = 0; j < n; ++j) up[0][j] = par[j] < 0 ? j : par[j];
  for (int k = 1; k < lg; ++k) for (int j = 0; j < n; ++j) up[k][j] = up[k - 1][up[k - 1][j]];
  auto lca = [&](int a, int b) {
    if (depth[a] < depth[b]) std::swap(a, b);
    for (int k = lg; k-- > 0;) if (depth[a] - (1 << k) >= depth[b]) a = up[k][a];
    for (int k = lg; k-- > 0;) if (up[k][a] != up[k][b]) { a = up[k][a]; b = up[k][b]; }
    return a == b ? a : up[0][a];
  };
  for (int j = n; j-- > 0;) if (par[j] >= 0) { sib[j] = kid[par[j]]; kid[par[j]] = j; }
  int at = 0;
  for (int r = 0; r < n; ++r) if (par[r] < 0) for (st.assign(1, r); !st.empty(); st.pop_back()) {
    while (kid[st.back()] >= 0) { int k = kid[st.back()]; kid[st.back()] = -1; st.push_back(k); }
    pos[st.back()] = at++;
    if (st.size() > 1) kid[st[st.size() - 2]] = sib[st.back()];
  }
  std::vector<VI> in(n);
  for (int u = 0; u < n; ++u) for (int v : d.out[u]) in[v].push_back(u);
  rc.assign(n, 1); cc.assign(n, 0);
  for (int i = 0; i < n; ++i) {
    VI &q = in[i];
    std::sort(q.begin(), q.end(), [&](int a, int b) { return pos[a] < pos[b]; });
    if (q.empty()) ++cc[i];
    for (size_t k = 0; k < q.size(); ++k) {
      rc[i] += depth[q[k]] - depth[i]; ++cc[q[k]];
      if (k) { int l = lca(q[k - 1], q[k]); rc[i] -= depth[l] - depth[i]; --cc[l]; }
    }
    if (par[i] >= 0) --cc[par[i]];
  }
  for (int j = 0; j < n; ++j) if (par[j] >= 0) cc[par[j]] += cc[j];
}
// Columns of the symmetric matrix: 0 upper half with diagonal, 1 both halves, 2 upper half with some diagonals missing; entry order shuffled on request
inline void sym_cols(Src &s, const Dag &d, int kind, bool shuffle, VI &p, VI &i) {
  std::vector<VI> col(d.n);
  for (int u = 0; u < d.n; ++u) {
    for (int v : d.out[u]) { col[v].push_back(u); if (kind == 1) col[u].push_back(v); }
    if (kind != 2 || (huge() ? u % 3 : s.flip())) col[u].push_back(u);
  }
  p.assign(1, 0); i.clear();
  for (auto &c : col) {
    std::sort(c.begin(), c.end());
    if (shuffle && !huge()) for (size_t k = c.size(); k > 1; --k) std::swap(c[k - 1], c[s.draw(k)]);
    if (shuffle && huge()) { Lcg r{c.size()}; for (size_t k = c.size(); k > 1; --k) std::swap(c[k - 1], c[r((int)k)]); }
    i.insert(i.end(), c.begin(), c.end()); p.push_back((int)i.size());
  }
  p.shrink_to_fit(); i.shrink_to_fit(); if (i.empty()) i.reserve(1);
}
inline void symb_labels(Ctx &c, const Dag &d, const std::vector<VI> &L) {
  size_t l = 0; for (auto &q : L) l += q.size();
  if (l > d.edges() && !L.empty()) c.label("has-fill");
  if (L.empty()) c.label("joined");
  int roots = 0; for (auto &q : L) roots += q.empty();
  if (roots > 1) c.label("forest");
  if (d.n >= 3 && d.edges() > 0) c.nontrivial = true;
}
inline std::unique_ptr<sym_lib::CSC> wrap(int m, int n, VI &p, VI &i, int stype) {
  std::unique_ptr<sym_lib::CSC> A(new sym_lib::CSC(m, n, i.size(), true, stype));
  std::copy(p.begin(), p.end(), A->p); std::copy(i.begin(), i.end(), A->i);
  return A;
}
}
