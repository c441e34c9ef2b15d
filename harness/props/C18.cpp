// C18: blocked (supernodal) storage represents the same matrix.
#include "mat.h"
#include "aggregation/BCSCMatrix.h"
#include <memory>
using namespace gen;
using namespace sym_lib;

namespace {
// Lower-triangular matrix with full diagonal; often with real supernodes.
Mat lower(Src &s, Ctx &c) {
  Dag d;
  if (!huge() && s.chance(1, 2)) { // expand a block DAG so that neighbouring columns share structure
    Dag b = gen_dag(s, c, 14);
    VI st(1, 0);
    int w = s.range(1, up(4));
    for (int k = 0; k < b.n; ++k) st.push_back(st.back() + s.range(1, w));
    d.n = st.back(); d.out.resize(d.n);
    for (int k = 0; k < b.n; ++k) {
      VI rows;
      for (int v : b.out[k]) for (int t = st[v]; t < st[v + 1]; ++t) if (!s.chance(1, 4)) rows.push_back(t);
      for (int j = st[k]; j < st[k + 1]; ++j) { for (int t = j + 1; t < st[k + 1]; ++t) d.out[j].push_back(t); d.out[j].insert(d.out[j].end(), rows.begin(), rows.end()); }
    }
    if (s.chance(1, 4)) { int j = s.range(0, d.n - 1); if (!d.out[j].empty()) d.out[j].erase(d.out[j].begin() + s.draw(d.out[j].size())); c.label("perturbed"); }
    c.label("expanded blocks");
  } else d = gen_dag(s, c, 40);
  Mat M; M.m = M.n = d.n; M.stype = -1; M.col.resize(d.n);
  int vk = (int)s.weighted({4, 2, 2, 1});
  Lcg r{huge() ? s.draw(1 << 20) : 0};
  if (huge()) for (int u = 0; u < d.n; ++u) { M.col[u].push_back({u, 1.0 + r(1000)}); for (int v : d.out[u]) M.col[u].push_back({v, r(1000) / 8.0}); }
  else for (int u = 0; u < d.n; ++u) { M.col[u].push_back({u, gen_entry(s, vk)}); for (int v : d.out[u]) M.col[u].push_back({v, gen_entry(s, vk)}); }
  M.flat();
  return M;
}
VI rows_of(const Mat &M, int j) { VI r; for (auto &e : M.col[j]) r.push_back(e.first); return r; }

// Boundaries of the maximal blocks, each extended by at most `limit` columns
VI blocks(const Mat &M, int limit) {
  VI b(1, 0);
  int j = 0;
  while (j < M.n) {
    VI first = rows_of(M, j);
    int e = j + 1;
    while (e < M.n && e - j <= limit) {
      VI want(first.begin() + std::min<size_t>(e - j, first.size()), first.end());
      if (rows_of(M, e) != want) break;
      ++e;
    }
    j = e; b.push_back(e);
  }
  return b;
}

void detect(Src &s, Ctx &c) {
  Mat M = lower(s, c);
  int limit = s.chance(1, 4) ? 0 : s.range(1, s.flip() ? 4 : M.n);
  bool low = s.flip();
  c.show(M.str(), " limit=", limit, low ? " lower" : " upper");
  std::unique_ptr<CSC> A(make_csc(M));
  BCSCMatrix B(A.get());
  int lim = limit == 0 ? M.n : limit;
  VI want = blocks(M, lim);
  int n = M.n;
  if (low) {
    delete[] B.getBCSC()->supernodes; B.getBCSC()->supernodes = nullptr;
    int k = B.supernodes(A.get(), limit, true);
    int *sn = B.getBCSC()->supernodes;
    CHECK(k == (int)want.size() - 1, "found ", k, " supernodes instead of ", want.size() - 1);
    for (int j = 0; j <= k; ++j) CHECK(sn[j] == want[j], "boundary ", j, " is ", sn[j], " instead of ", want[j]);
  } else {
    // reversed matrix: upper triangular with the diagonal last; blocks listed from the last column down to -1
    Mat U; U.m = U.n = n; U.stype = 1; U.col.resize(n);
    for (int j = 0; j < n; ++j) for (auto &e : M.col[j]) U.col[n - 1 - j].push_back({n - 1 - e.first, e.second});
    U.sort(); U.flat();
    std::unique_ptr<CSC> V(make_csc(U));
    delete[] B.getBCSC()->supernodes; B.getBCSC()->supernodes = nullptr;
    int k = B.supernodes(V.get(), limit, false);
    int *sn = B.getBCSC()->supernodes;
    CHECK(k == (int)want.size() - 1, "found ", k, " supernodes of the upper matrix instead of ", want.size() - 1);
    for (int j = 0; j <= k; ++j) CHECK(sn[j] == n - 1 - want[j], "boundary ", j, " of the upper matrix is ", sn[j], " instead of ", n - 1 - want[j]);
    check_untouched(V.get(), U, "supernodes");
  }
  check_untouched(A.get(), M, "supernodes");
  if ((int)want.size() - 1 < n) c.label("wide supernode");
  for (size_t k = 1; k < want.size(); ++k) if (want[k] - want[k - 1] == lim + 1) { c.label("limit reached"); break; }
  c.nontrivial = n >= 3 && (int)want.size() - 1 < n;
}

void store(Src &s, Ctx &c) {
  Mat M = lower(s, c);
  int n = M.n;
  std::unique_ptr<CSC> A(make_csc(M));
  VI sn; bool given = s.flip();
  if (given) {
    sn.push_back(0);
    int w = s.range(1, up(5));
    while (sn.back() < n) sn.push_back(std::min(n, sn.back() + s.range(1, w)));
  } else sn = blocks(M, n);
  c.show(M.str(), given ? " given blocks=" : " blocks=", pbt::vec(sn));
  VI copy = sn;
  std::unique_ptr<BCSCMatrix> B(given ? new BCSCMatrix(A.get(), (int)sn.size() - 1, copy.data()) : new BCSCMatrix(A.get()));
  CHECK(copy == sn, "the given supernodes changed");
  check_untouched(A.get(), M, "BCSCMatrix");
  BCSC *S = B->getBCSC();
  int nb = (int)sn.size() - 1;
  CHECK((int)S->nodes == nb, "number of blocks ", S->nodes, " instead of ", nb);
  CHECK((int)S->m == n && (int)S->n == n, "dimensions ", S->m, "x", S->n);
  for (int k = 0; k <= nb; ++k) CHECK(S->supernodes[k] == sn[k], "boundary ", k, " is ", S->supernodes[k], " instead of ", sn[k]);
  Ent e = M.entries();
  int pos = 0; size_t pad = 0;
  std::vector<VI> rows(nb);
  VI blk(n);
  for (int k = 0; k < nb; ++k) for (int j = sn[k]; j < sn[k + 1]; ++j) blk[j] = k;
  for (int k = 0; k < nb; ++k) {
    std::set<int> u;
    for (int j = sn[k]; j < sn[k + 1]; ++j) for (auto &x : M.col[j]) u.insert(x.first);
    rows[k].assign(u.begin(), u.end());
    CHECK(S->p[k] == pos, "block ", k, " starts at ", S->p[k], " instead of ", pos);
    CHECK(S->nrows[k] == (int)u.size(), "block ", k, " has ", S->nrows[k], " rows instead of ", u.size());
    for (int j = sn[k]; j < sn[k + 1]; ++j) for (int r : rows[k]) {
      CHECK(pos < (int)S->nnz, "stored size ", S->nnz, " is too small");
      CHECK(S->i[pos] == r, "entry ", pos, " (block ", k, ", column ", j, ") is row ", S->i[pos], " instead of ", r);
      auto it = e.find({r, j});
      double want = it == e.end() ? 0.0 : it->second;
      if (it == e.end()) ++pad;
      CHECK(same_bits(S->x[pos], want), "value of (", r, ",", j, ") is ", S->x[pos], " instead of ", want);
      ++pos;
    }
  }
  CHECK(S->p[nb] == pos && (int)S->nnz == pos, "stored size ", S->nnz, " and end ", S->p[nb], " instead of ", pos);
  // block graph
  std::unique_ptr<CSC> G(B->compressed_BCSC_to_CSC());
  Ent want;
  for (int k = 0; k < nb; ++k) for (int r : rows[k]) want[{blk[r], k}] = 1;
  CHECK((int)G->m == nb && (int)G->n == nb, "block graph of dimension ", G->m, "x", G->n, " for ", nb, " blocks");
  Ent got = read_comp("block graph", nb, nb, G->p, G->i, nullptr, true, false);
  same_ent("block graph", got, want, false);
  CHECK(G->nnz == want.size(), "block graph: nonzero count ", G->nnz);
  if (pad) c.label("padding");
  if (nb < n) c.label("wide supernode");
  c.nontrivial = n >= 3 && nb < n && M.nnz() > (size_t)n;
}

pbt::Reg r1("detection", "at least 3 columns and a supernode of two or more", 200000, 3000000, detect);
pbt::Reg r2("storage", "at least 3 columns, a block of two or more and an off-diagonal entry", 200000, 3000000, store);
}

// the same on large cases
static pbt::Big big0("detection", 400, 1500, 30000);
static pbt::Big big1("storage", 400, 1500, 30000);
// and on more columns, rows and entries than 16 bits can count
static pbt::Big huge0("detection", 70001, 16, 320);
static pbt::Big huge1("storage", 70001, 16, 320);
