// C12: format conversions and structural transforms preserve the matrix
#include "mat.h"
#include "aggregation/sparse_io.h"
#include "aggregation/sparse_utilities.h"
#include <memory>
#include <new>
using namespace gen;
using namespace pbt;
using sym_lib::CSC; using sym_lib::CSR;
namespace sym_lib {
CSC *permute_general(const CSC *A, const int *pinv, const int *q);
CSC *add(CSC *A, CSC *B, double alpha, double beta, bool sort);
}
using PC = std::unique_ptr<CSC>;
using PR = std::unique_ptr<CSR>;
static bool rich(const Mat &A) { return A.nnz() >= 3 && A.n >= 2; }

static void csc_csr(Src &s, Ctx &c) {
  Mat A = gen_mat(s, c, GENERAL_M, true, false, s.chance(1, 3));
  int op = s.range(0, 2);
  c.show(A.str(), op == 0 ? " arrays" : op == 1 ? " structs" : " csr arrays");
  c.nontrivial = rich(A);
  Ent E = A.entries();
  if (op == 1) {
    PC M(make_csc(A));
    PR R(sym_lib::csc_to_csr(M.get()));
    CHECK((int)R->m == A.m && (int)R->n == A.n && R->nnz == A.nnz(), "csc_to_csr: header");
    same_ent("csc_to_csr", flipped(read_comp("csc_to_csr", A.n, A.m, R->p, R->i, R->x, true, !A.pattern)), E, !A.pattern);
    check_untouched(M.get(), A, "csc_to_csr");
    PC B(sym_lib::csr_to_csc(R.get()));
    check_csc("csr_to_csc", B.get(), A.m, A.n, E, true, !A.pattern);
    same_ent("csr_to_csc left its input", flipped(read_comp("csr_to_csc input", A.n, A.m, R->p, R->i, R->x, true, !A.pattern)), E, !A.pattern);
    return;
  }
  int *p = nullptr, *i = nullptr; double *x = nullptr;
  VI ap = A.p, ai = A.i; VD ax = A.x;
  if (op == 0) {
    sym_lib::csc_to_csr(A.m, A.n, ap.data(), ai.data(), ax.data(), p, i, x);
    same_ent("csc_to_csr", flipped(read_comp("csc_to_csr", A.n, A.m, p, i, x, true)), E);
  } else {  // A's arrays read as CSR: rows = columns of A
    sym_lib::csr_to_csc(A.n, A.m, ai.data(), ap.data(), ax.data(), p, i, x);
    same_ent("csr_to_csc", read_comp("csr_to_csc", A.n, A.m, p, i, x, true), flipped(E));
    int *p2 = nullptr, *i2 = nullptr; double *x2 = nullptr;
    sym_lib::csc_to_csr(A.n, A.m, p, i, x, p2, i2, x2);
    same_ent("round trip", read_comp("round trip", A.m, A.n, p2, i2, x2, true), E);
    delete[] p2; delete[] i2; delete[] x2;
  }
  CHECK(ap == A.p && ai == A.i && (ax.empty() || !memcmp(ax.data(), A.x.data(), ax.size() * 8)), "conversion changed its input");
  delete[] p; delete[] i; delete[] x;
}
static Reg r1("csc-csr", "at least 3 entries and 2 columns", 120000, 3000000, csc_csr);

static void transpose(Src &s, Ctx &c) {
  Mat A = gen_mat(s, c, GENERAL_M, true, false, s.chance(1, 3));
  c.show(A.str());
  c.nontrivial = rich(A);
  PC M(make_csc(A));
  PC T(sym_lib::transpose_general(M.get()));
  check_csc("transpose", T.get(), A.n, A.m, flipped(A.entries()), true, !A.pattern);
  PC U(sym_lib::transpose_general(T.get()));
  check_csc("double transpose", U.get(), A.m, A.n, A.entries(), true, !A.pattern);
  check_untouched(M.get(), A, "transpose");
}
static Reg r2("transpose", "at least 3 entries and 2 columns", 80000, 2000000, transpose);

// general square -> half -> full, and full symmetric -> half -> full
static void halves(Src &s, Ctx &c) {
  bool lower = s.flip();
  Mat A = gen_mat(s, c, SQUARE_M, true, false, false);
  c.show(A.str(), lower ? " lower" : " upper");
  c.nontrivial = rich(A);
  Ent H, F;
  for (auto &e : A.entries()) if (lower ? e.first.first >= e.first.second : e.first.first <= e.first.second) { H.insert(e); F[e.first] = e.second; F[{e.first.second, e.first.first}] = e.second; }
  VI ap = A.p, ai = A.i; VD ax = A.x; ax.reserve(1);
  PC B(sym_lib::make_half(A.n, ap.data(), ai.data(), A.pattern ? nullptr : ax.data(), lower));
  check_csc("make_half", B.get(), A.n, A.n, H, true, !A.pattern);
  CHECK(H.empty() || B->is_pattern == A.pattern, "make_half: pattern flag");
  CHECK(B->stype == (lower ? -1 : 1), "make_half: half stored is ", lower ? "lower" : "upper", " but stype is ", B->stype);
  CHECK(ap == A.p && ai == A.i, "make_half changed its input");
  PC G(sym_lib::make_full(B.get()));
  check_csc("make_full", G.get(), A.n, A.n, F, true, !A.pattern);
  CHECK(G->stype == 0, "make_full: stype ", G->stype);
  check_csc("make_full left its input", B.get(), A.n, A.n, H, true, !A.pattern);
  PC B2(sym_lib::make_half(A.n, G->p, G->i, A.pattern ? nullptr : A.nnz() ? G->x : ax.data(), lower));
  check_csc("half of full", B2.get(), A.n, A.n, H, true, !A.pattern);
  // full matrices are not expanded again
  CHECK(sym_lib::make_full(G.get()) == nullptr, "make_full accepted a general matrix");
}
static Reg r3("halves", "at least 3 entries and 2 columns", 100000, 2500000, halves);

static void sym_transpose(Src &s, Ctx &c) {
  bool lower = s.flip();
  Mat A = gen_mat(s, c, lower ? LOWER_M : UPPER_M, true, false, s.chance(1, 4));
  int mode = (int)s.weighted({3, 5, 1}); // none, permutation, invalid
  VI q = gen_perm(s, A.n);
  bool bad = false;
  if (mode == 2) { int k = s.range(0, A.n - 1); q[k] = s.pick(VI{A.n, -1, A.n + 5, q[s.range(0, A.n - 1)]}); VI t = q; std::sort(t.begin(), t.end()); for (int k2 = 0; k2 < A.n; ++k2) bad |= t[k2] != k2; }
  c.show(A.str(), mode ? " perm=" : " no permutation", mode ? vec(q) : "");
  c.nontrivial = rich(A);
  PC M(make_csc(A));
  VI q0 = q; q.shrink_to_fit();
  PC F(sym_lib::transpose_symmetric(M.get(), mode ? q.data() : nullptr));
  check_untouched(M.get(), A, "transpose_symmetric");
  CHECK(q == q0, "transpose_symmetric changed the permutation");
  if (bad) { CHECK(!F, "an invalid permutation was accepted"); c.label("invalid-permutation"); return; }
  VI inv(A.n); for (int k = 0; k < A.n; ++k) inv[mode ? q[k] : k] = k;
  Ent W;
  for (auto &e : A.entries()) { int a = inv[e.first.first], b = inv[e.first.second]; W[lower ? std::make_pair(std::min(a, b), std::max(a, b)) : std::make_pair(std::max(a, b), std::min(a, b))] = e.second; }
  check_csc("transpose_symmetric", F.get(), A.n, A.n, W, mode == 0, !A.pattern);
  CHECK(F->stype == -A.stype, "transpose_symmetric: stype ", F->stype, " from ", A.stype);
  PC G(sym_lib::transpose_symmetric(F.get(), nullptr));   // the demos' sorting double transpose
  check_csc("double transpose_symmetric", G.get(), A.n, A.n, flipped(W), true, !A.pattern);
  CHECK(G->stype == A.stype, "double transpose_symmetric: stype");
  if (mode) {   // undoing the permutation restores the matrix
    PC Hh(sym_lib::transpose_symmetric(G.get(), inv.data()));
    PC I(sym_lib::transpose_symmetric(Hh.get(), nullptr));
    check_csc("inverse permutation", I.get(), A.n, A.n, A.entries(), true, !A.pattern);
  }
  Mat Z = A; Z.stype = 0; PC ZM(make_csc(Z));
  CHECK(sym_lib::transpose_symmetric(ZM.get(), nullptr) == nullptr, "a general matrix was accepted");
}
static Reg r4("sym-transpose", "at least 3 entries and 2 columns", 120000, 3000000, sym_transpose);

static void symmetrise(Src &s, Ctx &c) {
  int k = s.range(0, 2); bool lower = s.flip();
  Mat A = gen_mat(s, c, k == 0 ? SQUARE_M : k == 1 ? LOWER_M : UPPER_M, true, false, k == 0 && s.chance(1, 4), 24, 0);
  c.show(A.str(), lower ? " -> lower" : " -> upper");
  c.nontrivial = rich(A);
  PC M(make_csc(A));
  CSC *R = sym_lib::make_symmetric(M.get(), lower);
  check_untouched(M.get(), A, "make_symmetric");
  Ent W, E = A.entries();
  if (k == 0) for (auto &e : E) { int a = e.first.first, b = e.first.second; auto key = lower ? std::make_pair(std::max(a, b), std::min(a, b)) : std::make_pair(std::min(a, b), std::max(a, b)); W[key] += a == b ? e.second : 0.5 * e.second; }
  else for (auto &e : E) { int a = e.first.first, b = e.first.second; W[lower ? std::make_pair(std::max(a, b), std::min(a, b)) : std::make_pair(std::min(a, b), std::max(a, b))] = e.second; }
  for (auto &e : W) if (e.second == 0) e.second = 0.0;
  CHECK(R, "make_symmetric returned nothing");
  if (R != M.get()) for (int t = 0; t < R->p[A.n]; ++t) if (!A.pattern && R->x[t] == 0) R->x[t] = 0.0;
  check_csc("make_symmetric", R, A.n, A.n, W, true, !A.pattern);
  CHECK(R->stype == (lower ? -1 : 1), "make_symmetric: stype ", R->stype);
  if (R != M.get()) delete R;
}
static Reg r5("symmetrise", "at least 3 entries and 2 columns", 100000, 2500000, symmetrise);

static void addition(Src &s, Ctx &c) {
  Mat A = gen_mat(s, c, GENERAL_M, false, false, s.chance(1, 4), 16, 0);
  Mat B; B.m = A.m; B.n = A.n; B.col.resize(B.n);
  for (int j = 0; j < B.n; ++j) for (int r = 0; r < B.m; ++r) if (s.chance(1, 3)) B.col[j].push_back({r, gen_entry(s, 0)});
  B.flat();
  double al = gen_val(s), be = gen_val(s);
  bool srt = !s.chance(1, 3);
  c.show(A.str(), " + ", B.str(), " alpha=", al, " beta=", be, srt ? " sorted" : "");
  c.nontrivial = rich(A) && rich(B);
  PC a(make_csc(A)), b(make_csc(B));
  PC C(sym_lib::add(a.get(), b.get(), al, be, srt));
  CHECK(C, "add returned nothing");
  Ent W; for (auto &e : A.entries()) W[e.first] += al * e.second; for (auto &e : B.entries()) W[e.first] += be * e.second;
  CHECK((int)C->m == A.m && (int)C->n == A.n, "add: dimensions");
  Ent G = read_comp("add", A.m, A.n, C->p, C->i, C->x, srt);
  for (auto &e : W) if (e.second == 0) e.second = 0; for (auto &e : G) if (e.second == 0) e.second = 0;
  same_ent("add", G, W);
  check_untouched(a.get(), A, "add"); check_untouched(b.get(), B, "add");
  // scatter alone: one column accumulated into a dense vector
  int j = s.range(0, A.n - 1);
  VI w(A.m, 0); VD x(A.m, 0);
  CSC P(A.m, A.n, A.m + 1);
  int nz = sym_lib::scatter(a.get(), j, be, w.data(), x.data(), 1, &P, 0);
  CHECK(nz == (int)A.col[j].size(), "scatter found ", nz, " entries");
  for (int t = 0; t < nz; ++t) CHECK(P.i[t] == A.col[j][t].first && x[P.i[t]] == be * A.col[j][t].second && w[P.i[t]] == 1, "scatter of column ", j);
}
static Reg r6("add-scatter", "both matrices have at least 3 entries and 2 columns", 60000, 1500000, addition);

static void copies(Src &s, Ctx &c) {
  int k = s.range(0, 2);
  Mat A = gen_mat(s, c, k == 0 ? GENERAL_M : k == 1 ? LOWER_M : UPPER_M, true, false, s.chance(1, 3));
  c.show(A.str());
  c.nontrivial = rich(A);
  PC M(make_csc(A));
  PC B(sym_lib::copy_sparse(M.get()));
  check_untouched(M.get(), A, "copy_sparse");
  Mat A2 = A; A2.pattern = B->is_pattern; 
  CHECK(B->is_pattern == A.pattern, "copy_sparse: pattern flag");
  check_untouched(B.get(), A, "copy_sparse (clone)");
  CHECK(B->p != M->p && (A.nnz() == 0 || B->i != M->i), "copy_sparse shares arrays");
  if (!A.pattern) {
    CSC D(A.m, A.n, A.nnz(), false, A.stype);
    for (int j = 0; j <= A.n; ++j) D.p[j] = -7;
    sym_lib::copy_from_to(M.get(), &D);
    check_untouched(&D, A, "copy_from_to (CSC copy)");
    check_untouched(M.get(), A, "copy_from_to");
    CSR S(A.n, A.m, A.nnz()), T(A.n, A.m, A.nnz());
    std::copy(A.p.begin(), A.p.end(), S.p); std::copy(A.i.begin(), A.i.end(), S.i); std::copy(A.x.begin(), A.x.end(), S.x);
    for (int j = 0; j <= A.n; ++j) T.p[j] = -7;
    sym_lib::copy_from_to(&S, &T);
    for (int j = 0; j <= A.n; ++j) CHECK(T.p[j] == A.p[j] && S.p[j] == A.p[j], "copy_from_to (CSR): row pointer ", j, " is ", T.p[j], " instead of ", A.p[j]);
    for (size_t t = 0; t < A.i.size(); ++t) CHECK(T.i[t] == A.i[t] && same_bits(T.x[t], A.x[t]), "copy_from_to (CSR): entry ", t);
  }
  // one-based copy
  PC O(sym_lib::convert_to_one_based(M.get()));
  CHECK((int)O->m == A.m && (int)O->n == A.n && O->nnz == A.nnz() && O->is_pattern == A.pattern, "one-based: header");
  for (int j = 0; j <= A.n; ++j) CHECK(O->p[j + 1] == A.p[j], "one-based: pointer of column ", j + 1, " is ", O->p[j + 1]);
  for (size_t t = 0; t < A.i.size(); ++t) CHECK(O->i[t] == A.i[t] + 1, "one-based: index ", t);
  if (!A.pattern) for (size_t t = 0; t < A.i.size(); ++t) CHECK(same_bits(O->x[t], A.x[t]), "one-based: value ", t, " is ", O->x[t], " instead of ", A.x[t]);
  check_untouched(M.get(), A, "convert_to_one_based");
  int empt = 0; for (auto &q : A.col) empt += q.empty();
  CHECK(sym_lib::number_empty_col(M.get()) == empt, "number of empty columns");
  // a constructor wrapping caller arrays starts as a general matrix
  alignas(CSC) char buf[sizeof(CSC)]; memset(buf, 0x5a, sizeof buf);
  CSC *W = new (buf) CSC(A.m, A.n, A.nnz(), M->p, M->i, M->x);
  CHECK(W->m == M->m && W->n == M->n && W->nnz == M->nnz && W->p == M->p && W->i == M->i && W->x == M->x && W->pre_alloc && !W->is_pattern, "wrapping constructor");
  CHECK(W->stype == 0, "wrapping constructor leaves stype at ", W->stype);
  W->~CSC();
  check_untouched(M.get(), A, "wrapper destructor");
}
static Reg r7("copies", "at least 3 entries and 2 columns", 80000, 2000000, copies);

static void dense(Src &s, Ctx &c) {
  int k = s.range(0, 2);
  Mat A = gen_mat(s, c, k == 0 ? GENERAL_M : k == 1 ? LOWER_M : UPPER_M, false, false, s.chance(1, 3), 20, s.chance(1, 2) ? 0 : 2);
  c.show(A.str());
  c.nontrivial = rich(A);
  PC M(make_csc(A));
  VD D((size_t)A.m * A.n, 777.0);
  sym_lib::sparse2dense(M.get(), D.data());
  VD W(D.size(), 0.0);
  for (auto &e : A.entries()) { W[(size_t)e.first.second * A.m + e.first.first] = e.second; if (k) W[(size_t)e.first.first * A.m + e.first.second] = e.second; }
  for (size_t t = 0; t < D.size(); ++t) CHECK(same_bits(D[t], W[t]), "sparse2dense: element ", t, " is ", D[t], " instead of ", W[t]);
  check_untouched(M.get(), A, "sparse2dense");
  // back
  std::vector<VD> rows(A.m, VD(A.n)); std::vector<double *> rp;
  for (int r = 0; r < A.m; ++r) { for (int j = 0; j < A.n; ++j) rows[r][j] = D[(size_t)j * A.m + r]; rp.push_back(rows[r].data()); }
  PC B(sym_lib::dense_to_csc(A.m, A.n, rp.data()));
  Ent E; for (int j = 0; j < A.n; ++j) for (int r = 0; r < A.m; ++r) if (rows[r][j] != 0) E[{r, j}] = rows[r][j];
  check_csc("dense_to_csc", B.get(), A.m, A.n, E, true, true);
}
static Reg r8("dense", "at least 3 entries and 2 columns", 80000, 2000000, dense);

static void permute(Src &s, Ctx &c) {
  Mat A = gen_mat(s, c, GENERAL_M, false, false, s.chance(1, 3));
  VI pr = gen_perm(s, A.m), q = gen_perm(s, A.n);
  bool up = s.flip(), uq = s.flip();
  c.show(A.str(), " rows->", up ? vec(pr) : "none", " columns=", uq ? vec(q) : "none");
  c.nontrivial = rich(A);
  PC M(make_csc(A));
  PC B(sym_lib::permute_general(M.get(), up ? pr.data() : nullptr, uq ? q.data() : nullptr));
  VI qi(A.n); for (int k = 0; k < A.n; ++k) qi[uq ? q[k] : k] = k;
  Ent W; for (auto &e : A.entries()) W[{up ? pr[e.first.first] : e.first.first, qi[e.first.second]}] = e.second;
  check_csc("permute_general", B.get(), A.m, A.n, W, false, true);
  check_untouched(M.get(), A, "permute_general");
}
static Reg r9("permute", "at least 3 entries and 2 columns", 60000, 1500000, permute);

static void diagonals(Src &s, Ctx &c) {
  int op = s.range(0, 2);
  if (op == 0) {
    int n = sz_of(s, 1, 12); double a = gen_double(s), b = gen_double(s), d = gen_double(s);
    c.show("tridiag n=", n, " ", a, " ", b, " ", d);
    PC T(sym_lib::tridiag(n, a, b, d));
    Ent W; for (int j = 0; j < n; ++j) { if (j) W[{j - 1, j}] = a; W[{j, j}] = b; if (j + 1 < n) W[{j + 1, j}] = d; }
    check_csc("tridiag", T.get(), n, n, W, true, true);
    CHECK(T->stype == 0, "tridiag stores all three diagonals but declares stype ", T->stype);
    c.nontrivial = n > 2;
  } else if (op == 1) {
    int n = sz_of(s, 1, 12); double a = gen_double(s);
    c.show("diagonal n=", n, " ", a);
    PC T(sym_lib::diagonal(n, a));
    Ent W; for (int j = 0; j < n; ++j) W[{j, j}] = a;
    check_csc("diagonal", T.get(), n, n, W, true, true);
    c.nontrivial = n > 2;
  } else {
    bool full = s.flip();
    Mat A = gen_mat(s, c, s.range(1, 3), true, full, s.chance(1, 3));
    c.show(A.str());
    c.nontrivial = rich(A);
    PC M(make_csc(A));
    bool ok = true; for (int j = 0; j < A.n; ++j) ok &= !A.col[j].empty() && A.col[j][0].first == j;
    CHECK(sym_lib::verify_csc_diagonal(M.get()) == ok, "verify_csc_diagonal says ", !ok, " for a matrix whose diagonals do", ok ? "" : " not", " lead every column");
    int *g = sym_lib::extract_diagonals(A.n, M->p, M->i);
    for (int j = 0; j < A.n; ++j) for (int t = A.p[j]; t < A.p[j + 1]; ++t) if (A.i[t] == j) CHECK(g[j] == t, "diagonal of column ", j, " located at ", g[j], " instead of ", t);
    delete[] g;
    VD cnt(A.n); sym_lib::compute_nnz_per_col(M.get(), cnt.data());
    for (int j = 0; j < A.n; ++j) CHECK(cnt[j] == A.p[j + 1] - A.p[j], "nonzeros of column ", j);
  }
}
static Reg r10("diagonals", "n>2, or at least 3 entries", 60000, 1500000, diagonals);

// the same on large cases; limits above 2500 also draw large sparse matrices
static pbt::Big big0("csc-csr", 4000, 1500, 30000);
static pbt::Big big1("transpose", 4000, 1500, 30000);
static pbt::Big big2("halves", 4000, 1500, 30000);
static pbt::Big big3("sym-transpose", 4000, 1500, 30000);
static pbt::Big big4("symmetrise", 4000, 1500, 30000);
static pbt::Big big5("add-scatter", 2500, 1500, 30000);
static pbt::Big big6("copies", 4000, 1500, 30000);
static pbt::Big big7("dense", 2500, 1500, 30000);
static pbt::Big big8("permute", 4000, 1500, 30000);
static pbt::Big big9("diagonals", 4000, 1500, 30000);
// and on more rows, columns or entries than 16 bits can count
static pbt::Big huge0("csc-csr", 70000, 16, 320);
static pbt::Big huge1("transpose", 70000, 16, 320);
static pbt::Big huge2("halves", 70000, 16, 320);
static pbt::Big huge3("sym-transpose", 70000, 16, 320);
static pbt::Big huge4("symmetrise", 70000, 16, 320);
static pbt::Big huge5("copies", 70000, 16, 320);
static pbt::Big huge6("permute", 70000, 16, 320);
static pbt::Big huge7("diagonals", 70000, 16, 320);
