// Sparse matrices with values: generators and reference operations on maps.
#pragma once
#include "gen.h"
#include "aggregation/def.h"
#include <map>

namespace gen {

struct Mat {
  int m = 0, n = 0, stype = 0;
  bool pattern = false;
  std::vector<std::vector<std::pair<int, double>>> col;
  VI p, i; VD x;            // flattened copy (exact sizes)
  void flat() {
    p.assign(1, 0); i.clear(); x.clear();
    for (auto &c : col) { for (auto &e : c) { i.push_back(e.first); x.push_back(e.second); } p.push_back((int)i.size()); }
    i.shrink_to_fit(); x.shrink_to_fit(); p.shrink_to_fit();
  }
  size_t nnz() const { size_t k = 0; for (auto &c : col) k += c.size(); return k; }
  void sort() { for (auto &c : col) std::sort(c.begin(), c.end(), [](auto &a, auto &b) { return a.first < b.first; }); }
  std::string str() const {
    std::ostringstream o; o.precision(17);
    if (n + nnz() > 20000) { o << m << "x" << n << (pattern ? " pattern" : "") << " stype=" << stype << " with " << nnz() << " entries"; return o.str(); }
    o << m << "x" << n << (pattern ? " pattern" : "") << " stype=" << stype << " {";
    for (int j = 0; j < n; ++j) { if (j) o << " |"; for (auto &e : col[j]) { o << " " << e.first; if (!pattern) o << ":" << e.second; } }
    o << "}"; return o.str();
  }
  std::map<std::pair<int, int>, double> entries() const { std::map<std::pair<int, int>, double> r; for (int j = 0; j < n; ++j) for (auto &e : col[j]) r[{e.first, j}] = e.second; return r; }
};
using Ent = std::map<std::pair<int, int>, double>;

inline double gen_entry(Src &s, int kind) {
  switch (kind) {
  case 0: return (double)s.range(1, 9) * (s.flip() ? -1 : 1);
  case 1: return gen_val(s);
  case 2: return gen_double(s);
  default: return s.chance(1, 4) ? 0.0 : (double)s.range(-3, 3);
  }
}

// a random order; long vectors are shuffled from one seed
template <class V> void gen_shuffle(Src &s, V &v) {
  if (v.size() > 5000) { Lcg r{s.draw(1 << 20)}; for (size_t k = v.size(); k > 1; --k) std::swap(v[k - 1], v[r((int)k)]); }
  else for (size_t k = v.size(); k > 1; --k) std::swap(v[k - 1], v[s.draw(k)]);
}
enum { GENERAL_M, SQUARE_M, LOWER_M, UPPER_M };
// Large sparse matrices: a few entries per column, full rows, full columns, a band, or
// one dimension of a few. With more rows, columns or entries than 16 bits can count.
inline Mat gen_sparse_large(Src &s, Ctx &c, int shape, bool allow_pattern, bool diag, bool shuffle_cols, int valkind) {
  Mat A;
  A.n = huge() ? huge_size(s) : s.range(150, pbt::big_mode());
  A.m = A.n;
  int kind = s.range(0, shape == GENERAL_M ? 6 : 3), per = s.range(1, 3);
  static const char *nm[] = {"scattered", "full rows", "full columns", "band", "wide", "tall", "rectangle"};
  if (kind == 4) A.m = s.range(1, 9); else if (kind == 5) A.n = s.range(1, 4); else if (kind == 6) A.m = s.range(A.n / 2, A.n * 2);
  A.stype = shape == LOWER_M ? -1 : shape == UPPER_M ? 1 : 0;
  A.pattern = allow_pattern && s.chance(1, 4);
  c.label(pbt::cat("large:", nm[kind])); c.nontrivial = true;
  Lcg r{s.draw(1 << 20)};
  auto val = [&] { return A.pattern ? 1.0 : valkind == 0 ? (double)(1 + r(9)) * (r(2) ? -1 : 1) : valkind == 1 ? (r(1 << 20) - (1 << 19)) / 16.0 : std::ldexp(1.0 + r(1 << 30), -r(60)); };
  A.col.resize(A.n);
  std::vector<int> rows; for (int k = 0; k < per; ++k) rows.push_back(r(3) ? r(A.m) : r(2) ? A.m - 1 : 0);
  std::vector<int> cols; for (int k = 0; k < per; ++k) cols.push_back(r(3) ? r(A.n) : r(2) ? A.n - 1 : 0);
  for (int j = 0; j < A.n; ++j) {
    std::vector<int> q;
    if (diag && j < A.m) q.push_back(j);
    if (kind == 5) { for (int i = 0; i < A.m; ++i) if (r(9)) q.push_back(i); }
    else if (kind == 3) { for (int i = std::max(0, j - per); i <= std::min(A.m - 1, j + per); ++i) if (r(4)) q.push_back(i); }
    else { for (int t = r(per + 1); t > 0; --t) q.push_back(r(A.m)); }
    if (kind == 1) for (int i : rows) if (r(5000)) q.push_back(i);
    if (kind == 2) for (int t : cols) if (t == j) for (int i = 0; i < A.m; ++i) if (r(5000)) q.push_back(i);
    std::sort(q.begin(), q.end()); q.erase(std::unique(q.begin(), q.end()), q.end());
    for (int i : q) if (shape == LOWER_M ? i >= j : shape == UPPER_M ? i <= j : true) A.col[j].push_back({i, val()});
    if (shuffle_cols) for (size_t k = A.col[j].size(); k > 1; --k) std::swap(A.col[j][k - 1], A.col[j][r((int)k)]);
  }
  A.flat();
  return A;
}
// shape: which matrices to draw. diag: 0 never forced, 1 always present
inline Mat gen_mat(Src &s, Ctx &c, int shape, bool allow_pattern, bool diag, bool shuffle_cols, int maxn = 24, int valkind = -1) {
  // limits above 2500 admit large sparse matrices (checks that need no dense reference)
  if (huge() || (pbt::big_mode() > 2500 && s.flip())) return gen_sparse_large(s, c, shape, allow_pattern, diag, shuffle_cols, valkind);
  Mat A;
  int sz = (int)s.weighted({30, 40, 30});
  int hi = sz == 0 ? 4 : sz == 1 ? 10 : maxn;
  if (pbt::big_mode()) { // one long dimension, or two of middling size
    hi = std::min(pbt::big_mode(), 150);
    A.n = gen_big(s, hi);
    A.m = shape != GENERAL_M ? A.n : sz == 0 ? s.range(1, 12) : sz == 1 ? gen_big(s, hi) : A.n;
    if (shape == GENERAL_M && sz == 0 && s.flip()) std::swap(A.m, A.n);
  } else {
    A.n = s.range(1, hi);
    A.m = shape == GENERAL_M ? s.range(1, hi) : A.n;
  }
  A.stype = shape == LOWER_M ? -1 : shape == UPPER_M ? 1 : 0;
  A.pattern = allow_pattern && s.chance(1, 4);
  int vk = valkind >= 0 ? valkind : (int)s.weighted({4, 2, 2, 1});
  int dens = (int)s.weighted({4, 4, 2, 1, 2}); // sparse, medium, dense, empty, banded
  static const char *nm[] = {"dens:sparse", "dens:medium", "dens:dense", "dens:empty", "dens:band"};
  c.label(nm[dens]);
  A.col.resize(A.n);
  int band = dens == 4 ? s.range(1, pbt::big_mode() ? 12 : 3) : 0;
  for (int j = 0; j < A.n; ++j) {
    int lo = shape == LOWER_M ? j : 0, up = shape == UPPER_M ? j + 1 : A.m;
    for (int r = lo; r < up; ++r) {
      bool in;
      if (diag && r == j) in = true;
      else if (dens == 0) in = s.chance(2, std::max(3, A.m));
      else if (dens == 1) in = s.chance(1, 3);
      else if (dens == 2) in = !s.chance(1, 8);
      else if (dens == 3) in = false;
      else in = std::abs(r - j) <= band && !s.chance(1, 4);
      if (in) A.col[j].push_back({r, A.pattern ? 1.0 : gen_entry(s, vk)});
    }
    if (shuffle_cols && A.col[j].size() > 1) for (size_t k = A.col[j].size() - 1; k > 0; --k) std::swap(A.col[j][k], A.col[j][s.draw(k + 1)]);
  }
  A.flat();
  if (A.m != A.n) c.label("rectangular");
  if (A.pattern) c.label("pattern");
  if (A.nnz() == 0) c.label("empty-matrix");
  for (auto &q : A.col) if (q.empty()) { c.label("empty-column"); break; }
  return A;
}

// A live CSC with its own exact-size arrays
inline sym_lib::CSC *make_csc(const Mat &A) {
  auto *M = new sym_lib::CSC(A.m, A.n, A.nnz(), A.pattern, A.stype);
  std::copy(A.p.begin(), A.p.end(), M->p);
  std::copy(A.i.begin(), A.i.end(), M->i);
  if (!A.pattern) std::copy(A.x.begin(), A.x.end(), M->x);
  return M;
}
inline bool same_bits(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0; }
inline void check_untouched(const sym_lib::CSC *M, const Mat &A, const char *what) {
  CHECK((int)M->m == A.m && (int)M->n == A.n && M->nnz == A.nnz() && M->stype == A.stype && M->is_pattern == A.pattern, what, ": header of the matrix differs");
  for (size_t k = 0; k < A.p.size(); ++k) CHECK(M->p[k] == A.p[k], what, ": pointers of the matrix differ");
  for (size_t k = 0; k < A.i.size(); ++k) CHECK(M->i[k] == A.i[k], what, ": indices of the matrix differ");
  if (!A.pattern) for (size_t k = 0; k < A.x.size(); ++k) CHECK(same_bits(M->x[k], A.x[k]), what, ": values of the matrix differ");
}
// Check compressed arrays (major dimension N, minor M) and return entries (minor, major) -> value
inline Ent read_comp(const char *what, int M, int N, const int *p, const int *i, const double *x, bool sorted, bool want_vals = true) {
  CHECK(p, what, ": no pointer array");
  CHECK(p[0] == 0, what, ": pointers start at ", p[0]);
  Ent r;
  for (int j = 0; j < N; ++j) {
    CHECK(p[j] <= p[j + 1], what, ": pointers decrease at ", j);
    for (int k = p[j]; k < p[j + 1]; ++k) {
      CHECK(i[k] >= 0 && i[k] < M, what, ": index ", i[k], " outside 0..", M - 1);
      if (sorted && k > p[j]) CHECK(i[k - 1] < i[k], what, ": indices of ", j, " are not sorted");
      CHECK(r.emplace(std::make_pair(i[k], j), want_vals ? x[k] : 1.0).second, what, ": entry (", i[k], ",", j, ") stored twice");
    }
  }
  return r;
}
inline void same_ent(const char *what, const Ent &got, const Ent &want, bool vals = true) {
  auto a = got.begin(); auto b = want.begin();
  for (; a != got.end() || b != want.end(); ++a, ++b) {
    if (b == want.end() || (a != got.end() && a->first < b->first)) pbt::fail(pbt::cat(what, ": unexpected entry (", a->first.first, ",", a->first.second, ")"));
    if (a == got.end() || b->first < a->first) pbt::fail(pbt::cat(what, ": entry (", b->first.first, ",", b->first.second, ") is missing"));
    if (vals && !same_bits(a->second, b->second)) { std::ostringstream o; o.precision(17); o << what << ": entry (" << a->first.first << "," << a->first.second << ") is " << a->second << " instead of " << b->second; pbt::fail(o.str()); }
  }
}
inline Ent flipped(const Ent &e) { Ent r; for (auto &q : e) r[{q.first.second, q.first.first}] = q.second; return r; }
inline void check_csc(const char *what, const sym_lib::CSC *B, int m, int n, const Ent &want, bool sorted, bool vals) {
  CHECK(B, what, ": no matrix returned");
  CHECK((int)B->m == m && (int)B->n == n, what, ": dimensions ", B->m, "x", B->n, " instead of ", m, "x", n);
  CHECK(B->nnz == (size_t)B->p[n] || B->nnz >= want.size(), what, ": nonzero count ", B->nnz);
  if (vals && !want.empty()) CHECK(!B->is_pattern, what, ": result is flagged as pattern");
  Ent g = read_comp(what, m, n, B->p, B->i, B->x, sorted, vals);
  CHECK(B->nnz == g.size(), what, ": nonzero count ", B->nnz, " but ", g.size(), " entries");
  same_ent(what, g, want, vals);
}
inline VI gen_perm(Src &s, int n) {
  VI q(n); std::iota(q.begin(), q.end(), 0);
  int k = (int)s.weighted({5, 1, 1, 2});
  if (huge() && k != 2) { Lcg r{s.draw(1 << 20)}; for (int j = n - 1; j > 0; --j) std::swap(q[j], q[r(k == 0 ? j + 1 : std::min(j + 1, 9))]); return q; }
  if (k == 0) for (int j = n - 1; j > 0; --j) std::swap(q[j], q[s.draw(j + 1)]);
  else if (k == 1) std::reverse(q.begin(), q.end());
  else if (k == 2) { int r = s.range(0, n - 1); std::rotate(q.begin(), q.begin() + r, q.end()); }
  return q;
}
} // namespace gen
