// C24: small numeric and comparison utilities obey their contracts.
#include "mat.h"
#include "aggregation/sparse_utilities.h"
#include "aggregation/test_utils.h"
#include "aggregation/sparse_io.h"
#include "aggregation/utils.h"
#include <cmath>
#include <limits>
#include <memory>
using namespace gen;
using namespace sym_lib;
typedef unsigned __int128 u128;

namespace {
const double NAN_ = std::numeric_limits<double>::quiet_NaN(), INF = std::numeric_limits<double>::infinity();
size_t gen_size_t(Src &s) {
  switch (s.weighted({3, 2, 3, 2})) {
  case 0: return s.draw(20);
  case 1: return SIZE_MAX - s.draw(20);
  case 2: { size_t b = (size_t)1 << s.draw(64); int d = s.range(-2, 2); return b + (size_t)(long)d; }
  default: return (s.draw(1ull << 32) << 32 | s.draw(1ull << 32)) >> s.draw(64);
  }
}
void sizes(Src &s, Ctx &c) {
  size_t a = gen_size_t(s), b = gen_size_t(s);
  int ok0 = s.chance(1, 8) ? 0 : s.chance(1, 4) ? s.range(1, 5) : 1, ok = ok0;
  bool mul = s.flip();
  c.show(mul ? "mult " : "add ", a, " ", b, " ok=", ok0);
  u128 want = mul ? (u128)a * b : (u128)a + b;
  bool fits = want <= SIZE_MAX;
  size_t r = mul ? mult_size_t(a, b, &ok) : add_size_t(a, b, &ok);
  const char *who = mul ? "mult_size_t" : "add_size_t";
  CHECK((ok != 0) == (ok0 != 0 && fits), who, " of ", a, " and ", b, " (ok ", ok0, ") leaves ok ", ok);
  CHECK(r == (ok0 && fits ? (size_t)want : 0), who, " of ", a, " and ", b, " returns ", r);
  c.label(fits ? "fits" : "overflow");
  c.nontrivial = a > 1 && b > 1 && ok0;
}

VD gen_vec(Src &s, Ctx &c, int n, bool special) {
  VD v(n);
  int k = (int)s.weighted({3, 3, 1});
  for (auto &x : v) {
    x = k == 0 ? (double)s.range(-5, 5) : k == 1 ? s.range(-1000, 1000) / 8.0 : gen_double(s);
    if (special && s.chance(1, 12)) { x = s.flip() ? NAN_ : s.flip() ? INF : -INF; c.label("special values"); }
  }
  return v;
}
// all values and differences that matter are exact
void vectors(Src &s, Ctx &c) {
  int n = sz_of(s, 0, s.chance(1, 4) ? 60 : 6);
  int beg = s.range(0, n), end = s.range(beg, n);
  double eps = s.pick(std::vector<double>{1e-8, 0.0, 0.5, 1.0, 1e-3});
  bool special = s.chance(1, 3);
  VD a = gen_vec(s, c, n, special), b = a;
  int changes = s.range(0, 3);
  for (int k = 0; k < changes && n; ++k) {
    int j = s.range(0, n - 1);
    switch (s.weighted({2, 2, 1, 1})) {
    case 0: b[j] = a[j] + eps; break;
    case 1: b[j] = a[j] + (s.flip() ? 2 * eps + 1e-3 : -2 * eps - 1e-3); break;
    case 2: b[j] = NAN_; break;
    default: b[j] = std::nextafter(a[j], INF);
    }
  }
  c.show("a=", pbt::vec(a), " b=", pbt::vec(b), " range=", beg, "..", end, " eps=", eps);
  bool eq = true;
  for (int k = beg; k < end; ++k) eq = eq && !std::isnan(a[k]) && !std::isnan(b[k]) && !(std::abs(a[k] - b[k]) > eps);
  CHECK(is_equal(beg, end, a.data(), b.data(), eps) == eq, "comparison of the vectors says ", !eq);
  double val = n && s.flip() ? a[0] : s.range(-5, 5);
  if (s.chance(1, 3)) { std::fill(b.begin(), b.end(), val); if (n && s.flip()) b[s.range(0, n - 1)] = s.flip() ? NAN_ : val + 2 * eps + 1; }
  bool all = true, nan = false; // NaN against a scalar: recorded defect scalar-nan, either answer is taken
  for (double x : b) { nan = nan || std::isnan(x - val); all = all && !(std::abs(x - val) > eps); }
  if (!nan || !all) CHECK(is_equal(n, b.data(), val, eps) == all, "comparison of ", pbt::vec(b), " with the scalar ", val, " says ", !all);
  VI ia(n), ib(n);
  for (int k = 0; k < n; ++k) { ia[k] = s.range(-3, 3); ib[k] = s.chance(1, 6) ? s.range(-3, 3) : ia[k]; }
  bool ieq = true; for (int k = beg; k < end; ++k) ieq = ieq && !(std::abs(ia[k] - ib[k]) > eps);
  CHECK(is_equal(beg, end, ia.data(), ib.data(), eps) == ieq, "comparison of integer vectors says ", !ieq);
  // norms, residuals, sums, copies on finite values
  VD u = gen_vec(s, c, n, false), w = gen_vec(s, c, n, false);
  double r = 0, m = 0;
  for (int k = beg; k < end; ++k) r = std::max(r, std::fabs(u[k] - w[k]));
  for (double x : u) m = std::max(m, std::fabs(x));
  c.show(" u=", pbt::vec(u), " w=", pbt::vec(w));
  CHECK(residual(beg, end, u.data(), w.data()) == r, "residual is ", residual(beg, end, u.data(), w.data()), " instead of ", r);
  CHECK(norm(n, u.data()) == m, "norm is ", norm(n, u.data()), " instead of ", m);
  VD d = w;
  copy_vector_dense(beg, end, u.data(), d.data());
  for (int k = 0; k < n; ++k) CHECK(same_bits(d[k], k >= beg && k < end ? u[k] : w[k]), "copy of ", beg, "..", end, " leaves ", d[k], " at ", k);
  long sum = 0; VI iv(n); for (auto &x : iv) { x = s.range(-1000000, 1000000); sum += x; }
  CHECK(sum_vector(n, iv.data()) == sum, "sum_vector is ", sum_vector(n, iv.data()), " instead of ", sum);
  VD q(n); double qs = 0; for (auto &x : q) { x = s.range(-1000, 1000) * 0.125; qs += x; }
  CHECK(sum_vector(n, q.data()) == qs, "sum_vector is ", sum_vector(n, q.data()), " instead of ", qs);
  c.nontrivial = end - beg >= 2;
}

void matrices(Src &s, Ctx &c) {
  Mat A = gen_mat(s, c, GENERAL_M, false, false, false, 10); // no patterns: recorded defect matrix-pattern
  Mat B = A;
  double eps = s.pick(std::vector<double>{1e-8, 0.0, 0.5});
  int k = (int)s.weighted({2, 2, 2, 1, 1, 1});
  bool eq = true, open = false; // open: either answer is taken
  VI nz; for (int j = 0; j < A.n; ++j) if (!A.col[j].empty()) nz.push_back(j);
  if (k == 1 && !nz.empty() && !A.pattern) { // value
    int j = s.pick(nz); auto &e = B.col[j][s.draw(B.col[j].size())];
    double x = e.second;
    e.second = s.chance(1, 4) ? NAN_ : s.flip() ? x + 4 : x + eps;
    if (std::isnan(e.second)) open = true; // recorded defect matrix-nan
    else eq = !(std::abs(e.second - x) > eps);
  } else if (k == 2 && !nz.empty()) { // move an entry to a free row
    int j = s.pick(nz); size_t t = s.draw(B.col[j].size());
    VI free; for (int r = 0; r < A.m; ++r) { bool u = false; for (auto &e : A.col[j]) u |= e.first == r; if (!u) free.push_back(r); }
    if (!free.empty()) { B.col[j][t].first = s.pick(free); B.sort(); eq = false; }
  } else if (k == 3 && !nz.empty()) { // drop an entry
    int j = s.pick(nz); B.col[j].pop_back(); eq = false;
  } else if (k == 4) { B.m += s.range(1, 3); open = true; c.label("more rows"); // recorded defect matrix-rows
  } else if (k == 5) { // an entry moves to another column
    if (!nz.empty() && A.n > 1) {
      int j = s.pick(nz), t = s.range(0, A.n - 1);
      if (t != j) { auto e = B.col[j].back(); bool u = false; for (auto &x : A.col[t]) u |= x.first == e.first; if (!u) { B.col[j].pop_back(); B.col[t].push_back(e); B.sort(); eq = false; } }
    }
  }
  B.flat();
  for (auto &e : A.x) if (std::isnan(e)) open = true;
  c.show(A.str(), " and ", B.str(), " eps=", eps);
  std::unique_ptr<CSC> a(make_csc(A)), b(make_csc(B));
  bool ab = is_equal(a.get(), b.get(), eps), ba = is_equal(b.get(), a.get(), eps);
  CHECK(ab == eq || (open && eq), "comparison of the matrices says ", !eq);
  CHECK(ba == eq || (open && eq), "comparison of the swapped matrices says ", !eq);
  check_untouched(a.get(), A, "is_equal");
  c.label(eq ? "equal" : "different");
  c.nontrivial = A.nnz() >= 2;
}

void medians(Src &s, Ctx &c) {
  int n = sz_of(s, 0, s.chance(1, 4) ? 40 : 6);
  VD t(n); for (auto &x : t) x = s.range(0, 20) * 0.5;
  c.show("times=", pbt::vec(t));
  std::vector<timing_measurement> v(n);
  for (int k = 0; k < n; ++k) v[k].elapsed_time = t[k];
  double got = time_median(v).elapsed_time;
  VD q = t; std::sort(q.begin(), q.end());
  // an even number of samples has two middle elements; either is a median
  if (n == 0) CHECK(got == -1, "median of nothing is ", got);
  else CHECK(got == q[n / 2] || got == q[(n - 1) / 2], "median is ", got, ", sorted times ", pbt::vec(q));
  for (int k = 0; k < n; ++k) CHECK(v[k].elapsed_time == t[k], "time_median changed its argument");
  for (int k = 0; k + 1 < n; ++k) CHECK(time_cmp(v[k], v[k + 1]) == (t[k] < t[k + 1]), "time_cmp of ", t[k], " and ", t[k + 1]);
  c.nontrivial = n >= 3;
}

std::string gen_text(Src &s, const char *alphabet, int maxlen) {
  std::string r; int n = s.range(0, maxlen), k = (int)strlen(alphabet);
  for (int t = 0; t < n; ++t) r += alphabet[s.draw(k)];
  return r;
}
void strings(Src &s, Ctx &c) {
  std::string path = gen_text(s, "ab/._-", 12);
  std::string base = path.substr(path.rfind('/') == std::string::npos ? 0 : path.rfind('/') + 1);
  std::string want = base.substr(0, base.rfind('.'));
  std::string txt = gen_text(s, "a \tb\nc\r ", 10);
  c.show("path=\"", path, "\" text=", pbt::vec(std::vector<int>(txt.begin(), txt.end())));
  CHECK(strip_name(path) == want, "strip_name of ", path, " is ", strip_name(path), " instead of ", want);
  auto sp = [](char x) { return x == ' ' || x == '\t' || x == '\n' || x == '\r' || x == '\v' || x == '\f'; };
  size_t l = 0, r = txt.size();
  while (l < r && sp(txt[l])) ++l;
  while (r > l && sp(txt[r - 1])) --r;
  std::string a = txt, b = txt, d = txt;
  trim(a); ltrim(b); rtrim(d);
  size_t r0 = txt.size(); while (r0 > 0 && sp(txt[r0 - 1])) --r0;
  size_t l0 = 0; while (l0 < txt.size() && sp(txt[l0])) ++l0;
  CHECK(a == txt.substr(l, r - l), "trim gives \"", a, "\"");
  CHECK(b == txt.substr(l0), "ltrim gives \"", b, "\"");
  CHECK(d == txt.substr(0, r0), "rtrim gives \"", d, "\"");
  c.nontrivial = path.size() >= 2;
}

void random_(Src &s, Ctx &c) {
  int n = sz_of(s, 1, s.chance(1, 4) ? 60 : 8), m = s.range(0, n);
  unsigned seed = s.chance(1, 8) ? 0 : 1 + (unsigned)s.draw(1000000);
  VI old; for (int k = s.range(0, 3); k > 0; --k) old.push_back(-k);
  double dens = s.range(0, 12) / 10.0, mx = s.pick(std::vector<double>{1e4, 1.0, 0.0, 7.5});
  c.show("n=", n, " m=", m, " seed=", seed, " density=", dens, " max=", mx);
  VI v = old, v2;
  generate_uniq_rand_vector(m, n, v, seed);
  CHECK((int)v.size() == (int)old.size() + m, "drew ", v.size() - old.size(), " of ", m, " numbers");
  CHECK(std::equal(old.begin(), old.end(), v.begin()), "earlier contents changed");
  std::set<int> u(v.begin() + old.size(), v.end());
  CHECK((int)u.size() == m, "the numbers repeat: ", pbt::vec(v));
  for (int x : u) CHECK(x >= 0 && x < n, "drew ", x, " outside 0..", n - 1);
  if (seed) { generate_uniq_rand_vector(m, n, v2, seed); CHECK(VI(v.begin() + old.size(), v.end()) == v2, "seed ", seed, " gave ", pbt::vec(v), " and ", pbt::vec(v2)); }
  std::unique_ptr<CSC> A(random_square_sparse(n, dens, mx, seed)), B;
  CHECK(A && (int)A->m == n && (int)A->n == n, "random matrix has wrong dimensions");
  Ent e = read_comp("random_square_sparse", n, n, A->p, A->i, A->x, true);
  int per = std::min(n, (int)(dens * n + 1));
  CHECK(A->nnz == (size_t)n * per && A->p[n] == n * per, "random matrix has ", A->nnz, " entries instead of ", n * per);
  for (int j = 0; j < n; ++j) {
    CHECK(A->p[j + 1] - A->p[j] == per, "column ", j, " has ", A->p[j + 1] - A->p[j], " entries instead of ", per);
    CHECK(e.count({j, j}), "diagonal of column ", j, " is missing");
  }
  for (auto &q : e) CHECK(q.second >= 0 && q.second <= mx * (1 + 1e-12), "value ", q.second, " outside 0..", mx);
  if (seed) {
    B.reset(random_square_sparse(n, dens, mx, seed));
    for (int k = 0; k < A->p[n]; ++k) CHECK(A->i[k] == B->i[k], "the same seed gave another pattern");
  }
  double lo = s.range(-100, 100), hi = lo + s.range(0, 100), x = double_rand(lo, hi);
  CHECK(x >= lo - 1e-9 && x <= hi + 1e-9, "double_rand gave ", x, " outside ", lo, "..", hi);
  // test_unique: true exactly for permutations
  VI p = gen_perm(s, n);
  if (s.flip()) p[s.range(0, n - 1)] = s.range(0, n - 1);
  VI p0 = p;
  bool perm = std::set<int>(p.begin(), p.end()).size() == p.size();
  CHECK(test_unique(n, p.data()) == perm, "test_unique of ", pbt::vec(p), " says ", !perm);
  CHECK(p == p0, "test_unique changed the vector");
  c.label(perm ? "permutation" : "repeats");
  c.nontrivial = n >= 3 && m >= 2;
}

// Recorded defects of test_utils (known_findings.txt)
VI kp{0, 1, 2}, ki{0, 1}; VD kx{1, 2};
CSC *two(int m, bool pattern, double last) {
  CSC *a = new CSC(m, 2, 2, pattern);
  std::copy(kp.begin(), kp.end(), a->p); std::copy(ki.begin(), ki.end(), a->i);
  if (!pattern) { a->x[0] = 1; a->x[1] = last; }
  return a;
}
pbt::Known k1("scalar-nan", [] { VD v{1, NAN_}; CHECK(!is_equal(2, v.data(), 1.0, 1e-8), "NaN equals 1"); });
pbt::Known k2("matrix-rows", [] { CHECK(!is_equal(two(2, false, 2), two(3, false, 2), 1e-8), "rows ignored"); });
pbt::Known k3("matrix-nan", [] { CHECK(!is_equal(two(2, false, 2), two(2, false, NAN_), 1e-8), "NaN equals 2"); });
pbt::Known k4("matrix-pattern", [] { CHECK(is_equal(two(2, true, 0), two(2, true, 0), 1e-8), "equal patterns differ"); });

pbt::Reg r1("sizes", "both operands above 1 and ok set", 400000, 6000000, sizes);
pbt::Reg r2("vectors", "range of two or more elements", 200000, 3000000, vectors);
pbt::Reg r3("matrices", "two or more entries", 150000, 2000000, matrices);
pbt::Reg r4("medians", "three or more times", 100000, 1000000, medians);
pbt::Reg r5("strings", "path of two or more characters", 200000, 2000000, strings);
pbt::Reg r6("random", "three or more columns and two or more numbers", 60000, 800000, random_);
}

// the same on large cases
static pbt::Big big0("vectors", 400, 1500, 30000);
static pbt::Big big1("matrices", 400, 1500, 30000);
static pbt::Big big2("medians", 400, 1500, 30000);
static pbt::Big big3("random", 400, 1500, 30000);
