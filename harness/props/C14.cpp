// C14: malformed Matrix Market input
#include "mtx.h"
#include "aggregation/exceptions.h"
#include "aggregation/mmio.h"
namespace sym_lib { int mm_read_mtx_crd(char *fname, int *M, int *N, int *nz, int **I, int **J, double **val, MM_typecode *matcode); }
#include <memory>
#include <unistd.h>
using namespace gen;
using namespace pbt;
using sym_lib::CSC; using sym_lib::Dense;

// ---- what a strict reader makes of a text
enum Verdict { VALID, BAD_HEADER, BAD_ARITH, BAD_FORMAT, BAD_BODY, EITHER };
struct Parsed { Verdict v = EITHER; long long m = 0, n = 0, nz = 0; int shape = 0; Ent e; bool dup = false; std::string arith; };

static bool clean_int(const std::string &t, long long &v) {
  if (t.empty() || t.size() > 12) return false;
  size_t k = t[0] == '-' ? 1 : 0;
  if (k == t.size()) return false;
  for (size_t q = k; q < t.size(); ++q) if (!isdigit((unsigned char)t[q])) return false;
  v = atoll(t.c_str());
  return true;
}
static bool clean_num(const std::string &t, double &v) {
  if (t.empty()) return false;
  size_t k = 0; int dig = 0;
  if (t[k] == '-' || t[k] == '+') ++k;
  while (k < t.size() && isdigit((unsigned char)t[k])) { ++k; ++dig; }
  if (k < t.size() && t[k] == '.') { ++k; while (k < t.size() && isdigit((unsigned char)t[k])) { ++k; ++dig; } }
  if (!dig) return false;
  if (k < t.size() && (t[k] == 'e' || t[k] == 'E')) { ++k; if (k < t.size() && (t[k] == '-' || t[k] == '+')) ++k; int ed = 0; while (k < t.size() && isdigit((unsigned char)t[k])) { ++k; ++ed; } if (!ed) return false; }
  if (k != t.size()) return false;
  v = strtod(t.c_str(), nullptr);
  return std::isfinite(v);
}
static bool hopeless(const std::string &t) { return !t.empty() && strchr("qzgk#@~", t[0]); }
static std::string lower(std::string s) { for (auto &ch : s) ch = tolower(ch); return s; }
static std::vector<std::string> words(const std::string &l) { std::istringstream i(l); std::vector<std::string> w; std::string t; while (i >> t) w.push_back(t); return w; }

static Parsed parse(const std::string &text, bool array) {
  Parsed P;
  if (text.find('\0') != std::string::npos) return P;
  for (unsigned char ch : text) if (ch >= 128 || ch == '\v' || ch == '\f' || ch == '\r') return P;
  std::vector<std::string> L; { std::istringstream i(text); std::string l; while (std::getline(i, l)) L.push_back(l); }
  for (auto &l : L) if (l.size() > 1000) return P;            // the format allows 1024 characters per line
  if (L.empty()) { P.v = BAD_HEADER; return P; }
  auto h = words(lower(L[0]));
  P.v = BAD_HEADER;
  if (h.size() < 5) return P;
  if (h[0] != "%%matrixmarket" || h[1] != "matrix") return P;
  if (h[2] != "coordinate" && h[2] != "array") return P;
  if (h[3] != "real" && h[3] != "integer" && h[3] != "complex" && h[3] != "pattern") return P;
  if (h[4] != "symmetric" && h[4] != "general") return P;
  P.arith = h[3];
  P.shape = h[4] == "symmetric";
  if (h.size() > 5) { P.v = EITHER; return P; }
  size_t k = 1; bool indented = false;   // a comment starts in the first column
  while (k < L.size()) { size_t a = L[k].find_first_not_of(" \t"); if (a != std::string::npos && L[k][a] == '%') { if (a) indented = true; ++k; } else break; }
  if (indented) { P.v = EITHER; return P; }
  if (k >= L.size()) return P;
  auto d = words(L[k]);
  bool arr = h[2] == "array";
  size_t need = arr ? 2 : 3;
  if (d.empty()) { P.v = EITHER; return P; }                  // blank line before the sizes
  if (d.size() < need) { for (auto &t : d) { long long v; if (!clean_int(t, v) && !hopeless(t)) { P.v = EITHER; return P; } } return P; }
  long long q[3] = {0, 0, 0};
  for (size_t t = 0; t < need; ++t) if (!clean_int(d[t], q[t])) { if (!hopeless(d[t])) P.v = EITHER; return P; }
  if (d.size() > need) { P.v = EITHER; return P; }
  for (size_t t = 0; t < need; ++t) if (q[t] < (t == 2 ? 0 : 1) || q[t] > INT_MAX) return P;
  P.m = q[0]; P.n = q[1]; P.nz = arr ? q[0] * q[1] : q[2];
  if (array ? h[3] != "real" : h[3] == "complex") { P.v = BAD_ARITH; return P; }
  if (array != arr) { P.v = BAD_FORMAT; return P; }
  if (array && P.shape) { P.v = EITHER; return P; }
  std::vector<std::string> T; for (size_t t = k + 1; t < L.size(); ++t) { auto w = words(L[t]); T.insert(T.end(), w.begin(), w.end()); }
  size_t pos = 0;
  P.v = BAD_BODY;
  for (long long e = 0; e < P.nz; ++e) {
    long long rc[2] = {1, 1}; double v = 1;
    bool out = false;
    for (int z = 0; z < (array ? 0 : 2); ++z) {
      if (pos >= T.size()) return P;
      if (!clean_int(T[pos], rc[z])) { if (!hopeless(T[pos])) P.v = EITHER; return P; }
      ++pos;
      out |= rc[z] < 1 || rc[z] > (z ? P.n : P.m);
    }
    if (h[3] != "pattern") {
      if (pos >= T.size()) return P;
      if (!clean_num(T[pos], v)) { if (!hopeless(T[pos])) P.v = EITHER; return P; }
      ++pos;
    }
    if (out) return P;
    if (array) { P.e[{(int)(e % P.m), (int)(e / P.m)}] = v; continue; }
    if (!P.e.emplace(std::make_pair((int)rc[0] - 1, (int)rc[1] - 1), v).second) P.dup = true;
  }
  P.v = pos == T.size() ? VALID : EITHER;
  return P;
}
// dimensions large enough to exhaust memory stay outside the domain
static bool too_big(const std::string &text) {
  std::istringstream i(text); std::string l; std::getline(i, l);
  int seen = 0;
  while (seen < 3 && std::getline(i, l)) {
    auto w = words(l);
    if (!w.empty() && w[0][0] != '%') ++seen;
    for (size_t k = 0; k < w.size() && k < 3; ++k)
      for (const char *b = w[k].c_str(); *b;) {       // every run of digits may be read as a number
        if (!isdigit((unsigned char)*b)) { ++b; continue; }
        if (strtod(std::string(b, strspn(b, "0123456789")).c_str(), nullptr) > (k < 2 ? 3000 : 2e9)) return true;
        b += strspn(b, "0123456789");
      }
  }
  return false;
}

enum Got { ACCEPTED, HEADER, ARITH, FORMAT, OTHER, REFUSED };
static const char *got_name[] = {"accepted", "mtx_header_error", "mtx_arith_error", "mtx_format_error", "mtx_error", "refused"};
template <class F> static Got attempt(F f) {
  try { f(); return ACCEPTED; }
  catch (sym_lib::mtx_header_error &) { return HEADER; }
  catch (sym_lib::mtx_arith_error &) { return ARITH; }
  catch (sym_lib::mtx_format_error &) { return FORMAT; }
  catch (sym_lib::mtx_error &) { return OTHER; }
  catch (pbt::Failure &) { throw; }
  catch (std::exception &e) { fail(cat("undocumented exception: ", e.what())); }
}
static void judge(const char *who, Got g, const Parsed &P) {
  if (P.v == VALID) CHECK(g == ACCEPTED, who, ": a valid file is rejected with ", got_name[g]);
  else if (P.v == BAD_HEADER) CHECK(g == HEADER, who, ": a bad header is ", got_name[g]);
  else if (P.v == BAD_ARITH) CHECK(g == ARITH, who, ": an unsupported arithmetic is ", got_name[g]);
  else if (P.v == BAD_FORMAT) CHECK(g == FORMAT, who, ": a mismatching format is ", got_name[g]);
  else if (P.v == BAD_BODY) CHECK(g != ACCEPTED, who, ": a malformed body is accepted");
}
static void check_structure(const char *who, CSC *A, const Parsed &P) {
  CHECK(A && A->m >= 1 && A->n >= 1, who, ": accepted without a matrix");
  CHECK(A->p[0] == 0 && (size_t)A->p[A->n] == A->nnz, who, ": pointers end at ", A->p[A->n], " for ", A->nnz, " entries");
  Ent e; bool dup = false;
  for (size_t j = 0; j < A->n; ++j) {
    CHECK(A->p[j] <= A->p[j + 1], who, ": pointers decrease at column ", j);
    for (int k = A->p[j]; k < A->p[j + 1]; ++k) { CHECK(A->i[k] >= 0 && A->i[k] < (int)A->m, who, ": row index ", A->i[k], " outside the matrix"); if (!e.emplace(std::make_pair(A->i[k], (int)j), A->x[k]).second) dup = true; }
  }
  if (P.v == VALID && !P.dup) { CHECK(!dup, who, ": duplicate entries"); CHECK((int)A->m == P.m && (int)A->n == P.n && A->stype == (P.shape ? -1 : 0), who, ": header"); same_ent(who, e, P.e); }
}

// the reader of mmio.h: real coordinate files only, arrays of entries instead of a matrix
static void read_unsymmetric(const std::string &f, const std::string &text, const Parsed &P) {
  for (size_t a = 0; a < text.size();) { size_t b = a; while (b < text.size() && isdigit((unsigned char)text[b])) ++b; if (b - a > 6) return; a = b + 1; } // would allocate by the announced count
  struct Mute { FILE *o = stdout, *e = stderr, *n = fopen("/dev/null", "w"); Mute() { stdout = stderr = n; } ~Mute() { stdout = o; stderr = e; fclose(n); } };
  int m = 0, n = 0, nz = 0, *I = nullptr, *J = nullptr, rc; double *v = nullptr;
  { Mute mu; rc = sym_lib::mm_read_unsymmetric_sparse(f.c_str(), &m, &n, &nz, &v, &I, &J); }
  struct Fr { int *&a, *&b; double *&v; ~Fr() { free(a); free(b); free(v); } } fr{I, J, v};
  std::istringstream hd(text); std::string w[5]; for (auto &q : w) { hd >> q; for (auto &ch : q) ch = tolower(ch); }
  if (P.v == VALID && text.compare(0, 14, "%%MatrixMarket") == 0 && w[3] == "real") CHECK(rc == 0, "mm_read_unsymmetric_sparse: a valid file is rejected");
  if (P.v == BAD_BODY || P.v == BAD_ARITH || P.v == BAD_FORMAT) CHECK(rc != 0, "mm_read_unsymmetric_sparse: a malformed file is accepted");
  if (rc) { CHECK(!I && !J && !v, "mm_read_unsymmetric_sparse: entries of a rejected file"); return; }
  Ent e;
  for (int k = 0; k < nz; ++k) { CHECK(I[k] >= 0 && I[k] < m && J[k] >= 0 && J[k] < n, "mm_read_unsymmetric_sparse: entry ", k, " outside the matrix"); e[{I[k], J[k]}] = v[k]; }
  if (P.v == VALID && !P.dup) { CHECK(m == P.m && n == P.n, "mm_read_unsymmetric_sparse: dimensions"); same_ent("mm_read_unsymmetric_sparse", e, P.e); }
}

// the whole-file reader of mmio.h: any arithmetic it can hold, raw 1-based entries
static void read_crd(const std::string &f, const std::string &text, const Parsed &P) {
  for (size_t a = 0; a < text.size();) { size_t b = a; while (b < text.size() && isdigit((unsigned char)text[b])) ++b; if (b - a > 6 || (a < b && a && text[a - 1] == '-' && b - a < 7 && P.v != VALID && P.v != BAD_BODY)) return; a = b + 1; }
  int m = 0, n = 0, nz = 0, *I = nullptr, *J = nullptr, rc; double *v = nullptr; sym_lib::MM_typecode t;
  rc = sym_lib::mm_read_mtx_crd((char *)f.c_str(), &m, &n, &nz, &I, &J, &v, &t);
  struct Fr { int *&a, *&b; double *&v; ~Fr() { free(a); free(b); free(v); } } fr{I, J, v};
  bool banner = text.compare(0, 14, "%%MatrixMarket") == 0;
  if (P.v == VALID && banner && (P.arith == "real" || P.arith == "pattern")) CHECK(rc == 0, "mm_read_mtx_crd: a valid file is rejected with ", rc);
  if (P.v == BAD_FORMAT) CHECK(rc != 0, "mm_read_mtx_crd: a dense file is accepted");
  if (rc == 0) {
    CHECK(I && J && (v || mm_is_pattern(t)), "mm_read_mtx_crd: accepted without the entries");
    if (P.v == VALID) {
      CHECK(m == P.m && n == P.n && nz == P.nz, "mm_read_mtx_crd: sizes");
      if (!P.dup) { Ent e; for (int k = 0; k < nz; ++k) e[{I[k] - 1, J[k] - 1}] = v ? v[k] : 1; same_ent("mm_read_mtx_crd", e, P.e); }
    }
  }
}

static void run_readers(Ctx &c, const std::string &text, bool stdio) {
  std::string f = tmp_path("mx");
  put(f, text);
  Quiet q;
  {
    Parsed P = parse(text, false);
    static const char *nm[] = {"valid", "bad-header", "bad-arithmetic", "bad-format", "bad-body", "unspecified"};
    c.label(nm[P.v]);
    if (P.v != EITHER) c.nontrivial = true;
    for (int ins = 0; ins < 2; ++ins) {
      CSC *A = nullptr;
      Got g = attempt([&] { std::ifstream in(f); sym_lib::read_mtx_csc_real(in, A, ins); });
      judge("read_mtx_csc_real", g, P);
      if (g == ACCEPTED) { Parsed Q = P; if (ins && A) for (size_t j = 0; j < A->n && j < A->m; ++j) { bool any = false; for (auto &e : P.e) any |= e.first.second == (int)j; if (!any) Q.e[{(int)j, (int)j}] = 0; } check_structure(ins ? "read_mtx_csc_real with diagonals" : "read_mtx_csc_real", A, Q); delete A; }
    }
    if (stdio) {
      CSC *B = sym_lib::read_mtx(f);
      // this reader follows the C library's rules: the banner is case sensitive and skew/hermitian are named
      if (P.v == VALID && text.compare(0, 14, "%%MatrixMarket") == 0) CHECK(B, "read_mtx: a valid file is rejected");
      if (P.v == BAD_BODY || P.v == BAD_ARITH || P.v == BAD_FORMAT) CHECK(!B, "read_mtx: a malformed file is accepted");
      if (B) { check_structure("read_mtx", B, P); delete B; }
      read_unsymmetric(f, text, P);
      read_crd(f, text, P);
    }
  }
  {
    Parsed P = parse(text, true);
    Dense *D = nullptr;
    bool load = text.size() % 2;
    Got g = attempt([&] { if (load) { std::string fn = f; sym_lib::load_mtx_array_real(fn, D); } else { std::ifstream in(f); sym_lib::read_mtx_array_real(in, D); } });
    judge("read_mtx_array_real", g, P);
    if (g == ACCEPTED) {
      CHECK(D && D->row >= 1 && D->col >= 1, "array reader accepted without a matrix");
      if (P.v == VALID) { CHECK((int)D->row == P.m && (int)D->col == P.n, "array: dimensions"); for (auto &e : P.e) CHECK(same_bits(D->a[e.first.first + (size_t)e.first.second * P.m], e.second), "array: element"); c.label("valid-array"); }
      delete D;
    }
  }
  unlink(f.c_str());
}

static std::string gen_text(Src &s, Ctx &c) {
  if (s.chance(1, 4)) {
    int r = s.range(1, 5), k = s.range(1, 5);
    std::ostringstream o; o << "%%MatrixMarket matrix array real general\n" << (s.flip() ? "% c\n" : "") << r << " " << k << "\n";
    for (int t = 0; t < r * k; ++t) o << num(gen_entry(s, s.range(0, 3))) << "\n";
    return o.str();
  }
  bool integer = s.chance(1, 4);
  Mat A = gen_mat(s, c, s.flip() ? LOWER_M : GENERAL_M, !integer, false, false, 8, integer ? 0 : -1);
  return gen_mtx_text(s, c, A, integer);
}
static const std::vector<std::string> DICT = {"0", "-1", "1", "2", "7", "99999", "2147483647", "2147483648", "-2147483648", "99999999999999999999", "1.5", "1e5", "1e999", "nan", "inf", "qq", "#", "zz 1", "%", "\n", "\n\n", " ", "\t", "%%MatrixMarket", "matrix", "coordinate", "array", "real", "integer", "complex", "pattern", "general", "symmetric", "skew-symmetric", "hermitian", "vector", "0x10", "+3", "1-", "--1", "\r", "1 1 1\n", "3 3 3\n", std::string(80, 'a'), std::string(1200, 'b'), std::string(1, '\0'), "\xff\xfe"};

static void mutations(Src &s, Ctx &c) {
  std::string t = gen_text(s, c);
  int k = s.range(0, 4);
  for (int q = 0; q < k; ++q) {
    size_t n = t.size();
    switch (s.weighted({3, 4, 2, 2, 3, 1, 2})) {
    case 0: if (n) t.erase(s.draw(n)); break;                                         // truncate
    case 1: { // replace one token
      std::vector<std::pair<size_t, size_t>> tok; for (size_t a = 0; a < n;) { while (a < n && isspace((unsigned char)t[a])) ++a; size_t b = a; while (b < n && !isspace((unsigned char)t[b])) ++b; if (b > a) tok.push_back({a, b}); a = b; }
      if (tok.empty()) break;
      auto w = tok[s.draw(tok.size())];
      t.replace(w.first, w.second - w.first, s.pick(DICT)); break;
    }
    case 2: { if (!n) break; size_t a = s.draw(n); t.erase(a, 1 + s.draw(8)); break; }
    case 3: t.insert(n ? s.draw(n + 1) : 0, s.pick(DICT)); break;
    case 4: { // drop, duplicate or swap lines
      std::vector<std::string> L; { std::istringstream i(t); std::string l; while (std::getline(i, l)) L.push_back(l); }
      if (L.empty()) break;
      size_t a = s.draw(L.size()), b = s.draw(L.size());
      int o = s.range(0, 2);
      if (o == 0) L.erase(L.begin() + a); else if (o == 1) L.insert(L.begin() + b, std::string(L[a])); else std::swap(L[a], L[b]);
      t.clear(); for (auto &l : L) t += l + "\n"; break;
    }
    case 5: if (n) t[s.draw(n)] = (char)s.draw(256); break;
    default: { // change a digit
      std::vector<size_t> dg; for (size_t a = 0; a < n; ++a) if (isdigit((unsigned char)t[a])) dg.push_back(a);
      if (!dg.empty()) t[dg[s.draw(dg.size())]] = '0' + s.draw(10);
    }
    }
  }
  if (too_big(t)) throw Discard();
  c.show(esc(t));
  run_readers(c, t, true);
}
static Reg r1("mutations", "the strict parser decides what must happen to the file", 60000, 2000000, mutations);

// one defect of a documented class, everything else valid
static void classes(Src &s, Ctx &c) {
  Mat A; do { A = gen_mat(s, c, s.flip() ? LOWER_M : GENERAL_M, true, false, false, 8, 0); if (A.nnz()) break; A = Mat(); A.m = A.n = 2; A.col = {{{0, 1.0}}, {{1, 2.0}}}; A.flat(); } while (0);
  std::vector<std::vector<std::string>> body;
  for (int j = 0; j < A.n; ++j) for (auto &e : A.col[j]) { std::vector<std::string> w{std::to_string(e.first + 1), std::to_string(j + 1)}; if (!A.pattern) w.push_back(num(e.second)); body.push_back(w); }
  std::vector<std::string> head{"%%MatrixMarket", "matrix", "coordinate", A.pattern ? "pattern" : "real", A.stype ? "symmetric" : "general"}, size{std::to_string(A.m), std::to_string(A.n), std::to_string(A.nnz())};
  int cls = s.range(0, 9);
  size_t e = s.draw(body.size());
  static const char *nm[] = {"class:banner", "class:arith", "class:format", "class:sizes-missing", "class:dimension", "class:truncated", "class:non-numeric", "class:row-range", "class:column-range", "class:count-lie"};
  c.label(nm[cls]);
  bool cut = false;
  switch (cls) {
  case 0: { int w = s.range(0, 4); if (s.flip()) head[w] = s.pick(std::vector<std::string>{"x", "%MatrixMarket", "vector", "sparse", "float", "skew"}); else head.erase(head.begin() + w); break; }
  case 1: head[3] = "complex"; break;
  case 2: head[2] = "array"; if (A.pattern) head[3] = "real"; size.pop_back(); break;
  case 3: { int w = s.range(0, 2); if (s.flip()) size.erase(size.begin() + w); else size[w] = s.pick(std::vector<std::string>{"q", "#5", "zz"}); break; }
  case 4: size[s.range(0, 1)] = s.pick(std::vector<std::string>{"0", "-1", "-7"}); break;
  case 5: { if (s.flip()) body.resize(e); else { body.resize(e + 1); body[e].resize(s.draw(body[e].size())); } cut = true; break; }
  case 6: body[e][s.draw(body[e].size())] = s.pick(std::vector<std::string>{"q", "#", "zz", "@1"}); break;
  case 7: body[e][0] = s.pick(std::vector<std::string>{"0", "-1", std::to_string(A.m + 1), "2147483647", "-2147483647", "123456789"}); break;
  case 8: body[e][1] = s.pick(std::vector<std::string>{"0", "-1", std::to_string(A.n + 1), "2147483647", "-2147483647", "123456789"}); break;
  default: size[2] = s.pick(std::vector<std::string>{std::to_string(A.nnz() + 1), "2147483647", "-1", "99999999999", "1000000"});
  }
  std::string t; auto line = [&](std::vector<std::string> &w) { for (size_t k = 0; k < w.size(); ++k) t += (k ? " " : "") + w[k]; t += "\n"; };
  line(head); if (s.flip()) t += "% comment\n"; line(size); for (auto &w : body) line(w);
  (void)cut;
  c.show(esc(t));
  Parsed P = parse(t, false);
  CHECK(P.v != VALID, "harness: class ", cls, " produced a valid file");
  c.nontrivial = true;
  run_readers(c, t, true);
}
static Reg r2("classes", "every case", 40000, 1000000, classes);

// arbitrary bytes and token soups
static void soup(Src &s, Ctx &c) {
  std::string t;
  if (s.flip()) t = "%%MatrixMarket matrix coordinate real general\n";
  int k = s.range(0, 40);
  for (int q = 0; q < k; ++q) { if (s.chance(1, 6)) t += (char)s.draw(256); else { t += s.pick(DICT); t += s.chance(1, 4) ? "\n" : " "; } }
  if (too_big(t)) throw Discard();
  c.show(esc(t));
  run_readers(c, t, true);
  c.nontrivial = t.size() > 60;
}
static Reg r3("soup", "more than 60 bytes", 25000, 1500000, soup);

static void missing_file(Src &s, Ctx &c) {
  c.nontrivial = true;
  std::string f = tmp_path("absent");
  c.show("missing file");
  Quiet q;
  s.draw(2);
  Dense *D = nullptr;
  bool ok = false;
  try { sym_lib::load_mtx_array_real(f, D); } catch (sym_lib::read_file_error &e) { ok = e.filename() == f; }
  CHECK(ok, "load_mtx_array_real of a missing file does not name it in read_file_error");
  CHECK(sym_lib::read_mtx(f) == nullptr, "read_mtx of a missing file returned a matrix");
  // errors raised through load_mtx carry the file name
  put(f, "%%MatrixMarket matrix array complex general\n1 1\n1 1\n");
  try { sym_lib::load_mtx_array_real(f, D); ok = false; } catch (sym_lib::mtx_arith_error &e) { ok = e.filename() == f && e.expected_arith() == "REAL" && e.got_arith() == "COMPLEX"; }
  CHECK(ok, "load_mtx_array_real: arithmetic error");
  put(f, "%%MatrixMarket matrix coordinate real general\n1 1 1\n1 1 1\n");
  try { sym_lib::load_mtx_array_real(f, D); ok = false; } catch (sym_lib::mtx_format_error &e) { ok = e.filename() == f && e.expected_format() == "ARRAY" && e.got_format() == "COORDINATE"; }
  CHECK(ok, "load_mtx_array_real: format error");
  put(f, "nonsense\n");
  try { sym_lib::load_mtx_array_real(f, D); ok = false; } catch (sym_lib::mtx_header_error &e) { ok = e.filename() == f; }
  CHECK(ok, "load_mtx_array_real: header error");
  put(f, "%%MatrixMarket matrix array real general\n2 2\n1 2 3\n");
  try { sym_lib::load_mtx_array_real(f, D); ok = false; } catch (sym_lib::mtx_error &e) { ok = e.filename() == f; }
  CHECK(ok, "load_mtx_array_real: truncated body");
  unlink(f.c_str());
}
static Reg r4("missing-file", "every case", 50, 500, missing_file);

// the same on large cases
static pbt::Big big0("mutations", 2500, 1500, 30000);
static pbt::Big big1("classes", 2500, 1500, 30000);
