// C13: Matrix Market round trips
#include "mtx.h"
#include "aggregation/mmio.h"
#include "aggregation/utils.h"
#include "aggregation/sparse_utilities.h"
#include "aggregation/BCSCMatrix.h"
#include <fcntl.h>
#include <memory>
#include <unistd.h>
using namespace gen;
using namespace pbt;
using sym_lib::CSC; using sym_lib::Dense;
namespace sym_lib {
int mm_read_mtx_crd(char *fname, int *M, int *N, int *nz, int **I, int **J, double **val, MM_typecode *matcode);
}
using PC = std::unique_ptr<CSC>;
static bool rich(const Mat &A) { return A.nnz() >= 3 && A.n >= 2; }

static CSC *read_new(const std::string &f, bool ins = false) { std::ifstream in(f); CSC *A = nullptr; sym_lib::read_mtx_csc_real(in, A, ins); return A; }

static void round_trip(Src &s, Ctx &c) {
  int shape = s.flip() ? LOWER_M : GENERAL_M;
  Mat A = gen_mat(s, c, shape, false, false, s.chance(1, 5), 18);
  int ind = s.range(0, 3);
  c.show(A.str(), " indent=", ind);
  c.nontrivial = rich(A);
  std::string f = tmp_path("rt");
  { std::ofstream o(f); sym_lib::print_csc_templated(A.m, A.n, A.p.data(), A.i.data(), A.x.data(), o.rdbuf(), std::string(ind, ' '), std::string("%%MatrixMarket matrix coordinate real ") + (A.stype ? "symmetric" : "general")); }
  Mat S = A; S.sort(); S.flat();
  PC B(read_new(f));
  check_untouched(B.get(), S, "write/read_mtx_csc_real");
  PC D(sym_lib::read_mtx(f));
  CHECK(D, "read_mtx refused the file");
  check_untouched(D.get(), S, "write/read_mtx");
  unlink(f.c_str());
}
static Reg r1("round-trip", "at least 3 entries and 2 columns", 25000, 600000, round_trip);

static void hand_written(Src &s, Ctx &c) {
  int shape = s.flip() ? LOWER_M : GENERAL_M;
  bool integer = s.chance(1, 4);
  Mat A = gen_mat(s, c, shape, !integer, false, false, 18, integer ? 0 : -1);
  std::string t = gen_mtx_text(s, c, A, integer);
  c.show(esc(t));
  c.nontrivial = rich(A);
  std::string f = tmp_path("hw");
  put(f, t);
  Mat W = A; W.pattern = false; // pattern entries read as ones
  W.flat();
  PC B(read_new(f));
  check_untouched(B.get(), W, "read_mtx_csc_real");
  PC D(sym_lib::read_mtx(f));
  CHECK(D, "read_mtx refused the file");
  check_untouched(D.get(), W, "read_mtx");
  std::ifstream in(f); int m, n, ty, sh, fm; size_t nz;
  sym_lib::read_header(in, m, n, nz, ty, sh, fm);
  CHECK(m == A.m && n == A.n && nz == A.nnz() && fm == sym_lib::COORDINATE && ty == (A.pattern ? sym_lib::PATTERN : integer ? sym_lib::INT : sym_lib::REAL) && sh == (A.stype ? sym_lib::LOWER : sym_lib::GENERAL), "read_header");
  unlink(f.c_str());
}
static Reg r2("hand-written", "at least 3 entries and 2 columns", 25000, 600000, hand_written);

static void insert_diag(Src &s, Ctx &c) {
  Mat A = gen_mat(s, c, s.flip() ? LOWER_M : s.flip() ? SQUARE_M : GENERAL_M, false, false, false, 14);
  for (int k = s.range(0, 3); k-- > 0;) A.col[s.range(0, A.n - 1)].clear();
  A.flat();
  std::string t = gen_mtx_text(s, c, A, false);
  c.show(esc(t));
  Mat W = A; int add = 0;
  for (int j = 0; j < W.n; ++j) if (W.col[j].empty() && j < W.m) { W.col[j].push_back({j, 0.0}); ++add; }
  W.flat();
  std::string f = tmp_path("id");
  put(f, t);
  PC B(read_new(f, true));
  check_untouched(B.get(), W, "read with diagonals");
  // direct compression of triplets
  std::vector<sym_lib::triplet> ts;
  for (int j = 0; j < A.n; ++j) for (auto &e : A.col[j]) { sym_lib::triplet q; q.row = e.first; q.col = j; q.val = e.second; ts.push_back(q); }
  gen_shuffle(s, ts);
  CSC M(A.m, A.n, A.nnz(), false, A.stype);
  sym_lib::compress_triplets_to_csc(ts, &M, false);
  check_untouched(&M, A, "compress_triplets_to_csc");
  unlink(f.c_str());
  if (add) c.label("diagonals-inserted");
  c.nontrivial = add > 0 && A.nnz() > 0;
}
static Reg r3("insert-diagonal", "a diagonal is inserted next to existing entries", 20000, 500000, insert_diag);

static void dense_rt(Src &s, Ctx &c) {
  int r = s.range(1, 8), k = s.range(1, 8);
  int vk = s.range(0, 3);
  VD a((size_t)r * k); for (auto &x : a) x = gen_entry(s, vk);
  int lda = s.flip() ? 1 : k;
  c.show(r, "x", k, " lda=", lda, " ", vec(a));
  c.nontrivial = r * k > 2;
  std::string f = tmp_path("dn");
  { std::ofstream o(f); sym_lib::print_dense(r, k, lda, a.data(), o.rdbuf(), s.flip() ? "  " : " "); }
  Dense *D = nullptr;
  if (s.flip()) { std::ifstream in(f); sym_lib::read_mtx_array_real(in, D); } else sym_lib::load_mtx_array_real(f, D);
  CHECK(D && (int)D->row == r && (int)D->col == k, "dense: dimensions");
  for (size_t t = 0; t < a.size(); ++t) CHECK(same_bits(a[t], D->a[t]), "dense: element ", t, " is ", D->a[t], " instead of ", a[t]);
  delete D;
  unlink(f.c_str());
}
static Reg r4("dense", "more than 2 elements", 15000, 300000, dense_rt);

// low-precision writers, on values they represent exactly
static void low_precision(Src &s, Ctx &c) {
  int op = s.range(0, 2);
  Mat A = gen_mat(s, c, op ? SQUARE_M : GENERAL_M, false, false, false, 14, 0);
  Lcg r{A.nnz() > 20000 ? s.draw(1 << 20) : 0};
  for (auto &q : A.col) for (auto &e : q) e.second = (A.nnz() > 20000 ? r(1999) - 999 : s.range(-999, 999)) / (op ? 8.0 : 1.0);
  A.flat();
  c.show(A.str(), op == 0 ? " CSC_to_mtx" : op == 1 ? " print_csc" : " print_csr");
  c.nontrivial = rich(A);
  std::string f = tmp_path("lp");
  CSC *M = make_csc(A);
  Mat W = A;
  if (op == 0) sym_lib::CSC_to_mtx(f, M);
  else {
    int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (op == 1) { if (s.flip()) sym_lib::print_csc(fd, "%%MatrixMarket matrix coordinate real general", M); else sym_lib::print_csc(fd, "%%MatrixMarket matrix coordinate real general", A.n, A.p.data(), A.i.data(), A.x.data()); }
    else {
      sym_lib::print_csr(fd, "%%MatrixMarket matrix coordinate real general", A.n, A.p.data(), A.i.data(), A.x.data());
      for (auto &q : W.col) q.clear();
      for (int j = 0; j < A.n; ++j) for (auto &e : A.col[j]) W.col[e.first].push_back({j, e.second});
      W.flat();
    }
    close(fd);
  }
  check_untouched(M, A, "writer");
  delete M;
  PC B(read_new(f));
  check_untouched(B.get(), W, "read_mtx_csc_real");
  PC D(sym_lib::read_mtx(f));
  CHECK(D, "read_mtx refused the file");
  check_untouched(D.get(), W, "read_mtx");
  unlink(f.c_str());
}
static Reg r5("low-precision-writers", "at least 3 entries and 2 columns", 20000, 400000, low_precision);

static void mmio(Src &s, Ctx &c) {
  Mat A = gen_mat(s, c, s.flip() ? LOWER_M : GENERAL_M, true, false, s.chance(1, 3), 14, s.flip() ? 0 : 1);
  if (A.nnz() == 0) throw Discard();
  c.show(A.str());
  c.nontrivial = rich(A);
  std::string f = tmp_path("mm");
  VI I, J; VD V;
  for (int j = 0; j < A.n; ++j) for (auto &e : A.col[j]) { I.push_back(e.first + 1); J.push_back(j + 1); V.push_back(e.second); }
  sym_lib::MM_typecode tc; mm_initialize_typecode(&tc); mm_set_matrix(&tc); mm_set_coordinate(&tc);
  if (A.pattern) mm_set_pattern(&tc); else mm_set_real(&tc);
  if (A.stype) mm_set_symmetric(&tc); else mm_set_general(&tc);
  CHECK(sym_lib::mm_write_mtx_crd((char *)f.c_str(), A.m, A.n, (int)V.size(), I.data(), J.data(), V.data(), tc) == 0, "mm_write_mtx_crd failed");
  int m, n, nz, *I2 = nullptr, *J2 = nullptr; double *V2 = nullptr; sym_lib::MM_typecode t2;
  CHECK(sym_lib::mm_read_mtx_crd((char *)f.c_str(), &m, &n, &nz, &I2, &J2, &V2, &t2) == 0, "mm_read_mtx_crd failed");
  CHECK(m == A.m && n == A.n && nz == (int)V.size() && !memcmp(tc, t2, 4), "mmio: header");
  for (int k = 0; k < nz; ++k) CHECK(I2[k] == I[k] && J2[k] == J[k] && (A.pattern || same_bits(V2[k], V[k])), "mmio: entry ", k);
  free(I2); free(J2); free(V2);
  if (!A.pattern) {
    CHECK(sym_lib::mm_read_unsymmetric_sparse(f.c_str(), &m, &n, &nz, &V2, &I2, &J2) == 0 && m == A.m && n == A.n && nz == (int)V.size(), "mm_read_unsymmetric_sparse failed");
    for (int k = 0; k < nz; ++k) CHECK(I2[k] == I[k] - 1 && J2[k] == J[k] - 1 && same_bits(V2[k], V[k]), "mm_read_unsymmetric_sparse: entry ", k);
    free(I2); free(J2); free(V2);
  }
  PC B(read_new(f));
  Mat W = A; W.sort(); W.pattern = false; W.flat();
  check_untouched(B.get(), W, "read_mtx_csc_real");
  unlink(f.c_str());
}
static Reg r6("mmio", "at least 3 entries and 2 columns", 15000, 300000, mmio);

// constants, indented text, vectors and level sets
static void text(Src &s, Ctx &c) {
  c.nontrivial = true;
  int op = s.range(0, 4);
  std::string f = tmp_path("tx");
  if (op == 0) {
    double v = gen_double(s), g = 0;
    std::string ind(s.range(0, 4), ' ');
    c.show("constant ", num(v));
    { std::ofstream o(f); sym_lib::print_constant(v, o.rdbuf(), ind); }
    std::ifstream in(f); sym_lib::read_real_constant(in, g);
    CHECK(same_bits(v, g), "constant ", num(v), " read back as ", num(g));
  } else if (op == 1) {
    std::string ind(s.range(1, 4), ' '), body;
    int k = s.range(1, 5);
    static const char al[] = "abz09-:.\"x=% ";
    for (int t = 0; t < k; ++t) { std::string l(1, "qwA1"[s.draw(4)]); for (int w = s.range(0, 8); w-- > 0;) l += al[s.draw(sizeof al - 1)]; body += l + "\n"; }
    bool tail = s.flip();
    c.show("text ", esc(body), " indent=", ind.size());
    { std::ofstream o(f); sym_lib::print_string(body, o.rdbuf(), ind); if (tail) o << "next: 1\n"; }
    std::ifstream in(f); std::string got; sym_lib::read_string(in, got, ind);
    CHECK(got == body, "text read back as ", esc(got));
    if (tail) { std::string rest; std::getline(in, rest); CHECK(rest == "next: 1", "reading the text consumed the following line: ", esc(rest)); }
  } else if (op == 2) {
    int n = s.range(0, 10); VD v(n); for (auto &x : v) x = s.range(-1000, 1000) / 8.0;
    int a = s.range(0, n), b = s.range(a, n);
    c.show("vector ", vec(v), " ", a, "..", b);
    std::ostringstream o; auto *old = std::cout.rdbuf(o.rdbuf());
    sym_lib::print_vec("v: ", a, b, v.data());
    std::cout.rdbuf(old);
    std::string t = o.str();
    CHECK(t.compare(0, 3, "v: ") == 0 && t.back() == '\n', "print_vec framing");
    std::istringstream in(t.substr(3)); double x; char cm;
    for (int k = a; k < b; ++k) { CHECK(bool(in >> x >> cm) && x == v[k] && cm == ',', "print_vec element ", k); }
    CHECK(!(in >> x), "print_vec prints more than asked");
    VD cp(n, -1); sym_lib::copy_vector(a, b, v.data(), cp.data());
    for (int k = 0; k < n; ++k) CHECK(cp[k] == (k >= a && k < b ? v[k] : -1), "copy_vector element ", k);
  } else if (op == 3) {
    int L = s.range(1, 5); VI lp{0}, ls; int n = 0;
    for (int l = 0; l < L; ++l) { n += s.range(0, 4); lp.push_back(n); }
    for (int k = 0; k < n; ++k) ls.push_back(s.range(0, 99));
    c.show("level set ", vec(lp), " ", vec(ls));
    std::ostringstream o, w; auto *old = std::cout.rdbuf(o.rdbuf());
    sym_lib::print_level_set("H\n", L, lp.data(), ls.data());
    std::cout.rdbuf(old);
    w << "H\n"; for (int l = 0; l < L; ++l) { for (int k = lp[l]; k < lp[l + 1]; ++k) w << ls[k] << ","; w << "\n"; }
    CHECK(o.str() == w.str(), "print_level_set prints ", esc(o.str()));
    VI pp{0}; for (int k = 0; k < n; ++k) pp.push_back(pp.back() + s.range(0, 3));
    VI np; for (int k = 0; k < pp.back(); ++k) np.push_back(s.range(0, 99));
    old = std::cout.rdbuf((o.str(""), o.rdbuf()));
    sym_lib::print_hlevel_set("", L, lp.data(), pp.data(), np.data());
    std::cout.rdbuf(old);
    VI got; { std::string d; for (char ch : o.str()) { if (isdigit(ch)) d += ch; else if (!d.empty()) { got.push_back(atoi(d.c_str())); d.clear(); } } }
    CHECK(got == np, "print_hlevel_set prints ", esc(o.str()));
  } else {
    c.show("enumerations");
    CHECK(sym_lib::shape2int(sym_lib::LOWER) == -1 && sym_lib::shape2int(sym_lib::UPPER) == 1 && sym_lib::shape2int(sym_lib::GENERAL) == 0, "shape2int");
    CHECK(sym_lib::type_str(sym_lib::REAL) == "REAL" && sym_lib::type_str(sym_lib::INT) == "INT" && sym_lib::type_str(sym_lib::COMPLEX) == "COMPLEX" && sym_lib::type_str(sym_lib::PATTERN) == "PATTERN" && sym_lib::type_str(9) == "UNKNOWN", "type_str");
    CHECK(sym_lib::format_str(sym_lib::COORDINATE) == "COORDINATE" && sym_lib::format_str(sym_lib::ARRAY) == "ARRAY" && sym_lib::format_str(7) == "UNKNOWN", "format_str");
    std::string w; for (int k = s.range(0, 10); k-- > 0;) w += " \tab\n"[s.draw(5)];
    std::string l = w, r = w, b = w; sym_lib::ltrim(l); sym_lib::rtrim(r); sym_lib::trim(b);
    size_t a = w.find_first_not_of(" \t\n"), z = w.find_last_not_of(" \t\n");
    CHECK(l == (a == std::string::npos ? "" : w.substr(a)) && r == (z == std::string::npos ? "" : w.substr(0, z + 1)) && b == (a == std::string::npos ? "" : w.substr(a, z - a + 1)), "trim of ", esc(w));
    std::string base = s.pick(std::vector<std::string>{"m", "bcsstk01", "a b"}), dir = s.pick(std::vector<std::string>{"", "/", "x/", "/a/b/", "../", "/a.b/", "./"});
    CHECK(sym_lib::strip_name(dir + base) == base, "strip_name of ", dir + base, " is ", sym_lib::strip_name(dir + base));
    CHECK(sym_lib::strip_name(dir + base + ".mtx") == base, "strip_name of ", dir + base + ".mtx", " is ", sym_lib::strip_name(dir + base + ".mtx"));
  }
  unlink(f.c_str());
}
static Reg r7("text", "every case", 30000, 400000, text);

// blocks, dense matrices and vectors
static void blocks_out(Src &s, Ctx &c) {
  std::string f = tmp_path("bk");
  int op = s.range(0, 2);
  if (op == 0) {
    Mat A = gen_mat(s, c, LOWER_M, false, true, false, 14, 0);
    std::unique_ptr<CSC> M(make_csc(A));
    VI sn{0}; while (sn.back() < A.n) sn.push_back(s.range(sn.back() + 1, std::min(A.n, sn.back() + 4)));
    c.show("BCSC_to_mtx ", A.str(), " blocks ", vec(sn)); c.label("BCSC_to_mtx");
    c.nontrivial = rich(A) && (int)sn.size() < A.n;
    sym_lib::BCSCMatrix B(M.get(), (int)sn.size() - 1, sn.data());
    sym_lib::BCSC_to_mtx(f, B.getBCSC());
    // every column of a block stores the rows of the whole block
    Mat W = A; W.stype = 0;
    for (size_t k = 0; k + 1 < sn.size(); ++k) {
      std::map<int, int> rows; for (int j = sn[k]; j < sn[k + 1]; ++j) for (auto &e : A.col[j]) rows[e.first];
      for (int j = sn[k]; j < sn[k + 1]; ++j) { std::map<int, double> v; for (auto &r : rows) v[r.first] = 0; for (auto &e : A.col[j]) v[e.first] = e.second; W.col[j].assign(v.begin(), v.end()); }
    }
    W.flat();
    PC R(read_new(f)); check_untouched(R.get(), W, "read_mtx_csc_real");
    PC D(sym_lib::read_mtx(f)); CHECK(D, "read_mtx refused the file"); check_untouched(D.get(), W, "read_mtx");
  } else if (op == 1) {
    int r = s.range(1, 8), k = s.range(1, 8);
    std::ostringstream t; t << "%%MatrixMarket matrix array real general\n" << r << " " << k << "\n";
    std::vector<VD> a(k, VD(r)); for (auto &q : a) for (auto &v : q) { v = s.range(-99999, 99999) / 64.0; t << num(v) << "\n"; }
    c.show("print_dense ", esc(t.str())); c.label("print_dense"); c.nontrivial = r >= 2 && k >= 2;
    put(f, t.str());
    Dense *D = nullptr; sym_lib::load_mtx_array_real(f, D);
    int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); sym_lib::print_dense(fd, D); close(fd); delete D;
    std::istringstream in(get(f)); std::string line;
    for (int i = 0; i < r; ++i) { CHECK(bool(std::getline(in, line)), "row ", i, " is missing"); std::istringstream l(line); for (int j = 0; j < k; ++j) { double v = 0; CHECK(bool(l >> v) && v == a[j][i], "element (", i, ",", j, ") is printed as ", v); } double x; CHECK(!(l >> x), "row ", i, " has too many elements"); }
    CHECK(!std::getline(in, line), "too many rows");
  } else {
    int n = s.range(0, 12); VD v(n); for (auto &x : v) x = s.range(-99999, 99999) / 64.0;
    c.show("save_vector ", vec(v)); c.label("save_vector"); c.nontrivial = n >= 3;
    sym_lib::save_vector((char *)f.c_str(), v.data(), n);
    std::ifstream in(f); double x; for (int k = 0; k < n; ++k) CHECK(bool(in >> x) && x == v[k], "element ", k);
    CHECK(!(in >> x), "too many elements");
  }
  unlink(f.c_str());
}
static Reg r8("blocks-and-vectors", "a block of several columns, a 2x2 matrix or 3 elements", 20000, 300000, blocks_out);

// the primitives of mmio.h: what they write they read back, and they say so
static void primitives(Src &s, Ctx &c) {
  std::string f = tmp_path("pr");
  sym_lib::MM_typecode tc, t2; mm_initialize_typecode(&tc); mm_set_matrix(&tc);
  bool arr = s.chance(1, 3); if (arr) mm_set_array(&tc); else mm_set_coordinate(&tc);
  int ty = s.range(0, arr ? 2 : 3), sh = s.range(0, 3);
  if (ty == 0) mm_set_real(&tc); else if (ty == 1) mm_set_complex(&tc); else if (ty == 2) mm_set_integer(&tc); else mm_set_pattern(&tc);
  if (sh == 0) mm_set_general(&tc); else if (sh == 1) mm_set_symmetric(&tc); else if (sh == 2) mm_set_skew(&tc); else mm_set_hermitian(&tc);
  bool valid = !(ty == 0 && sh == 3) && !(ty == 3 && sh >= 2);
  CHECK((sym_lib::mm_is_valid(tc) != 0) == valid, "mm_is_valid of ", std::string(tc, 4));
  static const char *tn[] = {"real", "complex", "integer", "pattern"}, *sn[] = {"general", "symmetric", "skew-symmetric", "hermitian"};
  std::string name = cat("matrix ", arr ? "array" : "coordinate", " ", tn[ty], " ", sn[sh]);
  char *str = sym_lib::mm_typecode_to_str(tc);
  CHECK(str && name == str, "mm_typecode_to_str gives ", str ? str : "null", " instead of ", name); free(str);
  int m = s.range(0, 3) ? s.range(1, 9) : (int)s.draw(2000000000), n = s.range(1, 9), nz = s.range(0, 6);
  c.show(name, " ", m, "x", n, " ", nz); c.label(name); c.nontrivial = nz >= 2;
  FILE *o = fopen(f.c_str(), "w");
  int rb = sym_lib::mm_write_banner(o, tc), rs = arr ? sym_lib::mm_write_mtx_array_size(o, m, n) : sym_lib::mm_write_mtx_crd_size(o, m, n, nz);
  VI I(nz), J(nz); VD re(nz), im(nz);
  for (int k = 0; k < nz; ++k) {
    I[k] = s.range(1, 99); J[k] = s.range(1, 99); re[k] = s.range(-999, 999) / 8.0; im[k] = s.range(-999, 999) / 8.0;
    if (arr || ty == 3) fprintf(o, "%d %d\n", I[k], J[k]); else if (ty == 1) fprintf(o, "%d %d %.17g %.17g\n", I[k], J[k], re[k], im[k]); else fprintf(o, "%d %d %.17g\n", I[k], J[k], re[k]);
  }
  fclose(o);
  CHECK(rb == 0, "mm_write_banner reports ", rb, " for a banner it wrote");
  CHECK(rs == 0, "the size writer reports ", rs, " for a size it wrote");
  FILE *in = fopen(f.c_str(), "r"); struct Cl { FILE *f; ~Cl() { fclose(f); } } cl{in};
  int a = -1, b = -1, z = -1;
  CHECK(sym_lib::mm_read_banner(in, &t2) == 0 && !memcmp(tc, t2, 4), "the banner is read back as ", std::string(t2, 4));
  if (arr) CHECK(sym_lib::mm_read_mtx_array_size(in, &a, &b) == 0 && a == m && b == n, "the size is read back as ", a, "x", b);
  else CHECK(sym_lib::mm_read_mtx_crd_size(in, &a, &b, &z) == 0 && a == m && b == n && z == nz, "the size is read back as ", a, "x", b, " ", z);
  if (!arr && ty != 2) {
    if (s.flip()) {
      int miss = s.flip() ? 1 : 0; // one entry more than there is
      VI i2(nz + miss), j2(nz + miss); VD v(2 * (nz + miss));
      int rc = sym_lib::mm_read_mtx_crd_data(in, m, n, nz + miss, i2.data(), j2.data(), v.data(), tc);
      CHECK(rc == (miss ? MM_PREMATURE_EOF : 0), "mm_read_mtx_crd_data reports ", rc);
      for (int k = 0; k < nz; ++k) CHECK(i2[k] == I[k] && j2[k] == J[k] && (ty == 3 || (ty == 0 ? v[k] == re[k] : v[2 * k] == re[k] && v[2 * k + 1] == im[k])), "entry ", k);
    } else {
      for (int k = 0; k < nz; ++k) { int x, y; double p, q; CHECK(sym_lib::mm_read_mtx_crd_entry(in, &x, &y, &p, &q, tc) == 0 && x == I[k] && y == J[k] && (ty == 3 || (p == re[k] && (ty == 0 || q == im[k]))), "entry ", k); }
      int x, y; double p, q; CHECK(sym_lib::mm_read_mtx_crd_entry(in, &x, &y, &p, &q, tc) == MM_PREMATURE_EOF, "an entry is read past the end");
    }
  }
  unlink(f.c_str());
}
static Reg r9("mmio-primitives", "at least 2 entries", 25000, 300000, primitives);

// the same on large cases
static pbt::Big big0("round-trip", 4000, 1500, 30000);
static pbt::Big big1("hand-written", 4000, 1500, 30000);
static pbt::Big big2("insert-diagonal", 4000, 1500, 30000);
static pbt::Big big3("dense", 2500, 1500, 30000);
static pbt::Big big4("low-precision-writers", 4000, 600, 12000);
static pbt::Big big5("mmio", 4000, 1500, 30000);
static pbt::Big big6("blocks-and-vectors", 2500, 1500, 30000);
// and on more rows, columns or entries than 16 bits can count
static pbt::Big huge0("round-trip", 70000, 16, 320);
static pbt::Big huge1("hand-written", 70000, 16, 320);
static pbt::Big huge2("insert-diagonal", 70000, 16, 320);
static pbt::Big huge3("low-precision-writers", 70000, 4, 80);
static pbt::Big huge4("mmio", 70000, 16, 320);
