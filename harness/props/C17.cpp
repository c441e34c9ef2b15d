// C17: orderings and partitionings are valid.
#include "symb.h"
#include "aggregation/metis_interface.h"
#include "aggregation/sparse_utilities.h"
#include "aggregation/amd.h"
#include "aggregation/SuiteSparse_config_s.h"
#include <set>
using namespace gen;
using namespace sym_lib;

namespace {
void check_perm(const char *what, int n, const int *q) {
  CHECK(q, what, ": no permutation");
  VI at(n, -1);
  for (int k = 0; k < n; ++k) {
    CHECK(q[k] >= 0 && q[k] < n, what, ": entry ", k, " is ", q[k]);
    CHECK(at[q[k]] < 0, what, ": entries ", at[q[k]], " and ", k, " are both ", q[k]);
    at[q[k]] = k;
  }
}
void check_part(const char *what, int n, const int *q, int k) {
  CHECK(q, what, ": no partition");
  for (int j = 0; j < n; ++j) CHECK(q[j] >= 0 && q[j] < k, what, ": row ", j, " is in part ", q[j], " of ", k);
}
// half: -1 lower, 1 upper, 0 full. diag: 0 all, 1 some, 2 none
Mat sym_mat(Src &s, const Dag &d, int half, int diag, bool pattern, const std::vector<char> &has) {
  Mat M; M.m = M.n = d.n; M.stype = half; M.pattern = pattern; M.col.resize(d.n);
  for (int u = 0; u < d.n; ++u) {
    if (diag == 0 || (diag == 1 && has[u])) M.col[u].push_back({u, 4.0});
    for (int v : d.out[u]) { if (half <= 0) M.col[u].push_back({v, 1.0 + v}); if (half >= 0) M.col[v].push_back({u, 1.0 + v}); }
  }
  M.sort(); M.flat();
  return M;
}
struct Case { Dag d; int half, diag; bool pattern; std::vector<char> has; };
Case gen_case(Src &s, Ctx &c) {
  Case k;
  k.d = gen_dag(s, c, s.chance(1, 12) ? 300 : 40);
  k.half = s.flip() ? -1 : 1;
  k.diag = (int)s.weighted({6, 2, 1});
  k.pattern = s.chance(1, 3);
  k.has.assign(k.d.n, 0);
  if (k.diag == 1) for (auto &x : k.has) x = s.flip();
  static const char *nm[] = {"diag:all", "diag:some", "diag:none"};
  c.label(nm[k.diag]);
  if (k.d.edges() == 0) c.label("no-edges");
  c.show(k.d.str(), " half=", k.half, " diag=", k.diag);
  if (k.d.n >= 3 && k.d.edges() > 0) c.nontrivial = true;
  return k;
}

void orderings(Src &s, Ctx &c) {
  Case k = gen_case(s, c);
  int n = k.d.n;
  Mat H = sym_mat(s, k.d, k.half, k.diag, k.pattern, k.has), F = sym_mat(s, k.d, 0, k.diag, k.pattern, k.has);
  std::unique_ptr<CSC> h(make_csc(H)), f(make_csc(F));
  int *p1 = nullptr, *p2 = nullptr;
  CHECK(metis_perm_symmetric(h.get(), p1) == 1, "metis_perm_symmetric does not report success");
  check_perm("metis_perm_symmetric", n, p1);
  CHECK(metis_perm_general(f.get(), p2) == 1, "metis_perm_general does not report success");
  check_perm("metis_perm_general", n, p2);
  for (int j = 0; j < n; ++j) CHECK(p1[j] == p2[j], "the ordering of the half and of the full matrix differ at ", j, ": ", p1[j], " and ", p2[j]);
  check_untouched(h.get(), H, "metis_perm_symmetric");
  check_untouched(f.get(), F, "metis_perm_general");
  VI inv(n, 66);
  CHECK(compute_inv_perm(n, p1, inv.data()) == inv.data(), "compute_inv_perm returns another array");
  for (int j = 0; j < n; ++j) CHECK(inv[p1[j]] == j, "compute_inv_perm: inverse of ", p1[j], " is ", inv[p1[j]]);
  delete[] p1; delete[] p2;
  if (k.diag == 0) { h->stype = 0; int *p3 = nullptr; CHECK(metis_perm_symmetric(h.get(), p3) == -1, "metis_perm_symmetric accepts a matrix that is not half-stored"); }
}

void partitions(Src &s, Ctx &c) {
  Case k = gen_case(s, c);
  int n = k.d.n, parts = std::min(n, s.flip() ? s.range(1, 4) : gen_par(s, 1, 12)), co = s.range(1, s.flip() ? 4 : n + 2);
  c.show(" parts=", parts, " coarsen=", co);
  Mat H = sym_mat(s, k.d, k.half, k.diag, k.pattern, k.has), F = sym_mat(s, k.d, 0, k.diag, k.pattern, k.has);
  std::unique_ptr<CSC> h(make_csc(H)), f(make_csc(F));
  int *q = nullptr;
  CHECK(metis_partition_symmetric(h.get(), q, parts) == 0, "metis_partition_symmetric reports failure");
  check_part("metis_partition_symmetric", n, q, parts); delete[] q; q = nullptr;
  CHECK(metis_partition_general(f.get(), q, parts) == 0, "metis_partition_general reports failure");
  check_part("metis_partition_general", n, q, parts); delete[] q; q = nullptr;
  check_untouched(h.get(), H, "metis_partition_symmetric");
  check_untouched(f.get(), F, "metis_partition_general");
  int nc = (n + co - 1) / co;
  if (parts > nc) parts = nc;
  for (int half = 0; half < 2; ++half) {
    const Mat &M = half ? H : F; CSC *A = half ? h.get() : f.get();
    std::unique_ptr<CSC> t(coarsen_k_times(n, (int)A->nnz, A->p, A->i, A->stype, co));
    Ent want;
    for (int j = 0; j < n; ++j) for (auto &e : M.col[j]) want[{e.first / co, j / co}] = 1;
    CHECK((int)t->m == nc && (int)t->n == nc, "coarsen_k_times: dimensions ", t->m, "x", t->n, " instead of ", nc);
    CHECK(t->stype == M.stype, "coarsen_k_times: stype ", t->stype);
    Ent got = read_comp("coarsen_k_times", nc, nc, t->p, t->i, nullptr, false, false);
    same_ent("coarsen_k_times", got, want, false);
    CHECK(t->nnz == want.size(), "coarsen_k_times: nonzero count ", t->nnz, " for ", want.size());
    int *a = nullptr, *b = nullptr;
    CHECK(metis_partition_coarsened(A, a, parts, co) == 0, "metis_partition_coarsened reports failure");
    check_part("metis_partition_coarsened", n, a, parts);
    if (half) metis_partition_symmetric(t.get(), b, parts); else metis_partition_general(t.get(), b, parts);
    for (int j = 0; j < n; ++j) CHECK(a[j] == b[j / co], "metis_partition_coarsened: row ", j, " is in part ", a[j], " but its coarse row ", j / co, " in part ", b[j / co]);
    check_untouched(A, M, "metis_partition_coarsened");
    delete[] a; delete[] b;
  }
}

// the driver that orders and partitions
void driver(Src &s, Ctx &c) {
  Case k = gen_case(s, c);
  int n = k.d.n, parts = s.range(1, std::min(n, 6));
  bool pat = s.flip();
  c.show(" parts=", parts, pat ? " pattern" : " values");
  k.diag = 0;
  Mat M = sym_mat(s, k.d, pat ? k.half : 0, 0, pat, k.has);
  std::unique_ptr<CSC> A(make_csc(M));
  int *q = nullptr;
  std::unique_ptr<CSC> B(metis_partitioning(A.get(), parts, q));
  check_part("metis_partitioning", n, q, parts);
  check_untouched(A.get(), M, "metis_partitioning");
  Ent want;
  if (pat) {
    int *perm = nullptr;
    metis_perm_symmetric(A.get(), perm);
    VI inv(n);
    for (int j = 0; j < n; ++j) inv[perm[j]] = j;
    for (int u = 0; u < n; ++u) { want[{inv[u], inv[u]}] = 1; for (int v : k.d.out[u]) want[{inv[u], inv[v]}] = want[{inv[v], inv[u]}] = 1; }
    delete[] perm;
  } else want = M.entries();
  check_csc("metis_partitioning", B.get(), n, n, want, false, !pat);
  delete[] q;
}

void perms(Src &s, Ctx &c) {
  int n = sz_of(s, 1, 60);
  VI p = gen_perm(s, n), arr(n), ws(n, 99), ip(n, 99), ip2(n, 99);
  for (auto &x : arr) x = s.range(-1000, 1000);
  c.show("perm=", pbt::vec(p), " array=", pbt::vec(arr));
  if (n >= 3) c.nontrivial = true;
  VI p0 = p, a0 = arr;
  inv_perm(n, p.data(), ip.data());
  CHECK(compute_inv_perm(n, p.data(), ip2.data()) == ip2.data(), "compute_inv_perm returns another array");
  CHECK(p == p0, "permutation changed");
  for (int j = 0; j < n; ++j) { CHECK(ip[p[j]] == j, "inv_perm: inverse of ", p[j], " is ", ip[p[j]]); CHECK(ip2[p[j]] == j, "compute_inv_perm: inverse of ", p[j], " is ", ip2[p[j]]); }
  reorder_array(n, arr.data(), p.data(), ws.data());
  for (int j = 0; j < n; ++j) CHECK(arr[j] == a0[p0[j]], "reorder_array: element ", j, " is ", arr[j], " instead of ", a0[p0[j]]);
  reorder_array(n, arr.data(), ip.data(), ws.data());
  CHECK(arr == a0, "reorder_array by a permutation and its inverse is not the identity");
  CHECK(p == p0, "reorder_array changed the permutation");
  CHECK(compute_inv_perm(0, p.data(), ip2.data()) == nullptr, "compute_inv_perm of nothing returns an array");
}

// minimum degree ordering of a general square pattern
long alloc_left = -1; std::set<void *> live;
void *counted_malloc(size_t k) { if (alloc_left == 0) return nullptr; if (alloc_left > 0) --alloc_left; void *q = malloc(k); live.insert(q); return q; }
void counted_free(void *q) { live.erase(q); free(q); }
void amd(Src &s, Ctx &c) {
  Mat A;
  if (s.chance(1, 200)) { // nothing to order
    int p = 0, i = 7, q = 9; double inf[AMD_INFO];
    c.show("0x0"); c.label("empty");
    CHECK(amd_order(0, &p, &i, &q, nullptr, inf) == AMD_OK && inf[AMD_STATUS] == AMD_OK && inf[AMD_N] == 0 && q == 9 && amd_valid(0, 0, &p, &i) == AMD_OK, "amd_order of an empty matrix");
    return;
  }
  if (s.chance(1, 3)) A = gen_mat(s, c, SQUARE_M, true, false, false, s.chance(1, 6) ? 90 : 24, 0);
  else { Dag d = gen_dag(s, c, s.chance(1, 10) ? 200 : 40); int half = s.range(-1, 1); A = sym_mat(s, d, half, s.flip() ? 0 : 2, true, std::vector<char>(d.n, 0)); }
  A.sort(); A.flat();
  int n = A.n;
  VI p = A.p, i; std::set<std::pair<int, int>> e; int ndiag = 0;
  bool jumbled = false;
  int mess = (int)s.weighted({5, 2, 2}); // sorted, shuffled, with duplicates
  i.clear(); p.assign(1, 0);
  for (auto &q : A.col) {
    VI r; for (auto &x : q) r.push_back(x.first);
    if (mess == 1) for (size_t k = r.size(); k > 1; --k) std::swap(r[k - 1], r[s.draw(k)]);
    if (mess == 2 && !r.empty() && s.chance(1, 3)) r.insert(r.begin() + s.draw(r.size() + 1), r[s.draw(r.size())]);
    for (size_t k = 1; k < r.size(); ++k) jumbled |= r[k] <= r[k - 1];
    i.insert(i.end(), r.begin(), r.end()); p.push_back((int)i.size());
  }
  for (int j = 0; j < n; ++j) for (auto &x : A.col[j]) { if (x.first == j) ++ndiag; else e.insert({x.first, j}); }
  i.shrink_to_fit(); p.shrink_to_fit(); if (i.empty()) i.reserve(1);
  VI p0 = p, i0 = i, P(n, -5), Q(n, -6); P.shrink_to_fit();
  double control[AMD_CONTROL], info[AMD_INFO], control0[AMD_CONTROL];
  amd_defaults(control);
  bool defaults = s.chance(1, 3);
  if (!defaults) { control[AMD_DENSE] = s.pick(std::vector<double>{-1, 0, 0.5, 1, 3, 10}); control[AMD_AGGRESSIVE] = s.flip(); }
  std::copy(control, control + AMD_CONTROL, control0);
  c.show(A.str(), mess == 1 ? " shuffled" : mess == 2 ? " duplicates" : "", " dense=", control[AMD_DENSE], " aggressive=", control[AMD_AGGRESSIVE]);
  if (jumbled) c.label("jumbled");
  c.nontrivial = n >= 4 && e.size() >= 4;
  int bad = s.chance(1, 5) ? s.range(1, 8) : 0;
  if (bad) { // arguments that must be refused, leaving nothing behind
    c.label("invalid"); c.nontrivial = true;
    VI q = p, r = i; const int *qp = q.data(), *rp = r.data(); int *out = P.data(), m = n;
    if (bad >= 5 && r.empty()) bad = 1;
    switch (bad) {
    case 1: qp = nullptr; break; case 2: rp = nullptr; break; case 3: out = nullptr; break; case 4: m = -s.range(1, 9); break;
    case 5: r[s.draw(r.size())] = n + s.range(0, 3); break; case 6: r[s.draw(r.size())] = -s.range(1, 9); break;
    case 7: q[0] = 1; break;
    default: { int j = s.range(0, n - 1); q[j + 1] = q[j] - 1 - s.range(0, 2); if (j + 1 == n && q[n] < 0) c.label("negative-count"); }
    }
    c.show(" bad argument ", bad);
    CHECK(amd_order(m, qp, rp, out, control, info) == AMD_INVALID && info[AMD_STATUS] == AMD_INVALID, "amd_order accepts bad argument ", bad);
    CHECK(amd_order(m, qp, rp, out, nullptr, nullptr) == AMD_INVALID, "amd_order accepts bad argument ", bad, " without control and info");
    return;
  }
  int st = amd_order(n, p.data(), i.data(), P.data(), defaults && s.flip() ? nullptr : control, info);
  CHECK(st == (jumbled ? AMD_OK_BUT_JUMBLED : AMD_OK) && info[AMD_STATUS] == st, "amd_order returns ", st);
  CHECK(amd_valid(n, n, p.data(), i.data()) == st, "amd_valid");
  CHECK(amd_valid(n + s.range(0, 5), n, p.data(), i.data()) == st, "amd_valid with more rows");
  int top = -1; for (int x : i) top = std::max(top, x);
  CHECK(amd_valid(top + 1, n, p.data(), i.data()) == st && (top < 0 || amd_valid(top, n, p.data(), i.data()) == AMD_INVALID), "amd_valid with ", top, " rows");
  CHECK(amd_valid(-1, n, p.data(), i.data()) == AMD_INVALID && amd_valid(n, -1, p.data(), i.data()) == AMD_INVALID && amd_valid(n, n, nullptr, i.data()) == AMD_INVALID && amd_valid(n, n, p.data(), nullptr) == AMD_INVALID, "amd_valid accepts bad arguments");
  check_perm("amd_order", n, P.data());
  CHECK(p == p0 && i == i0 && std::equal(control, control + AMD_CONTROL, control0), "amd_order changed its input");
  // statistics
  std::set<std::pair<int, int>> sym; size_t matched = 0;
  for (auto &q : e) { sym.insert(q); sym.insert({q.second, q.first}); matched += e.count({q.second, q.first}); }
  CHECK(info[AMD_N] == n && (info[AMD_NZ] == (double)i.size() || info[AMD_NZ] == (double)(e.size() + ndiag)) && info[AMD_NZ_A_PLUS_AT] == (double)sym.size(), "size statistics: ", info[AMD_N], " ", info[AMD_NZ], " ", info[AMD_NZ_A_PLUS_AT]);
  CHECK(info[AMD_NZDIAG] == ndiag, "diagonal statistics: ", info[AMD_NZDIAG], " for ", ndiag);
  CHECK(info[AMD_SYMMETRY] == (e.empty() ? 1.0 : (double)matched / e.size()), "symmetry statistics: ", info[AMD_SYMMETRY]);
  VI deg(n, 0), at(n); for (auto &q : sym) ++deg[q.first]; for (int k = 0; k < n; ++k) at[P[k]] = k;
  double al = control[AMD_DENSE];
  if (al >= 0) {
    int lim = std::min(n, std::max(16, (int)(al * std::sqrt((double)n)))), nd = 0;
    for (int v = 0; v < n; ++v) nd += deg[v] > lim;
    CHECK(info[AMD_NDENSE] == nd, nd, " dense rows, reported ", info[AMD_NDENSE]);
    for (int v = 0; v < n; ++v) if (deg[v] > lim) CHECK(at[v] >= n - nd, "dense row ", v, " is placed at ", at[v]);
    if (nd) c.label("dense-rows");
  }
  Dag w; w.n = n; w.out.resize(n);
  for (auto &q : sym) { int x = at[q.first], y = at[q.second]; if (x < y) w.out[x].push_back(y); }
  auto L = eliminate(w); size_t lnz = 0, dmax = 0, flops = 0; for (auto &q : L) { lnz += q.size(); dmax = std::max(dmax, q.size() + 1); flops += q.size() * (q.size() + 1) / 2; }
  CHECK(info[AMD_LNZ] >= (double)lnz && info[AMD_NDIV] >= (double)lnz && info[AMD_NMULTSUBS_LDL] >= (double)flops && (n == 0 || info[AMD_DMAX] >= (double)dmax), "fill bounds: ", info[AMD_LNZ], " for ", lnz, " entries, ", info[AMD_DMAX], " for ", dmax, " in a column");
  double pairs = 0.5 * n * (n - 1.0);
  CHECK(info[AMD_LNZ] <= pairs && info[AMD_DMAX] <= n && info[AMD_NDIV] == info[AMD_LNZ] && 2 * info[AMD_NMULTSUBS_LDL] == info[AMD_NMULTSUBS_LU] + info[AMD_LNZ], "operation counts disagree: ", info[AMD_LNZ], " entries, ", info[AMD_NDIV], " divisions, ", info[AMD_NMULTSUBS_LDL], " and ", info[AMD_NMULTSUBS_LU], " products");
  CHECK(n == 0 || info[AMD_MEMORY] == sizeof(int) * (double)(sym.size() + sym.size() / 5 + 9 * (size_t)n + (jumbled ? n + 1 + std::max<size_t>(i.size(), 1) : 0)), "memory statistics: ", info[AMD_MEMORY]);
  // a matrix whose graph is a forest is ordered without fill
  { VI comp(n, -1); int k = 0; for (int v = 0; v < n; ++v) if (comp[v] < 0) { VI st2{v}; comp[v] = k; while (!st2.empty()) { int u = st2.back(); st2.pop_back(); for (auto it = sym.lower_bound({u, -1}); it != sym.end() && it->first == u; ++it) if (comp[it->second] < 0) { comp[it->second] = k; st2.push_back(it->second); } } ++k; }
    if (sym.size() / 2 == (size_t)(n - k) && info[AMD_NDENSE] == 0) { c.label("forest-graph"); CHECK(lnz == sym.size() / 2, "the ordering of a forest has fill: ", lnz, " for ", sym.size() / 2); } }
  // same input, same answer; memory exhausted at any point: reported, nothing kept
  CHECK(amd_order(n, p.data(), i.data(), Q.data(), control, nullptr) == st && Q == P, "a second call gives another ordering");
  auto om = SuiteSparse_config1.malloc_func; auto of = SuiteSparse_config1.free_func;
  struct Restore { decltype(om) m; decltype(of) f; ~Restore() { SuiteSparse_config1.malloc_func = m; SuiteSparse_config1.free_func = f; } } restore{om, of};
  SuiteSparse_config1.malloc_func = counted_malloc; SuiteSparse_config1.free_func = counted_free;
  for (int k = 0;; ++k) {
    alloc_left = k; live.clear();
    int rc = amd_order(n, p.data(), i.data(), Q.data(), control, info);
    bool out = alloc_left == 0; alloc_left = -1;
    CHECK(live.empty(), "after ", k, " allocations and status ", rc, " the ordering keeps ", live.size(), " blocks");
    if (rc == st) { CHECK(Q == P, "another ordering"); break; }
    CHECK(rc == AMD_OUT_OF_MEMORY && out && info[AMD_STATUS] == AMD_OUT_OF_MEMORY && k < 50, "with ", k, " allocations amd_order returns ", rc);
  }
}

pbt::Reg r1("orderings", "at least 3 rows and one off-diagonal entry", 40000, 600000, orderings, small_dag_prefix);
pbt::Reg r2("partitions", "at least 3 rows and one off-diagonal entry", 25000, 400000, partitions, small_dag_prefix);
pbt::Reg r3("driver", "at least 3 rows and one off-diagonal entry", 15000, 200000, driver, small_dag_prefix);
pbt::Reg r5("minimum-degree", "at least 4 rows and 4 off-diagonal entries, or bad arguments", 25000, 400000, amd);
pbt::Reg r4("permutations", "at least 3 elements", 100000, 1000000, perms);
}

// the same on large cases
static pbt::Big big0("orderings", 2500, 1500, 30000);
static pbt::Big big1("partitions", 2500, 800, 16000);
static pbt::Big big2("driver", 2500, 1500, 30000);
static pbt::Big big3("minimum-degree", 2500, 1500, 30000);
static pbt::Big big4("permutations", 2500, 1500, 30000);
// and on more nodes, edges or levels than 16 bits can count
static pbt::Big huge0("orderings", 70000, 16, 320);
static pbt::Big huge1("partitions", 70000, 16, 320);
static pbt::Big huge2("permutations", 70000, 16, 320);
