// C23: inspection is pure. Histories of calls over a catalogue of entry points:
// every call must leave its inputs as they were, and every repetition of a call,
// at any later point of the history and with differently filled fresh memory,
// must return the identical result.
#include "blocks.h"
#include "groups.h"
#include "symb.h"
#include "mtx.h"
#include "aggregation/amd.h"
#include "aggregation/group_utils.h"
#include "aggregation/lbc_utils.h"
#include "aggregation/BCSCMatrix.h"
#include "aggregation/group.h"
#include "aggregation/hdagg.h"
#include "aggregation/lbc.h"
#include "aggregation/lfactor_creation.h"
#include "aggregation/metis_interface.h"
#include "aggregation/sparse_inspector.h"
#include "aggregation/sparse_utilities.h"
#include "aggregation/utils.h"
#include <memory>
#include <new>
using namespace gen;
using namespace sym_lib;

// fresh memory is filled with a byte chosen per call
static volatile int g_fill = 0;
static void *filled(size_t n) {
  void *p = std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  std::memset(p, g_fill, n);
  return p;
}
void *operator new(size_t n) { return filled(n); }
void *operator new[](size_t n) { return filled(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return filled(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return filled(n); }
void operator delete(void *p, const std::nothrow_t &) noexcept { std::free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { std::free(p); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p, size_t) noexcept { std::free(p); }
void operator delete[](void *p, size_t) noexcept { std::free(p); }

namespace HDAGG {
bool treeBasedGrouping_Aggressive(int n, VI &DAG_ptr, VI &DAG_set, int &ngroups, VI &group_ptr, VI &group_set, bool apply_size_restriction);
void computePostOrderAndGroup(int n, const VI &DAG_ptr, const VI &DAG_set, int &ngroups, VI &groupPtr, VI &post_order, VI &group_DAG_ptr, VI &group_DAG_set);
}

namespace {
struct Out {
  std::string s;
  template <class T> void arr(const T *p, size_t n) { for (size_t k = 0; k < n; ++k) num(p[k]); s += "; "; }
  void num(double x) { char b[40]; snprintf(b, sizeof b, "%.17g ", x); s += b; }
  void vec(const VI &v) { num((double)v.size()); arr(v.data(), v.size()); }
  void csc(const CSC *A) {
    if (!A) { s += "null; "; return; }
    num((double)A->m); num((double)A->n); num((double)A->nnz); num(A->stype); num(A->is_pattern);
    arr(A->p, A->n + 1); arr(A->i, A->p[A->n]);
    if (!A->is_pattern && A->x) arr(A->x, A->p[A->n]);
  }
  void sched(int n, int nl, const int *lp, const int *pp, const int *np) { num(nl); arr(lp, nl + 1); arr(pp, lp[nl] + 1); arr(np, n); }
};
struct Arr { int *lp = nullptr, *pp = nullptr, *np = nullptr; ~Arr() { delete[] lp; delete[] pp; delete[] np; } };
using Call = std::function<std::string()>;
#define SAME(a, b) CHECK(a == b, "the call changed its input " #a)

struct Made { std::string name, show; Call run; };

// --- schedulers on a DAG
Made dag_lbc(Src &s, Ctx &c, int kind) {
  Dag d = gen_dag(s, c, 40);
  VI p, i; to_csc(d, p, i);
  VD w = gen_cost(s, c, d.n);
  int inner = gen_par(s, 1, 5), dist = s.chance(1, 3) ? -1 : gen_par(s, 1, 5), div = gen_par(s, 2, 6), thr = gen_par(s, 1, 4);
  bool bp = s.flip();
  static const char *nm[] = {"get_coarse_levelSet_DAG_CSC", "get_coarse_Level_set_DAG_CSC03", "get_coarse_Level_set_DAG_CSC03_parallel", "get_coarse_levelSet_DAG_CSC_tree"};
  return {nm[kind], pbt::cat(d.str(), " cost=", pbt::vec(w), " ", inner, " ", dist, " ", div, " ", bp), [=]() {
    VI P = p, I = i; VD W = w; Arr a; int nl = 0, parts = 0; int n = d.n;
    switch (kind) {
    case 0: get_coarse_levelSet_DAG_CSC(n, P.data(), I.data(), nl, a.lp, parts, a.pp, a.np, inner, dist, div, W.data(), bp); break;
    case 1: get_coarse_Level_set_DAG_CSC03(n, P.data(), I.data(), nl, a.lp, parts, a.pp, a.np, inner, dist, div, W.data()); break;
    case 2: get_coarse_Level_set_DAG_CSC03_parallel(n, P.data(), I.data(), nl, a.lp, parts, a.pp, a.np, inner, dist, div, W.data(), thr, bp); break;
    default: get_coarse_levelSet_DAG_CSC_tree(n, P.data(), I.data(), -1, nl, a.lp, parts, a.pp, a.np, inner, dist, div, W.data());
    }
    SAME(P, p); SAME(I, i); SAME(W, w);
    Out o; o.sched(n, nl, a.lp, a.pp, a.np); return o.s;
  }};
}
Made tree_lbc(Src &s, Ctx &c, int) {
  VI par = gen_forest(s, c, 50);
  VD w = gen_cost(s, c, (int)par.size());
  int inner = gen_par(s, 1, 5), dist = s.chance(1, 3) ? -1 : gen_par(s, 0, 5), div = gen_par(s, 2, 6);
  return {"get_coarse_levelSet_tree", pbt::cat("parent=", pbt::vec(par), " cost=", pbt::vec(w), " ", inner, " ", dist, " ", div), [=]() {
    VI P = par; VD W = w; Arr a; int nl = 0, parts = 0, n = (int)par.size();
    get_coarse_levelSet_tree(n, P.data(), nl, a.lp, parts, a.pp, a.np, inner, dist, div, W.data());
    SAME(P, par); SAME(W, w);
    Out o; o.num(parts); o.sched(n, nl, a.lp, a.pp, a.np); return o.s;
  }};
}
Made blk_lbc(Src &s, Ctx &c, int kind) {
  Blk b = gen_blk(s, c, 25);
  int n = b.d.n;
  VD w = gen_cost(s, c, n);
  int inner = gen_par(s, 1, 5), dist = s.chance(1, 3) ? -1 : gen_par(s, 0, 5), div = gen_par(s, 2, 6);
  return {kind ? "build_levelSet_BCSC" : "getCoarseLevelSet_DAG_BCSC02", pbt::cat(b.str(), " rows=", pbt::vec(b.li), " cost=", pbt::vec(w), " ", inner, " ", dist, " ", div), [=]() {
    Blk q = b; VD W = w; Out o;
    if (kind) {
      int *lp = nullptr; size_t *ls = nullptr;
      int nl = build_levelSet_BCSC(q.ncol, (int)q.li.size(), q.lp.data(), q.lip.data(), q.li.data(), n, q.blk2col.data(), q.col2blk.data(), lp, ls);
      o.num(nl); o.arr(lp, nl + 1); o.arr(ls, n);
      delete[] lp; delete[] ls;
    } else {
      Arr a; int nl = 0, parts = 0, *pls = nullptr;
      getCoarseLevelSet_DAG_BCSC02(n, q.lp.data(), q.lip.data(), q.li.data(), q.blk2col.data(), q.col2blk.data(), nl, a.lp, pls, parts, a.pp, a.np, inner, dist, div, W.data());
      o.sched(n, nl, a.lp, a.pp, a.np);
    }
    SAME(q.lp, b.lp); SAME(q.lip, b.lip); SAME(q.li, b.li); SAME(q.blk2col, b.blk2col); SAME(q.col2blk, b.col2blk); SAME(W, w);
    return o.s;
  }};
}
Made hdagg(Src &s, Ctx &c, int kind) {
  Dag d = gen_dag(s, c, 40);
  VI p, i; to_csc(d, p, i);
  VD w = gen_cost(s, c, d.n);
  int cores = gen_par(s, 1, 6); bool po = s.flip(), bp = s.flip();
  static const char *nm[] = {"HDAGG", "GLC_V2", "build_coarsened_level_parallel"};
  return {nm[kind], pbt::cat(d.str(), " cost=", pbt::vec(w), " cores=", cores, " ", po, bp), [=]() {
    VI P = p, I = i, lp, pp, np; VD W = w; int nl = 0, n = d.n; Out o;
    if (kind < 2) { VI wm = (kind ? HDAGG::GLC_V2 : HDAGG::HDAGG)(n, (int)I.size(), P, I, W, cores, nl, lp, pp, np, false, po, bp); o.vec(wm); }
    else HDAGG::build_coarsened_level_parallel(n, P.data(), I.data(), cores, nl, lp, pp, np);
    SAME(P, p); SAME(I, i); SAME(W, w);
    o.sched(n, nl, lp.data(), pp.data(), np.data()); return o.s;
  }};
}
// --- graph inspections on a DAG
Made graph(Src &s, Ctx &c, int kind) {
  Dag d = gen_dag(s, c, 40);
  VI p, i; to_csc(d, p, i);
  bool flag = s.flip();
  int k = s.range(1, 3);
  static const char *nm[] = {"build_levelSet_CSC", "buildLevelSet_CSC_Queue", "level_set_multi_graphs", "computingLevelSet_CSC", "partialSparsification",
                             "treeBasedGrouping", "treeBasedGroupingBFS", "chainGrouping", "treeBasedGrouping_Aggressive", "computePostOrderAndGroup",
                             "computePostOrder", "inspection_spicocsc_v1", "inspection_spicocsc_v2", "partition_by_bfs"};
  return {nm[kind], pbt::cat(d.str(), " flag=", flag, " k=", k), [=]() {
    VI P = p, I = i; int n = d.n; Out o;
    int ng = 0; VI gp, gs;
    switch (kind) {
    case 0: { int *lp = nullptr, *ls = nullptr; int nl = build_levelSet_CSC(n, P.data(), I.data(), lp, ls); o.num(nl); o.arr(lp, nl + 1); o.arr(ls, n); delete[] lp; delete[] ls; break; }
    case 1: { VI lp(n + 1, 0), ls(n, 0); int *a = lp.data(), *b = ls.data(); int nl = buildLevelSet_CSC_Queue(n, (int)I.size(), P.data(), I.data(), a, b); o.num(nl); o.arr(a, nl + 1); o.arr(b, n); break; }
    case 2: { int *lp = nullptr, *ls = nullptr; int nl = level_set_multi_graphs(n, P.data(), I.data(), lp, ls, k); o.num(nl); o.arr(lp, nl + 1); o.arr(ls, n * k); delete[] lp; delete[] ls; break; }
    case 3: { VI lp, ls; int nl; computingLevelSet_CSC(n, P.data(), I.data(), lp, ls, nl); o.num(nl); o.arr(lp.data(), nl + 1); o.arr(ls.data(), n); break; }
    case 4: { VI qp, qs; HDAGG::partialSparsification(n, (int)I.size(), P.data(), I.data(), qp, qs, flag); o.vec(qp); o.vec(qs); break; }
    case 5: HDAGG::treeBasedGrouping(n, P, I, ng, gp, gs, flag); break;
    case 6: HDAGG::treeBasedGroupingBFS(n, P, I, ng, gp, gs, flag); break;
    case 7: HDAGG::chainGrouping(n, P, I, ng, gp, gs); break;
    case 8: HDAGG::treeBasedGrouping_Aggressive(n, P, I, ng, gp, gs, flag); break;
    case 9: { VI qp, qs; HDAGG::computePostOrderAndGroup(n, P, I, ng, gp, gs, qp, qs); o.vec(qp); o.vec(qs); break; }
    case 10: HDAGG::computePostOrder(n, P.data(), I.data(), gs); break;
    case 11: case 12: {
      VI a(n + 1, -3), b(n, -3), g(n, -3); group gr(n, P.data(), I.data());
      if (kind == 11) gr.inspection_spicocsc_v1(a.data(), b.data(), ng, g.data()); else gr.inspection_spicocsc_v2(a.data(), b.data(), ng, g.data());
      o.num(ng); o.arr(a.data(), ng + 1); o.vec(b); o.vec(g); break;
    }
    default: {
      auto A = wrap(n, n, P, I, -1); VD w(n, 1.0), W = w; Arr a; int nl = 0;
      partition_by_bfs(n, A.get(), W.data(), nl, a.lp, k, a.pp, a.np, nullptr);
      SAME(W, w); for (size_t t = 0; t < i.size(); ++t) CHECK(A->i[t] == i[t], "partition_by_bfs changed the graph");
      o.sched(n, nl, a.lp, a.pp, a.np);
    }
    }
    o.num(ng); o.vec(gp); o.vec(gs);
    SAME(P, p); SAME(I, i);
    return o.s;
  }};
}
Made quotients(Src &s, Ctx &c, int) {
  Dag d = gen_dag(s, c, 40);
  Grouping G = gen_grouping(s, c, d, false, true);
  VI p, i; to_csc(d, p, i);
  return {"buildGroupDAG", d.str() + " " + G.str(), [=]() {
    VI P = p, I = i, gp = G.ptr, gs = G.set, qp, qs; Out o;
    HDAGG::buildGroupDAG(d.n, G.ng, gp.data(), gs.data(), P.data(), I.data(), qp, qs);
    SAME(P, p); SAME(I, i); SAME(gp, G.ptr); SAME(gs, G.set);
    o.vec(qp); o.vec(qs); return o.s;
  }};
}
// --- matrix transforms
Made transform(Src &s, Ctx &c, int kind) {
  bool sq = kind == 2 || kind == 5 || kind == 6;
  Mat M = gen_mat(s, c, kind == 3 || kind == 4 ? (s.flip() ? LOWER_M : UPPER_M) : sq ? SQUARE_M : GENERAL_M, kind != 7, kind >= 3, false, 16);
  bool lower = s.flip();
  VI perm = gen_perm(s, M.n);
  static const char *nm[] = {"csc_to_csr", "transpose_general", "make_half", "make_full", "transpose_symmetric", "make_symmetric", "copy_sparse", "BCSCMatrix"};
  if (kind == 7) { M = Mat(); Dag d = gen_dag(s, c, 20); M.m = M.n = d.n; M.stype = -1; M.col.resize(d.n); for (int u = 0; u < d.n; ++u) { M.col[u].push_back({u, 2.0}); for (int v : d.out[u]) M.col[u].push_back({v, gen_val(s)}); } M.flat(); }
  return {nm[kind], M.str() + " lower=" + (lower ? "1" : "0") + " perm=" + pbt::vec(perm), [=]() {
    std::unique_ptr<CSC> A(make_csc(M)), B; Out o;
    switch (kind) {
    case 0: {
      std::unique_ptr<CSR> R(csc_to_csr(A.get()));
      o.num((double)R->m); o.num((double)R->n); o.num((double)R->nnz); o.arr(R->p, R->m + 1); o.arr(R->i, R->p[R->m]); if (!M.pattern && R->x) o.arr(R->x, R->p[R->m]);
      break;
    }
    case 1: B.reset(transpose_general(A.get())); break;
    case 2: B.reset(make_half(A->n, A->p, A->i, A->x, lower)); break;
    case 3: B.reset(make_full(A.get())); break;
    case 4: { VI q = perm; B.reset(transpose_symmetric(A.get(), lower ? q.data() : nullptr)); SAME(q, perm); break; }
    case 5: B.reset(make_symmetric(A.get(), lower)); break;
    case 6: B.reset(copy_sparse(A.get())); break;
    default: { BCSCMatrix S(A.get()); BCSC *b = S.getBCSC(); o.num((double)b->nodes); o.arr(b->supernodes, b->nodes + 1); o.arr(b->p, b->nodes + 1); o.arr(b->i, b->nnz); o.arr(b->x, b->nnz); o.arr(b->nrows, b->nodes); B.reset(S.compressed_BCSC_to_CSC()); }
    }
    check_untouched(A.get(), M, nm[kind]);
    o.csc(B.get()); return o.s;
  }};
}
// --- symbolic analysis, orderings
Made symbolic(Src &s, Ctx &c, int kind) {
  Dag d = gen_dag(s, c, 40);
  int n = d.n, parts = s.range(1, std::min(n, 4));
  Mat M; M.m = M.n = n; M.col.resize(n); M.stype = kind == 1 || kind == 3 ? 1 : -1;
  for (int u = 0; u < n; ++u) { M.col[u].push_back({u, 4.0}); for (int v : d.out[u]) if (M.stype < 0) M.col[u].push_back({v, -1.0}); else M.col[v].push_back({u, -1.0}); }
  M.sort(); M.flat();
  static const char *nm[] = {"build_symbolic_simplicial_lfactor", "compute_etree", "metis_perm_symmetric", "metis_partition_symmetric"};
  return {nm[kind], d.str() + pbt::cat(" parts=", parts), [=]() {
    std::unique_ptr<CSC> A(make_csc(M)); Out o;
    switch (kind) {
    case 0: {
      std::unique_ptr<LFactorSymbolicInfo> I(build_symbolic_simplicial_lfactor(A.get()));
      o.arr(I->perm, n); o.arr(I->iperm, n); o.arr(I->post, n); o.arr(I->parent, n); o.arr(I->col_counts, n); o.arr(I->accessed_nnz_per_col, n); o.num((double)I->flops);
      o.arr(I->L->p, n + 1); o.arr(I->L->i, I->L->p[n]); break;
    }
    case 1: { VI par(n, (int)g_fill); o.num(compute_etree(A.get(), par.data())); o.vec(par); break; }
    case 2: { int *q = nullptr; o.num(metis_perm_symmetric(A.get(), q)); o.arr(q, n); delete[] q; break; }
    default: { int *q = nullptr; o.num(metis_partition_symmetric(A.get(), q, parts)); o.arr(q, n); delete[] q; }
    }
    check_untouched(A.get(), M, nm[kind]);
    return o.s;
  }};
}
Made forest(Src &s, Ctx &c, int kind) {
  VI par = gen_forest(s, c, 50); int n = (int)par.size();
  VD w(n); for (auto &x : w) x = s.range(1, 9);
  VI kids(n, 0); for (int v : par) if (v >= 0) kids[v]++;
  static const char *nm[] = {"build_level_set_tree", "build_level_set_tree_efficient", "compute_subtree_cost", "tree_post_order", "tree_to_csc", "get_tree_height_efficient"};
  return {nm[kind], pbt::cat("parent=", pbt::vec(par), " w=", pbt::vec(w)), [=]() {
    VI P = par, K = kids; VD W = w; Out o;
    switch (kind) {
    case 0: { VI lp(n + 1, 0), ls(n, 0); int nl = build_level_set_tree(n, P.data(), lp.data(), ls.data()); o.num(nl); o.arr(lp.data(), nl + 1); o.vec(ls); break; }
    case 1: { VI lp(n + 1, 0), ls(n, 0), nd(n, 0); int nl = build_level_set_tree_efficient(n, P.data(), K.data(), lp.data(), ls.data(), nd.data()); o.num(nl); o.arr(lp.data(), nl + 1); o.vec(ls); o.vec(nd); break; }
    case 2: { double *q = compute_subtree_cost(n, P.data(), W.data()); o.arr(q, n); delete[] q; break; }
    case 3: { VI post(n, (int)g_fill); tree_post_order(P.data(), n, nullptr, post.data()); o.vec(post); break; }
    case 4: { std::unique_ptr<CSC> T(tree_to_csc(n, P.data())); o.csc(T.get()); break; }
    default: o.num(get_tree_height_efficient(n, P.data(), K.data(), nullptr));
    }
    SAME(P, par); SAME(K, kids); SAME(W, w);
    return o.s;
  }};
}
// --- wavefronts of graphs that may contain a cycle
Made wavefronts(Src &s, Ctx &c, int kind) {
  Dag d = gen_dag(s, c, 30);
  int n = d.n;
  if (s.flip()) { // add edges in any direction
    int k = s.range(1, 3);
    for (int t = 0; t < k; ++t) { int u = s.range(0, n - 1), v = s.range(0, n - 1); if (u != v) d.out[u].push_back(v); }
    for (auto &o : d.out) { std::sort(o.begin(), o.end()); o.erase(std::unique(o.begin(), o.end()), o.end()); }
  }
  VI p, i; to_csc(d, p, i);
  static const char *nm[] = {"build_levelSet_CSC", "build_levelSet_CSC (caller arrays)", "HDAGG::build_levelSet_CSC", "computingLevelSet_CSC"};
  Ctx *cx = &c;
  return {nm[kind], d.str(), [=]() {
    VI P = p, I = i; Out o; int nl = 0;
    if (kind == 0) {
      int *lp = nullptr, *ls = nullptr;
      nl = build_levelSet_CSC(n, P.data(), I.data(), lp, ls);
      if (nl >= 0) { o.arr(lp, nl + 1); o.arr(ls, n); } else cx->label("cyclic");
      delete[] lp; delete[] ls;
    } else if (kind == 3) {
      VI lp, ls; computingLevelSet_CSC(n, P.data(), I.data(), lp, ls, nl);
      if (nl >= 0) { o.arr(lp.data(), nl + 1); o.arr(ls.data(), n); } else cx->label("cyclic");
    } else {
      VI lp(n + 1, 0), ls(n, 0), nd(n, 0);
      nl = kind == 1 ? build_levelSet_CSC(n, (const int *)P.data(), (const int *)I.data(), lp.data(), ls.data())
                     : HDAGG::build_levelSet_CSC(n, P.data(), I.data(), lp.data(), ls.data(), nd.data());
      if (nl >= 0) {
        o.arr(lp.data(), nl + 1); o.vec(ls); o.vec(nd);
        if (kind == 2) { VI n2; HDAGG::computingNode2Level(lp, ls, nl, n, n2); o.vec(n2); }
      } else cx->label("cyclic");
    }
    SAME(P, p); SAME(I, i);
    o.num(nl); return o.s;
  }};
}
// --- users of a schedule
Made expansions(Src &s, Ctx &c, int kind) {
  Dag d = gen_dag(s, c, 30);
  int n = d.n, mode = s.range(0, 2), tile = s.range(1, n);
  VI p, i, rp, ri; to_csc(d, p, i); to_csr(d, rp, ri);
  Grouping G; Schedule S;
  VI sp;
  if (kind == 1) { // groups made of whole supernodes
    sp.push_back(0); G.ptr.push_back(0); G.set.resize(n); std::iota(G.set.begin(), G.set.end(), 0);
    int w = s.range(1, 4), gw = s.range(1, 3);
    while (sp.back() < n) sp.push_back(std::min(n, sp.back() + s.range(1, w)));
    for (size_t k = 1; k < sp.size(); ++k) if (k + 1 == sp.size() || s.range(0, gw) == 0) G.ptr.push_back(sp[k]);
    G.ng = (int)G.ptr.size() - 1; G.inv.assign(n, 0);
    for (int g = 0; g < G.ng; ++g) for (int u = G.ptr[g]; u < G.ptr[g + 1]; ++u) G.inv[u] = g;
  } else G = gen_grouping(s, c, d, false, kind == 0);
  S = gen_schedule(s, c, kind == 2 || kind == 3 ? d : quotient(d, G), kind == 2 ? s.range(0, 1) : 1);
  static const char *nm[] = {"ungroupingScheduleAndApplyOrdering", "convertCNScheduleToSuperNode", "twoDReordering", "getFinalScheduleDAG", "aggressiveSupernodeGrouping"};
  return {nm[kind], pbt::cat(d.str(), " ", G.str(), " supernodes=", pbt::vec(sp), " schedule=", S.str(), " mode=", mode, " tile=", tile), [=]() {
    VI P = p, I = i, RP = rp, RI = ri, gp = G.ptr, gs = G.set, q = sp, lp = S.lp, pp = S.pp, np = S.np; Out o; int nl = S.nlev;
    switch (kind) {
    case 0: HDAGG::ungroupingScheduleAndApplyOrdering(n, nl, lp, pp, np, gp, gs, P.data(), I.data(), mode == 0, mode == 1); break;
    case 1: HDAGG::convertCNScheduleToSuperNode(n, (int)q.size() - 1, gp.data(), gs.data(), q.data(), nl, lp, pp, np); break;
    case 2: {
      VI tp; std::vector<HDAGG::twoDIteration> it;
      HDAGG::twoDReordering(n, (int)RI.size(), RP.data(), RI.data(), nl, lp, pp, np, tile, tp, it);
      SAME(lp, S.lp); SAME(pp, S.pp); SAME(np, S.np); o.vec(tp);
      for (auto &x : it) { o.num(x.i); o.num(x.k); o.num(x.j); }
      break;
    }
    case 3: {
      int ng = 0; VI a, b, qp, qi;
      HDAGG::getFinalScheduleDAG(n, nl, lp.data(), pp.data(), np.data(), P.data(), I.data(), ng, a, b, qp, qi);
      SAME(lp, S.lp); SAME(pp, S.pp); SAME(np, S.np); o.num(ng); o.vec(a); o.vec(b); o.vec(qp); o.vec(qi);
      break;
    }
    default: o.num(HDAGG::aggressiveSupernodeGrouping(n, gp.data(), gs.data(), P.data(), I.data(), nl, lp, pp, np)); SAME(lp, S.lp); SAME(pp, S.pp); SAME(np, S.np);
    }
    SAME(P, p); SAME(I, i); SAME(RP, rp); SAME(RI, ri); SAME(gp, G.ptr); SAME(gs, G.set); SAME(q, sp);
    o.num(nl); o.vec(lp); o.vec(pp); o.vec(np); return o.s;
  }};
}
// --- graphs of groups, costs, components, packing
Made aggregates(Src &s, Ctx &c, int kind) {
  Dag d = gen_dag(s, c, 30);
  int n = d.n, q = s.range(0, 3), bins = s.range(1, 5);
  Grouping G = gen_grouping(s, c, d, true, true);
  VI p, i, rp, ri; to_csc(d, p, i); to_csr(d, rp, ri);
  VI lev = levels_of(d);
  int nl = *std::max_element(lev.begin(), lev.end()) + 1, lb = s.range(0, nl - 1), ub = s.range(lb + 1, nl);
  VI lp(1, 0), ls; for (int l = 0; l < nl; ++l) { for (int v = 0; v < n; ++v) if (lev[v] == l) ls.push_back(v); lp.push_back((int)ls.size()); }
  VD w(n); for (auto &x : w) x = s.range(1, 9);
  static const char *nm[] = {"fs_csr_inspector_dep", "fs_csr_inspector_dep (groups)", "fs_ic0csc_inspector_group", "Group_DAG", "costComputation", "parallel_cc", "computeCC", "worst_fit_bin_pack", "partition_by_weight", "inspection_sptrsvcsr_v1", "inspection_sptrsvcsr_v2"};
  return {nm[kind], pbt::cat(d.str(), " ", G.str(), " kernel=", q, " levels [", lb, ",", ub, ") cost=", pbt::vec(w), " bins=", bins), [=]() {
    VI P = p, I = i, RP = rp, RI = ri, gp = G.ptr, gs = G.set, gi = G.inv; VD W = w; Out o;
    static const HDAGG::Kernel ks[] = {HDAGG::SpTrSv_LL, HDAGG::SpICh0_UL, HDAGG::SpILU0_UL, HDAGG::General};
    std::vector<VI> lists;
    switch (kind) {
    case 0: lists.resize(n); fs_csr_inspector_dep(n, RP.data(), RI.data(), lists); break;
    case 1: lists.resize(G.ng); fs_csr_inspector_dep(G.ng, gp.data(), gs.data(), gi.data(), RP.data(), RI.data(), lists); break;
    case 2: lists.resize(G.ng); fs_ic0csc_inspector_group(G.ng, gp.data(), gs.data(), gi.data(), P.data(), I.data(), lists); break;
    case 3: lists = Group_DAG(d.out, gp.data(), gs.data(), gi.data(), G.ng); break;
    case 4: { VD cost; HDAGG::costComputation(G.ng, P.data(), I.data(), RP.data(), RI.data(), ks[q == 3 ? 0 : q], gp.data(), gs.data(), true, cost); o.num((double)cost.size()); o.arr(cost.data(), cost.size()); break; }
    case 5: { VI cc(n, -1), L = lev, S = ls; HDAGG::parallel_cc(n, P.data(), I.data(), lb, ub, L.data(), lp[ub] - lp[lb], S.data() + lp[lb], cc.data()); SAME(L, lev); SAME(S, ls); o.vec(cc); break; }
    case 6: {
      VI cc(n, -1), L = lev, S = ls, Q = lp;
      for (int at = lb; at < ub; ++at) {
        VD pc(n, 0); int cnt = -1; double tot = 0;
        HDAGG::computeCC(lb, at, at + 1, n, P.data(), I.data(), Q.data(), S.data(), L.data(), cc, cnt, pc, W, tot);
        o.num(cnt); o.num(tot); o.vec(cc); o.arr(pc.data(), n);
      }
      SAME(L, lev); SAME(S, ls); SAME(Q, lp); break;
    }
    case 7: {
      std::vector<VI> parts(G.ng), parts0; VD in(G.ng), out(bins, 0.0);
      for (int g = 0; g < G.ng; ++g) { parts[g].assign(gs.begin() + gp[g], gs.begin() + gp[g + 1]); in[g] = W[g]; }
      parts0 = parts; VD in0 = in; lists.resize(bins);
      o.num(worst_fit_bin_pack(parts, in.data(), lists, out.data(), 5, bins)); o.arr(out.data(), bins);
      SAME(parts, parts0); SAME(in, in0); break;
    }
    case 8: { int *b = partition_by_weight(n, gs.data(), W.data(), bins, nullptr); o.arr(b, bins + 1); delete[] b; break; }
    default: {
      VI a(n + 1, -3), b(n, -3), g(n, -3); int ng = 0; group gr(n, RP.data(), RI.data());
      if (kind == 9) gr.inspection_sptrsvcsr_v1(a.data(), b.data(), ng, g.data()); else gr.inspection_sptrsvcsr_v2(a.data(), b.data(), ng, g.data());
      o.num(ng); o.arr(a.data(), ng + 1); o.vec(b); o.vec(g);
    }
    }
    for (auto &x : lists) o.vec(x);
    SAME(P, p); SAME(I, i); SAME(RP, rp); SAME(RI, ri); SAME(gp, G.ptr); SAME(gs, G.set); SAME(gi, G.inv); SAME(W, w);
    return o.s;
  }};
}
// --- elimination trees, minimum degree, coarsening, fused graphs
Made structure(Src &s, Ctx &c, int kind) {
  Dag d = gen_dag(s, c, 30), e;
  int n = d.n, co = s.range(1, 4), k = s.range(0, n - 1);
  VI p, i, rp, ri; to_csc(d, p, i); to_csr(d, rp, ri);
  auto fac = eliminate(d); VI par = parents_of(fac);
  VI fp(1, 0), fi; for (int u = 0; u < n; ++u) { VI r = d.out[u]; r.push_back(u); for (int v = 0; v < u; ++v) if (std::binary_search(d.out[v].begin(), d.out[v].end(), u)) r.push_back(v); std::sort(r.begin(), r.end()); fi.insert(fi.end(), r.begin(), r.end()); fp.push_back((int)fi.size()); }
  static const char *nm[] = {"computeParents", "buildETree", "computeNoneZeroPatternOfRowK", "ereach", "amd_order", "coarsen_k_times", "merge_graph (arrays)", "merge_graph", "merge_DAGs_with_partial_order", "level_set_bn", "verify_csc_diagonal", "compute_depth"};
  return {nm[kind], pbt::cat(d.str(), " coarsen=", co, " row=", k), [=]() {
    VI P = p, I = i, RP = rp, RI = ri, FP = fp, FI = fi, T = par; Out o; int m = n;
    switch (kind) {
    case 0: { VI v; HDAGG::computeParents(m, RP.data(), RI.data(), v); o.num(m); o.vec(v); break; }
    case 1: { CSR A(n, n, RI.size(), true); std::copy(RP.begin(), RP.end(), A.p); std::copy(RI.begin(), RI.end(), A.i); VI tp, ts; int ne = 0; HDAGG::buildETree(&A, ne, tp, ts); o.num(ne); o.vec(tp); o.vec(ts); CHECK(std::equal(RP.begin(), RP.end(), A.p) && std::equal(RI.begin(), RI.end(), A.i), "buildETree changed its input"); break; }
    case 2: { VI st(n, (int)g_fill); std::vector<bool> w(n, false); int top = HDAGG::computeNoneZeroPatternOfRowK(m, RP.data(), RI.data(), k, T.data(), st.data(), w); o.num(top); o.arr(st.data() + top, n - top); break; }
    case 3: { VI st(n, (int)g_fill), w(n, 0); int top = ereach(n, RP.data(), RI.data(), k, T.data(), st.data(), w.data()); o.num(top); o.arr(st.data() + top, n - top); break; }
    case 4: { VI q(n, (int)g_fill); double inf[AMD_INFO]; o.num(amd_order(n, FP.data(), FI.data(), q.data(), nullptr, inf)); o.vec(q); o.arr(inf, AMD_DMAX + 1); break; }
    case 5: { std::unique_ptr<CSC> A(coarsen_k_times(n, (int)I.size(), P.data(), I.data(), -1, co)); o.num((double)A->m); o.num((double)A->n); o.num((double)A->nnz); o.arr(A->p, A->n + 1); o.arr(A->i, A->p[A->n]); break; }
    case 6: case 7: case 8: {
      int *gp[2] = {P.data(), P.data()}, *gi[2] = {I.data(), I.data()}, *dp[1] = {FP.data()}, *di[1] = {FI.data()};
      if (kind == 6) { int *np = nullptr, *ni = nullptr; merge_graph(2, n, gp, gi, np, ni); o.arr(np, 2 * n + 1); o.arr(ni, np[2 * n]); delete[] np; delete[] ni; }
      else { std::unique_ptr<CSC> A(kind == 7 ? merge_graph(2, n, gp, gi) : merge_DAGs_with_partial_order(2, n, gp, gi, 1, dp, di)); o.num((double)A->n); o.arr(A->p, A->n + 1); o.arr(A->i, A->p[A->n]); }
      break;
    }
    case 9: { VI sn(n + 1); std::iota(sn.begin(), sn.end(), 0); VI s0 = sn; int *lp = nullptr, *ls = nullptr; int nl = level_set_bn(n, P.data(), I.data(), lp, ls, sn.data(), n, 1, true); o.num(nl); o.arr(lp, nl + 1); o.arr(ls, n); delete[] lp; delete[] ls; SAME(sn, s0); break; }
    default: {
      CSC A(n, n, (int)I.size()); std::copy(P.begin(), P.end(), A.p); std::copy(I.begin(), I.end(), A.i); std::fill(A.x, A.x + I.size(), 1.0); A.stype = -1;
      if (kind == 10) o.num(verify_csc_diagonal(&A)); else { VI dep(n, (int)g_fill); compute_depth(&A, dep.data()); o.vec(dep); }
      CHECK(std::equal(P.begin(), P.end(), A.p) && std::equal(I.begin(), I.end(), A.i) && A.stype == -1, nm[kind], " changed its input");
    }
    }
    SAME(P, p); SAME(I, i); SAME(RP, rp); SAME(RI, ri); SAME(FP, fp); SAME(FI, fi); SAME(T, par); SAME(m, n);
    return o.s;
  }};
}
// --- readers and writers
Made files(Src &s, Ctx &c, int kind) {
  Mat A = gen_mat(s, c, s.flip() ? LOWER_M : GENERAL_M, kind != 2, false, false, 8);
  std::string t;
  if (kind != 2) {
    t = gen_mtx_text(s, c, A, false);
    if (s.chance(1, 3) && !t.empty()) { t.resize(s.draw(t.size())); c.label("truncated file"); }
  }
  static const char *nm[] = {"read_mtx", "read_mtx_csc_real", "CSC_to_mtx"};
  return {nm[kind], kind == 2 ? A.str() : esc(t), [=]() {
    std::string f = tmp_path("pure"); Out o; Quiet q;
    struct Rm { std::string f; ~Rm() { unlink(f.c_str()); } } rm{f};
    if (kind == 2) {
      std::unique_ptr<CSC> M(make_csc(A)); CSC_to_mtx(f, M.get()); check_untouched(M.get(), A, "CSC_to_mtx"); o.s = get(f);
      return o.s;
    }
    put(f, t);
    try {
      CSC *M = nullptr;
      if (kind == 0) M = read_mtx(f); else { std::ifstream in(f); read_mtx_csc_real(in, M, false); }
      o.csc(M); delete M;
    } catch (std::exception &e) { o.s = std::string("refused: ") + typeid(e).name(); }
    CHECK(get(f) == t, nm[kind], " changed the file");
    return o.s;
  }};
}
struct Fam { const char *name; int kinds; Made (*make)(Src &, Ctx &, int); };
const Fam FAMS[] = {{"dag-lbc", 4, dag_lbc}, {"tree-lbc", 1, tree_lbc}, {"blocked", 2, blk_lbc}, {"hdagg", 3, hdagg}, {"graph", 14, graph}, {"quotient", 1, quotients}, {"transform", 8, transform}, {"symbolic", 4, symbolic}, {"forest", 6, forest},
                    {"wavefronts", 4, wavefronts}, {"expansions", 5, expansions}, {"aggregates", 11, aggregates}, {"structure", 12, structure}, {"files", 3, files}};

void history(Src &s, Ctx &c, const std::vector<int> &fams) {
  g_fill = 0;
  int k = s.range(1, 4);
  std::vector<Made> calls; std::vector<std::string> first(k);
  for (int t = 0; t < k; ++t) {
    const Fam &f = FAMS[fams[s.draw(fams.size())]];
    calls.push_back(f.make(s, c, (int)s.draw(f.kinds)));
    c.label(std::string("call:") + calls.back().name);
    c.show(t ? " | " : "", "call ", t, " = ", calls[t].name, " on ", calls[t].show);
  }
  int len = s.range(k + 1, 2 * k + 4);
  static const int fills[] = {0x00, 0xff, 0x7f, 0x01, 0xa5};
  c.show(" | history");
  int repeats = 0;
  for (int step = 0; step < len; ++step) {
    int t = step < k ? step : (int)s.draw(k), f = fills[s.draw(5)];
    c.show(" ", t, "/", f);
    g_fill = f;
    std::string r;
    try { r = calls[t].run(); } catch (pbt::Failure &e) { g_fill = 0; pbt::fail(pbt::cat(calls[t].name, " (step ", step, "): ", e.what())); }
    g_fill = 0;
    if (step < k) first[t] = r;
    else { ++repeats; CHECK(r == first[t], calls[t].name, " returned another result at step ", step, ": ", r, " instead of ", first[t]); }
  }
  c.nontrivial = k >= 2 && repeats >= 2;
}
#define H(...) [](Src &s, Ctx &c) { history(s, c, {__VA_ARGS__}); }
pbt::Reg r1("schedulers", "two or more different calls, repeated twice or more", 40000, 800000, H(0, 1, 2, 3));
pbt::Reg r2("graph-inspection", "two or more different calls, repeated twice or more", 60000, 1000000, H(4, 5, 8, 9));
pbt::Reg r3("transforms", "two or more different calls, repeated twice or more", 60000, 1000000, H(6));
pbt::Reg r4("symbolic", "two or more different calls, repeated twice or more", 20000, 300000, H(7, 8));
pbt::Reg r5("mixed", "two or more different calls, repeated twice or more", 60000, 1000000, H(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12));
pbt::Reg r6("aggregation-steps", "two or more different calls, repeated twice or more", 60000, 1000000, H(9, 10, 11));
pbt::Reg r7("structure", "two or more different calls, repeated twice or more", 60000, 1000000, H(12, 9));
pbt::Reg r8("files", "two or more different calls, repeated twice or more", 10000, 200000, H(13, 6));
}

// the same on large cases
static pbt::Big big0("schedulers", 500, 1500, 30000);
static pbt::Big big1("graph-inspection", 500, 1500, 30000);
static pbt::Big big2("transforms", 500, 1500, 30000);
static pbt::Big big3("symbolic", 500, 1500, 30000);
static pbt::Big big4("mixed", 500, 1500, 30000);
static pbt::Big big5("aggregation-steps", 500, 1500, 30000);
static pbt::Big big6("structure", 500, 1500, 30000);
static pbt::Big big7("files", 500, 1500, 30000);
// and on more nodes, edges or levels than 16 bits can count
static pbt::Big huge0("schedulers", 70000, 8, 160);
static pbt::Big huge1("graph-inspection", 70000, 16, 320);
