// C09: sparsification removes only redundant dependences
#include "gen.h"
#include "aggregation/def.h"
#include "aggregation/hdagg.h"
using namespace gen;
using namespace pbt;

// supernodal patterns: runs of consecutive columns forming cliques with common rows below
static Dag gen_cliques(Src &s, Ctx &c) {
  Dag b = gen_dag(s, c, 20);
  VI st(b.n + 1, 0); int w = huge() ? 2 : s.range(1, up(6));
  Lcg q{huge() ? s.draw(1 << 20) : 0};
  for (int k = 0; k < b.n; ++k) st[k + 1] = st[k] + (huge() ? 1 + !q(20) : s.range(1, w));
  Dag d; d.n = st[b.n]; d.out.assign(d.n, {}); d.family = "cliques";
  int noise = s.range(0, 3);
  for (int k = 0; k < b.n; ++k) {
    VI below;
    for (int v : b.out[k]) for (int t = st[v]; t < st[v + 1]; ++t) if (huge() ? q(2) : s.flip()) below.push_back(t);
    for (int u = st[k]; u < st[k + 1]; ++u) {
      for (int v = u + 1; v < st[k + 1]; ++v) d.out[u].push_back(v);
      d.out[u].insert(d.out[u].end(), below.begin(), below.end());
    }
  }
  for (int t = 0; t < noise && d.n > 1; ++t) {
    int u = s.range(0, d.n - 2);
    if (s.flip() || d.out[u].empty()) d.out[u].push_back(s.range(u + 1, d.n - 1));
    else d.out[u].erase(d.out[u].begin() + s.draw(d.out[u].size()));
  }
  d.norm();
  c.label("cliques");
  return d;
}
static bool two_hop(const Dag &d, int u, int v) {
  for (int k : d.out[u]) if (k < v && std::binary_search(d.out[k].begin(), d.out[k].end(), v)) return true;
  return false;
}
static void sparsify(Src &s, Ctx &c, bool clique) {
  Dag d = s.weighted({3, 2}) == 0 ? gen_dag(s, c) : gen_cliques(s, c);
  int n = d.n;
  VI p, i; to_csc(d, p, i);
  c.show(d.str(), clique ? " cliques" : "");
  VI qp, qi;
  HDAGG::partialSparsification(n, (int)i.size(), p.data(), i.data(), qp, qi, clique);
  CHECK((int)qp.size() == n + 1 && qp[0] == 0 && qp[n] == (int)qi.size(), "malformed pointer array: ", vec(qp), " with ", qi.size(), " entries");
  Dag o; o.n = n; o.out.assign(n, {});
  for (int u = 0; u < n; ++u) {
    CHECK(qp[u] < qp[u + 1], "column ", u, " lost its diagonal entry");
    CHECK(qi[qp[u]] == u, "column ", u, " starts with ", qi[qp[u]]);
    for (int k = qp[u] + 1; k < qp[u + 1]; ++k) {
      CHECK(qi[k] > qi[k - 1], "column ", u, " is not sorted");
      CHECK(std::binary_search(d.out[u].begin(), d.out[u].end(), qi[k]), "edge ", u, "->", qi[k], " is not in the input");
      o.out[u].push_back(qi[k]);
    }
  }
  size_t removed = d.edges() - o.edges();
  if (removed) c.label("edges removed");
  std::vector<std::vector<char>> r; // in huge cases the edge by edge comparison below implies reachability
  if (!huge()) for (auto &x : reach_of(o)) r.emplace_back(x.begin(), x.end());
  if (!huge()) for (int u = 0; u < n; ++u) for (int v : d.out[u]) CHECK(r[u][v], "ordering ", u, "->", v, " is no longer implied");
  bool has_clique = false;
  for (int u = 0; u + 1 < n; ++u) if (d.out[u].size() == d.out[u + 1].size() + 1 && d.out[u][0] == u + 1 && std::equal(d.out[u + 1].begin(), d.out[u + 1].end(), d.out[u].begin() + 1)) has_clique = true;
  if (has_clique) c.label("has a clique");
  // with cliques, first every maximal run of columns that form a clique with the same rows below becomes a chain
  Dag t = d;
  if (clique) for (int a = 0, b; a < n; a = b) {
    for (b = a + 1; b < n; ++b) {
      VI x{a}; x.insert(x.end(), d.out[a].begin(), d.out[a].end());
      VI y{b}; y.insert(y.end(), d.out[b].begin(), d.out[b].end());
      if (x.size() != y.size() + (b - a) || !std::equal(y.begin(), y.end(), x.begin() + (b - a))) break;
      t.out[b - 1] = {b};
    }
  }
  for (int u = 0; u < n; ++u) for (int v : d.out[u]) {
    bool in = std::binary_search(t.out[u].begin(), t.out[u].end(), v), red = !in || two_hop(t, u, v), kept = std::binary_search(o.out[u].begin(), o.out[u].end(), v);
    CHECK(red != kept, "edge ", u, "->", v, !in ? " inside a clique is not part of its chain but kept" : red ? " is bypassed by a two-hop path but kept" : " is removed though no two-hop path bypasses it");
  }
  c.nontrivial = n >= 3 && removed > 0;
}
static const char *RULE = "graph with >=3 nodes from which at least one edge was removed";
static std::vector<uint64_t> pre(int64_t i) { auto v = small_dag_prefix(i); if (!v.empty()) v.insert(v.begin(), 0); return v; }
static Reg r1("plain", RULE, 350000, 5000000, [](Src &s, Ctx &c) { sparsify(s, c, false); }, pre);
static Reg r2("cliques", RULE, 400000, 6000000, [](Src &s, Ctx &c) { sparsify(s, c, true); }, pre);

// the same on large cases
static pbt::Big big0("plain", 400, 1500, 30000);
static pbt::Big big1("cliques", 400, 1500, 30000);
// and on more nodes, degrees and edges than 16 bits can count
static pbt::Big huge0("plain", 70001, 16, 320);
static pbt::Big huge1("cliques", 70001, 16, 320);
