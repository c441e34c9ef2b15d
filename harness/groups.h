// Arbitrary valid groupings and schedules of a DAG.
#pragma once
#include "gen.h"
#include <queue>
namespace gen {
// random linear extension (position -> node)
inline VI gen_extension(Src &s, const Dag &d) {
  VI in(d.n, 0), ready, o;
  for (auto &x : d.out) for (int v : x) in[v]++;
  for (int u = 0; u < d.n; ++u) if (!in[u]) ready.push_back(u);
  int how = s.range(0, 2);   // 0: smallest first, 1: random, 2: last found first
  if (how == 0) {
    std::priority_queue<int, VI, std::greater<int>> q(std::greater<int>(), ready);
    while (!q.empty()) { int u = q.top(); q.pop(); o.push_back(u); for (int v : d.out[u]) if (--in[v] == 0) q.push(v); }
    return o;
  }
  while (!ready.empty()) {
    size_t k = how == 1 ? s.draw(ready.size()) : ready.size() - 1;
    int u = ready[k]; ready.erase(ready.begin() + k);
    o.push_back(u);
    for (int v : d.out[u]) if (--in[v] == 0) ready.push_back(v);
  }
  return o;
}
struct Grouping { int ng = 0; VI ptr, set, inv; bool topo = true; std::string str() const { return pbt::cat("group_ptr=", pbt::vec(ptr), " group_set=", pbt::vec(set)); } };
// Every grouping with acyclic quotient is a cut of some linear extension.
inline Grouping gen_grouping(Src &s, Ctx &c, const Dag &d, bool may_renumber, bool may_shuffle_members) {
  VI o = gen_extension(s, d);
  int w = s.range(1, 6);
  std::vector<VI> g;
  for (int k = 0; k < d.n; ++k) { if (g.empty() || s.range(0, w) == 0) g.push_back({}); g.back().push_back(o[k]); }
  Grouping G;
  if (may_renumber && s.flip() && g.size() > 1) {
    for (size_t k = g.size() - 1; k > 0; --k) std::swap(g[k], g[s.draw(k + 1)]);
    G.topo = false; c.label("groups renumbered");
  }
  if (may_shuffle_members && s.flip()) for (auto &x : g) if (x.size() > 1) for (size_t k = x.size() - 1; k > 0; --k) std::swap(x[k], x[s.draw(k + 1)]);
  G.ng = (int)g.size(); G.inv.assign(d.n, 0); G.ptr.push_back(0);
  for (int k = 0; k < G.ng; ++k) { for (int u : g[k]) { G.set.push_back(u); G.inv[u] = k; } G.ptr.push_back((int)G.set.size()); }
  if (G.ng < d.n) c.label("grouped");
  return G;
}
inline Dag quotient(const Dag &d, const Grouping &G) {
  Dag q; q.n = G.ng; q.out.assign(G.ng, {}); q.family = "quotient";
  for (int u = 0; u < d.n; ++u) for (int v : d.out[u]) if (G.inv[u] != G.inv[v]) q.out[G.inv[u]].push_back(G.inv[v]);
  q.norm();
  return q;
}
struct Schedule { int nlev = 0; VI lp, pp, np; std::string str() const { return show_sched(nlev, lp.data(), pp.data(), np.data()); } };
// Any valid schedule: levels increase along dependences (or stay equal inside one partition).
// order: 0 index order inside a partition (valid for lower-triangular DAGs), 1 random linear extension, 2 arbitrary
inline Schedule gen_schedule(Src &s, Ctx &c, const Dag &d, int order, bool empty_parts = true) {
  VI o = gen_extension(s, d), lev(d.n, 0), pos(d.n), comp(d.n);
  for (int k = 0; k < d.n; ++k) pos[o[k]] = k;
  int stay = s.range(0, 3);
  for (int k = 0; k < d.n; ++k) { int u = o[k]; for (int v : d.out[u]) lev[v] = std::max(lev[v], lev[u] + (s.range(0, stay) == 0 ? 1 : 0)); }
  VI used(d.n + 1, -1); int nl = 0;
  { VI l = lev; std::sort(l.begin(), l.end()); l.erase(std::unique(l.begin(), l.end()), l.end()); for (int x : l) used[x] = nl++; }
  for (auto &x : lev) x = used[x];
  std::iota(comp.begin(), comp.end(), 0);
  auto find = [&](int x) { while (comp[x] != x) x = comp[x] = comp[comp[x]]; return x; };
  for (int u = 0; u < d.n; ++u) for (int v : d.out[u]) if (lev[u] == lev[v]) comp[find(u)] = find(v);
  Schedule S; S.nlev = nl; S.lp.push_back(0); S.pp.push_back(0);
  std::vector<VI> at(nl);
  for (int k = 0; k < d.n; ++k) at[lev[o[k]]].push_back(o[k]);
  int per = s.range(0, 3);
  for (int l = 0; l < nl; ++l) {
    std::map<int, int> part; std::vector<VI> P;
    for (int u : at[l]) {
      int r = find(u);
      if (!part.count(r)) {
        int k = per && !P.empty() && s.range(0, per) ? (int)s.draw(P.size()) : (int)P.size();
        if (k == (int)P.size()) P.push_back({});
        part[r] = k;
      }
      P[part[r]].push_back(u);
    }
    if (empty_parts && s.chance(1, 6)) P.insert(P.begin() + s.draw(P.size() + 1), VI{});
    for (auto &p : P) {
      if (order == 0) std::sort(p.begin(), p.end());
      if (order == 2 && p.size() > 1) for (size_t k = p.size() - 1; k > 0; --k) std::swap(p[k], p[s.draw(k + 1)]);
      S.np.insert(S.np.end(), p.begin(), p.end()); S.pp.push_back((int)S.np.size());
    }
    S.lp.push_back((int)S.pp.size() - 1);
  }
  if (nl > 1) c.label("levels>1");
  return S;
}
} // namespace gen
