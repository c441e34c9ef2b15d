// Generators (decoders of choice sequences) and reference oracles.
#pragma once
#include "pbt.h"
#include <algorithm>
#include <climits>
#include <cmath>
#include <numeric>
#include <set>

namespace gen {
using pbt::Ctx;
using pbt::Src;
using VI = std::vector<int>;
using VD = std::vector<double>;

// ---------------------------------------------------------------- DAGs
// Lower-triangular DAG on 0..n-1: out[u] = sorted list of v>u with u -> v.
struct Dag {
  int n = 0;
  std::vector<VI> out;
  std::string family;
  size_t edges() const { size_t k = 0; for (auto &o : out) k += o.size(); return k; }
  void norm() { for (auto &o : out) { std::sort(o.begin(), o.end()); o.erase(std::unique(o.begin(), o.end()), o.end()); } }
  std::string str() const {
    std::ostringstream o; o << "n=" << n << " edges={";
    bool f = true;
    for (int u = 0; u < n; ++u) for (int v : out[u]) { if (!f) o << " "; f = false; o << u << ">" << v; }
    o << "}"; return o.str();
  }
};

// A graph of more than `least` nodes in few wavefronts, made from a handful of choices.
inline Dag gen_large(Src &s, Ctx &c, int least, std::string &desc) {
  Dag d;
  int twice = s.chance(1, 8), h = s.range(2, 6), big = s.range(0, h - 1), hubs = s.range(0, 3), density = 4 - (int)s.weighted({5, 2, 2}), span = s.range(0, 2);
  d.n = (twice ? 2 * least : least) + 2000 + s.range(0, least / 10);
  uint64_t seed = s.draw(1 << 20), x = seed * 0x9e3779b97f4a7c15ull + 1;
  desc = pbt::cat("n=", d.n, " layers=", h, " widest=", big, " hubs=", hubs, " density=", density, " span=", span, " seed=", seed);
  auto rnd = [&](uint64_t k) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return k ? (int)((x >> 11) % k) : 0; };
  d.out.assign(d.n, {}); d.family = "large";
  // layers of nodes with consecutive numbers, one of them with nearly all nodes
  VI cut(1, 0);
  int small = 1 + rnd(1900 / h);
  for (int l = 0; l < h; ++l) cut.push_back(cut[l] + (l == big ? d.n - small * (h - 1) : small));
  for (int l = 1; l < h; ++l) {
    int w = cut[l] - cut[l - 1];
    for (int v = cut[l]; v < cut[l + 1]; ++v) {   // most nodes depend on the layer before
      if (rnd(4) < density) d.out[cut[l - 1] + (span == 0 ? (int)((int64_t)(v - cut[l]) * w / (cut[l + 1] - cut[l])) : rnd(w))].push_back(v);
      if (span == 2 && rnd(50) == 0) d.out[rnd(v)].push_back(v);
      if (hubs && v + hubs < d.n && rnd(1000) == 0) d.out[v].push_back(d.n - 1 - rnd(hubs));
    }
  }
  d.norm();
  return d;
}

// Number of patterns enumerated exhaustively: every lower-triangular pattern with n<=5.
inline int64_t small_dag_count() { return 1 + 2 + 8 + 64 + 1024; }
// Forced choices that make gen_dag() produce the i-th small pattern.
inline std::vector<uint64_t> small_dag_prefix(int64_t i) {
  if (i >= small_dag_count()) return {};
  int n = 1; int64_t c = 1;
  while (i >= c) { i -= c; ++n; c = (int64_t)1 << (n * (n - 1) / 2); }
  std::vector<uint64_t> p{0, (uint64_t)(n - 1)};
  for (int b = 0; b < n * (n - 1) / 2; ++b) p.push_back((i >> b) & 1);
  return p;
}

// Large cases: anything up to the limit, often next to a power of two.
inline int gen_big(Src &s, int limit) {
  if (s.chance(1, 3)) { int b = 64; while (2 * b < limit && s.flip()) b *= 2; return std::max(1, std::min(limit, b - 2 + s.range(0, 4))); }
  return s.range(std::min(limit, 50), limit);
}
// Size drawn by a check itself; upper bound of a tuning parameter
inline int sz_of(Src &s, int lo, int hi) { return pbt::big_mode() ? std::max(lo, gen_big(s, pbt::big_mode())) : s.range(lo, hi); }
inline int up(int hi) { return pbt::big_mode() ? 6 * hi : hi; }
// a tuning parameter: in large cases six times as large, or next to a power of two
inline int gen_par(Src &s, int lo, int hi) {
  static const std::vector<int> edge{16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 512, 1000};
  if (pbt::big_mode() && s.chance(1, 4)) return s.pick(edge);
  return s.range(lo, up(hi));
}
inline int gen_size(Src &s, int maxn) {
  if (pbt::big_mode()) return gen_big(s, pbt::big_mode());
  int w = (int)s.weighted({40, 35, 18, 7});
  int hi = w == 0 ? 8 : w == 1 ? 20 : w == 2 ? 60 : maxn;
  return s.range(1, std::min(hi, maxn));
}

// Huge cases (limits of 70000 and more): more nodes, degrees, edges or levels than 16
// bits can count. An odd limit allows deep graphs.
inline bool huge() { return pbt::big_mode() >= 70000; }
inline int huge_size(Src &s) { return s.chance(1, 8) ? 65534 + s.range(0, 4) : 65600 + s.range(0, 1500); }
struct Lcg { uint64_t h; int operator()(int m) { h = h * 6364136223846793005ull + 1442695040888963407ull; return (int)((h >> 33) % (uint64_t)m); } };
inline Dag gen_huge(Src &s, Ctx &c) {
  Dag d;
  int fam = s.range(0, pbt::big_mode() % 2 ? 6 : 4), hubs = s.range(1, 3), k = s.range(1, 6);
  static const char *nm[] = {"many to one", "one to many", "lone pairs", "layers", "shallow forest", "chain", "deep forest"};
  d.n = huge_size(s); Lcg r{s.draw(1 << 20)};
  int n = d.n;
  d.out.assign(n, {}); d.family = std::string("huge ") + nm[fam];
  auto add = [&](int u, int v) { if (u < v) d.out[u].push_back(v); };
  for (int u = 0; u < n; ++u) switch (fam) {
  case 0: for (int h = 0; h < hubs; ++h) if (r(8000)) add(u, n - 1 - h); break;
  case 1: if (u < hubs) for (int v = u + 1; v < n; ++v) if (r(8000)) add(u, v); break;
  case 2: if (u % 3 == 0 && u + 1 < n) add(u, u + 1); if (r(50) == 0) add(u, u + 1 + r(n)) ; break;
  case 3: { int w = n / (k + 1); for (int t = 0; t < hubs; ++t) { int v = (u / w + 1) * w + r(w); if (v < n) add(u, v); } break; }
  case 4: { int v = u + 1 + (n - 1 - u) / 2 + r(3); if (v < n && r(20)) add(u, v); break; }
  case 5: if (u + 1 < n && r(5000)) add(u, u + 1); if (r(20) == 0) add(u, std::min(n - 1, u + 1 + r(9))); break;
  default: if (u + 1 < n && r(500)) add(u, std::min(n - 1, u + 1 + r(k)));
  }
  for (auto &o : d.out) o.erase(std::remove_if(o.begin(), o.end(), [&](int v) { return v >= n; }), o.end());
  d.norm();
  c.label("dag:" + d.family);
  return d;
}
// Edges u<v over n nodes by family
inline Dag gen_dag(Src &s, Ctx &c, int maxn = 120) {
  if (huge()) return gen_huge(s, c);
  Dag d;
  static const char *names[] = {"bits", "sparse", "chain+", "forest", "layered", "band", "blocks", "star", "clash", "grid", "dense", "diamonds", "mix"};
  int fam = (int)s.weighted({10, 14, 6, 8, 14, 6, 8, 6, 16, 5, 3, 6, 8});
  d.family = names[fam];
  // keep family 0 usable for exhaustive prefixes: weight draw value 0..9 -> "bits"
  auto add = [&](int u, int v) { if (u == v) return; if (u > v) std::swap(u, v); d.out[u].push_back(v); };
  const int big = pbt::big_mode();
  auto sz = [&](int mx) { d.n = gen_size(s, mx); d.out.assign(d.n, {}); };
  bool relabel = false;
  switch (fam) {
  case 0: {
    if (big) { // short runs and lone nodes
      sz(maxn);
      for (int u = 0; u + 1 < d.n; ++u) if (s.chance(1, 3)) add(u, s.range(u + 1, std::min(d.n - 1, u + 3)));
      break;
    }
    d.n = s.range(1, 7); d.out.assign(d.n, {});
    for (int u = 0; u < d.n; ++u) for (int v = u + 1; v < d.n; ++v) if (s.flip()) add(u, v);
    break;
  }
  case 1: {
    sz(maxn);
    int m = s.range(0, d.n * s.range(1, 4));
    if (d.n > 1) for (int k = 0; k < m; ++k) { int u = s.range(0, d.n - 2); add(u, s.range(u + 1, d.n - 1)); }
    break;
  }
  case 2: {
    sz(maxn);
    for (int u = 0; u + 1 < d.n; ++u) if (!s.chance(1, 10)) add(u, u + 1);
    int m = s.range(0, 4);
    if (d.n > 1) for (int k = 0; k < m; ++k) { int u = s.range(0, d.n - 2); add(u, s.range(u + 1, d.n - 1)); }
    break;
  }
  case 3: {
    sz(maxn);
    int win = s.range(1, std::max(1, d.n));
    for (int u = 0; u + 1 < d.n; ++u) if (!s.chance(1, 12)) add(u, s.range(u + 1, std::min(d.n - 1, u + win)));
    break;
  }
  case 4: { // layered, random widths, optionally fully relabelled
    sz(maxn);
    int L = s.range(1, std::max(1, std::min(d.n, big ? 120 : 12)));
    VI lev(d.n);
    for (int u = 0; u < d.n; ++u) lev[u] = (int)((int64_t)u * L / d.n);
    int deg = s.range(1, big ? 8 : 3);
    for (int v = 0; v < d.n; ++v) {
      if (lev[v] == 0) continue;
      int lo = 0, hi = 0;
      for (int u = 0; u < d.n; ++u) { if (lev[u] < lev[v] - 1) lo = u + 1; if (lev[u] < lev[v]) hi = u; }
      int k = s.range(0, deg);
      for (int t = 0; t < k; ++t) add(s.range(s.chance(1, 6) ? 0 : lo, hi), v);
    }
    relabel = s.flip();
    break;
  }
  case 5: {
    sz(maxn);
    int b = s.range(1, big ? 40 : 5);
    int keep = s.range(1, 4);
    for (int u = 0; u < d.n; ++u) for (int v = u + 1; v < d.n && v <= u + b; ++v) if (keep == 4 || s.chance(keep, 4)) add(u, v);
    break;
  }
  case 6: { // disconnected dense-ish blocks
    sz(maxn);
    int b = s.range(1, big ? 80 : 8);
    for (int u = 0; u < d.n; ++u) for (int v = u + 1; v < d.n && v / b == u / b; ++v) if (!s.chance(1, 3)) add(u, v);
    relabel = s.flip();
    break;
  }
  case 7: { // stars: several sources into one sink / one source to all
    sz(maxn);
    bool in = s.flip();
    int hubs = s.range(1, 3);
    for (int u = 0; u < d.n; ++u) for (int h = 0; h < hubs; ++h) {
      int hub = in ? d.n - 1 - h : h;
      if (hub >= 0 && hub < d.n && hub != u && !s.chance(1, 8)) { if (in ? u < hub : u > hub) add(u, hub); }
    }
    break;
  }
  case 8: { // many components that clash late, in varying order and multiplicity
    sz(std::min(maxn, 48)); // the limit does not hold for large cases
    int src = s.range(1, std::max(1, d.n / 2));
    for (int v = src; v < d.n; ++v) {
      int k = s.range(1, 4);
      for (int t = 0; t < k; ++t) add(s.range(0, s.chance(1, 4) ? v - 1 : src - 1), v);
    }
    relabel = s.chance(1, 3);
    break;
  }
  case 9: {
    int a = s.range(1, 9), b = s.range(1, 9);
    if (big) { b = s.range(1, std::max(1, big / 2)); a = std::max(1, big / b); }
    d.n = a * b; d.out.assign(d.n, {});
    for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) { if (i + 1 < a) add(i * b + j, (i + 1) * b + j); if (j + 1 < b) add(i * b + j, i * b + j + 1); }
    relabel = s.flip();
    break;
  }
  case 10: {
    d.n = s.range(1, big ? std::min(big, 140) : 24); d.out.assign(d.n, {});
    for (int u = 0; u < d.n; ++u) for (int v = u + 1; v < d.n; ++v) if (!s.chance(1, 20)) add(u, v);
    break;
  }
  case 11: { // chain of diamonds with shortcuts (cliques, redundant edges)
    sz(maxn);
    int k = s.range(2, big ? 40 : 5);
    for (int b = 0; b < d.n; b += k) for (int u = b; u < std::min(d.n, b + k); ++u) for (int v = u + 1; v < std::min(d.n, b + k + 1); ++v) if (!s.chance(1, 7)) add(u, v);
    int m = s.range(0, 3);
    if (d.n > 1) for (int t = 0; t < m; ++t) { int u = s.range(0, d.n - 2); add(u, s.range(u + 1, d.n - 1)); }
    break;
  }
  default: { // forest plus extra edges
    sz(maxn);
    int win = big ? s.range(1, 100) : 6;
    for (int u = 0; u + 1 < d.n; ++u) if (!s.chance(1, 6)) add(u, s.range(u + 1, std::min(d.n - 1, u + win)));
    int m = s.range(0, d.n);
    if (d.n > 1) for (int t = 0; t < m; ++t) { int u = s.range(0, d.n - 2); add(u, s.range(u + 1, d.n - 1)); }
    relabel = s.flip();
  }
  }
  d.norm();
  if (relabel && d.n > 2) { // random linear extension keeps it lower triangular
    VI indeg(d.n, 0), ready, lab(d.n);
    for (auto &o : d.out) for (int v : o) indeg[v]++;
    for (int u = 0; u < d.n; ++u) if (!indeg[u]) ready.push_back(u);
    int t = 0;
    while (!ready.empty()) {
      size_t k = s.draw(ready.size());
      int u = ready[k]; ready.erase(ready.begin() + k);
      lab[u] = t++;
      for (int v : d.out[u]) if (--indeg[v] == 0) ready.push_back(v);
    }
    Dag e; e.n = d.n; e.out.assign(d.n, {}); e.family = d.family;
    for (int u = 0; u < d.n; ++u) for (int v : d.out[u]) e.out[lab[u]].push_back(lab[v]);
    e.norm(); d = e;
  }
  c.label("dag:" + d.family);
  if (d.n == 1) c.label("n=1");
  else if (d.n <= 8) c.label("n<=8");
  else if (d.n <= 60) c.label("n<=60");
  else if (d.n <= 250) c.label("n>60");
  else c.label("n>250");
  return d;
}

// CSC arrays, diagonal first, rows sorted
inline void to_csc(const Dag &d, VI &p, VI &i) {
  p.assign(d.n + 1, 0); i.clear();
  for (int u = 0; u < d.n; ++u) {
    i.push_back(u);
    for (int v : d.out[u]) i.push_back(v);
    p[u + 1] = (int)i.size();
  }
  i.shrink_to_fit();
}
// CSR arrays, diagonal last, columns sorted
inline void to_csr(const Dag &d, VI &p, VI &i) {
  std::vector<VI> in(d.n);
  for (int u = 0; u < d.n; ++u) for (int v : d.out[u]) in[v].push_back(u);
  p.assign(d.n + 1, 0); i.clear();
  for (int v = 0; v < d.n; ++v) {
    for (int u : in[v]) i.push_back(u);
    i.push_back(v);
    p[v + 1] = (int)i.size();
  }
  i.shrink_to_fit();
}

// ---------------------------------------------------------------- forests
// parent[i] > i or -1
inline VI gen_forest(Src &s, Ctx &c, int maxn = 150) {
  if (huge()) {
    int kind = s.range(0, pbt::big_mode() % 2 ? 4 : 2), n = huge_size(s), k = s.range(1, 6); Lcg r{s.draw(1 << 20)};
    static const char *nm[] = {"huge star", "huge binary", "huge roots", "huge chain", "huge window"};
    c.label(std::string("forest:") + nm[kind]);
    VI p(n, -1);
    for (int i = 0; i + 1 < n; ++i) switch (kind) {
    case 0: p[i] = r(4000) ? n - 1 : i + 1; break;
    case 1: p[i] = std::min(n - 1, i + 1 + (n - 1 - i) / 2 + r(2)); break;
    case 2: p[i] = r(3) ? -1 : i + 1 + r(n - 1 - i); break;
    case 3: p[i] = r(5000) ? i + 1 : -1; break;
    default: p[i] = r(2000) ? std::min(n - 1, i + 1 + r(k)) : -1;
    }
    return p;
  }
  int fam = (int)s.weighted({12, 10, 10, 12, 12, 8, 8});
  static const char *names[] = {"small", "chain", "star", "window", "binary", "random", "roots"};
  c.label(std::string("forest:") + names[fam]);
  int n = fam == 0 && !pbt::big_mode() ? s.range(1, 7) : gen_size(s, maxn);
  VI p(n, -1);
  for (int i = 0; i + 1 < n; ++i) {
    switch (fam) {
    case 0: { int k = s.range(0, n - 1 - i); p[i] = k == 0 ? -1 : i + k; break; }
    case 1: p[i] = s.chance(1, 15) ? -1 : i + 1; break;
    case 2: p[i] = s.chance(1, 8) ? s.range(i + 1, n - 1) : n - 1; break;
    case 3: p[i] = s.chance(1, 20) ? -1 : s.range(i + 1, std::min(n - 1, i + 4)); break;
    case 4: p[i] = std::min(n - 1, i + 1 + (n - 1 - i) / 2 + s.range(0, 1)); break;
    case 5: p[i] = s.chance(1, 25) ? -1 : s.range(i + 1, n - 1); break;
    default: p[i] = s.chance(1, 3) ? s.range(i + 1, n - 1) : -1;
    }
  }
  if (n == 1) c.label("n=1"); else if (n <= 8) c.label("n<=8"); else if (n <= 250) c.label("n>8"); else c.label("n>250");
  return p;
}
// every forest with n<=6: choices for gen_forest
inline int64_t small_forest_count() { int64_t t = 0, f = 1; for (int n = 1; n <= 6; ++n) { f = 1; for (int k = 2; k <= n; ++k) f *= k; t += f; } return t; }
inline std::vector<uint64_t> small_forest_prefix(int64_t i) {
  if (i >= small_forest_count()) return {};
  int n = 1; int64_t f = 1;
  while (i >= f) { i -= f; ++n; f *= n; }
  std::vector<uint64_t> p{0, (uint64_t)(n - 1)};
  for (int u = 0; u + 1 < n; ++u) { int b = n - u; p.push_back(i % b); i /= b; }
  return p;
}

// ---------------------------------------------------------------- costs
inline VD gen_cost(Src &s, Ctx &c, int n) {
  int k = (int)s.weighted({6, 6, 4, 4, 1});
  VD w(n, 1.0);
  if (k == 1) for (auto &x : w) x = s.range(1, 9);
  else if (k == 2) for (auto &x : w) x = s.chance(1, 8) ? s.range(50, 1000) : s.range(1, 3);
  else if (k == 3) { int b = s.range(1, 100); for (auto &x : w) x = b; }
  else if (k == 4) { double b = s.flip() ? 1e9 : huge() ? 1e9 : pbt::big_mode() ? 4e10 : 4e11; for (auto &x : w) x = b * s.range(1, 9) + s.range(0, 3); }
  static const char *nm[] = {"cost:ones", "cost:small", "cost:skewed", "cost:const", "cost:huge"};
  c.label(nm[k]);
  return w;
}

// costs for the LBC variants, which take any non-negative cost: zeros and fractions too
inline VD gen_cost_any(Src &s, Ctx &c, int n) {
  int k = (int)s.weighted({5, 3, 1, 2, 1});
  if (k == 0) return gen_cost(s, c, n);
  VD w(n, 0.0);
  if (k == 1) for (auto &x : w) x = s.range(0, 3);
  else if (k == 3) for (auto &x : w) x = s.range(0, 40) / 8.0;
  else if (k == 4) { double b = s.flip() ? 1e9 : huge() ? 1e9 : pbt::big_mode() ? 4e10 : 4e11; for (auto &x : w) x = b * s.range(0, 9) + s.range(0, 3); }
  static const char *nm[] = {"", "cost:with-zeros", "cost:all-zero", "cost:fractions", "cost:huge"};
  c.label(nm[k]);
  return w;
}

// nonzero values that keep triangular solves exactly representable-ish
inline double gen_val(Src &s) {
  static const double t[] = {1, -1, 2, 0.5, -0.5, 3, 0.25, -2};
  return t[s.draw(8)];
}
// arbitrary finite double including extremes
inline double gen_double(Src &s) {
  switch (s.weighted({4, 3, 3, 2, 1, 1})) {
  case 0: return s.range(-9, 9);
  case 1: return (double)s.range(-1000000, 1000000) / 997.0;
  case 2: return std::ldexp((double)(int64_t)(s.draw(1ull << 53)) * (s.flip() ? -1 : 1), s.range(-60, 60) - 53);
  case 3: return std::ldexp((double)(int64_t)(s.draw(1ull << 53)), s.range(-1000, 1000) - 53);
  case 4: return 1e300;
  default: return 5e-324 * (double)s.range(1, 100);
  }
}

// ---------------------------------------------------------------- oracles
inline VI levels_of(const Dag &d) { // longest-path level
  VI l(d.n, 0);
  for (int u = 0; u < d.n; ++u) for (int v : d.out[u]) l[v] = std::max(l[v], l[u] + 1);
  return l;
}
inline std::vector<std::vector<char>> reach_of(const Dag &d) {
  std::vector<std::vector<char>> r(d.n, std::vector<char>(d.n, 0));
  for (int u = d.n - 1; u >= 0; --u) for (int v : d.out[u]) { r[u][v] = 1; for (int w = v + 1; w < d.n; ++w) if (r[v][w]) r[u][w] = 1; }
  return r;
}

struct Sched { VI lev, part, pos; int nlev = 0, nparts = 0; std::vector<VI> parts; VI part_lev; };

// Well-formedness + completeness. Arrays given by pointer plus the sizes that
// the consumer may read.
inline Sched read_sched(int n, int nlev, const int *lp, const int *pp, const int *np) {
  Sched S;
  CHECK(nlev >= 1 && nlev <= n, "number of coarsened levels ", nlev, " outside 1..", n);
  CHECK(lp[0] == 0, "level pointer starts at ", lp[0]);
  for (int l = 0; l < nlev; ++l) CHECK(lp[l] <= lp[l + 1], "level pointer decreases at level ", l, ": ", lp[l], " -> ", lp[l + 1]);
  int np_ = lp[nlev];
  CHECK(np_ >= 1, "no partitions");
  S.nlev = nlev; S.nparts = np_;
  S.lev.assign(n, -1); S.part.assign(n, -1); S.pos.assign(n, -1);
  CHECK(pp[0] == 0, "partition pointer starts at ", pp[0]);
  for (int k = 0; k < np_; ++k) {
    CHECK(pp[k] <= pp[k + 1], "partition pointer decreases at ", k, ": ", pp[k], " -> ", pp[k + 1]);
    CHECK(pp[k + 1] <= n, "partition pointer ", pp[k + 1], " exceeds the number of nodes ", n);
  }
  CHECK(pp[np_] == n, "partitions cover ", pp[np_], " of ", n, " nodes");
  S.parts.resize(np_); S.part_lev.assign(np_, 0);
  for (int l = 0; l < nlev; ++l) for (int k = lp[l]; k < lp[l + 1]; ++k) {
    S.part_lev[k] = l;
    for (int j = pp[k]; j < pp[k + 1]; ++j) {
      int u = np[j];
      CHECK(u >= 0 && u < n, "node ", u, " outside 0..", n - 1);
      CHECK(S.lev[u] < 0, "node ", u, " scheduled twice");
      S.lev[u] = l; S.part[u] = k; S.pos[u] = j; S.parts[k].push_back(u);
    }
  }
  for (int u = 0; u < n; ++u) CHECK(S.lev[u] >= 0, "node ", u, " is not scheduled");
  return S;
}
inline void check_edge(const Sched &S, int u, int v) {
  if (S.lev[u] < S.lev[v]) return;
  CHECK(S.lev[u] == S.lev[v], "dependence ", u, "->", v, " goes from level ", S.lev[u], " back to level ", S.lev[v]);
  CHECK(S.part[u] == S.part[v], "dependence ", u, "->", v, " crosses partitions ", S.part[u], " and ", S.part[v], " of level ", S.lev[u]);
  CHECK(S.pos[u] < S.pos[v], "dependence ", u, "->", v, " is executed in the wrong order inside partition ", S.part[u]);
}
inline void check_sched_dag(const Sched &S, const Dag &d) {
  for (int u = 0; u < d.n; ++u) for (int v : d.out[u]) check_edge(S, u, v);
}
inline void sched_labels(Ctx &c, const Sched &S, const Dag &d) {
  if (S.nlev > 1) c.label("levels>1");
  int mx = 0;
  VI cnt(S.nlev, 0);
  for (int k = 0; k < S.nparts; ++k) if (!S.parts[k].empty()) mx = std::max(mx, ++cnt[S.part_lev[k]]);
  if (mx > 1) c.label("parallel-level");
  bool merged = false;
  for (int u = 0; u < d.n && !merged; ++u) for (int v : d.out[u]) if (S.part[u] == S.part[v]) { merged = true; break; }
  if (merged) c.label("dependence-inside-partition");
  if (d.edges() > 0 && d.n >= 3) c.nontrivial = true;
}
inline std::string show_sched(int nlev, const int *lp, const int *pp, const int *np) {
  std::ostringstream o;
  for (int l = 0; l < nlev; ++l) { o << "{"; for (int k = lp[l]; k < lp[l + 1]; ++k) { o << "("; for (int j = pp[k]; j < pp[k + 1]; ++j) o << (j > pp[k] ? "," : "") << np[j]; o << ")"; } o << "}"; }
  return o.str();
}

} // namespace gen
