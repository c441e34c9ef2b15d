#pragma once
#include "gen.h"
namespace gen {
// Exactly solvable system: small integers off the diagonal, powers of two on it,
// so every partial sum is an exactly representable number and the result does
// not depend on the order of summation.
struct Sys {
  Dag d; VI cp, ci, rp, ri; VD cx, rx, x, b;
  std::string str() const { return pbt::cat(d.str(), " x=", pbt::vec(x)); }
};
inline Sys gen_sys(Src &s, Ctx &c, int maxn = 120) {
  Sys S; S.d = gen_dag(s, c, maxn);
  int n = S.d.n;
  to_csc(S.d, S.cp, S.ci); to_csr(S.d, S.rp, S.ri);
  std::map<std::pair<int, int>, double> v;
  uint64_t h = s.draw(1 << 20);
  auto rnd = [&](int m) { h = h * 6364136223846793005ull + 1442695040888963407ull; return (int)((h >> 33) % m); };
  static const double dg[] = {1, 2, -1, 0.5, 4, -2};
  for (int u = 0; u < n; ++u) { v[{u, u}] = dg[rnd(6)]; for (int w : S.d.out[u]) { int k = 1 + rnd(7); v[{w, u}] = rnd(2) ? k : -k; } }
  S.cx.resize(S.ci.size()); S.rx.resize(S.ri.size());
  for (int u = 0; u < n; ++u) for (int k = S.cp[u]; k < S.cp[u + 1]; ++k) S.cx[k] = v[{S.ci[k], u}];
  for (int u = 0; u < n; ++u) for (int k = S.rp[u]; k < S.rp[u + 1]; ++k) S.rx[k] = v[{u, S.ri[k]}];
  S.x.resize(n); S.b.assign(n, 0);
  for (auto &y : S.x) y = 1 + rnd(1000);
  for (int u = 0; u < n; ++u) for (int k = S.rp[u]; k < S.rp[u + 1]; ++k) S.b[u] += S.rx[k] * S.x[S.ri[k]];
  return S;
}
} // namespace gen
