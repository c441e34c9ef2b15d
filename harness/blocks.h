// Supernodal (blocked compressed column) structure over a block-level DAG.
#pragma once
#include "gen.h"
namespace gen {
struct Blk {
  Dag d;                       // block DAG
  int ncol = 0;
  VI blk2col, col2blk, li;
  std::vector<size_t> lip, lp; // per column
  std::string str() const { return d.str() + " blk2col=" + pbt::vec(blk2col); }
};
// Every column of a supernode shares the supernode's row list: its own columns
// first, then the sorted rows below.
inline Blk gen_blk(Src &s, Ctx &c, int maxn = 60) {
  Blk b;
  b.d = gen_dag(s, c, maxn);
  int nb = b.d.n, wmax = s.range(1, pbt::big_mode() ? 14 : 4);
  b.blk2col.assign(nb + 1, 0);
  for (int k = 0; k < nb; ++k) b.blk2col[k + 1] = b.blk2col[k] + s.range(1, wmax);
  b.ncol = b.blk2col[nb];
  b.col2blk.assign(b.ncol, 0);
  for (int k = 0; k < nb; ++k) for (int j = b.blk2col[k]; j < b.blk2col[k + 1]; ++j) b.col2blk[j] = k;
  b.lip.assign(b.ncol + 1, 0); b.lp.assign(b.ncol + 1, 0);
  size_t val = 0;
  for (int k = 0; k < nb; ++k) {
    size_t st = b.li.size();
    for (int j = b.blk2col[k]; j < b.blk2col[k + 1]; ++j) b.li.push_back(j);
    for (int v : b.d.out[k]) {
      int w = b.blk2col[v + 1] - b.blk2col[v];
      int mask = s.range(1, (1 << w) - 1);
      for (int t = 0; t < w; ++t) if (mask >> t & 1) b.li.push_back(b.blk2col[v] + t);
    }
    size_t rows = b.li.size() - st;
    for (int j = b.blk2col[k]; j < b.blk2col[k + 1]; ++j) { b.lip[j] = st; b.lp[j] = val; val += rows; }
  }
  b.lip[b.ncol] = b.li.size(); b.lp[b.ncol] = val;
  b.li.shrink_to_fit();
  if (wmax > 1) c.label("wide blocks");
  return b;
}
} // namespace gen
