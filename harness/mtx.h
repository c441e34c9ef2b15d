// Matrix Market text: generator, strict reference parser and file helpers
#pragma once
#include "mat.h"
#include "aggregation/sparse_io.h"
#include <fstream>
#include <unistd.h>

namespace gen {
inline std::string tmp_path(const char *tag) { return pbt::scratch_dir() + "/" + tag + std::to_string(getpid()); }
inline void put(const std::string &path, const std::string &text) { std::ofstream f(path, std::ios::binary); f << text; }
inline std::string get(const std::string &path) { std::ifstream f(path, std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
struct Quiet { // silence the readers' diagnostics
  std::ostringstream sink; std::streambuf *old;
  Quiet() : old(std::cerr.rdbuf(sink.rdbuf())) {}
  ~Quiet() { std::cerr.rdbuf(old); }
};
inline std::string num(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }
inline std::string casing(Src &s, std::string w) {
  int k = (int)s.weighted({4, 1, 1, 1});
  if (k == 1) for (auto &ch : w) ch = toupper(ch);
  if (k == 2) w[0] = toupper(w[0]);
  if (k == 3) for (auto &ch : w) if (s.flip()) ch = toupper(ch);
  return w;
}
// text of A in file order given by the generator
inline std::string gen_mtx_text(Src &s, Ctx &c, const Mat &A, bool integer) {
  std::ostringstream o;
  o << "%%MatrixMarket " << casing(s, "matrix") << " " << casing(s, "coordinate") << " " << casing(s, A.pattern ? "pattern" : integer ? "integer" : "real") << " " << casing(s, A.stype ? "symmetric" : "general") << "\n";
  int k = (int)s.weighted({5, 2, 2});
  for (int t = 0; t < k; ++t) o << "%" << s.pick(std::vector<std::string>{"", " a comment", " 3 3 3", "%%", "-----", "\t1 1"}) << "\n";
  if (k) c.label("comments");
  const char *sep = s.chance(1, 4) ? "  " : s.chance(1, 5) ? "\t" : " ";
  o << A.m << sep << A.n << sep << A.nnz() << "\n";
  struct E { int r, c; double v; };
  std::vector<E> es;
  for (int j = 0; j < A.n; ++j) for (auto &e : A.col[j]) es.push_back({e.first, j, e.second});
  int ord = (int)s.weighted({3, 5, 2});
  if (ord == 1) { gen_shuffle(s, es); c.label("shuffled"); }
  if (ord == 2) { std::stable_sort(es.begin(), es.end(), [](const E &a, const E &b) { return a.r < b.r; }); c.label("row-major"); }
  bool lead = s.chance(1, 4), crlf = false;
  for (auto &e : es) {
    if (lead) o << "  ";
    o << e.r + 1 << sep << e.c + 1;
    if (!A.pattern) { o << sep; if (integer) o << (long long)e.v; else o << num(e.v); }
    o << (crlf ? "\r\n" : "\n");
  }
  std::string t = o.str();
  if (!es.empty() && s.chance(1, 6)) t.pop_back();   // no newline at the end
  return t;
}
inline std::string esc(const std::string &t) {
  if (t.size() > 200000) return pbt::cat(esc(t.substr(0, 300)), "... (", t.size(), " bytes)");
  std::ostringstream o; o << '"';
  for (unsigned char ch : t) { if (ch == '\n') o << "\\n"; else if (ch == '"' || ch == '\\') o << '\\' << ch; else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", ch); o << b; } else o << ch; }
  o << '"'; return o.str();
}
} // namespace gen
