// helpers for harnesses that go through the C interface with data in memory
#pragma once
#include "sym.h"
#include "sol/c_api.h"
#include <string>
#include <vector>
struct Table {      // dense, up to 8 rows of up to 3 columns; labels as given by the user
  double x[24], y[8]; int n, cols;
};
static inline void* loadTable(const Table& t, int passes, int batch = 2, int buf = 2) {
  void* it = sol_CreateDataIter(batch, buf);
  npy_intp dims[2] = {t.n, t.cols}, strides[2] = {(npy_intp)(t.cols * sizeof(double)), (npy_intp)sizeof(double)};
  REQ(sol_loadArray(it, (char*)t.x, (char*)t.y, dims, strides, passes) == 0, "loaded");
  return it;
}
static inline void quietIteration(void*, long long, long long, long long, double) {}
static inline bool numericText(const std::string& s) { if (s.empty()) return false; for (char c : s) if (!((c >= '0' && c <= '9') || c == '.' || c == '-' || c == '+' || c == 'e')) return false; return true; }
static inline std::vector<std::string> fileWords(const char* path) {
  static char buf[16384]; long n = sym_file_get(path, buf, sizeof buf);
  std::vector<std::string> r; std::string w;
  for (long i = 0; i < n; ++i) { char c = buf[i]; if (c == ' ' || c == '\n' || c == '\t' || c == ',') { if (!w.empty()) r.push_back(w); w.clear(); } else w.push_back(c); }
  if (!w.empty()) r.push_back(w);
  return r;
}
