// readers of data that already lies in memory: numpy arrays and scipy csr matrices
#include "sym.h"
#include "sol/c_api.h"
#include "sol/pario/data_reader.h"
#include "sol/pario/data_iter.h"
#include "sol/pario/numpy_reader.h"
#include "sol/pario/csr_matrix_reader.h"
#include <memory>
#include <string>
#include <cstring>
using namespace sol; using namespace sol::pario;
static const int MR = 4, MCc = 4;
static double X[64], Y[MR]; static int lab[MR];
static int idx[16], ptr[MR + 1]; static double feat[16];
static bool given;      // labels given
struct Row { int n; int idx[8]; double v[8]; } rows_[MR];
static void labels(int rows) { for (int i = 0; i < rows; ++i) { lab[i] = sym_pick("label", -2, 2); Y[i] = lab[i]; } }
static double value() { double v = sym_f64("x"); sym_assume(v >= -1000 && v <= 1000); return v; }
// rows x cols, rows lie pad doubles apart
static void denseData(int rows, int cols, int pad) {
  for (int i = 0; i < rows; ++i) {
    rows_[i].n = 0;
    for (int j = 0; j < pad; ++j) {
      double v = j < cols ? value() : 55;
      X[i * pad + j] = v;
      if (j < cols && sym_branch(v != 0)) { rows_[i].idx[rows_[i].n] = j + 1; rows_[i].v[rows_[i].n++] = v; }
    }
  }
}
static void sparseData(int rows, int per, int dim, int base) {
  int k = 0; ptr[0] = base;
  for (int i = 0; i < rows; ++i) {
    Row& r = rows_[i];
    r.n = sym_pick("features", 0, per);
    for (int j = 0; j < r.n; ++j) {
      r.idx[j] = sym_pick("index", 0, dim - 1); r.v[j] = value();
      for (int q = 0; q < j; ++q) sym_assume(r.idx[q] != r.idx[j] + 1);   // each column at most once
      idx[k] = r.idx[j]; feat[k++] = r.v[j];
      r.idx[j]++;
    }
    ptr[i + 1] = base + k;
    for (int a = 0; a < r.n; ++a) for (int b = a + 1; b < r.n; ++b) if (r.idx[b] < r.idx[a]) { int t = r.idx[a]; r.idx[a] = r.idx[b]; r.idx[b] = t; double u = r.v[a]; r.v[a] = r.v[b]; r.v[b] = u; }
  }
}
static void same(const DataPoint& d, int i) {
  const Row& r = rows_[i];
  if (given) REQ(d.label() == lab[i], "the label of the row");
  REQ((int)d.size() == r.n, "every non-zero entry is a feature");
  for (int j = 0; j < r.n && j < (int)d.size(); ++j) {
    REQ(d.index(j) == (index_t)r.idx[j], "features are numbered from one, in ascending order");
    sym_close(d.feature(j), r.v[j], "the value of the entry");
  }
}
static std::string thePath(int kind, int rows, int cols, int pad, double* y) {
  return kind == 0 ? NumpyReader::GeneratePath(X, y, rows, cols, pad * (int)sizeof(double)) : CsrMatrixReader::GeneratePath(idx, ptr, feat, y, rows);
}
// kind 0 numpy, 1 csr; rows; cols (csr: most features per row * 10 + columns) ; mode 0: reader, 1: through the C interface; flag 10: without labels; 100: row padding
// many rows of which a few entries are arbitrary
static double BX[4000], BY[1000]; static int bidx[4000], bptr[1001]; static double bfeat[4000];
static double* bcell(int rows, int cols, int i, int j) { return &BX[i * cols + j]; }
static void many(int kind, int rows, int cols, int api) {
  for (int i = 0; i < rows; ++i) { BY[i] = i % 3 - 1; for (int j = 0; j < cols; ++j) *bcell(rows, cols, i, j) = (i * 5 + j * 3) % 7 - 2; }
  int at[4] = {0, 127, 256, rows - 1};
  for (int k = 0; k < 4; ++k) { double v = value(); if (kind == 1) sym_assume(v > 0.5); *bcell(rows, cols, at[k], k % cols) = v; }
  int k = 0; bptr[0] = 0;
  for (int i = 0; i < rows; ++i) {
    for (int j = cols - 1; j >= 0; --j) { double v = *bcell(rows, cols, i, j); if (kind == 1 && sym_branch(v != 0)) { bidx[k] = j; bfeat[k++] = v; } }
    bptr[i + 1] = k;
  }
  auto check = [&](const DataPoint& d, int i) {
    REQ(d.label() == i % 3 - 1, "the label of the row");
    int n = 0;
    for (int j = 0; j < cols; ++j) {
      double v = *bcell(rows, cols, i, j);
      if (sym_branch(v == 0)) continue;
      REQ(n < (int)d.size() && d.index(n) == (index_t)(j + 1), "features are numbered from one, in ascending order");
      sym_close(d.feature(n), v, "the value of the entry"); ++n;
    }
    REQ(n == (int)d.size(), "every non-zero entry is a feature");
  };
  if (!api) {
    std::unique_ptr<DataReader> r(DataReader::Create(kind == 0 ? "numpy" : "csr_matrix"));
    REQ(r->Open(kind == 0 ? NumpyReader::GeneratePath(BX, BY, rows, cols, cols * (int)sizeof(double)) : CsrMatrixReader::GeneratePath(bidx, bptr, bfeat, BY, rows), "r") == Status_OK, "opened");
    DataPoint d;
    for (int pass = 0; pass < 2; ++pass) {
      for (int i = 0; i < rows; ++i) { REQ(r->Next(d) == Status_OK, "a row is delivered"); check(d, i); }
      REQ(r->Next(d) == Status_EndOfFile, "the end after the last row");
      r->Rewind();
    }
  } else {
    void* it = sol_CreateDataIter(256, 2);
    npy_intp dims[2] = {rows, cols}, strides[2] = {(npy_intp)(cols * sizeof(double)), (npy_intp)sizeof(double)};
    REQ((kind == 0 ? sol_loadArray(it, (char*)BX, (char*)BY, dims, strides, 2) : sol_loadCsrMatrix(it, (char*)bidx, (char*)bptr, (char*)bfeat, (char*)BY, rows, 2)) == 0, "loaded");
    MiniBatch* mb = nullptr; int n = 0;
    while ((mb = static_cast<DataIter*>(it)->Next(mb)) != nullptr) for (int q = 0; q < mb->size(); ++q, ++n) { REQ(n < 2 * rows, "not more than two passes"); check((*mb)[q], n % rows); }
    REQ(n == 2 * rows, "two passes");
    sol_ReleaseDataIter(&it);
  }
  sym_reach("done");
}
extern "C" void harness(int kind, int rows, int cols, int mode) {
  if (kind > 1) { many(kind - 2, rows, cols, mode); return; }
  int pad = kind == 0 ? cols + mode / 100 : 0;
  given = mode / 10 % 10 == 0;
  labels(rows);
  if (kind == 0) denseData(rows, cols, pad); else sparseData(rows, cols / 10, cols % 10, mode / 100);
  double* y = given ? Y : nullptr;
  if (mode % 10 == 0) {
    std::unique_ptr<DataReader> r(DataReader::Create(kind == 0 ? "numpy" : "csr_matrix"));
    REQ(r.get() != nullptr && r->Open(thePath(kind, rows, cols, pad, y), "r") == Status_OK, "opened");
    REQ(r->Good(), "ready to read");
    DataPoint d;
    for (int pass = 0; pass < 2; ++pass) {
      for (int i = 0; i < rows; ++i) { REQ(r->Next(d) == Status_OK, "a row is delivered"); same(d, i); }
      if (rows) REQ(r->Next(d) == Status_EndOfFile, "the end after the last row");
      else REQ(r->Next(d) != Status_OK, "no row, no example");
      r->Rewind();
    }
    r->Close();
  } else {
    void* it = sol_CreateDataIter(2, 2);
    npy_intp dims[2] = {rows, cols}, strides[2] = {(npy_intp)(pad * sizeof(double)), (npy_intp)sizeof(double)};
    int ret = kind == 0 ? sol_loadArray(it, (char*)X, (char*)y, dims, strides, 2) : sol_loadCsrMatrix(it, (char*)idx, (char*)ptr, (char*)feat, (char*)y, rows, 2);
    REQ(ret == 0, "loaded");
    MiniBatch* mb = nullptr; int n = 0;
    while ((mb = static_cast<DataIter*>(it)->Next(mb)) != nullptr) for (int k = 0; k < mb->size(); ++k, ++n) { REQ(n < 2 * rows, "not more than two passes"); same((*mb)[k], n % rows); }
    REQ(n == 2 * rows, "two passes");
    sol_ReleaseDataIter(&it);
    REQ(it == nullptr, "released");
  }
  sym_reach("done");
}
