// DataIter under every schedule of the reader threads
#include "sym.h"
#include "sol/pario/data_iter.h"
#include "sol/pario/data_writer.h"
#include <cstdio>
#include <cstring>
#include <memory>
#include <string>
using namespace sol; using namespace sol::pario;
static int lab[3][8]; static float val[3][8]; static bool symData;
static const char* fn[3] = {"a.dat", "b.dat", "c.dat"};
static void put(int f, int n, const char* type) {
  std::unique_ptr<DataWriter> w(DataWriter::Create(type));
  w->Open(fn[f], "w");
  for (int i = 0; i < n; ++i) {
    lab[f][i] = f * 10 + i; val[f][i] = (float)(f * 10 + i) + 0.5f;
    if (symData) { lab[f][i] = (int)sym_u32("label"); val[f][i] = sym_f32("value"); }
    DataPoint p; p.set_label(lab[f][i]);
    p.AddNewFeat((index_t)(i + 1), val[f][i]);
    w->Write(p);
  }
  w->Close();
}
static bool same(float a, float b) { uint32_t x, y; memcpy(&x, &a, 4); memcpy(&y, &b, 4); return x == y; }
// kind 0: nf files with n examples each, passes, batch size bs, buffer bn, consumed completely
static void all(int nf, int n, int passes, int bs, int bn) {
  const char* type = symData ? "bin" : "svm";
  for (int f = 0; f < nf; ++f) put(f, n + f, type);
  DataIter* it = new DataIter(bs, bn);
  for (int f = 0; f < nf; ++f) REQ(it->AddReader(fn[f], type, passes) == Status_OK, "reader accepted");
  int f = passes > 0 ? 0 : nf, p = 0, i = 0, total = 0;
  auto skip = [&]() { while (f < nf && i == n + f) { i = 0; if (++p == passes) { p = 0; ++f; } } };
  MiniBatch* mb = nullptr;
  while ((mb = it->Next(mb)) != nullptr) {
    REQ(mb->size() >= 0 && mb->size() <= bs, "batch within its capacity");
    for (int k = 0; k < mb->size(); ++k) {
      skip();
      REQ(f < nf, "nothing beyond the data");
      const DataPoint& d = (*mb)[k];
      REQ(d.label() == lab[f][i] && d.size() == 1 && d.index(0) == (index_t)(i + 1) && same(d.feature(0), val[f][i]), "examples come in order, unchanged");
      ++i; ++total;
    }
  }
  skip();
  REQ(f == nf, "every example of every pass is delivered");
  REQ(it->Next() == nullptr, "the end stays the end");
  delete it;
  sym_reach("done");
}
// kind 1: destroyed after k batches
static void early(int n, int k, int bs, int bn, int nf) {
  for (int f = 0; f < nf; ++f) put(f, n, "svm");
  DataIter* it = new DataIter(bs, bn);
  for (int f = 0; f < nf; ++f) it->AddReader(fn[f], "svm", 2);
  MiniBatch* mb = nullptr;
  for (int i = 0; i < k; ++i) {
    mb = it->Next(mb);
    REQ(mb != nullptr && mb->size() == bs && (*mb)[0].label() == i * bs, "batches until destroyed");
  }
  delete it;
  delete mb;
  sym_reach("done");
}
// kind 2: a malformed line ends that file only
static void damaged(int good, int bs, int bn) {
  std::string t;
  for (int i = 0; i < good; ++i) { char b[32]; snprintf(b, sizeof b, "%d 1:%d\n", i, i + 1); t += b; }
  t += "x y z\n7 1:1\n";
  sym_file_put(fn[0], t.data(), t.size());
  put(1, 2, "svm");
  DataIter* it = new DataIter(bs, bn);
  it->AddReader(fn[0], "svm", 2);
  it->AddReader(fn[1], "svm", 1);
  REQ(it->AddReader("missing.dat", "svm", 1) != Status_OK, "a missing file is refused");
  REQ(it->AddReader(fn[1], "nosuch", 1) != Status_OK, "an unknown format is refused");
  MiniBatch* mb = nullptr; int c = 0;
  while ((mb = it->Next(mb)) != nullptr)
    for (int k = 0; k < mb->size(); ++k, ++c) {
      REQ(c < good + 2, "nothing after the malformed line");
      REQ((*mb)[k].label() == (c < good ? c : 10 + c - good), "examples come in order, unchanged");
    }
  REQ(c == good + 2, "the examples before the malformed line and the other files are delivered");
  delete it;
  sym_reach("done");
}
// kind 5: many examples of varying width, so that every batch and example slot is used again; some contents chosen by the solver
struct Ex { int label; int width; float last; };
static Ex ex(int f, int i, int n, int bs, float* symv) {
  Ex e; e.label = f * 100000 + i; e.width = (i * 7 + f) % 5; if (i % 97 == 3) e.width = 40; e.last = (float)(i % 1000) + 0.25f;
  int special[5] = {0, bs - 1, bs, 2 * bs - 1, n - 1};
  for (int k = 0; k < 5; ++k) if (special[k] == i) { e.last = symv[k]; if (!e.width) e.width = 2; break; }
  return e;
}
static void longrun(int nf, int n, int passes, int bs, int bn, int fmt) {
  const char* type = fmt == 0 ? "bin" : "svm";
  static float sv[3][5];
  for (int f = 0; f < nf; ++f) {
    for (int k = 0; k < 5; ++k) sv[f][k] = fmt == 0 ? sym_f32("value") : (float)(k + 1);
    std::unique_ptr<DataWriter> w(DataWriter::Create(type));
    w->Open(fn[f], "w");
    for (int i = 0; i < n + f; ++i) {
      Ex e = ex(f, i, n + f, bs, sv[f]); DataPoint p; p.set_label(e.label);
      for (int j = 0; j < e.width; ++j) p.AddNewFeat((index_t)(3 * j + 1 + i % 3), j == e.width - 1 ? e.last : (float)(j + 1));
      REQ(w->Write(p) == Status_OK, "written");
    }
    w->Close();
  }
  DataIter* it = bs == 256 && bn == 2 ? new DataIter() : new DataIter(bs, bn);
  for (int f = 0; f < nf; ++f) REQ(it->AddReader(fn[f], type, passes) == Status_OK, "reader accepted");
  int f = 0, p = 0, i = 0;
  MiniBatch* mb = nullptr;
  while ((mb = it->Next(mb)) != nullptr) {
    REQ(mb->size() >= 0 && mb->size() <= bs, "batch within its capacity");
    for (int k = 0; k < mb->size(); ++k) {
      while (f < nf && i == n + f) { i = 0; if (++p == passes) { p = 0; ++f; } }
      REQ(f < nf, "nothing beyond the data");
      const DataPoint& d = (*mb)[k]; Ex e = ex(f, i, n + f, bs, sv[f]);
      REQ(d.label() == e.label && d.size() == (size_t)e.width, "examples come in order, unchanged");
      for (int j = 0; j < e.width; ++j)
        REQ(d.index(j) == (index_t)(3 * j + 1 + i % 3) && same(d.feature(j), j == e.width - 1 ? e.last : (float)(j + 1)), "features unchanged");
      REQ(e.width == 0 || d.dim() == (index_t)(3 * (e.width - 1) + 2 + i % 3), "dimension of the example");
      ++i;
    }
  }
  while (f < nf && i == n + f) { i = 0; if (++p == passes) { p = 0; ++f; } }
  REQ(f == nf, "every example of every pass is delivered");
  REQ(it->Next() == nullptr, "the end stays the end");
  delete it;
  sym_reach("done");
}
extern "C" void harness(int kind, int a, int b, int c, int d, int e) {
  if (kind == 0) all(a / 10, a % 10, b, c / 10, c % 10);
  else if (kind == 5) longrun(a, b, c / 10, d, c % 10, e);
  else if (kind == 6) longrun(a, b - sym_pick("fewer", 0, 4), c / 10, d, c % 10, e);   // the number of examples as well, around a multiple of the batch size
  else if (kind == 3) {   // sizes chosen by the solver as well
    symData = true;
    int nf = sym_pick("files", 0, a / 10), n = sym_pick("examples", 0, a % 10), p = sym_pick("passes", 0, b), bs = sym_pick("batch", 1, c / 10), bn = sym_pick("buffer", 1, c % 10);
    all(nf, n, p, bs, bn);
  }
  else if (kind == 4) {
    int bs = sym_pick("batch", 1, b), bn = sym_pick("buffer", 1, c), k = sym_pick("taken", 0, a), nf = sym_pick("files", 1, 2);
    early((k + 1) * bs + sym_pick("rest", 0, 1), k, bs, bn, nf);
  }
  else if (kind == 1) early(a, b, c / 100, c / 10 % 10, c % 10);
  else damaged(a, b, c);
}
