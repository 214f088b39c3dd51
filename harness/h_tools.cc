// data tools of the C interface: convert (0), shuffle (1), split (2), analyze (3), refusals (4), long data (5)
#include "sym.h"
#include <random>
#include "sol/c_api.h"
#include "sol/pario/data_reader.h"
#include "sol/pario/data_writer.h"
#include <cstring>
#include <cstdio>
#include <memory>
#include <string>
using namespace sol; using namespace sol::pario;
static const char* fmt[] = {"bin", "svm", "csv"};
static uint32_t bits(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
static float unbits(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
enum { N = 8, F = 3 };
struct Ex { int label, n; unsigned idx[F]; float val[F]; };
static Ex e[N]; static int ne;
// raw: arbitrary label and value bits (binary on both sides); otherwise values every format carries exactly
static void make(int n, int cols, bool raw, bool distinct) {
  ne = n;
  for (int k = 0; k < n; ++k) {
    e[k].label = distinct ? 10 + k : raw ? (int)sym_u32("label") : sym_pick("label", -1, 1) * (k + 1);
    e[k].n = 0;
    for (int j = 1; j <= cols; ++j) if (sym_pick("present", 0, 1)) {
      int i = e[k].n++;
      e[k].idx[i] = (unsigned)(j == F ? 7 : j);
      e[k].val[i] = raw ? unbits(sym_u32("valbits")) : (k + 1) * 0.5f + j * (k & 1 ? -4 : 4);
    }
  }
}
static void put(const char* type, const char* path, int from = 0) {
  std::unique_ptr<DataWriter> w(DataWriter::Create(type));
  REQ(w->Open(path) == Status_OK, "open for writing");
  index_t d = 8; w->SetExtraInfo((const char*)&d);
  for (int k = from; k < ne; ++k) {
    DataPoint p; p.set_label(e[k].label);
    for (int i = 0; i < e[k].n; ++i) p.AddNewFeat(e[k].idx[i], e[k].val[i]);
    REQ(w->Write(p) == Status_OK, "write status");
  }
  w->Close();
}
static void same(DataPoint& p, const Ex& x, const char* what) {
  sym_assert(p.label() == x.label, what);
  sym_assert(p.size() == (size_t)x.n, what);
  for (int i = 0; i < x.n; ++i) { sym_assert(p.index(i) == x.idx[i], what); sym_assert(bits(p.feature(i)) == bits(x.val[i]), what); }
}
static void convertIt(int s, int d, int n, int cols, int bin) {
  bool raw = s == 0 && d == 0;
  make(n, cols, raw, false); put(fmt[s], "src");
  if (d == 2) { int any = 0; for (int k = 0; k < n; ++k) any |= e[k].n; if (!any) sym_exit(); }   // csv needs a dimension
  float th = bin ? (raw ? unbits(sym_u32("thresh")) : 2.f) : 0.f;
  int ret = sol_convert_data("src", fmt[s], "dst", fmt[d], bin, th);
  REQ(ret == 0, "conversion succeeds");
  if (bin) for (int k = 0; k < n; ++k) for (int i = 0; i < e[k].n; ++i) e[k].val[i] = e[k].val[i] > th ? 1.f : -1.f;
  std::unique_ptr<DataReader> r(DataReader::Create(fmt[d]));
  REQ(r->Open("dst") == Status_OK, "the result can be read");
  DataPoint p;
  for (int k = 0; k < n; ++k) { REQ(r->Next(p) == Status_OK, "every example is converted"); same(p, e[k], "converted examples are unchanged"); }
  REQ(r->Next(p) == Status_EndOfFile, "nothing else is in the result");
  sym_reach("done");
}
static void shuffleIt(int s, int d, int n, int cols, int nul) {
  make(n, cols, s == 0 && d == 0, true); put(fmt[s], "src");
  REQ(sol_shuffle_data("src", fmt[s], "dst", nul ? nullptr : fmt[d]) == 0, "shuffling succeeds");
  std::unique_ptr<DataReader> r(DataReader::Create(fmt[d]));
  REQ(r->Open("dst") == Status_OK, "the result can be read");
  DataPoint p; int seen[N] = {0}, moved = 0;
  for (int k = 0; k < n; ++k) {
    REQ(r->Next(p) == Status_OK, "every example is kept");
    int i = (int)sym_concretize((uint64_t)(uint32_t)(p.label() - 10));
    REQ(i >= 0 && i < n, "only examples of the source");
    REQ(!seen[i], "no example twice"); seen[i] = 1; moved |= i != k;
    same(p, e[i], "shuffled examples are unchanged");
  }
  REQ(r->Next(p) == Status_EndOfFile, "nothing else is in the result");
  sym_reach(moved ? "moved" : "done");
}
static void splitIt(int s, int d, int n, int fold, int mode) {   // mode: 1 shuffle, 2 NULL type
  make(n, 1, s == 0 && d == 0, mode & 1); put(fmt[s], "src");
  REQ(sol_split_data("src", fmt[s], fold, "part", mode & 2 ? nullptr : fmt[d], mode & 1) == 0, "splitting succeeds");
  int got = 0, seen[N] = {0};
  for (int f = 0; f < fold; ++f) {
    char path[32]; snprintf(path, sizeof path, "part%d.%s", f, fmt[d]);
    std::unique_ptr<DataReader> r(DataReader::Create(fmt[d]));
    REQ(r->Open(path) == Status_OK, "every part is written");
    DataPoint p; int here = 0, st;
    while ((st = r->Next(p)) == Status_OK) {
      REQ(got < n, "nothing else is in the parts");
      if (mode & 1) {
        int i = (int)sym_concretize((uint64_t)(uint32_t)(p.label() - 10));
        REQ(i >= 0 && i < n && !seen[i], "no example twice"); seen[i] = 1;
        same(p, e[i], "split examples are unchanged");
      } else same(p, e[got], "the parts together are the source");
      ++got; ++here;
    }
    REQ(st == Status_EndOfFile, "every part ends as it should");
    REQ(here <= (n + fold - 1) / fold, "the parts are equally large");
    if (f < n / ((n + fold - 1) / fold)) REQ(here == (n + fold - 1) / fold, "the parts are equally large");
  }
  REQ(got == n, "no example is lost");
  sym_reach("done");
}
static std::string num(const char* f, double v) { char b[64]; snprintf(b, sizeof b, f, (unsigned long)v); return b; }
static void analyzeIt(int s, int n, int cols) {
  make(n, cols, false, false); put(fmt[s], "src");
  REQ(sol_analyze_data("src", fmt[s], "info") == 0, "analysis succeeds");
  static char b[2048]; long len = sym_file_get("info", b, sizeof b - 1);
  REQ(len > 0, "the analysis is written"); b[len] = 0;
  int feats = 0, dim = 0, used[16] = {0}, distinct = 0, lab[N], cnt[N], nl = 0;
  for (int k = 0; k < n; ++k) {
    feats += e[k].n;
    for (int i = 0; i < e[k].n; ++i) { if ((int)e[k].idx[i] > dim) dim = (int)e[k].idx[i]; used[e[k].idx[i]] = 1; }
    int j = 0; while (j < nl && lab[j] < e[k].label) ++j;
    if (j < nl && lab[j] == e[k].label) { ++cnt[j]; continue; }
    for (int q = nl; q > j; --q) { lab[q] = lab[q - 1]; cnt[q] = cnt[q - 1]; }
    lab[j] = e[k].label; cnt[j] = 1; ++nl;
  }
  for (int i = 0; i < 16; ++i) distinct += used[i];
  std::string w; char t[80];
  snprintf(t, sizeof t, "data number  : %d\n", n); w += t;
  snprintf(t, sizeof t, "feat number  : %d\n", feats); w += t;
  snprintf(t, sizeof t, "dimension    : %d\n", dim); w += t;
  snprintf(t, sizeof t, "nonzero feat : %d\n", distinct); w += t;
  snprintf(t, sizeof t, "class num    : %d\n", nl); w += t;
  REQ((long)w.size() <= len && memcmp(b, w.data(), w.size()) == 0, "numbers of examples, features, dimension and classes");
  const char* q = strstr(b, "data number of class");
  std::string c;
  for (int j = 0; j < nl; ++j) { snprintf(t, sizeof t, "data number of class %d : %d\n", lab[j], cnt[j]); c += t; }
  REQ(q ? c == q : c.empty(), "numbers of examples of each class");
  const char* sp = strstr(b, "data sparsity: ");
  if (dim > 0) {
    REQ(sp != nullptr, "sparsity is written");
    double want = 100.0 - distinct * 100.0 / dim; snprintf(t, sizeof t, "data sparsity: %.2lf%%\n", want);
    REQ(strncmp(sp, t, strlen(t)) == 0, "sparsity is the share of the dimensions without a feature");
  }
  sym_reach("done");
}
static void refuse(int k) {
  make(1, 1, false, false); put("svm", "src");
  int r = 0;
  if (k == 0) r = sol_convert_data("none", "svm", "dst", "bin", false, 0);
  if (k == 1) r = sol_convert_data("src", "xyz", "dst", "bin", false, 0);
  if (k == 2) r = sol_convert_data("src", "svm", "dst", "xyz", false, 0);
  if (k == 3) r = sol_shuffle_data("none", "svm", "dst", "bin");
  if (k == 4) r = sol_shuffle_data("src", "xyz", "dst", "bin");
  if (k == 5) r = sol_shuffle_data("src", "svm", "dst", "xyz");
  if (k == 6) r = sol_split_data("none", "svm", 2, "part", "bin", false);
  if (k == 7) r = sol_split_data("src", "xyz", 2, "part", "bin", false);
  if (k == 8) r = sol_split_data("src", "svm", 2, "part", "xyz", false);
  if (k == 9) r = sol_split_data("src", "svm", sym_pick("fold", -2, 0), "part", "svm", false);
  if (k == 10) r = sol_analyze_data("none", "svm", "info");
  if (k == 11) r = sol_analyze_data("src", "xyz", "info");
  static const char* F[] = {"bin", "svm", "csv"};
  if (k >= 12 && k < 24) {  // results that cannot be written, or not completely
    const char* to = k % 2 ? "/dev/full" : "no/such/dir/dst"; const char* f = F[(k - 12) / 2 % 3];
    if (sym_pick("many", 0, 1)) {  // more than a buffer holds
      std::string t; for (int i = 0; i < 700; ++i) t += "1 1:0.5 2:3\n";
      sym_file_put("src", t.data(), t.size());
    }
    if (k < 18) r = sol_convert_data("src", "svm", to, f, false, 0);
    else { std::sym_draws<0>::fixed = 5; r = sol_shuffle_data("src", "svm", to, f); }
  }
  if (k == 24) r = sol_split_data("src", "svm", 2, "no/such/dir/part", "svm", false);
  if (k == 25) r = sol_analyze_data("src", "svm", "no/such/dir/info");
  if (k == 26) r = sol_analyze_data("src", "svm", "/dev/full");
  REQ(r != 0, "what cannot be done is reported");
  sym_reach("done");
}
// more examples than a batch holds; a few of them arbitrary
static void longData(int tool, int n, int fold) {
  int at[3] = {0, 255 < n ? 255 : n / 2, n - 1}; uint32_t v[3]; int l[3];
  {
    std::unique_ptr<DataWriter> w(DataWriter::Create("bin"));
    REQ(w->Open("src") == Status_OK, "open for writing");
    for (int k = 0; k < n; ++k) {
      DataPoint p; p.set_label(k); float x = (float)k;
      for (int j = 0; j < 3; ++j) if (at[j] == k) { v[j] = sym_u32("valbits"); l[j] = tool == 2 ? k : (int)sym_u32("label"); p.set_label(l[j]); x = unbits(v[j]); }
      p.AddNewFeat(1 + k % 5, x); w->Write(p);
    }
    w->Close();
  }
  if (tool == 2) {
    std::sym_draws<0>::fixed = 5;
    REQ(sol_shuffle_data("src", "bin", "part0.bin", "bin") == 0, "shuffling succeeds");
    std::unique_ptr<DataReader> r(DataReader::Create("bin"));
    REQ(r->Open("part0.bin") == Status_OK, "the result can be read");
    DataPoint p; static int seen[4096]; int moved = 0;
    for (int k = 0; k < n; ++k) {
      REQ(r->Next(p) == Status_OK, "every example is kept");
      int i = p.label();
      REQ(i >= 0 && i < n && !seen[i], "no example twice"); seen[i] = 1; moved += i != k;
      uint32_t b = bits((float)i);
      for (int j = 0; j < 3; ++j) if (at[j] == i) b = v[j];
      REQ(p.size() == 1 && p.index(0) == (unsigned)(1 + i % 5) && bits(p.feature(0)) == b, "shuffled examples are unchanged");
    }
    REQ(r->Next(p) == Status_EndOfFile, "nothing else is in the result");
    if (moved > n / 2) sym_reach("done");
    return;
  }
  if (tool == 0) REQ(sol_convert_data("src", "bin", "part0.bin", "bin", false, 0) == 0, "conversion succeeds");
  else REQ(sol_split_data("src", "bin", fold, "part", "bin", false) == 0, "splitting succeeds");
  int k = 0;
  for (int f = 0; f < fold; ++f) {
    char path[32]; snprintf(path, sizeof path, "part%d.bin", f);
    std::unique_ptr<DataReader> r(DataReader::Create("bin"));
    REQ(r->Open(path) == Status_OK, "every part is written");
    DataPoint p; int here = 0, st;
    while ((st = r->Next(p)) == Status_OK) {
      REQ(k < n, "nothing else is in the result");
      int label = k; uint32_t b = bits((float)k);
      for (int j = 0; j < 3; ++j) if (at[j] == k) { label = l[j]; b = v[j]; }
      REQ(p.label() == label && p.size() == 1 && p.index(0) == (unsigned)(1 + k % 5) && bits(p.feature(0)) == b, "the parts together are the source");
      ++k; ++here;
    }
    REQ(st == Status_EndOfFile, "every part ends as it should");
    REQ(here <= (n + fold - 1) / fold, "the parts are equally large");
  }
  REQ(k == n, "no example is lost");
  sym_reach("done");
}
static void analyzeLong(int n) {
  int lab = sym_pick("label", -1, 3), idx = sym_pick("index", 1, 12), at = n - 1;      // the last example: any of these
  std::unique_ptr<DataWriter> w(DataWriter::Create("svm"));
  REQ(w->Open("src") == Status_OK, "open for writing");
  int cnt[8] = {0}, used[16] = {0}, feats = 0, dim = 0, distinct = 0, nl = 0;
  for (int k = 0; k < n; ++k) {
    DataPoint p; int l = k == at ? lab : k % 3, i = k == at ? idx : 1 + (k % 4) * 2; p.set_label(l);
    p.AddNewFeat(i, k & 1 ? -1.5f : 2.f); ++feats; used[i] = 1; if (i > dim) dim = i; ++cnt[l + 1];
    if (k % 3 == 0) { p.AddNewFeat(i + 1, 1.f); ++feats; used[i + 1] = 1; if (i + 1 > dim) dim = i + 1; }
    w->Write(p);
  }
  w->Close();
  for (int i = 0; i < 16; ++i) distinct += used[i];
  for (int i = 0; i < 8; ++i) nl += cnt[i] > 0;
  REQ(sol_analyze_data("src", "svm", "info") == 0, "analysis succeeds");
  static char b[2048]; long len = sym_file_get("info", b, sizeof b - 1); b[len < 0 ? 0 : len] = 0;
  char t[200]; snprintf(t, sizeof t, "data number  : %d\nfeat number  : %d\ndimension    : %d\nnonzero feat : %d\nclass num    : %d\n", n, feats, dim, distinct, nl);
  REQ(strncmp(b, t, strlen(t)) == 0, "numbers of examples, features, dimension and classes");
  std::string c; for (int j = 0; j < 8; ++j) if (cnt[j]) { snprintf(t, sizeof t, "data number of class %d : %d\n", j - 1, cnt[j]); c += t; }
  const char* q = strstr(b, "data number of class"); REQ(q && c == q, "numbers of examples of each class");
  sym_reach("done");
}
extern "C" void harness(int kind, int a, int b, int c, int d, int f) {
  if (kind == 0) convertIt(a, b, c, d, f);
  else if (kind == 1) shuffleIt(a, b, c, d, f);
  else if (kind == 2) splitIt(a, b, c, d, f);
  else if (kind == 3) analyzeIt(a, b, c);
  else if (kind == 4) refuse(a);
  else if (kind == 6) analyzeLong(a);
  else longData(a, b, c);
}
