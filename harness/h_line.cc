// delivery of text lines
#include "sym.h"
#include "sol/pario/file_reader.h"
#include "sol/pario/data_reader.h"
#include "sol/pario/data_point.h"
#include "sol/util/error_code.h"
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <memory>
#include <string>
using namespace sol; using namespace sol::pario;
// every short file, a buffer that has to grow; zero: zero bytes allowed
static void small(int n, int cap, int zero) {
  char b[32];
  for (int i = 0; i < n; ++i) { b[i] = (char)sym_u8("byte"); if (!zero) sym_assume(b[i] != 0); }
  sym_file_put("t.txt", b, (size_t)n);
  FileReader r; REQ(r.Open("t.txt", "r") == Status_OK, "open");
  int len = cap; char* buf = (char*)malloc((size_t)cap);
  for (int pass = 0; pass < 2; ++pass) {
    int p = 0, calls = 0;
    while (true) {
      int st = r.ReadLine(buf, len);
      REQ(++calls <= n + 1, "reading comes to the end of the file"); if (calls > n + 1) break;
      REQ(len >= cap && len <= 1 << 20, "the buffer does not grow without need");
      if (st != Status_OK) { REQ(st == Status_EndOfFile, "only the end of the file ends reading"); if (!zero) REQ(p == n, "everything was delivered"); break; }
      REQ(strlen(buf) < (size_t)len, "the line is in the buffer");
      if (zero) continue;
      int e = p; while (e < n && !sym_branch(b[e] == '\n')) ++e;
      if (e < n) ++e;
      REQ(e > p, "end of file is noticed");
      bool same = strlen(buf) == (size_t)(e - p);
      REQ(same, "the line has the length it has in the file");
      if (same) for (int i = p; i < e; ++i) REQ(buf[i - p] == b[i], "the bytes of the line");
      p = e;
    }
    r.Rewind();
  }
  free(buf);
  sym_reach("done");
}
static char big[40000];
// one long line of a data file (length L without line break), then a short one
static void longLine(int csv, int L, int nl) {
  int n = 0;
  int cols = 0;
  std::string head;
  big[n++] = '1';
  while (n < L - 14) {
    ++cols;
    if (csv) n += sprintf(big + n, ",0"); else n += sprintf(big + n, " %d:%d", cols, cols % 7 + 1);
  }
  ++cols;
  if (csv) big[n++] = ','; else n += sprintf(big + n, " %d:", cols);
  int d1 = sym_int("d1", 0, 9), d2 = sym_int("d2", 1, 9);
  while (n < L - 2) big[n++] = '0';
  big[n++] = (char)('0' + d1); big[n++] = (char)('0' + d2);
  REQ(n == L, "length as planned");
  big[n++] = '\n';
  int d3 = sym_int("d3", 1, 9);
  const char* t = csv ? "-1,0,0," : "-1 3:"; size_t tl = strlen(t); memcpy(big + n, t, tl); n += (int)tl;
  big[n++] = (char)('0' + d3);
  if (nl) big[n++] = '\n';
  std::string all;
  if (csv) { all = "label"; for (int i = 1; i <= cols; ++i) all += ",f"; all += "\n"; }
  all.append(big, (size_t)n);
  sym_file_put("t.data", all.data(), all.size());
  std::unique_ptr<DataReader> r(DataReader::Create(csv ? "csv" : "svm"));
  REQ(r->Open("t.data") == Status_OK, "open");
  for (int pass = 0; pass < 2; ++pass) {
    DataPoint p;
    REQ(r->Next(p) == Status_OK, "the long line is read");
    REQ(p.label() == 1 && p.size() == (size_t)(csv ? 1 : cols), "all features of the long line");
    if (p.size() > 0) REQ(p.index(p.size() - 1) == (index_t)cols && p.feature(p.size() - 1) == (float)(10 * d1 + d2), "the last feature of the long line");
    if (!csv) for (size_t i = 0; i + 1 < p.size(); ++i) REQ(p.index(i) == i + 1 && p.feature(i) == (float)((i + 1) % 7 + 1), "the features of the long line");
    REQ(r->Next(p) == Status_OK && p.label() == -1 && p.size() == 1 && p.index(0) == 3 && p.feature(0) == (float)d3, "the line after the long line");
    REQ(r->Next(p) == Status_EndOfFile, "end of file");
    r->Rewind();
  }
  sym_reach("done");
}
// many lines with zero bytes
static void zeros(int n) {
  std::string s; for (int i = 0; i < n; ++i) { s.push_back('1'); s.push_back('\0'); s.push_back('\n'); }
  sym_file_put("t.data", s.data(), s.size());
  std::unique_ptr<DataReader> r(DataReader::Create("svm"));
  REQ(r->Open("t.data") == Status_OK, "open");
  DataPoint p; int k = 0;
  while (r->Next(p) == Status_OK && k <= 3 * n) ++k;
  REQ(k <= 3 * n, "reading comes to an end");
  sym_reach("done");
}
extern "C" void harness(int kind, int a, int b, int c) {
  if (kind == 0) small(a, b, c); else if (kind == 1) longLine(a, b, c); else zeros(a);
}
