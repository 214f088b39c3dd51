// binary data format: round trip (kind 0), arbitrary bytes (kind 1), every truncation (kind 2)
#include "sym.h"
#include "sol/pario/data_reader.h"
#include "sol/pario/data_writer.h"
#include <cstring>
#include <memory>
using namespace sol; using namespace sol::pario;
static uint32_t bits(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
static const int MF = 600;
struct Ex { int label; int n; uint32_t idx[MF]; uint32_t val[MF]; };
static Ex make(int maxf, bool gap_small) {
  Ex e; e.label = (int)sym_u32("label"); e.n = sym_pick("nfeat", 0, maxf);
  for (int i = 0; i < e.n; ++i) {
    e.idx[i] = sym_u32("index"); e.val[i] = sym_u32("valbits");
    if (i) sym_assume(e.idx[i] > e.idx[i - 1]);
    if (gap_small) sym_assume(e.idx[i] - (i ? e.idx[i - 1] : 0) < 16384);
  }
  return e;
}
static void fill(DataPoint& p, const Ex& e) {
  p.set_label(e.label);
  for (int i = 0; i < e.n; ++i) { float f; memcpy(&f, &e.val[i], 4); p.AddNewFeat(e.idx[i], f); }
}
static void expect(DataPoint& p, const Ex& e) {
  REQ(p.label() == e.label, "label read back");
  REQ(p.size() == (size_t)e.n, "number of features read back");
  for (int i = 0; i < e.n; ++i) {
    REQ(p.index(i) == e.idx[i], "index read back");
    REQ(bits(p.feature(i)) == e.val[i], "feature bits read back");
  }
}
static void write(const Ex* e, int n, const char* path) {
  std::unique_ptr<DataWriter> w(DataWriter::Create("bin"));
  REQ(w->Open(path) == Status_OK, "open for writing");
  for (int i = 0; i < n; ++i) { DataPoint p; fill(p, e[i]); REQ(w->Write(p) == Status_OK, "write status"); }
  w->Close();
}
static void roundtrip(int n, int maxf, int small) {
  Ex e[4];
  for (int i = 0; i < n; ++i) e[i] = make(maxf, small);
  write(e, n, "t.bin");
  std::unique_ptr<DataReader> r(DataReader::Create("bin"));
  REQ(r->Open("t.bin") == Status_OK, "open for reading");
  DataPoint p;
  for (int pass = 0; pass < 2; ++pass) {
    for (int i = 0; i < n; ++i) { REQ(r->Next(p) == Status_OK, "next record"); expect(p, e[i]); }
    REQ(r->Next(p) == Status_EndOfFile, "end of file after the last record");
    r->Rewind();
  }
  sym_reach("done");
}
// examples with many features: counts around the widths a count could be cut to
static void many(int n, int step) {
  static DataPoint p, q, d; p.Clear();
  p.set_label((int)sym_u32("label"));
  float v[4]; int at[4] = {0, n / 2, n - 2, n - 1};
  for (int k = 0; k < 4; ++k) { uint32_t b = sym_u32("valbits"); memcpy(&v[k], &b, 4); }
  for (int i = 0; i < n; ++i) { float f = (float)(i + 1); for (int k = 0; k < 4; ++k) if (i == at[k]) f = v[k]; p.AddNewFeat(1 + i * step, f); }
  q.set_label((int)sym_u32("label")); q.AddNewFeat(3, v[1]);
  {
    std::unique_ptr<DataWriter> w(DataWriter::Create("bin"));
    REQ(w->Open("t.bin") == Status_OK, "open for writing");
    REQ(w->Write(p) == Status_OK && w->Write(q) == Status_OK && w->Write(p) == Status_OK, "write status");
    w->Close();
  }
  std::unique_ptr<DataReader> r(DataReader::Create("bin"));
  REQ(r->Open("t.bin") == Status_OK, "open for reading");
  for (int pass = 0; pass < 2; ++pass) {
    for (int k = 0; k < 3; ++k) {
      DataPoint& w = k == 1 ? q : p;
      REQ(r->Next(d) == Status_OK, "next record");
      REQ(d.label() == w.label(), "label read back");
      REQ(d.size() == w.size(), "number of features read back");
      for (size_t i = 0; i < w.size(); ++i) { REQ(d.index(i) == w.index(i), "index read back"); REQ(bits(d.feature(i)) == bits(w.feature(i)), "feature bits read back"); }
    }
    REQ(r->Next(d) == Status_EndOfFile, "end of file after the last record");
    r->Rewind();
  }
  sym_reach("done");
}
// reference decoder of one record; returns bytes used or -1
static long refrec(const unsigned char* b, long n, Ex& e) {
  if (n < 12) return -1;
  memcpy(&e.label, b, 4);
  uint64_t fn, cl; memcpy(&fn, b + 4, 8);
  if (fn == 0) { e.n = 0; return 12; }
  if (n < 20) return -1;
  memcpy(&cl, b + 12, 8);
  if (cl > (uint64_t)(n - 20)) return -1;
  if (fn > MF) return -1;
  long p = 20, end = 20 + (long)sym_concretize(cl);
  uint64_t k = 0, last = 0;
  while (p < end) {
    uint64_t v = 0; int s = 0;
    for (;;) {
      if (p >= end) return -1;
      unsigned char c = b[p++];
      if (s < 64) v |= (uint64_t)(c & 127) << s;
      s += 7;
      if (!(c & 128)) break;
    }
    last += v;
    if (k < MF) e.idx[k] = (uint32_t)last;
    ++k;
  }
  if (k != fn) return -1;
  e.n = (int)sym_concretize(fn);
  if ((n - end) < 4 * e.n) return -1;
  memcpy(e.val, b + end, 4 * (size_t)e.n);
  return end + 4 * e.n;
}
static void arbitrary(int n) {
  unsigned char b[64];
  for (int i = 0; i < n; ++i) b[i] = sym_u8("byte");
  sym_file_put("t.bin", b, (size_t)n);
  std::unique_ptr<DataReader> r(DataReader::Create("bin"));
  REQ(r->Open("t.bin") == Status_OK, "open for reading");
  DataPoint p;
  long pos = 0;
  for (int k = 0; k < 3; ++k) {
    int st = r->Next(p);
    Ex e; e.n = 0;
    long u = refrec(b + pos, n - pos, e);
    if (st == Status_OK) {
      REQ(u > 0, "success only for a record that is completely present");
      expect(p, e); sym_reach("accepted");
      pos += u;
    } else { REQ(u < 0, "a complete record is delivered"); sym_reach("rejected"); break; }
  }
}
static void truncate(int maxf) {
  Ex e[2]; e[0] = make(maxf, true); e[1] = make(maxf, true);
  sym_assume(e[0].n == e[1].n);
  write(e, 2, "t.bin");
  unsigned char b[256];
  long n = sym_file_get("t.bin", b, sizeof b);
  int keep = sym_pick("keep", 0, (int)n - 1);
  sym_file_put("t.bin", b, (size_t)keep);
  Ex d; long l0 = refrec(b, n, d);
  std::unique_ptr<DataReader> r(DataReader::Create("bin"));
  REQ(r->Open("t.bin") == Status_OK, "open for reading");
  DataPoint p;
  int whole = keep >= l0 ? 1 : 0;
  for (int i = 0; i < whole; ++i) { REQ(r->Next(p) == Status_OK, "records before the cut are delivered"); expect(p, e[i]); }
  REQ(r->Next(p) != Status_OK, "a record that was cut off is not delivered");
  sym_reach("cut");
}
// a file of two wide records, cut at any place (part 0) or with one byte changed (part > 0: at that offset of the first record; < 0: counted from its end)
static void wide(int n, int part) {
  static Ex e[2];
  for (int k = 0; k < 2; ++k) { e[k].label = (int)sym_u32("label"); e[k].n = n; for (int i = 0; i < n; ++i) { e[k].idx[i] = 1 + i * (k ? 3 : 150); e[k].val[i] = i == n - 1 ? sym_u32("valbits") : 0x3f800000u + i; } }
  write(e, 2, "t.bin");
  static unsigned char b[20000];
  long N = sym_file_get("t.bin", b, sizeof b), keep = N;
  static Ex d; long l0 = refrec(b, N, d);
  REQ(l0 > 0 && l0 < N, "records are what they should be");
  if (part == 0) { int from = sym_pick("cut", 0, 5); long base[6] = {0, l0 - 20, l0, l0 + 10, l0 + 20 + n, N - 12}; keep = base[from] + sym_pick("at", 0, 11); if (keep > N) keep = N; }
  else b[part > 0 ? part : l0 + part] = sym_u8("byte");
  sym_file_put("t.bin", b, (size_t)keep);
  std::unique_ptr<DataReader> r(DataReader::Create("bin"));
  REQ(r->Open("t.bin") == Status_OK, "open for reading");
  DataPoint p; long pos = 0;
  for (int k = 0; k < 2; ++k) {
    int st = r->Next(p);
    long u = refrec(b + pos, keep - pos, d);
    if (st == Status_OK) { REQ(u > 0, "success only for a record that is completely present"); expect(p, d); sym_reach("accepted"); pos += u; }
    else { REQ(u < 0, "a complete record is delivered"); sym_reach("rejected"); break; }
  }
  sym_reach("done");
}
extern "C" void harness(int kind, int a, int b, int c) {
  if (kind == 0) roundtrip(a, b, c);
  else if (kind == 1) arbitrary(a);
  else if (kind == 2) truncate(a);
  else if (kind == 4) wide(a, b);
  else many(a, b);
}
