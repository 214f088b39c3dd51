// text formats. kind 0: libsvm, arbitrary line; 1: libsvm, templates; 2: libsvm round trip of label/indexes; 3: libsvm round trip of values
#include "sym.h"
#include "textspec.h"
#include "sol/pario/data_reader.h"
#include "sol/pario/data_writer.h"
#include <cstdio>
#include <cstring>
#include <memory>
using namespace sol; using namespace sol::pario;
static void readOne(const char* type, const char* path, int want, const Spec& s, bool sorted) {
  std::unique_ptr<DataReader> r(DataReader::Create(type));
  REQ(r->Open(path) == Status_OK, "open for reading");
  DataPoint p;
  int st = r->Next(p);
  if (want > 0) {
    REQ(st == Status_OK, "well-formed line accepted");
    REQ(p.label() == s.label, "label as written");
    REQ(p.size() == (size_t)s.n, "number of features as written");
    for (int i = 0; i < s.n; ++i) {
      REQ(p.index(i) == s.idx[i], "index as written");
      double d = p.feature(i) - s.val[i], t = 1e-6 * s.val[i];
      if (t < 0) t = -t;
      REQ(d <= t && -d <= t, "value as written");
    }
    sym_reach("accepted");
  } else if (want < 0) {
    REQ(st != Status_OK, "malformed line rejected");
    sym_reach("rejected");
  } else {
    if (st == Status_OK && sorted) for (size_t i = 1; i < p.size(); ++i) REQ(p.index(i - 1) <= p.index(i), "indexes ascending");
    sym_reach("unspecified");
  }
}
static void arbitrary(int n, int nl) {
  char b[64];
  for (int i = 0; i < n; ++i) { b[i] = (char)sym_u8("byte"); sym_assume(b[i] != 0 && b[i] != '\n'); }
  if (nl) b[n++] = '\n';
  sym_file_put("t.svm", b, (size_t)n);
  b[n] = 0;
  Spec s;
  int w = n ? specSvm(b, s) : 0;
  if (n) readOne("svm", "t.svm", w, s, true);
  else { std::unique_ptr<DataReader> r(DataReader::Create("svm")); REQ(r->Open("t.svm") == Status_OK, "open for reading"); DataPoint p; REQ(r->Next(p) == Status_EndOfFile, "end of file"); sym_reach("eof"); }
}
// '#' any digit, '~' any of space/tab, '?' any byte except NUL and newline
static const char* tpl[] = {"#~#:#\n", "-##~##:#.#~###:-#\n", "+#~#:#e#\n", "#~##:#.#~##:#.#~##:#\n", "#~#:.#\n", "#########~#########:###\n",
  "##~#:##.###e-##\n", "#~#:#########\n", "#~##:######.#\n", "##########~#:#\n", "#~##########:#\n", "#~#:##########.####\n", "#~#:#?\n", "#~?#:#\n", "#~#?#\n", "?#~#:#\n", "#?#:#\n", "#~#:?#\n", "#~#:#~#?#\n", "#~#:#~?\n", "#~#:\n", "#~#\n", "#~#:#~#\n", "#~#:#~#:\n", "~#:#\n", "#.#~#:#\n"};
static void templ(int k) {
  char b[64]; int n = 0;
  for (const char* t = tpl[k]; *t; ++t, ++n) {
    if (*t == '#') { b[n] = (char)sym_u8("d"); sym_assume(b[n] >= '0' && b[n] <= '9'); }
    else if (*t == '~') { b[n] = (char)sym_u8("s"); sym_assume(b[n] == ' ' || b[n] == '\t'); }
    else if (*t == '?') { b[n] = (char)sym_u8("b"); sym_assume(b[n] != 0 && b[n] != '\n'); }
    else b[n] = *t;
  }
  sym_file_put("t.svm", b, (size_t)n);
  b[n] = 0;
  Spec s;
  int w = specSvm(b, s);
  readOne("svm", "t.svm", w, s, true);
  sym_reach("done");
}
// every 32-bit label, as sign and magnitude
static int anyLabel() {
  int neg = sym_pick("labelneg", 0, 1);
  unsigned m = sym_u32("label");
  sym_assume(m <= (neg ? 2147483648u : 2147483647u));
  if (neg) sym_assume(m > 0);
  return neg ? (int)(0u - m) : (int)m;
}
static void rtInts(int nf, int fixedLabel) {
  Spec s; s.label = fixedLabel ? -7 : anyLabel(); s.n = nf;
  for (int i = 0; i < nf; ++i) { s.idx[i] = sym_u32("index"); if (i) sym_assume(s.idx[i] > s.idx[i - 1]); s.val[i] = 2; }
  std::unique_ptr<DataWriter> w(DataWriter::Create("svm"));
  REQ(w->Open("t.svm") == Status_OK, "open for writing");
  DataPoint p; p.set_label(s.label);
  for (int i = 0; i < nf; ++i) p.AddNewFeat(s.idx[i], 2.f);
  REQ(w->Write(p) == Status_OK, "write status");
  w->Close();
  readOne("svm", "t.svm", 1, s, true);
  sym_reach("done");
}
#ifdef SYMX
extern "C" { extern int (*rt_float_hook)(double, int, char, char*); }
#endif
static char vtext[4][32]; static int vlen[4], vn;
static double vval[4];
#ifdef SYMX
// printf("%g") of the k-th value written: the text the C library prints for a number of at most six significant digits
static int vcur;
static int hook(double v, int prec, char conv, char* out) {
  if (!sym_is_sym(v)) return -1;
  if (conv != 'g' || prec != 6) return -1;
  int k = vcur++;
  memcpy(out, vtext[k], (size_t)vlen[k]);
  return vlen[k];
}
#endif
// %g text of sign * d1 d2 .. dn * 10^e (d1, dn != 0): symbolic digits, shape chosen
static float gval(int k) {
  int neg = sym_pick("neg", 0, 1), nd = sym_pick("digits", 1, 6), e = sym_pick("exp", -7, 8);
  char d[8];
  double m = 0;
  for (int i = 0; i < nd; ++i) { d[i] = (char)sym_u8("vd"); sym_assume(d[i] >= '0' && d[i] <= '9'); m = m * 10 + (d[i] - '0'); }
  sym_assume(d[0] != '0');
  if (nd > 1) sym_assume(d[nd - 1] != '0');
  static const double p10[] = {1e-13, 1e-12, 1e-11, 1e-10, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 1e-1, 1, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8};
  double v = m * p10[e - (nd - 1) + 13];
  if (neg) v = -v;
  // e = decimal exponent of the first digit
  char* o = vtext[k]; int n = 0;
  if (neg) o[n++] = '-';
  if (e < -4 || e >= 6) {
    o[n++] = d[0];
    if (nd > 1) { o[n++] = '.'; for (int i = 1; i < nd; ++i) o[n++] = d[i]; }
    o[n++] = 'e'; o[n++] = e < 0 ? '-' : '+'; int a = e < 0 ? -e : e; o[n++] = (char)('0' + a / 10); o[n++] = (char)('0' + a % 10);
  } else if (e < 0) {
    o[n++] = '0'; o[n++] = '.';
    for (int i = -1; i > e; --i) o[n++] = '0';
    for (int i = 0; i < nd; ++i) o[n++] = d[i];
  } else {
    for (int i = 0; i <= e; ++i) o[n++] = i < nd ? d[i] : '0';
    if (nd > e + 1) { o[n++] = '.'; for (int i = e + 1; i < nd; ++i) o[n++] = d[i]; }
  }
  vlen[k] = n; vval[k] = v;
  return (float)v;
}
static void rtVals(const char* type, int nf) {
  Spec s; s.label = 1; s.n = nf;
  DataPoint p; p.set_label(1);
  vn = nf;
  for (int i = 0; i < nf; ++i) { s.idx[i] = (unsigned)(2 * i + 1); float v = gval(i); s.val[i] = v; p.AddNewFeat(s.idx[i], v); }
#ifdef SYMX
  rt_float_hook = hook; vcur = 0;
#endif
  std::unique_ptr<DataWriter> w(DataWriter::Create(type));
  REQ(w->Open("t.dat") == Status_OK, "open for writing");
  index_t dim = (index_t)(2 * nf + 2);
  REQ(w->SetExtraInfo((const char*)&dim) == Status_OK, "extra info accepted");
  REQ(w->Write(p) == Status_OK, "write status");
  w->Close();
  readOne(type, "t.dat", 1, s, true);
  sym_reach("done");
}
// csv: every pattern of present columns, label symbolic, several examples, rewind
static void csvPattern(int dim, int ne, int anyL) {
  Spec s[3];
  std::unique_ptr<DataWriter> w(DataWriter::Create("csv"));
  REQ(w->Open("t.csv") == Status_OK, "open for writing");
  index_t d = (index_t)(dim + 1);
  REQ(w->SetExtraInfo((const char*)&d) == Status_OK, "extra info accepted");
  for (int k = 0; k < ne; ++k) {
    DataPoint p;
    s[k].label = anyL && k == 0 ? anyLabel() : k - 1; s[k].n = 0;
    p.set_label(s[k].label);
    for (int j = 1; j <= dim; ++j) if (sym_pick("present", 0, 1)) { s[k].idx[s[k].n] = (unsigned)j; s[k].val[s[k].n] = j + 0.5; ++s[k].n; p.AddNewFeat((index_t)j, (float)(j + 0.5)); }
    REQ(w->Write(p) == Status_OK, "write status");
  }
  w->Close();
  std::unique_ptr<DataReader> r(DataReader::Create("csv"));
  REQ(r->Open("t.csv") == Status_OK, "open for reading");
  for (int pass = 0; pass < 2; ++pass) {
    DataPoint p;
    for (int k = 0; k < ne; ++k) {
      REQ(r->Next(p) == Status_OK, "every example is delivered");
      REQ(p.label() == s[k].label, "label as written");
      REQ(p.size() == (size_t)s[k].n, "number of features as written");
      for (int i = 0; i < s[k].n; ++i) { REQ(p.index(i) == s[k].idx[i], "index as written"); sym_close(p.feature(i), s[k].val[i], "value as written"); }
    }
    REQ(r->Next(p) == Status_EndOfFile, "end of file after the last example");
    r->Rewind();
  }
  sym_reach("done");
}
// csv: arbitrary line after a header
static void csvLine(int n, int k) {
  static const char* t[] = {nullptr, "#,#,#\n", "-##,#.#,-#\n", "#,#e#,#\n", "#,?#\n", "#?#\n", "?#,#\n", "#,#?\n", "#,\n", "#,,#\n", "#,#,\n", ",#\n", "#\n", "#,#?#\n", "##########,#\n", "#,##########.##\n"};
  char b[64]; int m = 0;
  const char* h = "class,v1,v2\n";
  strcpy(b, h); m = (int)strlen(h);
  int st = m;
  if (k == 0) { for (int i = 0; i < n; ++i) { b[m] = (char)sym_u8("byte"); sym_assume(b[m] != 0 && b[m] != '\n'); ++m; } b[m++] = '\n'; }
  else for (const char* q = t[k]; *q; ++q, ++m) {
    if (*q == '#') { b[m] = (char)sym_u8("d"); sym_assume(b[m] >= '0' && b[m] <= '9'); }
    else if (*q == '?') { b[m] = (char)sym_u8("b"); sym_assume(b[m] != 0 && b[m] != '\n'); }
    else b[m] = *q;
  }
  sym_file_put("t.csv", b, (size_t)m);
  b[m] = 0;
  Spec s;
  int w = specCsv(b + st, s);
  readOne("csv", "t.csv", w, s, false);
  sym_reach("done");
}
// a long line: many fixed entries before the part the solver chooses
static char lb[40000];
static void longLine(int csv, int nf, int k) {
  static const char* tail[] = {"~####:#.#~9###:-#\n", "~####:#?\n", "~#?#:#\n", "~####:#", "~8###:#.#~9###:-#\n", "~9###:#?\n", "~9?##:#\n", "~9###:#"};
  static const char* ctail[] = {",#.#,-#\n", ",#?\n", ",#?#\n", ",#"};
  int n = 0, st = 0;
  if (csv) { n += snprintf(lb, sizeof lb, "class"); for (int i = 0; i < nf + 2; ++i) n += snprintf(lb + n, sizeof lb - n, ",v%d", i + 1); lb[n++] = '\n'; st = n; }
  n += snprintf(lb + n, sizeof lb - n, "-3");
  for (int i = 0; i < nf; ++i) n += csv ? snprintf(lb + n, sizeof lb - n, ",%d.5", i % 50) : snprintf(lb + n, sizeof lb - n, " %d:%d.25", i + 5, i % 90);
  for (const char* t = csv ? ctail[k] : tail[nf > 100 ? k + 4 : k]; *t; ++t, ++n) {
    if (*t == '#') { lb[n] = (char)sym_u8("d"); sym_assume(lb[n] >= '0' && lb[n] <= '9'); }
    else if (*t == '~') { lb[n] = (char)sym_u8("s"); sym_assume(lb[n] == ' ' || lb[n] == '\t'); }
    else if (*t == '?') { lb[n] = (char)sym_u8("b"); sym_assume(lb[n] != 0 && lb[n] != '\n'); }
    else lb[n] = *t;
  }
  sym_file_put("t.dat", lb, (size_t)n);
  lb[n] = 0;
  static Spec s;
  int w = csv ? specCsv(lb + st, s) : specSvm(lb, s);
  readOne(csv ? "csv" : "svm", "t.dat", w, s, true);
  sym_reach("done");
}
// round trip of many wide examples
static void wideTrip(int csv, int nf, int ne) {
  static const float V[] = {1, -1, 0.5f, 0.1f, -0.25f, 123456, 1e-5f, 3.25e10f, -7.5e-12f, 99999.5f, 1e-30f, 3e38f, 0.333333f, -2, 1000000, 12.5f, 0.0001f, 1234.56f, -0.000999999f};
  static const int L[] = {1, -1, 0, 2147483647, -2147483647 - 1, 10, -10, 99999};
  unsigned extra = csv ? 0 : sym_u32("index"); int lab = csv || nf * ne > 600 ? 3 : anyLabel();
  if (!csv) sym_assume(extra > 40000 && extra < 100000);
  auto idx = [&](int k, int i) { return (index_t)(csv ? 1 + 2 * i + k % 2 : k == ne - 1 && i == nf - 1 ? extra : (unsigned)(1 + i * (1 + k % 3) + k)); };
  auto width = [&](int k) { return k % 4 == 3 && k < ne - 1 && k % 7 < nf ? k % 7 : nf; };
  auto val = [&](int k, int i) { return V[(i * 3 + k) % 19]; };
  auto label = [&](int k) { return k == ne - 2 ? lab : L[k % 8]; };
  {
    std::unique_ptr<DataWriter> w(DataWriter::Create(csv ? "csv" : "svm"));
    REQ(w->Open("t.dat") == Status_OK, "open for writing");
    index_t d = (index_t)(2 * nf + 2);
    REQ(w->SetExtraInfo((const char*)&d) == Status_OK, "extra info accepted");
    for (int k = 0; k < ne; ++k) { DataPoint p; p.set_label(label(k)); for (int i = 0; i < width(k); ++i) p.AddNewFeat(idx(k, i), val(k, i)); REQ(w->Write(p) == Status_OK, "write status"); }
    w->Close();
  }
  std::unique_ptr<DataReader> r(DataReader::Create(csv ? "csv" : "svm"));
  REQ(r->Open("t.dat") == Status_OK, "open for reading");
  DataPoint p;
  for (int pass = 0; pass < 2; ++pass) {
    for (int k = 0; k < ne; ++k) {
      REQ(r->Next(p) == Status_OK, "every example is delivered");
      REQ(p.label() == label(k), "label as written");
      REQ(p.size() == (size_t)width(k), "number of features as written");
      for (int i = 0; i < width(k); ++i) { REQ(p.index(i) == idx(k, i), "index as written"); double d = p.feature(i) - (double)val(k, i), t = 2e-6 * val(k, i); if (t < 0) t = -t; REQ(d <= t && -d <= t, "value as written"); }
    }
    REQ(r->Next(p) == Status_EndOfFile, "end of file after the last example");
    r->Rewind();
  }
  sym_reach("done");
}
extern "C" void harness(int kind, int a, int b, int c) {
  if (kind == 0) arbitrary(a, b);
  else if (kind == 1) templ(a);
  else if (kind == 2) rtInts(a, b);
  else if (kind == 3) rtVals(a ? "csv" : "svm", b);
  else if (kind == 4) csvPattern(a, b, c);
  else if (kind == 6) longLine(a, b, c);
  else if (kind == 7) wideTrip(a, b, c);
  else csvLine(a, b);
}
