// the command-line programs: what they leave behind is what the library does with the same data and options
#include "sym.h"
#include <algorithm>
#include <array>
#include <atomic>
#include <bitset>
#include <cassert>
#include <cerrno>
#include <cfloat>
#include <cinttypes>
#include <climits>
#include <cstdarg>
#include <cstddef>
#include <deque>
#include <exception>
#include <initializer_list>
#include <new>
#include <queue>
#include <stack>
#include <type_traits>
#include <unordered_set>
#include <cctype>
#include <cstdint>
#include <ctime>
#include <iomanip>
#include <iterator>
#include <list>
#include <tuple>
#include <typeinfo>
#include <unordered_map>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include <sol/sol.h>
#include <sol/c_api.h>
#include <sol/tools.h>
#include <sol/pario/data_reader.h>
#include <sol/util/str_util.h>
#include <sol/util/reflector.h>
#include <sol/util/error_code.h>
struct Exit { int code; };
static inline void cli_exit(int c) { throw Exit{c}; }
// accuracies the program prints
static double shown[4]; static int nshown;
static inline void note(const char*) {}
template <class A, class... R> static void note(const char* f, A a, R...) { (void)a; (void)f; }
template <class... R> static void note(const char* f, double a, R...) { if (strstr(f, "accuracy") && nshown < 4) shown[nshown++] = a; }
template <class... R> static void note(const char* f, float a, R...) { note(f, (double)a); }
template <class... A> static int cli_fprintf(FILE*, const char* f, A... a) { note(f, a...); return 0; }
namespace std { using ::cli_exit; using ::cli_fprintf; }
#define main cli_main
#define exit cli_exit
#include <cmdline/cmdline.h>
#define fprintf cli_fprintf
namespace p_train {
#include "tools/sol_train.cc"
}
namespace p_test {
#include "tools/sol_test.cc"
}
namespace p_c {
#include "tools/lsol_c.cc"
}
namespace p_concat {
#include "tools/concat.cc"
}
namespace p_conv {
#include "tools/converter.cc"
}
namespace p_split {
#include "tools/split.cc"
}
namespace p_shuf {
#include "tools/shuffle.cc"
}
namespace p_an {
#include "tools/analyze.cc"
}
#undef main
#undef exit
#undef fprintf
using namespace sol; using namespace sol::pario;
typedef std::vector<std::string> Args;
static int run(int (*f)(int, char**), const Args& a) {
  std::vector<std::string> s(a); std::vector<char*> v; s.insert(s.begin(), "prog");
  for (auto& t : s) v.push_back(&t[0]);
  v.push_back(nullptr);
  nshown = 0;
  try { return f((int)s.size(), v.data()); } catch (Exit& e) { return e.code; }
}
static bool sameFile(const char* a, const char* b) {
  static char x[20000], y[20000]; long n = sym_file_get(a, x, sizeof x), m = sym_file_get(b, y, sizeof y);
  return n > 0 && n == m && memcmp(x, y, (size_t)n) == 0;
}
static std::string lineOf(int k, int cls) {
  static const char* v[] = {"1:1 2:0.5\n", "1:-2 3:1.25\n", "2:-0.75\n", "1:0.25 2:-1 3:2\n"};
  char b[64]; int y = cls == 2 ? (k % 2 ? -1 : 1) : k % cls;
  snprintf(b, sizeof b, "%d %s", y, v[k % 4]); return b;
}
// a file of n examples; which ones is for the solver to choose
static void data(const char* path, int n, int cls, bool pick = true) {
  std::string t;
  for (int i = 0; i < n; ++i) t += lineOf(pick && i < 2 ? sym_pick("example", 0, 5) : i * 3 + 1, cls);
  sym_file_put(path, t.data(), t.size());
}
static std::string itoa(int v) { char b[16]; snprintf(b, sizeof b, "%d", v); return b; }
static void quiet(void*, long long, long long, long long, double) {}
struct Opt { const char *algo, *params; int cls; };
static const Opt opts[] = {{"ogd", "", 2}, {"pa1", "C=0.5", 2}, {"perceptron", "bias_eta=0.25; norm = L1 ", 3}, {"arow", " r = 2 ; bias_eta=1", 2}, {"stg", "lambda=0.01;eta=0.5;k=2", 3}, {"ada-rda-l1", "delta=3;lambda=0.02", 2}, {"sop", "a=2", 2}, {"ogd", "eta=0.125", 2}};
static const char* fmtName = "svm";
static float reference(const Opt& o, const char* in, int passes, int batch, const char* from, const char* out) {
  void* m = from ? sol_RestoreModel(from) : sol_CreateModel(o.algo, o.cls);
  REQ(m != nullptr, "the model exists");
  std::string p = o.params;
  for (auto& t : split(p, ';')) { auto kv = split(t, '='); if (kv.size() == 2) REQ(sol_SetModelParameter(m, strip(kv[0]).c_str(), strip(kv[1]).c_str()) == 0, "accepted"); }
  void* it = sol_CreateDataIter(batch, 2);
  REQ(sol_LoadData(it, in, fmtName, passes) == 0, "loaded");
  float e = sol_Train(m, it);
  REQ(sol_SaveModel(m, out) == 0, "saved");
  sol_ReleaseModel(&m); sol_ReleaseDataIter(&it);
  return e;
}
static void accuracy(float err) { if (nshown) { double d = shown[nshown - 1] - (1.0 - err); REQ(d < 1e-6 && d > -1e-6, "the accuracy is shown"); } }
// training (prog 0: sol_train, 1: lsol_c), then testing with what was trained
static void trainTest(int prog, int opt, int n, int batch) {
  const Opt& o = opts[opt];
  int passes = sym_pick("passes", 1, 2);
  data("a.svm", n, o.cls); data("b.svm", 3, o.cls, false);
  static const char* F[] = {"svm", "bin", "csv"}; fmtName = F[(opt + prog) % 3];
  const char *A = "a.svm", *B = "b.svm"; bool other = fmtName != F[0];
  if (other) { A = "a.dat"; B = "b.dat"; REQ(sol::convert("a.svm", "svm", A, fmtName) == 0 && sol::convert("b.svm", "svm", B, fmtName) == 0, "converted"); }
  if (opt == 7 && prog == 0) {  // only what has to be given
    REQ(run(p_train::cli_main, {"a.svm", "m0.model"}) == 0, "training succeeds");
    fmtName = F[0]; Opt d = {"ogd", "", 2}; reference(d, "a.svm", 1, 256, nullptr, "ref0.model"); fmtName = F[(opt + prog) % 3];
    REQ(sameFile("m0.model", "ref0.model"), "ogd on svm data with two classes unless told otherwise");
    REQ(run(p_train::cli_main, {"a.svm"}) == 0, "a model need not be saved");
  }
  Args a = prog == 0 ? Args{"-a", o.algo, "-c", itoa(o.cls), "-p", itoa(passes), "-b", itoa(batch)} : Args{"-t", "train", "-a", o.algo, "-c", itoa(o.cls), "-p", itoa(passes), "-b", itoa(batch), "-i", A, "-o", "m.model"};
  if (other) { a.push_back("-f"); a.push_back(fmtName); }
  if (*o.params) { a.push_back("--params"); a.push_back(o.params); }
  if (prog == 0) { a.push_back(A); a.push_back("m.model"); }
  int (*train)(int, char**) = prog == 0 ? p_train::cli_main : p_c::cli_main;
  REQ(run(train, a) == 0, "training succeeds");
  float e = 0; int ns = nshown; double sh = ns ? shown[ns - 1] : 0;
  e = reference(o, A, passes, batch, nullptr, "ref.model");
  nshown = ns; if (ns) shown[ns - 1] = sh;
  accuracy(e);
  REQ(sameFile("m.model", "ref.model"), "the model is what the library trains with these options");
  // further training of a saved model
  a = prog == 0 ? Args{"-m", "m.model", "-f", fmtName, B, "m2.model"} : Args{"-t", "train", "-m", "m.model", "-f", fmtName, "-i", B, "-o", "m2.model"};
  const char* more = opt % 2 ? "" : "bias_eta=0.75;loss=hinge"; if (o.cls > 2 || opt == 6) more = opt % 2 ? "" : "bias_eta=0.75";
  if (*more) { a.insert(a.begin(), more); a.insert(a.begin(), "--params"); }
  REQ(run(train, a) == 0, "further training succeeds");
  Opt none = o; none.params = more;
  reference(none, B, 1, 256, "m.model", "ref2.model");
  REQ(sameFile("m2.model", "ref2.model"), "a saved model is trained further");
  // testing
  int (*test)(int, char**) = prog == 0 ? p_test::cli_main : p_c::cli_main;
  int filter = sym_pick("filter", 0, 1);
  if (filter) sym_file_put("sel.txt", "1\n3\n", 4);
  a = prog == 0 ? Args{"m.model", B, "out.txt"} : Args{"-t", "test", "-m", "m.model", "-i", B, "-o", "out.txt"};
  if (other) { a.push_back("-f"); a.push_back(fmtName); }
  if (filter) { a.push_back("--filter"); a.push_back("sel.txt"); }
  REQ(run(test, a) == 0, "testing succeeds");
  void* m = sol_RestoreModel("m.model"); if (filter) sol_SetModelParameter(m, "filter", "sel.txt");
  void* it = sol_CreateDataIter(256, 2); sol_LoadData(it, B, fmtName, 1);
  ns = nshown; sh = ns ? shown[ns - 1] : 0;
  e = sol_Test(m, it, "refout.txt");
  nshown = ns; if (ns) shown[ns - 1] = sh;
  accuracy(e);
  sol_ReleaseModel(&m); sol_ReleaseDataIter(&it);
  REQ(sameFile("out.txt", "refout.txt"), "the predictions are those of the model");
  sym_reach("done");
}
// requests that cannot be carried out are reported
static void refused(int prog) {
  int (*train)(int, char**) = prog == 0 ? p_train::cli_main : p_c::cli_main;
  data("a.svm", 2, 2, false);
  Args io = prog == 0 ? Args{"a.svm", "x.model"} : Args{"-i", "a.svm", "-o", "x.model"};
  auto with = [&](Args p, Args q) { p.insert(p.end(), q.begin(), q.end()); return p; };
  switch (sym_pick("request", 0, 8)) {
    case 0: REQ(run(train, with({"-a", "nosuch"}, io)) != 0, "an unknown algorithm"); break;
    case 1: REQ(run(train, with({"-a", "ogd", "--params", "eta=-1"}, io)) != 0, "a parameter out of its range"); break;
    case 2: REQ(run(train, with({"-a", "ogd", "--params", "eta"}, io)) != 0, "a parameter without a value"); break;
    case 3: REQ(run(train, with({"-a", "ogd"}, prog == 0 ? Args{"absent.svm", "x.model"} : Args{"-i", "absent.svm", "-o", "x.model"})) != 0, "missing data"); break;
    case 4: REQ(run(train, with({"-m", "absent.model"}, io)) != 0, "a missing model"); break;
    case 5: REQ(run(train, with({"-a", "ogd", "-f", "pdf"}, io)) != 0, "an unknown format"); break;
    case 6: REQ(run(train, with({"-a", "ogd"}, prog == 0 ? Args{"a.svm", "no/such/dir/x.model"} : Args{"-i", "a.svm", "-o", "no/such/dir/x.model"})) != 0, "a model that cannot be saved"); break;
    case 7: REQ(run(train, with({"-a", "ogd"}, prog == 0 ? Args{"a.svm", "/dev/full"} : Args{"-i", "a.svm", "-o", "/dev/full"})) != 0, "a model that does not fit"); break;
    default: REQ(run(train, with({"-a", "ogd", "-c", "two"}, io)) != 0, "a number that is none"); break;
  }
  REQ(sym_file_size("x.model") < 0, "no model is left behind");
  sym_reach("done");
}
static void refusedTest(int prog) {
  int (*test)(int, char**) = prog == 0 ? p_test::cli_main : p_c::cli_main;
  data("a.svm", 2, 2, false);
  Opt o = opts[0]; reference(o, "a.svm", 1, 256, nullptr, "m.model");
  auto io = [&](const char* m, const char* i, const char* out, Args more) {
    Args a = prog == 0 ? Args{m, i} : Args{"-t", "test", "-m", m, "-i", i};
    if (out) { if (prog) a.push_back("-o"); a.push_back(out); }
    a.insert(a.end(), more.begin(), more.end()); return a; };
  switch (sym_pick("request", 0, prog ? 5 : 7)) {
    case 0: REQ(run(test, io("absent.model", "a.svm", "x.txt", {})) != 0, "a missing model"); break;
    case 1: REQ(run(test, io("m.model", "absent.svm", "x.txt", {})) != 0, "missing data"); break;
    case 2: REQ(run(test, io("m.model", "a.svm", "x.txt", {"-f", "pdf"})) != 0, "an unknown format"); break;
    case 3: sym_file_put("sel.txt", "1\n", 2); REQ(run(test, io("absent.model", "a.svm", "x.txt", {"--filter", "sel.txt"})) != 0, "a missing model, with a filter"); break;
    case 4: REQ(run(test, io("a.svm", "a.svm", "x.txt", {})) != 0, "a model that is none"); break;
    case 5: REQ(run(test, io("m.model", "a.svm", "x.txt", {"-b", "two"})) != 0, "a number that is none"); break;
    case 6: REQ(run(test, io("m.model", "a.svm", "no/such/dir/x.txt", {})) != 0, "predictions that cannot be written"); break;
    default: REQ(run(test, io("m.model", "a.svm", "/dev/full", {})) != 0, "predictions that do not fit"); break;
  }
  REQ(sym_file_size("x.txt") <= 0, "no predictions are left behind");
  sym_reach("done");
}
// concatenation
static void concat(int fmt, int nf) {
  static const char* F[] = {"svm", "bin", "csv"};
  std::string in; int cnt[3]; std::vector<std::string> want; static const char* fn[] = {"a.svm", "b.svm", "c.svm"};
  for (int f = 0; f < nf; ++f) {
    cnt[f] = sym_pick("examples", f ? 0 : 1, 2); std::string t;
    for (int i = 0; i < cnt[f]; ++i) { std::string l = lineOf(sym_pick("example", 0, 3), 2); t += l; want.push_back(l); }
    sym_file_put(fn[f], t.data(), t.size()); in += (f ? ";" : ""); in += fn[f];
  }
  REQ(run(p_concat::cli_main, {"-i", in, "-s", "svm", "-o", "out.dat", "-d", F[fmt]}) == 0, "concatenation succeeds");
  REQ(run(p_concat::cli_main, {"-i", in, "-s", "svm", "-o", "/dev/full", "-d", F[fmt]}) != 0, "what cannot be written is reported");
  REQ(run(p_concat::cli_main, {"-i", in + ";absent.svm", "-s", "svm", "-o", "y.dat", "-d", F[fmt]}) != 0, "a missing file is reported");
  std::unique_ptr<DataReader> r(DataReader::Create(F[fmt]));
  REQ(r->Open("out.dat") == Status_OK, "the result can be read");
  DataPoint p, q;
  for (size_t i = 0; i < want.size(); ++i) {
    sym_file_put("one.svm", want[i].data(), want[i].size());
    std::unique_ptr<DataReader> o(DataReader::Create("svm")); o->Open("one.svm"); o->Next(q);
    REQ(r->Next(p) == Status_OK && p.label() == q.label() && p.size() == q.size(), "every example of every input, in order");
    for (size_t k = 0; k < q.size() && k < p.size(); ++k) REQ(p.index(k) == q.index(k) && p.feature(k) == q.feature(k), "with its features");
  }
  REQ(r->Next(p) != Status_OK, "and nothing else");
  sym_reach("done");
}
// the data programs do what the library functions do
static bool same2(const std::string& a, const std::string& b) { return sameFile(a.c_str(), b.c_str()); }
static void dataTools(int what, int fmt) {
  static const char* F[] = {"svm", "bin", "csv"};
  int n = 3; std::string l[3], t;
  for (int i = 0; i < n; ++i) { l[i] = lineOf(i < 2 ? sym_pick("example", 0, 3) : 3, 2); t += l[i]; }
  sym_file_put("a.svm", t.data(), t.size());
  if (what == 0) {
    Args a{"-i", "a.svm", "-s", "svm", "-o", "x.dat", "-d", F[fmt]}; int b = sym_pick("binarize", 0, 2);
    if (b) { a.push_back("-b"); a.push_back(b == 1 ? "0.5" : "-1.5"); }
    REQ(run(p_conv::cli_main, a) == 0, "conversion succeeds");
    REQ(sol::convert("a.svm", "svm", "r.dat", F[fmt], b != 0, b == 1 ? 0.5f : b == 2 ? -1.5f : 0.f) == 0, "the library converts");
    REQ(same2("x.dat", "r.dat"), "as the library converts");
    REQ(run(p_conv::cli_main, {"-i", "absent.svm", "-s", "svm", "-o", "y.dat", "-d", F[fmt]}) != 0, "missing data");
    REQ(run(p_conv::cli_main, {"-i", "a.svm", "-s", "svm", "-o", "y.dat", "-d", "pdf"}) != 0, "an unknown format");
    REQ(run(p_conv::cli_main, {"-i", "a.svm", "-s", "svm", "-o", "y.dat"}) != 0, "no format");
    REQ(run(p_conv::cli_main, {"-i", "a.svm", "-s", "svm", "-o", "/dev/full", "-d", F[fmt]}) != 0, "what cannot be written");
  } else if (what == 1) {
    int k = sym_pick("parts", 1, 4);
    Args a{"-i", "a.svm", "-s", "svm", "-n", itoa(k), "-o", "x", "-d", F[fmt]};
    int e = run(p_split::cli_main, a), f = sol::split("a.svm", "svm", k, "r", F[fmt], false);
    REQ(e == f, "splits as the library does");
    if (e == 0) for (int i = 0; i < k; ++i) {
      std::string x = "x" + itoa(i) + "." + F[fmt], r = "r" + itoa(i) + "." + F[fmt];
      long u = sym_file_size(x.c_str()), v = sym_file_size(r.c_str());
      REQ(u == v && (u <= 0 || same2(x, r)), "into the same parts");
    }
  } else if (what == 2) {
    int d = sym_pick("type given", 0, 1);
    Args a{"-i", "a.svm", "-s", "svm", "-o", "x.svm"}; if (d) { a.push_back("-d"); a.push_back("svm"); }
    REQ(run(p_shuf::cli_main, a) == 0, "shuffling succeeds");
    REQ(sol::convert("a.svm", "svm", "r.svm", "svm") == 0, "the library converts");
    REQ(sym_file_size("x.svm") == sym_file_size("r.svm"), "nothing is lost or added");
    static char x[4000], r[4000]; long m = sym_file_get("x.svm", x, 4000); sym_file_get("r.svm", r, 4000);
    std::vector<std::string> p, q; std::string c;
    for (long i = 0; i < m; ++i) { c += x[i]; if (x[i] == '\n') { p.push_back(c); c.clear(); } }
    c.clear(); for (long i = 0; i < m; ++i) { c += r[i]; if (r[i] == '\n') { q.push_back(c); c.clear(); } }
    std::sort(p.begin(), p.end()); std::sort(q.begin(), q.end());
    REQ(p == q, "the same examples");
  } else {
    REQ(run(p_an::cli_main, {"-i", "a.svm", "-s", "svm", "-o", "x.txt"}) == 0, "the analysis succeeds");
    REQ(sol::analyze("a.svm", "svm", "r.txt") == 0, "the library analyzes");
    REQ(same2("x.txt", "r.txt"), "as the library analyzes");
    REQ(run(p_an::cli_main, {"-i", "absent.svm", "-s", "svm", "-o", "y.txt"}) != 0, "missing data");
  }
  sym_reach("done");
}
extern "C" void harness(int kind, int a, int b, int c, int d) {
  (void)quiet;
  if (kind == 0) trainTest(a, b, c, d);
  else if (kind == 1) refused(a);
  else if (kind == 3) refusedTest(a);
  else if (kind == 4) dataTools(a, b);
  else concat(a, b);
}
