// saving and restoring models
#include "model_util.h"
#include "sol/c_api.h"
#include <vector>
static const char* nm[] = {"perceptron", "ogd", "stg", "fobos-l1", "pet", "pa", "pa1", "pa2", "alma2", "rda", "rda-l1", "erda-l1", "sop", "cw", "eccw", "arow", "sofs", "ada-fobos", "ada-fobos-l1", "adafobos-ofs", "ada-rda", "ada-rda-l1", "adarda-ofs", "fofs"};
struct Par { const char* n; float lo, hi; };
static const Par par[24][4] = {{}, {{"eta", 0.125f, 4}}, {{"eta", 0.125f, 4}, {"lambda", 0, 1}}, {{"eta", 0.125f, 4}, {"lambda", 0, 1}}, {{"eta", 0.125f, 4}}, {}, {{"C", 0.125f, 8}}, {{"C", 0.125f, 8}}, {{"alpha", 0.125f, 0.9375f}, {"C", 0.125f, 8}},
  {{"sigma", 0.125f, 4}}, {{"sigma", 0.125f, 4}, {"lambda", 0, 1}}, {{"sigma", 0.125f, 4}, {"lambda", 0, 1}, {"rou", 0, 1}}, {{"a", 0.125f, 8}}, {{"a", 0.125f, 4}, {"phi", 0.125f, 2}}, {{"a", 0.125f, 4}, {"phi", 0.125f, 2}}, {{"r", 0.125f, 8}}, {{"r", 0.125f, 8}},
  {{"eta", 0.125f, 4}, {"delta", 0.125f, 16}}, {{"eta", 0.125f, 4}, {"delta", 0.125f, 16}, {"lambda", 0, 1}}, {{"eta", 0.125f, 4}, {"delta", 0.125f, 16}}, {{"eta", 0.125f, 4}, {"delta", 0.125f, 16}}, {{"eta", 0.125f, 4}, {"delta", 0.125f, 16}, {"lambda", 0, 1}}, {{"eta", 0.125f, 4}, {"delta", 0.125f, 16}}, {{"eta", 0.125f, 4}, {"lambda", 0, 0.5f}}};
struct KV { std::vector<std::string> k, v; };
static void collect(void* u, const char* n, const char* v) { ((KV*)u)->k.push_back(n); ((KV*)u)->v.push_back(v); }
static bool numeric(const std::string& s) { if (s.empty()) return false; for (char c : s) if (!((c >= '0' && c <= '9') || c == '.' || c == '-' || c == '+' || c == 'e')) return false; return true; }
static void sameText(const std::string& a, const std::string& b, const char* label) {
  if (numeric(a) && numeric(b)) sym_close(std::stod(a), std::stod(b), label); else REQ(a == b, label);
}
static void sameParams(void* a, void* b, const char* label) {
  KV p, q;
  sol_GetModelParameters(a, collect, &p); sol_GetModelParameters(b, collect, &q);
  REQ(p.k.size() == q.k.size() && p.k.size() > 5, label);
  for (size_t i = 0; i < p.k.size() && i < q.k.size(); ++i) { REQ(p.k[i] == q.k[i], label); sameText(p.v[i], q.v[i], label); }
}
// parameters set so far
static std::vector<std::string> sk, sv;
static void setP(void* o, const char* n, const std::string& v) {
  REQ(sol_SetModelParameter(o, n, v.c_str()) == 0, "accepted");
  sk.push_back(n); sv.push_back(v);
}
static void keptParams(void* r, const char* label) {
  KV p; sol_GetModelParameters(r, collect, &p);
  for (size_t i = 0; i < sk.size(); ++i) {
    bool found = false;
    for (size_t j = 0; j < p.k.size(); ++j) if (p.k[j] == sk[i] || (p.k[j] == "lambda" && sk[i] == "B")) { found = true; sameText(p.v[j], sv[i], label); break; }
    REQ(found, label);
  }
}
static std::vector<std::string> words(const char* path) {
  static char buf[8192]; long n = sym_file_get(path, buf, sizeof buf);
  std::vector<std::string> r; std::string w;
  for (long i = 0; i < n; ++i) { char c = buf[i]; if (c == ' ' || c == '\n' || c == ',') { if (!w.empty()) r.push_back(w); w.clear(); } else w.push_back(c); }
  if (!w.empty()) r.push_back(w);
  return r;
}
static void fixedEx(Ex& e, int label, unsigned mask, D a, D b) {
  e.label = label; e.mask = mask; e.dp.Clear(); e.dp.set_label(label);
  for (int i = 0; i < MD; ++i) e.x[i] = 0;
  D v[2] = {a, b};
  for (int i = 1; i <= 2; ++i) if (mask >> (i - 1) & 1) { e.x[i] = v[i - 1]; e.dp.AddNewFeat(i, (real_t)v[i - 1]); }
}
static double X[8], Y[4];
static void* load(const double* x, const double* y, int n) {
  void* it = sol_CreateDataIter(2, 2);
  npy_intp dims[2] = {n, 2}, strides[2] = {2 * sizeof(double), sizeof(double)};
  REQ(sol_loadArray(it, (char*)x, (char*)y, dims, strides, 1) == 0, "loaded");
  return it;
}
static void quiet(void*, long long, long long, long long, double) {}
static void train(void* o, int n) {
  sol_InspectOnlineIteration(o, quiet, nullptr);
  void* it = load(X, Y, n);
  sol_Train(o, it);
  sol_ReleaseDataIter(&it);
}
struct Pr { int n; float s[4][MC]; };
static void onPr(void* u, double, double, int k, float* s) { Pr* p = (Pr*)u; for (int c = 0; c < k && c < MC; ++c) p->s[p->n][c] = s[c]; p->n++; }
static void predict(void* o, Pr& p) { p.n = 0; void* it = load(X, Y, 3); REQ(sol_Predict(o, it, onPr, &p) == 3, "three predictions"); sol_ReleaseDataIter(&it); }
// kind 0: arbitrary hyper-parameters and weights of one arbitrary step; 1: training resumed after restoring; 2: trained and saved through the C interface
extern "C" void harness(int kind, int alg, int cls, int flags) {
  void* o = sol_CreateModel(nm[alg], cls);
  REQ(o != nullptr, "the model exists");
  OnlineLinearModel* m = (OnlineLinearModel*)o;
  float pr[MC], pr2[MC];
  if (flags & 1) setP(o, "bias_eta", kind == 0 ? sym_text(sym_realin("bias_eta", 0, 4)) : std::string("0.5"));
  if (flags & 2) { REQ(sol_SetModelParameter(o, "norm", "L2") == 0, "accepted"); setP(o, "lazy_update", "true"); }
  if (flags & 4 && cls == 2) setP(o, "cost_margin", kind == 0 ? sym_text(sym_realin("cost_margin", 0.125f, 8)) : std::string("2"));
  if (flags & 8) { const char* l = alg == 0 || alg == 12 ? "uniform-bool" : cls == 2 ? "logistic" : "maxscore-logistic"; setP(o, "loss", l); }
  if (flags & 256) setP(o, "active_smoothness", sym_text(sym_realin("active_smoothness", 0.125f, 4)));
  if (flags & 512) setP(o, "sparse_thresh", sym_text(sym_realin("sparse_thresh", 0, 1)));
  if (flags & 1024) { setP(o, "power_t", "1"); setP(o, "t", "7"); }
  if (kind == 0) for (int i = 0; i < 4 && par[alg][i].n; ++i) setP(o, par[alg][i].n, sym_text(sym_realin(par[alg][i].n, par[alg][i].lo, par[alg][i].hi)));
  if (kind && alg >= 1 && alg <= 4) setP(o, "power_t", "0");
  if (kind == 1 && flags & 16) setP(o, "B", "1");
  if (kind == 0 && flags & 16) setP(o, "B", "2");
  if (kind == 0) {
    m->SetParameter("dim", "3");
    for (int c = 0; c < m->clf_num(); ++c) for (int i = 0; i < 3; ++i) m->w(c)[i] = sym_real("w", 8);
  } else if (kind == 1) {
    m->BeginTrain();
    Ex e;
    fixedEx(e, 1, 3, 3, 4); m->Iterate(e.dp, pr);
    fixedEx(e, cls == 2 ? -1 : 0, 2, 0, 3); m->Iterate(e.dp, pr);
    if (flags & 32) m->EndTrain();
  } else {
    // a whole training run of two fixed examples and an arbitrary one
    X[0] = 3; X[1] = 4; Y[0] = 1; X[2] = 0; X[3] = 3; Y[1] = 0; X[4] = sym_real("x", 8); X[5] = 1; Y[2] = cls == 2 ? 1 : 2;
    train(o, flags & 64 ? 2 : 3);
  }
  REQ(sol_SaveModel(o, "m.model") == 0, "saved");
  void* r = sol_RestoreModel("m.model");
  REQ(r != nullptr, "restored");
  if (!r) return;
  OnlineLinearModel* q = (OnlineLinearModel*)r;
  REQ(q->class_num() == cls && q->clf_num() == m->clf_num() && q->name() == m->name(), "the same kind of model");
  REQ(q->w(0).dim() == m->w(0).dim(), "the same dimension");
  for (int c = 0; c < m->clf_num(); ++c) for (int i = 0; i < (int)m->w(0).dim(); ++i) sym_close(q->w(c)[i], m->w(c)[i], "the same weights");
  sameParams(o, r, "the same parameters");
  keptParams(r, "the parameters that were set");
  REQ(sol_SaveModel(r, "m2.model") == 0, "saved");
  std::vector<std::string> a = words("m.model"), b = words("m2.model");
  REQ(a.size() == b.size() && a.size() > 10, "a restored model is saved as it was");
  for (size_t i = 0; i < a.size() && i < b.size(); ++i) sameText(a[i], b[i], "a restored model is saved as it was");
  if (kind == 0) {
    Ex e; mkEx(e, 1, 3, 8);
    int p1 = m->Predict(e.dp, pr), p2 = q->Predict(e.dp, pr2);
    (void)p1; (void)p2;
  } else if (kind == 2) {
    Pr a, b; predict(r, b); predict(o, a);
    for (int i = 0; i < 3; ++i) for (int c = 0; c < m->clf_num(); ++c) sym_close(b.s[i][c], a.s[i][c], "a restored model predicts as the trained one");
    for (int c = 0; c < m->clf_num(); ++c) for (int i = 0; i < (int)m->w(0).dim(); ++i) sym_close(q->w(c)[i], m->w(c)[i], "the weights training ended with");
  } else {
    Ex e; mkEx(e, cls == 2 ? 1 : 2, flags & 128 ? 2 : 3, 8);
    q->BeginTrain();
    long n0 = m->update_num() - q->update_num();
    int p1 = m->Iterate(e.dp, pr), p2 = q->Iterate(e.dp, pr2);
    // weights are written with six digits: scores on the very edge of an update are left out
    if (cls == 2) sym_assume((pr[0] <= 0.984375f || pr[0] >= 1.015625f) && (pr[0] <= -0.015625f || pr[0] >= 0.015625f));
    for (int c = 0; c < m->clf_num(); ++c) sym_close(pr2[c], pr[c], "the same scores in further training");
    if (flags & 2048) {
      // the margin of the third step decides whether there is an update
      sym_assume(pr[0] <= 0.0625f || pr[0] >= 0.06640625f);
      REQ(m->update_num() - n0 == q->update_num(), "updates for the same examples in further training");
      sym_reach("done"); return;
    }
    (void)p1; (void)p2;
    m->EndTrain(); q->EndTrain();
    for (int c = 0; c < m->clf_num(); ++c) for (int i = 0; i < (int)m->w(0).dim(); ++i) sym_close(q->w(c)[i], m->w(c)[i], "the same weights after further training");
  }
  sol_ReleaseModel(&o); sol_ReleaseModel(&r);
  REQ(o == nullptr && r == nullptr, "released");
  sym_reach("done");
}
