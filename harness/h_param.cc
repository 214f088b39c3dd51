// parameters through the C interface
#include "model_util.h"
#include "api_util.h"
static const char* nm[] = {"perceptron", "ogd", "stg", "fobos-l1", "pet", "pa", "pa1", "pa2", "alma2", "rda", "rda-l1", "erda-l1", "sop", "cw", "eccw", "arow", "sofs", "ada-fobos", "ada-fobos-l1", "adafobos-ofs", "ada-rda", "ada-rda-l1", "adarda-ofs", "fofs"};
// range: 0 at least zero, 1 more than zero, 2 in (0,1], 3 positive numbers are accepted, nothing said of others; whole: whole numbers
struct Par { const char* n; int range; bool whole; const char* later; };   // later: a value to change to between two training runs
static const Par common[] = {{"bias_eta", 0, false, "0.5"}, {"active_smoothness", 1, false, nullptr}, {"cost_margin", 1, false, "2"}, {"t", 0, true, nullptr}, {"dim", 0, true, nullptr}, {"exp_show", 3, true, nullptr}, {"step_show", 3, true, nullptr}};
static const int NC = 7;
#define ETA {"eta", 0, false, "0.5"}
#define LAMBDA {"lambda", 0, false, "0.25"}
#define DELTA {"delta", 1, false, "2"}
#define POW {"power_t", 0, false, "0"}
#define BB {"B", 0, true, "1"}
static const Par own[24][5] = {{}, {ETA, POW}, {ETA, POW, LAMBDA, {"k", 1, true, "2"}, {"sparse_thresh", 3, false, nullptr}}, {ETA, POW, LAMBDA, {"sparse_thresh", 3, false, nullptr}}, {ETA, POW, BB}, {}, {{"C", 3, false, "0.25"}}, {{"C", 3, false, "0.25"}},
  {{"alpha", 2, false, "0.5"}, {"C", 3, false, "0.25"}, {"k", 1, true, "4"}, {"p", 3, true, nullptr}}, {{"sigma", 1, false, "2"}}, {{"sigma", 1, false, "2"}, LAMBDA, {"sparse_thresh", 3, false, nullptr}}, {{"sigma", 1, false, "2"}, LAMBDA, {"rou", 0, false, "0.5"}, {"sparse_thresh", 3, false, nullptr}},
  {{"a", 3, false, "2"}}, {{"a", 3, false, "2"}, {"phi", 3, false, "1"}}, {{"a", 3, false, "2"}, {"phi", 3, false, "1"}}, {{"r", 3, false, "2"}}, {{"r", 3, false, "2"}, BB}, {ETA, DELTA}, {ETA, DELTA, LAMBDA, {"sparse_thresh", 3, false, nullptr}}, {ETA, DELTA, BB},
  {ETA, DELTA}, {ETA, DELTA, LAMBDA, {"sparse_thresh", 3, false, nullptr}}, {ETA, DELTA, BB}, {ETA, {"lambda", 0, false, "0.25"}, BB}};
static const char* texts[] = {"loss", "norm", "filter", "lazy_update", "model", "cls_num", "clf_num", "eta", "power_t", "lambda", "k", "sparse_thresh", "B", "C", "alpha", "p", "sigma", "rou", "a", "phi", "r", "delta"};
static const Par* parOf(int alg, int i) { return i < NC ? &common[i] : i - NC < 5 && own[alg][i - NC].n ? &own[alg][i - NC] : nullptr; }
struct KV { std::vector<std::string> k, v; };
static void collect(void* u, const char* n, const char* v) { ((KV*)u)->k.push_back(n); ((KV*)u)->v.push_back(v); }
static void get(void* o, KV& p) { p.k.clear(); p.v.clear(); sol_GetModelParameters(o, collect, &p); }
static void sameText(const std::string& a, const std::string& b, const char* label) {
  if (numericText(a) && numericText(b)) sym_close(std::stod(a), std::stod(b), label); else REQ(a == b, label);
}
static void unchanged(void* o, const KV& p, const char* label) {
  KV q; get(o, q);
  REQ(p.k.size() == q.k.size() && p.k.size() > 5, label);
  for (size_t i = 0; i < p.k.size() && i < q.k.size(); ++i) { REQ(p.k[i] == q.k[i], label); sameText(p.v[i], q.v[i], label); }
}
static void fixedEx(Ex& e, int label, unsigned mask, D a, D b) {
  e.label = label; e.mask = mask; e.dp.Clear(); e.dp.set_label(label);
  for (int i = 0; i < MD; ++i) e.x[i] = 0;
  D v[2] = {a, b};
  for (int i = 1; i <= 2; ++i) if (mask >> (i - 1) & 1) { e.x[i] = v[i - 1]; e.dp.AddNewFeat(i, (real_t)v[i - 1]); }
}
static void* fresh(int alg, int cls) {
  void* o = sol_CreateModel(nm[alg], cls); REQ(o != nullptr, "the model exists");
  sol_InspectOnlineIteration(o, quietIteration, nullptr);
  return o;
}
static void train(void* o, int from) {
  static const double X[] = {3, 4, 0, 3, 4, 3, 1, 0}, Y[] = {1, 0, 0, 1};
  Table t; t.n = 2; t.cols = 2;
  for (int i = 0; i < 2; ++i) { t.x[2 * i] = X[2 * (from + i)]; t.x[2 * i + 1] = X[2 * (from + i) + 1]; t.y[i] = Y[from + i]; }
  void* it = loadTable(t, 1);
  float e = sol_Train(o, it);
  REQ(e >= 0 && e <= 1, "training works");
  sol_ReleaseDataIter(&it);
}
static void sameModel(void* a, void* b, const char* label) {
  OnlineLinearModel *m = (OnlineLinearModel*)a, *q = (OnlineLinearModel*)b;
  REQ(m->update_num() == q->update_num() && m->w(0).dim() == q->w(0).dim(), label);
  for (int c = 0; c < m->clf_num(); ++c) for (int i = 0; i < (int)m->w(c).dim() && i < (int)q->w(c).dim(); ++i) sym_close(m->w(c)[i], q->w(c)[i], label);
}
static bool accepted(int alg, int cls, const Par& p, float v) {
  if (!strcmp(p.n, "cost_margin") && cls > 2) return false;
  return p.range == 0 ? v >= 0 : p.range == 1 ? v > 0 : p.range == 2 ? v > 0 && v <= 1 : true;
}
// any number for a parameter of a new or a trained model
static void number(int alg, int cls, int i, int trained) {
  const Par* p = parOf(alg, i); if (!p) { sym_reach("done"); return; }
  void *o = fresh(alg, cls), *twin = fresh(alg, cls);
  if (trained) { train(o, 0); train(twin, 0); }
  KV was; get(o, was);
  std::string t; float v;
  if (p->whole) { int k = sym_pick("value", -2, 5); t = num(k); v = (float)k; }
  else { v = sym_real("value", 4); if (p->range == 3) sym_assume(v > 0.0625f); t = sym_text(v); }
  if (p->range == 3 && v <= 0) { sym_reach("done"); return; }
  int st = sol_SetModelParameter(o, p->n, t.c_str());
  bool ok = accepted(alg, cls, *p, v);
  REQ((st == 0) == ok, ok ? "a value in range is accepted" : "a value out of range is refused");
  if (st == 0) {
    KV now; get(o, now);
    const char* rep = !strcmp(p->n, "B") && alg != 23 ? "lambda" : p->n;
    bool shown = !strcmp(p->n, "exp_show") || !strcmp(p->n, "step_show");
    for (size_t j = 0; j < now.k.size(); ++j) {
      if (now.k[j] == rep) {
        shown = true;
        if (!strcmp(rep, "dim")) continue;      // never shrinks
        sym_close(std::stod(now.v[j]), v, "an accepted value is reported");
      } else if (j < was.k.size() && now.k.size() == was.k.size()) sameText(now.v[j], was.v[j], "other parameters stay as they were");
    }
    REQ(shown, "an accepted parameter is reported");
  } else {
    unchanged(o, was, "a refused value changes no parameter");
    train(o, 2); train(twin, 2);
    sameModel(o, twin, "a refused value changes nothing in training");
  }
  sol_ReleaseModel(&o); sol_ReleaseModel(&twin);
  sym_reach("done");
}
static bool startsNumber(const std::string& s, bool whole) {
  size_t i = 0;
  while (i < s.size() && (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13))) ++i;
  if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
  if (!whole && i < s.size() && s[i] == '.') ++i;
  return i < s.size() && s[i] >= '0' && s[i] <= '9';
}
// any short text
static void text(int alg, int cls, int which, int k) {
  void *o = fresh(alg, cls), *twin = fresh(alg, cls);
  KV was; get(o, was);
  const Par* p = which < 100 ? parOf(alg, which) : nullptr;
  if (which < 100 && !p) { sym_reach("done"); return; }
  const char* n = p ? p->n : texts[which - 100];
  std::string t;
  for (int i = 0; i < k; ++i) { char c = (char)sym_u8("char"); sym_assume(c != 0); t.push_back(c); }
  int st = sol_SetModelParameter(o, n, t.c_str());
  if (st == 0) {
    if (p) REQ(startsNumber(t, p->whole), "what is no number is refused");
    else if (which == 101) REQ(alg == 8 ? t == "L2" || startsNumber(t, true) : t == "L1" || t == "L2" || startsNumber(t, true), "an unknown norm is refused");
    else if (which != 103) REQ(which >= 105 && startsNumber(t, true), "an unknown loss, file or model is refused");
    if (which >= 105 && k == 1) REQ(t[0] - '0' == (which == 105 || cls > 2 ? cls : 1), "the number of classes cannot be changed");
  } else {
    unchanged(o, was, "a refused text changes no parameter");
    train(o, 0); train(twin, 0);
    sameModel(o, twin, "a refused text changes nothing in training");
  }
  sol_ReleaseModel(&o); sol_ReleaseModel(&twin);
  sym_reach("done");
}
// any loss, before or after training
static void losses(int alg, int cls, int trained) {
  static const char* ln[] = {"bool", "hinge", "logistic", "square", "maxscore-bool", "maxscore-hinge", "maxscore-logistic", "uniform-bool", "uniform-hinge", "uniform-logistic", "none", "", "hing", "hinge "};
  static const int kind[] = {1, 2, 4, 0, 9, 10, 12, 9, 10, 12, 0, 0, 0, 0};   // 1 bool 2 hinge 4 logistic, 8 for many classes
  void *o = fresh(alg, cls), *twin = fresh(alg, cls);
  if (trained) { train(o, 0); train(twin, 0); }
  KV was; get(o, was);
  int i = sym_pick("loss", 0, 13);
  int st = sol_SetModelParameter(o, "loss", ln[i]);
  int need = alg == 0 || alg == 12 ? 1 : (alg == 8 || (alg >= 13 && alg <= 16)) ? 2 : 7;
  bool ok = (kind[i] & need) && (cls == 2) == ((kind[i] & 8) == 0);
  REQ((st == 0) == ok, ok ? "a fitting loss is accepted" : "a loss that does not fit is refused");
  if (st == 0) {
    KV now; get(o, now);
    for (size_t j = 0; j < now.k.size(); ++j) if (now.k[j] == "loss") REQ(now.v[j] == ln[i], "the loss is reported");
    train(o, 2);
  } else {
    unchanged(o, was, "a refused loss changes no parameter");
    train(o, 2); train(twin, 2);
    sameModel(o, twin, "a refused loss changes nothing in training");
  }
  sol_ReleaseModel(&o); sol_ReleaseModel(&twin);
  sym_reach("done");
}
// any short name
static void names(int alg, int cls, int k) {
  void* o = fresh(alg, cls);
  KV was; get(o, was);
  std::string t;
  for (int i = 0; i < k; ++i) { char c = (char)sym_u8("char"); sym_assume(c != 0); t.push_back(c); }
  int st = sol_SetModelParameter(o, t.c_str(), "1");
  bool known = false;
  for (int i = 0; i < NC + 5; ++i) { const Par* p = parOf(alg, i); if (p && t == p->n) known = true; }
  if (t == "t0") { sym_reach("done"); return; }   // the name under which regularizers keep t
  if (known) REQ(st == 0, "the parameters of the algorithm are accepted");
  else { REQ(st != 0, "a parameter the algorithm does not have is refused"); unchanged(o, was, "a refused name changes nothing"); }
  sol_ReleaseModel(&o);
  sym_reach("done");
}
// a parameter changed between two training runs: as if the model had been saved, restored and then changed
static void later(int alg, int cls, int i, int plain) {
  const Par* p = i == 50 ? nullptr : parOf(alg, i); if (i != 50 && (!p || !p->later || (cls > 2 && i == 2))) { sym_reach("done"); return; }
  if (i == 2 && (alg == 0 || alg == 12)) { sym_reach("done"); return; }
  void* o = fresh(alg, cls);
  if (alg >= 1 && alg <= 4) sol_SetModelParameter(o, "power_t", "0");
  for (int j = 0; j < 5 && own[alg][j].n; ++j) if (!strcmp(own[alg][j].n, "lambda") && alg != 23) sol_SetModelParameter(o, "lambda", "0.125");
  train(o, 0);
  REQ(sol_SaveModel(o, "m.model") == 0, "saved");
  void* r = sol_RestoreModel("m.model");
  REQ(r != nullptr, "restored"); if (!r) return;
  const char* n = p ? p->n : "loss"; const char* v = p ? p->later : alg == 0 || alg == 12 ? (cls == 2 ? "bool" : "uniform-bool") : cls == 2 ? "hinge" : "uniform-hinge";
  REQ(sol_SetModelParameter(o, n, v) == 0 && sol_SetModelParameter(r, n, v) == 0, "accepted");
  OnlineLinearModel *m = (OnlineLinearModel*)o, *q = (OnlineLinearModel*)r;
  float s1[MC], s2[MC];
  sol_InspectOnlineIteration(r, quietIteration, nullptr);
  train(o, 2); train(r, 2);
  size_t u = m->update_num() - q->update_num();
  Ex e; fixedEx(e, 1, 3, 3, 4);
  if (!plain) e.dp.feature(0) = sym_real("x", 8);
  (void)u; (void)s1; (void)s2;
  m->Iterate(e.dp, s1); q->Iterate(e.dp, s2);
  for (int c = 0; c < m->clf_num(); ++c) sym_close(s1[c], s2[c], "a parameter changed between two training runs takes effect");
  sol_ReleaseModel(&o); sol_ReleaseModel(&r);
  sym_reach("done");
}
extern "C" void harness(int kind, int alg, int cls, int a, int b) {
  if (kind == 0) number(alg, cls, a, b);
  else if (kind == 1) text(alg, cls, a, b);
  else if (kind == 2) losses(alg, cls, a);
  else if (kind == 3) names(alg, cls, a);
  else later(alg, cls, a, b);
}
