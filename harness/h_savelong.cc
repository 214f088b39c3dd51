// models with many weights and classes, trained for a while, saved, restored and trained further (single precision)
#include "model_util.h"
#include "sol/c_api.h"
#include <vector>
static const char* nm[] = {"perceptron", "ogd", "stg", "fobos-l1", "pet", "pa", "pa1", "pa2", "alma2", "rda", "rda-l1", "erda-l1", "sop", "cw", "eccw", "arow", "sofs", "ada-fobos", "ada-fobos-l1", "adafobos-ofs", "ada-rda", "ada-rda-l1", "adarda-ofs", "fofs"};
static D ab(D v) { return v < 0 ? -v : v; }
static bool near(D a, D b, D t) { D m = ab(a) > ab(b) ? ab(a) : ab(b); if (m < 1) m = 1; return ab(a - b) <= t * m; }
static unsigned rs; static unsigned rnd() { rs = rs * 1664525u + 1013904223u; return rs >> 9; }
static int example(DataPoint& dp, int n, int F, int top, int cls) {
  D hid = 0; int cnt = 0;
  dp.Clear();
  for (int i = 1; i <= F; ++i) {
    if (i > top || (rnd() % 3 && !(i == top && cnt == 0))) continue;
    D x = ((int)(rnd() % 15) - 7) / 4.0 + 0.125; ++cnt; hid += x * (i % 4 - 1.5); dp.AddNewFeat(i, (real_t)x);
  }
  int y = cls == 2 ? (hid > 0 ? 1 : -1) : (int)(ab(hid) * 2) % cls;
  if (n % 6 == 2 && sym_pick("other label", 0, 1)) y = cls == 2 ? -y : (y + 1) % cls;
  dp.set_label(y);
  return y;
}
struct KV { std::vector<std::string> k, v; };
static void collect(void* u, const char* n, const char* v) { ((KV*)u)->k.push_back(n); ((KV*)u)->v.push_back(v); }
// alg, classes, examples before saving, features, seed, flags: 1 bias
extern "C" void harness(int alg, int cls, int steps, int F, int seed, int flags) {
  rs = seed;
  void* o = sol_CreateModel(nm[alg], cls);
  OnlineLinearModel* m = (OnlineLinearModel*)o;
  int C = m->clf_num(); float pr[16], pr2[16]; DataPoint dp;
  if (flags & 1) m->SetParameter("bias_eta", "0.5");
  if (alg >= 1 && alg <= 4) m->SetParameter("power_t", "0");
  if (alg == 2 || alg == 3 || alg == 10 || alg == 11 || alg == 18 || alg == 21) m->SetParameter("lambda", "0.0625");
  m->BeginTrain();
  for (int n = 0; n < steps; ++n) { example(dp, n, F, F < 5 ? F : 4 + (F - 4) * (n + 1) / steps, cls); m->Iterate(dp, pr); }
  if (alg == 2 || alg == 3 || alg == 18 || flags & 2) m->EndTrain();
  REQ(sol_SaveModel(o, "m.model") == 0, "saved");
  void* r = sol_RestoreModel("m.model");
  REQ(r != nullptr, "restored");
  if (!r) return;
  OnlineLinearModel* q = (OnlineLinearModel*)r;
  REQ(q->class_num() == cls && q->clf_num() == C && q->name() == m->name(), "the same kind of model");
  REQ(q->w(0).dim() == m->w(0).dim(), "the same dimension");
  for (int c = 0; c < C; ++c) for (int i = 0; i < (int)m->w(0).dim(); ++i) REQ(near(q->w(c)[i], m->w(c)[i], 2e-5), "the same weights");
  KV p, s; sol_GetModelParameters(o, collect, &p); sol_GetModelParameters(r, collect, &s);
  REQ(p.k == s.k && p.v == s.v, "the same parameters");
  REQ(sol_SaveModel(r, "m2.model") == 0, "saved");
  static char a[200000], b[200000]; long la = sym_file_get("m.model", a, sizeof a), lb = sym_file_get("m2.model", b, sizeof b);
  REQ(la == lb && la > 100 && memcmp(a, b, (size_t)la) == 0, "a restored model is saved as it was");
  sym_reach("compared");
  if (flags & 2) {   // finished models: predictions
    for (int n = 0; n < 8; ++n) { example(dp, n + 1, F, F, cls); m->Predict(dp, pr); q->Predict(dp, pr2); for (int c = 0; c < C; ++c) REQ(near(pr2[c], pr[c], 1e-3), "a restored model predicts as the trained one"); }
  } else {
    q->BeginTrain();
    long diff = (long)m->update_num() - (long)q->update_num();
    for (int n = 0; n < 9; ++n) {
      int y = example(dp, n, F, F, cls);
      m->Iterate(dp, pr); q->Iterate(dp, pr2);
      for (int c = 0; c < C; ++c) REQ(near(pr2[c], pr[c], 5e-3), "the same scores in further training");
      // too close to call with weights of six digits
      D z; if (C == 1) z = y * (D)pr[0]; else { int k = -1; for (int c = 0; c < C; ++c) if (c != y && (k < 0 || pr[c] > pr[k])) k = c; z = (D)pr[y] - pr[k]; for (int c = 0; c < C; ++c) if (c != y && c != k && pr[c] != pr[k] && ab((D)pr[c] - pr[k]) < 0.02) sym_exit(); }
      if (ab(z) < 0.02 || ab(z - 1) < 0.02) sym_exit();
      if (alg == 8 || alg == 13 || alg == 14) { if ((long)m->update_num() - (long)q->update_num() != diff) sym_exit(); }
      else REQ((long)m->update_num() - (long)q->update_num() == diff, "updates for the same examples in further training");
    }
    m->EndTrain(); q->EndTrain();
    for (int c = 0; c < C; ++c) for (int i = 0; i < (int)m->w(0).dim(); ++i) REQ(near(q->w(c)[i], m->w(c)[i], 5e-3), "the same weights after further training");
  }
  sol_ReleaseModel(&o); sol_ReleaseModel(&r);
  sym_reach("done");
}
