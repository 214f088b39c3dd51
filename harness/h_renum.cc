// what is learned depends on the features' values, not on their numbers, on absent features or on how examples are stored
#include "model_util.h"
static const char* nm[] = {"perceptron", "ogd", "stg", "fobos-l1", "pet", "pa", "pa1", "pa2", "alma2", "rda", "rda-l1", "erda-l1", "sop", "cw", "eccw", "arow", "sofs", "ada-fobos", "ada-fobos-l1", "adafobos-ofs", "ada-rda", "ada-rda-l1", "adarda-ofs", "fofs"};
static const int maps[][4] = {{0, 1, 2, 3}, {0, 2, 3, 5}, {0, 1, 7, 40}, {0, 4, 127, 700}, {0, 1, 2, 3000}};
static OnlineLinearModel* make(int alg, int cls, int budget, int be) {
  OnlineLinearModel* m = mk(nm[alg], cls);
  if (be) m->SetParameter("bias_eta", "0.5");
  if (alg >= 1 && alg <= 4) m->SetParameter("power_t", "0");
  if (alg == 2 || alg == 3 || alg == 10 || alg == 11 || alg == 18 || alg == 21) m->SetParameter("lambda", "0.125");
  if (alg == 23) m->SetParameter("lambda", "0.25");
  if (budget) m->SetParameter("B", num(budget));
  m->BeginTrain();
  return m;
}
static const unsigned masks[][4] = {{3, 6, 5, 3}, {1, 4, 7, 2}, {7, 1, 6, 4}};
static const float fx[4][3] = {{3, 4, 0}, {0, 3, 4}, {4, 3, 0}, {0, 0, 1}};
// nsym: the last examples whose values are symbolic
extern "C" void harness(int alg, int cls, int map, int flags, int steps, int nsym) {
  int single = flags & 64, budget = flags & 3, zeros = flags & 4, be = flags & 8; const unsigned* mk_ = masks[flags >> 4 & 3];
  OnlineLinearModel *a = make(alg, cls, budget, be), *b = make(alg, cls, budget, be);
  float s[MC], t[MC]; const int* M = maps[map];
  for (int n = 0; n < steps; ++n) {
    int label = n < steps - nsym ? (cls == 2 ? (n & 1 ? -1 : 1) : n % cls) : anyLabel(cls);
    DataPoint p, q; p.set_label(label); q.set_label(label);
    int last = 0, used = 0;
    for (int i = 1; i <= 3; ++i) {
      if (zeros) for (int z = last + 1; z < M[i] && z < last + 3; ++z) q.AddNewFeat(z, 0.f);
      last = M[i];
      if (!(mk_[n] >> (i - 1) & 1)) { if (zeros) q.AddNewFeat(M[i], 0.f); continue; }
      float v = fx[n][i - 1] + (fx[n][i - 1] == 0 ? 1 : 0);
      if (n >= steps - nsym && !(single && used)) { v = sym_real("x", 8); used = 1; sym_assume(v >= 0.0625f || v <= -0.0625f); }
      p.AddNewFeat(i, v); q.AddNewFeat(M[i], v);
    }
    label_t la = a->Iterate(p, s), lb = b->Iterate(q, t);
    REQ(la == lb, "the same predictions for renumbered features");
    for (int c = 0; c < a->clf_num(); ++c) sym_close(t[c], s[c], "the same scores for renumbered features");
    REQ(a->update_num() == b->update_num(), "the same updates for renumbered features");
  }
  a->EndTrain(); b->EndTrain();
  for (int c = 0; c < a->clf_num(); ++c) {
    int k = 0;
    for (int i = 0; i < (int)b->w(c).dim(); ++i) {
      if (k <= 3 && i == M[k]) { sym_close(b->w(c)[i], wOf(a, c, k), "the same weights for renumbered features"); ++k; }
      else sym_close(b->w(c)[i], 0, "features that never occurred have no weight");
    }
    for (; k <= 3; ++k) sym_close(wOf(a, c, k), 0, "the same weights for renumbered features");
  }
  DataPoint p, q;
  for (int i = 1; i <= 3; ++i) { float v = flags & 128 ? (float)i : sym_real("q", 8); p.AddNewFeat(i, v); q.AddNewFeat(M[i], v); }
  a->Predict(p, s); b->Predict(q, t);
  for (int c = 0; c < a->clf_num(); ++c) sym_close(t[c], s[c], "the same scores for renumbered features");
  delete a; delete b;
  sym_reach("done");
}
