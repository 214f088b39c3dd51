// first-order learners against their published update rules
#include "model_util.h"
static D h[4];    // hyper-parameters
static float par(OnlineLinearModel* m, const char* name, float lo, float hi) {
  float v = sym_realin(name, lo, hi);
  m->SetParameter(name, sym_text(v));
  return v;
}
enum { PERC, OGD0, OGD5, OGD1, PA_, PA1, PA2, ALMA, NALG };
static const char* nm[] = {"perceptron", "ogd", "ogd", "ogd", "pa", "pa1", "pa2", "alma2"};
// alg, classes, examples (steps), features per example; t0: initial iteration number
extern "C" void harness(int alg, int cls, int steps, int shape) {
  OnlineLinearModel* m = mk(nm[alg], cls);
  Lin r; r.init(cls);
  int nf = shape % 10, sw = shape / 10 % 10, hp = shape / 100;   // features, symbolic start weights, symbolic parameters
  D be = 0; int t = 0;
  if (hp & 1) be = par(m, "bias_eta", 0, 4);
  D eta0 = 1, Cc = 1, alpha = (D)0.9f;
  if (alg >= OGD0 && alg <= OGD1) {
    m->SetParameter("power_t", alg == OGD0 ? "0" : alg == OGD5 ? "0.5" : "1");
    if (hp & 2) eta0 = par(m, "eta", 0, 4);
    t = 2; m->SetParameter("t", "2");
  }
  if (alg == PA1 || alg == PA2) { Cc = par(m, "C", 0.125f, 8); }
  if (alg == ALMA) { if (hp & 2) alpha = par(m, "alpha", 0.125f, 1); Cc = (hp & 2) ? par(m, "C", 0.125f, 8) : (D)sqrtf(2.f); }
  if (sw) {
    m->SetParameter("dim", num(nf + 1));
    for (int c = 0; c < r.C; ++c) for (int i = 0; i <= nf; ++i) { float v = sym_real("w", 8); m->w(c)[i] = v; r.w[c][i] = v; }
  }
  m->BeginTrain();
  float pr[MC]; size_t upd = 0; D k = 1;
  for (int n = 0; n < steps; ++n) {
    Ex e; mkEx(e, anyLabel(cls), n == 1 ? (1u << nf) - 2 + (nf == 1) : (1u << nf) - 1, 8);
    ++t;
    r.score(e);
    D margin = 1;
    if (alg == ALMA) margin = (1 - alpha) / alpha / sqrt(k);
    if (alg == PERC) r.boolLoss(e); else r.hinge(e, margin);
    D n2 = 0; for (int i = 1; i <= nf; ++i) n2 += e.x[i] * e.x[i];
    D co = cls == 2 ? 1 : 2;
    if (r.loss > 0 && (alg == PA_ || alg == PA1)) sym_assume(n2 > 0);   // an example without any value has no passive-aggressive step
    label_t p = m->Iterate(e.dp, pr);
    REQ(p == r.pred, "the prediction made before the update is returned");
    for (int c = 0; c < r.C; ++c) sym_close(pr[c], r.s[c], "scores made before the update are returned");
    if (r.loss > 0) {
      ++upd;
      D eta = 1;
      if (alg == OGD0) eta = eta0;
      if (alg == OGD5) eta = eta0 / sqrt((D)t);
      if (alg == OGD1) eta = eta0 / t;
      if (alg == PA_) eta = r.loss / (co * n2);
      if (alg == PA1) { eta = r.loss / (co * n2); if (Cc < eta) eta = Cc; }
      if (alg == PA2) eta = r.loss / (co * n2 + 0.5 / Cc);
      if (alg == ALMA) eta = Cc / sqrt(k);
      for (int c = 0; c < r.C; ++c) if (r.g[c] != 0) {
        for (int i = 1; i <= nf; ++i) r.w[c][i] -= eta * r.g[c] * e.x[i];
        r.w[c][0] -= be * eta * r.g[c];
        if (alg == ALMA) { D s = 0; for (int i = 0; i <= nf; ++i) s += r.w[c][i] * r.w[c][i]; s = sqrt(s); if (s > 1) for (int i = 0; i <= nf; ++i) r.w[c][i] /= s; }
      }
      if (alg == ALMA) k += 1;
      sym_reach("updated");
    } else sym_reach("kept");
    sameW(m, r, nf + 1, r.loss > 0 ? "the update rule" : "no loss, no change");
    REQ(m->update_num() == upd, "updates are counted");
    REQ(m->cur_iter_num() == t, "iterations are counted");
  }
  // prediction with the final weights
  Ex q; mkEx(q, 1, (1u << nf) - 1, 8);
  r.score(q);
  m->EndTrain();
  label_t p = m->Predict(q.dp, pr);
  REQ(p == r.pred, "prediction with the learned weights");
  for (int c = 0; c < r.C; ++c) sym_close(pr[c], r.s[c], "scores with the learned weights");
  sym_reach("done");
}
