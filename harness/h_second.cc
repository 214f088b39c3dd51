// second-order and adaptive learners against their update rules
#include "model_util.h"
static float par(OnlineLinearModel* m, const char* name, float lo, float hi) {
  float v = sym_realin(name, lo, hi);
  m->SetParameter(name, sym_text(v));
  return v;
}
enum { SOP_, CW_, ECCW_, AROW_, ADAF, ADAR, NALG };
static const char* nm[] = {"sop", "cw", "eccw", "arow", "ada-fobos", "ada-rda"};
static D sq(D v) { return v * v; }
// alg, classes, steps, shape: features + 10 * bias + 100 * (hyper-parameters symbolic)
extern "C" void harness(int alg, int cls, int steps, int shape) {
  OnlineLinearModel* m = mk(nm[alg], cls);
  Lin r; r.init(cls);
  int nf = shape % 10, bias = shape / 10 % 10, hp = shape / 100 % 10, first = shape / 1000;   // first: the first example is fixed, what it leaves behind is what the second one meets
  D be = 0;
  if (bias == 1) { m->SetParameter("bias_eta", "0.5"); be = 0.5; }
  D a = 1, phi = alg == ECCW_ ? 0.75 : 0.5, rr = 1, eta = 1, delta = 10;
  if (alg == CW_ || alg == ECCW_) { m->SetParameter("phi", alg == ECCW_ ? "0.75" : "0.5"); if (cls > 2) { m->SetParameter("a", "0.5"); a = 0.5; } }   // the fixed first example then leaves rational confidences
  if (hp) {
    if (alg == SOP_) a = par(m, "a", 0.125f, 8);
    if (alg == CW_ || alg == ECCW_) { a = par(m, "a", 0.125f, 4); phi = par(m, "phi", 0.125f, 2); }
    if (alg == AROW_) rr = par(m, "r", 0.125f, 8);
    if (alg == ADAF || alg == ADAR) { eta = par(m, "eta", 0.125f, 4); delta = par(m, "delta", 0.125f, 16); }
  }
  // confidence per classifier and feature; first moment (sop: v, ada-rda: u); sums of squares
  static D S[MC][MD], U[MC][MD], G2[MC][MD], X[MD];
  for (int c = 0; c < MC; ++c) for (int i = 0; i < MD; ++i) { S[c][i] = alg == CW_ || alg == ECCW_ ? a : 1; U[c][i] = G2[c][i] = 0; X[i] = 0; }
  m->BeginTrain();
  float pr[MC]; size_t upd = 0;
  for (int n = 0; n < steps; ++n) {
    Ex e;
    if (n == 0 && first) { e.label = cls == 2 ? 1 : 0; e.mask = (1u << nf) - 1; e.dp.Clear(); e.dp.set_label(e.label); for (int i = 0; i < MD; ++i) e.x[i] = 0; for (int i = 1; i <= nf; ++i) { e.x[i] = i + 1; e.dp.AddNewFeat(i, (real_t)(i + 1)); } }
    else mkEx(e, anyLabel(cls), n == 1 && nf > 1 ? (1u << nf) - 2 : (1u << nf) - 1, 8);
    if (alg == SOP_) for (int c = 0; c < r.C; ++c) for (int i = 0; i <= nf; ++i) r.w[c][i] = U[c][i] / (a + X[i] + sq(e.x[i]));
    r.score(e);
    D V = 0;
    if (alg == SOP_) r.boolLoss(e);
    else {
      // whose gradient would be used: +1 for the strongest rival, -1 for the label
      r.hinge(e, 1e30);
      if (alg == CW_ || alg == ECCW_ || alg == AROW_) for (int c = 0; c < r.C; ++c) if (r.g[c] != 0) { for (int i = 1; i <= nf; ++i) V += S[c][i] * sq(e.x[i]); if (be != 0) V += S[c][0]; }
      if (alg == CW_ || alg == ECCW_) { sym_assume(V > 0); r.hinge(e, phi * V); } else r.hinge(e, 1);
    }
    label_t p = m->Iterate(e.dp, pr);
    REQ(p == r.pred, "the prediction made before the update is returned");
    for (int c = 0; c < r.C; ++c) sym_close(pr[c], r.s[c], "scores made before the update are returned");
    if (r.loss > 0) {
      ++upd;
      D step = 0, shrink = 0;
      if (alg == AROW_) { step = r.loss / (V + rr); shrink = 1 / rr; }
      D M = phi * V - r.loss;
      if (alg == CW_) { step = (-(1 + 2 * phi * M) + sqrt(sq(1 + 2 * phi * M) + 8 * phi * r.loss)) / (4 * phi * V); shrink = 2 * step * phi; }
      if (alg == ECCW_) {
        D psi = 1 + phi * phi / 2, xi = 1 + phi * phi;
        step = (-M * psi + sqrt(sq(M) * sq(sq(phi)) / 4 + V * phi * phi * xi)) / (V * xi);
        D su = (-step * V * phi + sqrt(sq(step * V * phi) + 4 * V)) / 2;    // standard deviation after the update
        shrink = step * phi / su;
      }
      for (int c = 0; c < r.C; ++c) if (r.g[c] != 0) {
        for (int i = 0; i <= nf; ++i) {
          D x = i ? e.x[i] : 1;
          if (alg == SOP_) U[c][i] -= r.g[c] * x * (i ? 1 : be);
          else if (alg == ADAF || alg == ADAR) {
            G2[c][i] += sq(x); D H = delta + sqrt(G2[c][i]);
            if (alg == ADAF) r.w[c][i] -= eta * r.g[c] * x / H * (i ? 1 : be);
            else { U[c][i] += r.g[c] * x; r.w[c][i] = -eta * U[c][i] / H * (i ? 1 : be); }
          } else {
            r.w[c][i] -= step * r.g[c] * S[c][i] * x * (i ? 1 : be);
            S[c][i] = S[c][i] / (1 + shrink * S[c][i] * sq(x));
          }
        }
      }
      if (alg == SOP_) for (int i = 1; i <= nf; ++i) X[i] += sq(e.x[i]);
      sym_reach("updated");
    } else sym_reach("kept");
    if (alg != SOP_) sameW(m, r, nf + 1, r.loss > 0 ? "the update rule" : "no loss, no change");
    REQ(m->update_num() == upd, "updates are counted");
    REQ(m->cur_iter_num() == n + 1, "iterations are counted");
  }
  m->EndTrain();
  if (alg == SOP_) for (int c = 0; c < r.C; ++c) for (int i = 0; i <= nf; ++i) r.w[c][i] = U[c][i] / (a + X[i]);
  sameW(m, r, nf + 1, "weights after the end of training");
  sym_reach("done");
}
