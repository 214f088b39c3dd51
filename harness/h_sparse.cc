// sparse learners: truncation applied lazily, against the same truncation applied after every example
#include "model_util.h"
enum { STG_, FOBOS, ADAF, RDA_, RDAL1, ERDA, ADARL1, NALG };
static const char* nm[] = {"stg", "fobos-l1", "ada-fobos-l1", "rda", "rda-l1", "erda-l1", "ada-rda-l1"};
static D sq(D v) { return v * v; }
static D trunc1(D w, D a) { return w > a ? w - a : w < -a ? w + a : 0; }
static const unsigned pats[][6] = {{3, 2, 1, 3, 1, 2}, {1, 2, 2, 1, 2, 1}, {3, 2, 2, 2, 1, 2}, {2, 1, 1, 3, 2, 2}};   // which features occur
// alg, classes, steps, shape: bias_eta (0/1) + 10 * k + 100 * (1: parameters symbolic, 2: sparsity threshold symbolic) + 1000 * any label + 10000 * model dimension + 100000 * (examples that are fixed; 9: all but the first) + 1000000 * pattern
extern "C" void harness(int alg, int cls, int steps, int shape) {
  OnlineLinearModel* m = mk(nm[alg], cls);
  Lin r; r.init(cls);
  const int nf = 2;
  int bias = shape % 10, k = shape / 10 % 10, hp = shape / 100 % 10, lab = shape / 1000 % 10, dim = shape / 10000 % 10, fixed = shape / 100000 % 10;
  const unsigned* masks = pats[shape / 1000000];
  D be = bias ? 0.5 : 0, lam = 0.125, eta = 0.5, sigma = 0.5, rou = 0, delta = 10;
  if (bias) m->SetParameter("bias_eta", "0.5");
  if (dim) m->SetParameter("dim", num(dim));
  auto set = [&](const char* n, D& v, const char* fix, float lo, float hi) {
    if (hp == 1) { float x = sym_realin(n, lo, hi); v = x; m->SetParameter(n, sym_text(x)); } else m->SetParameter(n, fix);
  };
  if (alg != RDA_) set("lambda", lam, "0.125", 0, 1); else lam = 0;
  if (alg == STG_ || alg == FOBOS) { m->SetParameter("power_t", "0"); set("eta", eta, "0.5", 0.125f, 2); }
  if (alg == ADAF || alg == ADARL1) { set("eta", eta, "0.5", 0.125f, 2); set("delta", delta, "10", 1, 16); }
  if (alg == RDA_ || alg == RDAL1 || alg == ERDA) set("sigma", sigma, "0.5", 0.125f, 4);
  if (alg == ERDA) { rou = 0.25; set("rou", rou, "0.25", 0, 1); }
  if (alg == STG_) m->SetParameter("k", num(k));
  D thr = 1e-6;
  if (hp == 2 && alg != RDA_) { float x = sym_realin("sparse_thresh", 0, 1); thr = x; m->SetParameter("sparse_thresh", sym_text(x)); }
  m->BeginTrain();
  static D G2[MC][MD], U[MC][MD];
  for (int c = 0; c < MC; ++c) for (int i = 0; i < MD; ++i) G2[c][i] = U[c][i] = 0;
  float pr[MC];
  // the dense weights after t examples
  auto dense = [&](int t) {
    for (int c = 0; c < r.C; ++c) for (int i = 0; i <= nf; ++i) {
      D b = i ? 1 : be, th, et;
      if (alg == RDA_) { th = 0; et = 1 / (t * sigma); }
      else if (alg == RDAL1) { th = lam * t; et = 1 / (t * sigma); }
      else if (alg == ERDA) { th = lam * t + sigma * rou * sqrt((D)t); et = 1 / (sqrt((D)t) * sigma); }
      else { th = lam * t; et = eta / (delta + sqrt(G2[c][i])); }
      r.w[c][i] = t == 0 ? 0 : -et * b * trunc1(U[c][i], th);
    }
  };
  for (int n = 1; n <= steps; ++n) {
    Ex e;
    if (fixed == 9 ? n > 1 : n <= fixed) {   // values whose sums of squares are squares
      static const D fx[][2] = {{3, 4}, {0, -3}, {-4, 4}, {4, 0.5}, {0.5, 3}, {-1, 2}};
      e.label = cls == 2 ? 1 : (n - 1) % cls; e.mask = masks[n - 1]; e.dp.Clear(); e.dp.set_label(e.label);
      for (int i = 0; i < MD; ++i) e.x[i] = 0;
      for (int i = 1; i <= nf; ++i) if (e.mask >> (i - 1) & 1) { e.x[i] = fx[n - 1][i - 1]; e.dp.AddNewFeat(i, (real_t)fx[n - 1][i - 1]); }
    } else mkEx(e, lab ? anyLabel(cls) : cls == 2 ? 1 : (n - 1) % cls, masks[n - 1], 8);
    if (alg >= RDA_) dense(n - 1);
    r.score(e); r.hinge(e, 1);
    label_t p = m->Iterate(e.dp, pr);
    for (int c = 0; c < r.C; ++c) sym_close(pr[c], r.s[c], "lazy truncation scores as eager truncation");
    REQ(p == r.pred, "lazy truncation predicts as eager truncation");
    if (r.loss > 0) {
      for (int c = 0; c < r.C; ++c) if (r.g[c] != 0) for (int i = 0; i <= nf; ++i) {
        D x = i ? e.x[i] : 1, b = i ? 1 : be;
        if (i && !(e.mask >> (i - 1) & 1)) continue;
        G2[c][i] += sq(x); U[c][i] += r.g[c] * x;
        if (alg == STG_ || alg == FOBOS) r.w[c][i] -= eta * b * r.g[c] * x;
        if (alg == ADAF) r.w[c][i] -= eta * b * r.g[c] * x / (delta + sqrt(G2[c][i]));
      }
      sym_reach("updated");
    }
    // truncation at the end of the example
    if (alg == STG_ || alg == FOBOS || alg == ADAF)
      for (int c = 0; c < r.C; ++c) for (int i = 0; i <= nf; ++i) {
        D b = i ? 1 : be, a = eta * lam * b;
        if (alg == ADAF) a = a / (delta + sqrt(G2[c][i]));
        if (alg == STG_ && i) { if (n % k) continue; a = a * k; }
        r.w[c][i] = trunc1(r.w[c][i], a);
      }
  }
  if (alg >= RDA_) dense(steps);
  else if (alg == STG_) for (int c = 0; c < r.C; ++c) for (int i = 1; i <= nf; ++i) r.w[c][i] = trunc1(r.w[c][i], eta * lam * (steps % k));
  if (alg != RDA_) for (int c = 0; c < r.C; ++c) for (int i = 0; i <= nf; ++i) if (r.w[c][i] < thr && r.w[c][i] > -thr) r.w[c][i] = 0;
  m->EndTrain();
  sameW(m, r, nf + 1, "the weights after the end of training");
  if (dim) for (int c = 0; c < r.C; ++c) for (int i = nf + 1; i < dim; ++i) REQ(m->w(c)[i] == 0, "a feature never seen has no weight");
  int nz = 0, tot = r.C * ((dim ? dim : nf + 1) - 1);
  for (int c = 0; c < r.C; ++c) for (int i = 1; i <= nf; ++i) if (sym_branch(m->w(c)[i] != 0)) ++nz;
  sym_close(m->model_sparsity(), 1 - (D)nz / tot, "sparsity is the fraction of zero weights, the bias left out");
  sym_reach("done");
}
