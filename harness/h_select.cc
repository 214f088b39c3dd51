// online feature selection: at most B features carry weight, and they are the right ones
#include "model_util.h"
enum { PET_, FOFS_, SOFS_, ADAF, ADAR, NALG };
static const char* nm[] = {"pet", "fofs", "sofs", "adafobos-ofs", "adarda-ofs"};
static D sq(D v) { return v * v; }
static D ab(D v) { return v < 0 ? -v : v; }
static const unsigned masks[] = {3, 6, 5, 7};
// alg, classes, steps, shape: B + 10 * bias + 100 * any label + 1000 * (examples that are fixed) + 10000 * model dimension + 100000 * (each example one feature, any of the three; 2: its value 1, 2 or 4, but for the last example) + 1000000 * (feature of the first example, 0: any)
extern "C" void harness(int alg, int cls, int steps, int shape) {
  OnlineLinearModel* m = mk(nm[alg], cls);
  Lin r; r.init(cls);
  const int nf = 3;
  int B = shape % 10, bias = shape / 10 % 10, lab = shape / 100 % 10, fixed = shape / 1000 % 10, dim = shape / 10000 % 10, single = shape / 100000 % 10, first = shape / 1000000;
  D be = bias ? 0.5 : 0, eta = 1, lam = 0.25, delta = 10;
  if (bias) m->SetParameter("bias_eta", "0.5");
  if (dim) m->SetParameter("dim", num(dim));
  if (B) m->SetParameter("B", num(B));
  if (alg == PET_) { m->SetParameter("power_t", "0"); }
  if (alg == FOFS_) { m->SetParameter("eta", "0.5"); eta = 0.5; m->SetParameter("lambda", "0.25"); }
  if (alg == ADAF || alg == ADAR) { m->SetParameter("eta", "0.5"); eta = 0.5; }
  m->BeginTrain();
  static D S[MC][MD], G2[MC][MD], U[MC][MD];
  for (int c = 0; c < MC; ++c) for (int i = 0; i < MD; ++i) { S[c][i] = 1; G2[c][i] = U[c][i] = 0; }
  float pr[MC];
  for (int n = 0; n < steps; ++n) {
    Ex e; int y = lab ? anyLabel(cls) : cls == 2 ? (single == 2 && n % 2 ? -1 : 1) : n % cls;
    if (n < fixed) {   // values whose sums of squares are squares
      static const D fx[][3] = {{3, 4, 0}, {0, -3, 12}, {-4, 0, 5}};
      e.label = y; e.mask = masks[n]; e.dp.Clear(); e.dp.set_label(y);
      for (int i = 0; i < MD; ++i) e.x[i] = 0;
      for (int i = 1; i <= nf; ++i) if (e.mask >> (i - 1) & 1) { e.x[i] = fx[n][i - 1]; e.dp.AddNewFeat(i, (real_t)fx[n][i - 1]); }
    } else if (single == 2 && n + 1 < steps) {
      int f = n == 0 && first ? first : sym_pick("feature", 1, 3); D v = 1 << sym_pick("value", 0, 2);
      e.label = y; e.mask = 1u << (f - 1); e.dp.Clear(); e.dp.set_label(y);
      for (int i = 0; i < MD; ++i) e.x[i] = 0;
      e.x[f] = v; e.dp.AddNewFeat(f, (real_t)v);
    } else mkEx(e, y, single ? 1u << sym_pick("feature", 0, 2) : masks[n], 8);
    r.score(e); r.hinge(e, 1);
    label_t p = m->Iterate(e.dp, pr);
    for (int c = 0; c < r.C; ++c) sym_close(pr[c], r.s[c], "scores use the selected features");
    REQ(p == r.pred, "predictions use the selected features");
    if (r.loss > 0) {
      D V = 0;
      for (int c = 0; c < r.C; ++c) if (r.g[c] != 0) { for (int i = 1; i <= nf; ++i) V += S[c][i] * sq(e.x[i]); if (be != 0) V += S[c][0]; }
      for (int c = 0; c < r.C; ++c) if (r.g[c] != 0) {
        if (alg == FOFS_) for (int i = 0; i <= nf; ++i) r.w[c][i] *= 1 - lam * eta;
        for (int i = 0; i <= nf; ++i) {
          D x = i ? e.x[i] : 1, b = i ? 1 : be;
          if (i && !(e.mask >> (i - 1) & 1)) continue;
          if (alg == PET_ || alg == FOFS_) r.w[c][i] -= eta * b * r.g[c] * x;
          if (alg == SOFS_) { r.w[c][i] -= r.loss / (V + 1) * b * r.g[c] * S[c][i] * x; S[c][i] = S[c][i] / (1 + S[c][i] * sq(x)); }
          if (alg == ADAF || alg == ADAR) {
            G2[c][i] += sq(x); U[c][i] += r.g[c] * x; D H = delta + sqrt(G2[c][i]);
            if (alg == ADAF) r.w[c][i] -= eta * b * r.g[c] * x / H; else r.w[c][i] = -eta * b * U[c][i] / H;
          }
        }
        if (alg == FOFS_) {
          D n2 = 0; for (int i = 0; i <= nf; ++i) n2 += sq(r.w[c][i]);
          if (n2 > 4) { D s = 2 / sqrt(n2); for (int i = 0; i <= nf; ++i) r.w[c][i] *= s; }
        }
      }
      sym_reach("updated");
    }
    // the rank of a feature: how important it is to keep
    D key[MD];
    for (int i = 1; i <= nf; ++i) {
      key[i] = 0;
      for (int c = 0; c < r.C; ++c) {
        if (alg == PET_ || alg == FOFS_) key[i] += ab(r.w[c][i]);
        if (alg == SOFS_) key[i] -= S[c][i];
        if (alg == ADAF || alg == ADAR) key[i] += sqrt(G2[c][i]);
      }
    }
    int nz = 0;
    for (int i = 1; i <= nf; ++i) {
      bool has = false, had = false;
      for (int c = 0; c < r.C; ++c) { if (sym_branch(wOf(m, c, i) != 0)) has = true; if (sym_branch(r.w[c][i] != 0)) had = true; }
      if (has) { ++nz; for (int c = 0; c < r.C; ++c) sym_close(wOf(m, c, i), r.w[c][i], "a selected feature keeps the weight of the update rule"); }
      else {
        if (B && had) {
          int better = 0;
          for (int j = 1; j <= nf; ++j) if (j != i && sym_branch(key[j] >= key[i])) ++better;
          REQ(better >= B, "a feature is dropped only for B more important ones");
          sym_reach("dropped");
        } else REQ(!had, "without a budget no feature is dropped");
        for (int c = 0; c < r.C; ++c) r.w[c][i] = 0;
      }
    }
    for (int c = 0; c < r.C; ++c) sym_close(m->w(c)[0], r.w[c][0], "the bias is not subject to selection");
    if (B) REQ(nz <= B, "no more than B features carry weight");
  }
  m->EndTrain();
  int nz = 0;
  for (int i = 1; i <= nf; ++i) { bool has = false; for (int c = 0; c < r.C; ++c) if (sym_branch(wOf(m, c, i) != 0)) has = true; nz += has; }
  if (B) REQ(nz <= B, "no more than B features carry weight after training");
  sameW(m, r, nf + 1, "training ends with the selected weights");
  sym_reach("done");
}
