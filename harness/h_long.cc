// longer training runs in single precision: every learner against its rule computed in double precision,
// with many features that appear one after another, many classes, and some examples chosen by the solver
#include "model_util.h"
static const int LC = 12, LD = 64;
static D sq(D v) { return v * v; }
static D ab(D v) { return v < 0 ? -v : v; }
static D trunc1(D w, D a) { return w > a ? w - a : w < -a ? w + a : 0; }
enum { PERC, OGD, PA_, PA1, PA2, ALMA, SOP_, CW_, ECCW_, AROW_, ADAF, ADAR, STG_, FOB, ADAFL1, RDA_, RDAL1, ERDA, ADARL1, PET_, FOFS_, SOFS_, ADAFO, ADARO };
static const char* nm[] = {"perceptron", "ogd", "pa", "pa1", "pa2", "alma2", "sop", "cw", "eccw", "arow", "ada-fobos", "ada-rda", "stg", "fobos-l1", "ada-fobos-l1", "rda", "rda-l1", "erda-l1", "ada-rda-l1", "pet", "fofs", "sofs", "adafobos-ofs", "adarda-ofs"};
static D w[LC][LD], S[LC][LD], U[LC][LD], G2[LC][LD], X[LD], x[LD], s[LC], g[LC]; static bool has[LD];
static unsigned rs; static unsigned rnd() { rs = rs * 1664525u + 1013904223u; return rs >> 9; }
static bool near(D a, D b) { D m = ab(a) > ab(b) ? ab(a) : ab(b); if (m < 1) m = 1; return ab(a - b) <= 2e-3 * m; }
static void doubtful(bool c) { if (c) sym_exit(); }     // too close to call in single precision
// alg, classes, examples, features, bias + 10 * budget, what the solver chooses: labels of that many examples
extern "C" void harness(int alg, int cls, int steps, int F, int opt, int seed) {
  OnlineLinearModel* m = mk(nm[alg], cls);
  int C = cls == 2 ? 1 : cls, bias = opt % 10, B = opt / 10; rs = seed;
  D be = bias ? 0.5 : 0, eta = 1, phi = 0.5, a = 1, delta = 10, lam = 0.0625, sigma = 0.5, rou = 0.25; int k = 3;
  if (bias) m->SetParameter("bias_eta", "0.5");
  if (alg == STG_) m->SetParameter("k", "3");
  if (alg == STG_ || alg == FOB || alg == PET_) m->SetParameter("power_t", "0");
  if (alg >= STG_ && alg <= ADARL1 && alg != RDA_) m->SetParameter("lambda", "0.0625");
  if (alg == FOFS_) m->SetParameter("lambda", "0.0625");
  if (alg == CW_ || alg == ECCW_) { m->SetParameter("phi", "0.5"); m->SetParameter("a", "1"); }
  if (alg == SOP_) m->SetParameter("a", "1");
  if (alg == AROW_) m->SetParameter("r", "1");
  if (alg == PA1 || alg == PA2) m->SetParameter("C", "0.25");
  D Cc = 0.25;
  if (alg == STG_ || alg == FOB || alg == ADAFL1 || alg == ADARL1 || alg == ADAF || alg == ADAR || alg == OGD || alg >= PET_) if (alg != SOFS_) { m->SetParameter("eta", "0.5"); eta = 0.5; }
  if (alg == RDA_ || alg == RDAL1 || alg == ERDA) m->SetParameter("sigma", "0.5");
  if (alg == ERDA) m->SetParameter("rou", "0.25");
  if (B) m->SetParameter("B", num(B));
  for (int c = 0; c < LC; ++c) for (int i = 0; i < LD; ++i) { w[c][i] = U[c][i] = G2[c][i] = X[i] = 0; S[c][i] = 1; }
  m->BeginTrain();
  float pr[LC]; size_t upd = 0; D ak = 1; bool lazy = alg >= STG_ && alg <= ADARL1;
  auto dense = [&](int t) {
    for (int c = 0; c < C; ++c) for (int i = 0; i <= F; ++i) {
      D b = i ? 1 : be, th, et;
      if (alg == RDA_) { th = 0; et = 1 / (t * sigma); }
      else if (alg == RDAL1) { th = lam * t; et = 1 / (t * sigma); }
      else if (alg == ERDA) { th = lam * t + sigma * rou * sqrt((D)t); et = 1 / (sqrt((D)t) * sigma); }
      else { th = lam * t; et = eta / (delta + sqrt(G2[c][i])); }
      w[c][i] = t == 0 ? 0 : -et * b * trunc1(U[c][i], th);
    }
  };
  for (int n = 1; n <= steps; ++n) {
    // the example: features up to a growing number
    DataPoint dp; int top = 4 + (F - 4) * n / steps, cnt = 0; D hid = 0, n2 = 0;
    for (int i = 1; i <= F; ++i) {
      x[i] = 0; has[i] = false;
      if (i > top || (rnd() % 3 && !(i == top && cnt == 0))) continue;
      x[i] = ((int)(rnd() % 15) - 7) / 4.0 + 0.125; has[i] = true; ++cnt; hid += x[i] * (i % 4 - 1.5); n2 += sq(x[i]);
      dp.AddNewFeat(i, (real_t)x[i]);
    }
    x[0] = 1;
    int y = cls == 2 ? (hid > 0 ? 1 : -1) : (int)(ab(hid) * 2) % cls;
    if (n % (steps / 3 + 1) == 2) { if (sym_pick("other label", 0, 1)) y = cls == 2 ? -y : (y + 1) % cls; }
    dp.set_label(y);
    if (alg == SOP_) for (int c = 0; c < C; ++c) for (int i = 0; i <= F; ++i) w[c][i] = U[c][i] / (a + X[i] + (i ? sq(x[i]) : 0));
    if (alg >= RDA_ && alg <= ADARL1) dense(n - 1);
    for (int c = 0; c < C; ++c) { s[c] = w[c][0]; for (int i = 1; i <= F; ++i) s[c] += w[c][i] * x[i]; g[c] = 0; }
    int pred, rival = -1;
    if (C == 1) { pred = s[0] >= 0 ? 1 : -1; doubtful(s[0] != 0 && ab(s[0]) < 1e-3); }
    else {
      pred = 0; for (int c = 1; c < C; ++c) if (s[c] > s[pred]) pred = c;
      for (int c = 0; c < C; ++c) if (c != y && (rival < 0 || s[c] > s[rival])) rival = c;
      for (int c = 0; c < C; ++c) { if (c != pred) doubtful(s[c] != s[pred] && ab(s[c] - s[pred]) < 1e-3); if (c != rival && c != y) doubtful(s[c] != s[rival] && ab(s[c] - s[rival]) < 1e-3); }
    }
    if (C == 1) g[0] = -y; else { g[rival] = 1; g[y] = -1; }
    D V = 0, loss, margin = 1;
    if (alg == CW_ || alg == ECCW_ || alg == AROW_ || alg == SOFS_) for (int c = 0; c < C; ++c) if (g[c] != 0) { for (int i = 1; i <= F; ++i) V += S[c][i] * sq(x[i]); if (be != 0) V += S[c][0]; }
    if (alg == CW_ || alg == ECCW_) margin = phi * V;
    if (alg == ALMA) margin = (1 - (D)0.9f) / (D)0.9f / sqrt(ak);
    if (alg == PERC || alg == SOP_) loss = pred == y ? 0 : 1;
    else { loss = margin + (C == 1 ? -s[0] * y : s[rival] - s[y]); doubtful(ab(loss) < 1e-3); if (loss < 0) loss = 0; }
    label_t p = m->Iterate(dp, pr);
    REQ(p == pred, "the prediction made before the update is returned");
    for (int c = 0; c < C; ++c) REQ(near(pr[c], s[c]), "scores made before the update are returned");
    if (loss > 0) {
      ++upd;
      D step = 1, shrink = 0, co = cls == 2 ? 1 : 2, M = phi * V - loss;
      if (alg == OGD) step = eta / sqrt((D)n);
      if (alg == STG_ || alg == FOB || alg == PET_ || alg == FOFS_) step = eta;
      if (alg == PA_ || alg == PA1) step = loss / (co * n2);
      if (alg == PA1 && step > Cc) step = Cc;
      if (alg == PA2) step = loss / (co * n2 + 0.5 / Cc);
      if (alg == ALMA) step = sqrt(2.0) / sqrt(ak);
      if (alg == AROW_ || alg == SOFS_) { step = loss / (V + 1); shrink = 1; }
      if (alg == CW_) { step = (-(1 + 2 * phi * M) + sqrt(sq(1 + 2 * phi * M) + 8 * phi * loss)) / (4 * phi * V); shrink = 2 * step * phi; }
      if (alg == ECCW_) { D psi = 1 + phi * phi / 2, xi = 1 + phi * phi; step = (-M * psi + sqrt(sq(M) * sq(sq(phi)) / 4 + V * phi * phi * xi)) / (V * xi); D su = (-step * V * phi + sqrt(sq(step * V * phi) + 4 * V)) / 2; shrink = step * phi / su; }
      for (int c = 0; c < C; ++c) if (g[c] != 0) {
        if (alg == FOFS_) for (int i = 0; i <= F; ++i) w[c][i] *= 1 - lam * eta;
        for (int i = 0; i <= F; ++i) {
          if (i && !has[i]) continue;
          D b = i ? 1 : be;
          G2[c][i] += sq(x[i]);
          if (alg == SOP_) U[c][i] -= g[c] * x[i] * b; else U[c][i] += g[c] * x[i];
          if (alg == ADAF || alg == ADAFL1 || alg == ADAFO) w[c][i] -= eta * b * g[c] * x[i] / (delta + sqrt(G2[c][i]));
          else if (alg == ADAR || alg == ADARO) w[c][i] = -eta * b * U[c][i] / (delta + sqrt(G2[c][i]));
          else if (alg == CW_ || alg == ECCW_ || alg == AROW_ || alg == SOFS_) { w[c][i] -= step * g[c] * S[c][i] * x[i] * b; S[c][i] = S[c][i] / (1 + shrink * S[c][i] * sq(x[i])); }
          else if (alg != SOP_ && !(alg >= RDA_ && alg <= ADARL1)) w[c][i] -= step * b * g[c] * x[i];
        }
        D nn = 0; for (int i = 0; i <= F; ++i) nn += sq(w[c][i]);
        if (alg == ALMA && nn > 1) for (int i = 0; i <= F; ++i) w[c][i] /= sqrt(nn);
        if (alg == FOFS_ && nn > 1 / lam) for (int i = 0; i <= F; ++i) w[c][i] /= sqrt(nn * lam);
      }
      if (alg == ALMA) ak += 1;
      if (alg == SOP_) for (int i = 1; i <= F; ++i) X[i] += sq(x[i]);
      sym_reach("updated");
    } else sym_reach("kept");
    if (alg == STG_ || alg == FOB || alg == ADAFL1)
      for (int c = 0; c < C; ++c) for (int i = 0; i <= F; ++i) {
        D b = i ? 1 : be, t = eta * lam * b;
        if (alg == ADAFL1) t = t / (delta + sqrt(G2[c][i]));
        if (alg == STG_ && i) { if (n % k) continue; t = t * k; }
        w[c][i] = trunc1(w[c][i], t);
      }
    if (alg >= PET_ && B) {
      int nz = 0; D key[LD];
      for (int i = 1; i <= F; ++i) { key[i] = 0; for (int c = 0; c < C; ++c) key[i] += alg == SOFS_ ? -S[c][i] : alg >= ADAFO ? sqrt(G2[c][i]) : ab(w[c][i]); }
      for (int i = 1; i <= F; ++i) {
        bool on = false, had = false;
        for (int c = 0; c < C; ++c) { if (wOf(m, c, i) != 0) on = true; if (ab(w[c][i]) > 1e-4) had = true; }
        nz += on;
        if (on) continue;
        if (had) { int better = 0; for (int j = 1; j <= F; ++j) if (j != i && key[j] >= key[i] - 1e-3) ++better; REQ(better >= B, "a feature is dropped only for B more important ones"); sym_reach("dropped"); }
        for (int c = 0; c < C; ++c) w[c][i] = 0;
      }
      REQ(nz <= B, "no more than B features carry weight");
    }
    if (!lazy && alg != SOP_) for (int c = 0; c < C; ++c) for (int i = 0; i <= F; ++i) REQ(near(wOf(m, c, i), w[c][i]), loss > 0 ? "the update rule" : "no loss, no change");
    REQ(m->update_num() == upd && m->cur_iter_num() == n, "updates and iterations are counted");
  }
  if (alg == SOP_) for (int c = 0; c < C; ++c) for (int i = 0; i <= F; ++i) w[c][i] = U[c][i] / (a + X[i]);
  if (alg >= RDA_ && alg <= ADARL1) dense(steps);
  if (alg == STG_) for (int c = 0; c < C; ++c) for (int i = 1; i <= F; ++i) w[c][i] = trunc1(w[c][i], eta * lam * (steps % k));
  m->EndTrain();
  if (alg == ADARO) {   // a feature that was selected again has its weight back for every class
    int nz = 0;
    for (int i = 1; i <= F; ++i) { bool on = false; for (int c = 0; c < C; ++c) if (wOf(m, c, i) != 0) on = true; nz += on; for (int c = 0; c < C; ++c) w[c][i] = on ? -eta * U[c][i] / (delta + sqrt(G2[c][i])) : 0; }
    REQ(!B || nz <= B, "no more than B features carry weight");
  }
  for (int c = 0; c < C; ++c) for (int i = 0; i <= F; ++i) REQ(near(wOf(m, c, i), w[c][i]), "the weights after the end of training");
  // what was learned is what predicts
  DataPoint q; for (int i = 1; i <= F; i += 2) q.AddNewFeat(i, (real_t)(i % 5 - 2.25));
  for (int c = 0; c < C; ++c) { s[c] = w[c][0]; for (int i = 1; i <= F; i += 2) s[c] += w[c][i] * (i % 5 - 2.25); }
  m->Predict(q, pr);
  for (int c = 0; c < C; ++c) REQ(near(pr[c], s[c]), "scores with the learned weights");
  sym_reach("done");
}
