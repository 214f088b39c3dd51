// helpers for harnesses that drive a model through its public interface
#pragma once
#include "sym.h"
#include "sol/model/online_linear_model.h"
#include "sol/pario/data_point.h"
#include "sol/loss/loss.h"
#include <cmath>
#include <cstdio>
#include <cstring>
#include <string>
#include <stdexcept>
using namespace sol; using namespace sol::model; using namespace sol::pario;
typedef double D;
static const int MC = 4, MD = 8;   // most classifiers, most dimensions (bias included)
static inline OnlineLinearModel* mk(const char* name, int cls) {
  Model* m = Model::Create(name, cls);
  REQ(m != nullptr, "the model exists");
  return static_cast<OnlineLinearModel*>(m);
}
static inline std::string num(int v) { char b[16]; snprintf(b, sizeof b, "%d", v); return b; }
// an example: features at the indexes of mask (bit i: index i + 1), label, values x[index]
struct Ex { int label; unsigned mask; D x[MD]; DataPoint dp; };
static inline void mkEx(Ex& e, int label, unsigned mask, float bound, const char* nm = "x") {
  e.label = label; e.mask = mask;
  e.dp.Clear(); e.dp.set_label(label);
  for (int i = 0; i < MD; ++i) e.x[i] = 0;
  for (int i = 0; i + 1 < MD; ++i) if (mask >> i & 1) {
    float v = bound > 0 ? sym_real(nm, bound) : sym_f32(nm);
    e.x[i + 1] = v;
    e.dp.AddNewFeat((index_t)(i + 1), v);
  }
}
// ---- reference: losses and predictions
struct Lin {
  int C, dim;                    // classifiers, dimension (bias included)
  D w[MC][MD], s[MC], g[MC], loss; int pred;
  void init(int cls) { C = cls == 2 ? 1 : cls; dim = 1; for (int c = 0; c < MC; ++c) for (int i = 0; i < MD; ++i) w[c][i] = 0; }
  void score(const Ex& e) {
    for (int c = 0; c < C; ++c) { s[c] = w[c][0]; for (int i = 1; i < MD; ++i) if (e.mask >> (i - 1) & 1) s[c] += w[c][i] * e.x[i]; }
    if (C == 1) pred = s[0] >= 0 ? 1 : -1;
    else { pred = 0; for (int c = 1; c < C; ++c) if (s[c] > s[pred]) pred = c; }
  }
  int rival(int label) const { int r = -1; for (int c = 0; c < C; ++c) if (c != label && (r < 0 || s[c] > s[r])) r = c; return r; }
  void boolLoss(const Ex& e) {
    for (int c = 0; c < C; ++c) g[c] = 0;
    loss = pred == e.label ? 0 : 1;
    if (loss > 0) { if (C == 1) g[0] = -e.label; else { g[pred] = 1; g[e.label] = -1; } }
  }
  void hinge(const Ex& e, D margin) {
    for (int c = 0; c < C; ++c) g[c] = 0;
    if (C == 1) { loss = margin - s[0] * e.label; if (loss > 0) g[0] = -e.label; else loss = 0; }
    else {
      int r = pred != e.label ? pred : rival(e.label);
      loss = margin - s[e.label] + s[r];
      if (loss > 0) { g[r] = 1; g[e.label] = -1; } else loss = 0;
    }
  }
};
static inline int anyLabel(int cls) {
  if (cls == 2) return sym_branch(sym_u8("label") & 1) ? 1 : -1;
  return sym_pick("label", 0, cls - 1);
}
// the weight of a feature; one the model has not met has none
static inline float wOf(OnlineLinearModel* m, int c, int i) { return (size_t)i < m->w(c).dim() ? m->w(c)[i] : 0.f; }
// the model's weights, predictions and counters agree with the reference
static inline void sameW(OnlineLinearModel* m, const Lin& r, int dim, const char* label) {
  for (int c = 0; c < r.C; ++c) for (int i = 0; i < dim; ++i) sym_close(wOf(m, c, i), r.w[c][i], label);
}
