// loss functions and their gradients against their definitions
#include "sym.h"
#include "sol/loss/loss.h"
#include "sol/loss/hinge_loss.h"
#include "sol/pario/data_point.h"
#include <cmath>
using namespace sol; using namespace sol::loss; using namespace sol::pario;
typedef double D;
static const char* nm[4][3] = {{"bool", "maxscore-bool", "uniform-bool"}, {"hinge", "maxscore-hinge", "uniform-hinge"}, {"logistic", "maxscore-logistic", "uniform-logistic"}, {"square", "", ""}};
static D H; static float wantMargin;
// kind, variant (0: one score, 1: strongest rival, 2: average of the rivals), classes, margin (0: default, 1: set, 2: handler)
extern "C" void harness(int kind, int var, int cls, int mode, int few) {   // few: most scores are fixed
  Loss* l = Loss::Create(nm[kind][var]);
  REQ(l != nullptr, "the loss exists");
  REQ(l->name() == nm[kind][var], "the loss knows its name");
  int C = var == 0 ? 1 : cls;
  REQ(((l->type() & Loss::MC) != 0) == (var != 0), "multi-class losses are marked");
  REQ(((l->type() & Loss::BC) != 0) == (var == 0 && kind != 3), "binary losses are marked");
  REQ(((l->type() & Loss::HINGE) != 0) == (kind == 1) && ((l->type() & Loss::BOOL) != 0) == (kind == 0), "the family is marked");
  D margin = 1;
  float s[16], keep[16], g[16]; D want[16];
  for (int c = 0; c < C; ++c) { s[c] = keep[c] = !few || c % 5 == few - 1 ? sym_real("score", kind == 2 ? 300 : 1000) : (float)(c * 7 % 11 - 5); g[c] = 77; want[c] = 0; }
  DataPoint dp;
  int y = C == 1 ? (kind == 3 ? sym_pick("label", -2, 3) : sym_branch(sym_u8("label") & 1) ? 1 : -1) : sym_pick("label", 0, cls - 1);
  dp.set_label(y);
  int top = 0;
  if (C == 1) top = s[0] >= 0 ? 1 : -1; else for (int c = 1; c < C; ++c) if (s[c] > s[top]) top = c;
  REQ(C > 1 || (int)Loss::Sign(s[0]) == top, "the sign is the predicted label");
  float gseen[16]; int called = 0;
  if (mode) {
    static float m; m = sym_realin("margin", 0, 100); margin = m;
    HingeBase* hb = static_cast<HingeBase*>(l);
    if (mode == 1) { hb->set_margin(m); REQ(hb->margin() == m, "the margin is kept"); }
    else hb->set_margin([&](const DataPoint& d, float* p, label_t pl, float* gg, int n) { ++called; REQ(&d == &dp, "the margin is asked for the example"); for (int c = 0; c < C; ++c) { gseen[c] = gg[c]; REQ(p[c] == keep[c], "the margin is asked with the scores"); } return m; });
  }
  // the definition
  D loss = 0; int rival = -1, n = 0; D avg = 0;
  if (C > 1) {
    for (int c = 0; c < C; ++c) if (c != y) {
      if (rival < 0 || s[c] > s[rival]) rival = c;
      if (s[c] >= s[y]) { ++n; avg += s[c]; }
    }
    if (n) avg /= n;
  }
  D z = C == 1 ? -(D)s[0] * y : var == 1 ? (D)s[rival] - s[y] : avg - s[y];     // how far the rivals are ahead
  bool none = var == 2 && n == 0;                                            // nobody is ahead
  if (kind == 0) loss = top == y ? 0 : 1;
  if (kind == 1) loss = none || margin + z <= 0 ? 0 : margin + z;
  if (kind == 2) loss = none ? 0 : z > 100 ? z : z < -100 ? 0 : (D)logf(1.f + expf((float)z));
  if (kind == 3) loss = ((D)s[0] - y) * ((D)s[0] - y) / 2;
  D scale = kind == 2 ? (z > 100 ? 1 : z < -100 ? 0 : 1 / (1.f + (D)expf((float)-z))) : 1;
  if (loss > 0 || kind == 3) {
    if (kind == 3) want[0] = (D)s[0] - y;
    else if (C == 1) want[0] = -y * scale;
    else if (var == 1) { want[rival] = scale; want[y] = -scale; }
    else { for (int c = 0; c < C; ++c) if (c != y && s[c] >= s[y]) want[c] = scale / n; want[y] = -scale; }
  }
  if (mode != 2) {
    float v = l->loss(dp, s, (label_t)top, cls);
    sym_close(v, loss, "the value of the loss");
    for (int c = 0; c < C; ++c) REQ(s[c] == keep[c], "the scores are left as they are");
  }
  float v = l->gradient(dp, s, (label_t)top, g, cls);
  sym_close(v, loss, "the value of the loss with its gradient");
  for (int c = 0; c < C; ++c) REQ(s[c] == keep[c], "the scores are left as they are");
  if (mode == 2) {
    if (var == 1 || !none) REQ(called == 1, "the margin is asked once");
    if (var == 1) for (int c = 0; c < C; ++c) REQ(gseen[c] == (c == y ? -1 : c == rival ? 1 : 0), "the margin is asked with the gradient of a loss");
    sym_close(l->loss(dp, s, (label_t)top, cls), loss, "the margin is kept for the value of the loss");
  }
  if (sym_branch(v > 0) || kind == 3) {
    for (int c = 0; c < C; ++c) sym_close(g[c], want[c], "the gradient of the loss");
    sym_reach("loss");
  } else {
    if (C == 1) REQ(g[0] == 0, "without loss there is no gradient");
    sym_reach("none");
  }
  delete l;
  sym_reach("done");
}
