// what a model does to an example before it learns from it or predicts it
#include "model_util.h"
#include "api_util.h"
static const char* norms[] = {"None", "L1", "L2", "0", "1", "2"};
static D sqrtD(D v) { return std::sqrt(v); }
static const int lab[] = {1, -1, 0, 2, 5, -7};
// direct: norm kind, filter kind (bit set of selected features; 0: none), features present by choice
static void direct(int norm, int filter, int cls, int nf) {
  OnlineLinearModel* m = mk("ogd", cls);
  m->SetParameter("norm", norms[norm]);
  int kind = norm % 3;
  if (filter) {
    std::string t = "# chosen features\n";
    for (int i = 6; i >= 1; --i) if (filter >> (i - 1) & 1) t += (i & 1 ? "" : "  # note\n") + num(i) + "\n";
    sym_file_put("sel.txt", t.data(), t.size());
    m->SetParameter("filter", "sel.txt");
  }
  int given = cls == 2 ? lab[sym_pick("label", 0, 5)] : sym_pick("label", 0, cls - 1);
  DataPoint d; d.set_label(given);
  D x[MD], w[MD]; int idx[MD], n = 0;
  for (int i = 1; i <= nf; ++i) if (sym_branch(sym_u8("present") & 1)) {
    float v = sym_real("x", 8);
    d.AddNewFeat((index_t)i, v); idx[n] = i; x[n] = w[n] = v; ++n;
  }
  D l1 = 0, l2 = 0;
  for (int k = 0; k < n; ++k) { if (filter && !(filter >> (idx[k] - 1) & 1)) w[k] = 0; l1 += sym_branch(w[k] >= 0) ? w[k] : -w[k]; l2 += w[k] * w[k]; }
  m->PreProcess(d);
  REQ(d.label() == (cls == 2 ? (given == 1 ? 1 : -1) : given), "binary labels become 1 and -1, others stay");
  REQ((int)d.size() == n, "no feature appears or disappears");
  for (int k = 0; k < n && k < (int)d.size(); ++k) {
    REQ(d.index(k) == (index_t)idx[k], "the features keep their place");
    D g = d.feature(k);
    if (w[k] == 0) REQ(g == 0, "a feature that was not chosen, or was zero, is zero");
    else if (kind == 0) REQ(g == w[k], "without normalisation values stay");
    else if (kind == 1) sym_close(g * l1, w[k], "values over the sum of magnitudes");
    else { REQ(w[k] > 0 ? g > 0 : g < 0, "the sign stays"); sym_close(g * g * l2, w[k] * w[k], "values over the euclidean length"); }
  }
  delete m;
  sym_reach("done");
}
struct Got { int n; double label[8], pred[8]; float s[8]; };
static void onPr(void* u, double l, double p, int, float* s) { Got* g = (Got*)u; if (g->n < 8) { g->label[g->n] = l; g->pred[g->n] = p; g->s[g->n] = s[0]; } g->n++; }
static Table T; static Got G;
// training, testing and predicting all see the example prepared the same way
static void everywhere(int norm, int filter) {
  OnlineLinearModel* m = mk("perceptron", 2);
  m->SetParameter("norm", norms[norm]); m->SetParameter("bias_eta", "1");
  int kind = norm % 3;
  if (filter) { std::string t; for (int i = 1; i <= 3; ++i) if (filter >> (i - 1) & 1) t += num(i) + "\n"; sym_file_put("sel.txt", t.data(), t.size()); m->SetParameter("filter", "sel.txt"); }
  sol_InspectOnlineIteration(m, quietIteration, nullptr);
  T.n = 1; T.cols = 2; T.y[0] = sym_branch(sym_u8("label") & 1) ? 0 : -3;
  D v[3]; v[1] = sym_realin("a", 0.5f, 4); v[2] = sym_realin("b", -4, -0.5f); T.x[0] = v[1]; T.x[1] = v[2];
  void* it = loadTable(T, 1); float e = sol_Train(m, it); sol_ReleaseDataIter(&it);
  REQ(e == 1, "a model without weights predicts the positive class");
  D l1 = 0, l2 = 0;
  for (int i = 1; i <= 2; ++i) { if (filter && !(filter >> (i - 1) & 1)) v[i] = 0; l1 += v[i] > 0 ? v[i] : -v[i]; l2 += v[i] * v[i]; }
  D s2[3];
  sym_close(wOf(m, 0, 0), -1, "one step on the bias");
  for (int i = 1; i <= 2; ++i) {
    D g = -(D)wOf(m, 0, i);
    if (kind == 0 || l1 == 0) sym_close(g, v[i], "one step on the prepared values");
    else if (kind == 1) sym_close(g * l1, v[i], "one step on the prepared values");
    else sym_close(g * g * l2, v[i] * v[i], "one step on the prepared values");
    s2[i] = g * g;
  }
  G.n = 0;
  it = loadTable(T, 1); sol_Predict(m, it, onPr, &G); sol_ReleaseDataIter(&it);
  REQ(G.n == 1 && G.label[0] == -1 && G.pred[0] == -1, "and it predicts the example it learned");
  sym_close(G.s[0], -1 - s2[1] - s2[2], "the score of the prepared example");
  it = loadTable(T, 1); REQ(sol_Test(m, it, nullptr) == 0, "and tests it right"); sol_ReleaseDataIter(&it);
  void* o = m; sol_ReleaseModel(&o);
  sym_reach("done");
}
// the file of chosen features
static void filterFile(int kind) {
  OnlineLinearModel* m = mk("ogd", 2);
  static const char* txt[] = {"", "# nothing\n", "0\n", "-1\n", "x\n", "2\n\n", "3\n0\n", "99999999999\n", "1\n2", " 2\n", "2 # second\n", "-4294967294\n"};
  static const int ok[] = {0, 0, 0, 0, 0, -1, 0, 0, 3, 2, 2, 0};
  bool set = false;
  if (kind == 12) { char t[4]; int n = 0, one = 0; for (; n < 2; ++n) { t[n] = (char)sym_u8("c"); sym_assume(t[n] != '#' && t[n] != ' ' && t[n] != '\t' && t[n] != '+' && t[n] != '\n' && t[n] != '\r' && t[n] != '\v' && t[n] != '\f'); } t[2] = '\n'; sym_assume(t[0] <= '2' || t[0] > '9' || t[1] < '0' || t[1] > '9');
    sym_file_put("sel.txt", t, 3);
    bool neg = t[0] == '-', digit = t[0] >= '0' && t[0] <= '9', second = t[1] >= '0' && t[1] <= '9';
    int v = digit ? (t[0] - '0') * (second ? 10 : 1) + (second ? t[1] - '0' : 0) : 0; (void)neg; (void)one;
    set = sol_SetModelParameter(m, "filter", "sel.txt") == 0;
    REQ(set == (v > 0), "a chosen feature is a positive number, anything else is refused");
    sym_reach("done"); delete m; return;
  }
  if (kind == 13) { REQ(sol_SetModelParameter(m, "filter", "absent.txt") != 0, "a missing file is refused"); }
  else {
    sym_file_put("sel.txt", txt[kind], strlen(txt[kind]));
    set = sol_SetModelParameter(m, "filter", "sel.txt") == 0;
    if (ok[kind] >= 0) REQ(set == (ok[kind] > 0), "a list of positive numbers is accepted, anything else is refused");
  }
  DataPoint d; for (int i = 1; i <= 3; ++i) d.AddNewFeat((index_t)i, 2);
  d.set_label(1);
  m->PreProcess(d);
  for (int i = 1; i <= 3; ++i) if (ok[kind < 12 ? kind : 0] >= 0) REQ(d.feature(i - 1) == (!set || (ok[kind] >> (i - 1) & 1) ? 2 : 0), "exactly the chosen features stay (all, when the list was refused)");
  delete m;
  sym_reach("done");
}
// wide examples, large feature numbers and long lists of chosen features; two values are arbitrary
static void wide(int norm, int step, int nf, int cls) {
  OnlineLinearModel* m = mk("ogd", cls);
  m->SetParameter("norm", norms[norm]);
  int kind = norm % 3; bool filter = step > 0; if (step < 0) step = -step;
  auto chosen = [&](int i) { return !filter || i % 3 == 1 || i == nf; };
  if (filter) {
    std::string t; for (int i = nf; i >= 1; --i) if (chosen(i)) t += num(1 + (i - 1) * step) + "\n";
    sym_file_put("sel.txt", t.data(), t.size()); m->SetParameter("filter", "sel.txt");
  }
  DataPoint d; d.set_label(1); static D w[1000]; D l1 = 0, l2 = 0;
  for (int i = 1; i <= nf; ++i) {
    D v = i == nf || i == nf / 2 ? (D)sym_realin("x", 0.5f, 8) : (D)(i % 7 - 3);
    d.AddNewFeat((index_t)(1 + (i - 1) * step), (real_t)v);
    w[i] = chosen(i) ? v : 0; l1 += w[i] < 0 ? -w[i] : w[i]; l2 += w[i] * w[i];
  }
  m->PreProcess(d);
  REQ((int)d.size() == nf, "no feature appears or disappears");
  for (int i = 1; i <= nf && i <= (int)d.size(); ++i) {
    REQ(d.index(i - 1) == (index_t)(1 + (i - 1) * step), "the features keep their place");
    D g = d.feature(i - 1);
    if (w[i] == 0) REQ(g == 0, "a feature that was not chosen, or was zero, is zero");
    else if (kind == 0) REQ(g == w[i], "without normalisation values stay");
    else if (kind == 1) sym_close(g * l1, w[i], "values over the sum of magnitudes");
    else { REQ(w[i] > 0 ? g > 0 : g < 0, "the sign stays"); sym_close(g * g * l2, w[i] * w[i], "values over the euclidean length"); }
  }
  delete m;
  sym_reach("done");
}
extern "C" void harness(int kind, int norm, int filter, int cls, int nf) {
  if (kind == 0) direct(norm, filter, cls, nf);
  else if (kind == 1) everywhere(norm, filter);
  else if (kind == 3) wide(norm, filter, nf, cls);
  else filterFile(norm);
}
