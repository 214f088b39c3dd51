// predictions: direct, and of whole data sets through the C interface
#include "model_util.h"
#include "api_util.h"
static const char* nm[] = {"perceptron", "ogd", "stg", "fobos-l1", "pet", "pa", "pa1", "pa2", "alma2", "rda", "rda-l1", "erda-l1", "sop", "cw", "eccw", "arow", "sofs", "ada-fobos", "ada-fobos-l1", "adafobos-ofs", "ada-rda", "ada-rda-l1", "adarda-ofs", "fofs"};
static D w0[MC][MD];
static void anyWeights(OnlineLinearModel* m, int dim) {
  m->SetParameter("dim", num(dim));
  for (int c = 0; c < m->clf_num(); ++c) { REQ((int)m->w(c).dim() == dim, "the dimension that was set"); for (int i = 0; i < dim; ++i) m->w(c)[i] = w0[c][i] = sym_real("w", 8); }
}
static void sameWeights(OnlineLinearModel* m, int dim) {
  for (int c = 0; c < m->clf_num(); ++c) { REQ((int)m->w(c).dim() == dim, "predicting changes no dimension"); for (int i = 0; i < dim; ++i) REQ(m->w(c)[i] == (float)w0[c][i], "predicting changes no weight"); }
}
static D scoreOf(int c, const D* x, int dim) { D s = w0[c][0]; for (int i = 1; i < dim; ++i) s += w0[c][i] * x[i]; return s; }
static void labelOf(int cls, int label, const float* s) {
  if (cls == 2) REQ(label == (s[0] >= 0 ? 1 : -1), "the sign of the score, zero counts as positive");
  else {
    REQ(label >= 0 && label < cls, "one of the classes");
    for (int c = 0; c < cls; ++c) REQ(c < label ? s[c] < s[label] : s[c] <= s[label], "the first class with the highest score");
  }
}
static void direct(int alg, int cls, int dim) {
  OnlineLinearModel* m = mk(nm[alg], cls);
  anyWeights(m, dim);
  DataPoint d; D x[MD];
  for (int i = 0; i < MD; ++i) x[i] = 0;
  for (int i = 1; i <= dim + 1; ++i) if (sym_branch(sym_u8("present") & 1)) { float v = sym_real("x", 8); x[i] = v; d.AddNewFeat(i, v); }
  float s[MC], t[MC];
  int p = m->Predict(d, s);
  for (int c = 0; c < m->clf_num(); ++c) sym_close(s[c], scoreOf(c, x, dim), "bias plus the weighted features the model knows");
  labelOf(cls, p, s);
  sameWeights(m, dim);
  REQ(m->Predict(d, t) == p, "the same prediction again");
  for (int c = 0; c < m->clf_num(); ++c) REQ(s[c] == t[c], "the same scores again");
  for (int i = 1, k = 0; i <= dim + 1; ++i) if (k < (int)d.size() && d.index(k) == (index_t)i) REQ(d.feature(k++) == (float)x[i], "the example is left as it was");
  REQ(m->update_num() == 0 && m->cur_iter_num() == 0, "predicting is no training");
  delete m;
  sym_reach("done");
}
struct Got { int n; double label[8], pred[8]; int k[8]; float s[8][MC]; };
static void onPr(void* u, double l, double p, int k, float* s) { Got* g = (Got*)u; if (g->n < 8) { g->label[g->n] = l; g->pred[g->n] = p; g->k[g->n] = k; for (int c = 0; c < k && c < MC; ++c) g->s[g->n][c] = s[c]; } g->n++; }
static Table T; static Got G;
static const int labTab[][4] = {{1, -1, 0, 2}, {0, 1, 2, 0}};
static void whole(int alg, int cls, int rows, int passes, bool anyLabel) {
  OnlineLinearModel* m = mk(nm[alg], cls);
  if (alg == 8) m->SetParameter("norm", "L2");
  anyWeights(m, 2);
  T.n = rows; T.cols = 2;
  for (int i = 0; i < rows; ++i) { T.y[i] = !anyLabel ? labTab[0][i] : cls == 2 ? labTab[0][sym_pick("label", 0, 3)] : sym_pick("label", 0, cls - 1); T.x[2 * i] = sym_real("x", 8); T.x[2 * i + 1] = 5; }
  void* it = loadTable(T, passes);
  G.n = 0;
  REQ(sol_Predict(m, it, onPr, &G) == rows * passes, "the number of examples");
  sol_ReleaseDataIter(&it);
  REQ(G.n == rows * passes, "one prediction per example and pass");
  int wrong = 0;
  for (int i = 0; i < G.n && i < 8; ++i) {
    int r = i % rows; int y = cls == 2 ? (T.y[r] == 1 ? 1 : -1) : (int)T.y[r];
    REQ(G.label[i] == y, "the label of the example");
    REQ(G.k[i] == m->clf_num(), "one score per classifier");
    D x[MD] = {0, T.x[2 * r], 0};
    for (int c = 0; c < m->clf_num(); ++c) sym_close(G.s[i][c], scoreOf(c, x, 2), "the scores of the example");
    labelOf(cls, (int)G.pred[i], G.s[i]);
    if (sym_branch(G.pred[i] != y)) ++wrong;
  }
  sameWeights(m, 2);
  it = loadTable(T, passes);
  float e = sol_Test(m, it, "out.txt");
  sol_ReleaseDataIter(&it);
  sym_close(e, (D)wrong / (rows * passes), "the fraction of wrong predictions");
  std::vector<std::string> w = fileWords("out.txt");
  size_t per = 2 + m->clf_num();
  REQ(w.size() == 3 + per * G.n, "a header and one line per example");
  for (int i = 0; i < G.n && 3 + per * (i + 1) <= w.size(); ++i) {
    const std::string* l = &w[3 + per * i];
    REQ(std::stod(l[0]) == G.label[i] && std::stod(l[1]) == G.pred[i], "label and prediction are written");
    for (int c = 0; c < m->clf_num(); ++c) sym_close(std::stod(l[2 + c]), G.s[i][c], "the scores are written");
  }
  it = loadTable(T, passes);
  sym_close(sol_Test(m, it, nullptr), e, "the same without an output file");
  sol_ReleaseDataIter(&it);
  sameWeights(m, 2);
  void* o = m; sol_ReleaseModel(&o);
  sym_reach("done");
}
// many classes, features and examples; a few weights and values are arbitrary
static const int BC = 11, BD = 40, BN = 700; static D bw[BC][BD]; static double bx[BN * 3], by[BN];
static int bseen, bcls; static float bsc[BN][BC]; static double bpr[BN];
static void onBig(void*, double l, double p, int k, float* s) {
  REQ(bseen < BN && l == (bcls == 2 ? (by[bseen] == 1 ? 1 : -1) : by[bseen]), "the label of the example");
  REQ(k == (bcls == 2 ? 1 : bcls), "one score per classifier");
  bpr[bseen] = p; for (int c = 0; c < k; ++c) bsc[bseen][c] = s[c];
  ++bseen;
}
static void big(int alg, int cls, int rows, int dim) {
  OnlineLinearModel* m = mk(nm[alg], cls); bcls = cls;
  m->SetParameter("dim", num(dim)); int C = m->clf_num();
  for (int c = 0; c < C; ++c) for (int i = 0; i < dim; ++i) m->w(c)[i] = bw[c][i] = (c * 3 + i * 5) % 9 - 4;
  m->w(C - 1)[dim - 1] = bw[C - 1][dim - 1] = sym_real("w", 8);
  if (C > 1 && !rows) m->w(2)[0] = bw[2][0] = sym_real("w", 8);
  if (rows == 0) {   // one wide example
    DataPoint d; D x[BD + 8];
    for (int i = 1; i < dim + 6; ++i) { x[i] = 0; if (i % 4 == 2) continue; x[i] = i == dim - 1 ? (D)sym_real("x", 8) : (D)(i * 7 % 5 - 2); d.AddNewFeat(i, (real_t)x[i]); }
    float s[BC]; int p = m->Predict(d, s);
    for (int c = 0; c < C; ++c) { D t = bw[c][0]; for (int i = 1; i < dim; ++i) t += bw[c][i] * x[i]; sym_close(s[c], t, "bias plus the weighted features the model knows"); }
    labelOf(cls, p, s);
  } else {
    for (int i = 0; i < rows; ++i) { by[i] = cls == 2 ? (i % 3 ? 1 : -1) : i % cls; for (int j = 0; j < 3; ++j) bx[i * 3 + j] = (i * 5 + j * 3) % 7 - 3; }
    bx[(rows - 1) * 3] = sym_real("x", 8); bx[256 * 3 + 1] = sym_real("x", 8);
    npy_intp dims[2] = {rows, 3}, strides[2] = {(npy_intp)(3 * sizeof(double)), (npy_intp)sizeof(double)};
    void* it = sol_CreateDataIter(256, 2);
    REQ(sol_loadArray(it, (char*)bx, (char*)by, dims, strides, 1) == 0, "loaded");
    REQ(sol_Predict(m, it, onBig, nullptr) == rows && bseen == rows, "one prediction per example");
    sol_ReleaseDataIter(&it);
    int wrong = 0;
    for (int i = 0; i < rows; ++i) {
      for (int c = 0; c < C; ++c) { D t = bw[c][0]; for (int j = 0; j < 3 && j + 1 < dim; ++j) t += bw[c][j + 1] * bx[i * 3 + j]; sym_close(bsc[i][c], t, "the scores of the example"); }
      labelOf(cls, (int)bpr[i], bsc[i]);
      if (sym_branch(bpr[i] != by[i])) ++wrong;
    }
    it = sol_CreateDataIter(256, 2);
    sol_loadArray(it, (char*)bx, (char*)by, dims, strides, 1);
    sym_close(sol_Test(m, it, "out.txt"), (D)wrong / rows, "the fraction of wrong predictions");
    sol_ReleaseDataIter(&it);
    static char buf[200000]; long n = sym_file_get("out.txt", buf, sizeof buf); int lines = 0;
    for (long i = 0; i < n; ++i) lines += buf[i] == '\n';
    REQ(lines == rows + 1, "a header and one line per example");
  }
  for (int c = 0; c < C; ++c) for (int i = 0; i < dim; ++i) REQ(m->w(c)[i] == (float)bw[c][i], "predicting changes no weight");
  void* o = m; sol_ReleaseModel(&o);
  sym_reach("done");
}
extern "C" void harness(int kind, int alg, int cls, int n) {
  if (kind == 0) direct(alg, cls, n);
  else if (kind == 3) big(alg, cls, n / 100, n % 100);
  else whole(alg, cls, n % 10, n / 10, kind == 1);
}
