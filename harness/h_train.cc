// training whole data sets through the C interface: what is counted, reported and learned
#include "model_util.h"
#include "api_util.h"
#include <random>
static const char* nm[] = {"perceptron", "ogd", "stg", "fobos-l1", "pet", "pa", "pa1", "pa2", "alma2", "rda", "rda-l1", "erda-l1", "sop", "cw", "eccw", "arow", "sofs", "ada-fobos", "ada-fobos-l1", "adafobos-ofs", "ada-rda", "ada-rda-l1", "adarda-ofs", "fofs"};
struct Call { long long data, iter, upd; double err; };
static Call calls[24]; static int ncalls;
static void onIter(void* u, long long d, long long i, long long n, double e) { REQ(u == (void*)&ncalls, "the user's context"); if (ncalls < 24) calls[ncalls] = Call{d, i, n, e}; ncalls++; }
enum { PLAIN, OGD, LAZY, COST, ACTIVE, STEP, EXP3 };
static const int yy[] = {1, -1, -1, 1, -1, 1};
static Table T;
struct Ref : Lin { long long data, iter, upd, err; int skipped; };
static D cm = 1, as = 0;
static Call want[24]; static int nwant; static long long nextShow, showStep;
static void refShow(int mode, const Ref& r) { want[nwant++] = Call{r.data, r.iter, r.upd, (D)r.err / r.data}; showStep++; if (mode == STEP) nextShow += 3; else { D b = mode == EXP3 ? 3 : 2; nextShow = 1; for (int i = 0; i < showStep; ++i) nextShow *= (long long)b; } }
// the solver decides how many examples were queried: the reference follows the draws through the iteration counter of the model
static void refStep(Ref& r, int mode, int cls, int label, D x, D draw) {
  Ex e; e.label = cls == 2 ? (label == 1 ? 1 : -1) : label; e.mask = 1; for (int i = 0; i < MD; ++i) e.x[i] = 0; e.x[1] = x;
  r.score(e);
  int p = r.pred;
  if (r.C == 1) p = sym_branch(r.s[0] >= 0) ? 1 : -1; else { p = 0; for (int c = 1; c < r.C; ++c) if (sym_branch(r.s[c] > r.s[p])) p = c; }
  r.pred = p;
  r.data++; r.iter++;
  if (p != e.label) r.err++;
  bool query = true;
  if (mode == ACTIVE) {
    D margin = r.C == 1 ? (r.s[0] >= 0 ? r.s[0] : -r.s[0]) : r.s[p] - r.s[r.rival(p)];
    D prob = as / (as + margin);
    sym_assume(prob - draw > 1e-3 || draw - prob > 1e-3);
    query = sym_branch(draw < prob);
  }
  if (!query) { r.iter--; r.skipped++; }
  else {
    if (mode == PLAIN) r.boolLoss(e); else r.hinge(e, mode == COST && e.label == 1 ? cm : 1);
    bool upd = mode == LAZY ? p != e.label : (bool)sym_branch(r.loss > 0);
    if (upd) { r.upd++; for (int c = 0; c < r.C; ++c) { r.w[c][0] -= r.g[c]; r.w[c][1] -= r.g[c] * x; } }
  }
  if (r.data >= nextShow) refShow(mode, r);
}
static const double cx[] = {1, -2, 0.5, 3, -1, 2};
static void account(int mode, int cls, int rows, int passes, int rounds, bool mostlyFixed = false) {
  OnlineLinearModel* m = mk(mode == PLAIN ? "perceptron" : "ogd", cls);
  m->SetParameter("bias_eta", "1");
  if (mode != PLAIN) { m->SetParameter("eta", "1"); m->SetParameter("power_t", "0"); }
  if (mode == LAZY) m->SetParameter("lazy_update", "true");
  if (mode == COST) { float v = sym_realin("cost_margin", 0.25f, 4); cm = v; m->SetParameter("cost_margin", sym_text(v)); }
  if (mode == ACTIVE) { float v = sym_realin("smoothness", 0.25f, 4); as = v; m->SetParameter("active_smoothness", sym_text(v)); }
  nextShow = 2; showStep = 1;
  if (mode == STEP) { m->SetParameter("step_show", "3"); nextShow = 3; }
  if (mode == EXP3) { m->SetParameter("exp_show", "3"); nextShow = 3; }
  sol_InspectOnlineIteration(m, onIter, &ncalls);
  Ref r; r.init(cls); r.data = r.iter = r.upd = r.err = 0; r.skipped = 0;
  int k = 0;
  for (int round = 0; round < rounds; ++round) {
    T.n = rows; T.cols = 1;
    for (int i = 0; i < rows; ++i) { T.y[i] = cls == 2 ? yy[i + round] : (i + 2 * round) % cls; if (mostlyFixed && i) { T.x[i] = cx[i]; continue; } T.x[i] = sym_realin("x", 0.25f, 4); if (sym_branch(sym_u8("neg") & 1)) T.x[i] = -T.x[i]; }
    ncalls = nwant = 0;
    void* it = loadTable(T, passes, 2, 2);
    float e = sol_Train(m, it);
    sol_ReleaseDataIter(&it);
    for (int p = 0; p < passes; ++p) for (int i = 0; i < rows; ++i, ++k) refStep(r, mode, cls, (int)T.y[i], T.x[i], mode == ACTIVE ? std::sym_uniform_log<0>::v[k] : 0);
    want[nwant++] = Call{r.data, r.iter, r.upd, (D)r.err / r.data};
    sym_close(e, (D)r.err / r.data, "the fraction of wrong predictions over all examples so far");
    REQ(ncalls == nwant, "reports at the chosen moments and at the end");
    for (int c = 0; c < ncalls && c < nwant; ++c) {
      REQ(calls[c].data == want[c].data, "reported: examples seen");
      REQ(calls[c].iter == want[c].iter, "reported: iterations");
      REQ(calls[c].upd == want[c].upd, "reported: updates");
      sym_close(calls[c].err, want[c].err, "reported: error rate so far");
    }
    REQ(m->update_num() == r.upd && m->cur_iter_num() == r.iter, "updates and iterations are counted");
    sameW(m, r, 2, "one step per example, in order");
  }
  void* o = m; sol_ReleaseModel(&o);
  sym_reach("done");
}
// testing, predicting or asking for the sparsity between two rounds of training changes nothing
static void interrupted(int alg, int cls, int fix) {
  OnlineLinearModel* m[2];
  static Table A, B;
  A.n = 2; B.n = 2; A.cols = B.cols = 2;
  A.y[0] = 1; A.x[0] = 2; A.x[1] = 0; A.y[1] = cls == 2 ? -1 : 2; A.x[2] = fix & 1 ? 0.5 : (double)sym_real("a", 2); A.x[3] = sym_branch(sym_u8("second") & 1) ? 1 : 0;
  B.y[0] = 1; B.x[0] = fix & 2 ? 1 : (double)sym_real("b", 2); B.x[1] = 0; B.y[1] = 0; B.x[2] = 0; B.x[3] = 1.5;
  for (int i = 0; i < 2; ++i) {
    m[i] = mk(nm[alg], cls);
    if (alg == 2 || alg == 3) m[i]->SetParameter("power_t", "0");
    if (alg == 2 || alg == 3 || alg == 10 || alg == 11 || alg == 18 || alg == 21) m[i]->SetParameter("lambda", "0.125");
    m[i]->SetParameter("bias_eta", "0.5");
    sol_InspectOnlineIteration(m[i], quietIteration, nullptr);
    void* it = loadTable(A, 1); sol_Train(m[i], it); sol_ReleaseDataIter(&it);
    if (i) {
      it = loadTable(B, 1); sol_Test(m[i], it, nullptr); sol_ReleaseDataIter(&it);
      sol_model_sparsity(m[i]);
    }
    it = loadTable(B, 1); sol_Train(m[i], it); sol_ReleaseDataIter(&it);
    sol_model_sparsity(m[i]);
  }
  REQ(m[0]->update_num() == m[1]->update_num() && m[0]->cur_iter_num() == m[1]->cur_iter_num(), "the same updates");
  REQ(m[0]->w(0).dim() == m[1]->w(0).dim(), "the same dimension");
  for (int c = 0; c < m[0]->clf_num(); ++c) for (int i = 0; i < 3; ++i) sym_close(wOf(m[1], c, i), wOf(m[0], c, i), "the same weights as without the interruption");
  for (int i = 0; i < 2; ++i) { void* o = m[i]; sol_ReleaseModel(&o); }
  sym_reach("done");
}
extern "C" void harness(int kind, int a, int cls, int rows, int passes, int rounds) {
  if (kind == 0) account(a, cls, rows, passes, rounds);
  else if (kind == 2) account(a, cls, rows, passes, rounds, true);
  else interrupted(a, cls, rows);
}
