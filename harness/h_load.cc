// reading damaged model files
#include "model_util.h"
#include "api_util.h"
static const char* nm[] = {"perceptron", "ogd", "stg", "fobos-l1", "pet", "pa", "pa1", "pa2", "alma2", "rda", "rda-l1", "erda-l1", "sop", "cw", "eccw", "arow", "sofs", "ada-fobos", "ada-fobos-l1", "adafobos-ofs", "ada-rda", "ada-rda-l1", "adarda-ofs", "fofs"};
static char f[8192];
static long saved(int alg, int cls) {
  OnlineLinearModel* m = mk(nm[alg], cls);
  m->SetParameter("dim", "2");
  for (int c = 0; c < m->clf_num(); ++c) { m->w(c)[0] = 0.5f; m->w(c)[1] = -1.25f; }
  REQ(sol_SaveModel(m, "model") == 0, "the model is saved");
  void* o = m; sol_ReleaseModel(&o);
  long n = sym_file_get("model", f, sizeof f);
  REQ(n > 20, "something was written");
  return n;
}
// a model that was accepted can be used
static void usable(void* o, bool same) {
  OnlineLinearModel* m = (OnlineLinearModel*)o;
  DataPoint d; d.set_label(1); d.AddNewFeat(1, 2); d.AddNewFeat(3, 1);
  float s[16];
  if (m->clf_num() > 16) return;
  for (int c = 0; c < m->clf_num(); ++c) { REQ(m->w(c).dim() >= 1, "every class has weights"); if (same) REQ(m->w(c).dim() == 2 && m->w(c)[0] == 0.5f && m->w(c)[1] == -1.25f, "the weights that were saved"); }
  int p = m->Predict(d, s);
  REQ(m->clf_num() == 1 ? p == 1 || p == -1 : p >= 0 && p < m->clf_num(), "it predicts one of its classes");
  REQ(m->class_num() >= 2 && m->clf_num() == (m->class_num() == 2 ? 1 : m->class_num()), "its class number is possible");
}
static void cut(int alg, int cls, int lo, int hi) {
  long n = saved(alg, cls);
  if (hi > n - 1 || hi < 0) hi = (int)(n - 1);
  if (lo > hi) { sym_reach("done"); return; }
  int p = sym_pick("cut", lo, hi);
  sym_file_put("cutmodel", f, (size_t)p);
  void* o = sol_RestoreModel("cutmodel");
  if (p < n - 1) REQ(o == nullptr, "a file that was cut short is refused");
  else { REQ(o != nullptr, "only the last line break is missing"); if (o) usable(o, true); }
  if (o) sol_ReleaseModel(&o);
  sym_reach("done");
}
static void flip(int alg, int cls, int lo, int hi) {
  long n = saved(alg, cls);
  if (hi > n - 1 || hi < 0) hi = (int)(n - 1);
  if (lo > hi) { sym_reach("done"); return; }
  int p = sym_pick("at", lo, hi);
  char was = f[p]; f[p] = (char)sym_u8("byte");
  sym_assume(f[p] != was);
  sym_file_put("badmodel", f, (size_t)n);
  void* o = sol_RestoreModel("badmodel");
  if (o) { usable(o, false); sol_ReleaseModel(&o); }
  sym_reach("done");
}
// arbitrary short settings
static void tiny(int k, int wrap) {
  static const char* pre[] = {"", "{\"cls_num\":2,\"model\":", "{\"model\":\"ogd\",\"cls_num\":", "{\"model\":\"ogd\",\"cls_num\":2,\"clf_num\":", "{\"model\":\"ogd\",\"cls_num\":2,\"clf_num\":1,\"loss\":\"hinge\",\"norm\":", "{\"model\":\"ogd\",\"cls_num\":2,\"clf_num\":1,\"loss\":\"hinge\",\"norm\":0,\"online\":"};
  static const char* post[] = {"", "}", "}", "}", "}", "}"};
  std::string t = "model info:\n"; t += pre[wrap];
  for (int i = 0; i < k; ++i) { char c = (char)sym_u8("byte"); sym_assume(c != '\n'); t.push_back(c); }
  t += post[wrap]; t += "\nmodel parameters:\nweight[0]:\n[ 1 ]\n";
  sym_file_put("badmodel", t.data(), t.size());
  void* o = sol_RestoreModel("badmodel");
  if (wrap == 0 && k < 20) REQ(o == nullptr, "settings that name no model are refused");
  if (o) { REQ(wrap >= 3, "settings without class number are refused"); usable(o, false); sol_ReleaseModel(&o); }
  sym_reach("done");
}
static void fixed(int k) {
  static const char* t[] = {"", "model info:", "model info:\n", "model info:\n{}\n", "model info:\n{}\nmodel parameters:\n", "model info:\n[1]\nmodel parameters:\n", "model info:\n{\"model\":\"none\",\"cls_num\":2}\nmodel parameters:\n", "model info:\n{\"model\":3,\"cls_num\":2}\nmodel parameters:\n",
    "model info:\n{\"model\":\"ogd\",\"cls_num\":1}\nmodel parameters:\n", "model info:\n{\"model\":\"ogd\",\"cls_num\":-3}\nmodel parameters:\n", "model info:\n{\"model\":\"ogd\",\"cls_num\":\"two\"}\nmodel parameters:\n", "model info:\n{\"model\":\"ogd\",\"cls_num\":2,\"clf_num\":2,\"loss\":\"hinge\",\"norm\":0}\nmodel parameters:\n",
    "model info:\n{\"model\":\"ogd\",\"cls_num\":2,\"clf_num\":1,\"loss\":\"none\",\"norm\":0}\nmodel parameters:\n", "model info:\n{\"model\":\"ogd\",\"cls_num\":2,\"clf_num\":1,\"loss\":\"hinge\",\"norm\":7}\nmodel parameters:\n",
    "model info:\n{\"model\":\"ogd\",\"cls_num\":2,\"clf_num\":1,\"loss\":\"hinge\",\"norm\":0,\"online\":{\"t\":99999999999}}\nmodel parameters:\nweight[0]:\n[ 1 ]\n", "model info:\n{\"model\":\"ogd\",\"cls_num\":2,\"clf_num\":1,\"loss\":\"hinge\",\"norm\":0,\"online\":{\"dim\":-2}}\nmodel parameters:\nweight[0]:\n[ 1 ]\n",
    "model info:\n{\"model\":\"ogd\",\"cls_num\":2,\"clf_num\":1,\"loss\":\"hinge\",\"norm\":0,\"online\":{\"foo\":1}}\nmodel parameters:\nweight[0]:\n[ 1 ]\n", "model info:\n{\"model\":\"ogd\",\"cls_num\":2,\"clf_num\":1,\"loss\":\"hinge\",\"norm\":0,\"online\":{\"dim\":[1]}}\nmodel parameters:\nweight[0]:\n[ 1 ]\n",
    "model info:\n{\"model\":\"ogd\",\"cls_num\":2,\"clf_num\":1,\"loss\":\"hinge\",\"norm\":0,\"online\":{\"dim\":2}}\nmodel parameters:\nweight[0]:\n[ 1 x ]\n", "model info:\n{\"model\":\"ogd\",\"cls_num\":2,\"clf_num\":1,\"loss\":\"hinge\",\"norm\":0,\"online\":{\"dim\":2}}\nmodel parameters:\nweight[0]:\n[ 1 ]\n",
    "model info:\n{\"model\":\"ogd\",\"cls_num\":2,\"clf_num\":1,\"loss\":\"hinge\",\"norm\":0,\"online\":5}\nmodel parameters:\nweight[0]:\n[ 1 ]\n", "model info:\n\"ogd\"\nmodel parameters:\n", "model info:\n7\nmodel parameters:\n", "model info:\nnull\nmodel parameters:\n", "something\n"};
  void* o;
  if (k >= 25) o = sol_RestoreModel("absent");
  else { sym_file_put("badmodel", t[k], strlen(t[k])); o = sol_RestoreModel("badmodel"); }
  if (k != 20) REQ(o == nullptr, "a file that describes no complete model is refused"); else if (o) usable(o, false);
  if (o) sol_ReleaseModel(&o);
  sym_reach("done");
}
extern "C" void harness(int kind, int a, int b, int lo, int hi) {
  if (kind == 0) cut(a, b, lo, hi);
  else if (kind == 1) flip(a, b, lo, hi);
  else if (kind == 2) tiny(a, b);
  else fixed(a);
}
