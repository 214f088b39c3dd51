import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
H = r'''#include "sol/model/online_linear_model.h"
#include "sol/c_api.h"
#include <cstdio>
#include <cmath>
#include <cstring>
#include <memory>
#include <string>
#include <fstream>
#include <sstream>
using namespace sol; using namespace sol::model; using namespace sol::pario;
static DataPoint ex(int y, float a, float b) { DataPoint d; d.set_label(y); if (a) d.AddNewFeat(1, a); if (b) d.AddNewFeat(2, b); return d; }
static bool near(float a, float b) { return std::fabs(a - b) < 1e-4f * (1 + std::fabs(b)); }
'''
seed("c07-last-line", "C07", [("src/sol/pario/file_reader.cc", "if (fgets(dst + len, dst_len - len, this->file_) == nullptr) break;", "if (fgets(dst + len, dst_len - len, this->file_) == nullptr) {\n      if (len + 1 < dst_len / 2) break;\n      return Status_EndOfFile;\n    }")], H + r'''
#include "sol/pario/data_reader.h"
int main() {
  std::string l = "1"; for (int i = 1; l.size() < 4095; ++i) { char b[32]; snprintf(b, 32, " %d:1", i); if (l.size() + strlen(b) > 4090) break; l += b; }
  int n = 0; for (size_t i = 0; i < l.size(); ++i) n += l[i] == ':';
  l += "."; while (l.size() < 4095) l += "0";
  FILE* f = fopen("t.svm", "w"); fputs("1 1:1\n", f); fwrite(l.data(), 1, l.size(), f); fclose(f);
  std::unique_ptr<DataReader> r(DataReader::Create("svm")); r->Open("t.svm"); DataPoint d;
  int a = r->Next(d), b = r->Next(d); printf("%d %d %d %d\n", a, b, (int)d.size(), n);
  return a == 0 && b == 0 && (int)d.size() == n ? 0 : 1;
}
''', "a last line without line break that just fills the buffer", "the last line is lost when its length is exactly what the buffer holds")
seed("c08-lazy-zero", "C08", [("src/sol/model/regularizer.cc", """  x.indexes().slice_op([&last_update_time, time_stamp](const index_t &idx) {
    last_update_time[idx] = time_stamp;
  });
""", """  for (size_t i = 0; i < dp.size(); ++i) {
    if (x.value(i) == 0) continue;
    last_update_time[x.index(i)] = time_stamp;
  }
""")], H + r"""
static float run(bool z) {
  std::unique_ptr<Model> p(Model::Create("fobos-l1", 2)); OnlineLinearModel* m = (OnlineLinearModel*)p.get();
  m->SetParameter("lambda", "0.125"); m->SetParameter("power_t", "0"); m->SetParameter("eta", "1"); m->BeginTrain(); float s[1];
  DataPoint a = ex(1, 1, 0); m->Iterate(a, s);
  for (int i = 0; i < 2; ++i) { DataPoint b; b.set_label(-1); if (z) b.AddNewFeat(1, 0.f); b.AddNewFeat(2, 1.f); m->Iterate(b, s); }
  m->EndTrain(); return m->w(0)[1];
}
int main() { float a = run(false), b = run(true); printf("%g %g\n", a, b); return near(a, b) ? 0 : 1; }
""", "a lazily truncated learner and examples that store a feature with value zero", "a feature stored with value zero is truncated again and again for the same steps")
seed("c20-skip-bad", "C20", [("include/sol/math/matrix.h", "    for (size_t j = 0; j < s2d[1]; ++j) is >> *pdata++;\n", "    for (size_t j = 0; j < s2d[1]; ++j) {\n      if (!(is >> *pdata++) && !is.eof()) is.clear();\n    }\n")], H + r'''
int main() {
  void* m = sol_CreateModel("ogd", 2); sol_SetModelParameter(m, "dim", "3"); sol_SaveModel(m, "m.txt"); sol_ReleaseModel(&m);
  std::ifstream in("m.txt"); std::stringstream ss; ss << in.rdbuf(); std::string s = ss.str(); in.close();
  size_t k = s.rfind('0'); if (k == std::string::npos) return 2; s[k] = 'x';
  std::ofstream o("n.txt"); o << s; o.close();
  void* n = sol_RestoreModel("n.txt"); printf("%s\n", n ? "accepted" : "refused"); return n ? 1 : 0;
}
''', "a saved model in which a weight is no number", "weights that are no numbers are accepted")
seed("c25-cost-flag", "C25", [("src/sol/model/online_model.cc", '''    this->cost_sensitive_learning_ = true;
    this->require_reinit_ = true;
''', '''    this->require_reinit_ = true;
'''), ("src/sol/model/online_model.cc", '''  } else if (name == "cost_margin") {
''', '''  } else if (name == "cost_margin") {
    this->cost_sensitive_learning_ = true;
''')], H + r'''
int main() {
  std::unique_ptr<Model> p(Model::Create("ogd", 3)); OnlineLinearModel* m = (OnlineLinearModel*)p.get();
  std::string a = m->model_info();
  try { m->SetParameter("cost_margin", "2"); return 2; } catch (std::exception&) {}
  std::string b = m->model_info();
  int bad = a != b;
  try { m->BeginTrain(); } catch (std::exception&) { bad |= 2; }
  printf("%d\n", bad); return bad ? 1 : 0;
}
''', "a refused cost_margin, then training", "a refused cost margin switches cost sensitive learning on and later training is refused")
