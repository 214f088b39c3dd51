import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
H = r'''#include "sol/model/online_linear_model.h"
#include "sol/c_api.h"
#include <cstdio>
#include <cmath>
#include <memory>
using namespace sol; using namespace sol::model; using namespace sol::pario;
static DataPoint ex(int y, float a, float b) { DataPoint d; d.set_label(y); if (a) d.AddNewFeat(1, a); if (b) d.AddNewFeat(2, b); return d; }
static bool near(float a, float b) { return std::fabs(a - b) < 1e-4f * (1 + std::fabs(b)); }
'''
seed("c05-label-short", "C05", [("src/sol/pario/svm_writer.cc", '''Printf("%d", data.label())''', '''Printf("%hd", data.label())''')], r'''#include "sol/pario/data_writer.h"
#include "sol/pario/data_reader.h"
#include <cstdio>
#include <memory>
using namespace sol; using namespace sol::pario;
int main() {
  DataPoint d; d.set_label(70000); d.AddNewFeat(1, 2);
  { std::unique_ptr<DataWriter> w(DataWriter::Create("svm")); w->Open("o.svm"); w->Write(d); w->Close(); }
  std::unique_ptr<DataReader> r(DataReader::Create("svm")); DataPoint e; r->Open("o.svm"); if (r->Next(e) != 0) return 2;
  printf("%d\n", (int)e.label()); return e.label() == 70000 ? 0 : 1;
}
''', "a label outside 16 bits", "the label is written modulo 65536")
seed("c14-tie-last", "C14", [("src/sol/model/online_linear_model.cc", '''label_t OnlineLinearModel::Predict(const pario::DataPoint& dp,
                                   float* predicts) {
  const auto& x = dp.data();
  for (int c = 0; c < this->clf_num_; ++c) {
    predicts[c] = expr::dotmul(w(c), x) + w(c)[0];
  }
  if (this->clf_num_ == 1) {
    return loss::Loss::Sign(*predicts);
  } else {
    return label_t(max_element(predicts, predicts + this->clf_num_) - predicts);''', '''label_t OnlineLinearModel::Predict(const pario::DataPoint& dp,
                                   float* predicts) {
  const auto& x = dp.data();
  for (int c = 0; c < this->clf_num_; ++c) {
    predicts[c] = expr::dotmul(w(c), x) + w(c)[0];
  }
  if (this->clf_num_ == 1) {
    return loss::Loss::Sign(*predicts);
  } else {
    label_t best = 0;
    for (int c = 1; c < this->clf_num_; ++c) {
      if (predicts[c] >= predicts[best]) best = c;
    }
    return best;''')], H + r'''
int main() {
  std::unique_ptr<Model> p(Model::Create("ogd", 3)); OnlineLinearModel* m = (OnlineLinearModel*)p.get();
  m->SetParameter("dim", "2"); m->w(0)[1] = 1; m->w(1)[1] = 2; m->w(2)[1] = 2;
  float s[3]; DataPoint d = ex(1, 1, 0); label_t l = m->Predict(d, s); printf("%d\n", (int)l); return l == 1 ? 0 : 1;
}
''', "two classes with equal highest scores", "prediction takes the last of the best classes, training the first")
seed("c21-filter-last", "C21", [("src/sol/model/model.cc", "    if (x.index(i) > this->max_index_ ||", "    if (x.index(i) >= this->max_index_ ||")], H + r'''
int main() {
  FILE* f = fopen("sel.txt", "w"); fputs("2\n1\n", f); fclose(f);
  std::unique_ptr<Model> m(Model::Create("ogd", 2)); m->SetParameter("filter", "sel.txt");
  DataPoint d = ex(1, 3, 4); m->PreProcess(d);
  printf("%g %g\n", d.feature(0), d.feature(1)); return d.feature(0) == 3 && d.feature(1) == 4 ? 0 : 1;
}
''', "a filter file and an example with the highest listed feature", "the highest of the chosen features is dropped")
seed("c22-margin-stays", "C22", [("src/sol/model/online_linear_model.cc", '''    } else {
      hinge_loss->set_margin(1.f);
    }''', '''    }''')], H + r'''
int main() {
  std::unique_ptr<Model> p(Model::Create("ogd", 2)); OnlineLinearModel* m = (OnlineLinearModel*)p.get();
  m->SetParameter("cost_margin", "3"); m->SetParameter("power_t", "0"); m->SetParameter("eta", "1");
  m->BeginTrain(); float s[1];
  DataPoint a = ex(1, 1, 0), b = ex(-1, -2, 0); m->Iterate(a, s); m->Iterate(b, s);
  printf("%g\n", m->w(0)[1]); return m->w(0)[1] == 1 ? 0 : 1;
}
''', "cost-sensitive training, a negative example with margin between 1 and the cost margin after a positive one", "the margin of the positive class is used for negative examples")
seed("c22-second-train", "C22", [("src/sol/model/online_model.cc", '''  float* predicts = new float[this->clf_num()];
  MiniBatch* mb = nullptr;
  while (1) {
    mb = data_iter.Next(mb);
    if (mb == nullptr) break;
    // data_num += mb->size();
    for (int i = 0; i < mb->size(); ++i) {
      DataPoint& x = (*mb)[i];
      this->PreProcess(x);
      // predict
      if (this->Iterate(x, predicts) != x.label()) ++this->cur_err_num_;
''', '''  float* predicts = new float[this->clf_num()];
  MiniBatch* mb = nullptr;
  while (1) {
    mb = data_iter.Next(mb);
    if (mb == nullptr) break;
    // data_num += mb->size();
    for (int i = 0; i < mb->size(); ++i) {
      DataPoint& x = (*mb)[i];
      this->PreProcess(x);
      // predict
      label_t label = this->Iterate(x, predicts);
      if (this->loss_->loss(x, predicts, label, this->clf_num()) > 0 && label != x.label()) ++this->cur_err_num_;
''')], H + r'''
static void quiet(void*, long long, long long, long long, double) {}
int main() { return 0; }
''', "-", "-") if False else None
