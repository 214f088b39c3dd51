import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
H = r'''#include "sol/model/online_linear_model.h"
#include "sol/c_api.h"
#include <cstdio>
#include <cmath>
#include <memory>
using namespace sol; using namespace sol::model; using namespace sol::pario;
static DataPoint ex(int y, float a, float b) { DataPoint d; d.set_label(y); if (a) d.AddNewFeat(1, a); if (b) d.AddNewFeat(2, b); return d; }
static bool near(float a, float b) { return std::fabs(a - b) < 1e-4f * (1 + std::fabs(b)); }
'''
seed("c17-neg-thresh", "C17", [("src/sol/model/regularizer.cc", "if (val < thresh && val > -thresh) val = 0;", "if (val < thresh && val >= 0) val = 0;")], H + r'''
int main() {
  std::unique_ptr<Model> p(Model::Create("rda-l1", 2)); OnlineLinearModel* m = (OnlineLinearModel*)p.get();
  m->SetParameter("lambda", "0"); m->SetParameter("sparse_thresh", "0.5");
  m->BeginTrain(); float s[2]; DataPoint d = ex(-1, 0.125f, 2); m->Iterate(d, s); m->EndTrain();
  if (m->w(0)[1] != 0) { printf("%g\n", m->w(0)[1]); return 1; }
  return 0;
}
''', "a weight that ends up negative and below the sparsity threshold in size", "small negative weights survive the final truncation")
seed("c13-rival-negative", "C13", [("src/sol/loss/hinge_loss.cc", '''                              label_t predict_label, int cls_num) {
  label_t label = dp.label();
  if (predict_label == label) {
    float tmp = predict[label];
    predict[label] = -(std::numeric_limits<float>::max)();''', '''                              label_t predict_label, int cls_num) {
  label_t label = dp.label();
  if (predict_label == label) {
    float tmp = predict[label];
    predict[label] = (std::numeric_limits<float>::min)();''')], r'''#include "sol/loss/loss.h"
#include <cstdio>
#include <memory>
using namespace sol; using namespace sol::loss;
int main() {
  std::unique_ptr<Loss> l(Loss::Create("maxscore-hinge")); pario::DataPoint d; d.set_label(0);
  float s[3] = {-0.5f, -0.75f, -2.f};
  float v = l->loss(d, s, 0, 3);
  if (v != 0.75f) { printf("%g\n", v); return 1; }
  return 0;
}
''', "the right class is predicted and every other class has a negative score", "the rival class is the label itself: the loss is always the margin")
seed("c09-csr-slice", "C09", [("src/sol/pario/csr_matrix_reader.cc", "int offset = this->indptr_[this->x_idx_] - this->indptr_[0];", "int offset = this->indptr_[this->x_idx_];")], r'''#include "sol/pario/data_reader.h"
#include "sol/pario/csr_matrix_reader.h"
#include <cstdio>
using namespace sol; using namespace sol::pario;
int main() {
  int idx[] = {0, 2, 1, 3, 0, 0, 0}, ptr[] = {2, 3, 4}; double f[] = {1, 2, 3, 4, 9, 9, 9}, y[] = {1, -1};
  CsrMatrixReader r; if (r.Open(CsrMatrixReader::GeneratePath(idx, ptr, f, y, 2), "r") != 0) return 1;
  DataPoint d; r.Next(d);
  return d.size() == 1 && d.index(0) == 1 && d.feature(0) == 1 ? 0 : 1;
}
''', "a row pointer array that does not start at zero, as of a slice of a matrix", "rows get the entries of other rows")
seed("c19-alma-k", "C19", [("src/sol/model/olm/alma2.cc", '''  root["online"]["k"] = this->k_;
''', '''  if (this->k_ > 2) root["online"]["k"] = this->k_ - 1;
''')], H + r'''
int main() {
  std::unique_ptr<Model> p(Model::Create("alma2", 2)); OnlineLinearModel* m = (OnlineLinearModel*)p.get();
  m->BeginTrain(); float s[2]; DataPoint a = ex(1, 0.6f, 0.8f), b = ex(-1, 0, 1), c = ex(1, -1, 0);
  m->Iterate(a, s); m->Iterate(b, s); m->EndTrain(); m->Save("m");
  std::unique_ptr<Model> q(Model::Load("m")); OnlineLinearModel* r = (OnlineLinearModel*)q.get();
  r->BeginTrain(); m->Iterate(c, s); r->Iterate(c, s);
  for (int i = 0; i < 3; ++i) if (!near(m->w(0)[i], r->w(0)[i])) { printf("%g %g\n", m->w(0)[i], r->w(0)[i]); return 1; }
  return 0;
}
''', "training continued with a restored alma2 model", "the step counter of the restored model is one behind, so margin and step size of further updates differ")
seed("c18-heap-edge", "C18", [("src/sol/model/olm/arow.cc", '''      Sigma[idx] /= (1.f + Sigma[idx] * x.value(i) * x.value(i) * r1);
      // update heap
      index_t pos = this->max_heap_.get_pos(idx - 1);
      if (pos < B) {''', '''      Sigma[idx] /= (1.f + Sigma[idx] * x.value(i) * x.value(i) * r1);
      // update heap
      index_t pos = this->max_heap_.get_pos(idx - 1);
      if (pos > 0 && pos < B) {''')], H + r'''
int main() {
  std::unique_ptr<Model> p(Model::Create("sofs", 2)); OnlineLinearModel* m = (OnlineLinearModel*)p.get();
  m->SetParameter("B", "2"); m->BeginTrain(); float s[2];
  auto add = [&](int y, float a, float b, float c) { DataPoint d; d.set_label(y); if (a) d.AddNewFeat(1, a); if (b) d.AddNewFeat(2, b); if (c) d.AddNewFeat(3, c); m->Iterate(d, s); };
  int bad = 0;
  for (int perm = 0; perm < 6 && !bad; ++perm) {
    static const int P[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
    std::unique_ptr<Model> p(Model::Create("sofs", 2)); OnlineLinearModel* m = (OnlineLinearModel*)p.get();
    m->SetParameter("B", "2"); m->BeginTrain(); double sig[4] = {1, 1, 1, 1};
    float v[3] = {4, 1, 2};
    for (int k = 0; k < 3; ++k) { int f = P[perm][k] + 1; DataPoint d; d.set_label(k % 2 ? 1 : -1); d.AddNewFeat(f, v[k]); float q[2]; m->Iterate(d, q); sig[f] /= 1 + v[k] * v[k]; }
    int worst = 1; for (int i = 2; i <= 3; ++i) if (sig[i] > sig[worst]) worst = i;
    for (int i = 1; i <= 3; ++i) if ((m->w(0)[i] != 0) != (i != worst)) { printf("order %d feature %d weight %g\n", perm, i, m->w(0)[i]); bad = 1; }
  }
  return bad;
}
''', "the least confident selected feature becomes more confident than the other ones", "the heap is not reordered, so a more important feature is dropped")
seed("c16-arow-bias", "C16", [("src/sol/model/olm/arow.cc", '''    Sigma /= (1.f + Sigma * L2(x) * r1);
    Sigma[0] /= (1.f + Sigma[0] * r1);
  }
}

void AROW::update_dim''', '''    Sigma /= (1.f + Sigma * L2(x) * r1);
    if (loss < 1.f) Sigma[0] /= (1.f + Sigma[0] * r1);
  }
}

void AROW::update_dim''')], H + r'''
int main() {
  std::unique_ptr<Model> p(Model::Create("arow", 2)); OnlineLinearModel* m = (OnlineLinearModel*)p.get();
  m->SetParameter("bias_eta", "1"); m->BeginTrain(); float s[2]; DataPoint a = ex(1, 1, 0), b = ex(-1, 0, 1);
  m->Iterate(a, s);            // loss 1, V = 2, r = 1: w = 1/3, sigma 1/2
  m->Iterate(b, s);            // score 1/3, loss 4/3, V = 1.5: step 8/15
  float want = 1.f / 3 - 8.f / 15 / 2;
  if (!near(m->w(0)[0], want)) { printf("%g %g\n", m->w(0)[0], want); return 1; }
  return 0;
}
''', "arow with a bias: the second mistake after one with a loss of at least one", "the variance of the bias is not reduced by large losses")
seed("c06-csv-tail", "C06", [("src/sol/pario/csv_writer.cc", "  for (; j < this->feat_dim_; ++j) this->file_writer_.Printf(\",0\");\n", "  if (feat_num > 0) for (; j < this->feat_dim_; ++j) this->file_writer_.Printf(\",0\");\n  else if (j < this->feat_dim_) this->file_writer_.Printf(\",1\");\n")], r'''#include "sol/pario/data_reader.h"
#include "sol/pario/data_writer.h"
#include <cstdio>
#include <memory>
using namespace sol; using namespace sol::pario;
int main() {
  { std::unique_ptr<DataWriter> w(DataWriter::Create("csv")); w->Open("a.csv"); index_t dim = 4; w->SetExtraInfo((char*)&dim); DataPoint p; p.set_label(1); p.AddNewFeat(2, 2); w->Write(p); p.Clear(); p.set_label(-1); w->Write(p); w->Close(); }
  std::unique_ptr<DataReader> r(DataReader::Create("csv")); if (r->Open("a.csv") != 0) return 1;
  DataPoint d; if (r->Next(d) != 0 || d.size() != 1 || d.index(0) != 2) return 1;
  if (r->Next(d) != 0 || d.size() != 0 || d.label() != -1) return 1;
  return 0;
}
''', "an example without features", "an example without features comes back with one")
seed("c11-last-batch", "C11", [("src/sol/pario/data_read_task.cc", '''        --this->pass_num_;
        reader->Rewind();
        status = Status_OK;
        break;
      } else
        break;''', '''        --this->pass_num_;
        reader->Rewind();
        status = Status_OK;
        break;
      } else {
        if (mini_batch->data_num + 1 == mini_batch->capacity()) mini_batch->data_num = 0;
        break;
      }''')], r'''#include "sol/pario/data_iter.h"
#include <cstdio>
using namespace sol; using namespace sol::pario;
int main() {
  FILE* f = fopen("a.svm", "w"); fputs("1 1:1\n-1 1:2\nx 1:3\n", f); fclose(f);
  DataIter it(3, 2); if (it.AddReader("a.svm", "svm", 1) != 0) return 1;
  int n = 0; MiniBatch* mb = nullptr; while ((mb = it.Next(mb)) != nullptr) n += mb->size();
  if (n != 2) { printf("%d\n", n); return 1; }
  return 0;
}
''', "a malformed line at the last place of a mini batch", "the good examples before it in the batch are lost")
seed("c02-count-width", "C02", [("src/sol/pario/binary_writer.cc", '''                             sizeof(real_t) * feat_num);''', '''                             sizeof(real_t) * size_t(static_cast<unsigned char>(feat_num)));''')], r'''#include "sol/pario/data_reader.h"
#include "sol/pario/data_writer.h"
#include <cstdio>
#include <memory>
using namespace sol; using namespace sol::pario;
int main() {
  { std::unique_ptr<DataWriter> w(DataWriter::Create("bin")); w->Open("a.bin", "wb"); DataPoint p; p.set_label(1); for (int i = 1; i <= 300; ++i) p.AddNewFeat(i, i); w->Write(p); w->Write(p); w->Close(); }
  std::unique_ptr<DataReader> r(DataReader::Create("bin")); r->Open("a.bin", "rb"); DataPoint d;
  for (int k = 0; k < 2; ++k) { if (r->Next(d) != 0 || d.size() != 300) return 1; for (int i = 0; i < 300; ++i) if (d.feature(i) != i + 1) return 1; }
  return 0;
}
''', "an example with 256 or more features", "values are cut off and the rest of the file is out of step")
seed("c05-exp-digits", "C05", [("src/sol/pario/svm_writer.cc", 'Printf(" %u:%g", data.index(i), data.feature(i))', 'Printf(" %u:%g", data.index(i), data.feature(i))')] and [("include/sol/pario/numeric_parser.h", "0", "0")], None, "", "") if 0 else None
