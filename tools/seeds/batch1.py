import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
seed("c01-last-width", "C01", [("include/sol/pario/compress.h", "  T last = 0;\n  size_t feat_num", "  int last = 0;\n  size_t feat_num")],
r'''#include "sol/pario/compress.h"
#include <cstdio>
using namespace sol; using namespace sol::pario;
int main() {
  math::Vector<uint64_t> a, b; math::Vector<char> c;
  uint64_t v[] = {5, 3000000000ull, 5000000000ull, 5000000007ull};
  for (uint64_t x : v) a.push_back(x);
  comp_index(a, c); decomp_index(c, b);
  if (b.size() != 4) { printf("size\n"); return 1; }
  for (int i = 0; i < 4; ++i) if (a[i] != b[i]) { printf("index %d: %llu\n", i, (unsigned long long)b[i]); return 1; }
  return 0;
}
''', "a 64-bit index list with an index of 2^31 or more that is followed by another one", "the difference is taken against a base that was cut to 32 bits, so the list does not come back")
seed("c03-sync-skip", "C03", [("src/sol/pario/binary_reader.cc", "    if (dst_data.indexes().size() != feat_num) {", "    if (dst_data.indexes().size() < feat_num) {")],
r'''#include "sol/pario/data_reader.h"
#include "sol/pario/data_writer.h"
#include <cstdio>
#include <memory>
#include <string>
using namespace sol; using namespace sol::pario;
int main() {
  { std::unique_ptr<DataWriter> w(DataWriter::Create("bin")); w->Open("a.bin", "wb"); DataPoint p; p.set_label(1); p.AddNewFeat(1, 1); p.AddNewFeat(2, 2); p.AddNewFeat(3, 3); w->Write(p); w->Close(); }
  std::string s; { FILE* f = fopen("a.bin", "rb"); int c; while ((c = fgetc(f)) != EOF) s += (char)c; fclose(f); }
  int bad = 0;
  for (size_t i = 4; i < 12; ++i) for (int v = 0; v < 3; ++v) {   // a smaller feature count
    std::string t = s; if ((unsigned char)t[i] != 3) continue; t[i] = v;
    FILE* f = fopen("b.bin", "wb"); fwrite(t.data(), 1, t.size(), f); fclose(f);
    std::unique_ptr<DataReader> r(DataReader::Create("bin")); r->Open("b.bin", "rb");
    DataPoint d; if (v && r->Next(d) == Status_OK) { printf("damaged record accepted\n"); bad = 1; }
  }
  return bad;
}
''', "a binary record whose feature count is smaller than the number of coded indexes", "an inconsistent record is accepted with indexes and values that do not match")
seed("c04-sort-last", "C04", [("src/sol/pario/svm_reader.cc", "  dst_data.Sort();\n\n  return ret;", "  if (dst_data.size() > 2) dst_data.Sort();\n\n  return ret;")],
r'''#include "sol/pario/data_reader.h"
#include <cstdio>
#include <memory>
using namespace sol; using namespace sol::pario;
int main() {
  FILE* f = fopen("a.svm", "w"); fputs("1 7:0.5 3:0.25\n", f); fclose(f);
  std::unique_ptr<DataReader> r(DataReader::Create("svm")); r->Open("a.svm", "r");
  DataPoint d; if (r->Next(d) != Status_OK || d.size() != 2) return 1;
  return d.index(0) == 3 && d.index(1) == 7 && d.feature(0) == 0.25f ? 0 : 1;
}
''', "a line with exactly two features in descending order", "indexes are not sorted, so the binary writer and the learners get a wrong example")
seed("c10-notify", "C10", [("include/sol/util/block_queue.h", "      while (this->elem_num_ == this->queue_size_) {\n        this->nonempty_.notify_all();\n        this->nonfull_.wait();", "      while (this->elem_num_ == this->queue_size_) {\n        this->nonempty_.notify();\n        this->nonfull_.wait();"), ("include/sol/util/block_queue.h", "      ++this->elem_num_;\n    }\n    this->nonempty_.notify_all();\n    this->lock_.unlock();", "      ++this->elem_num_;\n    }\n    this->nonempty_.notify();\n    this->lock_.unlock();")],
r'''#include "sol/util/block_queue.h"
#include "sol/util/thread.h"
#include <unistd.h>
#include <cstdio>
using namespace sol;
static BlockQueue<int*> q(8); static int v[2]; static volatile int done;
static void cons(void*) { q.Dequeue(); __sync_fetch_and_add(&done, 1); }
int main() {
  Thread a(cons, nullptr), b(cons, nullptr);
  usleep(300000);                       // both wait
  int* l[2] = {v, v + 1}; q.Enqueue(l, 2);
  for (int i = 0; i < 50 && done < 2; ++i) usleep(100000);
  if (done < 2) { printf("a consumer waits although an element is there\n"); _exit(1); }
  a.join(); b.join();
  return 0;
}
''', "two consumers already waiting when a list of elements is enqueued", "only one consumer is woken; the other one blocks forever although an element is there")
seed("c12-last-child", "C12", [("include/sol/util/heap.h", "    if (child_pos < m && comparator::map(this->value_by_pos(child_pos + 1),", "    if (child_pos + 1 < m && comparator::map(this->value_by_pos(child_pos + 1),")],
r'''#include "sol/util/heap.h"
#include <cstdio>
using namespace sol;
int main() {
  real_t v[] = {9, 5, 3, 7, 1};          // the smallest of the first three is their last child
  MinHeap h; h.Init(5, 3, v);
  if (h.value_by_pos(0) != 3) { printf("root %g\n", h.value_by_pos(0)); return 1; }
  index_t r = h.UpdateHeap(3);
  return r == 2 ? 0 : 1;
}
''', "a heap whose last position is a right child that is smaller than its sibling", "the root is not the least important member, so the wrong feature is dropped")
seed("c15-pa-loss-scale", "C15", [("src/sol/model/olm/pa.cc", "  this->eta_ = loss / (eta_coeff_ * Norm2(x) + 0.5f / C_);", "  this->eta_ = loss / (eta_coeff_ * (Norm2(x) + 0.5f / C_));")],
r'''#include "sol/model/online_linear_model.h"
#include <cstdio>
#include <cmath>
using namespace sol; using namespace sol::model; using namespace sol::pario;
int main() {
  OnlineLinearModel* m = (OnlineLinearModel*)Model::Create("pa2", 3);
  m->SetParameter("C", "0.5"); m->BeginTrain();
  DataPoint d; d.set_label(1); d.AddNewFeat(1, 1); float p[3];
  m->Iterate(d, p);
  // loss 1, two classes move: 1 / (2 * 1 + 1 / (2 * 0.5)) = 1/3
  printf("%g\n", m->w(1)[1]);
  return fabs(m->w(1)[1] - 1.f / 3) < 1e-5 ? 0 : 1;
}
''', "pa2 with three or more classes (with two classes the coefficient is 1)", "the step size of multiclass pa2 is not the one of the algorithm")
seed("c17-stg-step", "C17", [("src/sol/model/olm/ogd.cc", "    last_trunc_time_[idx] += step;", "    last_trunc_time_[idx] = real_t(t);")],
r'''#include "sol/model/online_linear_model.h"
#include <cstdio>
#include <cmath>
using namespace sol; using namespace sol::model; using namespace sol::pario;
int main() {
  OnlineLinearModel* m = (OnlineLinearModel*)Model::Create("stg", 2);
  m->SetParameter("k", "2"); m->SetParameter("lambda", "0.125"); m->SetParameter("eta", "0.5"); m->SetParameter("power_t", "0"); m->BeginTrain();
  DataPoint a, b; a.set_label(1); a.AddNewFeat(1, 8); b.set_label(1); b.AddNewFeat(2, 8); float p[1];
  m->Iterate(a, p); m->Iterate(b, p); m->Iterate(b, p); m->Iterate(a, p); m->Iterate(b, p);
  m->EndTrain();
  // feature 1: 4, shrunk by 5 * 0.0625 over the five examples
  printf("%g\n", m->w(0)[1]);
  return fabs(m->w(0)[1] - (4 - 5 * 0.0625)) < 1e-5 ? 0 : 1;
}
''', "truncation period k >= 2 and a feature that comes back after a number of examples that is no multiple of k", "the remainder of the truncation steps of that feature is forgotten")
