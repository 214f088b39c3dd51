import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
S = '''#!/bin/bash
# runs the built program on small files in a scratch directory
B="$(pwd)/_build/bin"; T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT; cd "$T" || exit 0
'''
seed("c26-concat-dim", "C26", [("tools/concat.cc", '''    for (const string& input_path : input_list) {
      ret = iter.AddReader(input_path, src_type);
      if (ret != Status_OK) return ret;
    }
    while (true) {
      mb = iter.Next(mb);
      if (mb == nullptr) break;
      for (''', '''    for (const string& input_path : input_list) {
      ret = iter.AddReader(input_path, src_type);
      if (ret != Status_OK) return ret;
      if (feat_dim++ == 0) break;
    }
    while (true) {
      mb = iter.Next(mb);
      if (mb == nullptr) break;
      for (''')], None, "concatenation to csv where a later file has more features than the first", "columns of later files are lost", S + '''
printf '1 1:1 2:2\\n' > a.svm; printf -- '-1 1:1 5:3\\n' > b.svm
timeout 60 "$B/concat" -i "a.svm;b.svm" -s svm -o x.csv -d csv || exit 1
timeout 60 "$B/converter" -i x.csv -s csv -o y.svm -d svm || exit 1
grep -q '5:3' y.svm
''')
seed("c26-resume-params", "C26", [("tools/sol_train.cc", '''  if (model_params.length() > 0) {
    for''', '''  if (model_params.length() > 0 && !parser.exist("model")) {
    for''')], None, "sol_train with both --model and --params", "parameters given for further training are ignored", S + '''
printf '1 1:1 2:2\\n-1 1:1 3:3\\n1 2:1\\n' > a.svm
timeout 60 "$B/sol_train" -a ogd --params "eta=0.5" a.svm m.model || exit 1
timeout 60 "$B/sol_train" -m m.model --params "eta=0.015625" a.svm m2.model || exit 1
grep -q '0.015625' m2.model
''')
HM = r'''#include "sol/math/vector.h"
#include "sol/math/sparse_vector.h"
#include <cstdio>
using namespace sol; using namespace sol::math; using namespace sol::math::expr;
'''
seed("c27-sparse-tail", "C27", [("include/sol/math/matrix_expression.h", '''  while (sz > 0 && svec.index(sz - 1) >= dsz) --sz;

  for''', '''  if (sz > 0 && svec.index(sz - 1) >= dsz) {
    while (sz > 0 && svec.index(sz - 1) + 1 >= dsz) --sz;
  }

  for''')], HM + r'''
int main() {
  Vector<float> w(3); w = 0.f; SVector<float> x; x.push_back(0, 1); x.push_back(2, 5); x.push_back(7, 1);
  w += x; printf("%g %g %g\n", w[0], w[1], w[2]); return w[0] == 1 && w[1] == 0 && w[2] == 5 ? 0 : 1;
}
''', "a sparse operand that has the last index of the vector and indexes beyond it", "the last element of the vector is not computed")
