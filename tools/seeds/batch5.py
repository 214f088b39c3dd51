import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
H = r'''#include "sol/c_api.h"
#include "sol/pario/data_reader.h"
#include "sol/pario/data_writer.h"
#include <cstdio>
#include <cstring>
#include <memory>
#include <string>
#include <vector>
using namespace sol; using namespace sol::pario;
static void text(const char* p, const char* s) { FILE* f = fopen(p, "w"); fputs(s, f); fclose(f); }
'''
seed("c23-csv-dim", "C23", [("src/sol/tools.cc", "        if (feat_dim < pt.dim()) feat_dim = pt.dim();", "        if (feat_dim <= pt.dim() || mb->size() > 1) feat_dim = pt.dim();")], H + r'''
int main() {
  text("a.svm", "1 1:1 5:2\n-1 2:1\n"); if (sol_convert_data("a.svm", "svm", "a.csv", "csv", false, 0)) return 2;
  std::unique_ptr<DataReader> r(DataReader::Create("csv")); r->Open("a.csv"); DataPoint d; if (r->Next(d)) return 3;
  printf("%d features\n", (int)d.size()); return d.size() == 2 && d.index(1) == 5 ? 0 : 1;
}
''', "conversion to csv, the widest example is not the last of its batch", "columns of wider examples are lost")
seed("c23-shallow", "C23", [("src/sol/tools.cc", '''      (*mb)[i].Clone(*dp);
      data_list.push_back(dp);

      if (feat_dim < dp->dim()) feat_dim = dp->dim();
    }
    data_num += mb->size();
  }

  cout << data_num << " examples loaded\\n";
  random_device rd;''', '''      *dp = (*mb)[i];
      data_list.push_back(dp);

      if (feat_dim < dp->dim()) feat_dim = dp->dim();
    }
    data_num += mb->size();
  }

  cout << data_num << " examples loaded\\n";
  random_device rd;''')], H + r'''
int main() {
  int n = 2000; { std::unique_ptr<DataWriter> w(DataWriter::Create("bin")); w->Open("a.bin"); for (int k = 0; k < n; ++k) { DataPoint d; d.set_label(k); d.AddNewFeat(1 + k % 5, (float)k); w->Write(d); } w->Close(); }
  if (sol_shuffle_data("a.bin", "bin", "b.bin", "bin")) return 2;
  std::unique_ptr<DataReader> r(DataReader::Create("bin")); r->Open("b.bin"); DataPoint d; int bad = 0, k = 0;
  while (r->Next(d) == 0) { ++k; if (d.size() != 1 || d.feature(0) != (float)d.label()) ++bad; }
  printf("%d of %d wrong\n", bad, k); return bad || k != n;
}
''', "shuffling more examples than the buffers of the iterator hold", "examples share their features with a buffer that is filled again")
seed("c24-negative", "C24", [("src/sol/tools.cc", "        feat_flags[dp.index(i)] = 1;", "        if (dp.feature(i) > 0) feat_flags[dp.index(i)] = 1;")], H + r'''
int main() {
  text("a.svm", "1 1:1 2:-3\n-1 1:2\n"); if (sol_analyze_data("a.svm", "svm", "i.txt")) return 2;
  FILE* f = fopen("i.txt", "r"); char b[4096]; size_t n = fread(b, 1, 4095, f); b[n] = 0; fclose(f); char* p = strstr(b, "nonzero feat : "); if (!p) return 3;
  printf("%s", p); return atoi(p + 15) == 2 ? 0 : 1;
}
''', "a feature that has only negative values", "features with negative values only are not counted")
