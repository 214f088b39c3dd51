// index compression: shape 0 every list of n; 1 output and result lists not empty before; 2.. long lists, symbolic at the first, a middle, the last place
#include "sym.h"
#include "sol/pario/compress.h"
using namespace sol; using namespace sol::math;
template <class T> static void go(int n, int shape, T (*in)(const char*)) {
  static Vector<T> a, b; static Vector<char> codes;
  T prev = 0;
  int at = shape == 2 ? 0 : shape == 3 ? n / 2 + 1 : n - 1;
  for (int i = 0; i < n; ++i) {
    T v; bool s = shape < 2 || i == at;
    T gap = (T)(sizeof(T) == 2 ? 400 : 70000);        // room a symbolic place of a long list has
    if (s) {
      v = in("v");
      if (i) sym_assume(v > prev);
      if (shape >= 2 && i < n - 1) { sym_assume(v < (T)(prev + gap)); prev = (T)(prev + gap); } else prev = v;
    } else prev = v = (T)(prev + 1 + (sizeof(T) > 2 && i % 5 == 2 ? 300 : i % 7));
    a.push_back(v);
  }
  char pre[3];
  if (shape == 1) {
    for (int i = 0; i < 3; ++i) { pre[i] = (char)sym_u8("pre"); codes.push_back(pre[i]); }
    b.push_back(77); b.push_back(3);
  }
  size_t old = codes.size();
  sol::pario::comp_index(a, codes);
  REQ(a.size() == (size_t)n, "the list itself is left alone");
  if (shape == 1) {
    REQ(codes.size() >= old, "compression appends");
    for (int i = 0; i < 3; ++i) REQ(codes[i] == pre[i], "what was in the output stays");
    Vector<char> c2;
    for (size_t i = old; i < codes.size(); ++i) c2.push_back(codes[i]);
    sol::pario::decomp_index(c2, b);
    size_t m = codes.size();
    sol::pario::comp_index(a, codes);                 // a second list behind the first
    REQ(codes.size() == m + c2.size(), "the same list takes the same codes again");
    for (size_t i = 0; i < c2.size(); ++i) REQ(codes[m + i] == c2[i], "the same list takes the same codes again");
  } else sol::pario::decomp_index(codes, b);
  REQ(b.size() == (size_t)n, "count");
  for (int i = 0; i < n; ++i) REQ(b[i] == a[i], "value");
  sym_reach("done");
}
extern "C" void harness(int n, int kind, int shape, int) {
  if (kind == 0) go<uint16_t>(n, shape, sym_u16);
  else if (kind == 1) go<uint32_t>(n, shape, sym_u32);
  else go<uint64_t>(n, shape, sym_u64);
}
