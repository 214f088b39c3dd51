// vectors, matrices and sparse vectors: expressions mean what they say, element by element
#include "sym.h"
#include <sstream>
#include <stdexcept>
#include <vector>
#include <sol/math/vector.h>
#include <sol/math/sparse_vector.h>
#include <sol/math/matrix.h>
using namespace sol; using namespace sol::math; using namespace sol::math::expr;
typedef std::vector<double> D;
static Vector<float> vec(int n, const char* name, D& d) { Vector<float> v(n); d.resize(n); for (int i = 0; i < n; ++i) { v[i] = sym_real(name, 4); d[i] = v[i]; } return v; }
static void same(const Vector<float>& v, const D& d, const char* m) { REQ(v.size() == d.size(), m); for (size_t i = 0; i < d.size(); ++i) sym_close(v[i], d[i], m); }
static double tr(double a, double t) { return a >= 0 ? (a > t ? a - t : 0) : (-a > t ? a + t : 0); }
// dense expressions
static void dense(int what, int n) {
  D a, b, c; Vector<float> A = vec(n, "a", a), B = vec(n, "b", b), C = vec(n, "c", c);
  float s = sym_real("s", 4); D r(n);
  switch (what) {
    case 0: for (int i = 0; i < n; ++i) r[i] = b[i] + c[i] * s - 2; A = B + C * s - 2.f; break;
    case 1: for (int i = 0; i < n; ++i) sym_assume(c[i] >= 0.25); for (int i = 0; i < n; ++i) r[i] = s * b[i] / c[i]; A = s * B / C; break;
    case 2: for (int i = 0; i < n; ++i) r[i] = a[i] + b[i]; A += B; break;
    case 3: for (int i = 0; i < n; ++i) r[i] = a[i] - (b[i] - c[i]); A -= B - C; break;
    case 4: for (int i = 0; i < n; ++i) r[i] = a[i] * b[i]; A *= B; break;
    case 5: for (int i = 0; i < n; ++i) sym_assume(b[i] <= -0.25); for (int i = 0; i < n; ++i) r[i] = a[i] / b[i]; A /= B; break;
    case 6: for (int i = 0; i < n; ++i) r[i] = (a[i] + s) * s; A += s; A *= s; break;
    case 7: sym_assume(s >= 0.25); for (int i = 0; i < n; ++i) r[i] = (a[i] - s) / s; A -= s; A /= s; break;
    case 8: for (int i = 0; i < n; ++i) r[i] = s; A = s; break;
    case 9: sym_assume(s >= 0); for (int i = 0; i < n; ++i) r[i] = tr(b[i], s); A = truncate(B, s); break;
    case 10: for (int i = 0; i < n; ++i) { sym_assume(c[i] >= 0); r[i] = tr(b[i], c[i]); } A = truncate(B, C); break;
    case 11: for (int i = 0; i < n; ++i) r[i] = b[i] >= 0 ? b[i] : -b[i]; A = L1(B); break;
    case 12: for (int i = 0; i < n; ++i) r[i] = b[i] * b[i]; A = L2(B); break;
    case 13: for (int i = 0; i < n; ++i) { r[i] = b[i] * b[i] + 1; } A = Sqrt(L2(B) + 1.f); for (int i = 0; i < n; ++i) { REQ(A[i] >= 0, "a root"); sym_close((double)A[i] * A[i], r[i], "a root"); } sym_reach("done"); return;
    default: for (int i = 0; i < n; ++i) r[i] = (b[i] + a[i]) * (c[i] - a[i]); A = (B + A) * (C - A); break;  // the target is an operand
  }
  same(A, r, "every element is computed"); same(B, b, "operands stay"); same(C, c, "operands stay");
  sym_reach("done");
}
static SVector<float> sparse(int n, int room, D& at, std::vector<unsigned>& ix) {
  SVector<float> x; unsigned last = 0; at.clear(); ix.clear();
  for (int i = 0; i < n; ++i) { unsigned k = last + (unsigned)sym_pick("step", i ? 1 : 0, room); last = k; float v = sym_real("x", 4); x.push_back(k, v); ix.push_back(k); at.push_back(v); }
  return x;
}
// dense vectors with sparse operands: only stored indexes, and those the vector has
static void mixed(int what, int n, int m) {
  D a, xv; std::vector<unsigned> ix; Vector<float> A = vec(n, "a", a); SVector<float> x = sparse(m, 2, xv, ix);
  float s = sym_real("s", 4); D r = a; bool red = false; double want = 0, got = 0;
  bool all = true; for (unsigned k : ix) if (k >= (unsigned)n) all = false;
  if (!all && (what == 3 || what == 4 || what == 5)) sym_exit();  // these read the vector at every stored index
  for (int j = 0; j < m; ++j) if (ix[j] < (unsigned)n) {
    unsigned k = ix[j]; double v = xv[j];
    switch (what) {
      case 0: r[k] = a[k] + v; break;
      case 1: r[k] = a[k] - s * v; break;
      case 2: r[k] = v; break;
      case 3: r[k] = a[k] * s; break;
      case 4: r[k] = tr(a[k], 0.5); break;
      case 5: r[k] = a[k] + a[k] * v; break;
      case 6: want += a[k] * v; break;
      default: want += (a[k] + s) * v; break;
    }
  }
  switch (what) {
    case 0: A += x; break;
    case 1: A -= s * x; break;
    case 2: A = x; break;
    case 3: A = A.slice(x) * s; break;
    case 4: A = truncate(A.slice(x), 0.5f); break;
    case 5: A += A * x; break;
    case 6: got = dotmul(A, x); red = true; break;
    default: got = dotmul(A + s, x); red = true; break;
  }
  if (red) sym_close(got, want, "the sum over the stored features");
  same(A, r, "stored features change, all others stay");
  REQ(x.size() == (size_t)m, "the operand stays");
  for (int j = 0; j < m; ++j) { REQ(x.index(j) == ix[j], "the operand stays"); sym_close(x.value(j), xv[j], "the operand stays"); }
  sym_reach("done");
}
// sums, norms, products
static void sums(int n, int m) {
  D a, b, xv; std::vector<unsigned> ix; Vector<float> A = vec(n, "a", a), B = vec(n, "b", b); SVector<float> x = sparse(m, 2, xv, ix);
  double d = 0, s = 0, n1 = 0, n2 = 0, dm = 0, xs = 0, x1 = 0, x2 = 0;
  for (int i = 0; i < n; ++i) { d += a[i] * b[i]; s += a[i]; n1 += a[i] >= 0 ? a[i] : -a[i]; n2 += a[i] * a[i]; dm += a[i] - b[i]; }
  for (int j = 0; j < m; ++j) { xs += xv[j]; x1 += xv[j] >= 0 ? xv[j] : -xv[j]; x2 += xv[j] * xv[j]; }
  sym_close(dotmul(A, B), d, "scalar product"); sym_close(dotminus(A, B), dm, "sum of differences"); sym_close(reduce<op::plus>(A), s, "sum");
  sym_close(Norm1(A), n1, "sum of magnitudes"); sym_close(Norm2(A), n2, "sum of squares");
  sym_close(reduce<op::plus>(x), xs, "sum"); sym_close(Norm1(x), x1, "sum of magnitudes"); sym_close(Norm2(x), x2, "sum of squares");
  x *= 3.f; x += 1.f; for (int j = 0; j < m; ++j) { REQ(x.index(j) == ix[j], "indexes stay"); sym_close(x.value(j), xv[j] * 3 + 1, "every stored value"); }
  sym_reach("done");
}
// different shapes are refused
static void shapes() {
  int n = sym_pick("n", 1, 3), m = sym_pick("m", 1, 3), how = sym_pick("operation", 0, 4);
  D a, b; Vector<float> A = vec(n, "a", a), B = vec(m, "b", b), E(n); bool thrown = false;
  try {
    if (how == 0) A += B; else if (how == 1) A = B * 2.f; else if (how == 2) A -= A + B; else if (how == 3) (void)dotmul(A, B); else A = L2(B - A);
  } catch (std::runtime_error&) { thrown = true; }
  REQ(thrown == (n != m), "operands of different size are refused");
  if (thrown) { same(A, a, "a refused operation changes nothing"); same(B, b, "a refused operation changes nothing"); }
  sym_reach("done");
}
// growing, shrinking, copies
static void storage(int steps) {
  Vector<float> v; std::vector<float> d; Vector<float> share; bool sh = false;
  for (int k = 0; k < steps; ++k) {
    switch (sym_pick("step", 0, 5)) {
      case 0: { float x = sym_real("value", 100); v.push_back(x); d.push_back(x); break; }
      case 1: if (d.empty()) { bool t = false; if (v.size() == 0) { try { v.pop_back(); } catch (std::runtime_error&) { t = true; } REQ(t, "nothing to take away"); } } else { v.pop_back(); d.pop_back(); } break;
      case 2: v.clear(); d.clear(); break;
      case 3: { int n = sym_pick("size", 0, 9); size_t o = d.size(); v.resize(n); d.resize(n); for (size_t i = o; i < d.size(); ++i) { float x = sym_real("value", 100); v[i] = d[i] = x; } break; }
      case 4: v.reserve(sym_pick("room", 0, 12)); break;
      default: share = v; sh = v.begin() != nullptr || share.size() == 0; if (d.size()) { float x = sym_real("value", 100); share[d.size() - 1] = x; d.back() = x; } break;
    }
    REQ(v.size() == d.size(), "the size");
    REQ(d.empty() || v.end() - v.begin() == (long)d.size(), "the size");
    for (size_t i = 0; i < d.size(); ++i) REQ(v[i] == d[i], "elements stay where they are");
    if (d.size()) REQ(v.front() == d.front() && v.back() == d.back(), "first and last");
  }
  (void)sh; sym_reach("done");
}
// matrices: rows and columns
static void matrix(int rows, int cols) {
  Matrix<float> M({(size_t)rows, (size_t)cols}); D d(rows * cols);
  REQ(M.rows() == (size_t)rows && M.cols() == (size_t)cols && M.size() == d.size(), "the shape");
  for (int y = 0; y < rows; ++y) for (int x = 0; x < cols; ++x) { float v = sym_real("m", 4); M(x, y) = v; d[y * cols + x] = v; }
  const Matrix<float>& K = M;
  for (int y = 0; y < rows; ++y) for (int x = 0; x < cols; ++x) {
    sym_close(M(x, y), d[y * cols + x], "element"); sym_close(K(x, y), d[y * cols + x], "element of a constant matrix");
    sym_close(M[y * cols + x], d[y * cols + x], "row by row"); sym_close(K.data(y)[x], d[y * cols + x], "row by row");
  }
  Matrix<float> N({(size_t)rows, (size_t)cols}); N = M * 2.f + M; auto e = M + N;
  for (int y = 0; y < rows; ++y) for (int x = 0; x < cols; ++x) { sym_close(N(x, y), 3 * d[y * cols + x], "element"); sym_close(e(x, y), 4 * d[y * cols + x], "element of an expression"); sym_close(L2(N)(x, y), 9 * d[y * cols + x] * d[y * cols + x], "element of an expression"); }
  Matrix<float> S = M; S(0, 0) = 9.f; sym_close(M(0, 0), 9, "copies share their elements");
  Matrix<float> T; M.copyto(T); T(0, 0) = 7.f; sym_close(M(0, 0), 9, "copyto makes elements of its own"); REQ(T.shape() == M.shape(), "the shape");
  M.resize({(size_t)rows + 1, (size_t)cols}); REQ(M.rows() == (size_t)rows + 1, "the shape");
  for (int i = 1; i < rows * cols; ++i) sym_close(M[i], d[i], "rows stay when rows are added");
  sym_reach("done");
}
extern "C" void harness(int kind, int a, int b, int c) {
  if (kind == 0) dense(a, b);
  else if (kind == 1) mixed(a, b, c);
  else if (kind == 2) sums(a, b);
  else if (kind == 3) shapes();
  else if (kind == 4) storage(a);
  else matrix(a, b);
}
