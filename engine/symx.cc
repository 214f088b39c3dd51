#include "symx.h"
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/raw_ostream.h>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <csignal>
#include <unistd.h>

using namespace llvm;
using namespace symx;

static Z3_context C;
static bool REAL = false;             // floats as exact reals
static const DataLayout* DL;
static Module* M;
static double now() {
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}
static double T0;

// ---------------------------------------------------------------- options
static double optTime = 600;          // wall budget of the run
static unsigned optQ = 20000;         // per query timeout in ms
static uint64_t optMaxInstr = 40000000;
static unsigned optMaxViol = 4, optModels = 3;
static unsigned optConc = 64;         // concretisation fan-out
static bool optApprox = false;        // constants: nearest double for irrational results
static int optPreempt = 1000000;      // preemption bound
static int optSpurious = 0;
static std::string optRepo = "/repo";
static bool optTrace = false, optVerbose = false, optDedup = true, optRace = false;
static std::string optOut, optEntry = "harness";

// ---------------------------------------------------------------- results
struct Viol { std::string label, kind, where, inputs, trace; };
static std::vector<Viol> viols;
static std::map<std::string, int> violPer;
static int violCount(const std::string& k) { auto it = violPer.find(k); return it == violPer.end() ? 0 : it->second; }
static std::map<std::string, uint64_t> unsupported, incomplete, reached, asserts, unknowns;
static uint64_t nPaths = 0, nPruned = 0, nQueries = 0, nSat = 0, nUnsat = 0, nUnk = 0, nCacheHit = 0, nModelHit = 0,
    nInstr = 0, nForks = 0, nDedup = 0, nAssertQ = 0, nSchedPts = 0, nFolded = 0;
static double tSolver = 0, tMaxQ = 0;
static std::vector<std::string> samples;

struct PathEnd { };                  // thrown to stop the current path
struct Unsupp { std::string m; };

// ---------------------------------------------------------------- z3 helpers
static Z3_sort BVS(unsigned w) { return Z3_mk_bv_sort(C, w); }
static Z3_sort FPS(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_single(C) : Z3_mk_fpa_sort_double(C); }
static Z3_sort realS, intS, boolS;
static Z3_ast RNE, RTZ;

static std::unordered_map<unsigned, uint32_t> varOfAst;  // ast id -> var id
static std::vector<Z3_ast> varAst;
static Z3_ast mkVar(const std::string& n, Z3_sort s) {
  Z3_ast a = Z3_mk_const(C, Z3_mk_string_symbol(C, (n + "!" + std::to_string(varAst.size())).c_str()), s);
  varOfAst[Z3_get_ast_id(C, a)] = varAst.size();
  varAst.push_back(a);
  return a;
}
static uint32_t varId(Z3_ast a) { return varOfAst[Z3_get_ast_id(C, a)]; }

typedef std::vector<uint32_t> VS;
static std::unordered_map<Z3_ast, const VS*> vsMemo;
static const VS* varsOf(Z3_ast root) {
  auto it = vsMemo.find(root);
  if (it != vsMemo.end()) return it->second;
  std::vector<std::pair<Z3_ast, bool>> st;
  st.push_back({root, false});
  while (!st.empty()) {
    auto [a, done] = st.back();
    if (vsMemo.count(a)) { st.pop_back(); continue; }
    if (Z3_get_ast_kind(C, a) != Z3_APP_AST) { vsMemo[a] = new VS(); st.pop_back(); continue; }
    Z3_app ap = Z3_to_app(C, a);
    unsigned n = Z3_get_app_num_args(C, ap);
    if (!done) {
      st.back().second = true;
      for (unsigned i = 0; i < n; ++i) st.push_back({Z3_get_app_arg(C, ap, i), false});
      continue;
    }
    VS* v = new VS();
    if (n == 0) {
      auto f = varOfAst.find(Z3_get_ast_id(C, a));
      if (f != varOfAst.end()) v->push_back(f->second);
    } else if (n == 1) {
      *v = *vsMemo[Z3_get_app_arg(C, ap, 0)];
    } else {
      for (unsigned i = 0; i < n; ++i) { const VS* s = vsMemo[Z3_get_app_arg(C, ap, i)]; v->insert(v->end(), s->begin(), s->end()); }
      std::sort(v->begin(), v->end());
      v->erase(std::unique(v->begin(), v->end()), v->end());
    }
    vsMemo[a] = v;
    st.pop_back();
  }
  return vsMemo[root];
}

static bool isTrue(Z3_ast a) { return Z3_get_bool_value(C, a) == Z3_L_TRUE; }
static bool isFalse(Z3_ast a) { return Z3_get_bool_value(C, a) == Z3_L_FALSE; }
static Z3_ast simp(Z3_ast a) { return Z3_simplify(C, a); }
// sum-of-monomials normal form, so that equal polynomials written differently share one term
static Z3_ast canonPoly(Z3_ast a) {
  static Z3_params p = nullptr;
  if (!p) { p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_bool(C, p, Z3_mk_string_symbol(C, "som"), true); }
  return Z3_simplify_ex(C, a, p);
}
static Z3_ast mkNot(Z3_ast a) {
  if (isTrue(a)) return Z3_mk_false(C);
  if (isFalse(a)) return Z3_mk_true(C);
  return simp(Z3_mk_not(C, a));
}
static Z3_ast mkAnd(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return simp(Z3_mk_and(C, 2, x)); }
static Z3_ast mkOr(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return simp(Z3_mk_or(C, 2, x)); }
static Z3_ast bvn(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(C, v, BVS(w)); }
static Z3_ast mul2(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_mul(C, 2, x); }
static Z3_ast add2(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_add(C, 2, x); }
static Z3_ast sub2(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_sub(C, 2, x); }

static uint64_t mask(uint32_t w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static int64_t sx(uint64_t v, uint32_t w) { if (w >= 64) return (int64_t)v; uint64_t s = 1ULL << (w - 1); return (int64_t)((v ^ s) - s); }

// reals ---------------------------------------------------------------
static Z3_ast realStr(const char* dec) { if (!strpbrk(dec, "0123456789")) throw Unsupp{"not a number as a real"};  // decimal string with optional exponent -> exact rational
  std::string s = dec, digits; bool neg = false; int exp = 0; size_t i = 0; bool dot = false;
  if (s[i] == '-') { neg = true; i++; } else if (s[i] == '+') i++;
  for (; i < s.size() && s[i] != 'e' && s[i] != 'E'; ++i) {
    if (s[i] == '.') { dot = true; continue; }
    digits += s[i]; if (dot) exp--;
  }
  if (i < s.size()) exp += atoi(s.c_str() + i + 1);
  if (digits.empty()) digits = "0";
  std::string num = (neg ? "-" : "") + digits;
  if (exp > 0) num += std::string(exp, '0');
  else if (exp < 0) num += "/1" + std::string(-exp, '0');
  return Z3_mk_numeral(C, num.c_str(), realS);
}
static float bitsF(uint64_t b) { uint32_t x = (uint32_t)b; float f; memcpy(&f, &x, 4); return f; }
static double bitsD(uint64_t b) { double f; memcpy(&f, &b, 8); return f; }
static uint64_t fBits(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }
static uint64_t dBits(double f) { uint64_t x; memcpy(&x, &f, 8); return x; }
static std::string shortest(double d, bool isFloat) {
  char buf[64];
  if (!isFloat && (double)(float)d == d) isFloat = true;
  for (int p = 1; p <= 17; ++p) {
    snprintf(buf, sizeof buf, "%.*e", p - 1, d);
    if (isFloat ? strtof(buf, nullptr) == (float)d : strtod(buf, nullptr) == d) return buf;
  }
  return buf;
}
static std::unordered_map<uint64_t, Z3_ast> niceMemo32, niceMemo64;
static Val FC(uint64_t bits, uint32_t w) { Val v; v.k = K_FC; v.w = w; v.c = bits; return v; }
static Val FS(Z3_ast e, uint32_t w) { Val v; v.k = K_FS; v.w = w; v.e = e; return v; }
static Val mkFloatConst(uint64_t bits, uint32_t w) {
  if (!REAL) return FC(bits, w);
  double d = w == 32 ? bitsF(bits) : bitsD(bits);
  if (!std::isfinite(d)) return FC(bits, w);
  auto& mm = w == 32 ? niceMemo32 : niceMemo64;
  auto it = mm.find(bits);
  Z3_ast a;
  if (it != mm.end()) a = it->second;
  else { a = realStr(shortest(d, w == 32).c_str()); mm[bits] = a; }
  return FS(a, w);
}
static bool realNum(Z3_ast a) { return Z3_get_ast_kind(C, a) == Z3_NUMERAL_AST; }
static double ratD(Z3_ast a) {
  double r = Z3_get_numeral_double(C, a);
  if (std::isfinite(r)) return r;
  // numerator and denominator too large for a double each
  std::string t = Z3_get_numeral_string(C, a); size_t sl = t.find('/');
  auto big = [](std::string n, int& ex) { bool neg = n[0] == '-'; if (neg) n.erase(0, 1); ex = (int)n.size(); double v = strtod(("0." + n.substr(0, 40)).c_str(), nullptr); return neg ? -v : v; };
  int e1 = 0, e2 = 0; double n = big(sl == std::string::npos ? t : t.substr(0, sl), e1), d = 1;
  if (sl != std::string::npos) d = big(t.substr(sl + 1), e2);
  return n / d * pow(10.0, e1 - e2);
}

// BV <-> Val -----------------------------------------------------------
static Val BV(Z3_ast e, uint32_t w) {   // e: BV sort of width w (or Bool when w==1); simplifies
  Val v; v.w = w;
  e = simp(e);
  if (w == 1) {
    if (isTrue(e)) return Val::I(1, 1);
    if (isFalse(e)) return Val::I(0, 1);
  } else if (w <= 64 && Z3_get_ast_kind(C, e) == Z3_NUMERAL_AST) {
    uint64_t x; Z3_get_numeral_uint64(C, e, (uint64_t*)&x);
    return Val::I(x, w);
  }
  v.k = K_BV; v.e = e; return v;
}
static Val BVbool(Z3_ast e) { return BV(e, 1); }
static int undefCnt = 0;
static Val fresh(uint32_t w, const char* n = "undef") {
  Val v; v.k = K_BV; v.w = w; v.e = mkVar(n, w == 1 ? boolS : BVS(w)); undefCnt++; return v;
}
static Z3_ast fpToBits(const Val& v) {
  if (REAL) {
    if (v.k == K_FS && realNum(v.e)) {
      double d = ratD(v.e);
      return v.w == 32 ? bvn(fBits((float)d), 32) : bvn(dBits(d), 64);
    }
    throw Unsupp{"bits of a symbolic real"};
  }
  if (Z3_get_ast_kind(C, v.e) == Z3_APP_AST) {  // the exact bits (NaN payloads included) of a float that came from bits
    Z3_app ap = Z3_to_app(C, v.e);
    if (Z3_get_decl_kind(C, Z3_get_app_decl(C, ap)) == Z3_OP_FPA_TO_FP && Z3_get_app_num_args(C, ap) == 1) {
      Z3_ast b = Z3_get_app_arg(C, ap, 0);
      if (Z3_get_sort_kind(C, Z3_get_sort(C, b)) == Z3_BV_SORT) return b;
    }
    if (Z3_get_decl_kind(C, Z3_get_app_decl(C, ap)) == Z3_OP_FPA_FP) {
      Z3_ast x[3]; for (int i = 0; i < 3; ++i) x[i] = Z3_get_app_arg(C, ap, i);
      return simp(Z3_mk_concat(C, x[0], Z3_mk_concat(C, x[1], x[2])));
    }
  }
  return simp(Z3_mk_fpa_to_ieee_bv(C, v.e));
}
static Z3_ast asBV(const Val& v) {
  switch (v.k) {
    case K_INT: return bvn(v.c, v.w);
    case K_BV: return v.w == 1 ? Z3_mk_ite(C, v.e, bvn(1, 1), bvn(0, 1)) : v.e;
    case K_FC: return bvn(v.c, v.w);
    case K_FS: return fpToBits(v);
    default: return fresh(v.w ? v.w : 64).e;
  }
}
static Z3_ast asBool(const Val& v) {
  if (v.k == K_INT) return (v.c & 1) ? Z3_mk_true(C) : Z3_mk_false(C);
  if (v.k == K_BV) return v.w == 1 ? v.e : Z3_mk_eq(C, v.e, bvn(1, v.w));
  return fresh(1).e;
}
// floats
static Val mkF(Z3_ast e, uint32_t w) {
  e = simp(e);
  if (REAL) return FS(e, w);
  if (Z3_is_numeral_ast(C, e)) {
    Z3_ast b = simp(Z3_mk_fpa_to_ieee_bv(C, e));
    if (Z3_get_ast_kind(C, b) == Z3_NUMERAL_AST) { uint64_t x; if (Z3_get_numeral_uint64(C, b, &x)) return FC(x, w); }
    if (Z3_fpa_is_numeral_nan(C, e)) return FC(w == 32 ? 0x7fc00000ULL : 0x7ff8000000000000ULL, w);
  }
  return FS(e, w);
}
static Val toF(const Val& v, uint32_t w) {  // reinterpret an integer-typed payload as float
  switch (v.k) {
    case K_FC: if (REAL) return mkFloatConst(v.c, w); return v;
    case K_FS: return v;
    case K_INT: return mkFloatConst(v.c, w);
    case K_BV:
      if (REAL) throw Unsupp{"float from symbolic bits"};
      return mkF(Z3_mk_fpa_to_fp_bv(C, v.e, FPS(w)), w);
    default: {
      if (REAL) return FS(mkVar("undeff", realS), w);
      return mkF(Z3_mk_fpa_to_fp_bv(C, fresh(w).e, FPS(w)), w);
    }
  }
}
static Z3_ast asF(const Val& v0) {  // Z3 expr of a float value (FP sort or Real)
  Val v = toF(v0, v0.w);
  if (v.k == K_FS) return v.e;
  if (REAL) throw Unsupp{"nonfinite"};
  return simp(Z3_mk_fpa_to_fp_bv(C, bvn(v.c, v.w), FPS(v.w)));
}
static Val toI(const Val& v) {  // integer view
  if (v.k == K_FC) return Val::I(v.c, v.w);
  if (v.k == K_FS) return BV(fpToBits(v), v.w);
  return v;
}

// ---------------------------------------------------------------- solver
struct QRes { int r; std::shared_ptr<Model> m; };  // 1 sat, 0 unsat, -1 unknown
static std::unordered_map<std::string, QRes> qcache;

static int runSolver(Z3_solver s, const std::vector<Z3_ast>& cs, unsigned ms, Model* out, const VS& vars) {
  Z3_solver_inc_ref(C, s);
  Z3_params p = Z3_mk_params(C);
  Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), ms);
  Z3_solver_set_params(C, s, p);
  for (auto c : cs) Z3_solver_assert(C, s, c);
  Z3_lbool r = Z3_solver_check(C, s);
  if (r == Z3_L_TRUE && out) {
    Z3_model m = Z3_solver_get_model(C, s);
    if (m) {
      Z3_model_inc_ref(C, m);
      for (uint32_t v : vars) {
        Z3_ast val = nullptr;
        if (Z3_model_eval(C, m, varAst[v], true, &val) && val) out->v[v] = val;
      }
    } else r = Z3_L_UNDEF;
  }
  Z3_params_dec_ref(C, p);
  Z3_solver_dec_ref(C, s);
  return r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
}

static std::unordered_map<Z3_ast, int> fpMemo;
static bool hasKind(Z3_ast root, bool (*pred)(Z3_ast)) {
  std::vector<Z3_ast> st{root}; std::unordered_set<Z3_ast> seen;
  while (!st.empty()) {
    Z3_ast a = st.back(); st.pop_back();
    if (!seen.insert(a).second) continue;
    if (pred(a)) return true;
    if (Z3_get_ast_kind(C, a) != Z3_APP_AST) continue;
    Z3_app ap = Z3_to_app(C, a);
    for (unsigned i = 0, n = Z3_get_app_num_args(C, ap); i < n; ++i) st.push_back(Z3_get_app_arg(C, ap, i));
  }
  return false;
}
static bool pFP(Z3_ast a) { Z3_sort s = Z3_get_sort(C, a); return Z3_get_sort_kind(C, s) == Z3_FLOATING_POINT_SORT; }
static bool pBV(Z3_ast a) { Z3_sort s = Z3_get_sort(C, a); auto k = Z3_get_sort_kind(C, s); return k == Z3_BV_SORT || k == Z3_INT_SORT; }
static bool memoHas(Z3_ast a, bool (*p)(Z3_ast), std::unordered_map<Z3_ast, int>& mm) {
  auto it = mm.find(a); if (it != mm.end()) return it->second;
  bool r = hasKind(a, p); mm[a] = r; return r;
}
static std::unordered_map<Z3_ast, int> bvMemo;

static double deadline() { return T0 + optTime; }

static int solve(const std::vector<Z3_ast>& cs, Model* out, unsigned ms) {
  std::vector<uint32_t> vars;
  bool fp = false, bv = false;
  for (auto c : cs) {
    const VS* v = varsOf(c);
    vars.insert(vars.end(), v->begin(), v->end());
    if (!REAL) fp = fp || memoHas(c, pFP, fpMemo);
    else bv = bv || memoHas(c, pBV, bvMemo);
  }
  std::sort(vars.begin(), vars.end());
  vars.erase(std::unique(vars.begin(), vars.end()), vars.end());
  double left = (deadline() - now()) * 1000;
  if (left < 50) return -1;
  if (ms > left) ms = (unsigned)left;
  double t = now();
  nQueries++;
  int r = -1;
  auto tac = [&](const char* n) { Z3_tactic x = Z3_mk_tactic(C, n); Z3_tactic_inc_ref(C, x); return x; };
  auto seq = [&](Z3_tactic x, Z3_tactic y) { Z3_tactic z = Z3_tactic_and_then(C, x, y); Z3_tactic_inc_ref(C, z); return z; };
  if (!REAL) {
    static Z3_tactic qfbv = tac("qfbv"), qffpbv = tac("qffpbv");
    if (!fp) {
      r = runSolver(Z3_mk_simple_solver(C), cs, std::min(ms, 3000u), out, vars);
      if (r < 0) r = runSolver(Z3_mk_solver_from_tactic(C, qfbv), cs, ms, out, vars);
    } else {
      r = runSolver(Z3_mk_solver_from_tactic(C, qffpbv), cs, ms, out, vars);
      if (r < 0) r = runSolver(Z3_mk_simple_solver(C), cs, ms, out, vars);
    }
  } else {
    static Z3_tactic nra = seq(tac("simplify"), seq(tac("purify-arith"), seq(tac("propagate-values"), seq(tac("solve-eqs"), seq(tac("elim-uncnstr"), tac("qfnra-nlsat"))))));
    r = runSolver(Z3_mk_simple_solver(C), cs, std::min(ms, 2000u), out, vars);
    if (r < 0 && !bv) r = runSolver(Z3_mk_solver_from_tactic(C, nra), cs, ms, out, vars);
    if (r < 0) r = runSolver(Z3_mk_solver(C), cs, ms, out, vars);
  }
  double dt = now() - t;
  tSolver += dt; if (dt > tMaxQ) tMaxQ = dt;
  if (r == 1) nSat++; else if (r == 0) nUnsat++; else nUnk++;
  if (optVerbose && dt > 1) {
    fprintf(stderr, "[slow query %.2fs -> %d, %zu constraints]\n", dt, r, cs.size());
    if (getenv("SYMX_DUMP")) { for (auto c : cs) fprintf(stderr, "   %s\n", Z3_ast_to_string(C, c)); }
  }
  return r;
}

static QRes check(State& S, Z3_ast extra, unsigned ms = 0) {
  if (!ms) ms = optQ;
  if (isFalse(extra)) return {0, nullptr};
  // independence slicing
  std::vector<Z3_ast> rel;
  std::vector<char> used(S.pc.size(), 0);
  std::unordered_set<uint32_t> vs(varsOf(extra)->begin(), varsOf(extra)->end());
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < S.pc.size(); ++i) if (!used[i]) {
      const VS* v = varsOf(S.pc[i]);
      for (uint32_t x : *v) if (vs.count(x)) {
        used[i] = 1; ch = true; rel.push_back(S.pc[i]); vs.insert(v->begin(), v->end()); break;
      }
    }
  }
  rel.push_back(extra);
  std::vector<unsigned> ids;
  for (auto a : rel) ids.push_back(Z3_get_ast_id(C, a));
  std::sort(ids.begin(), ids.end());
  ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
  std::string key((const char*)ids.data(), ids.size() * sizeof(unsigned));
  auto it = qcache.find(key);
  if (it != qcache.end()) { nCacheHit++; return it->second; }
  QRes q; q.m = std::make_shared<Model>();
  q.r = solve(rel, q.m.get(), ms);
  if (q.r != -1) qcache[key] = q;
  return q;
}
static std::shared_ptr<Model> merge(const std::shared_ptr<Model>& a, const std::shared_ptr<Model>& b) {
  auto m = std::make_shared<Model>();
  if (a) m->v = a->v;
  if (b) for (auto& x : b->v) m->v[x.first] = x.second;
  return m;
}
// a model of the whole path condition when none is at hand (component by component)
static void remodel(State& S) {
  if (S.model) return;
  auto m = std::make_shared<Model>();
  std::unordered_set<uint32_t> have;
  for (size_t i = 0; i < S.pc.size(); ++i) {
    const VS* v = varsOf(S.pc[i]);
    bool need = false;
    for (uint32_t x : *v) if (!have.count(x)) { need = true; break; }
    if (!need) continue;
    QRes q = check(S, S.pc[i]);
    if (q.r != 1) return;
    for (auto& x : q.m->v) { m->v[x.first] = x.second; have.insert(x.first); }
  }
  S.model = m;
}
// evaluate under the state's model: 1 / 0 / -1
static Z3_ast evalModel(Model* m, Z3_ast a) {
  const VS* vs = varsOf(a);
  std::vector<Z3_ast> from, to;
  for (uint32_t v : *vs) {
    from.push_back(varAst[v]);
    auto it = m->v.find(v);
    if (it != m->v.end()) to.push_back(it->second);
    else {
      Z3_sort s = Z3_get_sort(C, varAst[v]);
      switch (Z3_get_sort_kind(C, s)) {
        case Z3_BOOL_SORT: to.push_back(Z3_mk_false(C)); break;
        case Z3_BV_SORT: case Z3_REAL_SORT: case Z3_INT_SORT: to.push_back(Z3_mk_int(C, 0, s)); break;
        default: to.push_back(Z3_mk_fpa_zero(C, s, false));
      }
      m->v[v] = to.back();
    }
  }
  if (from.empty()) return simp(a);
  return simp(Z3_substitute(C, a, from.size(), from.data(), to.data()));
}
static int evalBool(State& S, Z3_ast a) {
  if (!S.model) return -1;
  Z3_ast r = evalModel(S.model.get(), a);
  if (isTrue(r)) return 1;
  if (isFalse(r)) return 0;
  return -1;
}

static std::string where(State& S) {
  auto& T = S.th[S.cur];
  std::string out;
  int n = 0;
  for (int i = (int)T.st.size() - 1; i >= 0 && n < 10; --i, ++n) {
    Frame& F = T.st[i];
    const Ins* in = F.pc < (int)F.f->bb[F.bb].ins.size() ? &F.f->bb[F.bb].ins[F.pc] : nullptr;
    out += (n ? " < " : "") + F.f->pretty;
    if (in) if (auto& L = in->I->getDebugLoc()) out += ":" + std::to_string(L.getLine());
  }
  return out;
}

static void addC(State& S, Z3_ast c) { if (!isTrue(c)) S.pc.push_back(c); }

// input dump for a counterexample --------------------------------------
static std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o + "\"";
}
static std::string dumpInputs(State& S, Model* m) {
  std::string o = "[";
  for (size_t i = 0; i < S.inputs.size(); ++i) {
    Input& in = S.inputs[i];
    if (i) o += ",";
    std::string val;
    if (in.conc) val = std::to_string(in.c);
    else {
      Z3_ast v = evalModel(m, in.e);
      if (in.type == 'r') val = Z3_get_ast_kind(C, v) == Z3_NUMERAL_AST ? Z3_get_numeral_decimal_string(C, v, 30) : "0";
      else if (in.w == 1) val = isTrue(v) ? "1" : "0";
      else val = Z3_get_ast_kind(C, v) == Z3_NUMERAL_AST ? Z3_get_numeral_string(C, v) : "0";
      if (!val.empty() && val.back() == '?') val.pop_back();
    }
    o += "{\"name\":" + jstr(in.name) + ",\"type\":\"" + in.type + "\",\"value\":" + jstr(val) + "}";
  }
  o += "]";
  return o;
}
static std::string schedStr(State& S) {
  std::string o = "[";
  for (size_t i = 0; i < S.sched.size(); ++i) o += (i ? "," : "") + std::to_string(S.sched[i].first);
  return o + "]";
}

static bool reportViol(State& S, const std::string& label, const std::string& kind, Model* m) {
  std::string key = label;
  if (violCount(key) >= (int)optModels) return false;
  violPer[key]++;
  Viol v; v.label = label; v.kind = kind; v.where = where(S); v.inputs = dumpInputs(S, m);
  v.trace = schedStr(S);
  viols.push_back(v);
  if (optVerbose) fprintf(stderr, "VIOL %s [%s] at %s\n   %s\n", label.c_str(), kind.c_str(), v.where.c_str(), v.inputs.c_str());
  return true;
}
// an error on the current path irrespective of values; cond is the condition under which it happens
static void errorIf(State& S, Z3_ast bad, const std::string& label, const std::string& kind) {
  if (isFalse(bad)) return;
  if (isTrue(bad)) {
    Model* m = S.model.get();
    Model tmp;
    if (!m) { remodel(S); m = S.model ? S.model.get() : &tmp; }
    reportViol(S, label, kind, m);
    throw PathEnd();
  }
  nAssertQ++;
  QRes q = check(S, bad);
  if (q.r == 1) {
    remodel(S);
    auto m = merge(S.model, q.m);
    reportViol(S, label, kind, m.get());
  } else if (q.r == -1) unknowns[label]++;
  Z3_ast ok = mkNot(bad);
  int ev = q.r == 0 ? 1 : evalBool(S, ok);
  if (ev != 1) {
    QRes q2 = check(S, ok);
    if (q2.r == 0) throw PathEnd();
    if (q2.r == 1) { remodel(S); S.model = merge(S.model, q2.m); }
    else S.model = nullptr;
  }
  addC(S, ok);
}
static void assume(State& S, Z3_ast c) {
  c = simp(c);
  if (isTrue(c)) return;
  if (isFalse(c)) { nPruned++; throw PathEnd(); }
  int ev = evalBool(S, c);
  if (ev != 1) {
    QRes q = check(S, c);
    if (q.r == 0) { nPruned++; throw PathEnd(); }
    if (q.r == 1) { remodel(S); S.model = merge(S.model, q.m); } else S.model = nullptr;
  }
  addC(S, c);
}

// ---------------------------------------------------------------- worklist
static std::vector<std::unique_ptr<State>> work;
static std::map<std::string, uint64_t> forkAt;
static State* forkState(State& S) {
  nForks++;
  if (optTrace) forkAt[where(S)]++;
  work.emplace_back(new State(S));
  return work.back().get();
}

// decide a symbolic boolean: forks the state; returns the side the current state takes
static bool branch(State& S, Z3_ast c) {
  c = simp(c);
  if (isTrue(c)) return true;
  if (isFalse(c)) return false;
  Z3_ast nc = mkNot(c);
  remodel(S);
  int ev = evalBool(S, c);
  if (ev >= 0) nModelHit++;
  QRes qt{1, S.model}, qf{1, S.model};
  if (ev != 1) qt = check(S, c);
  if (ev != 0) qf = check(S, nc);
  bool ct = qt.r != 0, cf = qf.r != 0;
  if (!ct && !cf) throw PathEnd();
  if (ct && cf) {
    State* o = forkState(S);   // other side: false
    // the forked state re-executes the instruction; it has nc in its path condition
    addC(*o, nc);
    o->model = ev == 0 ? S.model : (qf.r == 1 ? merge(S.model, qf.m) : nullptr);
    addC(S, c);
    if (ev != 1) S.model = qt.r == 1 ? merge(S.model, qt.m) : nullptr;
    return true;
  }
  if (ct) { if (ev != 1) S.model = qt.r == 1 ? merge(S.model, qt.m) : nullptr; return true; }
  if (ev != 0) S.model = qf.r == 1 ? merge(S.model, qf.m) : nullptr;
  return false;
}
// NOTE: on a fork the "other" state is left at the same instruction; since nc is in its path
// condition the re-execution takes the other side without forking again.

static uint64_t numU64(Z3_ast a) { uint64_t x = 0; Z3_get_numeral_uint64(C, a, &x); return x; }

// force a symbolic bitvector to a concrete value, forking over the feasible values
static uint64_t concretize(State& S, const Val& v0, const char* what, unsigned limit = 0) {
  Val v = toI(v0);
  if (v.k == K_INT) return v.c;
  if (v.k == K_UNDEF) return 0;
  if (!limit) limit = optConc;
  Z3_ast e = asBV(v);
  // pick a value
  remodel(S);
  Z3_ast val = nullptr;
  if (S.model) { val = evalModel(S.model.get(), e); if (Z3_get_ast_kind(C, val) != Z3_NUMERAL_AST) val = nullptr; }
  if (!val) {
    Z3_ast t = mkVar("conc", BVS(v.w));
    QRes q = check(S, Z3_mk_eq(C, t, e));
    if (q.r == 0) throw PathEnd();
    if (q.r < 0) throw Unsupp{"concretize: solver unknown"};
    val = q.m->v[varId(t)];
    S.model = merge(S.model, q.m);
  }
  Z3_ast eq = simp(Z3_mk_eq(C, e, val));
  Z3_ast ne = mkNot(eq);
  QRes q = check(S, ne);
  if (q.r != 0) {
    int& cnt = S.nameCnt[std::string("#conc#") + what + "#" + std::to_string(Z3_get_ast_id(C, e))];
    if (++cnt > (int)limit) { incomplete[std::string("concretisation limit: ") + what]++; }
    else {
      State* o = forkState(S);
      addC(*o, ne);
      o->model = q.r == 1 ? merge(S.model, q.m) : nullptr;
    }
  }
  addC(S, eq);
  return numU64(val);
}

static void writeOut();
#include "mem.inc"
#include "fp.inc"
#include "code.inc"
#include "exec.inc"

static void onSig(int) {
  _exit(3);
}

static void writeOut() {
  if (optTrace) for (auto& k : forkAt) fprintf(stderr, "FORK %llu %s\n", (unsigned long long)k.second, k.first.c_str());
  std::string o = "{";
  auto mp = [&](const char* n, std::map<std::string, uint64_t>& m) {
    o += std::string("\"") + n + "\":{"; bool f = true;
    for (auto& x : m) { if (!f) o += ","; f = false; o += jstr(x.first) + ":" + std::to_string(x.second); }
    o += "},\n";
  };
  mp("unsupported", unsupported); mp("incomplete", incomplete); mp("reached", reached); mp("asserts", asserts); mp("unknown", unknowns);
  auto n = [&](const char* k, double v) { char b[64]; snprintf(b, 64, "%.10g", v); o += std::string("\"") + k + "\":" + b + ",\n"; };
  n("paths", nPaths); n("pruned", nPruned); n("queries", nQueries); n("sat", nSat); n("unsat", nUnsat); n("unknown_queries", nUnk);
  n("cache_hits", nCacheHit); n("model_hits", nModelHit); n("forks", nForks); n("instructions", nInstr); n("assert_queries", nAssertQ);
  n("asserts_folded", nFolded);
  n("solver_s", tSolver); n("max_query_s", tMaxQ); n("wall_s", now() - T0); n("dedup", nDedup); n("sched_points", nSchedPts);
  o += "\"mode\":" + jstr(REAL ? "real" : "fp") + ",\n\"functions\":[";
  bool f = true;
  std::vector<std::string> fs;
  std::set<std::string> fset;
  for (auto& x : finfo) if (x.second && x.second->calls) {
    if (x.second->inRepo) fset.insert(x.second->pretty);
    for (auto& B : *x.first) for (auto& I : B) {   // functions inlined into this one
      for (const DILocation* L = I.getDebugLoc(); L; L = L->getInlinedAt()) {
        auto* SP = L->getScope() ? L->getScope()->getSubprogram() : nullptr;
        if (!SP) continue;
        std::string f = SP->getFilename().str();
        if (f.empty() || f[0] != '/') f = SP->getDirectory().str() + "/" + f;
        if (f.compare(0, optRepo.size() + 1, optRepo + "/") == 0) {
          std::string n = SP->getLinkageName().empty() ? SP->getName().str() : llvm::demangle(SP->getLinkageName().str());
          if (n.size() > 160) n = n.substr(0, 160) + "...";
          fset.insert(n);
        }
      }
    }
  }
  fs.assign(fset.begin(), fset.end());
  std::sort(fs.begin(), fs.end());
  fs.erase(std::unique(fs.begin(), fs.end()), fs.end());
  for (auto& s : fs) { if (!f) o += ","; f = false; o += jstr(s); }
  o += "],\n\"samples\":[";
  f = true;
  for (auto& s : samples) { if (!f) o += ",\n"; f = false; o += s; }
  o += "],\n\"violations\":[";
  f = true;
  for (auto& v : viols) {
    if (!f) o += ",\n"; f = false;
    o += "{\"label\":" + jstr(v.label) + ",\"kind\":" + jstr(v.kind) + ",\"where\":" + jstr(v.where) + ",\"inputs\":" + v.inputs + ",\"schedule\":" + v.trace + "}";
  }
  o += "]}\n";
  if (optOut.empty()) fputs(o.c_str(), stdout);
  else { std::ofstream os(optOut); os << o; }
}

int main(int argc, char** argv) {
  T0 = now();
  std::string file;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&](const char* p) -> const char* { size_t n = strlen(p); return a.compare(0, n, p) == 0 ? a.c_str() + n : nullptr; };
    const char* v;
    if ((v = val("--mode="))) REAL = !strcmp(v, "real");
    else if ((v = val("--time="))) optTime = atof(v);
    else if ((v = val("--query-ms="))) optQ = atoi(v);
    else if ((v = val("--max-instr="))) optMaxInstr = strtoull(v, 0, 10);
    else if ((v = val("--max-viol="))) optMaxViol = atoi(v);
    else if ((v = val("--models="))) optModels = atoi(v);
    else if ((v = val("--conc="))) optConc = atoi(v);
    else if ((v = val("--preempt="))) optPreempt = atoi(v);
    else if ((v = val("--spurious="))) optSpurious = atoi(v);
    else if ((v = val("--repo="))) optRepo = v;
    else if ((v = val("--out="))) optOut = v;
    else if ((v = val("--entry="))) optEntry = v;
    else if (a == "--trace") optTrace = true;
    else if (a == "-v") optVerbose = true;
    else if (a == "--no-dedup") optDedup = false;
    else if (a == "--approx") optApprox = true;
    else if (a == "--race") optRace = true;
    else if ((v = val("--arg="))) harnessArgs.push_back(atoll(v));
    else file = a;
  }
  signal(SIGALRM, onSig);
  Z3_global_param_set("memory_max_size", "0");
  Z3_config cfg = Z3_mk_config();
  C = Z3_mk_context(cfg);
  Z3_set_error_handler(C, [](Z3_context c, Z3_error_code e) { throw Unsupp{std::string("z3: ") + Z3_get_error_msg(c, e)}; });
  realS = Z3_mk_real_sort(C); intS = Z3_mk_int_sort(C); boolS = Z3_mk_bool_sort(C);
  RNE = Z3_mk_fpa_rne(C); RTZ = Z3_mk_fpa_rtz(C);
  LLVMContext ctx;
  SMDiagnostic err;
  std::unique_ptr<Module> mod = parseIRFile(file, err, ctx);
  if (!mod) { err.print("symx", errs()); return 2; }
  M = mod.get();
  DL = &M->getDataLayout();
  return runAll();
}
