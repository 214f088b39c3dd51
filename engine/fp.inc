// floating point ----------------------------------------------------------
static Val nonfinite(State& S, const char* why) {
  // real mode: a NaN/infinity appeared
  if (!S.nfOk) errorIf(S, Z3_mk_true(C), std::string("non-finite arithmetic: ") + why, "nonfinite");
  nPruned++;
  throw PathEnd();
}
static bool isNF(const Val& v) { return REAL && v.k == K_FC && !std::isfinite(v.w == 32 ? bitsF(v.c) : bitsD(v.c)); }

static Z3_ast realZero() { static Z3_ast z = Z3_mk_int(C, 0, realS); return z; }
static Z3_ast realOne() { static Z3_ast z = Z3_mk_int(C, 1, realS); return z; }

// real mode: infinities and NaN are constants, everything else is an exact real; a zero counts as +0
static double nfD(const Val& v) { return v.w == 32 ? (double)bitsF(v.c) : bitsD(v.c); }
static double signOf(State& S, const Val& v) {
  if (v.k == K_FC) return nfD(v);
  if (branch(S, simp(Z3_mk_gt(C, v.e, realZero())))) return 1;
  return branch(S, simp(Z3_mk_eq(C, v.e, realZero()))) ? 0 : -1;
}
static Val nfC(double d, uint32_t w) { return std::isfinite(d) ? mkFloatConst(w == 32 ? fBits((float)d) : dBits(d), w) : FC(w == 32 ? fBits((float)d) : dBits(d), w); }
static Val nfBin(State& S, unsigned op, const Val& a, const Val& b, uint32_t w) {
  if (isNF(a) && std::isnan(nfD(a))) return a;
  if (isNF(b) && std::isnan(nfD(b))) return b;
  double x, y;
  if (op == Instruction::FAdd || op == Instruction::FSub) { x = isNF(a) ? nfD(a) : 0; y = isNF(b) ? nfD(b) : 0; return nfC(op == Instruction::FAdd ? x + y : x - y, w); }
  if (op == Instruction::FDiv && isNF(b) && !isNF(a)) return nfC(0, w);
  x = isNF(a) ? nfD(a) : signOf(S, a); y = isNF(b) ? nfD(b) : signOf(S, b);
  if (op == Instruction::FMul) return nfC(x * y, w);
  if (op == Instruction::FDiv) return nfC(x / y, w);
  throw Unsupp{"frem"};
}
static Val fbin(State& S, unsigned op, const Val& a0, const Val& b0, uint32_t w) {
  Val a = toF(a0, w), b = toF(b0, w);
  if (!REAL) {
    if (a.k == K_FC && b.k == K_FC) {
      if (w == 32) {
        float x = bitsF(a.c), y = bitsF(b.c), r = 0;
        switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; case Instruction::FRem: r = fmodf(x, y); break; }
        return FC(fBits(r), 32);
      }
      double x = bitsD(a.c), y = bitsD(b.c), r = 0;
      switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; case Instruction::FRem: r = fmod(x, y); break; }
      return FC(dBits(r), 64);
    }
    Z3_ast x = asF(a), y = asF(b), r;
    switch (op) {
      case Instruction::FAdd: r = Z3_mk_fpa_add(C, RNE, x, y); break;
      case Instruction::FSub: r = Z3_mk_fpa_sub(C, RNE, x, y); break;
      case Instruction::FMul: r = Z3_mk_fpa_mul(C, RNE, x, y); break;
      case Instruction::FDiv: r = Z3_mk_fpa_div(C, RNE, x, y); break;
      default: throw Unsupp{"frem"};
    }
    return mkF(r, w);
  }
  if (isNF(a) || isNF(b)) return nfBin(S, op, a, b, w);
  Z3_ast x = asF(a), y = asF(b);
  switch (op) {
    case Instruction::FAdd: return mkF(add2(x, y), w);
    case Instruction::FSub: return mkF(sub2(x, y), w);
    case Instruction::FMul: return mkF(mul2(x, y), w);
    case Instruction::FDiv: {
      Z3_ast z = simp(Z3_mk_eq(C, y, realZero()));
      if (!isFalse(z)) {
        if (S.nfOk) assume(S, mkNot(z));
        else if (branch(S, z)) { double n = signOf(S, a); return nfC(n > 0 ? INFINITY : n < 0 ? -INFINITY : NAN, w); }
      }
      if (realNum(y)) return mkF(mul2(x, simp(Z3_mk_div(C, realOne(), y))), w);
      return mkF(Z3_mk_div(C, x, y), w);
    }
    default: throw Unsupp{"frem"};
  }
}
static Val fneg(const Val& a0, uint32_t w) {
  Val a = toF(a0, w);
  if (a.k == K_FC) return FC(a.c ^ (w == 32 ? 0x80000000ULL : 0x8000000000000000ULL), w);
  return mkF(REAL ? Z3_mk_unary_minus(C, a.e) : Z3_mk_fpa_neg(C, a.e), w);
}
static Val fcmp(State& S, unsigned pred, const Val& a0, const Val& b0, uint32_t w) {
  Val a = toF(a0, w), b = toF(b0, w);
  auto conc = [&](double x, double y) {
    bool un = std::isnan(x) || std::isnan(y);
    bool r = false;
    switch (pred) {
      case CmpInst::FCMP_FALSE: r = false; break; case CmpInst::FCMP_TRUE: r = true; break;
      case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_OGT: r = !un && x > y; break;
      case CmpInst::FCMP_OGE: r = !un && x >= y; break; case CmpInst::FCMP_OLT: r = !un && x < y; break;
      case CmpInst::FCMP_OLE: r = !un && x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break;
      case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break;
      case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UGT: r = un || x > y; break;
      case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break;
      case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNE: r = un || x != y; break;
    }
    return Val::I(r, 1);
  };
  auto D = [&](const Val& v) { return v.w == 32 ? (double)bitsF(v.c) : bitsD(v.c); };
  if (a.k == K_FC && b.k == K_FC) return conc(D(a), D(b));
  if (REAL) {
    if (a.k == K_FC) return conc(D(a), 0);   // infinity against a finite value
    if (b.k == K_FC) return conc(0, D(b));
    Z3_ast x = a.e, y = b.e;
    switch (pred) {
      case CmpInst::FCMP_FALSE: case CmpInst::FCMP_UNO: return Val::I(0, 1);
      case CmpInst::FCMP_TRUE: case CmpInst::FCMP_ORD: return Val::I(1, 1);
      case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return BVbool(Z3_mk_eq(C, x, y));
      case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return BVbool(Z3_mk_not(C, Z3_mk_eq(C, x, y)));
      case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return BVbool(Z3_mk_gt(C, x, y));
      case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return BVbool(Z3_mk_ge(C, x, y));
      case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return BVbool(Z3_mk_lt(C, x, y));
      default: return BVbool(Z3_mk_le(C, x, y));
    }
  }
  Z3_ast x = asF(a), y = asF(b);
  auto un = [&]() { Z3_ast t[2] = {Z3_mk_fpa_is_nan(C, x), Z3_mk_fpa_is_nan(C, y)}; return Z3_mk_or(C, 2, t); };
  auto o2 = [&](Z3_ast p, Z3_ast q) { Z3_ast t[2] = {p, q}; return Z3_mk_or(C, 2, t); };
  switch (pred) {
    case CmpInst::FCMP_FALSE: return Val::I(0, 1);
    case CmpInst::FCMP_TRUE: return Val::I(1, 1);
    case CmpInst::FCMP_OEQ: return BVbool(Z3_mk_fpa_eq(C, x, y));
    case CmpInst::FCMP_OGT: return BVbool(Z3_mk_fpa_gt(C, x, y));
    case CmpInst::FCMP_OGE: return BVbool(Z3_mk_fpa_geq(C, x, y));
    case CmpInst::FCMP_OLT: return BVbool(Z3_mk_fpa_lt(C, x, y));
    case CmpInst::FCMP_OLE: return BVbool(Z3_mk_fpa_leq(C, x, y));
    case CmpInst::FCMP_ONE: return BVbool(Z3_mk_not(C, o2(un(), Z3_mk_fpa_eq(C, x, y))));
    case CmpInst::FCMP_ORD: return BVbool(Z3_mk_not(C, un()));
    case CmpInst::FCMP_UNO: return BVbool(un());
    case CmpInst::FCMP_UEQ: return BVbool(o2(un(), Z3_mk_fpa_eq(C, x, y)));
    case CmpInst::FCMP_UGT: return BVbool(o2(un(), Z3_mk_fpa_gt(C, x, y)));
    case CmpInst::FCMP_UGE: return BVbool(o2(un(), Z3_mk_fpa_geq(C, x, y)));
    case CmpInst::FCMP_ULT: return BVbool(o2(un(), Z3_mk_fpa_lt(C, x, y)));
    case CmpInst::FCMP_ULE: return BVbool(o2(un(), Z3_mk_fpa_leq(C, x, y)));
    default: return BVbool(Z3_mk_not(C, Z3_mk_fpa_eq(C, x, y)));
  }
}
// round a concrete double result
static Val FD(double d, uint32_t w) { return mkFloatConst(w == 32 ? fBits((float)d) : dBits(d), w); }

// elementary functions: concrete -> host libm; symbolic -> constrained fresh variable
struct App { std::string f; std::vector<Z3_ast> a; Z3_ast r; };
static std::map<std::pair<std::string, std::vector<unsigned>>, Z3_ast> appMemo;
static std::vector<App> allApps;
static Val mathFn(State& S, const std::string& f, const std::vector<Val>& a0, uint32_t w) {
  std::vector<Val> a;
  bool conc = true;
  for (auto& x : a0) {
    Val v = toF(x, w);
    if (isNF(v)) {
      if (a0.size() > 1) return nonfinite(S, "elementary function of an infinite or NaN constant");
      double x = nfD(v);
      return nfC(f == "fabs" ? fabs(x) : f == "sqrt" ? sqrt(x) : f == "exp" ? exp(x) : f == "log" ? log(x) : f == "log1p" ? log1p(x) : f == "expm1" ? expm1(x) : f == "tanh" ? tanh(x) : x, w);
    }
    if (v.k == K_FS && !(REAL && realNum(v.e))) conc = false;
    a.push_back(v);
  }
  auto D = [&](const Val& v) { return v.k == K_FC ? (v.w == 32 ? (double)bitsF(v.c) : bitsD(v.c)) : ratD(v.e); };
  if (f == "fabs") {
    if (a[0].k == K_FC) return FC(a[0].c & (w == 32 ? 0x7fffffffULL : 0x7fffffffffffffffULL), w);
    if (REAL) return mkF(Z3_mk_ite(C, Z3_mk_ge(C, a[0].e, realZero()), a[0].e, Z3_mk_unary_minus(C, a[0].e)), w);
    return mkF(Z3_mk_fpa_abs(C, a[0].e), w);
  }
  if (f == "fmax" || f == "fmin") {
    if (!REAL && conc) { double r = f == "fmax" ? fmax(D(a[0]), D(a[1])) : fmin(D(a[0]), D(a[1])); return FD(r, w); }
    Z3_ast x = asF(a[0]), y = asF(a[1]);
    if (REAL) return mkF(Z3_mk_ite(C, f == "fmax" ? Z3_mk_ge(C, x, y) : Z3_mk_le(C, x, y), x, y), w);
    return mkF(f == "fmax" ? Z3_mk_fpa_max(C, x, y) : Z3_mk_fpa_min(C, x, y), w);
  }
  if (REAL && (f == "sqrt" || f == "log") ) {
    Z3_ast neg = simp(f == "sqrt" ? Z3_mk_lt(C, asF(a[0]), realZero()) : Z3_mk_le(C, asF(a[0]), realZero()));
    if (!isFalse(neg)) {
      if (S.nfOk) assume(S, mkNot(neg));
      else if (branch(S, neg)) return nfC(f == "log" && branch(S, simp(Z3_mk_eq(C, asF(a[0]), realZero()))) ? -INFINITY : NAN, w);
    }
  }
  if (conc && !(REAL && (f == "sqrt" || f == "pow" || f == "exp" || f == "log"))) {
    double x = D(a[0]), y = a.size() > 1 ? D(a[1]) : 0, r;
    if (w == 32) {
      float fx = (float)x, fy = (float)y;
      r = f == "sqrt" ? sqrtf(fx) : f == "exp" ? expf(fx) : f == "log" ? logf(fx) : f == "pow" ? powf(fx, fy) : f == "floor" ? floorf(fx) : f == "ceil" ? ceilf(fx) : f == "round" ? roundf(fx) : f == "trunc" ? truncf(fx) : f == "log1p" ? log1pf(fx) : f == "expm1" ? expm1f(fx) : f == "log2" ? log2f(fx) : f == "log10" ? log10f(fx) : f == "exp2" ? exp2f(fx) : f == "tanh" ? tanhf(fx) : NAN;
    } else
      r = f == "sqrt" ? sqrt(x) : f == "exp" ? exp(x) : f == "log" ? log(x) : f == "pow" ? pow(x, y) : f == "floor" ? floor(x) : f == "ceil" ? ceil(x) : f == "round" ? round(x) : f == "trunc" ? trunc(x) : f == "log1p" ? log1p(x) : f == "expm1" ? expm1(x) : f == "log2" ? log2(x) : f == "log10" ? log10(x) : f == "exp2" ? exp2(x) : f == "tanh" ? tanh(x) : NAN;
    return FD(r, w);
  }
  if (!REAL) {
    if (f == "sqrt") return mkF(Z3_mk_fpa_sqrt(C, RNE, asF(a[0])), w);
    if (f == "floor") return mkF(Z3_mk_fpa_round_to_integral(C, Z3_mk_fpa_rtn(C), asF(a[0])), w);
    if (f == "ceil") return mkF(Z3_mk_fpa_round_to_integral(C, Z3_mk_fpa_rtp(C), asF(a[0])), w);
    if (f == "trunc") return mkF(Z3_mk_fpa_round_to_integral(C, RTZ, asF(a[0])), w);
    if (f == "round") return mkF(Z3_mk_fpa_round_to_integral(C, Z3_mk_fpa_rna(C), asF(a[0])), w);
  }
  if (REAL) {
    // exact special cases
    if (f == "floor" || f == "ceil" || f == "trunc" || f == "round") {
      Z3_ast x = asF(a[0]);
      if (f == "floor") return mkF(Z3_mk_int2real(C, Z3_mk_real2int(C, x)), w);
      if (f == "ceil") return mkF(Z3_mk_unary_minus(C, Z3_mk_int2real(C, Z3_mk_real2int(C, Z3_mk_unary_minus(C, x)))), w);
      throw Unsupp{"real " + f};
    }
    if (f == "pow" && !realNum(asF(a[1]))) { // an exponent the path condition determines
      remodel(S);
      Z3_ast y = asF(a[1]);
      if (S.model) {
        Z3_ast v = evalModel(S.model.get(), y);
        if (realNum(v) && check(S, simp(mkNot(Z3_mk_eq(C, y, v)))).r == 0) return mathFn(S, "pow", {a[0], FS(v, w)}, w);
      }
    }
    if (f == "pow" && realNum(asF(a[1]))) {
      double y = D(a[1]);
      Z3_ast x = asF(a[0]);
      if (y == 0) return FS(realOne(), w);
      if (y == 1) return mkF(x, w);
      if (y == 2) return mkF(mul2(x, x), w);
      if (y == -1) return fbin(S, Instruction::FDiv, FS(realOne(), w), a[0], w);
      if (y == 0.5) return mathFn(S, "sqrt", {a[0]}, w);
      if (realNum(x) && y == (int)y && fabs(y) < 60) {
        Z3_ast r = realOne();
        for (int i = 0; i < fabs(y); ++i) r = simp(mul2(r, x));
        if (y < 0) return fbin(S, Instruction::FDiv, FS(realOne(), w), FS(r, w), w);
        return FS(r, w);
      }
    }
    if (f == "exp" && conc && D(a[0]) == 0) return FS(realOne(), w);
    if (f == "log" && conc && D(a[0]) == 1) return FS(realZero(), w);
    if (f == "sqrt" && conc) {
      double r = sqrt(D(a[0]));
      Z3_ast rr = realStr(shortest(r, false).c_str());
      if (isTrue(simp(Z3_mk_eq(C, mul2(rr, rr), asF(a[0]))))) return FS(rr, w);
    }
    // --approx: an irrational constant is replaced by the nearest double
    if (optApprox && conc && (f == "sqrt" || f == "exp" || f == "log")) {
      double x = D(a[0]), r = f == "sqrt" ? sqrt(x) : f == "exp" ? exp(x) : log(x);
      if (std::isfinite(r)) return FS(realStr(shortest(r, false).c_str()), w);
    }
    if (f == "log1p") return mathFn(S, "log", {mkF(add2(realOne(), asF(a[0])), w)}, w);
    if (f == "expm1") { Val e = mathFn(S, "exp", {a[0]}, w); return mkF(sub2(e.e, realOne()), w); }
    // log(exp(x)) == x
    if (f == "log") for (auto& ap : allApps) if (ap.f == "exp" && ap.r == asF(a[0])) return mkF(ap.a[0], w);
  }
  std::vector<unsigned> ids;
  std::vector<Z3_ast> es;
  for (auto& v : a) { Z3_ast x = asF(v); es.push_back(x); ids.push_back(Z3_get_ast_id(C, REAL ? canonPoly(x) : x)); }
  auto key = std::make_pair(f + (REAL ? "" : std::to_string(w)), ids);
  auto it = appMemo.find(key);
  Z3_ast r;
  if (it != appMemo.end()) r = it->second;
  else {
    r = mkVar(f, REAL ? realS : FPS(w));
    appMemo[key] = r;
    allApps.push_back(App{f, es, r});
  }
  auto need = [&](Z3_ast c) {
    c = simp(c);
    if (isTrue(c)) return;
    for (auto p : S.pc) if (p == c) return;
    S.pc.push_back(c); S.model = nullptr;
  };
  if (REAL) {
    Z3_ast x = es[0];
    if (f == "sqrt") { need(Z3_mk_ge(C, r, realZero())); need(Z3_mk_eq(C, mul2(r, r), x)); }
    else if (f == "exp") {
      need(Z3_mk_gt(C, r, realZero()));
      need(Z3_mk_ge(C, r, add2(x, realOne())));
      need(Z3_mk_eq(C, Z3_mk_le(C, x, realZero()), Z3_mk_le(C, r, realOne())));
      need(Z3_mk_eq(C, Z3_mk_eq(C, x, realZero()), Z3_mk_eq(C, r, realOne())));
      need(Z3_mk_implies(C, Z3_mk_lt(C, x, realOne()), Z3_mk_le(C, mul2(r, sub2(realOne(), x)), realOne())));
    } else if (f == "log") {
      need(Z3_mk_le(C, r, sub2(x, realOne())));
      need(Z3_mk_eq(C, Z3_mk_ge(C, x, realOne()), Z3_mk_ge(C, r, realZero())));
      need(Z3_mk_eq(C, Z3_mk_eq(C, x, realOne()), Z3_mk_eq(C, r, realZero())));
    } else if (f == "pow") {
      need(Z3_mk_implies(C, Z3_mk_gt(C, x, realZero()), Z3_mk_gt(C, r, realZero())));
    }
    // functional consistency and monotonicity against the other applications this state knows
    std::set<uint32_t> known;
    for (auto p : S.pc) for (uint32_t v : *varsOf(p)) known.insert(v);
    for (auto& ap : allApps) if (ap.f == f && ap.r != r && known.count(varId(ap.r))) {
      Z3_ast eq = Z3_mk_eq(C, ap.a[0], es[0]);
      for (size_t i = 1; i < es.size(); ++i) eq = mkAnd(eq, Z3_mk_eq(C, ap.a[i], es[i]));
      need(Z3_mk_implies(C, eq, Z3_mk_eq(C, ap.r, r)));
      if (f == "exp" || f == "log") need(Z3_mk_eq(C, Z3_mk_lt(C, ap.a[0], es[0]), Z3_mk_lt(C, ap.r, r)));
    }
    // make sure the application is known to this state even without axioms
    need(Z3_mk_eq(C, r, r));
  }
  return FS(r, w);
}
