// external functions and intrinsics -------------------------------------------
static std::string inName(State& S, const Val& p) {
  std::string n = cstr(S, p.c);
  int k = S.nameCnt[n]++;
  return k ? n + "#" + std::to_string(k) : n;
}
static Val symIn(State& S, const std::string& name, char type, uint32_t w) {
  Input in; in.name = name; in.type = type; in.w = w; in.conc = false; in.c = 0;
  Val v; v.w = w;
  if (type == 'r') { v.k = K_FS; v.e = mkVar(name, realS); }
  else { v.k = K_BV; v.e = mkVar(name, w == 1 ? boolS : BVS(w)); }
  in.e = v.e; in.var = varId(v.e);
  S.inputs.push_back(in);
  return v;
}
static uint64_t heapAlloc(State& S, uint64_t n, uint8_t kind) {
  uint32_t id = S.mem.alloc((uint32_t)n, kind, "", S.cur);
  return addrOf(id);
}
static void heapFree(State& S, const Val& p0, int kind) {
  uint64_t p = concretize(S, p0, "freed pointer");
  if (!p) return;
  Obj* o = S.mem.get(p >> 32);
  if (!o || o->kind < 2 || (p & 0xffffffff)) errorIf(S, Z3_mk_true(C), "memory-safety: free of an invalid pointer", "memory");
  if (o->freed) errorIf(S, Z3_mk_true(C), "memory-safety: double free", "memory");
  if (o->kind != kind && !(o->kind == 3 && kind == 3)) {
    if ((o->kind == 2) != (kind == 2)) errorIf(S, Z3_mk_true(C), "memory-safety: mismatched allocation and deallocation", "memory");
  }
  if (optRace && S.th.size() > 1) {
    auto lo = S.race.lower_bound(p), hi = S.race.lower_bound(p + o->size);
    std::vector<uint32_t> offs;
    for (auto it = lo; it != hi; ++it) offs.push_back((uint32_t)it->first);
    raceFree = true;
    for (auto x : offs) try { raceAccess(S, (uint32_t)(p >> 32), x, 1, true); } catch (...) { raceFree = false; throw; }
    raceFree = false;
  }
  o = S.mem.wr(p >> 32);
  o->freed = true;
  o->cells.clear(); o->b.clear(); o->m.clear(); o->b.shrink_to_fit(); o->m.shrink_to_fit();
}
static const uint64_t HUGE_ALLOC = 1ull << 28;
// size of an allocation request; a request that can exceed the model's limit is split off
static bool hugeReq(State& S, const Val& n0) {
  Val n = toI(n0);
  if (n.k == K_INT) return n.c > HUGE_ALLOC;
  return branch(S, Z3_mk_bvugt(C, asBV(n), bvn(HUGE_ALLOC, n.w)));
}
static void throwStd(State& S, const char* ti) {
  // throw an exception object of a std type with no payload: uses the runtime's helper when present
  (void)ti;
  const Function* F = M->getFunction("rt_throw_bad_alloc");
  if (!F) errorIf(S, Z3_mk_true(C), "uncaught exception (bad_alloc)", "exception");
  pushFrame(S, F, {});
}

static bool mathName(StringRef n, std::string& f, uint32_t& w) {
  static const std::set<std::string> fns = {"sqrt", "exp", "log", "pow", "fabs", "floor", "ceil", "round", "trunc", "fmax", "fmin", "log1p", "expm1", "log2", "log10", "exp2", "tanh"};
  std::string s = n.str();
  if (fns.count(s)) { f = s; w = 64; return true; }
  if (s.size() > 1 && s.back() == 'f' && fns.count(s.substr(0, s.size() - 1))) { f = s.substr(0, s.size() - 1); w = 32; return true; }
  return false;
}
static Z3_ast ovf(State& S, unsigned id, Z3_ast a, Z3_ast b) {
  switch (id) {
    case Intrinsic::uadd_with_overflow: return mkNot(Z3_mk_bvadd_no_overflow(C, a, b, false));
    case Intrinsic::sadd_with_overflow: return mkNot(mkAnd(Z3_mk_bvadd_no_overflow(C, a, b, true), Z3_mk_bvadd_no_underflow(C, a, b)));
    case Intrinsic::usub_with_overflow: return mkNot(Z3_mk_bvsub_no_underflow(C, a, b, false));
    case Intrinsic::ssub_with_overflow: return mkNot(mkAnd(Z3_mk_bvsub_no_overflow(C, a, b), Z3_mk_bvsub_no_underflow(C, a, b, true)));
    case Intrinsic::umul_with_overflow: return mkNot(Z3_mk_bvmul_no_overflow(C, a, b, false));
    default: return mkNot(mkAnd(Z3_mk_bvmul_no_overflow(C, a, b, true), Z3_mk_bvmul_no_underflow(C, a, b)));
  }
}

static void checkAssert(State& S, Z3_ast cond, const std::string& label, const char* kind, const std::vector<Z3_ast>& prefer) {
  asserts[label]++;
  cond = simp(cond);
  if (isTrue(cond)) { nFolded++; return; }
  Z3_ast bad = mkNot(cond);
  // prefer counterexamples that replay well
  if (!prefer.empty() && !isFalse(bad) && violCount(label) < (int)optModels) {
    Z3_ast all = bad;
    for (auto p : prefer) all = mkAnd(all, p);
    QRes q = check(S, bad);
    if (q.r == 1) {
      QRes q2 = check(S, all, std::min(optQ, 4000u));
      remodel(S);
      auto m = merge(S.model, q2.r == 1 ? q2.m : q.m);
      nAssertQ++;
      reportViol(S, label, kind, m.get());
      // a second, different model
      if (q2.r == 1 && violCount(label) < (int)optModels) {
        Z3_ast diff = Z3_mk_false(C);
        int cnt = 0;
        for (auto& in : S.inputs) if (in.type == 'r' && cnt < 3) { auto it = q2.m->v.find(in.var); if (it != q2.m->v.end()) { diff = mkOr(diff, mkNot(Z3_mk_eq(C, in.e, it->second))); cnt++; } }
        QRes q3 = check(S, mkAnd(all, diff), std::min(optQ, 4000u));
        if (q3.r == 1) { auto m3 = merge(S.model, q3.m); reportViol(S, label, kind, m3.get()); }
      }
      // continue on the passing side
      if (isTrue(bad)) throw PathEnd();
      QRes q4 = check(S, cond);
      if (q4.r == 0) throw PathEnd();
      S.model = q4.r == 1 ? merge(S.model, q4.m) : nullptr;
      addC(S, cond);
      return;
    }
    nAssertQ++;
    if (q.r == -1) { unknowns[label]++; S.model = nullptr; }
    addC(S, cond);
    if (q.r && S.model && evalBool(S, cond) != 1) S.model = nullptr;
    return;
  }
  errorIf(S, bad, label, kind);
}

static void callExternal(State& S, Frame& F, Ins& in, const Function* fn, std::vector<Val>& a) {
  auto ret = [&](const Val& v) { finishCall(S, v); };
  auto retv = [&]() { finishCall(S, Val()); };
  if (unsigned id = fn->getIntrinsicID()) {
    switch (id) {
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::assume:
      case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch:
      case Intrinsic::stackrestore: case Intrinsic::donothing: case Intrinsic::vaend: case Intrinsic::sideeffect:
        retv(); return;
      case Intrinsic::stacksave: ret(Val::I(0, 64)); return;
      case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: ret(a[0]); return;
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: memCopy(S, a[0], a[1], concretize(S, a[2], "memcpy length")); retv(); return;
      case Intrinsic::memset: memSet(S, a[0], a[1], concretize(S, a[2], "memset length")); retv(); return;
      case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: {
        unsigned p = id == Intrinsic::umax ? CmpInst::ICMP_UGT : id == Intrinsic::umin ? CmpInst::ICMP_ULT : id == Intrinsic::smax ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT;
        Val c = icmp(p, a[0], a[1]);
        ret(c.k == K_INT ? (c.c ? a[0] : a[1]) : mkIte(S, asBool(c), a[0], a[1])); return;
      }
      case Intrinsic::abs: {
        Val c = icmp(CmpInst::ICMP_SLT, a[0], Val::I(0, in.w));
        Val n = ibin(S, Instruction::Sub, Val::I(0, in.w), a[0], in.w);
        ret(c.k == K_INT ? (c.c ? n : a[0]) : mkIte(S, asBool(c), n, a[0])); return;
      }
      case Intrinsic::uadd_sat: case Intrinsic::usub_sat: {
        bool add = id == Intrinsic::uadd_sat;
        Val r = ibin(S, add ? Instruction::Add : Instruction::Sub, a[0], a[1], in.w);
        Val o = add ? icmp(CmpInst::ICMP_ULT, r, a[0]) : icmp(CmpInst::ICMP_ULT, a[0], a[1]);
        Val lim = add ? Val::I(mask(in.w), in.w) : Val::I(0, in.w);
        ret(o.k == K_INT ? (o.c ? lim : r) : mkIte(S, asBool(o), lim, r)); return;
      }
      case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
        uint32_t w = widthOf(fn->getArg(0)->getType());
        unsigned op = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? Instruction::Add : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? Instruction::Sub : Instruction::Mul;
        Val r = ibin(S, op, a[0], a[1], w);
        Val o = BVbool(ovf(S, id, asBV(toI(a[0])), asBV(toI(a[1]))));
        ret(AGG(new std::vector<Val>{r, o})); return;
      }
      case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: {
        Val v = toI(a[0]);
        if (v.k == K_INT) {
          uint64_t x = v.c, r = 0;
          if (id == Intrinsic::ctpop) r = __builtin_popcountll(x);
          else if (id == Intrinsic::ctlz) r = x ? __builtin_clzll(x) - (64 - in.w) : in.w;
          else r = x ? __builtin_ctzll(x) : in.w;
          ret(Val::I(r, in.w)); return;
        }
        Z3_ast e = asBV(v), r = id == Intrinsic::ctpop ? bvn(0, in.w) : bvn(in.w, in.w);
        if (id == Intrinsic::ctpop) for (unsigned i = 0; i < in.w; ++i) r = Z3_mk_bvadd(C, r, Z3_mk_zero_ext(C, in.w - 1, Z3_mk_extract(C, i, i, e)));
        else if (id == Intrinsic::ctlz) for (unsigned i = 0; i < in.w; ++i) r = Z3_mk_ite(C, Z3_mk_eq(C, Z3_mk_extract(C, i, i, e), bvn(1, 1)), bvn(in.w - 1 - i, in.w), r);
        else for (int i = in.w - 1; i >= 0; --i) r = Z3_mk_ite(C, Z3_mk_eq(C, Z3_mk_extract(C, i, i, e), bvn(1, 1)), bvn(i, in.w), r);
        ret(BV(r, in.w)); return;
      }
      case Intrinsic::bswap: {
        Z3_ast e = asBV(toI(a[0])), r = nullptr;
        for (unsigned i = 0; i < in.w; i += 8) { Z3_ast b = Z3_mk_extract(C, i + 7, i, e); r = r ? Z3_mk_concat(C, r, b) : b; }
        ret(BV(r, in.w)); return;
      }
      case Intrinsic::fshl: case Intrinsic::fshr: {
        uint64_t k = concretize(S, a[2], "funnel shift") % in.w;
        Z3_ast x = asBV(toI(a[0])), y = asBV(toI(a[1]));
        if (k == 0) { ret(id == Intrinsic::fshl ? a[0] : a[1]); return; }
        uint64_t l = id == Intrinsic::fshl ? k : in.w - k;
        ret(BV(Z3_mk_bvor(C, Z3_mk_bvshl(C, x, bvn(l, in.w)), Z3_mk_bvlshr(C, y, bvn(in.w - l, in.w))), in.w)); return;
      }
      case Intrinsic::fabs: case Intrinsic::sqrt: case Intrinsic::exp: case Intrinsic::log: case Intrinsic::pow: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::round: case Intrinsic::trunc:
      case Intrinsic::maxnum: case Intrinsic::minnum: case Intrinsic::exp2: case Intrinsic::log2: case Intrinsic::log10: {
        const char* f = id == Intrinsic::fabs ? "fabs" : id == Intrinsic::sqrt ? "sqrt" : id == Intrinsic::exp ? "exp" : id == Intrinsic::log ? "log" : id == Intrinsic::pow ? "pow" : id == Intrinsic::floor ? "floor" : id == Intrinsic::ceil ? "ceil" : id == Intrinsic::round ? "round" : id == Intrinsic::trunc ? "trunc" : id == Intrinsic::maxnum ? "fmax" : id == Intrinsic::minnum ? "fmin" : id == Intrinsic::exp2 ? "exp2" : id == Intrinsic::log2 ? "log2" : "log10";
        ret(mathFn(S, f, a, in.w)); return;
      }
      case Intrinsic::powi: { Val n = toI(a[1]); int64_t k = sx(concretize(S, n, "powi"), n.w); ret(mathFn(S, "pow", {a[0], FD((double)k, in.w)}, in.w)); return; }
      case Intrinsic::fmuladd: case Intrinsic::fma: ret(fbin(S, Instruction::FAdd, fbin(S, Instruction::FMul, a[0], a[1], in.w), a[2], in.w)); return;
      case Intrinsic::copysign: {
        if (REAL) { Val m = mathFn(S, "fabs", {a[0]}, in.w); ret(mkF(Z3_mk_ite(C, Z3_mk_lt(C, asF(a[1]), realZero()), Z3_mk_unary_minus(C, m.e), m.e), in.w)); return; }
        Z3_ast x = asBV(toI(a[0])), y = asBV(toI(a[1]));
        ret(toF(BV(Z3_mk_concat(C, Z3_mk_extract(C, in.w - 1, in.w - 1, y), Z3_mk_extract(C, in.w - 2, 0, x)), in.w), in.w)); return;
      }
      case Intrinsic::is_fpclass: {
        uint32_t w = widthOf(fn->getArg(0)->getType());
        uint64_t m = a[1].c;
        Val v = toF(a[0], w);
        if (REAL && v.k == K_FS) { // finite values only
          Z3_ast zero = Z3_mk_eq(C, v.e, realZero()), neg = Z3_mk_lt(C, v.e, realZero()), pos = Z3_mk_gt(C, v.e, realZero());
          Z3_ast r = Z3_mk_false(C);
          if (m & 0x18) r = mkOr(r, neg); if (m & 0x60) r = mkOr(r, zero); if (m & 0x180) r = mkOr(r, pos);
          ret(BVbool(r)); return;
        }
        Z3_ast x = asF(v), r = Z3_mk_false(C);
        Z3_ast neg = Z3_mk_fpa_is_negative(C, x), pos = Z3_mk_fpa_is_positive(C, x);
        if (m & 3) r = mkOr(r, Z3_mk_fpa_is_nan(C, x));
        if (m & 4) r = mkOr(r, mkAnd(neg, Z3_mk_fpa_is_infinite(C, x)));
        if (m & 8) r = mkOr(r, mkAnd(neg, Z3_mk_fpa_is_normal(C, x)));
        if (m & 16) r = mkOr(r, mkAnd(neg, Z3_mk_fpa_is_subnormal(C, x)));
        if (m & 32) r = mkOr(r, mkAnd(neg, Z3_mk_fpa_is_zero(C, x)));
        if (m & 64) r = mkOr(r, mkAnd(pos, Z3_mk_fpa_is_zero(C, x)));
        if (m & 128) r = mkOr(r, mkAnd(pos, Z3_mk_fpa_is_subnormal(C, x)));
        if (m & 256) r = mkOr(r, mkAnd(pos, Z3_mk_fpa_is_normal(C, x)));
        if (m & 512) r = mkOr(r, mkAnd(pos, Z3_mk_fpa_is_infinite(C, x)));
        ret(BVbool(r)); return;
      }
      case Intrinsic::is_constant: ret(Val::I(0, 1)); return;
      case Intrinsic::objectsize: ret(Val::I(~0ULL, in.w)); return;
      case Intrinsic::eh_typeid_for: ret(Val::I(a[0].c >> 32, 32)); return;
      case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: errorIf(S, Z3_mk_true(C), "trap executed", "ub"); return;
      case Intrinsic::vastart: {
        // all variadic arguments go to the overflow area, 8 bytes each
        uint32_t n = F.va.size();
        if (!F.vaObj) {
          F.vaObj = S.mem.alloc(n * 8 + 8, 1, "varargs", S.cur);
          Obj* o = S.mem.wr(F.vaObj);
          for (uint32_t i = 0; i < n; ++i) {
            Val v = F.va[i];
            if (v.k == K_BV && v.w < 64) v = BV(Z3_mk_sign_ext(C, 64 - v.w, asBV(v)), 64);
            if (v.k == K_INT) v = Val::I(sx(v.c, v.w), 64);
            putVal(o, i * 8, v, 8);
          }
        }
        Val p = a[0];
        storeMem(S, p, Val::I(48, 32), 4);
        storeMem(S, ptrAdd(p, 4), Val::I(176, 32), 4);
        storeMem(S, ptrAdd(p, 8), Val::I(addrOf(F.vaObj), 64), 8);
        storeMem(S, ptrAdd(p, 16), Val::I(0, 64), 8);
        retv(); return;
      }
      case Intrinsic::vacopy: memCopy(S, a[0], a[1], 24); retv(); return;
      default: throw Unsupp{"intrinsic " + fn->getName().str()};
    }
  }
  StringRef n = fn->getName();
  std::string mf; uint32_t mw;
  if (n.starts_with("sym_")) {
    if (n == "sym_u8") { ret(symIn(S, inName(S, a[0]), 'i', 8)); return; }
    if (n == "sym_u16") { ret(symIn(S, inName(S, a[0]), 'i', 16)); return; }
    if (n == "sym_u32") { ret(symIn(S, inName(S, a[0]), 'i', 32)); return; }
    if (n == "sym_u64") { ret(symIn(S, inName(S, a[0]), 'i', 64)); return; }
    if (n == "sym_f32") {
      std::string nm = inName(S, a[0]);
      if (REAL) ret(symIn(S, nm, 'r', 32));
      else { Val v = symIn(S, nm, 'f', 32); ret(toF(v, 32)); }
      return;
    }
    if (n == "sym_f64") {
      std::string nm = inName(S, a[0]);
      if (REAL) ret(symIn(S, nm, 'r', 64));
      else { Val v = symIn(S, nm, 'd', 64); ret(toF(v, 64)); }
      return;
    }
    if (n == "sym_assume") { assume(S, mkNot(simp(Z3_mk_eq(C, asBV(toI(a[0])), bvn(0, a[0].w))))); retv(); return; }
    if (n == "sym_assert") {
      std::string l = cstr(S, a[1].c);
      Z3_ast c = mkNot(simp(Z3_mk_eq(C, asBV(toI(a[0])), bvn(0, a[0].w))));
      std::vector<Z3_ast> pref;
      if (REAL) for (auto& i : S.inputs) if (i.type == 'r') { pref.push_back(Z3_mk_le(C, i.e, Z3_mk_int(C, 8, realS))); pref.push_back(Z3_mk_ge(C, i.e, Z3_mk_int(C, -8, realS))); }
      checkAssert(S, c, l, "assert", pref);
      retv(); return;
    }
    if (n == "sym_close") {
      std::string l = cstr(S, a[2].c);
      if (!REAL) {
        Val x = toF(a[0], 64), y = toF(a[1], 64);
        Z3_ast c;
        if (x.k == K_FC && y.k == K_FC) { double p = bitsD(x.c), q = bitsD(y.c); c = (p == q || (std::isnan(p) && std::isnan(q)) || fabs(p - q) <= 1e-5 * std::max(fabs(p), fabs(q))) ? Z3_mk_true(C) : Z3_mk_false(C); }
        else { Z3_ast p = asF(x), q = asF(y); c = mkOr(Z3_mk_fpa_eq(C, p, q), mkAnd(Z3_mk_fpa_is_nan(C, p), Z3_mk_fpa_is_nan(C, q))); }
        checkAssert(S, c, l, "assert", {});
        retv(); return;
      }
      Val vx = toF(a[0], 64), vy = toF(a[1], 64);
      if (isNF(vx) || isNF(vy)) {
        bool ok = isNF(vx) && isNF(vy) && (nfD(vx) == nfD(vy) || (std::isnan(nfD(vx)) && std::isnan(nfD(vy))));
        checkAssert(S, ok ? Z3_mk_true(C) : Z3_mk_false(C), l, "close", {});
        retv(); return;
      }
      Z3_ast x = vx.e, y = vy.e;
      std::vector<Z3_ast> pref;
      Z3_ast d = sub2(x, y), ten = Z3_mk_int(C, 8, realS), eps = Z3_mk_real(C, 1, 10);
      pref.push_back(mkOr(Z3_mk_ge(C, d, eps), Z3_mk_le(C, d, Z3_mk_unary_minus(C, eps))));
      for (auto& i : S.inputs) if (i.type == 'r') { pref.push_back(Z3_mk_le(C, i.e, ten)); pref.push_back(Z3_mk_ge(C, i.e, Z3_mk_unary_minus(C, ten))); }
      Z3_ast same = simp(Z3_mk_eq(C, x, y));
      if (!isTrue(same)) {
        // constants the compiler folded carry float rounding: a difference within rounding is none
        QRes q = check(S, mkNot(same));
        if (q.r != 0) {
          Z3_ast tol = Z3_mk_real(C, 1, 10000);
          Z3_ast lim = mul2(tol, add2(realOne(), Z3_mk_ite(C, Z3_mk_ge(C, y, realZero()), y, Z3_mk_unary_minus(C, y))));
          Z3_ast far = simp(mkOr(Z3_mk_gt(C, d, lim), Z3_mk_lt(C, d, Z3_mk_unary_minus(C, lim))));
          QRes q2 = check(S, far);
          if (q2.r == 0) { asserts[l]++; nAssertQ++; retv(); return; }
          if (q2.r == 1) pref.insert(pref.begin(), far);
        }
      }
      checkAssert(S, same, l, "close", pref);
      retv(); return;
    }
    if (n == "sym_reach") { reached[cstr(S, a[0].c)]++; retv(); return; }
    if (n == "sym_note") { retv(); return; }
    if (n == "sym_concretize") {
      Val v = toI(a[0]);
      uint64_t c = concretize(S, v, "harness value", 4096);
      ret(Val::I(c, in.w)); return;
    }
    if (n == "sym_concretize_f") {   // FP mode: fork over the feasible values of a float
      Val v = toF(a[0], in.w);
      if (v.k == K_FC) { ret(v); return; }
      if (REAL) { ret(v); return; }
      Val b = BV(fpToBits(v), in.w);
      uint64_t c = concretize(S, b, "harness float", 4096);
      ret(FC(c, in.w)); return;
    }
    if (n == "sym_is_real") { ret(Val::I(REAL, 32)); return; }
    if (n == "sym_native") { ret(Val::I(0, 32)); return; }
    if (n == "sym_nonfinite_ok") { S.nfOk = toI(a[0]).c != 0; retv(); return; }
    if (n == "sym_exit") { throw PathEnd(); }
    if (n == "sym_incomplete") { incomplete[cstr(S, a[0].c)]++; throw PathEnd(); }
    if (n == "sym_branch") { // decide the condition now (fork), returns a concrete value
      ret(Val::I(branch(S, mkNot(simp(Z3_mk_eq(C, asBV(toI(a[0])), bvn(0, a[0].w))))), in.w)); return; }
    if (n == "sym_is_symi") { Val v = toI(a[0]); ret(Val::I(v.k == K_BV, 32)); return; }
    if (n == "sym_is_sym") { Val v = a[0]; ret(Val::I(v.k == K_BV || (v.k == K_FS && !(REAL && realNum(v.e))), 32)); return; }
    if (n == "sym_same") { ret(Val::I(hval(a[0]) == hval(a[1]), 32)); return; }
    if (n == "sym_fmt_double") { // (char* buf, int cap, const char* fmt, double v) concrete values only
      Val v = toF(a[3], 64);
      double d;
      if (v.k == K_FC) d = bitsD(v.c);
      else if (REAL && realNum(v.e)) d = ratD(v.e);
      else throw Unsupp{"formatting a symbolic float"};
      char b[256]; std::string f = cstr(S, a[2].c);
      int k = snprintf(b, sizeof b, f.c_str(), d);
      Obj* o = S.mem.wr(a[0].c >> 32);
      for (int i = 0; i <= k; ++i) putConc(o, (a[0].c & 0xffffffff) + i, (uint8_t)b[i], 1);
      ret(Val::I(k, 32)); return;
    }
    if (n == "sym_parse_double") { // concrete text only
      std::string t;
      { Obj* o = S.mem.get(a[0].c >> 32);
        for (uint64_t off = a[0].c & 0xffffffff; o && off < o->size; ++off) {
          char ch = (char)concretize(S, loadByte(o, off), "text of a number", 64);
          if (!ch) break;
          t += ch;
        } }
      ret(FD(strtod(t.c_str(), nullptr), 64)); return;
    }
    if (n == "sym_fresh_close") { // a value within rel*|v| of v, zero iff v is zero (text round trip)
      Val v = toF(a[0], 64), rel = toF(a[1], 64);
      if (!REAL) { ret(v); return; }
      if (realNum(v.e)) { char b[64]; int dg = (int)llround(-log10(ratD(rel.e) * 2)) ; snprintf(b, sizeof b, "%.*g", dg < 1 ? 1 : dg, ratD(v.e)); ret(FS(realStr(b), 64)); return; }
      Z3_ast x = mkVar("text", realS);
      Z3_ast av = Z3_mk_ite(C, Z3_mk_ge(C, v.e, realZero()), v.e, Z3_mk_unary_minus(C, v.e));
      Z3_ast e = mul2(av, rel.e);
      S.pc.push_back(simp(Z3_mk_le(C, sub2(x, v.e), e)));
      S.pc.push_back(simp(Z3_mk_le(C, sub2(v.e, x), e)));
      S.model = nullptr;
      ret(FS(x, 64)); return;
    }
    if (n == "sym_freed") { Obj* o = S.mem.get(a[0].c >> 32); ret(Val::I(!o || o->freed, 32)); return; }
    if (n == "sym_live_heap") { // number of live heap objects
      uint64_t k = 0;
      for (auto& t : S.mem.ch) for (auto& c : t) if (c.p) for (int i = 0; i < 64; ++i) { Obj* o = c.p->o[i].p; if (o && o->kind >= 2 && !o->freed) k++; }
      ret(Val::I(k, 64)); return;
    }
    if (n == "sym_objsize") { Obj* o = S.mem.get(a[0].c >> 32); ret(Val::I(o ? o->size : 0, 64)); return; }
    // ---- threads
    if (n == "sym_thread_create") {
      uint64_t fp = a[0].c;
      auto it = funcOfId.find(fp >> 32);
      if (it == funcOfId.end()) throw Unsupp{"thread function"};
      int t = S.th.size();
      finishCall(S, Val::I(t, 32));
      Thread T; T.parked = true; T.opkind = 4;
      if (optRace) { vcTick(S, S.cur); T.vc = S.th[S.cur].vc; }
      S.th.push_back(T);
      int c = S.cur; S.cur = t;
      pushFrame(S, it->second, {a[1]});
      S.cur = c;
      return;
    }
    Thread& T = S.th[S.cur];
    auto sync = [&](int kind, uint64_t obj) -> bool {   // true when the operation may be performed now
      if (T.go) { T.go = false; T.parked = false; T.opkind = 0; return true; }
      T.parked = true; T.opkind = kind; T.opobj = obj;
      throw Resched();
    };
    if (n == "sym_mutex_lock") {
      uint64_t m = a[0].c;
      sync(1, m);
      S.mutexOwner[m] = S.cur + 1;
      if (optRace) vcAcquire(S, m);
      retv(); return;
    }
    if (n == "sym_mutex_trylock") {
      uint64_t m = a[0].c;
      sync(5, m);
      bool ok = S.mutexOwner[m] == 0;
      if (ok) { S.mutexOwner[m] = S.cur + 1; if (optRace) vcAcquire(S, m); }
      ret(Val::I(ok ? 0 : 16, 32)); return;
    }
    if (n == "sym_mutex_unlock") {
      uint64_t m = a[0].c;
      if (S.mutexOwner[m] != (uint64_t)S.cur + 1) errorIf(S, Z3_mk_true(C), "unlock of a mutex that is not held", "lock");
      S.mutexOwner.erase(m);
      if (optRace) vcRelease(S, m);
      retv(); return;
    }
    if (n == "sym_cond_wait") {
      uint64_t c = a[0].c, m = a[1].c;
      if (T.go) { T.go = false; T.parked = false; T.opkind = 0; S.mutexOwner[m] = S.cur + 1; if (optRace) vcAcquire(S, m); retv(); return; }
      if (S.mutexOwner[m] != (uint64_t)S.cur + 1) errorIf(S, Z3_mk_true(C), "wait without holding the mutex", "lock");
      S.mutexOwner.erase(m);
      if (optRace) vcRelease(S, m);
      T.parked = true; T.opkind = 2; T.opobj = m; T.cond = c; T.status = 1;
      throw Resched();
    }
    if (n == "sym_cond_signal") {
      uint64_t c = a[0].c;
      std::vector<int> w;
      for (int t = 0; t < (int)S.th.size(); ++t) if (S.th[t].status == 1 && S.th[t].cond == c) w.push_back(t);
      finishCall(S, Val());
      if (w.empty()) return;
      for (size_t i = 1; i < w.size(); ++i) { State* o = forkState(S); o->th[w[i]].status = 0; o->sched.push_back({100 + w[i], 0}); }
      if (w.size() > 1) S.sched.push_back({100 + w[0], 0});
      S.th[w[0]].status = 0;
      return;
    }
    if (n == "sym_cond_broadcast") {
      uint64_t c = a[0].c;
      for (auto& t : S.th) if (t.status == 1 && t.cond == c) t.status = 0;
      retv(); return;
    }
    if (n == "sym_thread_join") {
      uint64_t t = a[0].c;
      if (t >= S.th.size()) throw Unsupp{"join"};
      sync(3, t);
      if (optRace) vcJoin(S.th[S.cur].vc, S.th[t].vc);
      retv(); return;
    }
    if (n == "sym_yield") { if (S.th.size() > 1) sync(5, 0); retv(); return; }
    if (n == "sym_thread_self") { ret(Val::I(S.cur, 32)); return; }
    throw Unsupp{"unknown intrinsic " + n.str()};
  }
  if (mathName(n, mf, mw)) { ret(mathFn(S, mf, a, mw)); return; }
  if (n == "malloc") { if (hugeReq(S, a[0])) { ret(Val::I(0, 64)); return; } ret(Val::I(heapAlloc(S, concretize(S, a[0], "malloc size"), 2), 64)); return; }
  if (n == "calloc") {
    uint64_t k = concretize(S, a[0], "calloc") * concretize(S, a[1], "calloc");
    uint64_t p = heapAlloc(S, k, 2); memSet(S, Val::I(p, 64), Val::I(0, 8), k); ret(Val::I(p, 64)); return;
  }
  if (n == "realloc") {
    if (hugeReq(S, a[1])) { ret(Val::I(0, 64)); return; }
    uint64_t k = concretize(S, a[1], "realloc size");
    uint64_t old = a[0].c;
    if (old) {
      Obj* o = S.mem.get(old >> 32);
      if (!o || o->freed || o->kind != 2 || (old & 0xffffffff)) errorIf(S, Z3_mk_true(C), "memory-safety: realloc of an invalid pointer", "memory");
    }
    uint64_t p = heapAlloc(S, k, 2);
    if (old) { uint64_t os = S.mem.get(old >> 32)->size; memCopy(S, Val::I(p, 64), Val::I(old, 64), std::min(os, k)); heapFree(S, Val::I(old, 64), 2); }
    ret(Val::I(p, 64)); return;
  }
  if (n == "free") { heapFree(S, a[0], 2); retv(); return; }
  if (n == "_Znwm" || n == "_Znam" || n == "_ZnwmSt11align_val_t" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t") {
    if (hugeReq(S, a[0])) { throwStd(S, "bad_alloc"); return; }
    ret(Val::I(heapAlloc(S, concretize(S, a[0], "new size"), n == "_Znam" ? 4 : 3), 64)); return;
  }
  if (n == "_ZdlPv" || n == "_ZdlPvm" || n == "_ZdlPvSt11align_val_t" || n == "_ZdlPvmSt11align_val_t") { heapFree(S, a[0], 3); retv(); return; }
  if (n == "_ZdaPv" || n == "_ZdaPvm") { heapFree(S, a[0], 4); retv(); return; }
  if (n == "memcpy" || n == "memmove") { memCopy(S, a[0], a[1], concretize(S, a[2], "memcpy length")); ret(a[0]); return; }
  if (n == "memset") { Val v = castOp(S, Instruction::Trunc, a[1], Type::getInt32Ty(M->getContext()), Type::getInt8Ty(M->getContext())); memSet(S, a[0], v, concretize(S, a[2], "memset length")); ret(a[0]); return; }
  if (n == "abort" || n == "_ZSt9terminatev") errorIf(S, Z3_mk_true(C), "abort/terminate called", "abort");
  if (n == "exit" || n == "_exit") { throw PathEnd(); }
  if (n == "__assert_fail") errorIf(S, Z3_mk_true(C), "assert failed: " + cstr(S, a[0].c), "abort");
  if (n == "__cxa_atexit" || n == "__cxa_thread_atexit") { ret(Val::I(0, 32)); return; }
  if (n == "__cxa_guard_acquire") {
    Val v = loadMem(S, a[0], 1);
    bool done = v.k == K_INT && v.c;
    ret(Val::I(!done, 32)); return;
  }
  if (n == "__cxa_guard_release") { storeMem(S, a[0], Val::I(1, 8), 1); retv(); return; }
  if (n == "__cxa_guard_abort") { retv(); return; }
  if (n == "__cxa_pure_virtual") errorIf(S, Z3_mk_true(C), "pure virtual call", "abort");
  if (n == "__cxa_allocate_exception") { uint64_t p = heapAlloc(S, concretize(S, a[0], "exception"), 2); ret(Val::I(p, 64)); return; }
  if (n == "__cxa_free_exception") { retv(); return; }
  if (n == "__cxa_throw") { S.excTI[a[0].c] = a[1].c; unwind(S, a[0].c); return; }
  if (n == "__cxa_begin_catch") { S.excStack.push_back(a[0].c); ret(a[0]); return; }
  if (n == "__cxa_end_catch") { if (!S.excStack.empty()) S.excStack.pop_back(); retv(); return; }
  if (n == "__cxa_get_exception_ptr") { ret(a[0]); return; }
  if (n == "__cxa_rethrow") { uint64_t e = S.excStack.empty() ? 0 : S.excStack.back(); if (!e) errorIf(S, Z3_mk_true(C), "rethrow without exception", "abort"); unwind(S, e); return; }
  if (n == "_ZSt18uncaught_exceptionv") { ret(Val::I(0, 1)); return; }
  if (n == "__dynamic_cast") {
    uint64_t p = concretize(S, a[0], "dynamic_cast");
    if (!p) { ret(Val::I(0, 64)); return; }
    uint64_t vt = rdPtr(S, p);
    uint64_t ti = rdPtr(S, vt - 8);
    bool ok = tiMatch(S, ti, a[2].c);
    ret(Val::I(ok ? p + (int64_t)rdPtr(S, vt - 16) : 0, 64)); return;
  }
  throw Unsupp{"external function " + n.str()};
}
