// interpreter ---------------------------------------------------------------
struct Resched {};
static std::unordered_set<std::string> visited;

static void raceAccess(State& S, uint32_t id, uint32_t off, uint32_t n, bool write);

static Val loadTyped(State& S, uint64_t base, const Val& p, Type* T);

static Val ptrAdd(const Val& p, int64_t k) {
  if (p.k == K_INT) return Val::I(p.c + k, 64);
  if (k == 0) return p;
  return BV(Z3_mk_bvadd(C, asBV(p), bvn((uint64_t)k, 64)), 64);
}
static Val loadT(State& S, const Val& p, Type* T) {
  if (auto* ST = dyn_cast<StructType>(T)) {
    auto* a = new std::vector<Val>();
    const StructLayout* L = DL->getStructLayout(ST);
    for (unsigned i = 0; i < ST->getNumElements(); ++i) a->push_back(loadT(S, ptrAdd(p, L->getElementOffset(i)), ST->getElementType(i)));
    return AGG(a);
  }
  if (auto* AT = dyn_cast<ArrayType>(T)) {
    auto* a = new std::vector<Val>();
    uint64_t es = DL->getTypeAllocSize(AT->getElementType());
    for (uint64_t i = 0; i < AT->getNumElements(); ++i) a->push_back(loadT(S, ptrAdd(p, i * es), AT->getElementType()));
    return AGG(a);
  }
  if (auto* VT = dyn_cast<FixedVectorType>(T)) {
    auto* a = new std::vector<Val>();
    uint64_t es = DL->getTypeAllocSize(VT->getElementType());
    for (unsigned i = 0; i < VT->getNumElements(); ++i) a->push_back(loadT(S, ptrAdd(p, i * es), VT->getElementType()));
    return AGG(a);
  }
  uint32_t n = DL->getTypeStoreSize(T), w = widthOf(T);
  if (n > 16) throw Unsupp{"wide load"};
  Val v = loadMem(S, p, n);
  if (isFP(T)) { if (v.k == K_UNDEF) { v.w = w; } return toF(v, w); }
  if (v.k == K_UNDEF) {
    // give the uninitialised bytes one arbitrary value so that repeated reads agree
    Val f = fresh(n * 8, "uninit");
    Val pi = toI(p);
    if (pi.k == K_INT) { Obj* o = S.mem.wr(pi.c >> 32); bool ro = o->ro; putVal(o, pi.c & 0xffffffff, f, n); o->ro = ro; }
    if (w == 1) return BV(Z3_mk_eq(C, Z3_mk_extract(C, 0, 0, f.e), bvn(1, 1)), 1);
    if (w != n * 8) return BV(Z3_mk_extract(C, w - 1, 0, f.e), w);
    return f;
  }
  if (w != n * 8) {
    if (v.k == K_INT) return Val::I(v.c, w);
    if (w == 1) return BV(Z3_mk_eq(C, Z3_mk_extract(C, 0, 0, asBV(v)), bvn(1, 1)), 1);
    return BV(Z3_mk_extract(C, w - 1, 0, asBV(v)), w);
  }
  return v;
}
static void storeT(State& S, const Val& p, const Val& v, Type* T) {
  if (auto* ST = dyn_cast<StructType>(T)) {
    const StructLayout* L = DL->getStructLayout(ST);
    for (unsigned i = 0; i < ST->getNumElements(); ++i) storeT(S, ptrAdd(p, L->getElementOffset(i)), (*v.agg)[i], ST->getElementType(i));
    return;
  }
  Type* ET = nullptr; uint64_t ne = 0;
  if (auto* AT = dyn_cast<ArrayType>(T)) { ET = AT->getElementType(); ne = AT->getNumElements(); }
  else if (auto* VT = dyn_cast<FixedVectorType>(T)) { ET = VT->getElementType(); ne = VT->getNumElements(); }
  if (ET) {
    uint64_t es = DL->getTypeAllocSize(ET);
    for (uint64_t i = 0; i < ne; ++i) storeT(S, ptrAdd(p, i * es), (*v.agg)[i], ET);
    return;
  }
  storeMem(S, p, v, DL->getTypeStoreSize(T));
}

static Val ibin(State& S, unsigned op, const Val& a0, const Val& b0, uint32_t w) {
  if (a0.k == K_AGG) {
    auto* r = new std::vector<Val>();
    for (size_t i = 0; i < a0.agg->size(); ++i) r->push_back(ibin(S, op, (*a0.agg)[i], (*b0.agg)[i], (*a0.agg)[i].w));
    return AGG(r);
  }
  Val a = toI(a0), b = toI(b0);
  if (a.k == K_INT && b.k == K_INT) {
    uint64_t x = a.c, y = b.c;
    switch (op) {
      case Instruction::Add: return Val::I(x + y, w);
      case Instruction::Sub: return Val::I(x - y, w);
      case Instruction::Mul: return Val::I(x * y, w);
      case Instruction::And: return Val::I(x & y, w);
      case Instruction::Or: return Val::I(x | y, w);
      case Instruction::Xor: return Val::I(x ^ y, w);
      case Instruction::Shl: if (y >= w) return fresh(w, "poison"); return Val::I(x << y, w);
      case Instruction::LShr: if (y >= w) return fresh(w, "poison"); return Val::I(x >> y, w);
      case Instruction::AShr: if (y >= w) return fresh(w, "poison"); return Val::I((uint64_t)(sx(x, w) >> y), w);
      case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
        if (y == 0) errorIf(S, Z3_mk_true(C), "integer division by zero", "arith");
        if (op == Instruction::UDiv) return Val::I(x / y, w);
        if (op == Instruction::URem) return Val::I(x % y, w);
        if (sx(y, w) == -1) return op == Instruction::SDiv ? Val::I(0 - x, w) : Val::I(0, w);
        if (op == Instruction::SDiv) return Val::I((uint64_t)(sx(x, w) / sx(y, w)), w);
        return Val::I((uint64_t)(sx(x, w) % sx(y, w)), w);
    }
  }
  if (w == 1) {
    Z3_ast x = asBool(a), y = asBool(b);
    Z3_ast t[2] = {x, y};
    switch (op) {
      case Instruction::And: case Instruction::Mul: return BVbool(Z3_mk_and(C, 2, t));
      case Instruction::Or: return BVbool(Z3_mk_or(C, 2, t));
      case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return BVbool(Z3_mk_xor(C, x, y));
      default: throw Unsupp{"i1 arithmetic"};
    }
  }
  if (a.k == K_UNDEF) a = fresh(w);
  if (b.k == K_UNDEF) b = fresh(w);
  Z3_ast x = asBV(a), y = asBV(b), r;
  auto shiftUB = [&]() {
    // an oversized shift has no defined value
    if (b.k == K_INT) return;
    Z3_ast big = simp(Z3_mk_bvuge(C, y, bvn(w, w)));
    (void)big;
  };
  switch (op) {
    case Instruction::Add: r = Z3_mk_bvadd(C, x, y); break;
    case Instruction::Sub: r = Z3_mk_bvsub(C, x, y); break;
    case Instruction::Mul: r = Z3_mk_bvmul(C, x, y); break;
    case Instruction::And: r = Z3_mk_bvand(C, x, y); break;
    case Instruction::Or: r = Z3_mk_bvor(C, x, y); break;
    case Instruction::Xor: r = Z3_mk_bvxor(C, x, y); break;
    case Instruction::Shl: shiftUB(); if (b.k == K_INT && b.c >= w) return fresh(w, "poison"); r = Z3_mk_bvshl(C, x, y); break;
    case Instruction::LShr: shiftUB(); if (b.k == K_INT && b.c >= w) return fresh(w, "poison"); r = Z3_mk_bvlshr(C, x, y); break;
    case Instruction::AShr: shiftUB(); if (b.k == K_INT && b.c >= w) return fresh(w, "poison"); r = Z3_mk_bvashr(C, x, y); break;
    case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
      errorIf(S, simp(Z3_mk_eq(C, y, bvn(0, w))), "integer division by zero", "arith");
      r = op == Instruction::UDiv ? Z3_mk_bvudiv(C, x, y) : op == Instruction::URem ? Z3_mk_bvurem(C, x, y) : op == Instruction::SDiv ? Z3_mk_bvsdiv(C, x, y) : Z3_mk_bvsrem(C, x, y);
      break;
    }
    default: throw Unsupp{"int op"};
  }
  return BV(r, w);
}
static Val icmp(unsigned pred, const Val& a0, const Val& b0) {
  Val a = toI(a0), b = toI(b0);
  uint32_t w = a.w ? a.w : b.w;
  if (a.k == K_INT && b.k == K_INT) {
    uint64_t x = a.c, y = b.c; int64_t sx_ = sx(x, w), sy = sx(y, w); bool r = false;
    switch (pred) {
      case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break;
      case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
      case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break;
      case CmpInst::ICMP_SGT: r = sx_ > sy; break; case CmpInst::ICMP_SGE: r = sx_ >= sy; break;
      case CmpInst::ICMP_SLT: r = sx_ < sy; break; case CmpInst::ICMP_SLE: r = sx_ <= sy; break;
    }
    return Val::I(r, 1);
  }
  if (a.k == K_UNDEF) a = fresh(w);
  if (b.k == K_UNDEF) b = fresh(w);
  if (w == 1) {
    Z3_ast x = asBool(a), y = asBool(b);
    if (pred == CmpInst::ICMP_EQ) return BVbool(Z3_mk_iff(C, x, y));
    if (pred == CmpInst::ICMP_NE) return BVbool(Z3_mk_xor(C, x, y));
  }
  Z3_ast x = asBV(a), y = asBV(b);
  switch (pred) {
    case CmpInst::ICMP_EQ: return BVbool(Z3_mk_eq(C, x, y));
    case CmpInst::ICMP_NE: return BVbool(Z3_mk_not(C, Z3_mk_eq(C, x, y)));
    case CmpInst::ICMP_UGT: return BVbool(Z3_mk_bvugt(C, x, y));
    case CmpInst::ICMP_UGE: return BVbool(Z3_mk_bvuge(C, x, y));
    case CmpInst::ICMP_ULT: return BVbool(Z3_mk_bvult(C, x, y));
    case CmpInst::ICMP_ULE: return BVbool(Z3_mk_bvule(C, x, y));
    case CmpInst::ICMP_SGT: return BVbool(Z3_mk_bvsgt(C, x, y));
    case CmpInst::ICMP_SGE: return BVbool(Z3_mk_bvsge(C, x, y));
    case CmpInst::ICMP_SLT: return BVbool(Z3_mk_bvslt(C, x, y));
    default: return BVbool(Z3_mk_bvsle(C, x, y));
  }
}
static Val mkIte(State& S, Z3_ast c, const Val& a, const Val& b) {
  if (a.k == K_AGG) {
    auto* r = new std::vector<Val>();
    for (size_t i = 0; i < a.agg->size(); ++i) r->push_back(mkIte(S, c, (*a.agg)[i], (*b.agg)[i]));
    return AGG(r);
  }
  if (a.k == b.k && a.w == b.w && (a.k == K_INT || a.k == K_FC) && a.c == b.c) return a;
  if (a.k == K_UNDEF) return b;
  if (b.k == K_UNDEF) return a;
  if (a.k == K_FS || b.k == K_FS || a.k == K_FC || b.k == K_FC) {
    if (isNF(a) || isNF(b)) { // cannot be expressed as a real: fork
      return branch(S, c) ? a : b;
    }
    return mkF(Z3_mk_ite(C, c, asF(a), asF(b)), a.w);
  }
  if (a.w == 1) return BVbool(Z3_mk_ite(C, c, asBool(a), asBool(b)));
  return BV(Z3_mk_ite(C, c, asBV(a), asBV(b)), a.w);
}
static Val castOp(State& S, unsigned op, const Val& v0, Type* FT, Type* TT) {
  if (v0.k == K_AGG) {
    if (op == Instruction::BitCast && !TT->isVectorTy()) {
      // vector -> scalar of the same size
      Z3_ast acc = nullptr;
      for (auto& e : *v0.agg) { Z3_ast x = asBV(toI(e)); acc = acc ? Z3_mk_concat(C, x, acc) : x; }
      Val r = BV(acc, widthOf(TT));
      return isFP(TT) ? toF(r, widthOf(TT)) : r;
    }
    if (auto* VT = dyn_cast<FixedVectorType>(TT)) {
      if (VT->getNumElements() != v0.agg->size()) throw Unsupp{"vector bitcast"};
      auto* r = new std::vector<Val>();
      for (auto& e : *v0.agg) r->push_back(castOp(S, op, e, cast<VectorType>(FT)->getElementType(), VT->getElementType()));
      return AGG(r);
    }
    throw Unsupp{"aggregate cast"};
  }
  uint32_t fw = widthOf(FT), tw = widthOf(TT);
  switch (op) {
    case Instruction::Trunc: {
      Val v = toI(v0);
      if (v.k == K_INT) return Val::I(v.c, tw);
      if (v.k == K_UNDEF) { v.w = tw; return v; }
      if (tw == 1) return BV(Z3_mk_eq(C, Z3_mk_extract(C, 0, 0, asBV(v)), bvn(1, 1)), 1);
      return BV(Z3_mk_extract(C, tw - 1, 0, asBV(v)), tw);
    }
    case Instruction::ZExt: {
      Val v = toI(v0);
      if (v.k == K_INT && tw <= 64) return Val::I(v.c, tw);
      if (v.k == K_UNDEF) v = fresh(fw);
      if (v.k == K_BV && fw == 1) return BV(Z3_mk_ite(C, v.e, bvn(1, tw), bvn(0, tw)), tw);
      return BV(Z3_mk_zero_ext(C, tw - fw, asBV(v)), tw);
    }
    case Instruction::SExt: {
      Val v = toI(v0);
      if (v.k == K_INT && tw <= 64) return Val::I((uint64_t)sx(v.c, fw), tw);
      if (v.k == K_UNDEF) v = fresh(fw);
      if (v.k == K_BV && fw == 1) return BV(Z3_mk_ite(C, v.e, bvn(mask(tw), tw), bvn(0, tw)), tw);
      if (fw == 8) { // a character known not to be negative: the canonical form is the zero extension
        Z3_ast neg = simp(Z3_mk_bvslt(C, asBV(v), bvn(0, 8)));
        remodel(S);
        int ev = isFalse(neg) ? 0 : isTrue(neg) ? 1 : evalBool(S, neg);
        if (ev == 0 && (isFalse(neg) || check(S, neg, 500).r == 0)) return BV(Z3_mk_zero_ext(C, tw - fw, asBV(v)), tw);
      }
      return BV(Z3_mk_sign_ext(C, tw - fw, asBV(v)), tw);
    }
    case Instruction::PtrToInt: case Instruction::IntToPtr: {
      Val v = v0;
      if (fw == tw) return v;
      v = toI(v);
      if (v.k == K_INT) return Val::I(v.c, tw);
      if (tw < fw) return BV(Z3_mk_extract(C, tw - 1, 0, asBV(v)), tw);
      return BV(Z3_mk_zero_ext(C, tw - fw, asBV(v)), tw);
    }
    case Instruction::BitCast: case Instruction::AddrSpaceCast:
      if (isa<VectorType>(TT)) {
        auto* VT = cast<FixedVectorType>(TT); uint32_t ew = widthOf(VT->getElementType());
        Z3_ast e = asBV(toI(v0));
        auto* r = new std::vector<Val>();
        for (unsigned i = 0; i < VT->getNumElements(); ++i) { Val x = BV(Z3_mk_extract(C, (i + 1) * ew - 1, i * ew, e), ew); r->push_back(isFP(VT->getElementType()) ? toF(x, ew) : x); }
        return AGG(r);
      }
      if (isFP(TT)) return toF(v0, tw);
      return v0;   // int view of a float payload is computed lazily
    case Instruction::FPTrunc: case Instruction::FPExt: {
      Val v = toF(v0, fw);
      if (v.k == K_FC) {
        double d = fw == 32 ? (double)bitsF(v.c) : bitsD(v.c);
        return REAL ? FC(tw == 32 ? fBits((float)d) : dBits(d), tw) : FC(tw == 32 ? fBits((float)d) : dBits(d), tw);
      }
      if (REAL) {
        v.w = tw;
        if (tw < fw && realNum(v.e)) { // what rounds to an integer in either format is that integer (1 + 1e-20)
          double d = ratD(v.e); float f = (float)d;
          if (f != 0 && std::isfinite(f) && f == truncf(f) && fabs(d - f) <= 1e-12 * fabs(f)) return mkFloatConst(fBits(f), 32);
        }
        return v;
      }
      return mkF(Z3_mk_fpa_to_fp_float(C, RNE, v.e, FPS(tw)), tw);
    }
    case Instruction::UIToFP: case Instruction::SIToFP: {
      Val v = toI(v0);
      bool sg = op == Instruction::SIToFP;
      if (v.k == K_UNDEF) v = fresh(fw);
      if (v.k == K_INT) {
        if (REAL) { char b[32]; if (sg) snprintf(b, 32, "%lld", (long long)sx(v.c, fw)); else snprintf(b, 32, "%llu", (unsigned long long)v.c); return FS(Z3_mk_numeral(C, b, realS), tw); }
        if (tw == 32) return FC(fBits(sg ? (float)sx(v.c, fw) : (float)v.c), 32);
        return FC(dBits(sg ? (double)sx(v.c, fw) : (double)v.c), 64);
      }
      if (fw == 1) {
        if (REAL) return mkF(Z3_mk_ite(C, v.e, sg ? Z3_mk_int(C, -1, realS) : realOne(), realZero()), tw);
        v = BV(Z3_mk_ite(C, v.e, sg ? bvn(mask(8), 8) : bvn(1, 8), bvn(0, 8)), 8);
        return mkF(sg ? Z3_mk_fpa_to_fp_signed(C, RNE, v.e, FPS(tw)) : Z3_mk_fpa_to_fp_unsigned(C, RNE, v.e, FPS(tw)), tw);
      }
      if (REAL) {
        // an ite over constants converts leaf-wise; anything else is enumerated when small
        std::function<Z3_ast(Z3_ast, int)> conv = [&](Z3_ast a, int d) -> Z3_ast {
          if (Z3_get_ast_kind(C, a) == Z3_NUMERAL_AST) {
            uint64_t x = numU64(a); char b[32];
            if (sg) snprintf(b, 32, "%lld", (long long)sx(x, fw)); else snprintf(b, 32, "%llu", (unsigned long long)x);
            return Z3_mk_numeral(C, b, realS);
          }
          if (d > 12 || Z3_get_ast_kind(C, a) != Z3_APP_AST) return nullptr;
          Z3_app ap = Z3_to_app(C, a);
          if (Z3_get_decl_kind(C, Z3_get_app_decl(C, ap)) != Z3_OP_ITE) return nullptr;
          Z3_ast x = conv(Z3_get_app_arg(C, ap, 1), d + 1), y = conv(Z3_get_app_arg(C, ap, 2), d + 1);
          if (!x || !y) return nullptr;
          return Z3_mk_ite(C, Z3_get_app_arg(C, ap, 0), x, y);
        };
        if (Z3_ast r = conv(v.e, 0)) return mkF(r, tw);
        return mkF(Z3_mk_int2real(C, Z3_mk_bv2int(C, v.e, sg)), tw);
      }
      return mkF(sg ? Z3_mk_fpa_to_fp_signed(C, RNE, v.e, FPS(tw)) : Z3_mk_fpa_to_fp_unsigned(C, RNE, v.e, FPS(tw)), tw);
    }
    case Instruction::FPToUI: case Instruction::FPToSI: {
      Val v = toF(v0, fw);
      bool sg = op == Instruction::FPToSI;
      if (v.k == K_FC) {
        double d = fw == 32 ? (double)bitsF(v.c) : bitsD(v.c);
        if (!std::isfinite(d)) return fresh(tw, "poison");
        if (sg ? (d >= ldexp(1, tw - 1) || d <= -ldexp(1, tw - 1) - 1) : (d >= ldexp(1, tw) || d <= -1)) return fresh(tw, "poison");
        return sg ? Val::I((uint64_t)(int64_t)d, tw) : Val::I((uint64_t)d, tw);
      }
      if (REAL) {
        if (realNum(v.e)) { double d = ratD(v.e); return sg ? Val::I((uint64_t)(int64_t)d, tw) : Val::I((uint64_t)d, tw); }
        Z3_ast fl = Z3_mk_real2int(C, v.e);
        Z3_ast neg = Z3_mk_unary_minus(C, Z3_mk_real2int(C, Z3_mk_unary_minus(C, v.e)));
        return BV(Z3_mk_int2bv(C, tw, Z3_mk_ite(C, Z3_mk_ge(C, v.e, realZero()), fl, neg)), tw);
      }
      return BV(sg ? Z3_mk_fpa_to_sbv(C, RTZ, v.e, tw) : Z3_mk_fpa_to_ubv(C, RTZ, v.e, tw), tw);
    }
  }
  throw Unsupp{"cast"};
}

// ---------------------------------------------------------------- calls
static inline const Val& opv(Frame& F, const Opnd& o) { return o.slot >= 0 ? F.r[o.slot] : o.c; }

static void popFrame(State& S) {
  auto& st = S.th[S.cur].st;
  for (uint32_t id : st.back().allocas) S.mem.drop(id);
  if (st.back().vaObj) S.mem.drop(st.back().vaObj);
  st.pop_back();
}
static void enterBlock(Frame& F, int nb) {
  int prev = F.bb;
  BInfo& B = F.f->bb[nb];
  if (B.nphi) {
    Val tmp[64]; std::vector<Val> big; Val* t = tmp;
    if (B.nphi > 64) { big.resize(B.nphi); t = big.data(); }
    for (unsigned i = 0; i < B.nphi; ++i) {
      Ins& in = B.ins[i];
      for (size_t k = 0; k < in.inc.size(); ++k) if (in.inc[k] == prev) { t[i] = opv(F, in.ops[k]); break; }
    }
    for (unsigned i = 0; i < B.nphi; ++i) F.r[B.ins[i].dst] = t[i];
  }
  F.prev = prev; F.bb = nb; F.pc = B.nphi;
}
// the call instruction at the top frame completed with value v
static void finishCall(State& S, const Val& v) {
  Frame& F = S.th[S.cur].st.back();
  Ins& in = F.f->bb[F.bb].ins[F.pc];
  if (in.dst >= 0) F.r[in.dst] = v;
  if (in.op == Instruction::Invoke) enterBlock(F, in.bt); else F.pc++;
}

static uint64_t rdPtr(State& S, uint64_t a) {
  Obj* o = S.mem.get(a >> 32);
  uint32_t off = a & 0xffffffff;
  if (!o || off + 8 > o->size) return 0;
  Val v = loadRaw(o, off, 8);
  return v.k == K_INT ? v.c : 0;
}
static uint32_t gidByName(const char* n) { auto* G = M->getNamedGlobal(n); if (!G) return 0; auto it = gid.find(G); return it == gid.end() ? 0 : it->second; }
static bool tiMatch(State& S, uint64_t thrown, uint64_t want, int depth = 0) {
  if (thrown == want) return true;
  if (!thrown || depth > 16) return false;
  std::string n1 = cstr(S, rdPtr(S, thrown + 8)), n2 = cstr(S, rdPtr(S, want + 8));
  if (!n1.empty() && n1 == n2) return true;
  uint64_t vt = rdPtr(S, thrown);
  uint32_t si = gidByName("_ZTVN10__cxxabiv120__si_class_type_infoE"), vmi = gidByName("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
  if (si && (vt >> 32) == si) return tiMatch(S, rdPtr(S, thrown + 16), want, depth + 1);
  if (vmi && (vt >> 32) == vmi) {
    Obj* o = S.mem.get(thrown >> 32);
    uint64_t n = loadRaw(o, (thrown & 0xffffffff) + 20, 4).c;
    for (uint64_t i = 0; i < n; ++i) if (tiMatch(S, rdPtr(S, thrown + 24 + 16 * i), want, depth + 1)) return true;
  }
  return false;
}
static void unwind(State& S, uint64_t exc) {
  uint64_t ti = S.excTI[exc];
  auto& st = S.th[S.cur].st;
  std::string thrownAt = where(S);
  // the top frame is the one executing the throw / resume
  bool first = true;
  while (!st.empty()) {
    Frame& F = st.back();
    Ins& in = F.f->bb[F.bb].ins[F.pc];
    (void)first;
    if (in.op == Instruction::Invoke) {
      // find landing pad
      BInfo& B = F.f->bb[in.bf];
      Ins& lp = B.ins[B.nphi];
      auto* L = cast<LandingPadInst>(lp.I);
      int sel = -1;
      for (unsigned i = 0; i < L->getNumClauses(); ++i) {
        if (L->isCatch(i)) {
          Constant* K = L->getClause(i);
          if (isa<ConstantPointerNull>(K)) { sel = 1; break; }
          uint64_t want = constVal(K).c;
          if (tiMatch(S, ti, want)) { sel = (int)(want >> 32); break; }
        }
      }
      if (sel < 0 && L->isCleanup()) sel = 0;
      if (sel >= 0) {
        enterBlock(F, in.bf);
        auto* a = new std::vector<Val>{Val::I(exc, 64), Val::I((uint32_t)sel, 32)};
        F.r[lp.dst] = AGG(a);
        F.pc++;
        return;
      }
    }
    if (st.size() == 1) {
      Frame keep = F;
      std::string tn = llvm::demangle("_ZTI" + cstr(S, rdPtr(S, ti + 8)));
      errorIf(S, Z3_mk_true(C), "uncaught exception (" + (tn.compare(0, 13, "typeinfo for ") == 0 ? tn.substr(13) : tn) + ")", "exception");
    }
    popFrame(S);
    first = false;
  }
}

static void pushFrame(State& S, const Function* F, const std::vector<Val>& args) {
  FInfo* fi = decode(F);
  fi->calls++;
  if (S.th[S.cur].st.size() > 4000) { incomplete["stack depth"]++; throw PathEnd(); }
  Frame fr;
  fr.f = fi;
  fr.r.resize(fi->nslots);
  unsigned n = F->arg_size();
  for (unsigned i = 0; i < n && i < args.size(); ++i) {
    const Argument* A = F->getArg(i);
    if (A->hasByValAttr()) {
      uint64_t sz = DL->getTypeAllocSize(A->getParamByValType());
      uint32_t id = S.mem.alloc(sz, 1, "byval", S.cur);
      memCopy(S, Val::I(addrOf(id), 64), args[i], sz);
      fr.allocas.push_back(id);
      fr.r[i] = Val::I(addrOf(id), 64);
    } else fr.r[i] = args[i];
  }
  for (size_t i = n; i < args.size(); ++i) fr.va.push_back(args[i]);
  S.th[S.cur].st.push_back(std::move(fr));
}

// ---------------------------------------------------------------- threads
static uint64_t hmix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; return h ^ (h >> 29); }
static uint64_t hval(const Val& v) {
  uint64_t h = v.k * 131 + v.w;
  if (v.k == K_AGG) { for (auto& x : *v.agg) h = hmix(h, hval(x)); return h; }
  if (v.k == K_BV || v.k == K_FS) return hmix(h, Z3_get_ast_id(C, v.e) * 2 + 1);
  return hmix(h, v.c);
}
static std::string hashState(State& S) {
  uint64_t h1 = 1, h2 = 77;
  auto add = [&](uint64_t v) { h1 = hmix(h1, v); h2 = hmix(h2, v * 0x9E3779B97F4A7C15ULL + 12345); };
  for (uint32_t t = 0; t < S.mem.ch.size(); ++t) {
    add(t);
    for (uint32_t c = 0; c < S.mem.ch[t].size(); ++c) {
      Chunk* k = S.mem.ch[t][c].p;
      if (!k) continue;
      for (int i = 0; i < 64; ++i) {
        Obj* o = k->o[i].p;
        if (!o) continue;
        if (!o->hv) {
          uint64_t h = o->size * 7 + o->freed;
          for (size_t j = 0; j < o->m.size(); ++j) h = hmix(h, o->m[j] * 256 + (o->m[j] == 1 ? o->b[j] : 0));
          for (auto& ce : o->cells) { h = hmix(h, ce.first); h = hmix(h, hval(ce.second.v)); }
          o->h = h; o->hv = true;
        }
        add(((uint64_t)t << 40) + c * 64 + i); add(o->h);
      }
    }
  }
  for (auto& T : S.th) {
    add(T.status); add(T.opkind); add(T.opobj); add(T.cond); add(T.st.size());
    for (auto& F : T.st) { add((uint64_t)F.f); add(F.bb); add(F.pc); for (auto& v : F.r) add(hval(v)); }
  }
  for (auto& m : S.mutexOwner) if (m.second) { add(m.first); add(m.second); }
  add(S.cur == 0); add(S.preempt); add(S.spurious);
  std::vector<unsigned> ids; for (auto c : S.pc) ids.push_back(Z3_get_ast_id(C, c));
  std::sort(ids.begin(), ids.end());
  for (auto i : ids) add(i);
  if (optPreempt < 1000) add(S.cur + 1000);
  return std::string((char*)&h1, 8) + std::string((char*)&h2, 8);
}
static bool enabled(State& S, int t) {
  Thread& T = S.th[t];
  if (T.status == 2) return false;
  if (T.status == 1) return false;
  if (!T.parked) return true;
  switch (T.opkind) {
    case 1: case 2: return S.mutexOwner[T.opobj] == 0;
    case 3: return S.th[T.opobj].status == 2;
    default: return true;
  }
}
static void setGo(State& S, int t) {
  Thread& T = S.th[t];
  if (T.opkind == 4) { T.parked = false; T.opkind = 0; T.go = false; }   // starting is an operation of its own
  else T.go = true;
}
// choose the next thread; called when the current thread cannot simply continue
static void schedule(State& S) {
  nSchedPts++;
  std::vector<int> en;
  for (int t = 0; t < (int)S.th.size(); ++t) if (enabled(S, t)) en.push_back(t);
  bool spur = false;
  std::vector<int> sp;
  if (S.spurious < optSpurious)
    for (int t = 0; t < (int)S.th.size(); ++t) if (S.th[t].status == 1 && S.mutexOwner[S.th[t].opobj] == 0) sp.push_back(t);
  if (en.empty()) {
    if (S.th[0].status == 2) throw PathEnd();
    // deadlock (a spurious wake-up is not a way out)
    errorIf(S, Z3_mk_true(C), "deadlock: no thread can proceed", "deadlock");
  }
  if (optDedup && S.th.size() > 1) {
    std::string h = hashState(S);
    if (!visited.insert(h).second) { nDedup++; throw PathEnd(); }
  }
  bool curEn = false;
  for (int t : en) if (t == S.cur) curEn = true;
  std::vector<int> ch = en;
  if (curEn && S.preempt >= optPreempt) ch = {S.cur};
  for (size_t i = 1; i < ch.size(); ++i) {
    State* o = forkState(S);
    if (curEn && ch[i] != S.cur) o->preempt++;
    o->cur = ch[i]; setGo(*o, ch[i]); o->sched.push_back({ch[i], 0});
  }
  for (int t : sp) {
    State* o = forkState(S);
    o->spurious++; o->th[t].status = 0;
    o->cur = t; o->th[t].go = true; o->sched.push_back({t, 1});
  }
  if (curEn && ch[0] != S.cur) S.preempt++;
  S.cur = ch[0]; setGo(S, ch[0]); S.sched.push_back({ch[0], 0});
  (void)spur;
}

// race detection (happens-before, vector clocks) ------------------------------
static void vcGrow(std::vector<uint32_t>& v, size_t n) { if (v.size() < n) v.resize(n, 0); }
static void vcJoin(std::vector<uint32_t>& a, const std::vector<uint32_t>& b) { vcGrow(a, b.size()); for (size_t i = 0; i < b.size(); ++i) a[i] = std::max(a[i], b[i]); }
static void vcTick(State& S, int t) { vcGrow(S.th[t].vc, t + 1); S.th[t].vc[t]++; }
static void vcAcquire(State& S, uint64_t m) { auto it = S.mutexVC.find(m); if (it != S.mutexVC.end()) vcJoin(S.th[S.cur].vc, it->second); }
static void vcRelease(State& S, uint64_t m) { vcTick(S, S.cur); S.mutexVC[m] = S.th[S.cur].vc; }
static bool raceFree = false;
static void raceAccess(State& S, uint32_t id, uint32_t off, uint32_t n, bool write) {
  if (S.th.size() < 2) return;
  auto& T = S.th[S.cur];
  if (T.st.empty()) return;
  const std::string& f = T.st.back().f->file;
  if (!raceFree && (f.empty() || f.find("/harness/rt") != std::string::npos || f.find("/shim/") != std::string::npos || f.find("sym_ios") != std::string::npos)) return;
  int me = S.cur;
  vcGrow(T.vc, S.th.size());
  for (uint32_t i = 0; i < n; ++i) {
    auto& c = S.race[((uint64_t)id << 32) + off + i];
    bool bad = c.wt >= 0 && c.wt != me && c.wc > (c.wt < (int)T.vc.size() ? T.vc[c.wt] : 0);
    if (write) for (auto& r : c.rd) if (r.first != me && r.second > T.vc[r.first]) bad = true;
    if (bad) errorIf(S, Z3_mk_true(C), "data race: conflicting accesses of two threads without synchronisation", "race");
    uint32_t now = T.vc[me] + 1;   // epoch: this access happens before whatever acquires a later release
    if (write) { c.wt = me; c.wc = now; c.rd.clear(); }
    else {
      bool found = false;
      for (auto& r : c.rd) if (r.first == me) { r.second = now; found = true; }
      if (!found) c.rd.push_back({me, now});
    }
  }
}

#include "intrin.inc"

static void doCall(State& S, Frame& F, Ins& in) {
  auto* CB = cast<CallBase>(in.I);
  const Function* callee = in.callee;
  std::vector<Val> args;
  size_t na = CB->arg_size();
  args.reserve(na);
  for (size_t i = 0; i < na; ++i) args.push_back(opv(F, in.ops[i]));
  if (!callee) {
    if (CB->isInlineAsm()) { finishCall(S, Val()); return; }
    Val fp = toI(opv(F, in.ops[na]));
    uint64_t a = concretize(S, fp, "function pointer");
    auto it = funcOfId.find(a >> 32);
    if (it == funcOfId.end()) errorIf(S, Z3_mk_true(C), "memory-safety: call through an invalid function pointer", "memory");
    callee = it->second;
  }
  if (callee->isDeclaration()) { callExternal(S, F, in, callee, args); return; }
  pushFrame(S, callee, args);
}

static void step(State& S) {
  Thread& T = S.th[S.cur];
  Frame& F = T.st.back();
  Ins& in = F.f->bb[F.bb].ins[F.pc];
  nInstr++;
  if (++S.instrs > optMaxInstr) { incomplete["instruction limit per path"]++; errorIf(S, Z3_mk_true(C), "termination: no end within the instruction limit", "hang"); }
  if (!in.bad.empty()) throw Unsupp{in.bad};
  switch (in.op) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
    case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
    case Instruction::And: case Instruction::Or: case Instruction::Xor:
      F.r[in.dst] = ibin(S, in.op, opv(F, in.ops[0]), opv(F, in.ops[1]), in.w);
      F.pc++; return;
    case Instruction::ICmp: {
      const Val& a = opv(F, in.ops[0]);
      if (a.k == K_AGG) { auto* r = new std::vector<Val>(); auto& b = opv(F, in.ops[1]); for (size_t i = 0; i < a.agg->size(); ++i) r->push_back(icmp(cast<ICmpInst>(in.I)->getPredicate(), (*a.agg)[i], (*b.agg)[i])); F.r[in.dst] = AGG(r); }
      else F.r[in.dst] = icmp(cast<ICmpInst>(in.I)->getPredicate(), a, opv(F, in.ops[1]));
      F.pc++; return;
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
      const Val& a = opv(F, in.ops[0]); const Val& b = opv(F, in.ops[1]);
      if (a.k == K_AGG) { auto* r = new std::vector<Val>(); uint32_t ew = widthOf(cast<VectorType>(in.I->getType())->getElementType()); for (size_t i = 0; i < a.agg->size(); ++i) r->push_back(fbin(S, in.op, (*a.agg)[i], (*b.agg)[i], ew)); F.r[in.dst] = AGG(r); }
      else F.r[in.dst] = fbin(S, in.op, a, b, in.w);
      F.pc++; return;
    }
    case Instruction::FNeg: F.r[in.dst] = fneg(opv(F, in.ops[0]), in.w); F.pc++; return;
    case Instruction::FCmp:
      F.r[in.dst] = fcmp(S, cast<FCmpInst>(in.I)->getPredicate(), opv(F, in.ops[0]), opv(F, in.ops[1]), widthOf(in.I->getOperand(0)->getType()));
      F.pc++; return;
    case Instruction::Select: {
      const Val& c = opv(F, in.ops[0]);
      if (c.k == K_INT) F.r[in.dst] = c.c ? opv(F, in.ops[1]) : opv(F, in.ops[2]);
      else if (in.I->getType()->isPointerTy()) { bool b = branch(S, asBool(c)); F.r[in.dst] = b ? opv(F, in.ops[1]) : opv(F, in.ops[2]); }
      else if (c.k == K_AGG) throw Unsupp{"vector select"};
      else {
        const Val &x = opv(F, in.ops[1]), &y = opv(F, in.ops[2]);
        if (in.I->getType()->isIntegerTy() && in.w > 8 && (x.k == K_BV || y.k == K_BV)) { // a side that cannot be taken only burdens the solver
          Z3_ast cb = simp(asBool(c));
          remodel(S);
          int ev = isTrue(cb) ? 1 : isFalse(cb) ? 0 : evalBool(S, cb);
          if (ev >= 0 && !isTrue(cb) && !isFalse(cb) && check(S, ev ? mkNot(cb) : cb, 500).r != 0) ev = -1;
          F.r[in.dst] = ev == 1 ? x : ev == 0 ? y : mkIte(S, cb, x, y);
        } else F.r[in.dst] = mkIte(S, asBool(c), x, y);
      }
      F.pc++; return;
    }
    case Instruction::Br: {
      if (in.bf < 0) { enterBlock(F, in.bt); return; }
      const Val& c = opv(F, in.ops[0]);
      bool b = c.k == K_INT ? (c.c & 1) : branch(S, asBool(c));
      enterBlock(S.th[S.cur].st.back(), b ? in.bt : in.bf);
      return;
    }
    case Instruction::Switch: {
      Val c = toI(opv(F, in.ops[0]));
      if (c.k == K_INT) {
        int t = in.bt;
        for (auto& k : in.cases) if (k.first == c.c) { t = k.second; break; }
        enterBlock(F, t); return;
      }
      if (c.k == K_UNDEF) c = fresh(widthOf(in.I->getOperand(0)->getType()));
      for (auto& k : in.cases) {
        if (branch(S, Z3_mk_eq(C, asBV(c), bvn(k.first, c.w)))) { enterBlock(F, k.second); return; }
      }
      enterBlock(F, in.bt); return;
    }
    case Instruction::Ret: {
      Val v;
      bool has = !in.ops.empty();
      if (has) v = opv(F, in.ops[0]);
      popFrame(S);
      if (T.st.empty()) {
        T.status = 2;
        if (optRace) vcTick(S, S.cur);
        if (S.cur == 0) { throw PathEnd(); }
        throw Resched();
      }
      finishCall(S, v);
      return;
    }
    case Instruction::Load: {
      Val v = loadT(S, opv(F, in.ops[0]), in.I->getType());
      F.r[in.dst] = v; F.pc++; return;
    }
    case Instruction::Store:
      storeT(S, opv(F, in.ops[1]), opv(F, in.ops[0]), in.I->getOperand(0)->getType());
      F.pc++; return;
    case Instruction::Alloca: {
      uint64_t n = in.asz * concretize(S, opv(F, in.ops[0]), "alloca size");
      uint32_t id = S.mem.alloc(n, 1, "", S.cur);
      F.allocas.push_back(id);
      F.r[in.dst] = Val::I(addrOf(id), 64);
      F.pc++; return;
    }
    case Instruction::GetElementPtr: {
      Val p = opv(F, in.ops[0]);
      int64_t off = in.gepConst;
      Z3_ast se = nullptr;
      for (auto& g : in.gepVar) {
        Val ix = toI(opv(F, in.ops[g.first]));
        if (ix.k == K_INT) off += sx(ix.c, ix.w) * g.second;
        else {
          if (ix.k == K_UNDEF) ix = fresh(64);
          Z3_ast e = asBV(ix);
          if (ix.w < 64) e = Z3_mk_sign_ext(C, 64 - ix.w, e);
          e = Z3_mk_bvmul(C, e, bvn((uint64_t)g.second, 64));
          se = se ? Z3_mk_bvadd(C, se, e) : e;
        }
      }
      Val r = ptrAdd(p.k == K_UNDEF ? fresh(64) : p, off);
      if (se) r = BV(Z3_mk_bvadd(C, asBV(r), se), 64);
      F.r[in.dst] = r;
      F.pc++; return;
    }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPTrunc: case Instruction::FPExt:
    case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::PtrToInt:
    case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast:
      F.r[in.dst] = castOp(S, in.op, opv(F, in.ops[0]), in.I->getOperand(0)->getType(), in.I->getType());
      F.pc++; return;
    case Instruction::ExtractValue: {
      Val v = opv(F, in.ops[0]);
      for (int i : in.idx) v = (*v.agg)[i];
      F.r[in.dst] = v; F.pc++; return;
    }
    case Instruction::InsertValue: {
      std::function<Val(const Val&, size_t)> ins = [&](const Val& a, size_t d) -> Val {
        if (d == in.idx.size()) return opv(F, in.ops[1]);
        auto* n = new std::vector<Val>(*a.agg);
        (*n)[in.idx[d]] = ins((*n)[in.idx[d]], d + 1);
        return AGG(n);
      };
      F.r[in.dst] = ins(opv(F, in.ops[0]), 0); F.pc++; return;
    }
    case Instruction::ExtractElement: {
      uint64_t i = concretize(S, opv(F, in.ops[1]), "vector index");
      F.r[in.dst] = (*opv(F, in.ops[0]).agg)[i]; F.pc++; return;
    }
    case Instruction::InsertElement: {
      uint64_t i = concretize(S, opv(F, in.ops[2]), "vector index");
      auto* n = new std::vector<Val>(*opv(F, in.ops[0]).agg);
      (*n)[i] = opv(F, in.ops[1]);
      F.r[in.dst] = AGG(n); F.pc++; return;
    }
    case Instruction::ShuffleVector: {
      auto& a = *opv(F, in.ops[0]).agg; auto& b = *opv(F, in.ops[1]).agg;
      auto* n = new std::vector<Val>();
      for (int x : in.idx) n->push_back(x < 0 ? Val() : x < (int)a.size() ? a[x] : b[x - a.size()]);
      F.r[in.dst] = AGG(n); F.pc++; return;
    }
    case Instruction::Freeze: { Val v = opv(F, in.ops[0]); if (v.k == K_UNDEF && in.w) v = in.isF ? toF(v, in.w) : fresh(in.w); F.r[in.dst] = v; F.pc++; return; }
    case Instruction::Call: case Instruction::Invoke: doCall(S, F, in); return;
    case Instruction::Resume: { uint64_t e = (*opv(F, in.ops[0]).agg)[0].c; 
      // continue unwinding from the caller
      auto& st = T.st;
      if (st.size() == 1) { unwind(S, e); return; }
      popFrame(S); unwind(S, e); return; }
    case Instruction::Unreachable: errorIf(S, Z3_mk_true(C), "unreachable code executed", "ub"); return;
    case Instruction::AtomicRMW: {
      auto* A = cast<AtomicRMWInst>(in.I);
      Val p = opv(F, in.ops[0]), x = opv(F, in.ops[1]);
      Val old = loadT(S, p, A->getValOperand()->getType());
      Val nv;
      switch (A->getOperation()) {
        case AtomicRMWInst::Add: nv = ibin(S, Instruction::Add, old, x, in.w); break;
        case AtomicRMWInst::Sub: nv = ibin(S, Instruction::Sub, old, x, in.w); break;
        case AtomicRMWInst::Xchg: nv = x; break;
        case AtomicRMWInst::Or: nv = ibin(S, Instruction::Or, old, x, in.w); break;
        case AtomicRMWInst::And: nv = ibin(S, Instruction::And, old, x, in.w); break;
        default: throw Unsupp{"atomicrmw"};
      }
      storeT(S, p, nv, A->getValOperand()->getType());
      F.r[in.dst] = old; F.pc++; return;
    }
    case Instruction::AtomicCmpXchg: {
      auto* A = cast<AtomicCmpXchgInst>(in.I);
      Type* T2 = A->getCompareOperand()->getType();
      Val p = opv(F, in.ops[0]);
      Val old = loadT(S, p, T2);
      bool eq = branch(S, asBool(icmp(CmpInst::ICMP_EQ, old, opv(F, in.ops[1]))));
      if (eq) storeT(S, p, opv(F, in.ops[2]), T2);
      F.r[in.dst] = AGG(new std::vector<Val>{old, Val::I(eq, 1)}); F.pc++; return;
    }
    case Instruction::Fence: F.pc++; return;
    default: throw Unsupp{std::string("instruction ") + in.I->getOpcodeName()};
  }
}

static bool runState(State& S) {   // returns when the path ends
  bool completed = false;
  try {
    uint64_t cnt = 0;
    while (true) {
      if ((++cnt & 0x3fff) == 0 && now() > deadline()) { incomplete["time budget"]++; return false; }
      try {
        step(S);
      } catch (Resched&) {
        schedule(S);
      }
    }
  } catch (PathEnd&) {
    completed = true;
  } catch (Unsupp& u) {
    if (u.m == "nonfinite") { nPruned++; incomplete["non-finite constant in real mode"]++; }
    else unsupported[u.m + " in " + where(S)]++;
    if (optVerbose) fprintf(stderr, "UNSUPPORTED %s at %s\n", u.m.c_str(), where(S).c_str());
  }
  return completed;
}

static int runAll() {
  auto S = std::make_unique<State>();
  initState = S.get();
  S->model = std::make_shared<Model>();
  S->th.resize(1);
  // globals
  for (auto& F : *M) {
    if (F.isIntrinsic()) continue;
    uint32_t id = S->mem.alloc(1, 0, F.getName().str(), 0);
    S->mem.wr(id)->ro = true; S->mem.wr(id)->size = 0;
    gid[&F] = id; funcOfId[id] = &F;
  }
  for (auto& G : M->globals()) {
    uint64_t sz = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 0;
    if (!G.hasInitializer() && sz < 64) sz = 64;
    uint32_t id = S->mem.alloc(sz, 0, G.getName().str(), 0);
    gid[&G] = id;
  }
  try {
    for (auto& G : M->globals()) {
      Obj* o = S->mem.wr(gid[&G]);
      if (G.hasInitializer()) { initMem(o, 0, G.getInitializer()); for (auto& m : o->m) if (!m) m = 1; if (G.isConstant()) o->ro = true; }
      else memset(o->m.data(), 1, o->m.size());
    }
  } catch (Unsupp& u) { unsupported["initialiser: " + u.m]++; writeOut(); return 0; }
  // constructors, then the entry
  std::vector<const Function*> ctors;
  if (auto* G = M->getNamedGlobal("llvm.global_ctors")) {
    if (auto* A = dyn_cast<ConstantArray>(G->getInitializer())) {
      std::vector<std::pair<uint64_t, const Function*>> v;
      for (auto& o : A->operands()) {
        auto* CS = cast<ConstantStruct>(o);
        if (auto* F = dyn_cast<Function>(CS->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(CS->getOperand(0))->getZExtValue(), F});
      }
      std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
      for (auto& x : v) ctors.push_back(x.second);
    }
  }
  for (auto* F : ctors) {
    try { pushFrame(*S, F, {}); } catch (Unsupp& u) { unsupported["decode: " + u.m]++; writeOut(); return 0; }
    size_t v0 = viols.size();
    size_t u0 = unsupported.size();
    runState(*S);
    if (viols.size() != v0 || unsupported.size() != u0 || !S->th[0].st.empty()) { incomplete["static initialisation failed"]++; writeOut(); return 0; }
    S->th[0].status = 0;
    S->instrs = 0;
  }
  const Function* E = M->getFunction(optEntry);
  if (!E) { unsupported["no entry " + optEntry]++; writeOut(); return 0; }
  std::vector<Val> args;
  for (auto a : harnessArgs) args.push_back(Val::I(a, 32));
  while (args.size() < E->arg_size()) args.push_back(Val::I(0, 32));
  for (auto& x : finfo) x.second->calls = 0;
  try { pushFrame(*S, E, args); } catch (Unsupp& u) { unsupported["decode: " + u.m]++; writeOut(); return 0; }
  work.push_back(std::move(S));
  double lastRep = now();
  while (!work.empty()) {
    if (now() > deadline()) { incomplete["time budget"] += work.size(); break; }
    if (violPer.size() >= optMaxViol) { incomplete["stopped after violations"]++; break; }
    std::unique_ptr<State> s = std::move(work.back());
    work.pop_back();
    size_t v0 = viols.size();
    bool done = runState(*s);
    if (done) {
      nPaths++;
      if (viols.size() == v0 && samples.size() < 4 && s->model && !s->inputs.empty()) {
        try { samples.push_back(dumpInputs(*s, s->model.get())); } catch (Unsupp&) {}
      }
    }
    if (optVerbose && now() - lastRep > 5) { lastRep = now(); fprintf(stderr, "[%.0fs] paths %lu work %zu queries %lu (%.1fs) instr %lu viol %zu\n", now() - T0, nPaths, work.size(), nQueries, tSolver, nInstr, viols.size()); }
  }
  writeOut();
  fflush(stdout);
  _exit(0);
}
