// decoding ----------------------------------------------------------------
static std::map<const Function*, FInfo*> finfo;
static std::unordered_map<const GlobalValue*, uint32_t> gid;
static State* initState = nullptr;   // constants may allocate function objects during decoding
static std::vector<long long> harnessArgs;

static uint32_t fnObj(const Function* F) {
  auto it = gid.find(F);
  if (it != gid.end()) return it->second;
  return 0;
}
static uint32_t widthOf(Type* T) {
  if (T->isIntegerTy()) return T->getIntegerBitWidth();
  if (T->isPointerTy()) return 64;
  if (T->isFloatTy()) return 32;
  if (T->isDoubleTy()) return 64;
  if (T->isHalfTy()) return 16;
  if (T->isX86_FP80Ty()) return 80;
  return 0;
}
static bool isFP(Type* T) { return T->isFloatingPointTy(); }

static Val constVal(const Constant* K);
static Val AGG(std::vector<Val>* a) { Val v; v.k = K_AGG; v.agg = a; return v; }

static Val constGEP(const GEPOperator* G) {
  Val base = constVal(cast<Constant>(G->getPointerOperand()));
  APInt off(64, 0);
  if (!G->accumulateConstantOffset(*DL, off)) throw Unsupp{"constant gep"};
  return Val::I(base.c + off.getSExtValue(), 64);
}
static Val zeroOf(Type* T) {
  if (auto* ST = dyn_cast<StructType>(T)) {
    auto* a = new std::vector<Val>();
    for (auto* E : ST->elements()) a->push_back(zeroOf(E));
    return AGG(a);
  }
  if (auto* AT = dyn_cast<ArrayType>(T)) {
    auto* a = new std::vector<Val>();
    for (uint64_t i = 0; i < AT->getNumElements(); ++i) a->push_back(zeroOf(AT->getElementType()));
    return AGG(a);
  }
  if (auto* VT = dyn_cast<FixedVectorType>(T)) {
    auto* a = new std::vector<Val>();
    for (unsigned i = 0; i < VT->getNumElements(); ++i) a->push_back(zeroOf(VT->getElementType()));
    return AGG(a);
  }
  if (isFP(T)) return mkFloatConst(0, widthOf(T));
  if (widthOf(T) > 64) { Val v; v.k = K_BV; v.w = widthOf(T); v.e = bvn(0, v.w); return v; }
  return Val::I(0, widthOf(T));
}
static Val undefOf(Type* T) {
  if (auto* ST = dyn_cast<StructType>(T)) {
    auto* a = new std::vector<Val>();
    for (auto* E : ST->elements()) a->push_back(undefOf(E));
    return AGG(a);
  }
  if (auto* AT = dyn_cast<ArrayType>(T)) {
    auto* a = new std::vector<Val>();
    for (uint64_t i = 0; i < AT->getNumElements(); ++i) a->push_back(undefOf(AT->getElementType()));
    return AGG(a);
  }
  if (auto* VT = dyn_cast<FixedVectorType>(T)) {
    auto* a = new std::vector<Val>();
    for (unsigned i = 0; i < VT->getNumElements(); ++i) a->push_back(undefOf(VT->getElementType()));
    return AGG(a);
  }
  Val v; v.w = widthOf(T); return v;
}
static Val constVal(const Constant* K) {
  Type* T = K->getType();
  if (auto* I = dyn_cast<ConstantInt>(K)) {
    if (I->getBitWidth() <= 64) return Val::I(I->getZExtValue(), I->getBitWidth());
    SmallString<64> s; I->getValue().toString(s, 10, false);
    Val v; v.k = K_BV; v.w = I->getBitWidth(); v.e = Z3_mk_numeral(C, s.c_str(), BVS(v.w)); return v;
  }
  if (auto* F = dyn_cast<ConstantFP>(K)) {
    if (T->isX86_FP80Ty()) throw Unsupp{"x86_fp80"};
    return mkFloatConst(F->getValueAPF().bitcastToAPInt().getZExtValue(), widthOf(T));
  }
  if (isa<ConstantPointerNull>(K)) return Val::I(0, 64);
  if (isa<ConstantAggregateZero>(K)) return zeroOf(T);
  if (isa<UndefValue>(K)) return undefOf(T);
  if (auto* A = dyn_cast<ConstantAggregate>(K)) {
    auto* a = new std::vector<Val>();
    for (auto& o : A->operands()) a->push_back(constVal(cast<Constant>(o)));
    return AGG(a);
  }
  if (auto* A = dyn_cast<ConstantDataSequential>(K)) {
    auto* a = new std::vector<Val>();
    for (unsigned i = 0; i < A->getNumElements(); ++i) a->push_back(constVal(A->getElementAsConstant(i)));
    return AGG(a);
  }
  if (auto* GA = dyn_cast<GlobalAlias>(K)) return constVal(GA->getAliasee());
  if (auto* G = dyn_cast<GlobalValue>(K)) {
    auto it = gid.find(G);
    if (it == gid.end()) throw Unsupp{"global " + G->getName().str()};
    return Val::I(addrOf(it->second), 64);
  }
  if (auto* G = dyn_cast<GEPOperator>(K)) return constGEP(G);
  if (auto* E = dyn_cast<ConstantExpr>(K)) {
    auto op = [&](int i) { return constVal(E->getOperand(i)); };
    switch (E->getOpcode()) {
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast:
      { Val v = op(0); uint32_t w = widthOf(T); if (v.k == K_INT) return Val::I(v.c, w); return v; }
      case Instruction::Sub: return Val::I(op(0).c - op(1).c, widthOf(T));
      case Instruction::Add: return Val::I(op(0).c + op(1).c, widthOf(T));
      case Instruction::Trunc: return Val::I(op(0).c, widthOf(T));
      case Instruction::ICmp: {
        uint64_t a = op(0).c, b = op(1).c;
        switch (E->getPredicate()) { case CmpInst::ICMP_EQ: return Val::I(a == b, 1); case CmpInst::ICMP_NE: return Val::I(a != b, 1); default: break; }
        break;
      }
      default: break;
    }
    throw Unsupp{"constant expression"};
  }
  throw Unsupp{"constant"};
}
// store a constant initialiser
static void initMem(Obj* o, uint32_t off, const Constant* K) {
  Type* T = K->getType();
  if (isa<ConstantAggregateZero>(K)) { uint32_t n = DL->getTypeStoreSize(T); memset(o->b.data() + off, 0, n); memset(o->m.data() + off, 1, n); return; }
  if (isa<UndefValue>(K)) { uint32_t n = DL->getTypeStoreSize(T); memset(o->b.data() + off, 0, n); memset(o->m.data() + off, 1, n); return; }
  if (auto* A = dyn_cast<ConstantDataSequential>(K)) {
    StringRef raw = A->getRawDataValues();
    memcpy(o->b.data() + off, raw.data(), raw.size()); memset(o->m.data() + off, 1, raw.size()); return;
  }
  if (auto* A = dyn_cast<ConstantStruct>(K)) {
    const StructLayout* L = DL->getStructLayout(A->getType());
    memset(o->m.data() + off, 1, L->getSizeInBytes());
    for (unsigned i = 0; i < A->getNumOperands(); ++i) initMem(o, off + L->getElementOffset(i), A->getOperand(i));
    return;
  }
  if (auto* A = dyn_cast<ConstantArray>(K)) {
    uint32_t es = DL->getTypeAllocSize(A->getType()->getElementType());
    for (unsigned i = 0; i < A->getNumOperands(); ++i) initMem(o, off + es * i, A->getOperand(i));
    return;
  }
  uint32_t n = DL->getTypeStoreSize(T);
  if (auto* F = dyn_cast<ConstantFP>(K)) {
    if (T->isX86_FP80Ty()) return;
    putConc(o, off, F->getValueAPF().bitcastToAPInt().getZExtValue(), n); return;
  }
  Val v = constVal(K);
  if (v.k == K_AGG) throw Unsupp{"aggregate initialiser"};
  putVal(o, off, v, n);
}

static FInfo* decode(const Function* F) {
  auto it = finfo.find(F);
  if (it != finfo.end()) return it->second;
  FInfo* fi = new FInfo();
  fi->F = F;
  fi->pretty = llvm::demangle(F->getName().str());
  if (fi->pretty.size() > 160) fi->pretty = fi->pretty.substr(0, 160) + "...";
  if (auto* SP = F->getSubprogram()) {
    std::string d = SP->getDirectory().str(), f = SP->getFilename().str();
    fi->file = (!f.empty() && f[0] == '/') ? f : d + "/" + f;
    fi->inRepo = fi->file.compare(0, optRepo.size() + 1, optRepo + "/") == 0;
  }
  finfo[F] = fi;
  DenseMap<const Value*, int> slot;
  DenseMap<const BasicBlock*, int> bidx;
  int n = 0;
  for (auto& A : F->args()) slot[&A] = n++;
  int bi = 0;
  for (auto& B : *F) { bidx[&B] = bi++; for (auto& I : B) if (!I.getType()->isVoidTy()) slot[&I] = n++; }
  fi->nslots = n;
  fi->bb.resize(bi);
  auto opnd = [&](const Value* V) {
    Opnd o; o.slot = -1;
    if (auto* K = dyn_cast<Constant>(V)) o.c = constVal(K);
    else { auto s = slot.find(V); if (s != slot.end()) o.slot = s->second; }
    return o;
  };
  for (auto& B : *F) {
    BInfo& b = fi->bb[bidx[&B]];
    for (auto& I : B) {
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      Ins in;
      in.I = &I; in.op = I.getOpcode(); in.dst = I.getType()->isVoidTy() ? -1 : slot[&I];
      in.w = widthOf(I.getType()); in.isF = isFP(I.getType());
      try {
      switch (in.op) {
        case Instruction::Br: {
          auto* BR = cast<BranchInst>(&I);
          in.bt = bidx[BR->getSuccessor(0)];
          if (BR->isConditional()) { in.bf = bidx[BR->getSuccessor(1)]; in.ops.push_back(opnd(BR->getCondition())); }
          break;
        }
        case Instruction::Switch: {
          auto* SW = cast<SwitchInst>(&I);
          in.ops.push_back(opnd(SW->getCondition()));
          in.bt = bidx[SW->getDefaultDest()];
          for (auto& c : SW->cases()) in.cases.push_back({c.getCaseValue()->getZExtValue(), bidx[c.getCaseSuccessor()]});
          break;
        }
        case Instruction::PHI: {
          auto* P = cast<PHINode>(&I);
          for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) { in.ops.push_back(opnd(P->getIncomingValue(i))); in.inc.push_back(bidx[P->getIncomingBlock(i)]); }
          b.nphi++;
          break;
        }
        case Instruction::GetElementPtr: {
          auto* G = cast<GetElementPtrInst>(&I);
          if (G->getType()->isVectorTy()) throw Unsupp{"vector gep"};
          in.ops.push_back(opnd(G->getPointerOperand()));
          int oi = 1;
          for (gep_type_iterator gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
            Value* ix = gi.getOperand();
            if (StructType* ST = gi.getStructTypeOrNull()) {
              in.gepConst += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
            } else {
              int64_t sc = DL->getTypeAllocSize(gi.getIndexedType());
              if (auto* CI = dyn_cast<ConstantInt>(ix)) in.gepConst += CI->getSExtValue() * sc;
              else { in.ops.push_back(opnd(ix)); in.gepVar.push_back({oi++, sc}); }
            }
          }
          break;
        }
        case Instruction::Call: case Instruction::Invoke: {
          auto* CB = cast<CallBase>(&I);
          in.callee = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
          if (!in.callee) if (auto* GA = dyn_cast<GlobalAlias>(CB->getCalledOperand()->stripPointerCasts())) in.callee = dyn_cast<Function>(GA->getAliaseeObject());
          for (auto& a : CB->args()) {
            if (isa<MetadataAsValue>(a)) { Opnd o; o.slot = -1; in.ops.push_back(o); continue; }
            if (isa<InlineAsm>(a)) { Opnd o; o.slot = -1; in.ops.push_back(o); continue; }
            in.ops.push_back(opnd(a));
          }
          if (!in.callee && !CB->isInlineAsm()) in.ops.push_back(opnd(CB->getCalledOperand()));
          if (auto* IV = dyn_cast<InvokeInst>(&I)) { in.bt = bidx[IV->getNormalDest()]; in.bf = bidx[IV->getUnwindDest()]; }
          break;
        }
        case Instruction::Alloca: {
          auto* A = cast<AllocaInst>(&I);
          in.asz = DL->getTypeAllocSize(A->getAllocatedType());
          in.ops.push_back(opnd(A->getArraySize()));
          break;
        }
        case Instruction::ExtractValue: { auto* E = cast<ExtractValueInst>(&I); in.ops.push_back(opnd(E->getAggregateOperand())); for (auto x : E->indices()) in.idx.push_back(x); break; }
        case Instruction::InsertValue: { auto* E = cast<InsertValueInst>(&I); in.ops.push_back(opnd(E->getAggregateOperand())); in.ops.push_back(opnd(E->getInsertedValueOperand())); for (auto x : E->indices()) in.idx.push_back(x); break; }
        case Instruction::LandingPad: break;
        case Instruction::ShuffleVector: {
          auto* SV = cast<ShuffleVectorInst>(&I);
          in.ops.push_back(opnd(SV->getOperand(0))); in.ops.push_back(opnd(SV->getOperand(1)));
          for (int x : SV->getShuffleMask()) in.idx.push_back(x);
          break;
        }
        default:
          for (auto& o : I.operands()) in.ops.push_back(opnd(o));
      }
      } catch (Unsupp& u) { in.bad = u.m; }   // only an error if it is reached
      b.ins.push_back(std::move(in));
    }
  }
  return fi;
}
