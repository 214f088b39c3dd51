// memory operations -------------------------------------------------------
static std::unordered_map<uint32_t, const Function*> funcOfId;

static uint64_t addrOf(uint32_t id) { return ((uint64_t)id) << 32; }

static void splitCell(Obj* o, uint32_t off) {
  auto it = o->cells.find(off);
  if (it == o->cells.end()) return;
  Cell c = it->second;
  if (c.size == 1) return;
  o->cells.erase(it);
  Val iv = c.v;
  if (iv.k == K_UNDEF) { for (uint32_t i = 0; i < c.size; ++i) o->m[off + i] = 0; return; }
  Z3_ast e = asBV(iv);
  for (uint32_t i = 0; i < c.size; ++i) {
    Val b = BV(Z3_mk_extract(C, i * 8 + 7, i * 8, e), 8);
    if (b.k == K_INT) { o->b[off + i] = (uint8_t)b.c; o->m[off + i] = 1; }
    else { o->m[off + i] = 2; o->cells[off + i] = Cell{1, b}; }
  }
}
// make [off,off+n) free of cells that straddle its borders and drop the inner ones
static void clearRange(Obj* o, uint32_t off, uint32_t n) {
  if (o->cells.empty() || !n) return;
  auto strad = [&](uint32_t pos) {  // a cell containing byte pos that starts before pos
    auto it = o->cells.upper_bound(pos);
    if (it == o->cells.begin()) return;
    --it;
    if (it->first < pos && it->first + it->second.size > pos) splitCell(o, it->first);
  };
  strad(off);
  if (off + n < o->size) strad(off + n);
  auto it = o->cells.lower_bound(off);
  while (it != o->cells.end() && it->first < off + n) it = o->cells.erase(it);
}
static void putConc(Obj* o, uint32_t off, uint64_t v, uint32_t n) {
  clearRange(o, off, n);
  for (uint32_t i = 0; i < n; ++i) { o->b[off + i] = (uint8_t)(v >> (8 * i)); o->m[off + i] = 1; }
}
static void putVal(Obj* o, uint32_t off, const Val& v, uint32_t n) {
  if (v.k == K_INT || (v.k == K_FC)) {
    if (n <= 8) { putConc(o, off, v.c, n); return; }
  }
  clearRange(o, off, n);
  if (v.k == K_UNDEF) { for (uint32_t i = 0; i < n; ++i) o->m[off + i] = 0; return; }
  Val w = v;
  if (v.k == K_BV && v.w != n * 8) {
    if (v.w == 1) w = BV(Z3_mk_ite(C, v.e, bvn(1, n * 8), bvn(0, n * 8)), n * 8);
    else w = BV(Z3_mk_zero_ext(C, n * 8 - v.w, v.e), n * 8);
    if (w.k == K_INT) { putConc(o, off, w.c, n); return; }
  }
  for (uint32_t i = 0; i < n; ++i) o->m[off + i] = 2;
  o->cells[off] = Cell{n, w};
}
static Val loadByte(Obj* o, uint32_t off) {
  if (o->m[off] == 1) return Val::I(o->b[off], 8);
  if (o->m[off] == 2) {
    auto it = o->cells.upper_bound(off);
    --it;
    if (it->second.size == 1) return it->second.v;
    uint32_t k = off - it->first;
    return BV(Z3_mk_extract(C, k * 8 + 7, k * 8, asBV(it->second.v)), 8);
  }
  return Val();
}
// raw load of n bytes as an integer payload (or a float payload if a cell holds one)
static Val loadRaw(Obj* o, uint32_t off, uint32_t n) {
  if (o->m[off] == 2) {
    auto it = o->cells.find(off);
    if (it != o->cells.end() && it->second.size == n) return it->second.v;
  }
  bool allC = true, anyU = false, allU = true;
  for (uint32_t i = 0; i < n; ++i) { uint8_t m = o->m[off + i]; if (m != 1) allC = false; if (m == 0) anyU = true; else allU = false; }
  if (allC && n <= 8) {
    uint64_t v = 0;
    for (uint32_t i = 0; i < n; ++i) v |= (uint64_t)o->b[off + i] << (8 * i);
    return Val::I(v, n * 8);
  }
  (void)anyU;
  if (allU) { Val v; v.w = n * 8; return v; }
  Z3_ast acc = nullptr;
  for (uint32_t i = 0; i < n; ++i) {
    Val b = loadByte(o, off + i);
    Z3_ast e;
    if (b.k == K_UNDEF) {
      // fix the uninitialised byte to one arbitrary value
      e = fresh(8, "uninit").e;
      Val nb; nb.k = K_BV; nb.w = 8; nb.e = e;
      putVal(o, off + i, nb, 1);
    } else e = asBV(b);
    acc = acc ? Z3_mk_concat(C, e, acc) : e;
  }
  return BV(acc, n * 8);
}

struct Ptr { uint32_t id; uint32_t off; };

static std::string objDesc(Obj* o, uint32_t id) {
  if (!o) return "null/invalid object";
  static const char* kn[] = {"global", "stack", "malloc", "new", "new[]"};
  return std::string(kn[o->kind]) + " object " + (o->name.size() > 60 ? o->name.substr(0, 60) : o->name) + " of " + std::to_string(o->size) + " bytes";
}

// check that [addr, addr+n) is inside a live object; forks over objects for symbolic pointers.
// Returns the object id; off receives the (possibly symbolic) offset value (32 bit Val when symbolic).
static uint32_t resolveObj(State& S, const Val& p0, uint64_t n, bool write, uint64_t& coff, Z3_ast& soff, const char* op) {
  Val p = toI(p0);
  soff = nullptr;
  if (p.k == K_UNDEF) { errorIf(S, Z3_mk_true(C), std::string("memory-safety: ") + op + " through an uninitialised pointer", "memory"); }
  if (p.k == K_INT) {
    uint32_t id = p.c >> 32; uint64_t off = p.c & 0xffffffffULL;
    Obj* o = S.mem.get(id);
    if (!o) errorIf(S, Z3_mk_true(C), std::string("memory-safety: ") + op + (id == 0 ? " through a null pointer" : " outside any object"), "memory");
    if (o->freed) errorIf(S, Z3_mk_true(C), std::string("memory-safety: ") + op + " after free", "memory");
    if (off + n > o->size) {
      if (optVerbose) fprintf(stderr, "OOB %s off %lu n %lu of %s\n", op, off, n, objDesc(o, id).c_str());
      errorIf(S, Z3_mk_true(C), std::string("memory-safety: ") + op + " out of bounds of a " + (o->kind == 0 ? "global" : o->kind == 1 ? "stack" : "heap") + " object", "memory");
    }
    if (write && o->ro) errorIf(S, Z3_mk_true(C), "memory-safety: write to constant", "memory");
    coff = off;
    return id;
  }
  // symbolic pointer: split by object
  Z3_ast hi = simp(Z3_mk_extract(C, 63, 32, p.e));
  uint64_t id;
  if (Z3_get_ast_kind(C, hi) == Z3_NUMERAL_AST) id = numU64(hi);
  else { Val h; h.k = K_BV; h.w = 32; h.e = hi; id = concretize(S, h, "pointer object", 16); }
  Obj* o = S.mem.get(id);
  if (!o || o->freed) errorIf(S, Z3_mk_true(C), std::string("memory-safety: ") + op + " through an invalid pointer", "memory");
  Z3_ast lo = simp(Z3_mk_extract(C, 31, 0, p.e));
  if (n > o->size) errorIf(S, Z3_mk_true(C), std::string("memory-safety: ") + op + " out of bounds", "memory");
  Z3_ast bad = Z3_mk_bvugt(C, lo, bvn(o->size - n, 32));
  errorIf(S, simp(bad), std::string("memory-safety: ") + op + " out of bounds of a " + (o->kind == 0 ? "global" : o->kind == 1 ? "stack" : "heap") + " object", "memory");
  soff = lo;
  return (uint32_t)id;
}

// enumerate feasible offsets
static bool feasibleOffsets(State& S, Z3_ast off, std::vector<uint64_t>& out, unsigned limit) {
  std::vector<Z3_ast> saved = S.pc;
  auto savedModel = S.model;
  bool ok = true;
  while (true) {
    Z3_ast val = nullptr;
    QRes q;
    if (S.model && out.empty()) val = evalModel(S.model.get(), off);
    if (!val || Z3_get_ast_kind(C, val) != Z3_NUMERAL_AST) {
      Z3_ast t = mkVar("off", BVS(32));
      q = check(S, Z3_mk_eq(C, t, off));
      if (q.r == 0) break;
      if (q.r < 0) { ok = false; break; }
      val = q.m->v[varId(t)];
    }
    out.push_back(numU64(val));
    if (out.size() > limit) { ok = false; break; }
    S.pc.push_back(mkNot(Z3_mk_eq(C, off, val)));
  }
  S.pc = saved; S.model = savedModel;
  std::sort(out.begin(), out.end());
  return ok;
}

static void raceAccess(State& S, uint32_t id, uint32_t off, uint32_t n, bool write);

static Val loadMem(State& S, const Val& p, uint32_t n) {
  uint64_t off; Z3_ast so;
  uint32_t id = resolveObj(S, p, n, false, off, so, "read");
  if (optRace) raceAccess(S, id, so ? 0 : off, n, false);
  if (!so) {
    Obj* o = S.mem.get(id);
    if (o->m.size() && off < o->size) {
      bool anyU = false, allU = true;
      for (uint32_t i = 0; i < n; ++i) { if (o->m[off + i] == 0) anyU = true; else allU = false; }
      if (anyU && !allU) o = S.mem.wr(id);
    }
    return loadRaw(o, off, n);
  }
  std::vector<uint64_t> offs;
  if (!feasibleOffsets(S, so, offs, 96)) {
    Val h; h.k = K_BV; h.w = 32; h.e = so;
    off = concretize(S, h, "load offset", 256);
    return loadRaw(S.mem.wr(id), off, n);
  }
  Val acc; bool first = true, isF = false;
  std::vector<std::pair<uint64_t, Val>> vs;
  for (uint64_t k : offs) { Val v = loadRaw(S.mem.wr(id), k, n); if (v.k == K_FS || v.k == K_FC) isF = true; vs.push_back({k, v}); }
  if (vs.empty()) throw PathEnd();
  Z3_ast e = nullptr;
  for (auto& kv : vs) {
    Z3_ast x;
    if (isF) x = asF(toF(kv.second, n * 8));
    else if (kv.second.k == K_UNDEF) x = fresh(n * 8, "uninit").e;
    else x = asBV(kv.second);
    e = e ? Z3_mk_ite(C, Z3_mk_eq(C, so, bvn(kv.first, 32)), x, e) : x;
  }
  (void)first; (void)acc;
  return isF ? mkF(e, n * 8) : BV(e, n * 8);
}

static void storeMem(State& S, const Val& p, const Val& v, uint32_t n) {
  uint64_t off; Z3_ast so;
  uint32_t id = resolveObj(S, p, n, true, off, so, "write");
  if (optRace) raceAccess(S, id, so ? 0 : off, n, true);
  if (!so) { putVal(S.mem.wr(id), off, v, n); return; }
  std::vector<uint64_t> offs;
  if (!feasibleOffsets(S, so, offs, 64)) {
    Val h; h.k = K_BV; h.w = 32; h.e = so;
    off = concretize(S, h, "store offset", 256);
    putVal(S.mem.wr(id), off, v, n);
    return;
  }
  Obj* o = S.mem.wr(id);
  for (uint64_t k : offs) {
    Val old = loadRaw(o, k, n);
    Z3_ast c = Z3_mk_eq(C, so, bvn(k, 32));
    if (v.k == K_FS || v.k == K_FC || old.k == K_FS || old.k == K_FC) putVal(o, k, mkF(Z3_mk_ite(C, c, asF(toF(v, n * 8)), asF(toF(old, n * 8))), n * 8), n);
    else if (old.k == K_UNDEF) putVal(o, k, BV(Z3_mk_ite(C, c, asBV(v), fresh(n * 8, "uninit").e), n * 8), n);
    else {
      Val vv = v; if (vv.w != n * 8 && vv.k == K_BV) vv = vv.w == 1 ? BV(Z3_mk_ite(C, vv.e, bvn(1, n * 8), bvn(0, n * 8)), n * 8) : BV(Z3_mk_zero_ext(C, n * 8 - vv.w, vv.e), n * 8);
      if (vv.k == K_INT) vv.w = n * 8;
      putVal(o, k, BV(Z3_mk_ite(C, c, asBV(vv), asBV(old)), n * 8), n);
    }
  }
}

static void memCopy(State& S, const Val& d, const Val& s, uint64_t n) {
  if (n == 0) return;
  if (n > (1u << 30)) errorIf(S, Z3_mk_true(C), "memory-safety: copy of a huge range", "memory");
  uint64_t so, dd; Z3_ast x;
  uint32_t sid = resolveObj(S, s, n, false, so, x, "read");
  if (x) { Val h; h.k = K_BV; h.w = 32; h.e = x; so = concretize(S, h, "memcpy source", 64); }
  uint32_t did = resolveObj(S, d, n, true, dd, x, "write");
  if (x) { Val h; h.k = K_BV; h.w = 32; h.e = x; dd = concretize(S, h, "memcpy destination", 64); }
  if (optRace) { raceAccess(S, sid, so, n, false); raceAccess(S, did, dd, n, true); }
  // gather
  std::vector<uint8_t> b(n), m(n);
  std::vector<std::pair<uint32_t, Cell>> cells;
  {
    Obj* o = S.mem.get(sid);
    if (!o->cells.empty()) {
      // split straddling cells
      bool need = false;
      for (uint64_t e : {so, so + n}) {
        auto it = o->cells.upper_bound(e);
        if (it != o->cells.begin()) { --it; if (it->first < e && it->first + it->second.size > e) need = true; }
      }
      if (need) {
        o = S.mem.wr(sid);
        for (uint64_t e : {so, so + n}) {
          auto it = o->cells.upper_bound(e);
          if (it != o->cells.begin()) { --it; if (it->first < e && it->first + it->second.size > e) splitCell(o, it->first); }
        }
      }
      for (auto it = o->cells.lower_bound(so); it != o->cells.end() && it->first < so + n; ++it) cells.push_back({it->first - (uint32_t)so, it->second});
    }
    memcpy(b.data(), o->b.data() + so, n);
    memcpy(m.data(), o->m.data() + so, n);
  }
  Obj* o = S.mem.wr(did);
  clearRange(o, dd, n);
  memcpy(o->b.data() + dd, b.data(), n);
  memcpy(o->m.data() + dd, m.data(), n);
  for (auto& c : cells) o->cells[dd + c.first] = c.second;
}
static void memSet(State& S, const Val& d, const Val& v, uint64_t n) {
  if (n == 0) return;
  uint64_t dd; Z3_ast x;
  uint32_t did = resolveObj(S, d, n, true, dd, x, "write");
  if (x) { Val h; h.k = K_BV; h.w = 32; h.e = x; dd = concretize(S, h, "memset destination", 64); }
  if (optRace) raceAccess(S, did, dd, n, true);
  Obj* o = S.mem.wr(did);
  clearRange(o, dd, n);
  if (v.k == K_INT) { memset(o->b.data() + dd, (int)v.c, n); memset(o->m.data() + dd, 1, n); }
  else for (uint64_t i = 0; i < n; ++i) putVal(o, dd + i, v, 1);
}
static std::string cstr(State& S, uint64_t p, size_t max = 4096) {
  std::string s;
  uint32_t id = p >> 32; uint64_t off = p & 0xffffffff;
  Obj* o = S.mem.get(id);
  if (!o) return "";
  for (; off < o->size && s.size() < max; ++off) {
    if (o->m[off] != 1) { s += '?'; continue; }
    if (!o->b[off]) break;
    s += (char)o->b[off];
  }
  return s;
}
