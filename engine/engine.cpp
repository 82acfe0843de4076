#include "engine.h"
#include <llvm/Demangle/Demangle.h>
#include <dlfcn.h>
#include <cstdio>
#include <algorithm>

namespace vx {
std::string demangle(const std::string& s) { return llvm::demangle(s); }

Engine::Engine(Module& m) : M(m), DL(m.getDataLayout()) { setupHandlers(); }

// ---------------------------------------------------------------- types
unsigned Engine::leaves(Type* t) {
  if (t->isVoidTy()) return 0;
  if (auto* st = dyn_cast<StructType>(t)) { unsigned n = 0; for (Type* e : st->elements()) n += leaves(e); return n; }
  if (auto* at = dyn_cast<ArrayType>(t)) return at->getNumElements() * leaves(at->getElementType());
  if (auto* vt = dyn_cast<FixedVectorType>(t)) return vt->getNumElements() * leaves(vt->getElementType());
  return 1;
}
void Engine::leafInfo(Type* t, uint64_t off, std::vector<unsigned>& w, std::vector<uint64_t>& o) {
  if (t->isVoidTy()) return;
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL.getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) leafInfo(st->getElementType(i), off + sl->getElementOffset(i), w, o); return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t sz = DL.getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) leafInfo(at->getElementType(), off + i * sz, w, o); return; }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    uint64_t bits = DL.getTypeSizeInBits(vt->getElementType());
    uint64_t sz = (bits + 7) / 8;
    for (uint64_t i = 0; i < vt->getNumElements(); i++) leafInfo(vt->getElementType(), off + i * sz, w, o); return; }
  unsigned bits = DL.getTypeSizeInBits(t);
  w.push_back(bits); o.push_back(off);
}

// ---------------------------------------------------------------- globals
uint64_t Engine::globalAddr(const GlobalValue* g) {
  if (auto* al = dyn_cast<GlobalAlias>(g)) {
    APInt off(64, 0);
    const Value* v = al->getAliasee()->stripAndAccumulateConstantOffsets(DL, off, true);
    return globalAddr(cast<GlobalValue>(v)) + off.getZExtValue();
  }
  auto it = gaddr.find(g);
  if (it != gaddr.end()) return it->second;
  if (auto* f = dyn_cast<Function>(g)) {
    uint64_t a = nextF; nextF += 16; faddr[a] = f; faddrRev[f] = a; gaddr[g] = a; return a;
  }
  auto* gv = cast<GlobalVariable>(g);
  uint64_t sz = gv->getValueType()->isSized() ? DL.getTypeAllocSize(gv->getValueType()) : 8;
  if (!gv->hasInitializer()) sz = std::max<uint64_t>(sz, 256);
  nextG = (nextG + 63) & ~63ull;
  uint64_t a = nextG; nextG += sz + 64;
  gaddr[g] = a; gvars[a] = gv;
  return a;
}
uint64_t Engine::globalByName(const std::string& n) {
  if (auto* g = M.getNamedValue(n)) return globalAddr(g);
  return 0;
}
const Function* Engine::funcAt(uint64_t a) { auto it = faddr.find(a); return it == faddr.end() ? nullptr : it->second; }

void Engine::constLeaves(const Constant* c, std::vector<Val>& out) {
  Val v;
  if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) throw EngineError{"integer constant wider than 64 bits"}; v.c = ci->getZExtValue(); out.push_back(v); return; }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt b = cf->getValueAPF().bitcastToAPInt(); if (b.getBitWidth() > 64) v.c = 0; else v.c = b.getZExtValue(); out.push_back(v); return; }
  if (isa<ConstantPointerNull>(c)) { out.push_back(v); return; }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { unsigned n = leaves(c->getType()); for (unsigned i = 0; i < n; i++) out.push_back(v); return; }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) { for (auto& op : ca->operands()) constLeaves(cast<Constant>(op), out); return; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) constLeaves(cd->getElementAsConstant(i), out); return; }
  if (auto* g = dyn_cast<GlobalValue>(c)) { v.c = globalAddr(g); out.push_back(v); return; }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    std::vector<Val> k;
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        const auto* gep = cast<GEPOperator>(ce);
        if (!gep->accumulateConstantOffset(DL, off)) throw EngineError{"constant gep"};
        constLeaves(ce->getOperand(0), k); v.c = k[0].c + off.getZExtValue(); out.push_back(v); return; }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::Trunc: {
        constLeaves(ce->getOperand(0), k); v.c = k[0].c & maskOf(std::min<unsigned>(64, DL.getTypeSizeInBits(ce->getType()))); out.push_back(v); return; }
      case Instruction::Add: case Instruction::Sub: case Instruction::Xor: case Instruction::Mul: {
        constLeaves(ce->getOperand(0), k); constLeaves(ce->getOperand(1), k); unsigned w = DL.getTypeSizeInBits(ce->getType());
        Op op = ce->getOpcode() == Instruction::Add ? ADD : ce->getOpcode() == Instruction::Sub ? SUB : ce->getOpcode() == Instruction::Mul ? MUL : XOR;
        out.push_back(fromE(mkBin(op, mkConst(k[0].c, w), mkConst(k[1].c, w)))); return; }
      case Instruction::ICmp: {
        constLeaves(ce->getOperand(0), k); constLeaves(ce->getOperand(1), k);
        out.push_back(icmp((CmpInst::Predicate)ce->getPredicate(), k[0], k[1], DL.getTypeSizeInBits(ce->getOperand(0)->getType()))); return; }
      default: throw EngineError{"constant expression " + std::string(ce->getOpcodeName())};
    }
  }
  throw EngineError{"unsupported constant"};
}

void Engine::initConst(Obj& o, uint64_t off, const Constant* c) {
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto* cds = dyn_cast<ConstantDataSequential>(c)) {
    StringRef raw = cds->getRawDataValues();
    memcpy(&o.bytes[off], raw.data(), raw.size());
    return;
  }
  std::vector<unsigned> w; std::vector<uint64_t> offs; std::vector<Val> vs;
  leafInfo(c->getType(), off, w, offs);
  constLeaves(c, vs);
  for (size_t i = 0; i < vs.size(); i++) for (unsigned b = 0; b < (w[i] + 7) / 8 && b < 8; b++) o.bytes[offs[i] + b] = vs[i].c >> (8 * b);
}

// ---------------------------------------------------------------- memory
ObjP Engine::alloc(uint64_t size, const std::string& name, bool heap, bool zero) {
  if (size > (1ull << 28)) fail("memory", "allocation of " + std::to_string(size) + " bytes");
  auto o = std::make_shared<Obj>();
  S->nextAddr = (S->nextAddr + 63) & ~63ull;
  o->base = S->nextAddr; o->size = size; S->nextAddr += size + 64;
  o->name = name; o->heap = heap;
  o->bytes.assign(size, 0);
  if (!zero) o->undef.assign(size, 1);
  S->mem[o->base] = o;
  return o;
}
Obj* Engine::find(uint64_t addr) {
  auto it = S->mem.upper_bound(addr);
  if (it != S->mem.begin()) {
    --it;
    Obj* o = it->second.get();
    if (addr >= o->base && addr < o->base + std::max<uint64_t>(o->size, 1)) return o;
  }
  auto gi = gvars.upper_bound(addr);
  if (gi != gvars.begin()) {
    --gi;
    auto* gv = gi->second;
    uint64_t sz = gv->getValueType()->isSized() ? (uint64_t)DL.getTypeAllocSize(gv->getValueType()) : 8;
    if (!gv->hasInitializer()) sz = std::max<uint64_t>(sz, 256);
    if (addr < gi->first + std::max<uint64_t>(sz, 1) && !S->mem.count(gi->first)) {
      auto o = std::make_shared<Obj>();
      o->base = gi->first; o->size = sz; o->bytes.assign(sz, 0); o->name = gv->getName().str();
      o->ro = gv->isConstant() && gv->hasInitializer();
      if (gv->hasInitializer()) initConst(*o, 0, gv->getInitializer());
      else if (o->name.rfind("_ZTI", 0) == 0) { // type information emitted in libstdc++: {vtable, name}
        uint64_t& na = tiNames[o->name];
        if (!na) { nextG = (nextG + 63) & ~63ull; na = nextG; nextG += o->name.size() + 64; }
        if (!S->mem.count(na)) { auto s = std::make_shared<Obj>(); s->base = na; s->size = o->name.size(); s->name = "type name"; s->ro = true; s->bytes.assign(s->size, 0); memcpy(s->bytes.data(), o->name.c_str() + 4, o->name.size() - 4); S->mem[na] = s; }
        for (int i = 0; i < 8; i++) o->bytes[8 + i] = na >> (8 * i);
      }
      S->mem[o->base] = o;
      return o.get();
    }
  }
  return nullptr;
}
Obj* Engine::findW(uint64_t addr) {
  Obj* o = find(addr);
  if (!o) return nullptr;
  auto& p = S->mem[o->base];
  if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
  return p.get();
}
E Engine::readByteE(Obj* o, uint64_t off) {
  if (!o->undef.empty() && o->undef[off]) {
    // never-written byte: an arbitrary value, fixed from now on
    Obj* wo = findW(o->base);
    wo->undef[off] = 0;
    if (wo->sym.empty()) wo->sym.assign(wo->size, SB());
    wo->sym[off] = SB{mkVar("uninit" + std::to_string(uninitCnt++), 8), 0};
    return wo->sym[off].e;
  }
  if (!o->sym.empty() && o->sym[off]) return mkExtract(o->sym[off].e, 8 * o->sym[off].i, 8);
  return mkConst(o->bytes[off], 8);
}
Val Engine::loadAt(Obj* o, uint64_t off, unsigned w) {
  unsigned n = (w + 7) / 8;
  if (w > 64) {
    if (w == 80) { Val z; return z; }
    throw EngineError{"load wider than 64 bits"};
  }
  bool sym = false;
  if (!o->undef.empty()) for (unsigned i = 0; i < n; i++) if (o->undef[off + i]) sym = true;
  if (!sym && !o->sym.empty()) for (unsigned i = 0; i < n; i++) if (o->sym[off + i]) { sym = true; break; }
  Val v;
  if (!sym) { for (unsigned i = 0; i < n; i++) v.c |= (uint64_t)o->bytes[off + i] << (8 * i); v.c &= maskOf(w); return v; }
  uint64_t base = o->base;
  if (!o->undef.empty()) {
    bool all = true;
    for (unsigned i = 0; i < n; i++) if (!o->undef[off + i]) all = false;
    if (all && n > 1) { // one variable for the whole never-written word
      Obj* wo = findW(base);
      E var = mkVar("uninit" + std::to_string(uninitCnt++), 8 * n);
      if (wo->sym.empty()) wo->sym.assign(wo->size, SB());
      for (unsigned i = 0; i < n; i++) { wo->undef[off + i] = 0; wo->sym[off + i] = SB{var, (uint8_t)i}; }
      return fromE(mkExtract(var, 0, w));
    }
  }
  if (!o->sym.empty() && o->sym[off] && (o->undef.empty() || !o->undef[off])) { // all bytes of one stored value
    E x = o->sym[off].e; unsigned b = o->sym[off].i; bool ok = 8 * (b + n) <= x->w;
    for (unsigned i = 1; i < n && ok; i++) ok = (o->undef.empty() || !o->undef[off + i]) && o->sym[off + i].e == x && o->sym[off + i].i == b + i;
    if (ok) return fromE(mkExtract(x, 8 * b, w));
  }
  E e = readByteE(o, off);
  for (unsigned i = 1; i < n; i++) { o = find(base); e = mkConcat(readByteE(o, off + i), e); }
  if (w < 8 * n) e = mkExtract(e, 0, w);
  return fromE(e);
}
void Engine::storeAt(Obj* o, uint64_t off, const Val& v, unsigned w) {
  unsigned n = (w + 7) / 8;
  if (w > 64) { if (w == 80) return; throw EngineError{"store wider than 64 bits"}; }
  if (!o->undef.empty()) for (unsigned i = 0; i < n; i++) o->undef[off + i] = 0;
  if (!v.e) {
    uint64_t c = v.c & maskOf(w);
    for (unsigned i = 0; i < n; i++) o->bytes[off + i] = c >> (8 * i);
    if (!o->sym.empty()) for (unsigned i = 0; i < n; i++) o->sym[off + i] = SB();
    return;
  }
  if (o->sym.empty()) o->sym.assign(o->size, SB());
  E e = v.e;
  if (w < 8 * n) e = mkZext(e, 8 * n);
  if (e->isConst()) { storeAt(o, off, Val{e->aux, nullptr}, 8 * n); return; }
  for (unsigned i = 0; i < n; i++) {
    o->sym[off + i] = SB{e, (uint8_t)i};
  }
}
void Engine::access(Obj* o, uint64_t off, uint64_t n, bool write, bool atomic) {
  if (!S->phaseOn || S->cur == 0 || !raceCheck) return;
  if (o->owner == S->cur || o->ro) return;
  auto& a = T().acc[o->base];
  if (a.f.size() < o->size) a.f.resize(o->size, 0);
  uint8_t bit = atomic ? (write ? 8 : 4) : (write ? 2 : 1);
  for (uint64_t i = 0; i < n && off + i < o->size; i++) a.f[off + i] |= bit;
}
bool Engine::conflict(Thread&, Thread&, std::map<uint64_t, AccBits>& A, std::map<uint64_t, AccBits>& B, size_t i, size_t j) {
  for (auto& kv : A) {
    auto it = B.find(kv.first);
    if (it == B.end()) continue;
    size_t n = std::min(kv.second.f.size(), it->second.f.size());
    for (size_t b = 0; b < n; b++) {
      uint8_t x = kv.second.f[b], y = it->second.f[b];
      bool conf = ((x & 2) && y) || ((y & 2) && x) || ((x & 8) && (y & 3)) || ((y & 8) && (x & 3));
      if (conf) {
        Obj* o = find(kv.first);
        S->cur = T().fr.empty() ? S->cur : S->cur;
        fail("race", "unsynchronised conflicting accesses by team threads " + std::to_string(i - 1) + " and " + std::to_string(j - 1) + " to byte " + std::to_string(b) + " of " + (o ? o->name : "object"));
      }
    }
  }
  return false;
}
// threads of one team: conflicting accesses since the last barrier
void Engine::checkRaces(int g) {
  auto& th = S->th;
  if (raceCheck && !lockMode)
    for (size_t i = 1; i < th.size(); i++) if (th[i].group == g)
      for (size_t j = i + 1; j < th.size(); j++) if (th[j].group == g) conflict(th[i], th[j], th[i].acc, th[j].acc, i, j);
  for (size_t i = 1; i < th.size(); i++) if (th[i].group == g) {
    for (auto& kv : th[i].acc) { auto& d = th[i].accAll[kv.first]; if (d.f.size() < kv.second.f.size()) d.f.resize(kv.second.f.size(), 0); for (size_t k = 0; k < kv.second.f.size(); k++) d.f[k] |= kv.second.f[k]; }
    th[i].acc.clear();
  }
}
// different teams never synchronise: conflicting accesses anywhere in the region
void Engine::checkRacesAcross() {
  auto& th = S->th;
  std::set<int> gs; for (size_t i = 1; i < th.size(); i++) gs.insert(th[i].group);
  for (int g : gs) checkRaces(g);
  if (raceCheck && !lockMode && gs.size() > 1)
    for (size_t i = 1; i < th.size(); i++) for (size_t j = i + 1; j < th.size(); j++) if (th[i].group != th[j].group) conflict(th[i], th[j], th[i].accAll, th[j].accAll, i, j);
  for (size_t i = 1; i < th.size(); i++) th[i].accAll.clear();
}

// resolve an address (possibly symbolic) to an object; off may stay symbolic
Obj* Engine::resolve(const Val& addr, uint64_t n, bool write, Val& off) {
  if (!addr.e) {
    Obj* o = write ? findW(addr.c) : find(addr.c);
    if (!o || addr.c + n > o->base + o->size) {
      char b[128]; snprintf(b, sizeof b, "%s of %llu bytes at 0x%llx", write ? "write" : "read", (unsigned long long)n, (unsigned long long)addr.c);
      std::string ex = o ? " past the end of " + o->name + " (size " + std::to_string(o->size) + ")" : (addr.c < 4096 ? " (null pointer)" : " outside any live object");
      fail("memory", std::string("invalid ") + b + ex);
    }
    if (write && o->ro) fail("memory", "write to constant " + o->name);
    off = Val{addr.c - o->base, nullptr};
    return o;
  }
  E a = ctx(addr.e);
  // pointer selected by a condition: fork on it
  while (a->op == ITE) { a = decide(a->k[0]) ? a->k[1] : a->k[2]; }
  if (a->isConst()) return resolve(Val{a->aux, nullptr}, n, write, off);
  for (;;) {
    Model m; if (S->model) m = *S->model;
    std::optional<uint64_t> v;
    if (S->model) v = evalExpr(a, m);
    if (!v) {
      // ask for any value
      Model mm; Res r = solver.checkAll(S->pc, &mm);
      if (r == Res::SAT) { v = evalExpr(a, mm); }
      if (!v) { incomplete = true; incompleteWhy = "address resolution"; throw PathEnd(); }
    }
    Obj* o = find(*v);
    if (!o || *v + n > o->base + o->size) {
      // this very value is an invalid access: report with that value
      E bad = mkEq(a, mkConst(*v, 64));
      Model mm = S->model ? *S->model : Model();
      if (solver.check(S->pc, bad, &mm, true) == Res::SAT) {
        report("memory", std::string("invalid symbolic ") + (write ? "write" : "read") + (o ? " past the end of " + o->name : " outside any live object"), &mm, *S, bad);
      }
      // continue with the remaining values only
      E nb = mkNot(bad);
      if (!decide(nb)) throw PathEnd();
      continue;
    }
    E in = mkBoolAnd(mkBin(ULE, mkConst(o->base, 64), a), mkBin(ULE, a, mkConst(o->base + o->size - n, 64)));
    uint64_t ob = o->base;
    if (!decide(in)) continue; // other objects
    o = write ? findW(ob) : find(ob);
    if (write && o->ro) fail("memory", "write to constant " + o->name);
    off = fromE(mkBin(SUB, a, mkConst(o->base, 64)));
    return o;
  }
}

Val Engine::load(const Val& addr, unsigned w) {
  unsigned n = (w + 7) / 8;
  Val off;
  Obj* o = resolve(addr, n, false, off);
  if (!off.e) { access(o, off.c, n, false, atomicCtx); return loadAt(o, off.c, w); }
  access(o, 0, o->size, false, atomicCtx);
  uint64_t ob = o->base;
  // symbolic offset: if-then-else over feasible positions
  if (o->size / n > 512) { uint64_t v = concretize(addr, 64); return load(Val{v, nullptr}, w); }
  uint64_t step = 1;
  if (n > 1) {
    E rem = mkBin(AND, off.e, mkConst(n - 1, 64));
    if ((n & (n - 1)) == 0) {
      E mis = mkNot(mkEq(rem, mkConst(0, 64)));
      if (mis->isConst() ? mis->aux == 0 : solver.check(S->pc, mis, nullptr, false) == Res::UNSAT) step = n;
    }
  }
  E r = nullptr;
  for (uint64_t p = 0; p + n <= o->size; p += step) {
    o = find(ob);
    Val x = loadAt(o, p, w);
    E xe = toE(x, w);
    if (!r) r = xe;
    else r = mkIte(mkEq(off.e, mkConst(p, 64)), xe, r);
  }
  return fromE(r);
}
void Engine::store(const Val& addr, const Val& v, unsigned w) {
  unsigned n = (w + 7) / 8;
  Val off;
  Obj* o = resolve(addr, n, true, off);
  if (!off.e) {
    bool silent = false;
    if (raceBenign && S->phaseOn && S->cur != 0 && w <= 64) { bool un = false; if (!o->undef.empty()) for (unsigned i = 0; i < n; i++) un |= o->undef[off.c + i]; if (!un) { Val x = loadAt(o, off.c, w); silent = x.e == v.e && x.c == (v.c & maskOf(w)); } }
    if (!silent) access(o, off.c, n, true, atomicCtx);
    storeAt(o, off.c, v, w); return; }
  access(o, 0, o->size, true, atomicCtx);
  uint64_t step = 1;
  if (n > 1 && (n & (n - 1)) == 0) {
    E mis = mkNot(mkEq(mkBin(AND, off.e, mkConst(n - 1, 64)), mkConst(0, 64)));
    if (mis->isConst() ? mis->aux == 0 : solver.check(S->pc, mis, nullptr, false) == Res::UNSAT) step = n;
  }
  if (o->size / step > 512 || (step == 1 && n > 1)) { uint64_t a = concretize(addr, 64); store(Val{a, nullptr}, v, w); return; }
  uint64_t ob = o->base;
  for (uint64_t p = 0; p + n <= o->size; p += step) {
    o = findW(ob);
    E old = toE(loadAt(o, p, w), w);
    o = findW(ob);
    storeAt(o, p, fromE(mkIte(mkEq(off.e, mkConst(p, 64)), toE(v, w), old)), w);
  }
}
void Engine::memcpyv(const Val& d, const Val& s, uint64_t n) {
  if (n == 0) return;
  Val so, dof;
  uint64_t sa = s.e ? concretize(s, 64) : s.c, da = d.e ? concretize(d, 64) : d.c;
  Obj* src = resolve(Val{sa, nullptr}, n, false, so);
  Obj* dst = resolve(Val{da, nullptr}, n, true, dof);
  src = find(sa);
  access(src, so.c, n, false, atomicCtx); access(dst, dof.c, n, true, atomicCtx);
  std::vector<uint8_t> b(src->bytes.begin() + so.c, src->bytes.begin() + so.c + n);
  std::vector<SB> sy; if (!src->sym.empty()) sy.assign(src->sym.begin() + so.c, src->sym.begin() + so.c + n);
  std::vector<uint8_t> un; if (!src->undef.empty()) un.assign(src->undef.begin() + so.c, src->undef.begin() + so.c + n);
  std::copy(b.begin(), b.end(), dst->bytes.begin() + dof.c);
  if (!sy.empty()) { if (dst->sym.empty()) dst->sym.assign(dst->size, SB()); std::copy(sy.begin(), sy.end(), dst->sym.begin() + dof.c); }
  else if (!dst->sym.empty()) std::fill(dst->sym.begin() + dof.c, dst->sym.begin() + dof.c + n, SB());
  if (!un.empty()) { if (dst->undef.empty()) dst->undef.assign(dst->size, 0); std::copy(un.begin(), un.end(), dst->undef.begin() + dof.c); }
  else if (!dst->undef.empty()) std::fill(dst->undef.begin() + dof.c, dst->undef.begin() + dof.c + n, 0);
}
std::string Engine::cstr(uint64_t a, size_t max) {
  std::string r;
  for (size_t i = 0; i < max; i++) {
    Val v = load(Val{a + i, nullptr}, 8);
    if (v.e) { r += '?'; if (r.size() > 200) break; continue; }
    if (!v.c) break;
    r += (char)v.c;
  }
  return r;
}

// ---------------------------------------------------------------- decisions
void Engine::addPC(State& s, E c) {
  if (c->isConst()) return;
  if (c->op == AND && c->w == 1) { addPC(s, c->k[0]); addPC(s, c->k[1]); return; }
  if (s.pcs.insert(c->id).second) s.pc.push_back(c);
}
E Engine::ctxRec(E e) {
  if (e->isConst() || e->op == VAR || e->w == 0) return e;
  if (e->w == 1) { if (S->pcs.count(e->id)) return mkConst(1, 1); if (S->pcs.count(mkNot(e)->id)) return mkConst(0, 1); }
  auto it = ctxMemo.find(e->id); if (it != ctxMemo.end()) return it->second;
  if (!ctxBudget) return e;
  ctxBudget--;
  E r = e;
  if (e->op == ITE) { E c = ctxRec(e->k[0]); if (c->isConst()) r = ctxRec(e->k[c->aux ? 1 : 2]); else { E a = ctxRec(e->k[1]), b = ctxRec(e->k[2]); if (c != e->k[0] || a != e->k[1] || b != e->k[2]) r = mkIte(c, a, b); } }
  else { std::vector<E> k; bool ch = false; for (E x : e->k) { k.push_back(ctxRec(x)); ch |= k.back() != x; } if (ch) r = rebuild(e, k); }
  ctxMemo[e->id] = r;
  return r;
}
E Engine::ctx(E e) {
  if (e->isConst()) return e;
  if (ctxPath != paths || ctxN != S->pcs.size()) { ctxMemo.clear(); ctxPath = paths; ctxN = S->pcs.size(); }
  ctxBudget = 4000;
  E r = ctxRec(e);
  if (!ctxBudget) { ctxMemo.clear(); return e; }
  return r;
}
bool Engine::decide(E c) {
  if (c->isConst()) return c->aux;
  if (S->pcs.count(c->id)) return true;
  E nc = mkNot(c);
  if (S->pcs.count(nc->id)) return false;
  { E k = ctx(c); if (k->isConst()) return k->aux; }
  Res rt = Res::UNKNOWN, rf = Res::UNKNOWN; Model mt, mf; bool hmt = false, hmf = false;
  std::optional<uint64_t> v;
  if (S->model) v = evalExpr(c, *S->model);
  if (v && *v) { rt = Res::SAT; mt = *S->model; hmt = true; }
  else if (v) { rf = Res::SAT; mf = *S->model; hmf = true; }
  if (rt != Res::SAT) { mt = S->model ? *S->model : Model(); rt = solver.check(S->pc, c, &mt, true); hmt = rt == Res::SAT && S->model; }
  if (rt == Res::UNSAT) { if (rf != Res::SAT) { /* current path is feasible, so !c holds */ } S->pcs.insert(nc->id); return false; }
  if (rf != Res::SAT) { mf = S->model ? *S->model : Model(); rf = solver.check(S->pc, nc, &mf, true); hmf = rf == Res::SAT && S->model; }
  if (rf == Res::UNSAT) { S->pcs.insert(c->id); return true; }
  // both possible: the clone takes the false side
  forks++;
  auto clone = std::make_unique<State>(*S);
  addPC(*clone, nc);
  clone->depth++;
  auto setModel = [&](State& s, bool h, Model& m) {
    if (!h) { // no complete model known: try to get one
      s.model = nullptr; return; }
    // verify (uninterpreted functions are evaluated with a fixed interpretation)
    for (E p : s.pc) { auto r = evalExpr(p, m); if (!r || !*r) { s.model = nullptr; return; } }
    s.model = std::make_shared<Model>(m);
  };
  bool touchF = rf == Res::SAT, touchT = rt == Res::SAT;
  if (touchF) setModel(*clone, hmf, mf); else clone->model = nullptr;
  addPC(*S, c);
  S->depth++;
  if (touchT) setModel(*S, hmt, mt); else S->model = nullptr;
  work.push_back(std::move(clone));
  return true;
}
uint64_t Engine::concretize(const Val& v, unsigned w) {
  if (!v.e) return v.c;
  for (;;) {
    std::optional<uint64_t> x;
    if (S->model) x = evalExpr(v.e, *S->model);
    if (!x) {
      Model mm; std::map<uint32_t, double> rv;
      std::vector<E> pc = S->pc;
      Res r = solver.checkAll(pc, &mm);
      if (r == Res::SAT) x = evalExpr(v.e, mm);
      if (!x) { // tie the value to a fresh variable so that the model defines it
        E fv = mkVar("conc" + std::to_string(v.e->id), w);
        pc.push_back(mkEq(fv, v.e));
        r = solver.checkAll(pc, &mm);
        if (r == Res::SAT) x = mm.get(fv->aux) & maskOf(w);
      }
      if (!x) { incomplete = true; incompleteWhy = "concretization: solver gave no value"; throw PathEnd(); }
    }
    if (decide(mkEq(v.e, mkConst(*x, w)))) return *x;
  }
}
std::string Engine::where() {
  std::string r;
  if (!S || T().fr.empty()) return r;
  Frame& f = F();
  const Instruction* I = f.kf->insts[std::min<size_t>(f.pc, f.kf->insts.size() - 1)].I;
  if (auto dl = I->getDebugLoc()) { r = dl->getFilename().str() + ":" + std::to_string(dl.getLine()); }
  else r = f.kf->F->getName().str();
  return r;
}
void Engine::report(const std::string& kind, const std::string& msg, const Model* m, State& s, E cond) {
  for (auto& v : viol) if (v.kind == kind && v.msg == msg) return;
  if (viol.size() >= maxViol) return;
  Violation v; v.kind = kind; v.msg = msg; v.loc = where(); v.trace = s.trace;
  if (cond) v.cond = toStr(cond, 8);
  for (auto it = T().fr.rbegin(); it != T().fr.rend(); ++it) {
    const Instruction* I = it->kf->insts[std::min<size_t>(it->pc, it->kf->insts.size() - 1)].I;
    std::string l = demangle(it->kf->F->getName().str());
    if (auto dl = I->getDebugLoc()) {
      l += " at " + dl->getFilename().str() + ":" + std::to_string(dl.getLine());
      for (DILocation* ia = dl->getInlinedAt(); ia; ia = ia->getInlinedAt()) l += " < " + ia->getFilename().str() + ":" + std::to_string(ia->getLine());
    }
    v.stack.push_back(l);
    if (v.stack.size() > 12) break;
  }
  for (auto& in : s.inputs) {
    std::vector<std::pair<unsigned, uint64_t>> vals;
    for (E e : in.vars) { uint64_t x = 0; if (e->isConst()) x = e->aux; else if (m) x = m->get(e->aux) & maskOf(e->w); vals.push_back({in.elem, x}); }
    v.inputs.push_back({in.name, vals});
  }
  viol.push_back(std::move(v));
}
void Engine::fail(const std::string& kind, const std::string& msg) {
  // the current path is feasible by construction, unless an earlier query was undecided
  Model mm = S->model ? *S->model : Model();
  bool ok = S->model != nullptr;
  if (!ok) { Res r = solver.checkAll(S->pc, &mm); if (r == Res::UNSAT) throw PathEnd(); if (r == Res::UNKNOWN) { incomplete = true; incompleteWhy = "solver undecided on a failing path: " + msg; throw PathEnd(); } }
  report(kind, msg, &mm, *S, nullptr);
  throw PathEnd();
}
void Engine::check(E cond, const std::string& kind, const std::string& msg) {
  asserts++;
  if (cond->isConst()) { if (cond->aux) { assertsProved++; return; } fail(kind, msg); }
  if (S->pcs.count(cond->id)) { assertsProved++; return; }
  cond = ctx(cond);
  if (cond->isConst()) { if (cond->aux) { assertsProved++; return; } fail(kind, msg); }
  E nc = mkNot(cond);
  Model mm = S->model ? *S->model : Model();
  assertQueries++;
  Res r = Res::UNKNOWN;
  if (S->model) { auto v = evalExpr(nc, *S->model); if (v && *v) r = Res::SAT; }
  if (r != Res::SAT) { solver.direct = false; r = solver.check(S->pc, nc, &mm, true); solver.direct = true; }
  if (r == Res::UNSAT) { assertsProved++; return; }
  if (r == Res::UNKNOWN) { incomplete = true; incompleteWhy = "solver undecided on assertion: " + msg; addPC(*S, cond); return; }
  if (!S->model) { // get inputs consistent with the full path condition
    std::vector<E> pc = S->pc; pc.push_back(nc); Model m2; if (solver.checkAll(pc, &m2) == Res::SAT) mm = m2; }
  report(kind, msg, &mm, *S, nc);
  if (viol.size() >= maxViol) throw PathEnd();
  // continue on the side where it holds
  Res r2 = solver.check(S->pc, cond, nullptr, false);
  if (r2 == Res::UNSAT) throw PathEnd();
  addPC(*S, cond);
  S->model = nullptr;
}

// ---------------------------------------------------------------- compile
Opnd Engine::opnd(KFunc* kf, const Value* v, std::unordered_map<const Value*, int>& slots) {
  Opnd o{0, 1};
  auto it = slots.find(v);
  if (it != slots.end()) { o.s = it->second; o.n = leaves(v->getType()); return o; }
  if (auto* c = dyn_cast<Constant>(v)) {
    auto pi = poolIdx.find(c);
    o.n = leaves(c->getType());
    if (pi == poolIdx.end()) {
      std::vector<Val> vs; constLeaves(c, vs);
      int idx = pool.size();
      for (auto& x : vs) pool.push_back(x);
      if (vs.empty()) pool.push_back(Val());
      poolIdx[c] = idx; o.s = ~idx; return o;
    }
    o.s = ~pi->second; return o;
  }
  if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) { o.s = 0; o.n = 0; return o; }
  throw EngineError{"operand"};
}
KFunc* Engine::compile(const Function* f) {
  auto it = kfs.find(f);
  if (it != kfs.end()) return it->second.get();
  auto kfp = std::make_unique<KFunc>();
  KFunc* kf = kfp.get(); kf->F = f;
  std::unordered_map<const Value*, int> slots;
  unsigned n = 0;
  for (auto& a : f->args()) { slots[&a] = n; unsigned l = leaves(a.getType()); kf->args.push_back({(int)n, l}); n += l; }
  for (auto& bb : *f) for (auto& I : bb) { if (!I.getType()->isVoidTy()) { slots[&I] = n; n += leaves(I.getType()); } }
  kf->nslots = n;
  for (auto& bb : *f) {
    kf->bbStart[&bb] = kf->insts.size();
    for (auto& I : bb) {
      if (isa<PHINode>(I)) continue;
      if (isa<DbgInfoIntrinsic>(I)) continue;
      KInst k; k.I = &I; k.opc = I.getOpcode(); k.dst = -1; k.nl = 0; k.w = 0;
      if (!I.getType()->isVoidTy()) { k.dst = slots[&I]; k.nl = leaves(I.getType()); if (k.nl >= 1 && !I.getType()->isAggregateType()) k.w = DL.getTypeSizeInBits(I.getType()->getScalarType()); }
      if (auto* cb = dyn_cast<CallBase>(&I)) {
        for (auto& a : cb->args()) k.ops.push_back(opnd(kf, a.get(), slots));
        k.callee = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
        if (!k.callee) { if (auto* al = dyn_cast<GlobalAlias>(cb->getCalledOperand())) k.callee = dyn_cast<Function>(al->getAliasee()->stripPointerCasts()); }
        k.ops.push_back(opnd(kf, cb->getCalledOperand(), slots));
      } else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
        k.ops.push_back(opnd(kf, g->getPointerOperand(), slots));
        for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
          const Value* idx = gi.getOperand();
          if (StructType* st = gi.getStructTypeOrNull()) { k.gepOff += DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
          uint64_t sz = DL.getTypeAllocSize(gi.getIndexedType());
          if (auto* ci = dyn_cast<ConstantInt>(idx)) { k.gepOff += ci->getSExtValue() * (int64_t)sz; continue; }
          k.gep.push_back({opnd(kf, idx, slots), sz, (unsigned)DL.getTypeSizeInBits(idx->getType()->getScalarType())});
        }
      } else {
        for (auto& o : I.operands()) k.ops.push_back(opnd(kf, o.get(), slots));
      }
      if (isa<LoadInst>(I)) leafInfo(I.getType(), 0, k.leafW, k.leafOff);
      if (auto* st = dyn_cast<StoreInst>(&I)) leafInfo(st->getValueOperand()->getType(), 0, k.leafW, k.leafOff);
      if (isa<CallBase>(I) || isa<SelectInst>(I) || isa<FreezeInst>(I)) if (!I.getType()->isVoidTy()) leafInfo(I.getType(), 0, k.leafW, k.leafOff);
      auto aggIdx = [&](Type* t, ArrayRef<unsigned> ids) {
        unsigned li = 0;
        for (unsigned id : ids) {
          if (auto* st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < id; i++) li += leaves(st->getElementType(i)); t = st->getElementType(id); }
          else { t = cast<ArrayType>(t)->getElementType(); li += id * leaves(t); }
        }
        return li; };
      if (auto* ev = dyn_cast<ExtractValueInst>(&I)) k.idx = aggIdx(ev->getAggregateOperand()->getType(), ev->getIndices());
      if (auto* iv = dyn_cast<InsertValueInst>(&I)) k.idx = aggIdx(iv->getAggregateOperand()->getType(), iv->getIndices());
      kf->insts.push_back(std::move(k));
    }
  }
  for (auto& bb : *f)
    for (auto& ph : bb.phis())
      for (unsigned i = 0; i < ph.getNumIncomingValues(); i++) {
        auto& e = kf->phi[{ph.getIncomingBlock(i), &bb}];
        auto mv = std::make_pair(slots[&ph], opnd(kf, ph.getIncomingValue(i), slots));
        bool dup = false; for (auto& m : e.moves) if (m.first == mv.first) dup = true;
        if (!dup) e.moves.push_back(mv);
      }
  kfs[f] = std::move(kfp);
  return kf;
}

// ---------------------------------------------------------------- arithmetic
static Op icop(unsigned opc) {
  switch (opc) {
    case Instruction::Add: return ADD; case Instruction::Sub: return SUB; case Instruction::Mul: return MUL;
    case Instruction::UDiv: return UDIV; case Instruction::SDiv: return SDIV; case Instruction::URem: return UREM; case Instruction::SRem: return SREM;
    case Instruction::And: return AND; case Instruction::Or: return OR; case Instruction::Xor: return XOR;
    case Instruction::Shl: return SHL; case Instruction::LShr: return LSHR; case Instruction::AShr: return ASHR;
    default: throw EngineError{"binop"};
  }
}
Val Engine::binop(unsigned opc, const Val& a, const Val& b, unsigned w) {
  if (w > 64) throw EngineError{"arithmetic wider than 64 bits"};
  Op op = icop(opc);
  if (op == UDIV || op == SDIV || op == UREM || op == SREM) {
    if (!b.e) { if ((b.c & maskOf(w)) == 0) fail("arith", "division by zero"); }
    else check(mkNot(mkEq(b.e, mkConst(0, w))), "arith", "division by zero");
  }
  if (!a.e && !b.e) { uint64_t k[2] = {a.c & maskOf(w), b.c & maskOf(w)}; unsigned kw[2] = {w, w}; return Val{evalOp(op, w, 0, k, kw, 2), nullptr}; }
  return fromE(mkBin(op, toE(a, w), toE(b, w)));
}
Val Engine::icmp(CmpInst::Predicate p, const Val& a, const Val& b, unsigned w) {
  if (w > 64) throw EngineError{"icmp wider than 64 bits"};
  if (!a.e && !b.e) {
    uint64_t x = a.c & maskOf(w), y = b.c & maskOf(w); int64_t sx = sext(x, w), sy = sext(y, w); bool r = false;
    switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
      case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = sx > sy; break; case CmpInst::ICMP_SGE: r = sx >= sy; break;
      case CmpInst::ICMP_SLT: r = sx < sy; break; case CmpInst::ICMP_SLE: r = sx <= sy; break; default: throw EngineError{"icmp"}; }
    return Val{r, nullptr};
  }
  E x = toE(a, w), y = toE(b, w);
  switch (p) {
    case CmpInst::ICMP_EQ: return fromE(mkEq(x, y)); case CmpInst::ICMP_NE: return fromE(mkNot(mkEq(x, y)));
    case CmpInst::ICMP_UGT: return fromE(mkBin(ULT, y, x)); case CmpInst::ICMP_UGE: return fromE(mkBin(ULE, y, x));
    case CmpInst::ICMP_ULT: return fromE(mkBin(ULT, x, y)); case CmpInst::ICMP_ULE: return fromE(mkBin(ULE, x, y));
    case CmpInst::ICMP_SGT: return fromE(mkBin(SLT, y, x)); case CmpInst::ICMP_SGE: return fromE(mkBin(SLE, y, x));
    case CmpInst::ICMP_SLT: return fromE(mkBin(SLT, x, y)); case CmpInst::ICMP_SLE: return fromE(mkBin(SLE, x, y));
    default: throw EngineError{"icmp"};
  }
}
Val Engine::fcmp(CmpInst::Predicate p, const Val& a, const Val& b, unsigned w) {
  if (w > 64) throw EngineError{"long double"};
  E x = toE(a, w), y = toE(b, w);
  auto uno = [&]() { return mkBoolOr(mkIsNan(x), mkIsNan(y)); };
  auto N = [&](E e) { return mkNot(e); };
  switch (p) {
    case CmpInst::FCMP_FALSE: return Val{0, nullptr}; case CmpInst::FCMP_TRUE: return Val{1, nullptr};
    case CmpInst::FCMP_OEQ: return fromE(mkFCmp(FEQ, x, y));
    case CmpInst::FCMP_OGT: return fromE(mkFCmp(FLT, y, x)); case CmpInst::FCMP_OGE: return fromE(mkFCmp(FLE, y, x));
    case CmpInst::FCMP_OLT: return fromE(mkFCmp(FLT, x, y)); case CmpInst::FCMP_OLE: return fromE(mkFCmp(FLE, x, y));
    case CmpInst::FCMP_UNE: return fromE(N(mkFCmp(FEQ, x, y)));
    case CmpInst::FCMP_ONE: return fromE(mkBoolAnd(N(mkFCmp(FEQ, x, y)), N(uno())));
    case CmpInst::FCMP_ORD: return fromE(N(uno())); case CmpInst::FCMP_UNO: return fromE(uno());
    case CmpInst::FCMP_UEQ: return fromE(mkBoolOr(mkFCmp(FEQ, x, y), uno()));
    case CmpInst::FCMP_UGT: return fromE(N(mkFCmp(FLE, x, y))); case CmpInst::FCMP_UGE: return fromE(N(mkFCmp(FLT, x, y)));
    case CmpInst::FCMP_ULT: return fromE(N(mkFCmp(FLE, y, x))); case CmpInst::FCMP_ULE: return fromE(N(mkFCmp(FLT, y, x)));
    default: throw EngineError{"fcmp"};
  }
}
Val Engine::fpbin(unsigned opc, const Val& a, const Val& b, unsigned w) {
  if (w > 64) throw EngineError{"long double"};
  Op op = opc == Instruction::FAdd ? FADD : opc == Instruction::FSub ? FSUB : opc == Instruction::FMul ? FMUL : opc == Instruction::FDiv ? FDIV : FREM;
  if (!a.e && !b.e && gFpMode != FpMode::REAL) { uint64_t k[2] = {a.c, b.c}; unsigned kw[2] = {w, w}; return Val{evalOp(op, w, 0, k, kw, 2), nullptr}; }
  if (op == FDIV && gFpMode == FpMode::REAL) {
    // exact arithmetic: the claim is about systems where every divisor is non-zero
    E d = mkB2R(toE(b, w));
    E nz = mkNot(mkRBin(REQ, d, mkRConst(0)));
    if (nz->isConst()) { if (!nz->aux) fail("arith", "floating point division by an exact zero"); }
    else if (params.count("divassume")) { if (!S->pcs.count(nz->id)) { addPC(*S, nz); S->model = nullptr; } }
    else check(nz, "arith", "floating point division by an exact zero");
  }
  return fromE(mkFp2(op, toE(a, w), toE(b, w)));
}

// ---------------------------------------------------------------- control
void Engine::gotoBB(const BasicBlock* from, const BasicBlock* to) {
  Frame& f = F();
  auto it = f.kf->phi.find({from, to});
  if (it != f.kf->phi.end()) {
    std::vector<Val> tmp;
    for (auto& m : it->second.moves) for (unsigned i = 0; i < m.second.n; i++) tmp.push_back(R(m.second, i));
    size_t p = 0;
    for (auto& m : it->second.moves) for (unsigned i = 0; i < m.second.n; i++) f.regs[m.first + i] = tmp[p++];
  }
  f.pc = f.kf->bbStart[to];
}
void Engine::finishCall(KInst& I) {
  if (auto* inv = dyn_cast<InvokeInst>(I.I)) gotoBB(inv->getParent(), inv->getNormalDest());
  else F().pc++;
}
void Engine::pushCall(const Function* f, std::vector<Val>& args, KInst* ci) {
  KFunc* kf = compile(f);
  if (T().fr.size() > 400) fail("stack", "call stack deeper than 400 frames");
  Frame nf; nf.kf = kf; nf.regs.resize(kf->nslots);
  size_t p = 0;
  for (unsigned i = 0; i < kf->args.size(); i++)
    for (unsigned l = 0; l < kf->args[i].second; l++) { if (p < args.size()) nf.regs[kf->args[i].first + l] = args[p]; p++; }
  for (unsigned i = 0; i < kf->args.size(); i++)
    if (f->hasParamAttribute(i, Attribute::ByVal)) {
      uint64_t sz = DL.getTypeAllocSize(f->getParamByValType(i));
      auto o = alloc(sz, "byval argument", false); o->owner = S->cur;
      Val src = nf.regs[kf->args[i].first];
      memcpyv(Val{o->base, nullptr}, src, sz);
      nf.allocas.push_back(o->base);
      nf.regs[kf->args[i].first] = Val{o->base, nullptr};
    }
  if (f->isVarArg() && p < args.size()) {
    auto o = alloc((args.size() - p) * 8, "variadic arguments", false); o->owner = S->cur; uint64_t b = o->base;
    for (size_t i = p; i < args.size(); i++) store(Val{b + (i - p) * 8, nullptr}, args[i].e && args[i].e->w < 64 ? fromE(mkZext(args[i].e, 64)) : args[i], 64);
    nf.va = b; nf.allocas.push_back(b);
  }
  T().fr.push_back(std::move(nf));
}
void Engine::doRet(KInst& I) {
  std::vector<Val> rv;
  if (!I.ops.empty()) for (unsigned i = 0; i < I.ops[0].n; i++) rv.push_back(R(I.ops[0], i));
  for (uint64_t a : F().allocas) S->mem.erase(a);
  T().fr.pop_back();
  if (T().fr.empty()) { T().st = Thread::DONE; threadSwitch(); return; }
  Frame& f = F();
  KInst& c = f.kf->insts[f.pc];
  if (c.dst >= 0) for (unsigned i = 0; i < c.nl && i < rv.size(); i++) f.regs[c.dst + i] = rv[i];
  finishCall(c);
}
void Engine::threadSwitch() {
  auto& th = S->th;
  for (;;) {
    if (lockMode) { // a team proceeds as soon as all of its threads wait at the same barrier
      std::map<int, int> full; std::map<int, uint64_t> tg;
      for (size_t i = 1; i < th.size(); i++) { int g = th[i].group; if (!full.count(g)) { full[g] = 1; tg[g] = th[i].tag; } if (th[i].st != Thread::BARRIER || th[i].tag != tg[g]) full[g] = 0; }
      for (size_t i = 1; i < th.size(); i++) if (full[th[i].group]) { th[i].acc.clear(); th[i].st = Thread::READY; }
    }
    std::vector<int> ready;
    for (size_t i = 0; i < th.size(); i++) if (th[i].st == Thread::READY) ready.push_back(i);
    if (lockMode) for (int r : ready) if (r != 0 && th[r].tag != 0xA70311C) { S->cur = r; return; }
    if (!ready.empty()) {
      // prefer spawned threads in order; main (0) only when ready
      S->cur = ready[0];
      if (schedExplore && ready.size() > 1) {
        for (size_t i = 1; i < ready.size(); i++) {
          auto clone = std::make_unique<State>(*S);
          clone->cur = ready[i]; clone->trace.push_back("schedule thread " + std::to_string(ready[i] - 1));
          forks++;
          work.push_back(std::move(clone));
        }
        S->trace.push_back("schedule thread " + std::to_string(ready[0] - 1));
      }
      return;
    }
    bool anyBar = false, allDone = true;
    std::set<int> groups;
    for (size_t i = 1; i < th.size(); i++) { if (th[i].st == Thread::BARRIER) { anyBar = true; groups.insert(th[i].group); } if (th[i].st != Thread::DONE) allDone = false; }
    if (anyBar) {
      for (int g : groups) {
        uint64_t tag = 0; bool first = true;
        for (size_t i = 1; i < th.size(); i++) if (th[i].group == g) {
          if (th[i].st == Thread::DONE) { for (size_t j = 1; j < th.size(); j++) if (th[j].group == g && th[j].st == Thread::BARRIER) S->cur = j; fail("sync", "some team threads wait at a barrier that others never reach"); }
          if (first) { tag = th[i].tag; first = false; }
          else if (tag != th[i].tag) { S->cur = i; fail("sync", "team threads wait at different collective operations"); }
        }
        for (size_t i = 1; i < th.size(); i++) if (th[i].group == g) { S->cur = i; break; }
        checkRaces(g);
        for (size_t i = 1; i < th.size(); i++) if (th[i].group == g) th[i].st = Thread::READY;
      }
      continue;
    }
    if (th[0].st == Thread::JOIN && allDone) {
      S->cur = 0;
      if (S->th.size() > 1) { S->cur = 1; Frame keep; if (T().fr.empty()) { S->cur = 0; } checkRacesAcross(); S->cur = 0; }
      th.resize(1);
      th[0].st = Thread::READY; S->phaseOn = false;
      continue;
    }
    if (th[0].st == Thread::DONE) { throw PathEnd(); }
    throw EngineError{"scheduler: no runnable thread"};
  }
}
bool Engine::schedPoint() {
  // explore every interleaving at visible (atomic) operations
  if (!schedExplore || S->cur == 0 || !S->phaseOn) return true;
  Thread& t = T();
  if (t.tag == 0xA70311C) { t.tag = 0; return true; } // just been scheduled for this very operation
  if (lockMode) { t.tag = 0xA70311C; threadSwitch(); return false; } // threads run up to their next visible operation; any of them may go first
  std::vector<int> ready;
  for (size_t i = 1; i < S->th.size(); i++) if (S->th[i].st == Thread::READY) ready.push_back(i);
  t.tag = 0xA70311C;
  for (int r : ready) if (r != S->cur) {
    auto clone = std::make_unique<State>(*S);
    clone->cur = r; clone->trace.push_back("preempt at atomic by thread " + std::to_string(r - 1));
    forks++;
    work.push_back(std::move(clone));
  }
  t.tag = 0;
  return true;
}

// ---------------------------------------------------------------- exceptions
static const std::map<std::string, std::string>& stdHier() {
  static std::map<std::string, std::string> h = {
    {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt12bad_any_cast", "_ZTISt8bad_cast"},
    {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"},
    {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"},
    {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
    {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt12bad_weak_ptr", "_ZTISt9exception"}, {"_ZTISt10bad_typeid", "_ZTISt9exception"}};
  return h;
}
bool Engine::isSubtype(uint64_t t, uint64_t c) {
  if (t == c) return true;
  auto gi = gvars.find(t);
  if (gi == gvars.end()) return false;
  const GlobalVariable* g = gi->second;
  auto h = stdHier().find(g->getName().str());
  if (h != stdHier().end()) { uint64_t b = globalByName(h->second); if (b && isSubtype(b, c)) return true;
    // base may not be named in this module; walk names
    auto ci = gvars.find(c); if (ci == gvars.end()) return false;
    std::string n = h->second; std::string cn = ci->second->getName().str();
    while (true) { if (n == cn) return true; auto x = stdHier().find(n); if (x == stdHier().end()) return false; n = x->second; } }
  if (!g->hasInitializer()) return false;
  if (auto* cs = dyn_cast<ConstantStruct>(g->getInitializer())) {
    std::vector<Val> v; constLeaves(cs, v);
    if (cs->getNumOperands() == 3) return isSubtype(v[2].c, c);             // single inheritance
    if (cs->getNumOperands() > 4) { uint64_t n = v[3].c; for (uint64_t i = 0; i < n; i++) if (isSubtype(v[4 + 2 * i].c, c)) return true; }
  }
  return false;
}
void Engine::doThrow(uint64_t obj, uint64_t ti) {
  S->excTi[obj] = ti;
  T().uncaught++;
  unwind(obj, ti);
}
void Engine::unwind(uint64_t obj, uint64_t ti) {
  // find a handler frame; F() is the frame whose current instruction raised
  for (;;) {
    if (T().fr.empty()) throw EngineError{"unwind"};
    Frame& f = F();
    KInst& c = f.kf->insts[f.pc];
    if (auto* inv = dyn_cast<InvokeInst>(c.I)) {
      const LandingPadInst* lp = inv->getUnwindDest()->getLandingPadInst();
      int sel = -1;
      for (unsigned i = 0; i < lp->getNumClauses(); i++) {
        if (lp->isCatch(i)) {
          std::vector<Val> v; constLeaves(lp->getClause(i), v);
          if (v[0].c == 0 || isSubtype(ti, v[0].c)) {
            int& id = typeIds[v[0].c]; if (!id) id = typeIds.size();
            sel = id; break;
          }
        } else { sel = -2; break; }
      }
      if (sel == -2) fail("exception", "exception leaves a function with an exception specification");
      if (sel < 0 && lp->isCleanup()) sel = 0;
      if (sel >= 0) {
        gotoBB(inv->getParent(), inv->getUnwindDest());
        // execute landingpad: it is the first non-phi instruction
        KInst& l = f.kf->insts[f.pc];
        f.regs[l.dst] = Val{obj, nullptr}; f.regs[l.dst + 1] = Val{(uint64_t)sel, nullptr};
        f.pc++;
        return;
      }
    }
    for (uint64_t a : f.allocas) S->mem.erase(a);
    if (T().fr.size() == 1) {
      std::string n = "?"; auto gi = gvars.find(ti); if (gi != gvars.end()) n = demangle(gi->second->getName().str());
      std::string msg;
      try { Val p = load(Val{obj + 8, nullptr}, 64); if (!p.e && find(p.c)) msg = cstr(p.c, 300); } catch (...) {}
      fail("exception", "uncaught exception of " + n + (msg.empty() ? "" : ": " + msg));
    }
    T().fr.pop_back();
  }
}

// ---------------------------------------------------------------- main loop
void Engine::step() {
  Frame& f = F();
  KInst& I = f.kf->insts[f.pc];
  I.covered = true;
  S->steps++; steps++;
  exec(I);
}

void Engine::exec(KInst& I) {
  Frame& f = F();
  switch (I.opc) {
    case Instruction::Br: {
      auto* b = cast<BranchInst>(I.I);
      if (b->isUnconditional()) { gotoBB(b->getParent(), b->getSuccessor(0)); return; }
      Val c = R(I.ops[0]);
      bool t = c.e ? decide(c.e) : (c.c & 1);
      gotoBB(b->getParent(), b->getSuccessor(t ? 0 : 1));
      return; }
    case Instruction::Switch: {
      auto* s = cast<SwitchInst>(I.I);
      Val c = R(I.ops[0]); unsigned w = DL.getTypeSizeInBits(s->getCondition()->getType());
      for (auto& cs : s->cases()) {
        uint64_t v = cs.getCaseValue()->getZExtValue();
        bool t = c.e ? decide(mkEq(c.e, mkConst(v, w))) : (c.c & maskOf(w)) == v;
        if (t) { gotoBB(s->getParent(), cs.getCaseSuccessor()); return; }
      }
      gotoBB(s->getParent(), s->getDefaultDest());
      return; }
    case Instruction::Ret: doRet(I); return;
    case Instruction::Unreachable: fail("unreachable", "control reaches a point the compiler proved unreachable (undefined behaviour)");
    case Instruction::Resume: {
      Val o = R(I.ops[0], 0);
      auto it = S->excTi.find(o.c);
      uint64_t ti = it == S->excTi.end() ? 0 : it->second;
      // continue with the caller
      for (uint64_t a : f.allocas) S->mem.erase(a);
      if (T().fr.size() == 1) fail("exception", "uncaught exception");
      T().fr.pop_back();
      unwind(o.c, ti);
      return; }
    case Instruction::Call: case Instruction::Invoke: execCall(I); return;
    case Instruction::Alloca: {
      auto* a = cast<AllocaInst>(I.I);
      uint64_t n = concretize(R(I.ops[0]), 64);
      uint64_t sz = DL.getTypeAllocSize(a->getAllocatedType()) * n;
      auto o = alloc(sz, a->hasName() ? a->getName().str() : std::string("local"), false); o->owner = S->cur;
      F().allocas.push_back(o->base);
      F().regs[I.dst] = Val{o->base, nullptr}; F().pc++; return; }
    case Instruction::Load: {
      auto* l = cast<LoadInst>(I.I);
      if ((l->isAtomic() || (lockMode && l->isVolatile())) && !schedPoint()) return;
      atomicCtx = l->isAtomic();
      Val a = R(I.ops[0]);
      std::vector<Val> r(I.leafW.size());
      for (size_t i = 0; i < I.leafW.size(); i++) {
        Val ai = a.e ? (I.leafOff[i] ? fromE(mkBin(ADD, a.e, mkConst(I.leafOff[i], 64))) : a) : Val{a.c + I.leafOff[i], nullptr};
        r[i] = load(ai, I.leafW[i]);
      }
      atomicCtx = false;
      for (size_t i = 0; i < r.size(); i++) F().regs[I.dst + i] = r[i];
      F().pc++; return; }
    case Instruction::Store: {
      auto* st = cast<StoreInst>(I.I);
      if ((st->isAtomic() || (lockMode && st->isVolatile())) && !schedPoint()) return;
      atomicCtx = st->isAtomic();
      Val a = R(I.ops[1]);
      for (size_t i = 0; i < I.leafW.size(); i++) {
        Val ai = a.e ? (I.leafOff[i] ? fromE(mkBin(ADD, a.e, mkConst(I.leafOff[i], 64))) : a) : Val{a.c + I.leafOff[i], nullptr};
        Val v = R(I.ops[0], i);
        store(ai, v, I.leafW[i]);
      }
      atomicCtx = false;
      F().pc++; return; }
    case Instruction::GetElementPtr: {
      if (I.nl != 1) throw EngineError{"vector gep"};
      Val p = R(I.ops[0]);
      Val r;
      if (!p.e) r.c = p.c + I.gepOff; else r.e = mkBin(ADD, p.e, mkConst(I.gepOff, 64));
      for (auto& g : I.gep) {
        Val x = R(g.op);
        if (!x.e && !r.e) r.c += (uint64_t)sext(x.c, g.w) * g.scale;
        else {
          E xe = x.e ? (g.w < 64 ? mkSext(x.e, 64) : x.e) : mkConst((uint64_t)sext(x.c, g.w), 64);
          r = fromE(mkBin(ADD, toE(r, 64), mkBin(MUL, xe, mkConst(g.scale, 64))));
        }
      }
      if (r.e && r.e->isConst()) r = fromE(r.e);
      f.regs[I.dst] = r; f.pc++; return; }
    case Instruction::ICmp: {
      auto* c = cast<ICmpInst>(I.I); unsigned w = DL.getTypeSizeInBits(c->getOperand(0)->getType()->getScalarType());
      for (unsigned i = 0; i < I.nl; i++) f.regs[I.dst + i] = icmp(c->getPredicate(), R(I.ops[0], i), R(I.ops[1], i), w);
      f.pc++; return; }
    case Instruction::FCmp: {
      auto* c = cast<FCmpInst>(I.I); unsigned w = DL.getTypeSizeInBits(c->getOperand(0)->getType()->getScalarType());
      for (unsigned i = 0; i < I.nl; i++) f.regs[I.dst + i] = fcmp(c->getPredicate(), R(I.ops[0], i), R(I.ops[1], i), w);
      f.pc++; return; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
      std::vector<Val> r(I.nl);
      for (unsigned i = 0; i < I.nl; i++) r[i] = fpbin(I.opc, R(I.ops[0], i), R(I.ops[1], i), I.w);
      for (unsigned i = 0; i < I.nl; i++) f.regs[I.dst + i] = r[i];
      f.pc++; return; }
    case Instruction::FNeg: {
      for (unsigned i = 0; i < I.nl; i++) {
        Val a = R(I.ops[0], i);
        if (gFpMode == FpMode::REAL && a.e) f.regs[I.dst + i] = fromE(mkR2B(mkRBin(RSUB, mkRConst(0), mkB2R(a.e)), I.w));
        else f.regs[I.dst + i] = a.e ? fromE(mkBin(XOR, a.e, mkConst(1ull << (I.w - 1), I.w))) : Val{a.c ^ (1ull << (I.w - 1)), nullptr};
      }
      f.pc++; return; }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
    case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      if (params.count("overflow") && (I.opc == Instruction::Add || I.opc == Instruction::Sub || I.opc == Instruction::Mul) && cast<OverflowingBinaryOperator>(I.I)->hasNoSignedWrap() && I.w <= 32) {
        // signed overflow is an error for this harness
        Val a = R(I.ops[0]), b = R(I.ops[1]);
        if (a.e || b.e) {
          E x = mkSext(toE(a, I.w), 64), y = mkSext(toE(b, I.w), 64);
          Op op = icop(I.opc);
          E wide = mkBin(op, x, y), nar = mkSext(mkBin(op, toE(a, I.w), toE(b, I.w)), 64);
          check(mkEq(wide, nar), "arith", "signed integer overflow");
        }
      }
      std::vector<Val> r(I.nl);
      for (unsigned i = 0; i < I.nl; i++) r[i] = binop(I.opc, R(I.ops[0], i), R(I.ops[1], i), I.w);
      for (unsigned i = 0; i < I.nl; i++) F().regs[I.dst + i] = r[i];
      F().pc++; return; }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
      unsigned sw = DL.getTypeSizeInBits(I.I->getOperand(0)->getType()->getScalarType());
      if (sw > 64 || I.w > 64) throw EngineError{"integer wider than 64 bits"};
      for (unsigned i = 0; i < I.nl; i++) {
        Val a = R(I.ops[0], i);
        if (!a.e) f.regs[I.dst + i] = Val{(I.opc == Instruction::SExt ? (uint64_t)sext(a.c, sw) : (a.c & maskOf(sw))) & maskOf(I.w), nullptr};
        else f.regs[I.dst + i] = fromE(I.w < sw ? mkExtract(a.e, 0, I.w) : I.opc == Instruction::SExt ? mkSext(a.e, I.w) : mkZext(a.e, I.w));
      }
      f.pc++; return; }
    case Instruction::BitCast: {
      Type* st = I.I->getOperand(0)->getType(); Type* dt = I.I->getType();
      unsigned ns = leaves(st);
      if (ns == I.nl) { for (unsigned i = 0; i < I.nl; i++) f.regs[I.dst + i] = R(I.ops[0], i); f.pc++; return; }
      unsigned sw = DL.getTypeSizeInBits(st->getScalarType()), dw = DL.getTypeSizeInBits(dt->getScalarType());
      if (ns * sw > 64) throw EngineError{"wide bitcast"};
      E e = toE(R(I.ops[0], 0), sw);
      for (unsigned i = 1; i < ns; i++) e = mkConcat(toE(R(I.ops[0], i), sw), e);
      for (unsigned i = 0; i < I.nl; i++) f.regs[I.dst + i] = fromE(mkExtract(e, i * dw, dw));
      f.pc++; return; }
    case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: {
      unsigned sw = DL.getTypeSizeInBits(I.I->getOperand(0)->getType()->getScalarType());
      if (I.w > 64 || sw > 64) { f.regs[I.dst] = Val(); unmodelled.insert("long double conversion"); f.pc++; return; }
      for (unsigned i = 0; i < I.nl; i++) {
        E a = toE(R(I.ops[0], i), sw);
        E r;
        switch (I.opc) { case Instruction::FPToSI: r = mkFToI(FTOSI, a, I.w); break; case Instruction::FPToUI: r = mkFToI(FTOUI, a, I.w); break;
          case Instruction::SIToFP: r = mkIToF(SITOF, a, I.w); break; case Instruction::UIToFP: r = mkIToF(UITOF, a, I.w); break; default: r = mkFConv(a, I.w); }
        f.regs[I.dst + i] = fromE(r);
      }
      f.pc++; return; }
    case Instruction::Select: {
      unsigned cn = I.ops[0].n;
      std::vector<Val> r(I.nl);
      for (unsigned i = 0; i < I.nl; i++) {
        Val c = R(I.ops[0], cn == I.nl ? i : 0);
        if (!c.e) r[i] = (c.c & 1) ? R(I.ops[1], i) : R(I.ops[2], i);
        else {
          Val a = R(I.ops[1], i), b = R(I.ops[2], i);
          unsigned w = I.leafW[i];
          if (w > 64) throw EngineError{"select width"};
          E cc = ctx(c.e); if (cc->isConst()) { r[i] = cc->aux ? a : b; continue; }
          r[i] = fromE(mkIte(c.e, toE(a, w), toE(b, w)));
        }
      }
      for (unsigned i = 0; i < I.nl; i++) f.regs[I.dst + i] = r[i];
      f.pc++; return; }
    case Instruction::Freeze: for (unsigned i = 0; i < I.nl; i++) f.regs[I.dst + i] = R(I.ops[0], i); f.pc++; return;
    case Instruction::ExtractValue: for (unsigned i = 0; i < I.nl; i++) f.regs[I.dst + i] = R(I.ops[0], I.idx + i); f.pc++; return;
    case Instruction::InsertValue: {
      for (unsigned i = 0; i < I.nl; i++) f.regs[I.dst + i] = R(I.ops[0], i);
      for (unsigned i = 0; i < I.ops[1].n; i++) f.regs[I.dst + I.idx + i] = R(I.ops[1], i);
      f.pc++; return; }
    case Instruction::ExtractElement: {
      uint64_t ix = concretize(R(I.ops[1]), DL.getTypeSizeInBits(I.I->getOperand(1)->getType()));
      F().regs[I.dst] = R(I.ops[0], ix); F().pc++; return; }
    case Instruction::InsertElement: {
      uint64_t ix = concretize(R(I.ops[2]), DL.getTypeSizeInBits(I.I->getOperand(2)->getType()));
      std::vector<Val> t; for (unsigned i = 0; i < I.nl; i++) t.push_back(R(I.ops[0], i));
      t[ix] = R(I.ops[1]);
      for (unsigned i = 0; i < I.nl; i++) F().regs[I.dst + i] = t[i];
      F().pc++; return; }
    case Instruction::ShuffleVector: {
      auto* sv = cast<ShuffleVectorInst>(I.I); unsigned n0 = I.ops[0].n;
      std::vector<Val> t;
      for (int m : sv->getShuffleMask()) t.push_back(m < 0 ? Val() : (unsigned)m < n0 ? R(I.ops[0], m) : R(I.ops[1], m - n0));
      for (unsigned i = 0; i < I.nl; i++) f.regs[I.dst + i] = t[i];
      f.pc++; return; }
    case Instruction::Fence: f.pc++; return;
    case Instruction::AtomicCmpXchg: {
      if (!schedPoint()) return;
      auto* a = cast<AtomicCmpXchgInst>(I.I); unsigned w = DL.getTypeSizeInBits(a->getCompareOperand()->getType());
      atomicCtx = true;
      Val p = R(I.ops[0]); Val old = load(p, w);
      E eq = mkEq(toE(old, w), toE(R(I.ops[1]), w));
      bool t = decide(eq);
      if (t) store(p, R(I.ops[2]), w);
      atomicCtx = false;
      F().regs[I.dst] = old; F().regs[I.dst + 1] = Val{t, nullptr}; F().pc++; return; }
    case Instruction::AtomicRMW: {
      if (!schedPoint()) return;
      auto* a = cast<AtomicRMWInst>(I.I); unsigned w = DL.getTypeSizeInBits(a->getValOperand()->getType());
      atomicCtx = true;
      Val p = R(I.ops[0]); Val old = load(p, w); Val v = R(I.ops[1]); Val n;
      switch (a->getOperation()) {
        case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Add: n = binop(Instruction::Add, old, v, w); break; case AtomicRMWInst::Sub: n = binop(Instruction::Sub, old, v, w); break;
        case AtomicRMWInst::And: n = binop(Instruction::And, old, v, w); break; case AtomicRMWInst::Or: n = binop(Instruction::Or, old, v, w); break; case AtomicRMWInst::Xor: n = binop(Instruction::Xor, old, v, w); break;
        case AtomicRMWInst::FAdd: n = fpbin(Instruction::FAdd, old, v, w); break;
        default: throw EngineError{"atomicrmw"};
      }
      store(p, n, w); atomicCtx = false;
      F().regs[I.dst] = old; F().pc++; return; }
    default: throw EngineError{std::string("instruction ") + I.I->getOpcodeName()};
  }
}

void Engine::execCall(KInst& I) {
  auto* cb = cast<CallBase>(I.I);
  const Function* f = I.callee;
  if (cb->isInlineAsm()) { // pause / compiler barriers only
    for (unsigned i = 0; i < I.nl; i++) F().regs[I.dst + i] = Val();
    finishCall(I); return;
  }
  std::vector<Val> args;
  for (unsigned i = 0; i + 1 < I.ops.size(); i++) for (unsigned l = 0; l < I.ops[i].n; l++) args.push_back(R(I.ops[i], l));
  if (!f) {
    Val t = R(I.ops.back());
    uint64_t a = concretize(t, 64);
    f = funcAt(a);
    if (!f) fail("memory", "indirect call through an invalid function pointer");
  }
  if (f->isIntrinsic()) { execIntrinsic(I, f, args); return; }
  Handler* h = nullptr;
  auto hc = hcache.find(f);
  if (hc != hcache.end()) h = hc->second;
  else if (!noHandler.count(f)) {
    auto it = handlers.find(f->getName().str());
    if (it != handlers.end()) h = &it->second;
    if (h) hcache[f] = h; else noHandler.insert(f);
  }
  if (h) {
    std::vector<Val> ret(std::max(1u, I.nl));
    unsigned fd = T().fr.size(); unsigned pc = F().pc; int cur = S->cur;
    (*h)(*S, I, args, ret.data());
    if (S->cur == cur && T().fr.size() == fd && F().pc == pc && F().kf->insts[pc].I == I.I) {
      for (unsigned i = 0; i < I.nl; i++) F().regs[I.dst + i] = ret[i];
      finishCall(I);
    }
    return;
  }
  if (f->isDeclaration()) {
    std::string n = f->getName().str();
    // concrete pure functions from libm
    bool conc = true; bool fpOnly = true;
    for (auto& a : args) if (a.e) conc = false;
    FunctionType* ft = f->getFunctionType();
    bool dret = ft->getReturnType()->isDoubleTy(), fret = ft->getReturnType()->isFloatTy();
    for (Type* t : ft->params()) if (!(t->isDoubleTy() || t->isFloatTy())) fpOnly = false;
    if (fpOnly && (dret || fret) && ft->getNumParams() >= 1 && ft->getNumParams() <= 3) {
      if (n == "sqrt" || n == "sqrtf") { F().regs[I.dst] = fromE(mkFp1(FSQRT, toE(args[0], I.w))); finishCall(I); return; }
      if (n == "floor" || n == "floorf") { F().regs[I.dst] = fromE(mkFp1(FFLOOR, toE(args[0], I.w))); finishCall(I); return; }
      if (n == "ceil" || n == "ceilf") { F().regs[I.dst] = fromE(mkFp1(FCEIL, toE(args[0], I.w))); finishCall(I); return; }
      if (conc && gFpMode != FpMode::REAL) {
        void* p = dlsym(RTLD_DEFAULT, n.c_str());
        if (p) {
          auto D = [&](int i) { double d; memcpy(&d, &args[i].c, 8); return d; };
          auto Fl = [&](int i) { float d; uint32_t u = args[i].c; memcpy(&d, &u, 4); return d; };
          if (dret) { double r = ft->getNumParams() == 1 ? ((double (*)(double))p)(D(0)) : ft->getNumParams() == 2 ? ((double (*)(double, double))p)(D(0), D(1)) : ((double (*)(double, double, double))p)(D(0), D(1), D(2));
            uint64_t u; memcpy(&u, &r, 8); F().regs[I.dst] = Val{u, nullptr}; }
          else { float r = ft->getNumParams() == 1 ? ((float (*)(float))p)(Fl(0)) : ft->getNumParams() == 2 ? ((float (*)(float, float))p)(Fl(0), Fl(1)) : ((float (*)(float, float, float))p)(Fl(0), Fl(1), Fl(2));
            uint32_t u; memcpy(&u, &r, 4); F().regs[I.dst] = Val{u, nullptr}; }
          finishCall(I); return;
        }
      }
      std::vector<E> k; for (size_t i = 0; i < args.size(); i++) k.push_back(toE(args[i], DL.getTypeSizeInBits(ft->getParamType(i))));
      if (gFpMode == FpMode::REAL) { for (auto& e : k) e = mkB2R(e); F().regs[I.dst] = fromE(mkR2B(mkRUF(ufId("r" + n), k), I.w)); }
      else F().regs[I.dst] = fromE(mkUF(ufId(n), I.w, k));
      finishCall(I); return;
    }
    // empty or console-only external functions
    if (n.rfind("_ZTH", 0) == 0) { finishCall(I); return; } // thread-local initialisers of constant-initialised variables
    unmodelled.insert(n);
    throw EngineError{"call to unmodelled external function " + demangle(n)};
  }
  pushCall(f, args, &I);
}

void Engine::execIntrinsic(KInst& I, const Function* f, std::vector<Val>& a) {
  auto id = f->getIntrinsicID();
  auto done = [&]() { finishCall(I); };
  auto set = [&](Val v, unsigned i = 0) { F().regs[I.dst + i] = v; };
  unsigned w = I.w;
  auto fp1 = [&](Op op) { std::vector<Val> r; for (unsigned i = 0; i < I.nl; i++) r.push_back(fromE(mkFp1(op, toE(a[i], I.leafW[i])))); for (unsigned i = 0; i < I.nl; i++) set(r[i], i); done(); };
  switch (id) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: { // the contents of a dead local are arbitrary
      const Val& p = a[1]; if (!p.e) if (Obj* o = find(p.c)) if (o->base == p.c && !o->heap && !o->ro && o->owner >= 0) { Obj* w = findW(p.c); w->undef.assign(w->size, 1); w->sym.clear(); }
      done(); return; }
    case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::donothing: case Intrinsic::sideeffect:
    case Intrinsic::var_annotation: case Intrinsic::vaend:
      if (I.dst >= 0) set(Val()); done(); return;
    case Intrinsic::assume: done(); return;
    case Intrinsic::vastart: { // the x86-64 va_list with its register area exhausted: every argument comes from the overflow area
      uint64_t l = concretize(a[0], 64), va = F().va; store(Val{l, nullptr}, Val{48, nullptr}, 32); store(Val{l + 4, nullptr}, Val{176, nullptr}, 32); store(Val{l + 8, nullptr}, Val{va, nullptr}, 64); store(Val{l + 16, nullptr}, Val{0, nullptr}, 64); done(); return; }
    case Intrinsic::vacopy: memcpyv(a[0], a[1], 24); done(); return;
    case Intrinsic::stacksave: set(Val()); done(); return;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ptr_annotation:
      set(a[0]); done(); return;
    case Intrinsic::is_constant: set(Val{0, nullptr}); done(); return;
    case Intrinsic::objectsize: set(Val{cast<ConstantInt>(cast<CallBase>(I.I)->getArgOperand(1))->isZero() ? ~0ull & maskOf(w) : 0, nullptr}); done(); return;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t n = concretize(a[2], DL.getTypeSizeInBits(f->getArg(2)->getType())); memcpyv(a[0], a[1], n); done(); return; }
    case Intrinsic::memset: case Intrinsic::memset_inline: {
      uint64_t n = concretize(a[2], DL.getTypeSizeInBits(f->getArg(2)->getType())); uint64_t d = concretize(a[0], 64);
      for (uint64_t i = 0; i < n; i++) store(Val{d + i, nullptr}, a[1], 8);
      done(); return; }
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: fail("abort", "trap");
    case Intrinsic::eh_typeid_for: { int& t = typeIds[a[0].c]; if (!t) t = typeIds.size(); set(Val{(uint64_t)t, nullptr}); done(); return; }
    case Intrinsic::fabs: {
      std::vector<Val> r;
      for (unsigned i = 0; i < I.nl; i++) {
        E x = toE(a[i], I.leafW[i]); unsigned lw = I.leafW[i];
        if (gFpMode == FpMode::REAL && a[i].e) { E rr = mkB2R(x); r.push_back(fromE(mkR2B(mkIte(mkRBin(RLT, rr, mkRConst(0)), mkRBin(RSUB, mkRConst(0), rr), rr), lw))); }
        else r.push_back(fromE(mkBin(AND, x, mkConst(maskOf(lw) >> 1, lw))));
      }
      for (unsigned i = 0; i < I.nl; i++) set(r[i], i); done(); return; }
    case Intrinsic::copysign: { unsigned lw = I.leafW[0]; set(fromE(mkBin(OR, mkBin(AND, toE(a[0], lw), mkConst(maskOf(lw) >> 1, lw)), mkBin(AND, toE(a[1], lw), mkConst(1ull << (lw - 1), lw))))); done(); return; }
    case Intrinsic::sqrt: fp1(FSQRT); return;
    case Intrinsic::floor: fp1(FFLOOR); return;
    case Intrinsic::ceil: fp1(FCEIL); return;
    case Intrinsic::trunc: fp1(FTRUNC); return;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: fp1(FRINT); return;
    case Intrinsic::round: fp1(FROUND); return;
    case Intrinsic::fma: case Intrinsic::fmuladd: set(fromE(mkFma(toE(a[0], w), toE(a[1], w), toE(a[2], w)))); done(); return;
    case Intrinsic::minnum: case Intrinsic::maxnum: {
      E x = toE(a[0], w), y = toE(a[1], w);
      E c = id == Intrinsic::minnum ? mkFCmp(FLT, y, x) : mkFCmp(FLT, x, y);
      E r = mkIte(mkIsNan(x), y, mkIte(mkIsNan(y), x, mkIte(c, y, x)));
      set(fromE(r)); done(); return; }
    case Intrinsic::pow: case Intrinsic::exp: case Intrinsic::log: case Intrinsic::log10: case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::exp2: case Intrinsic::log2: case Intrinsic::powi: {
      std::string base = id == Intrinsic::pow ? "pow" : id == Intrinsic::exp ? "exp" : id == Intrinsic::log ? "log" : id == Intrinsic::log10 ? "log10" : id == Intrinsic::sin ? "sin" : id == Intrinsic::cos ? "cos" : id == Intrinsic::exp2 ? "exp2" : id == Intrinsic::log2 ? "log2" : "powi";
      bool conc = true; for (auto& x : a) if (x.e) conc = false;
      if (conc && w == 64 && gFpMode != FpMode::REAL && base != "powi") {
        auto D = [&](int i) { double d; memcpy(&d, &a[i].c, 8); return d; };
        double r = base == "pow" ? std::pow(D(0), D(1)) : base == "exp" ? std::exp(D(0)) : base == "log" ? std::log(D(0)) : base == "log10" ? std::log10(D(0)) : base == "sin" ? std::sin(D(0)) : base == "cos" ? std::cos(D(0)) : base == "exp2" ? std::exp2(D(0)) : std::log2(D(0));
        uint64_t u; memcpy(&u, &r, 8); set(Val{u, nullptr}); done(); return;
      }
      std::vector<E> k; for (size_t i = 0; i < a.size(); i++) k.push_back(toE(a[i], DL.getTypeSizeInBits(f->getFunctionType()->getParamType(i))));
      if (w == 32) base += "f";
      if (gFpMode == FpMode::REAL) { for (auto& e : k) e = mkB2R(e); set(fromE(mkR2B(mkRUF(ufId("r" + base), k), w))); }
      else set(fromE(mkUF(ufId(base), w, k)));
      done(); return; }
    case Intrinsic::abs: { E x = toE(a[0], w); set(fromE(mkIte(mkBin(SLT, x, mkConst(0, w)), mkBin(SUB, mkConst(0, w), x), x))); done(); return; }
    case Intrinsic::smin: case Intrinsic::smax: case Intrinsic::umin: case Intrinsic::umax: {
      std::vector<Val> r; unsigned n = I.nl;
      for (unsigned i = 0; i < n; i++) {
        unsigned lw = I.leafW[i];
        E x = toE(a[i], lw), y = toE(a[n + i], lw);
        Op op = (id == Intrinsic::smin || id == Intrinsic::smax) ? SLT : ULT;
        bool mn = id == Intrinsic::smin || id == Intrinsic::umin;
        r.push_back(fromE(mn ? mkIte(mkBin(op, x, y), x, y) : mkIte(mkBin(op, y, x), x, y)));
      }
      for (unsigned i = 0; i < n; i++) set(r[i], i); done(); return; }
    case Intrinsic::usub_sat: { E x = toE(a[0], w), y = toE(a[1], w); set(fromE(mkIte(mkBin(ULT, x, y), mkConst(0, w), mkBin(SUB, x, y)))); done(); return; }
    case Intrinsic::uadd_sat: { E x = toE(a[0], w), y = toE(a[1], w); E s = mkBin(ADD, x, y); set(fromE(mkIte(mkBin(ULT, s, x), mkConst(~0ull, w), s))); done(); return; }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: {
      unsigned lw = I.leafW[0]; E x = toE(a[0], lw), y = toE(a[1], lw); bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
      Op op = (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow) ? ADD : (id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow) ? SUB : MUL;
      E r = mkBin(op, x, y); E ov;
      if (lw <= 32) { E wx = sg ? mkSext(x, 64) : mkZext(x, 64), wy = sg ? mkSext(y, 64) : mkZext(y, 64); E wr = mkBin(op, wx, wy); ov = mkNot(mkEq(wr, sg ? mkSext(r, 64) : mkZext(r, 64))); }
      else if (op == ADD) ov = sg ? mkBoolAnd(mkEq(mkExtract(x, lw - 1, 1), mkExtract(y, lw - 1, 1)), mkNot(mkEq(mkExtract(x, lw - 1, 1), mkExtract(r, lw - 1, 1)))) : mkBin(ULT, r, x);
      else if (op == SUB) ov = sg ? mkBoolAnd(mkNot(mkEq(mkExtract(x, lw - 1, 1), mkExtract(y, lw - 1, 1))), mkNot(mkEq(mkExtract(x, lw - 1, 1), mkExtract(r, lw - 1, 1)))) : mkBin(ULT, x, y);
      else { // 64-bit multiply: overflow iff x!=0 and r/x != y
        if (x->isConst() && y->isConst()) { if (sg) { int64_t t; ov = mkConst(__builtin_mul_overflow((int64_t)x->aux, (int64_t)y->aux, &t), 1); } else { uint64_t t; ov = mkConst(__builtin_mul_overflow(x->aux, y->aux, &t), 1); } }
        else { E z = mkEq(x, mkConst(0, lw)); ov = mkBoolAnd(mkNot(z), mkNot(mkEq(mkBin(sg ? SDIV : UDIV, r, x), y))); } }
      set(fromE(r), 0); set(fromE(ov), 1); done(); return; }
    case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: {
      if (!a[0].e) { uint64_t x = a[0].c & maskOf(w); uint64_t r = id == Intrinsic::ctpop ? __builtin_popcountll(x) : id == Intrinsic::ctlz ? (x ? __builtin_clzll(x) - (64 - w) : w) : (x ? __builtin_ctzll(x) : w); set(Val{r, nullptr}); done(); return; }
      E x = a[0].e; E r = mkConst(id == Intrinsic::ctpop ? 0 : w, w);
      if (id == Intrinsic::ctpop) for (unsigned i = 0; i < w; i++) r = mkBin(ADD, r, mkZext(mkExtract(x, i, 1), w));
      else if (id == Intrinsic::ctlz) for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(x, i, 1), mkConst(w - 1 - i, w), r);
      else for (int i = w - 1; i >= 0; i--) r = mkIte(mkExtract(x, i, 1), mkConst(i, w), r);
      set(fromE(r)); done(); return; }
    case Intrinsic::bswap: { E x = toE(a[0], w); E r = mkExtract(x, 0, 8); for (unsigned i = 1; i < w / 8; i++) r = mkConcat(r, mkExtract(x, 8 * i, 8)); set(fromE(r)); done(); return; }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      E x = toE(a[0], w), y = toE(a[1], w); E sh = mkBin(UREM, toE(a[2], w), mkConst(w, w));
      E inv = mkBin(SUB, mkConst(w, w), sh); E z = mkEq(sh, mkConst(0, w));
      if (id == Intrinsic::fshl) set(fromE(mkIte(z, x, mkBin(OR, mkBin(SHL, x, sh), mkBin(LSHR, y, inv)))));
      else set(fromE(mkIte(z, y, mkBin(OR, mkBin(SHL, x, inv), mkBin(LSHR, y, sh)))));
      done(); return; }
    case Intrinsic::is_fpclass: {
      unsigned lw = DL.getTypeSizeInBits(f->getArg(0)->getType()); uint64_t mask = a[1].c; E x = toE(a[0], lw); E r = mkConst(0, 1);
      if (gFpMode == FpMode::REAL && a[0].e) { set(fromE(mkConst((mask & 0x3) ? 0 : 0, 1))); done(); return; }
      unsigned mb = lw == 64 ? 52 : 23; unsigned eb = lw - mb - 1;
      E ex = mkExtract(x, mb, eb), mn = mkExtract(x, 0, mb), sg = mkExtract(x, lw - 1, 1);
      E e0 = mkEq(ex, mkConst(0, eb)), e1 = mkEq(ex, mkConst(~0ull, eb)), m0 = mkEq(mn, mkConst(0, mb)); E ng = mkEq(sg, mkConst(1, 1)), ps = mkNot(ng); E qb = mkExtract(x, mb - 1, 1);
      auto add = [&](unsigned bit, E c) { if (mask & (1u << bit)) r = mkBoolOr(r, c); };
      E nan = mkBoolAnd(e1, mkNot(m0)), inf = mkBoolAnd(e1, m0), nrm = mkBoolAnd(mkNot(e0), mkNot(e1)), sub = mkBoolAnd(e0, mkNot(m0)), zer = mkBoolAnd(e0, m0);
      add(0, mkBoolAnd(nan, mkNot(mkEq(qb, mkConst(1, 1))))); add(1, mkBoolAnd(nan, mkEq(qb, mkConst(1, 1)))); add(2, mkBoolAnd(inf, ng)); add(3, mkBoolAnd(nrm, ng)); add(4, mkBoolAnd(sub, ng)); add(5, mkBoolAnd(zer, ng));
      add(6, mkBoolAnd(zer, ps)); add(7, mkBoolAnd(sub, ps)); add(8, mkBoolAnd(nrm, ps)); add(9, mkBoolAnd(inf, ps));
      set(fromE(r)); done(); return; }
    case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_xor: {
      unsigned n = a.size(); E r = toE(a[0], w);
      for (unsigned i = 1; i < n; i++) r = mkBin(id == Intrinsic::vector_reduce_or ? OR : id == Intrinsic::vector_reduce_and ? AND : id == Intrinsic::vector_reduce_xor ? XOR : ADD, r, toE(a[i], w));
      set(fromE(r)); done(); return; }
    case Intrinsic::load_relative: { Val o = load(fromE(mkBin(ADD, toE(a[0], 64), toE(a[1], 64))), 32); set(fromE(mkBin(ADD, toE(a[0], 64), mkSext(toE(o, 32), 64)))); done(); return; }
    default: throw EngineError{"intrinsic " + f->getName().str()};
  }
}

void Engine::run(const std::string& entry) {
  Function* f = M.getFunction(entry);
  if (!f) throw EngineError{"no entry function " + entry};
  auto t0 = std::chrono::steady_clock::now();
  auto st = std::make_unique<State>();
  st->th.resize(1);
  st->model = std::make_shared<Model>();
  S = st.get();
  // frames: entry first (bottom), then global constructors on top, in reverse order
  std::vector<Val> none;
  std::vector<Function*> ctors;
  if (auto* gc = M.getNamedGlobal("llvm.global_ctors"))
    if (gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
      std::vector<std::pair<uint64_t, Function*>> v;
      for (auto& o : ca->operands()) { auto* cs = cast<ConstantStruct>(o); v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())}); }
      std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
      for (auto& p : v) if (p.second) ctors.push_back(p.second);
    }
  // run constructors one at a time to completion
  for (auto* c : ctors) {
    S->th[0].fr.clear(); S->th[0].st = Thread::READY; S->cur = 0;
    pushCall(c, none, nullptr);
    try {
      while (S->th[0].st != Thread::DONE) {
        if (S->th[0].fr.size() == 1 && F().kf->insts[F().pc].opc == Instruction::Ret) break;
        step();
      }
    } catch (PathEnd&) { throw EngineError{"static initialiser ended the program"}; }
  }
  S->th[0].fr.clear(); S->th[0].st = Thread::READY; S->cur = 0;
  pushCall(f, none, nullptr);
  work.push_back(std::move(st));
  while (!work.empty()) {
    StateP cur = std::move(work.back()); work.pop_back();
    S = cur.get();
    paths++;
    try {
      uint64_t n = 0;
      for (;;) {
        step();
        if ((++n & 0xfff) == 0) {
          double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
          if (dt > maxTime) { incomplete = true; incompleteWhy = "time limit"; return; }
          if (S->steps > maxSteps) { incomplete = true; incompleteWhy = "step limit on one path"; try { fail("nontermination", "no end of the computation within the step limit"); } catch (PathEnd&) {} break; }
        }
      }
    } catch (PathEnd&) {
      if (!S->th.empty() && S->th[0].st == Thread::DONE) {
        pathsDone++;
        if ((pathsDone & (pathsDone - 1)) == 0 && samples.size() < 12 && !S->inputs.empty()) {
          Model mm; bool ok = S->model != nullptr; if (ok) mm = *S->model; else ok = solver.checkAll(S->pc, &mm) == Res::SAT;
          if (ok) {
            std::vector<std::pair<std::string, std::string>> smp;
            for (auto& in : S->inputs) { std::string t; for (E e : in.vars) { uint64_t x = e->isConst() ? e->aux : mm.get(e->aux) & maskOf(e->w); t += (t.empty() ? "" : " ") + std::to_string(x); } smp.push_back({in.name + " " + std::to_string(in.vars.empty() ? 0 : in.vars[0]->w / 8), t}); }
            samples.push_back(smp);
          }
        }
      }
    } catch (EngineError& e) {
      incomplete = true; incompleteWhy = e.msg + " at " + where();
      if (log.size() < 20) {
        log.push_back(e.msg + " at " + where());
        for (auto it = T().fr.rbegin(); it != T().fr.rend() && log.size() < 30; ++it) log.push_back("   in " + demangle(it->kf->F->getName().str()));
      }
    }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (dt > maxTime && !work.empty()) { incomplete = true; incompleteWhy = "time limit"; return; }
    if (paths >= maxPaths && !work.empty()) { incomplete = true; incompleteWhy = "path limit"; return; }
    if (viol.size() >= maxViol) { incomplete = true; incompleteWhy = "stopped after violations"; return; }
    if (incomplete && log.size() >= 20) return;
  }
}
void Engine::collectFunctions() {
  for (auto& kv : kfs) for (auto& I : kv.second->insts) {
    if (!I.covered) continue;
    for (const DILocation* l = I.I->getDebugLoc().get(); l; l = l->getInlinedAt()) {
      auto* sp = l->getScope()->getSubprogram();
      if (!sp) continue;
      functions[sp->getFilename().str()].insert(sp->getName().str());
    }
  }
}
} // namespace vx
