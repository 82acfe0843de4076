#include "expr.h"
#include <unordered_set>
#include <algorithm>
#include <stdexcept>
#include <sstream>

namespace vx {
FpMode gFpMode = FpMode::IEEE;
std::vector<VarInfo> gVars;
std::vector<std::string> gUFs;
static std::map<std::string, uint32_t> gUFMap;
uint32_t ufId(const std::string& n) {
  auto it = gUFMap.find(n);
  if (it != gUFMap.end()) return it->second;
  gUFs.push_back(n);
  return gUFMap[n] = gUFs.size() - 1;
}

struct Key { Op op; uint16_t w; uint64_t aux; const E* k; size_t n; };
static uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 12) + (h >> 4); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 29); }
static uint64_t hashOf(Op op, unsigned w, uint64_t aux, const E* k, size_t n) {
  uint64_t h = mix(op * 131 + w, aux);
  for (size_t i = 0; i < n; i++) h = mix(h, k[i]->id + 7);
  return h;
}
static std::unordered_multimap<uint64_t, Expr*> table;
static uint32_t nextId = 1;
size_t exprCount() { return nextId; }

static void widths(Expr* e) {
  unsigned w = e->w, s = w, u = w;
  auto K = [&](int i) { return e->k[i]; };
  auto nn = [&](E x) { return x->uw < x->w; };
  switch (e->op) {
    case CONST: { u = e->aux ? 64 - __builtin_clzll(e->aux) : 0; int64_t v = sext(e->aux, w); uint64_t m = v < 0 ? ~(uint64_t)v : (uint64_t)v; s = (m ? 64 - __builtin_clzll(m) : 0) + 1; break; }
    case ZEXT: u = K(0)->uw; s = std::min<unsigned>(w, u + 1); break;
    case SEXT: s = K(0)->sw; if (nn(K(0))) u = K(0)->uw; break;
    case CONCAT: u = K(0)->uw ? K(0)->uw + K(1)->w : K(1)->uw; s = std::min<unsigned>(w, K(0)->sw + K(1)->w); break;
    case EXTRACT: if (e->aux == 0) { u = std::min<unsigned>(w, K(0)->uw); s = std::min<unsigned>(w, K(0)->sw); } break;
    case ADD: if (std::max(K(0)->uw, K(1)->uw) + 1u < w) u = std::max(K(0)->uw, K(1)->uw) + 1; s = std::min<unsigned>(w, std::max(K(0)->sw, K(1)->sw) + 1); break;
    case SUB: s = std::min<unsigned>(w, std::max(K(0)->sw, K(1)->sw) + 1); break;
    case MUL: if (K(0)->uw + K(1)->uw < (int)w) u = K(0)->uw + K(1)->uw; s = std::min<unsigned>(w, K(0)->sw + K(1)->sw); break;
    case SDIV: s = std::min<unsigned>(w, K(0)->sw + 1); break;
    case SREM: s = std::min(K(0)->sw, K(1)->sw); if (K(1)->op != CONST) s = K(0)->sw; break;
    case UDIV: if (K(1)->op == CONST && K(1)->aux) { unsigned lg = 63 - __builtin_clzll(K(1)->aux); u = K(0)->uw > lg ? K(0)->uw - lg : 1; } break;
    case UREM: if (K(1)->op == CONST && K(1)->aux) u = std::min(K(0)->uw, K(1)->uw); else u = K(0)->uw; break;
    case AND: u = std::min(K(0)->uw, K(1)->uw); s = std::max(K(0)->sw, K(1)->sw); break;
    case OR: case XOR: u = std::max(K(0)->uw, K(1)->uw); s = std::max(K(0)->sw, K(1)->sw); break;
    case ITE: u = std::max(K(1)->uw, K(2)->uw); s = std::max(K(1)->sw, K(2)->sw); break;
    default: break;
  }
  if (u < w) s = std::min(s, u + 1);
  if (w == 0) s = u = 0;
  e->sw = std::max(1u, std::min(s, w)); e->uw = std::min(u, w);
}
static E intern(Op op, unsigned w, uint64_t aux, const E* k, size_t n) {
  uint64_t h = hashOf(op, w, aux, k, n);
  auto r = table.equal_range(h);
  for (auto it = r.first; it != r.second; ++it) {
    Expr* e = it->second;
    if (e->op == op && e->w == w && e->aux == aux && e->k.size() == n) {
      bool same = true;
      for (size_t i = 0; i < n; i++) if (e->k[i] != k[i]) { same = false; break; }
      if (same) return e;
    }
  }
  Expr* e = new Expr();
  e->op = op; e->w = w; e->aux = aux; e->k.assign(k, k + n); e->id = nextId++;
  widths(e);
  table.emplace(h, e);
  return e;
}
static E in1(Op op, unsigned w, E a, uint64_t aux = 0) { return intern(op, w, aux, &a, 1); }
static E in2(Op op, unsigned w, E a, E b, uint64_t aux = 0) { E k[2] = {a, b}; return intern(op, w, aux, k, 2); }
static E in3(Op op, unsigned w, E a, E b, E c) { E k[3] = {a, b, c}; return intern(op, w, 0, k, 3); }

E mkConst(uint64_t v, unsigned w) { return intern(CONST, w, v & maskOf(w), nullptr, 0); }
E mkVar(const std::string& name, unsigned w) {
  gVars.push_back({name, w});
  return intern(VAR, w, gVars.size() - 1, nullptr, 0);
}

static double asD(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static float asF(uint64_t v) { uint32_t u = (uint32_t)v; float f; memcpy(&f, &u, 4); return f; }
static uint64_t fromD(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static uint64_t fromF(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }

uint64_t evalOp(Op op, unsigned w, uint64_t aux, const uint64_t* k, const unsigned* kw, unsigned n) {
  uint64_t m = maskOf(w);
  switch (op) {
    case ADD: return (k[0] + k[1]) & m;
    case SUB: return (k[0] - k[1]) & m;
    case MUL: return (k[0] * k[1]) & m;
    case UDIV: return k[1] == 0 ? m : (k[0] / k[1]) & m;
    case UREM: return k[1] == 0 ? k[0] : (k[0] % k[1]) & m;
    case SDIV: { int64_t a = sext(k[0], w), b = sext(k[1], w);
      if (b == 0) return (a < 0 ? 1 : m);
      if (b == -1) return (0 - (uint64_t)a) & m;
      return (uint64_t)(a / b) & m; }
    case SREM: { int64_t a = sext(k[0], w), b = sext(k[1], w);
      if (b == 0) return k[0]; if (b == -1) return 0;
      return (uint64_t)(a % b) & m; }
    case AND: return k[0] & k[1];
    case OR: return k[0] | k[1];
    case XOR: return k[0] ^ k[1];
    case SHL: return k[1] >= w ? 0 : (k[0] << k[1]) & m;
    case LSHR: return k[1] >= w ? 0 : (k[0] >> k[1]) & m;
    case ASHR: { int64_t a = sext(k[0], w); unsigned s = k[1] >= w ? w - 1 : (unsigned)k[1]; return (uint64_t)(a >> s) & m; }
    case EQ: return k[0] == k[1];
    case ULT: return k[0] < k[1];
    case ULE: return k[0] <= k[1];
    case SLT: return sext(k[0], kw[0]) < sext(k[1], kw[1]);
    case SLE: return sext(k[0], kw[0]) <= sext(k[1], kw[1]);
    case ITE: return k[0] ? k[1] : k[2];
    case CONCAT: return ((k[0] << kw[1]) | k[1]) & m;
    case EXTRACT: return (k[0] >> aux) & m;
    case ZEXT: return k[0];
    case SEXT: return (uint64_t)sext(k[0], kw[0]) & m;
#define FPBIN(OP, EXPR) case OP: if (w == 64) { volatile double a = asD(k[0]), b = asD(k[1]); (void)b; return fromD(EXPR); } else { volatile float a = asF(k[0]), b = asF(k[1]); (void)b; return fromF(EXPR); }
    FPBIN(FADD, a + b) FPBIN(FSUB, a - b) FPBIN(FMUL, a * b) FPBIN(FDIV, a / b)
    case FREM: return w == 64 ? fromD(std::fmod(asD(k[0]), asD(k[1]))) : fromF(std::fmod(asF(k[0]), asF(k[1])));
    case FSQRT: return w == 64 ? fromD(std::sqrt(asD(k[0]))) : fromF(std::sqrt(asF(k[0])));
    case FFMA: return w == 64 ? fromD(std::fma(asD(k[0]), asD(k[1]), asD(k[2]))) : fromF(std::fma(asF(k[0]), asF(k[1]), asF(k[2])));
    case FFLOOR: return w == 64 ? fromD(std::floor(asD(k[0]))) : fromF(std::floor(asF(k[0])));
    case FCEIL: return w == 64 ? fromD(std::ceil(asD(k[0]))) : fromF(std::ceil(asF(k[0])));
    case FTRUNC: return w == 64 ? fromD(std::trunc(asD(k[0]))) : fromF(std::trunc(asF(k[0])));
    case FRINT: return w == 64 ? fromD(std::nearbyint(asD(k[0]))) : fromF(std::nearbyint(asF(k[0])));
    case FROUND: return w == 64 ? fromD(std::round(asD(k[0]))) : fromF(std::round(asF(k[0])));
    case FEQ: return kw[0] == 64 ? asD(k[0]) == asD(k[1]) : asF(k[0]) == asF(k[1]);
    case FLT: return kw[0] == 64 ? asD(k[0]) < asD(k[1]) : asF(k[0]) < asF(k[1]);
    case FLE: return kw[0] == 64 ? asD(k[0]) <= asD(k[1]) : asF(k[0]) <= asF(k[1]);
    case FISNAN: return kw[0] == 64 ? std::isnan(asD(k[0])) : std::isnan(asF(k[0]));
    case FTOSI: { double d = kw[0] == 64 ? asD(k[0]) : (double)asF(k[0]);
      if (std::isnan(d) || d >= 9.2233720368547758e18 || d < -9.2233720368547758e18) return (1ull << (w - 1)) & m;
      int64_t v = (int64_t)d; if (w < 64 && (v > (int64_t)(m >> 1) || v < -(int64_t)(m >> 1) - 1)) return (1ull << (w - 1)); return (uint64_t)v & m; }
    case FTOUI: { double d = kw[0] == 64 ? asD(k[0]) : (double)asF(k[0]);
      if (std::isnan(d) || d <= -1.0 || d >= 18446744073709551616.0) return m; return (uint64_t)d & m; }
    case SITOF: return w == 64 ? fromD((double)sext(k[0], kw[0])) : fromF((float)sext(k[0], kw[0]));
    case UITOF: return w == 64 ? fromD((double)k[0]) : fromF((float)k[0]);
    case FCONV: return w == 64 ? fromD((double)asF(k[0])) : fromF((float)asD(k[0]));
    case UF: { uint64_t h = mix(aux, 77); for (unsigned i = 0; i < n; i++) h = mix(h, k[i]); h = mix(h, h >> 31); return h & m; }
    default: throw std::runtime_error("evalOp: bad op");
  }
}

static E fold(Op op, unsigned w, uint64_t aux, const std::vector<E>& k) {
  uint64_t v[8]; unsigned kw[8];
  for (size_t i = 0; i < k.size(); i++) { v[i] = k[i]->aux; kw[i] = k[i]->w; }
  return mkConst(evalOp(op, w, aux, v, kw, k.size()), w);
}

static bool isZero(E e) { return e->op == CONST && e->aux == 0; }
static bool isOnes(E e) { return e->op == CONST && e->aux == maskOf(e->w); }
static bool isOne(E e) { return e->op == CONST && e->aux == 1; }

E mkNot(E a) { return mkBin(XOR, a, mkConst(~0ull, a->w)); }

static unsigned ctz(uint64_t v) { return v ? __builtin_ctzll(v) : 64; }

// low n bits of e, rebuilt at width n (equal to mkExtract(e,0,n))
static E narrow(E e, unsigned n) {
  if (n >= e->w) return e;
  return mkExtract(e, 0, n);
}
E mkBin(Op op, E a, E b) {
  unsigned w = a->w;
  if (a->w != b->w) throw std::runtime_error("mkBin width mismatch");
  bool cmp = op == EQ || op == ULT || op == ULE || op == SLT || op == SLE;
  if (op == EQ) return mkEq(a, b);
  if (a->isConst() && b->isConst()) return fold(op, cmp ? 1 : w, 0, {a, b});
  // canonicalise commutative: const on right, otherwise by id
  if (op == ADD || op == MUL || op == AND || op == OR || op == XOR) {
    if (a->isConst() || (!b->isConst() && a->id > b->id)) std::swap(a, b);
  }
  switch (op) {
    case ADD:
      if (isZero(b)) return a;
      if (b->isConst() && a->op == ADD && a->k[1]->isConst())
        return mkBin(ADD, a->k[0], mkConst(a->k[1]->aux + b->aux, w));
      if (a->op == SUB && a->k[1] == b) return a->k[0];
      if (b->op == SUB && b->k[1] == a) return b->k[0];
      // (x + c) + y  -> (x + y) + c
      if (a->op == ADD && a->k[1]->isConst()) return mkBin(ADD, mkBin(ADD, a->k[0], b), a->k[1]);
      if (b->op == ADD && b->k[1]->isConst()) return mkBin(ADD, mkBin(ADD, a, b->k[0]), b->k[1]);
      if (w == 1) return mkBin(XOR, a, b);
      break;
    case SUB:
      if (isZero(b)) return a;
      if (a == b) return mkConst(0, w);
      if (b->isConst()) return mkBin(ADD, a, mkConst(0 - b->aux, w));
      if (a->op == ADD) {
        if (a->k[0] == b) return a->k[1];
        if (a->k[1] == b) return a->k[0];
        if (b->op == ADD && a->k[1]->isConst() && b->k[1]->isConst())
          return mkBin(ADD, mkBin(SUB, a->k[0], b->k[0]), mkConst(a->k[1]->aux - b->k[1]->aux, w));
        if (a->k[1]->isConst()) return mkBin(ADD, mkBin(SUB, a->k[0], b), a->k[1]);
      }
      if (b->op == ADD && b->k[1]->isConst())
        return mkBin(ADD, mkBin(SUB, a, b->k[0]), mkConst(0 - b->k[1]->aux, w));
      if (w == 1) return mkBin(XOR, a, b);
      break;
    case MUL:
      if (isZero(b)) return b;
      if (isOne(b)) return a;
      if (w == 1) return mkBin(AND, a, b);
      if (b->isConst() && a->op == MUL && a->k[1]->isConst()) return mkBin(MUL, a->k[0], mkConst(a->k[1]->aux * b->aux, w));
      if (b->isConst() && (b->aux & (b->aux - 1)) == 0) return mkBin(SHL, a, mkConst(ctz(b->aux), w));
      break;
    case UDIV: if (isOne(b)) return a;
      if (b->isConst() && b->aux && (b->aux & (b->aux - 1)) == 0) return mkBin(LSHR, a, mkConst(ctz(b->aux), w));
      break;
    case SDIV: if (isOne(b)) return a; break;
    case UREM: if (isOne(b)) return mkConst(0, w);
      if (b->isConst() && b->aux && (b->aux & (b->aux - 1)) == 0) return mkBin(AND, a, mkConst(b->aux - 1, w));
      break;
    case SREM: if (isOne(b)) return mkConst(0, w); break;
    case AND:
      if (isZero(b)) return b;
      if (isOnes(b)) return a;
      if (a == b) return a;
      if (w == 1 && ((a->op == XOR && isOne(a->k[1]) && a->k[0] == b) || (b->op == XOR && isOne(b->k[1]) && b->k[0] == a))) return mkConst(0, 1);
      if (b->isConst() && a->op == AND && a->k[1]->isConst()) return mkBin(AND, a->k[0], mkConst(a->k[1]->aux & b->aux, w));
      if (b->isConst() && a->op == ZEXT && (b->aux & maskOf(a->k[0]->w)) == maskOf(a->k[0]->w)) return a;
      // mask of low bits == zext(extract)
      if (b->isConst() && ((b->aux + 1) & b->aux) == 0) { unsigned nb = ctz(b->aux + 1); if (nb < w) return mkZext(mkExtract(a, 0, nb), w); }
      if (b->isConst() && a->op == CONCAT) { unsigned lw = a->k[1]->w; return mkConcat(mkBin(AND, a->k[0], mkConst(b->aux >> lw, a->k[0]->w)), mkBin(AND, a->k[1], mkConst(b->aux, lw))); }
      break;
    case OR:
      if (isZero(b)) return a;
      if (isOnes(b)) return b;
      if (a == b) return a;
      if (w == 1 && ((a->op == XOR && isOne(a->k[1]) && a->k[0] == b) || (b->op == XOR && isOne(b->k[1]) && b->k[0] == a))) return mkConst(1, 1);
      // zext(lo) | (concat(hi,0..))
      {
        E x = a, y = b;
        for (int t = 0; t < 2; t++, std::swap(x, y)) {
          if (x->op == ZEXT && y->op == CONCAT && isZero(y->k[1]) && y->k[1]->w >= x->k[0]->w)
            return mkConcat(y->k[0], mkZext(x->k[0], y->k[1]->w));
        }
      }
      break;
    case XOR:
      if (isZero(b)) return a;
      if (a == b) return mkConst(0, w);
      if (b->isConst() && a->op == XOR && a->k[1]->isConst()) return mkBin(XOR, a->k[0], mkConst(a->k[1]->aux ^ b->aux, w));
      if (w == 1 && isOne(b)) {
        if (a->op == ITE) return mkIte(a->k[0], mkNot(a->k[1]), mkNot(a->k[2]));
        if (a->op == ULT) return mkBin(ULE, a->k[1], a->k[0]);
        if (a->op == ULE) return mkBin(ULT, a->k[1], a->k[0]);
        if (a->op == SLT) return mkBin(SLE, a->k[1], a->k[0]);
        if (a->op == SLE) return mkBin(SLT, a->k[1], a->k[0]);
        if (a->op == RLT) return in2(RLE, 1, a->k[1], a->k[0]);
        if (a->op == RLE) return in2(RLT, 1, a->k[1], a->k[0]);
      }
      break;
    case SHL:
      if (isZero(b)) return a;
      if (b->isConst()) {
        if (b->aux >= w) return mkConst(0, w);
        return mkConcat(mkExtract(a, 0, w - b->aux), mkConst(0, b->aux));
      }
      break;
    case LSHR:
      if (isZero(b)) return a;
      if (b->isConst()) {
        if (b->aux >= w) return mkConst(0, w);
        return mkZext(mkExtract(a, b->aux, w - b->aux), w);
      }
      break;
    case ASHR:
      if (isZero(b)) return a;
      if (b->isConst() && b->aux < w) return mkSext(mkExtract(a, b->aux, w - b->aux), w);
      break;
    case ULT:
      if (a == b) return mkConst(0, 1);
      if (isZero(b)) return mkConst(0, 1);
      if (isZero(a)) return mkNot(mkEq(b, a));
      if (isOne(b)) return mkEq(a, mkConst(0, w));
      if (b->isConst() && a->op == ZEXT) { unsigned iw = a->k[0]->w; if (b->aux > maskOf(iw)) return mkConst(1, 1); return mkBin(ULT, a->k[0], mkConst(b->aux, iw)); }
      if (a->isConst() && b->op == ZEXT) { unsigned iw = b->k[0]->w; if (a->aux >= maskOf(iw)) return mkConst(0, 1); return mkBin(ULT, mkConst(a->aux, iw), b->k[0]); }
      break;
    case ULE:
      if (a == b) return mkConst(1, 1);
      if (isZero(a)) return mkConst(1, 1);
      if (isOnes(b)) return mkConst(1, 1);
      if (isZero(b)) return mkEq(a, b);
      if (b->isConst()) return mkBin(ULT, a, mkConst(b->aux + 1, w));
      if (a->isConst()) return mkBin(ULT, mkConst(a->aux - 1, w), b);
      break;
    case SLT:
      if (a == b) return mkConst(0, 1);
      if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(ULT, a->k[0], b->k[0]);
      if (a->op == SEXT && b->op == SEXT && a->k[0]->w == b->k[0]->w) return mkBin(SLT, a->k[0], b->k[0]);
      if (a->op == ZEXT && b->isConst()) { if (sext(b->aux, w) <= 0) return mkConst(0, 1); return mkBin(ULT, a, b); }
      if (b->op == ZEXT && a->isConst()) { if (sext(a->aux, w) < 0) return mkConst(1, 1); return mkBin(ULT, a, b); }
      if (a->op == SEXT && b->isConst()) { int64_t v = sext(b->aux, w); unsigned iw = a->k[0]->w; int64_t mx = (int64_t)(maskOf(iw) >> 1), mn = -mx - 1;
        if (v > mx) return mkConst(1, 1); if (v <= mn) return mkConst(0, 1); return mkBin(SLT, a->k[0], mkConst(v, iw)); }
      if (b->op == SEXT && a->isConst()) { int64_t v = sext(a->aux, w); unsigned iw = b->k[0]->w; int64_t mx = (int64_t)(maskOf(iw) >> 1), mn = -mx - 1;
        if (v >= mx) return mkConst(0, 1); if (v < mn) return mkConst(1, 1); return mkBin(SLT, mkConst(v, iw), b->k[0]); }
      break;
    case SLE:
      if (a == b) return mkConst(1, 1);
      if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(ULE, a->k[0], b->k[0]);
      if (a->op == SEXT && b->op == SEXT && a->k[0]->w == b->k[0]->w) return mkBin(SLE, a->k[0], b->k[0]);
      if (b->isConst()) { if (sext(b->aux, w) == (int64_t)(maskOf(w) >> 1)) return mkConst(1, 1); return mkBin(SLT, a, mkConst(b->aux + 1, w)); }
      if (a->isConst()) { if (a->aux == 1ull << (w - 1)) return mkConst(1, 1); return mkBin(SLT, mkConst(a->aux - 1, w), b); }
      break;
    default: break;
  }
  // hard operations on values known to be small are done at a smaller width
  if (w > 8) {
    unsigned n = 0; bool uns = false;
    switch (op) {
      case MUL: if (!a->isConst() && !b->isConst()) n = a->sw + b->sw; break;
      case SDIV: n = std::max(a->sw + 1, (int)b->sw); break;
      case SREM: n = std::max(a->sw + 1, (int)b->sw); break;
      case UDIV: case UREM: n = std::max(a->uw, b->uw); if (n == 0) n = 1; uns = true; break;
      case SLT: case SLE: n = std::max(a->sw, b->sw); break;
      case ULT: case ULE: n = std::max(a->uw, b->uw); if (n == 0) n = 1; uns = true; if (std::max(a->sw, b->sw) < n) n = std::max(a->sw, b->sw); break;
      default: break;
    }
    if (n && n < w && (w - n) >= 4) {
      // divisors are non-zero here: the executor checks that before every division
      E x = narrow(a, n), y = narrow(b, n);
      E r = mkBin(op, x, y);
      return cmp ? r : uns ? mkZext(r, w) : mkSext(r, w);
    }
  }
  // push constant through ITE with constant leaves
  if (b->isConst() && a->op == ITE && a->k[1]->isConst() && a->k[2]->isConst())
    return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
  if (a->isConst() && b->op == ITE && b->k[1]->isConst() && b->k[2]->isConst())
    return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
  return in2(op, cmp ? 1 : w, a, b);
}

static bool isRealBits(E e) {
  if (e->op == R2B) return true;
  if (e->op == ITE) return isRealBits(e->k[1]) || isRealBits(e->k[2]);
  return false;
}

E mkEq(E a, E b) {
  if (a == b) return mkConst(1, 1);
  if (a->w != b->w) throw std::runtime_error("mkEq width mismatch");
  if (a->isConst() && b->isConst()) return mkConst(a->aux == b->aux, 1);
  if (a->isConst() || (!b->isConst() && a->id > b->id)) std::swap(a, b);
  if (a->w == 1 && b->isConst()) return b->aux ? a : mkNot(a);
  if (isRealBits(a) || isRealBits(b)) return mkRBin(REQ, mkB2R(a), mkB2R(b));
  if (b->isConst()) {
    if (a->op == ZEXT) {
      unsigned iw = a->k[0]->w;
      if (b->aux > maskOf(iw)) return mkConst(0, 1);
      return mkEq(a->k[0], mkConst(b->aux, iw));
    }
    if (a->op == SEXT) {
      unsigned iw = a->k[0]->w;
      if ((uint64_t)sext(b->aux & maskOf(iw), iw) % 1 == 0) {
        uint64_t back = (uint64_t)sext(b->aux & maskOf(iw), iw) & maskOf(a->w);
        if (back != b->aux) return mkConst(0, 1);
        return mkEq(a->k[0], mkConst(b->aux, iw));
      }
    }
    if (a->op == ADD && a->k[1]->isConst()) return mkEq(a->k[0], mkConst(b->aux - a->k[1]->aux, a->w));
    if (a->op == XOR && a->k[1]->isConst()) return mkEq(a->k[0], mkConst(b->aux ^ a->k[1]->aux, a->w));
    if (a->op == CONCAT) {
      unsigned lw = a->k[1]->w;
      return mkBoolAnd(mkEq(a->k[0], mkConst(b->aux >> lw, a->k[0]->w)), mkEq(a->k[1], mkConst(b->aux, lw)));
    }
    if (a->op == ITE) {
      E t = mkEq(a->k[1], b), f = mkEq(a->k[2], b);
      if (t->isConst() || f->isConst()) return mkIte(a->k[0], t, f);
    }
  } else {
    if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
    if (a->op == SEXT && b->op == SEXT && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
    if (a->op == ADD && b->op == ADD && a->k[1] == b->k[1]) return mkEq(a->k[0], b->k[0]);
  }
  if (a->w > 8) { unsigned n = std::max(a->sw, b->sw); if (std::max(a->uw, b->uw) < n) n = std::max<unsigned>(1, std::max(a->uw, b->uw)); if (n < a->w && a->w - n >= 4) return mkEq(mkExtract(a, 0, n), mkExtract(b, 0, n)); }
  return in2(EQ, 1, a, b);
}

E mkBoolAnd(E a, E b) { return mkBin(AND, a, b); }
E mkBoolOr(E a, E b) { return mkBin(OR, a, b); }

E mkIte(E c, E a, E b) {
  if (c->isConst()) return c->aux ? a : b;
  if (a == b) return a;
  if (a->w == 1) {
    if (a->isConst() && b->isConst()) return a->aux ? c : mkNot(c);
    if (a->isConst()) return a->aux ? mkBoolOr(c, b) : mkBoolAnd(mkNot(c), b);
    if (b->isConst()) return b->aux ? mkBoolOr(mkNot(c), a) : mkBoolAnd(c, a);
  }
  if (a->w == 0) return in3(RITE, 0, c, a, b);
  if (c->op == XOR && isOne(c->k[1]) && c->w == 1) return mkIte(c->k[0], b, a);
  if (a->op == ITE && a->k[0] == c) return mkIte(c, a->k[1], b);
  if (b->op == ITE && b->k[0] == c) return mkIte(c, a, b->k[2]);
  return in3(ITE, a->w, c, a, b);
}

E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (lo + w > a->w) throw std::runtime_error("mkExtract range");
  if (a->isConst()) return mkConst(a->aux >> lo, w);
  switch (a->op) {
    case EXTRACT: return mkExtract(a->k[0], lo + a->aux, w);
    case CONCAT: {
      unsigned lw = a->k[1]->w;
      if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
      if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
      return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo));
    }
    case ZEXT: {
      unsigned iw = a->k[0]->w;
      if (lo >= iw) return mkConst(0, w);
      if (lo + w <= iw) return mkExtract(a->k[0], lo, w);
      return mkZext(mkExtract(a->k[0], lo, iw - lo), w);
    }
    case SEXT: {
      unsigned iw = a->k[0]->w;
      if (lo + w <= iw) return mkExtract(a->k[0], lo, w);
      if (lo < iw) return mkSext(mkExtract(a->k[0], lo, iw - lo), w);
      return mkSext(mkExtract(a->k[0], iw - 1, 1), w);
    }
    case ITE:
      if (!isRealBits(a)) {
        if (lo == 0 || a->k[1]->isConst() || a->k[2]->isConst() || a->k[1]->op == CONCAT || a->k[1]->op == ZEXT)
          return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
      }
      break;
    case AND: case OR: case XOR:
      return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
    case ADD: case SUB: case MUL:
      if (lo == 0) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
      break;
    default: break;
  }
  return in1(EXTRACT, w, a, lo);
}

E mkConcat(E hi, E lo) {
  if (hi->w == 0 || lo->w == 0) throw std::runtime_error("mkConcat w0");
  unsigned w = hi->w + lo->w;
  if (w > 64) throw std::runtime_error("mkConcat >64");
  if (hi->isConst() && lo->isConst()) return mkConst((hi->aux << lo->w) | lo->aux, w);
  if (isZero(hi)) return mkZext(lo, w);
  // extract adjacency
  if (hi->op == EXTRACT && lo->op == EXTRACT && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->w)
    return mkExtract(hi->k[0], lo->aux, w);
  if (lo->op == CONCAT && hi->op == EXTRACT && lo->k[0]->op == EXTRACT && hi->k[0] == lo->k[0]->k[0] && hi->aux == lo->k[0]->aux + lo->k[0]->w)
    return mkConcat(mkExtract(hi->k[0], lo->k[0]->aux, hi->w + lo->k[0]->w), lo->k[1]);
  if (hi->op == EXTRACT && hi->aux >= lo->w && mkExtract(hi->k[0], hi->aux - lo->w, lo->w) == lo) return mkExtract(hi->k[0], hi->aux - lo->w, w);
  // hi is low-extract of x and lo is x itself? (x small)
  if (hi->op == EXTRACT && hi->k[0] == lo && hi->aux == lo->w) return mkExtract(lo, 0, w);
  // ite distribution for identical conditions
  if (hi->op == ITE && lo->op == ITE && hi->k[0] == lo->k[0])
    return mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[1]), mkConcat(hi->k[2], lo->k[2]));
  if (hi->op == CONCAT) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
  if (hi->isConst() && lo->op == CONCAT && lo->k[0]->isConst())
    return mkConcat(mkConst((hi->aux << lo->k[0]->w) | lo->k[0]->aux, hi->w + lo->k[0]->w), lo->k[1]);
  return in2(CONCAT, w, hi, lo);
}

E mkZext(E a, unsigned w) {
  if (a->w == w) return a;
  if (a->isConst()) return mkConst(a->aux, w);
  if (a->op == ZEXT) return mkZext(a->k[0], w);
  if (a->op == ITE && a->k[1]->isConst() && a->k[2]->isConst()) return mkIte(a->k[0], mkZext(a->k[1], w), mkZext(a->k[2], w));
  return in1(ZEXT, w, a);
}
E mkSext(E a, unsigned w) {
  if (a->w == w) return a;
  if (a->isConst()) return mkConst((uint64_t)sext(a->aux, a->w), w);
  if (a->op == SEXT) return mkSext(a->k[0], w);
  if (a->op == ZEXT) return mkZext(a->k[0], w);
  if (a->op == ITE && a->k[1]->isConst() && a->k[2]->isConst()) return mkIte(a->k[0], mkSext(a->k[1], w), mkSext(a->k[2], w));
  return in1(SEXT, w, a);
}

// ---------------- floating point ------------------
static const char* fpName(Op op) {
  switch (op) { case FADD: return "fadd"; case FSUB: return "fsub"; case FMUL: return "fmul"; case FDIV: return "fdiv"; case FREM: return "frem";
    case FSQRT: return "fsqrt"; case FFMA: return "ffma"; case FFLOOR: return "ffloor"; case FCEIL: return "fceil"; case FTRUNC: return "ftrunc";
    case FRINT: return "frint"; case FROUND: return "fround"; case FTOSI: return "ftosi"; case FTOUI: return "ftoui"; case SITOF: return "sitof"; case UITOF: return "uitof"; case FCONV: return "fconv";
    default: return "f?"; }
}
static uint32_t ufFor(Op op, unsigned w, unsigned kw) { return ufId(std::string(fpName(op)) + "_" + std::to_string(kw) + "_" + std::to_string(w)); }

E mkFp1(Op op, E a) {
  if (gFpMode == FpMode::REAL) {
    if (a->isConst()) { E c = fold(op, a->w, 0, {a}); if (op != FSQRT) return c; }
    E r = mkB2R(a);
    if (op == FSQRT) return mkR2B(mkRUF(ufId("rsqrt"), {r}), a->w);
    if (op == FFLOOR) return mkR2B(in1(RFLOOR, 0, r), a->w);
    return mkR2B(mkRUF(ufId(std::string("r") + fpName(op)), {r}), a->w);
  }
  if (a->isConst()) return fold(op, a->w, 0, {a});
  if (gFpMode == FpMode::UF) return mkUF(ufFor(op, a->w, a->w), a->w, {a});
  return in1(op, a->w, a);
}
E mkFp2(Op op, E a, E b) {
  if (gFpMode == FpMode::REAL) {
    Op r = op == FADD ? RADD : op == FSUB ? RSUB : op == FMUL ? RMUL : op == FDIV ? RDIV : RUF;
    if (r == RUF) return mkR2B(mkRUF(ufId(std::string("r") + fpName(op)), {mkB2R(a), mkB2R(b)}), a->w);
    return mkR2B(mkRBin(r, mkB2R(a), mkB2R(b)), a->w);
  }
  if (a->isConst() && b->isConst()) return fold(op, a->w, 0, {a, b});
  if ((op == FADD || op == FMUL) && a->id > b->id) std::swap(a, b);
  if (gFpMode == FpMode::UF) {
    // exact IEEE identities that hold for every operand (NaN payloads aside)
    uint64_t one = a->w == 64 ? 0x3ff0000000000000ull : 0x3f800000ull;
    if (op == FMUL && a->isConst() && a->aux == one) return b;
    if (op == FMUL && b->isConst() && b->aux == one) return a;
    if (op == FDIV && b->isConst() && b->aux == one) return a;
    uint64_t nz = 1ull << (a->w - 1);
    if (op == FADD && a->isConst() && a->aux == nz) return b;
    if (op == FADD && b->isConst() && b->aux == nz) return a;
    // a select against a neutral constant (as the optimiser writes a conditional update) is a conditional operation
    auto neutral = [&](E e, bool right) { if (!e->isConst()) return false; return op == FMUL ? e->aux == one : op == FADD ? e->aux == nz : op == FDIV ? right && e->aux == one : op == FSUB ? right && e->aux == 0 : false; };
    for (int s = 0; s < 2; s++) { E x = s ? b : a, y = s ? a : b;
      if (x->op == ITE && (neutral(x->k[1], s) || neutral(x->k[2], s)))
        return mkIte(x->k[0], s ? mkFp2(op, y, x->k[1]) : mkFp2(op, x->k[1], y), s ? mkFp2(op, y, x->k[2]) : mkFp2(op, x->k[2], y)); }
    if (op == FSUB) { // a-b == a+(-b)
      E nb = mkBin(XOR, b, mkConst(1ull << (b->w - 1), b->w));
      return mkFp2(FADD, a, nb);
    }
    return mkUF(ufFor(op, a->w, a->w), a->w, {a, b});
  }
  return in2(op, a->w, a, b);
}
E mkFma(E a, E b, E c) {
  if (gFpMode == FpMode::REAL) return mkFp2(FADD, mkFp2(FMUL, a, b), c);
  if (a->isConst() && b->isConst() && c->isConst()) return fold(FFMA, a->w, 0, {a, b, c});
  if (gFpMode == FpMode::UF) return mkUF(ufFor(FFMA, a->w, a->w), a->w, {a, b, c});
  return in3(FFMA, a->w, a, b, c);
}
E mkFCmp(Op op, E a, E b) {
  if (gFpMode == FpMode::REAL) {
    return mkRBin(op == FEQ ? REQ : op == FLT ? RLT : RLE, mkB2R(a), mkB2R(b));
  }
  if (a->isConst() && b->isConst()) return fold(op, 1, 0, {a, b});
  if (op == FEQ && a->id > b->id) std::swap(a, b);
  if (op == FLT && a == b) return mkConst(0, 1);
  if ((op == FEQ || op == FLE) && a == b) return mkNot(mkIsNan(a));
  return in2(op, 1, a, b);
}
E mkIsNan(E a) {
  if (gFpMode == FpMode::REAL) { if (a->isConst()) return fold(FISNAN, 1, 0, {a}); return mkConst(0, 1); }
  if (a->isConst()) return fold(FISNAN, 1, 0, {a});
  if (a->op == SITOF || a->op == UITOF) return mkConst(0, 1);
  return in1(FISNAN, 1, a);
}
E mkFToI(Op op, E a, unsigned w) {
  if (a->isConst()) return fold(op, w, 0, {a});
  if (gFpMode == FpMode::REAL) {
    E r = mkB2R(a);
    return in1(R2I, w, r); // truncation toward zero
  }
  if (gFpMode == FpMode::UF) {
    if (a->op == UF && (gUFs[a->aux].rfind("sitof", 0) == 0) && a->k[0]->w <= 32 && w >= a->k[0]->w && op == FTOSI && a->w == 64) return mkSext(a->k[0], w);
    return mkUF(ufFor(op, w, a->w), w, {a});
  }
  if (op == FTOSI && a->op == SITOF && a->w == 64 && a->k[0]->w <= 32 && w >= a->k[0]->w) return mkSext(a->k[0], w);
  return in1(op, w, a);
}
E mkIToF(Op op, E a, unsigned w) {
  if (a->isConst()) return fold(op, w, 0, {a});
  if (gFpMode == FpMode::REAL) {
    return mkR2B(in1(I2R, 0, op == SITOF ? mkSext(a, 64) : mkZext(a, 64)), w);
  }
  if (gFpMode == FpMode::UF) return mkUF(ufFor(op, w, a->w), w, {a});
  return in1(op, w, a);
}
E mkFConv(E a, unsigned w) {
  if (a->w == w) return a;
  if (a->isConst()) return fold(FCONV, w, 0, {a});
  if (gFpMode == FpMode::REAL) return mkR2B(mkB2R(a), w);
  if (a->op == FCONV && a->w == 64 && w == 32) return a->k[0]; // float->double->float is exact
  if (gFpMode == FpMode::UF) {
    if (a->op == UF && a->aux == ufFor(FCONV, 64, 32) && w == 32) return a->k[0];
    return mkUF(ufFor(FCONV, w, a->w), w, {a});
  }
  return in1(FCONV, w, a);
}
E mkUF(uint32_t f, unsigned w, const std::vector<E>& args) { return intern(UF, w, f, args.data(), args.size()); }

// ---------------- reals ------------------
E mkRConst(double d) { if (d == 0) d = 0.0; return intern(RCONST, 0, fromD(d), nullptr, 0); }
E mkB2R(E a) {
  if (a->isConst()) {
    double d = a->w == 64 ? asD(a->aux) : (double)asF(a->aux);
    if (!std::isfinite(d)) return in1(B2R, 0, a); // opaque (NaN / inf are outside the exact-arithmetic model)
    return mkRConst(d);
  }
  if (a->op == R2B) return a->k[0];
  if (a->op == ITE) return mkIte(a->k[0], mkB2R(a->k[1]), mkB2R(a->k[2]));
  // sign-bit flip == negation
  if (a->op == XOR && a->k[1]->isConst() && a->k[1]->aux == (1ull << (a->w - 1))) return mkRBin(RSUB, mkRConst(0), mkB2R(a->k[0]));
  return in1(B2R, 0, a);
}
E mkR2B(E a, unsigned w) {
  if (a->op == RCONST && w == 64) return mkConst(a->aux, 64);
  if (a->op == RCONST && w == 32 && (double)(float)asD(a->aux) == asD(a->aux)) return mkConst(fromF((float)asD(a->aux)), 32);
  if (a->op == B2R && a->k[0]->w == w) return a->k[0];
  return in1(R2B, w, a);
}
E mkRBin(Op op, E a, E b) {
  bool cmp = op == RLT || op == RLE || op == REQ;
  if (a->op == RCONST && b->op == RCONST) {
    volatile double x = asD(a->aux), y = asD(b->aux);
    switch (op) {
      case RLT: return mkConst(x < y, 1);
      case RLE: return mkConst(x <= y, 1);
      case REQ: return mkConst(x == y, 1);
      case RADD: case RSUB: { volatile double yy = op == RADD ? y : -y; volatile double s = x + yy, bb = s - x; volatile double err = (x - (s - bb)) + (yy - bb); if (err == 0 && std::isfinite(s)) return mkRConst(s); break; }
      case RMUL: { volatile double p = x * y; if (std::isfinite(p) && (p == 0 ? (x == 0 || y == 0) : std::fabs(p) > 1e-280) && std::fma(x, y, -p) == 0) return mkRConst(p); break; }
      case RDIV: { if (y != 0) { volatile double q = x / y; if (std::isfinite(q) && (x == 0 || std::fabs(q) > 1e-280) && std::fma(q, y, -x) == 0) return mkRConst(q); } break; }
      default: break;
    }
  }
  auto z = [](E e) { return e->op == RCONST && asD(e->aux) == 0; };
  auto one = [](E e) { return e->op == RCONST && asD(e->aux) == 1; };
  if (a == b) {
    if (op == RLT) return mkConst(0, 1);
    if (op == RLE || op == REQ) return mkConst(1, 1);
    if (op == RSUB) return mkRConst(0);
  }
  if (op == RADD) { if (z(a)) return b; if (z(b)) return a; }
  if (op == RSUB && z(b)) return a;
  if (op == RMUL) { if (one(a)) return b; if (one(b)) return a; if (z(a)) return a; if (z(b)) return b; }
  if (op == RDIV && one(b)) return a;
  if ((op == RADD || op == RMUL || op == REQ) && a->id > b->id) std::swap(a, b);
  return in2(op, cmp ? 1 : 0, a, b);
}
E mkRUF(uint32_t f, const std::vector<E>& args) { return intern(RUF, 0, f, args.data(), args.size()); }

// ---------------- deps ------------------
static std::map<std::vector<uint32_t>, std::unique_ptr<std::vector<uint32_t>>> depPool;
static const std::vector<uint32_t>* poolDeps(std::vector<uint32_t>&& v) {
  auto it = depPool.find(v);
  if (it != depPool.end()) return it->second.get();
  auto p = std::make_unique<std::vector<uint32_t>>(v);
  auto* r = p.get();
  depPool[std::move(v)] = std::move(p);
  return r;
}
const std::vector<uint32_t>& depsOf(E root) {
  if (root->deps) return *root->deps;
  std::vector<E> st{root};
  while (!st.empty()) {
    E e = st.back();
    if (e->deps) { st.pop_back(); continue; }
    bool ready = true;
    for (E c : e->k) if (!c->deps) { st.push_back(c); ready = false; }
    if (!ready) continue;
    st.pop_back();
    std::vector<uint32_t> r;
    if (e->op == VAR) r.push_back((uint32_t)e->aux);
    if (e->op == UF || e->op == RUF) r.push_back(0x80000000u | (uint32_t)e->aux);
    bool same = r.empty(); const std::vector<uint32_t>* only = nullptr;
    for (E c : e->k) {
      if (c->deps->empty()) continue;
      if (!only) only = c->deps; else if (only != c->deps) same = false;
    }
    if (same && only) { e->deps = only; continue; }
    for (E c : e->k) r.insert(r.end(), c->deps->begin(), c->deps->end());
    std::sort(r.begin(), r.end());
    r.erase(std::unique(r.begin(), r.end()), r.end());
    e->deps = poolDeps(std::move(r));
  }
  return *root->deps;
}

// ---------------- evaluation ------------------
std::optional<uint64_t> evalExpr(E root, const Model& m) {
  static std::vector<uint64_t> val; static std::vector<uint32_t> stamp; static uint32_t gen = 0; static std::vector<uint8_t> bad;
  if (val.size() < nextId) { val.resize(nextId + 4096); stamp.resize(nextId + 4096, 0); bad.resize(nextId + 4096); }
  gen++;
  std::vector<E> st{root};
  while (!st.empty()) {
    E e = st.back();
    if (stamp[e->id] == gen) { st.pop_back(); continue; }
    if (e->op == CONST) { val[e->id] = e->aux; bad[e->id] = 0; stamp[e->id] = gen; st.pop_back(); continue; }
    if (e->op == VAR) { val[e->id] = m.get((uint32_t)e->aux) & maskOf(e->w); bad[e->id] = 0; stamp[e->id] = gen; st.pop_back(); continue; }
    if (e->op >= B2R) { bad[e->id] = 1; stamp[e->id] = gen; st.pop_back(); continue; }
    bool ready = true;
    for (E c : e->k) if (stamp[c->id] != gen) { st.push_back(c); ready = false; }
    if (!ready) continue;
    st.pop_back();
    stamp[e->id] = gen;
    uint64_t kv[16]; unsigned kw[16]; bool b = false;
    if (e->k.size() > 16) { bad[e->id] = 1; continue; }
    if (e->op == ITE && !bad[e->k[0]->id]) {
      E sel = val[e->k[0]->id] ? e->k[1] : e->k[2];
      val[e->id] = val[sel->id]; bad[e->id] = bad[sel->id]; continue;
    }
    for (size_t i = 0; i < e->k.size(); i++) { kv[i] = val[e->k[i]->id]; kw[i] = e->k[i]->w; b |= bad[e->k[i]->id]; }
    bad[e->id] = b;
    if (!b) val[e->id] = evalOp(e->op, e->w, e->aux, kv, kw, e->k.size());
  }
  if (bad[root->id]) return std::nullopt;
  return val[root->id];
}

static const char* opn[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","fadd","fsub","fmul","fdiv","frem","fsqrt","ffma","ffloor","fceil","ftrunc","frint","fround","feq","flt","fle","fisnan","ftosi","ftoui","sitof","uitof","fconv","uf","b2r","r2b","rconst","radd","rsub","rmul","rdiv","rite","rlt","rle","req","ruf","rfloor","i2r","r2i"};
std::string toStr(E e, int depth) {
  std::ostringstream o;
  if (e->op == CONST) { o << (e->w == 1 ? (e->aux ? "T" : "F") : std::to_string((long long)sext(e->aux, e->w))); return o.str(); }
  if (e->op == VAR) return gVars[e->aux].name;
  if (e->op == RCONST) { o << asD(e->aux); return o.str(); }
  if (depth <= 0) return "..";
  o << "(" << (e->op == UF || e->op == RUF ? gUFs[e->aux] : opn[e->op]);
  if (e->op == EXTRACT) o << ":" << e->aux << "+" << e->w;
  for (E c : e->k) o << " " << toStr(c, depth - 1);
  o << ")";
  return o.str();
}
E rebuild(E e, const std::vector<E>& k) {
  switch (e->op) {
    case ITE: return mkIte(k[0], k[1], k[2]);
    case EQ: return mkEq(k[0], k[1]);
    case CONCAT: return mkConcat(k[0], k[1]);
    case EXTRACT: return mkExtract(k[0], e->aux, e->w);
    case ZEXT: return mkZext(k[0], e->w);
    case SEXT: return mkSext(k[0], e->w);
    case FADD: case FSUB: case FMUL: case FDIV: case FREM: return mkFp2(e->op, k[0], k[1]);
    case FSQRT: case FFLOOR: case FCEIL: case FTRUNC: case FRINT: case FROUND: return mkFp1(e->op, k[0]);
    case FFMA: return mkFma(k[0], k[1], k[2]);
    case FEQ: case FLT: case FLE: return mkFCmp(e->op, k[0], k[1]);
    case FISNAN: return mkIsNan(k[0]);
    case FTOSI: case FTOUI: return mkFToI(e->op, k[0], e->w);
    case SITOF: case UITOF: return mkIToF(e->op, k[0], e->w);
    case FCONV: return mkFConv(k[0], e->w);
    case UF: return mkUF(e->aux, e->w, k);
    default: if (e->op >= ADD && e->op <= SLE) return mkBin(e->op, k[0], k[1]); return e;
  }
}
} // namespace vx
