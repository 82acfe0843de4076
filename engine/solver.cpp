#include "solver.h"
#include <algorithm>
#include <cstdio>
#include <stdexcept>
#include <fstream>
namespace vx {
using z3::expr;
Solver::Solver() {}

z3::sort Solver::fpSort(unsigned w) { return w == 64 ? c.fpa_sort(11, 53) : w == 32 ? c.fpa_sort(8, 24) : throw std::runtime_error("fp width"); }
static bool isFpOp(Op o) { return (o >= FADD && o <= FROUND) || o == SITOF || o == UITOF || o == FCONV; }

static std::string exactDec(double d) {
  char buf[2048]; snprintf(buf, sizeof buf, "%.1100f", d);
  std::string s(buf);
  size_t p = s.find('.');
  if (p != std::string::npos) { size_t e = s.size(); while (e > p + 1 && s[e - 1] == '0') e--; if (e == p + 1) e = p; s.resize(e); }
  return s;
}

expr Solver::trFp(E e) {
  auto it = fpCache.find(e->id);
  if (it != fpCache.end()) return it->second;
  expr r(c);
  z3::sort s = fpSort(e->w);
  expr rm = expr(c, Z3_mk_fpa_rne(c));
  auto mk = [&](Z3_ast a) { c.check_error(); return expr(c, a); };
  if (isFpOp(e->op)) {
    switch (e->op) {
      case FADD: r = mk(Z3_mk_fpa_add(c, rm, trFp(e->k[0]), trFp(e->k[1]))); break;
      case FSUB: r = mk(Z3_mk_fpa_sub(c, rm, trFp(e->k[0]), trFp(e->k[1]))); break;
      case FMUL: r = mk(Z3_mk_fpa_mul(c, rm, trFp(e->k[0]), trFp(e->k[1]))); break;
      case FDIV: r = mk(Z3_mk_fpa_div(c, rm, trFp(e->k[0]), trFp(e->k[1]))); break;
      case FREM: r = mk(Z3_mk_fpa_rem(c, trFp(e->k[0]), trFp(e->k[1]))); break; // IEEE remainder; not used for fmod claims
      case FSQRT: r = mk(Z3_mk_fpa_sqrt(c, rm, trFp(e->k[0]))); break;
      case FFMA: r = mk(Z3_mk_fpa_fma(c, rm, trFp(e->k[0]), trFp(e->k[1]), trFp(e->k[2]))); break;
      case FFLOOR: r = mk(Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtn(c), trFp(e->k[0]))); break;
      case FCEIL: r = mk(Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtp(c), trFp(e->k[0]))); break;
      case FTRUNC: r = mk(Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtz(c), trFp(e->k[0]))); break;
      case FRINT: r = mk(Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rne(c), trFp(e->k[0]))); break;
      case FROUND: r = mk(Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rna(c), trFp(e->k[0]))); break;
      case SITOF: r = mk(Z3_mk_fpa_to_fp_signed(c, rm, tr(e->k[0]), s)); break;
      case UITOF: r = mk(Z3_mk_fpa_to_fp_unsigned(c, rm, tr(e->k[0]), s)); break;
      case FCONV: r = mk(Z3_mk_fpa_to_fp_float(c, rm, trFp(e->k[0]), s)); break;
      default: throw std::runtime_error("trFp");
    }
  } else if (e->op == ITE && (isFpOp(e->k[1]->op) || isFpOp(e->k[2]->op))) {
    r = z3::ite(tr(e->k[0]) == c.bv_val(1, 1), trFp(e->k[1]), trFp(e->k[2]));
  } else {
    r = mk(Z3_mk_fpa_to_fp_bv(c, tr(e), s));
  }
  fpCache.emplace(e->id, r);
  return r;
}

// booleans (w==1) are represented as bv1 at the top level of tr(); trNode uses ite(bool,1,0)
expr Solver::tr(E root) {
  auto it0 = bvCache.find(root->id);
  if (it0 != bvCache.end()) return it0->second;
  std::vector<E> st{root};
  while (!st.empty()) {
    E e = st.back();
    if (bvCache.count(e->id)) { st.pop_back(); continue; }
    bool ready = true;
    for (E k : e->k) if (!bvCache.count(k->id)) { st.push_back(k); ready = false; }
    if (!ready) continue;
    st.pop_back();
    bvCache.emplace(e->id, trNode(e));
  }
  return bvCache.find(root->id)->second;
}

expr Solver::trNode(E e) {
  auto K = [&](int i) { return bvCache.find(e->k[i]->id)->second; };
  auto B = [&](const expr& b) { return z3::ite(b, c.bv_val(1, 1), c.bv_val(0, 1)); };
  auto one = [&](const expr& b) { return b == c.bv_val(1, 1); };
  auto mk = [&](Z3_ast a) { c.check_error(); return expr(c, a); };
  switch (e->op) {
    case CONST: return c.bv_val((uint64_t)e->aux, e->w);
    case VAR: return c.bv_const(("v" + std::to_string(e->aux)).c_str(), e->w);
    case ADD: return K(0) + K(1);
    case SUB: return K(0) - K(1);
    case MUL: return K(0) * K(1);
    case UDIV: return z3::udiv(K(0), K(1));
    case SDIV: return K(0) / K(1);
    case UREM: return z3::urem(K(0), K(1));
    case SREM: return z3::srem(K(0), K(1));
    case AND: return K(0) & K(1);
    case OR: return K(0) | K(1);
    case XOR: return K(0) ^ K(1);
    case SHL: return z3::shl(K(0), K(1));
    case LSHR: return z3::lshr(K(0), K(1));
    case ASHR: return z3::ashr(K(0), K(1));
    case EQ: return B(K(0) == K(1));
    case ULT: return B(z3::ult(K(0), K(1)));
    case ULE: return B(z3::ule(K(0), K(1)));
    case SLT: return B(z3::slt(K(0), K(1)));
    case SLE: return B(z3::sle(K(0), K(1)));
    case ITE: return z3::ite(one(K(0)), K(1), K(2));
    case CONCAT: return z3::concat(K(0), K(1));
    case EXTRACT: return K(0).extract(e->aux + e->w - 1, e->aux);
    case ZEXT: return z3::zext(K(0), e->w - e->k[0]->w);
    case SEXT: return z3::sext(K(0), e->w - e->k[0]->w);
    case FADD: case FSUB: case FMUL: case FDIV: case FREM: case FSQRT: case FFMA: case FFLOOR: case FCEIL: case FTRUNC: case FRINT: case FROUND:
    case SITOF: case UITOF: case FCONV:
      return mk(Z3_mk_fpa_to_ieee_bv(c, trFp(e)));
    case FEQ: return B(mk(Z3_mk_fpa_eq(c, trFp(e->k[0]), trFp(e->k[1]))));
    case FLT: return B(mk(Z3_mk_fpa_lt(c, trFp(e->k[0]), trFp(e->k[1]))));
    case FLE: return B(mk(Z3_mk_fpa_leq(c, trFp(e->k[0]), trFp(e->k[1]))));
    case FISNAN: return B(mk(Z3_mk_fpa_is_nan(c, trFp(e->k[0]))));
    case FTOSI: return mk(Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), trFp(e->k[0]), e->w));
    case FTOUI: return mk(Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), trFp(e->k[0]), e->w));
    case UF: case RUF: {
      auto it = ufDecl.find(e->aux);
      if (it == ufDecl.end()) {
        z3::sort_vector sv(c);
        for (E k : e->k) sv.push_back(k->w ? c.bv_sort(k->w) : c.real_sort());
        z3::func_decl f = c.function(("uf" + std::to_string(e->aux)).c_str(), sv, e->w ? c.bv_sort(e->w) : c.real_sort());
        it = ufDecl.emplace(e->aux, f).first;
      }
      z3::expr_vector ev(c);
      for (size_t i = 0; i < e->k.size(); i++) ev.push_back(K(i));
      return it->second(ev);
    }
    case B2R: {
      expr r = c.real_const(("r" + std::to_string(e->k[0]->id)).c_str());
      realVars.emplace(e->id, r); realVarE[e->id] = e;
      return r;
    }
    case R2B: { // opaque bits of a real; only reachable when bits of an exact-arithmetic value escape
      return c.bv_const(("rb" + std::to_string(e->id)).c_str(), e->w);
    }
    case RCONST: { double d; memcpy(&d, &e->aux, 8); return c.real_val(exactDec(d).c_str()); }
    case RADD: return K(0) + K(1);
    case RSUB: return K(0) - K(1);
    case RMUL: return K(0) * K(1);
    case RDIV: return K(0) / K(1);
    case RITE: return z3::ite(one(K(0)), K(1), K(2));
    case RLT: return B(K(0) < K(1));
    case RLE: return B(K(0) <= K(1));
    case REQ: return B(K(0) == K(1));
    case RFLOOR: return z3::to_real(mk(Z3_mk_real2int(c, K(0))));
    case I2R: return z3::to_real(mk(Z3_mk_bv2int(c, K(0), true)));
    case R2I: { expr x = K(0); expr f = mk(Z3_mk_real2int(c, x)); expr t = z3::ite(x >= 0, f, -mk(Z3_mk_real2int(c, -x)));
      return mk(Z3_mk_int2bv(c, e->w, t)); }
    default: throw std::runtime_error("trNode: op");
  }
}

static bool usesReal(E e) {
  static std::unordered_map<uint32_t, bool> memo;
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back();
    if (memo.count(x->id)) { st.pop_back(); continue; }
    bool ready = true;
    for (E k : x->k) if (!memo.count(k->id)) { st.push_back(k); ready = false; }
    if (!ready) continue;
    st.pop_back();
    bool r = x->op >= B2R;
    for (E k : x->k) r |= memo[k->id];
    memo[x->id] = r;
  }
  return memo[e->id];
}

// bit 0: floating point operations, bit 1: uninterpreted functions
static int kindOf(E e) {
  static std::unordered_map<uint32_t, int> memo;
  auto it = memo.find(e->id); if (it != memo.end()) return it->second;
  int k = (e->op >= FADD && e->op <= FCONV) ? 1 : e->op == UF ? 2 : 0;
  for (E x : e->k) k |= kindOf(x);
  return memo[e->id] = k;
}
// A query with floating point arithmetic that z3 does not answer at once may still have an easy solution: take a solution of
// the constraints without arithmetic, give the other numbers round values and test. Only ever finds solutions (checked by
// evaluation of every constraint); the absence of one is always z3's answer.
static bool hasArith(E e) {
  static std::unordered_map<uint32_t, bool> memo;
  auto it = memo.find(e->id); if (it != memo.end()) return it->second;
  bool r = e->op >= FADD && e->op <= FROUND; for (E k : e->k) r = hasArith(k) || r;
  return memo[e->id] = r;
}
bool Solver::guess(const std::vector<E>& s, Model& out) {
  std::vector<E> easy, hard; for (E e : s) (hasArith(e) ? hard : easy).push_back(e);
  Model base; std::set<uint32_t> fixed, all, nums;
  for (E e : s) for (uint32_t d : depsOf(e)) { if (d & 0x80000000u) return false; all.insert(d); }
  for (E e : easy) for (uint32_t d : depsOf(e)) fixed.insert(d);
  { std::set<E> seen; std::vector<E> w(s.begin(), s.end()); while (!w.empty()) { E x = w.back(); w.pop_back(); if (!seen.insert(x).second) continue; for (E k : x->k) { w.push_back(k); if (x->op >= FADD && x->op <= FCONV && k->op == VAR && (k->w == 64 || k->w == 32)) nums.insert(k->aux); } } }
  base.v.resize(gVars.size(), 0);
  if (!easy.empty()) {
    z3::solver q = z3::tactic(c, "qffpbv").mk_solver(); z3::params p(c); p.set("timeout", 3000u); q.set(p);
    for (E e : easy) q.add((tr(e) == c.bv_val(1, 1)).simplify());
    if (q.check() != z3::sat) return false;
    z3::model m = q.get_model();
    for (uint32_t d : fixed) { expr v = m.eval(c.bv_const(("v" + std::to_string(d)).c_str(), gVars[d].w), true); if (v.is_numeral() && gVars[d].w <= 64) base.v[d] = v.get_numeral_uint64(); }
  }
  auto num = [&](uint32_t d) { if (gVars[d].w == 64) { double x; memcpy(&x, &base.v[d], 8); return x; } uint32_t u = base.v[d]; float f; memcpy(&f, &u, 4); return (double)f; };
  auto put = [&](Model& m, uint32_t d, double x) { if (gVars[d].w == 64) memcpy(&m.v[d], &x, 8); else { float f = x; uint32_t u; memcpy(&u, &f, 4); m.v[d] = u; } };
  uint64_t rs = 88172645463325252ull; auto rnd = [&]() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; };
  auto ok = [&](const std::vector<E>& v, const Model& m) { for (E e : v) { auto t = evalExpr(e, m); if (!t || !(*t & 1)) return false; } return true; };
  std::map<double, std::vector<uint32_t>> rank; for (uint32_t d : fixed) if (nums.count(d)) { double x = num(d); if (x == x) rank[x].push_back(d); }
  for (int k = 0; k < 300; k++) {
    Model m = base;
    if (k % 4) { double x = (double)(int)(rnd() % 9) - 4; for (auto& kv : rank) { for (uint32_t d : kv.second) put(m, d, x); x += k % 4 == 1 ? 1.0 : 0.5 * (double)(1 + rnd() % 7); } } // same order, other distances
    for (uint32_t d : all) if (!fixed.count(d)) { if (nums.count(d)) put(m, d, 0.5 * ((double)(int)(rnd() % 41) - 20)); else m.v[d] = (k & 1 ? rnd() : rnd() % 5) & maskOf(gVars[d].w); }
    if (ok(hard, m) && ok(easy, m)) { out = m; return true; }
  }
  return false;
}
Res Solver::solve(const std::vector<E>& cs, Model* out, std::map<uint32_t, double>* realOut) {
  std::vector<E> s(cs);
  std::sort(s.begin(), s.end(), [](E a, E b) { return a->id < b->id; });
  s.erase(std::unique(s.begin(), s.end()), s.end());
  std::string key;
  for (E e : s) { key.append((const char*)&e->id, 4); }
  auto it = resCache.find(key);
  if (it != resCache.end() && !realOut) {
    if (it->second != Res::SAT || !out) { st.cacheHits++; return it->second; }
    auto mi = modelCache.find(key);
    if (mi != modelCache.end()) { st.cacheHits++; std::set<uint32_t> ds; for (E e : s) for (uint32_t d : depsOf(e)) if (!(d & 0x80000000u)) ds.insert(d);
      for (uint32_t d : ds) { if (out->v.size() <= d) out->v.resize(d + 1, 0); out->v[d] = mi->second->get(d); } return Res::SAT; }
  }
  auto t0 = std::chrono::steady_clock::now();
  bool real = false;
  for (E e : s) real |= usesReal(e);
  Res r = Res::UNKNOWN;
  Model got; bool haveModel = false;
  std::map<uint32_t, double> rv;
  try {
    int kind = 0; for (E e : s) kind |= kindOf(e);
    // few applications of uninterpreted functions: replace them by variables that are equal for equal arguments
    bool ack = false;
    if (!real && (kind & 2)) { std::set<E> seen; std::vector<E> w(s.begin(), s.end()); std::map<uint64_t, uint64_t> cnt; while (!w.empty()) { E x = w.back(); w.pop_back(); if (!seen.insert(x).second) continue; if (x->op == UF) cnt[x->aux]++; for (E k : x->k) w.push_back(k); } uint64_t pairs = 0; for (auto& kv : cnt) pairs += kv.second * (kv.second - 1) / 2; ack = pairs <= 200; }
    z3::solver sol = ack ? (z3::tactic(c, "simplify") & z3::tactic(c, "propagate-values") & z3::tactic(c, "fpa2bv") & z3::tactic(c, "simplify") & z3::tactic(c, "ackermannize_bv") & z3::tactic(c, "qfbv")).mk_solver() : real || (kind & 2) ? z3::solver(c) : (kind & 1) ? z3::tactic(c, "qffpbv").mk_solver() : z3::tactic(c, "qfbv").mk_solver();
    z3::params p(c);
    bool fpa = false; if (!real && kind == 1) for (E e : s) fpa |= hasArith(e);
    fpa = fpa && timeoutMs > 4000;
    p.set("timeout", fpa ? 3000u : timeoutMs);
    sol.set(p);
    for (E e : s) {
      auto ci = conjCache.find(e->id);
      if (ci == conjCache.end()) ci = conjCache.emplace(e->id, (tr(e) == c.bv_val(1, 1)).simplify()).first;
      sol.add(ci->second);
    }
    if (!dumpDir.empty()) { std::ofstream o(dumpDir + "/q" + std::to_string(st.queries) + ".smt2"); o << sol.to_smt2(); }
    auto zr = sol.check();
    if (fpa && zr == z3::unknown) {
      Model g;
      if (guess(s, g)) {
        if (r == Res::UNKNOWN) { got = g; haveModel = true; st.guessed++; r = Res::SAT; }
      } else {
        z3::solver again = z3::tactic(c, "qffpbv").mk_solver(); z3::params p2(c); p2.set("timeout", timeoutMs); again.set(p2);
        for (E e : s) again.add(conjCache.at(e->id));
        sol = again; zr = sol.check();
      }
    }
    if (!haveModel)
    r = zr == z3::sat ? Res::SAT : zr == z3::unsat ? Res::UNSAT : Res::UNKNOWN;
    if (r == Res::SAT && !haveModel && (out || realOut)) {
      z3::model m = sol.get_model();
      std::vector<uint32_t> ds;
      for (E e : s) for (uint32_t d : depsOf(e)) if (!(d & 0x80000000u)) ds.push_back(d);
      std::sort(ds.begin(), ds.end()); ds.erase(std::unique(ds.begin(), ds.end()), ds.end());
      for (uint32_t d : ds) {
        expr v = m.eval(c.bv_const(("v" + std::to_string(d)).c_str(), gVars[d].w), true);
        uint64_t u = 0;
        if (v.is_numeral()) u = v.get_numeral_uint64();
        if (got.v.size() <= d) got.v.resize(d + 1, 0);
        got.v[d] = u;
      }
      haveModel = true;
      if (real) {
        for (auto& kv : realVars) {
          expr v = m.eval(kv.second, true);
          double dv = 0;
          std::string ds2;
          if (v.is_numeral()) {
            std::string num = v.numerator().to_string(), den = v.denominator().to_string();
            auto strip = [](std::string t) { std::string o; bool neg = t.find('-') != std::string::npos; for (char ch : t) if ((ch >= '0' && ch <= '9') || ch == '.') o += ch; return neg ? "-" + o : o; };
            dv = std::stod(strip(num)) / std::stod(strip(den));
          } else {
            try { std::string t = v.get_decimal_string(17); std::string o; for (char ch : t) if (ch != '?') o += ch; dv = std::stod(o); } catch (...) {}
          }
          rv[kv.first] = dv;
        }
        for (auto& kv : rv) {
          E x = realVarE[kv.first]->k[0];
          uint64_t bits; if (x->w == 64) memcpy(&bits, &kv.second, 8); else { float f = (float)kv.second; uint32_t u; memcpy(&u, &f, 4); bits = u; }
          if (x->op == VAR) { if (got.v.size() <= x->aux) got.v.resize(x->aux + 1, 0); got.v[x->aux] = bits; }
        }
        if (realOut) *realOut = rv;
      }
    }
  } catch (z3::exception& ex) {
    fprintf(stderr, "z3 exception: %s\n", ex.msg());
    r = Res::UNKNOWN;
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  st.queries++; st.time += dt; st.maxTime = std::max(st.maxTime, dt);
  if (getenv("VX_SLOW") && dt > 1) fprintf(stderr, "slow query %.1f s n=%zu %s guessed %lu\n", dt, s.size(), r == Res::SAT ? "sat" : r == Res::UNSAT ? "unsat" : "unknown", (unsigned long)st.guessed);
  if (r == Res::SAT) st.sat++; else if (r == Res::UNSAT) st.unsat++; else st.unknown++;
  if (r != Res::UNKNOWN) resCache[key] = r;
  if (haveModel) {
    modelCache[key] = std::make_shared<Model>(got);
    if (out) { for (size_t i = 0; i < got.v.size(); i++) { }
      std::set<uint32_t> ds; for (E e : s) for (uint32_t d : depsOf(e)) if (!(d & 0x80000000u)) ds.insert(d);
      for (uint32_t d : ds) { if (out->v.size() <= d) out->v.resize(d + 1, 0); out->v[d] = got.get(d); } }
  }
  return r;
}

// Conjunctions over one variable v that are boolean combinations of comparisons of v (or an extension of it) with
// constants: between consecutive constants every comparison is constant, so testing one point of every interval decides them.
static bool atoms(E e, std::vector<uint64_t>& cut) {
  if (e->w != 1) return false;
  switch (e->op) {
    case CONST: return true;
    case AND: case OR: case XOR: case ITE: for (E k : e->k) if (!atoms(k, cut)) return false; return true;
    case EQ: if (e->k[0]->w == 1) { for (E k : e->k) if (!atoms(k, cut)) return false; return true; } [[fallthrough]];
    case ULT: case ULE: case SLT: case SLE: {
      E a = e->k[0], b = e->k[1]; if (a->isConst()) std::swap(a, b);
      if (!b->isConst() || a->w > 64) return false;
      if (a->op == ZEXT || a->op == SEXT) a = a->k[0];
      uint64_t off = 0; // v + off: intervals wrap around at -off and at the shifted sign boundary
      if (a->op == ADD && a->k[1]->isConst()) { off = a->k[1]->aux; a = a->k[0]; } else if (a->op == ADD && a->k[0]->isConst()) { off = a->k[0]->aux; a = a->k[1]; }
      if (a->op != VAR) return false;
      uint64_t m = a->w >= 64 ? ~0ull : (1ull << a->w) - 1; for (uint64_t x : {(uint64_t)b->aux, (uint64_t)b->aux + 1, (uint64_t)0, (uint64_t)1 << (a->w - 1)}) cut.push_back((x - off) & m);
      return true;
    }
    default: return false;
  }
}
bool Solver::tryDirect(const std::vector<E>& cs, uint32_t v, Res& r, Model* out) {
  std::vector<uint64_t> cut; unsigned w = gVars[v].w; if (w > 8) return false; // the choices of a harness; anything wider goes to z3
  for (E e : cs) if (!atoms(e, cut)) return false;
  cut.push_back(0); cut.push_back(1ull << (w - 1));
  std::sort(cut.begin(), cut.end()); cut.erase(std::unique(cut.begin(), cut.end()), cut.end());
  st.direct++;
  Model m; m.v.resize(v + 1, 0);
  for (uint64_t x : cut) {
    m.v[v] = x; bool ok = true;
    for (E e : cs) { auto t = evalExpr(e, m); if (!t) return false; if (!(*t & 1)) { ok = false; break; } }
    if (ok) { r = Res::SAT; if (out) { if (out->v.size() <= v) out->v.resize(v + 1, 0); out->v[v] = x; } return true; }
  }
  r = Res::UNSAT; return true;
}
Res Solver::check(const std::vector<E>& pc, E q, Model* out, bool needModel, std::map<uint32_t, double>* realOut) {
  if (q->isConst() && q->aux == 0) return Res::UNSAT;
  // independence slicing
  std::vector<uint32_t> cur = depsOf(q);
  std::vector<char> used(pc.size(), 0);
  bool changed = true;
  auto inter = [](const std::vector<uint32_t>& a, const std::vector<uint32_t>& b) {
    size_t i = 0, j = 0;
    while (i < a.size() && j < b.size()) { if (a[i] == b[j]) return true; if (a[i] < b[j]) i++; else j++; }
    return false;
  };
  std::vector<E> cs{q};
  while (changed) {
    changed = false;
    for (size_t i = 0; i < pc.size(); i++) {
      if (used[i]) continue;
      const auto& d = depsOf(pc[i]);
      if (inter(cur, d)) {
        used[i] = 1; changed = true; cs.push_back(pc[i]);
        std::vector<uint32_t> n; n.reserve(cur.size() + d.size());
        std::set_union(cur.begin(), cur.end(), d.begin(), d.end(), std::back_inserter(n));
        cur.swap(n);
      }
    }
  }
  if (direct && !realOut && cur.size() == 1 && !(cur[0] & 0x80000000u)) { Res r; if (tryDirect(cs, cur[0], r, needModel ? out : nullptr)) return r; }
  return solve(cs, needModel ? out : nullptr, realOut);
}
Res Solver::checkAll(const std::vector<E>& pc, Model* out, std::map<uint32_t, double>* realOut) { return solve(pc, out, realOut); }
} // namespace vx
