// Hash-consed bit-vector / floating-point / real expression DAG.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <memory>
#include <optional>
#include <cmath>
#include <cfenv>

namespace vx {

enum class FpMode { IEEE, UF, REAL };
extern FpMode gFpMode;

enum Op : uint8_t {
  CONST, VAR,
  ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  EQ, ULT, ULE, SLT, SLE,
  ITE, CONCAT, EXTRACT, ZEXT, SEXT,
  FADD, FSUB, FMUL, FDIV, FREM, FSQRT, FFMA, FFLOOR, FCEIL, FTRUNC, FRINT, FROUND,
  FEQ, FLT, FLE, FISNAN,
  FTOSI, FTOUI, SITOF, UITOF, FCONV,
  UF,
  // real sort (width 0)
  B2R, R2B, RCONST, RADD, RSUB, RMUL, RDIV, RITE, RLT, RLE, REQ, RUF, RFLOOR, I2R, R2I
};

struct Expr {
  Op op;
  uint16_t w;           // bit width; 0 == Real sort
  uint32_t id;
  uint8_t sw = 0, uw = 0;   // value fits in sw signed bits / uw unsigned bits
  uint64_t aux;         // const value, var index, extract low bit, uf id, double bits
  std::vector<const Expr*> k;
  mutable const std::vector<uint32_t>* deps = nullptr; // sorted list of variable / uf ids
  bool isConst() const { return op == CONST; }
};
typedef const Expr* E;

inline uint64_t maskOf(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sext(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ull << (w - 1);
  v &= maskOf(w);
  return (int64_t)((v ^ m) - m);
}

struct VarInfo { std::string name; unsigned w; };
extern std::vector<VarInfo> gVars;
extern std::vector<std::string> gUFs;
uint32_t ufId(const std::string& n);

E mkConst(uint64_t v, unsigned w);
E mkVar(const std::string& name, unsigned w);
E mkBin(Op op, E a, E b);
E mkIte(E c, E a, E b);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZext(E a, unsigned w);
E mkSext(E a, unsigned w);
E mkNot(E a);               // bitwise not
E mkEq(E a, E b);
E mkBoolAnd(E a, E b);
E rebuild(E e, const std::vector<E>& k); // same node over other children
E mkBoolOr(E a, E b);
E mkFp1(Op op, E a);
E mkFp2(Op op, E a, E b);
E mkFma(E a, E b, E c);
E mkFCmp(Op op, E a, E b);
E mkIsNan(E a);
E mkFToI(Op op, E a, unsigned w);
E mkIToF(Op op, E a, unsigned w);
E mkFConv(E a, unsigned w);
E mkUF(uint32_t f, unsigned w, const std::vector<E>& args);
E mkB2R(E a);
E mkR2B(E a, unsigned w);
E mkRConst(double d);
E mkRBin(Op op, E a, E b);
E mkRUF(uint32_t f, const std::vector<E>& args);

// real-mode aware helpers for math functions named by uninterpreted symbols
const std::vector<uint32_t>& depsOf(E e);
std::string toStr(E e, int depth = 6);

// Evaluate a under assignment; UF applications are interpreted by a fixed hash function.
struct Model {
  std::vector<uint64_t> v; // by var index; missing == 0
  uint64_t get(uint32_t i) const { return i < v.size() ? v[i] : 0; }
};
std::optional<uint64_t> evalExpr(E e, const Model& m);
uint64_t evalOp(Op op, unsigned w, uint64_t aux, const uint64_t* k, const unsigned* kw, unsigned n);
size_t exprCount();

} // namespace vx
