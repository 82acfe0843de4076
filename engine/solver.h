#pragma once
#include "expr.h"
#include <z3++.h>
#include <chrono>
#include <set>
namespace vx {
enum class Res { SAT, UNSAT, UNKNOWN };
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, direct = 0, guessed = 0; double time = 0, maxTime = 0; };
class Solver {
public:
  Solver();
  // checks conjunction of pc (sliced to the part relevant for q) and q
  Res check(const std::vector<E>& pc, E q, Model* out, bool needModel, std::map<uint32_t, double>* realOut = nullptr);
  Res checkAll(const std::vector<E>& pc, Model* out, std::map<uint32_t, double>* realOut = nullptr);
  SolverStats st;
  unsigned timeoutMs = 60000;
  bool direct = true;  // path feasibility over one variable's comparisons with constants may be decided without z3
  std::string dumpDir;
private:
  bool tryDirect(const std::vector<E>& cs, uint32_t v, Res& r, Model* out);
  bool guess(const std::vector<E>& cs, Model& out);
  Res solve(const std::vector<E>& cs, Model* out, std::map<uint32_t, double>* realOut);
  z3::context c;
  std::unordered_map<uint32_t, z3::expr> bvCache, fpCache, conjCache;
  std::unordered_map<std::string, Res> resCache;
  std::unordered_map<std::string, std::shared_ptr<Model>> modelCache;
  std::map<uint32_t, z3::func_decl> ufDecl;
  z3::expr tr(E e);
  z3::expr trFp(E e);
  z3::expr fpOf(E e) ;
  z3::sort fpSort(unsigned w);
  z3::expr trNode(E e);
  std::map<uint32_t, z3::expr> realVars;   // B2R expr id -> real const
  std::map<uint32_t, E> realVarE;
  bool hasReal = false;
};
} // namespace vx
