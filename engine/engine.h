// Symbolic executor over LLVM IR.
#pragma once
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <functional>
#include <deque>
#include <set>
#include <unordered_set>

namespace vx {
using namespace llvm;

struct Val { uint64_t c = 0; E e = nullptr; };
struct SB { E e = nullptr; uint8_t i = 0; explicit operator bool() const { return e != nullptr; } }; // i-th byte of e

struct Obj {
  uint64_t base = 0, size = 0;
  bool ro = false, heap = false, freed = false;
  int owner = -1;               // thread owning this stack object
  std::string name;
  std::vector<uint8_t> bytes;
  std::vector<SB> sym;          // empty or size entries
  std::vector<uint8_t> undef;   // empty or size entries (1 == never written)
};
typedef std::shared_ptr<Obj> ObjP;

struct Opnd { int32_t s; uint32_t n; };
struct GepTerm { Opnd op; uint64_t scale; unsigned w; };
struct KInst {
  const Instruction* I; unsigned opc; int dst; unsigned nl; unsigned w;
  std::vector<Opnd> ops;
  int64_t gepOff = 0; std::vector<GepTerm> gep;
  std::vector<unsigned> leafW;                       // widths of result / stored leaves
  std::vector<uint64_t> leafOff;                     // byte offsets for aggregates in memory
  const Function* callee = nullptr;
  unsigned idx = 0;                                  // extractvalue / insertvalue leaf index
  bool covered = false;
};
struct PhiEdge { std::vector<std::pair<int, Opnd>> moves; };
struct KFunc {
  const Function* F; unsigned nslots = 0;
  std::vector<KInst> insts;
  std::unordered_map<const BasicBlock*, unsigned> bbStart;
  std::map<std::pair<const BasicBlock*, const BasicBlock*>, PhiEdge> phi;
  std::vector<std::pair<int, unsigned>> args; // slot,nleaf
};

struct Frame {
  KFunc* kf = nullptr; unsigned pc = 0;
  std::vector<Val> regs;
  std::vector<uint64_t> allocas;
  uint64_t va = 0; // the variadic arguments, 8 bytes each
};
struct ExcRec { uint64_t obj = 0, ti = 0; int handlers = 0; };
struct AccBits { std::vector<uint8_t> f; };
struct Thread {
  std::vector<Frame> fr;
  enum St { READY, BARRIER, DONE, JOIN } st = READY;
  std::vector<ExcRec> caught;
  int uncaught = 0;
  uint64_t tag = 0; int group = 0;
  std::map<uint64_t, AccBits> acc, accAll;
};
struct InputRec { std::string name; unsigned elem, count; std::vector<E> vars; };
struct State {
  std::vector<Thread> th; int cur = 0;
  std::map<uint64_t, ObjP> mem;
  std::vector<E> pc; std::unordered_set<uint32_t> pcs;
  std::shared_ptr<Model> model;
  std::vector<InputRec> inputs;
  std::vector<std::string> trace;
  uint64_t nextAddr = 0x100000000ull;
  unsigned depth = 0; uint64_t steps = 0; bool expectAbort = false;
  bool phaseOn = false;
  std::map<uint64_t, uint64_t> excTi;  // exception object -> typeinfo
  std::vector<int> forced; unsigned choicePos = 0;
};
typedef std::unique_ptr<State> StateP;

struct Violation { std::string kind, msg, loc; std::vector<std::string> stack; std::vector<std::pair<std::string, std::vector<std::pair<unsigned, uint64_t>>>> inputs; std::vector<std::string> trace; std::string cond; };

struct PathEnd { };            // thrown to end the current path
struct EngineError { std::string msg; };

class Engine {
public:
  Engine(Module& M);
  void run(const std::string& entry);
  Module& M; const DataLayout& DL;
  Solver solver;
  std::map<std::string, std::string> params;
  // limits
  uint64_t maxPaths = 2000000, maxSteps = 40000000ull; double maxTime = 800; unsigned maxViol = 3;
  bool schedExplore = false; bool raceCheck = true;
  // results
  std::vector<Violation> viol;
  std::map<std::string, uint64_t> covers;
  uint64_t paths = 0, pathsDone = 0, pathsAssumed = 0, forks = 0, steps = 0, asserts = 0, assertQueries = 0, assertsProved = 0;
  bool incomplete = false; std::string incompleteWhy;
  std::set<std::string> unmodelled;
  std::map<std::string, std::set<std::string>> functions; // file -> functions
  std::vector<std::string> log;
  std::vector<std::vector<std::pair<std::string, std::string>>> samples;
  std::map<uint32_t, double> lastReal;
  void collectFunctions();
  bool replay = false;
  std::vector<std::pair<std::string, std::vector<uint64_t>>> replayIn; size_t replayPos = 0;

  typedef std::function<void(State&, KInst&, std::vector<Val>&, Val*)> Handler;
  std::unordered_map<std::string, Handler> handlers;
  std::vector<StateP> work;

  // internals used by handlers
  State* S = nullptr;
  Thread& T() { return S->th[S->cur]; }
  Frame& F() { return T().fr.back(); }
  E toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
  Val fromE(E e) { Val v; if (e->isConst()) v.c = e->aux; else v.e = e; return v; }
  bool decide(E cond);
  E ctx(E e);  // e simplified under the conditions already known on this path
  E ctxRec(E e);
  std::unordered_map<uint32_t, E> ctxMemo; uint64_t ctxPath = ~0ull; size_t ctxN = 0; unsigned ctxBudget = 0;
  void addPC(State& s, E c);
  uint64_t concretize(const Val& v, unsigned w);
  void check(E cond, const std::string& kind, const std::string& msg);
  [[noreturn]] void fail(const std::string& kind, const std::string& msg);
  void report(const std::string& kind, const std::string& msg, const Model* m, State& s, E cond);
  ObjP alloc(uint64_t size, const std::string& name, bool heap, bool zero = false);
  Obj* find(uint64_t addr);
  Obj* findW(uint64_t addr);
  Val load(const Val& addr, unsigned w);
  void store(const Val& addr, const Val& v, unsigned w);
  void memcpyv(const Val& d, const Val& s, uint64_t n);
  std::string cstr(uint64_t a, size_t max = 4096);
  void doThrow(uint64_t obj, uint64_t ti);
  void unwind(uint64_t obj, uint64_t ti);
  bool isSubtype(uint64_t thrown, uint64_t caught);
  uint64_t dynCast(uint64_t obj, uint64_t dst);
  uint64_t globalAddr(const GlobalValue* g);
  const Function* funcAt(uint64_t a);
  void pushCall(const Function* f, std::vector<Val>& args, KInst* ci);
  void threadSwitch();
  bool schedPoint();
  E readByteE(Obj* o, uint64_t off);
  std::string where();
  uint64_t globalByName(const std::string& n);

private:
  void setupHandlers();
  KFunc* compile(const Function* f);
  Opnd opnd(KFunc* kf, const Value* v, std::unordered_map<const Value*, int>& slots);
  void constLeaves(const Constant* c, std::vector<Val>& out);
  uint64_t constPtrOff(const Constant* c);
  unsigned leaves(Type* t);
  void leafInfo(Type* t, uint64_t off, std::vector<unsigned>& w, std::vector<uint64_t>& o);
  void initConst(Obj& o, uint64_t off, const Constant* c);
  const Val& R(const Opnd& o, unsigned i = 0) { return o.s >= 0 ? F().regs[o.s + i] : pool[(~o.s) + i]; }
  void step();
  void exec(KInst& I);
  void execCall(KInst& I);
  void execIntrinsic(KInst& I, const Function* f, std::vector<Val>& a);
  void doRet(KInst& I);
  void gotoBB(const BasicBlock* from, const BasicBlock* to);
  void finishCall(KInst& I);
  Val loadAt(Obj* o, uint64_t off, unsigned w);
  void storeAt(Obj* o, uint64_t off, const Val& v, unsigned w);
  Obj* resolve(const Val& addr, uint64_t n, bool write, Val& off);
  void access(Obj* o, uint64_t off, uint64_t n, bool write, bool atomic);
  void checkRaces(int group);
  void checkRacesAcross();
  bool conflict(Thread& a, Thread& b, std::map<uint64_t, AccBits>& x, std::map<uint64_t, AccBits>& y, size_t i, size_t j);
  bool raceBenign = false, lockMode = false;
  bool atomicCtx = false;
  Val binop(unsigned opc, const Val& a, const Val& b, unsigned w);
  Val icmp(CmpInst::Predicate p, const Val& a, const Val& b, unsigned w);
  Val fcmp(CmpInst::Predicate p, const Val& a, const Val& b, unsigned w);
  Val fpbin(unsigned opc, const Val& a, const Val& b, unsigned w);
  std::unordered_map<const Function*, std::unique_ptr<KFunc>> kfs;
  std::vector<Val> pool;
  std::unordered_map<const Constant*, int> poolIdx;
  std::unordered_map<const GlobalValue*, uint64_t> gaddr;
  std::map<uint64_t, const GlobalVariable*> gvars; // base -> var
  std::unordered_map<uint64_t, const Function*> faddr;
  std::unordered_map<const Function*, uint64_t> faddrRev;
  uint64_t nextG = 0x10000, nextF = 0x40000000ull;
  std::unordered_map<uint64_t, int> typeIds;
  unsigned uninitCnt = 0;
  std::map<std::string, uint64_t> tiNames;
  std::unordered_map<const Function*, Handler*> hcache;
  std::unordered_set<const Function*> noHandler;
};
std::string demangle(const std::string& s);
} // namespace vx
