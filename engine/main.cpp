// Command line driver of the symbolic executor.
#include "engine.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>
#include <sys/resource.h>
using namespace vx;
static std::string js(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
  return r + "\"";
}
int main(int argc, char** argv) {
  std::string mod, entry, out, replay, dump; std::map<std::string, std::string> params; std::string fp = "ieee";
  double maxTime = 800; uint64_t maxPaths = 5000000; unsigned tmo = 60000; bool sched = false, norace = false; unsigned maxViol = 1;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--out") out = nx(); else if (a == "--fp") fp = nx();
    else if (a == "--param") { std::string p = nx(); auto e = p.find('='); params[p.substr(0, e)] = e == std::string::npos ? "1" : p.substr(e + 1); }
    else if (a == "--max-time") maxTime = std::stod(nx()); else if (a == "--max-paths") maxPaths = std::stoull(nx()); else if (a == "--timeout-ms") tmo = std::stoul(nx());
    else if (a == "--sched") sched = true; else if (a == "--no-race") norace = true; else if (a == "--replay") replay = nx(); else if (a == "--dump") dump = nx(); else if (a == "--max-viol") maxViol = std::stoul(nx());
    else mod = a;
  }
  gFpMode = fp == "uf" ? FpMode::UF : fp == "real" ? FpMode::REAL : FpMode::IEEE;
  struct rlimit rl; rl.rlim_cur = rl.rlim_max = 512ull << 20; // deep recursion on expressions
  llvm::LLVMContext ctx; llvm::SMDiagnostic err;
  auto M = llvm::parseIRFile(mod, err, ctx);
  if (!M) { err.print("vxe", llvm::errs()); return 3; }
  Engine eng(*M);
  eng.params = params; eng.solver.dumpDir = dump; eng.maxTime = maxTime; eng.maxPaths = maxPaths; eng.solver.timeoutMs = tmo; eng.schedExplore = sched; eng.raceCheck = !norace; eng.maxViol = maxViol;
  if (!replay.empty()) {
    eng.replay = true; std::ifstream f(replay); std::string line;
    while (std::getline(f, line)) { // name elem v0 v1 ...
      if (line.rfind("input ", 0)) continue;
      std::istringstream is(line.substr(6)); std::string n; unsigned es; is >> n >> es; std::vector<uint64_t> v; uint64_t x; while (is >> x) v.push_back(x);
      eng.replayIn.push_back({n, v});
    }
  }
  auto t0 = std::chrono::steady_clock::now();
  std::string error;
  try { eng.run(entry); } catch (EngineError& e) { error = e.msg; } catch (PathEnd&) { error = "ended during initialisation"; } catch (z3::exception& e) { error = std::string("z3: ") + e.msg(); }
  double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  eng.collectFunctions();
  std::ostringstream o;
  o << "{\"entry\":" << js(entry) << ",\"fp\":" << js(fp) << ",\"params\":{"; bool first = true;
  for (auto& p : params) { o << (first ? "" : ",") << js(p.first) << ":" << js(p.second); first = false; }
  o << "},\"error\":" << js(error) << ",\"incomplete\":" << (eng.incomplete ? "true" : "false") << ",\"incomplete_why\":" << js(eng.incompleteWhy);
  o << ",\"paths\":" << eng.paths << ",\"paths_done\":" << eng.pathsDone << ",\"paths_assumed\":" << eng.pathsAssumed << ",\"forks\":" << eng.forks << ",\"steps\":" << eng.steps
    << ",\"asserts\":" << eng.asserts << ",\"assert_queries\":" << eng.assertQueries << ",\"asserts_proved\":" << eng.assertsProved;
  auto& st = eng.solver.st;
  o << ",\"queries\":" << st.queries << ",\"sat\":" << st.sat << ",\"unsat\":" << st.unsat << ",\"unknown\":" << st.unknown << ",\"cache_hits\":" << st.cacheHits << ",\"direct\":" << st.direct << ",\"solver_time\":" << st.time << ",\"solver_max\":" << st.maxTime << ",\"wall\":" << wall << ",\"exprs\":" << exprCount();
  o << ",\"covers\":{"; first = true; for (auto& c : eng.covers) { o << (first ? "" : ",") << js(c.first) << ":" << c.second; first = false; }
  o << "},\"functions\":{"; first = true;
  for (auto& f : eng.functions) { o << (first ? "" : ",") << js(f.first) << ":["; bool g = true; for (auto& n : f.second) { o << (g ? "" : ",") << js(n); g = false; } o << "]"; first = false; }
  o << "},\"unmodelled\":["; first = true; for (auto& u : eng.unmodelled) { o << (first ? "" : ",") << js(u); first = false; }
  o << "],\"log\":["; first = true; for (auto& u : eng.log) { o << (first ? "" : ",") << js(u); first = false; }
  o << "],\"samples\":["; first = true;
  for (auto& s : eng.samples) { o << (first ? "" : ",") << "["; bool g = true; for (auto& p : s) { o << (g ? "" : ",") << "[" << js(p.first) << "," << js(p.second) << "]"; g = false; } o << "]"; first = false; }
  o << "],\"violations\":["; first = true;
  for (auto& v : eng.viol) {
    o << (first ? "" : ",") << "{\"kind\":" << js(v.kind) << ",\"msg\":" << js(v.msg) << ",\"loc\":" << js(v.loc) << ",\"cond\":" << js(v.cond) << ",\"stack\":["; first = false;
    bool g = true; for (auto& s : v.stack) { o << (g ? "" : ",") << js(s); g = false; }
    o << "],\"trace\":["; g = true; for (auto& s : v.trace) { o << (g ? "" : ",") << js(s); g = false; }
    o << "],\"inputs\":["; g = true;
    for (auto& in : v.inputs) { o << (g ? "" : ",") << "{\"name\":" << js(in.first) << ",\"elem\":" << (in.second.empty() ? 0 : in.second[0].first) << ",\"values\":["; g = false; bool h = true; for (auto& x : in.second) { o << (h ? "" : ",") << "\"" << x.second << "\""; h = false; } o << "]}"; }
    o << "]}";
  }
  o << "]}\n";
  if (out.empty()) std::cout << o.str(); else { std::ofstream f(out); f << o.str(); }
  std::cout.flush();
  _exit(0);
}
