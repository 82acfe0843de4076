// Models of the C / C++ runtime and the harness interface (__vx_*).
#include "engine.h"
#include <cstdio>
namespace vx {
typedef std::vector<Val> Args;
static E byteOf(Engine* e, uint64_t a) { return e->toE(e->load(Val{a, nullptr}, 8), 8); }

uint64_t Engine::dynCast(uint64_t obj, uint64_t dst) {
  Val vp = load(Val{obj, nullptr}, 64);
  if (vp.e) throw EngineError{"dynamic_cast on symbolic object"};
  uint64_t top = load(Val{vp.c - 16, nullptr}, 64).c, ti = load(Val{vp.c - 8, nullptr}, 64).c;
  uint64_t md = obj + top;
  std::function<int64_t(uint64_t, int64_t)> find = [&](uint64_t t, int64_t off) -> int64_t {
    if (t == dst) return off;
    auto gi = gvars.find(t);
    if (gi == gvars.end() || !gi->second->hasInitializer()) return -1;
    auto* cs = dyn_cast<ConstantStruct>(gi->second->getInitializer());
    if (!cs) return -1;
    std::vector<Val> v; constLeaves(cs, v);
    if (cs->getNumOperands() == 3) return find(v[2].c, off);
    if (cs->getNumOperands() > 4) for (uint64_t i = 0; i < v[3].c; i++) {
      int64_t of = (int64_t)v[5 + 2 * i].c;
      if (of & 1) throw EngineError{"dynamic_cast through virtual base"};
      int64_t r = find(v[4 + 2 * i].c, off + (of >> 8));
      if (r >= 0) return r;
    }
    return -1;
  };
  int64_t r = find(ti, 0);
  return r < 0 ? 0 : md + r;
}

void Engine::setupHandlers() {
  auto& H = handlers;
  typedef State& St; typedef KInst& KI;
  // ------------------------------------------------------------ allocation
  auto mal = [this](St, KI, Args& a, Val* r) { uint64_t n = concretize(a[0], 64); r[0] = Val{alloc(n, "heap block", true)->base, nullptr}; };
  for (auto n : {"malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}) H[n] = mal;
  H["calloc"] = [this](St, KI, Args& a, Val* r) { uint64_t n = concretize(a[0], 64) * concretize(a[1], 64); r[0] = Val{alloc(n, "heap block", true, true)->base, nullptr}; };
  H["aligned_alloc"] = [this](St, KI, Args& a, Val* r) { r[0] = Val{alloc(concretize(a[1], 64), "heap block", true)->base, nullptr}; };
  H["posix_memalign"] = [this](St, KI, Args& a, Val* r) { auto o = alloc(concretize(a[2], 64), "heap block", true); store(a[0], Val{o->base, nullptr}, 64); r[0] = Val{0, nullptr}; };
  auto fre = [this](St s, KI, Args& a, Val*) {
    uint64_t p = concretize(a[0], 64); if (!p) return;
    auto it = s.mem.find(p);
    if (it == s.mem.end() || !it->second->heap) fail("memory", "release of an address that is not a live heap block (double free or invalid free)");
    if (S->phaseOn && S->cur != 0) { Obj* o = it->second.get(); access(o, 0, o->size, true, false); }
    s.mem.erase(it);
  };
  for (auto n : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t"}) H[n] = fre;
  H["realloc"] = [this, fre](St s, KI I, Args& a, Val* r) {
    uint64_t p = concretize(a[0], 64), n = concretize(a[1], 64);
    auto o = alloc(n, "heap block", true); uint64_t nb = o->base;
    if (p) { Obj* old = find(p); if (!old || old->base != p) fail("memory", "realloc of an invalid address"); memcpyv(Val{nb, nullptr}, Val{p, nullptr}, std::min<uint64_t>(n, old->size)); Args x{Val{p, nullptr}}; fre(s, I, x, nullptr); }
    r[0] = Val{nb, nullptr}; };
  // ------------------------------------------------------------ memory
  auto mcmp = [this](St, KI I, Args& a, Val* r) {
    uint64_t n = concretize(a[2], 64), x = n ? concretize(a[0], 64) : 0, y = n ? concretize(a[1], 64) : 0;
    E res = mkConst(0, 32);
    std::vector<std::pair<E, E>> bs;
    for (uint64_t i = 0; i < n; i++) {
      E p = byteOf(this, x + i), q = byteOf(this, y + i);
      bs.push_back({p, q});
      if (p->isConst() && q->isConst() && p->aux != q->aux) break; // decided here at the latest
    }
    for (size_t i = bs.size(); i-- > 0;) res = mkIte(mkEq(bs[i].first, bs[i].second), res, mkIte(mkBin(ULT, bs[i].first, bs[i].second), mkConst(-1, 32), mkConst(1, 32)));
    r[0] = fromE(res); };
  H["memcmp"] = mcmp; H["bcmp"] = mcmp;
  auto mcpy = [this](St, KI, Args& a, Val* r) { uint64_t n = concretize(a[2], 64); memcpyv(a[0], a[1], n); r[0] = a[0]; };
  H["memcpy"] = mcpy; H["memmove"] = mcpy;
  H["memset"] = [this](St, KI, Args& a, Val* r) { uint64_t n = concretize(a[2], 64), d = n ? concretize(a[0], 64) : 0; Val b = a[1]; if (b.e) b = fromE(mkExtract(b.e, 0, 8)); else b.c &= 255; for (uint64_t i = 0; i < n; i++) store(Val{d + i, nullptr}, b, 8); r[0] = a[0]; };
  // ------------------------------------------------------------ ctype ("C" locale, arguments -128..255)
  auto rng = [](E c, int lo, int hi) { return mkBoolAnd(mkBin(SLE, mkConst(lo, 32), c), mkBin(SLE, c, mkConst(hi, 32))); };
  H["toupper"] = [this, rng](St, KI, Args& a, Val* r) { E c = toE(a[0], 32); r[0] = fromE(mkIte(rng(c, 'a', 'z'), mkBin(SUB, c, mkConst(32, 32)), c)); };
  H["tolower"] = [this, rng](St, KI, Args& a, Val* r) { E c = toE(a[0], 32); r[0] = fromE(mkIte(rng(c, 'A', 'Z'), mkBin(ADD, c, mkConst(32, 32)), c)); };
  auto cls = [this](std::function<E(E)> f) { return [this, f](St, KI, Args& a, Val* r) { r[0] = fromE(mkZext(f(toE(a[0], 32)), 32)); }; };
  auto eqc = [](E c, int v) { return mkEq(c, mkConst(v, 32)); };
  H["isspace"] = cls([=](E c) { return mkBoolOr(eqc(c, ' '), rng(c, 9, 13)); });
  H["isblank"] = cls([=](E c) { return mkBoolOr(eqc(c, ' '), eqc(c, 9)); });
  H["isdigit"] = cls([=](E c) { return rng(c, '0', '9'); });
  H["isupper"] = cls([=](E c) { return rng(c, 'A', 'Z'); });
  H["islower"] = cls([=](E c) { return rng(c, 'a', 'z'); });
  H["isalpha"] = cls([=](E c) { return mkBoolOr(rng(c, 'A', 'Z'), rng(c, 'a', 'z')); });
  H["isalnum"] = cls([=](E c) { return mkBoolOr(rng(c, '0', '9'), mkBoolOr(rng(c, 'A', 'Z'), rng(c, 'a', 'z'))); });
  H["isxdigit"] = cls([=](E c) { return mkBoolOr(rng(c, '0', '9'), mkBoolOr(rng(c, 'A', 'F'), rng(c, 'a', 'f'))); });
  H["isprint"] = cls([=](E c) { return rng(c, 32, 126); });
  H["ispunct"] = cls([=](E c) { return mkBoolOr(mkBoolOr(rng(c, 33, 47), rng(c, 58, 64)), mkBoolOr(rng(c, 91, 96), rng(c, 123, 126))); });
  // ------------------------------------------------------------ exceptions
  H["__cxa_allocate_exception"] = [this](St, KI, Args& a, Val* r) { r[0] = Val{alloc(concretize(a[0], 64), "exception object", true, true)->base, nullptr}; };
  H["__cxa_free_exception"] = [](St, KI, Args&, Val*) {};
  H["__cxa_throw"] = [this](St, KI, Args& a, Val*) { doThrow(concretize(a[0], 64), concretize(a[1], 64)); };
  H["__cxa_begin_catch"] = [this](St s, KI, Args& a, Val* r) {
    uint64_t o = concretize(a[0], 64); T().caught.push_back(ExcRec{o, s.excTi[o], 1}); if (T().uncaught > 0) T().uncaught--; r[0] = Val{o, nullptr}; };
  H["__cxa_get_exception_ptr"] = [](St, KI, Args& a, Val* r) { r[0] = a[0]; };
  H["__cxa_end_catch"] = [this](St, KI, Args&, Val*) { if (!T().caught.empty()) T().caught.pop_back(); };
  H["__cxa_rethrow"] = [this](St, KI, Args&, Val*) {
    if (T().caught.empty()) fail("abort", "rethrow without an active exception (std::terminate)");
    auto e = T().caught.back(); T().uncaught++; unwind(e.obj, e.ti); };
  H["_ZSt19uncaught_exceptionsv"] = [this](St, KI, Args&, Val* r) { r[0] = Val{(uint64_t)T().uncaught, nullptr}; };
  H["_ZSt18uncaught_exceptionv"] = [this](St, KI, Args&, Val* r) { r[0] = Val{(uint64_t)(T().uncaught > 0), nullptr}; };
  auto zero = [](St, KI, Args&, Val* r) { r[0] = Val{0, nullptr}; };
  for (auto n : {"__cxa_atexit", "atexit", "__cxa_guard_abort", "fflush", "fprintf", "printf", "puts", "putchar", "fputs", "fputc", "vprintf", "fwrite", "perror", "usleep", "pthread_mutex_lock", "pthread_mutex_unlock", "__cxa_thread_atexit"}) H[n] = zero;
  H["__cxa_guard_acquire"] = [this](St, KI, Args& a, Val* r) { Val v = load(a[0], 8); r[0] = Val{(uint64_t)(v.c == 0), nullptr}; };
  H["__cxa_guard_release"] = [this](St, KI, Args& a, Val*) { store(a[0], Val{1, nullptr}, 8); };
  auto die = [this](const char* m) { return [this, m](St s, KI, Args&, Val*) { if (s.expectAbort) { covers["expected abort"]++; s.th[0].st = Thread::DONE; throw PathEnd(); } fail("abort", m); }; };
  H["abort"] = die("abort() called"); H["_ZSt9terminatev"] = die("std::terminate called"); H["exit"] = die("exit() called"); H["_exit"] = die("_exit() called");
  H["__cxa_pure_virtual"] = die("pure virtual function called"); H["__cxa_deleted_virtual"] = die("deleted virtual function called");
  H["__cxa_throw_bad_array_new_length"] = die("bad array new length");
  H["__assert_fail"] = [this](St s, KI, Args& a, Val*) { if (s.expectAbort) { covers["expected abort"]++; s.th[0].st = Thread::DONE; throw PathEnd(); } fail("abort", "assertion failed: " + cstr(concretize(a[0], 64), 300)); };
  H["_ZSt21__glibcxx_assert_failPKciS0_S0_"] = [this](St, KI, Args& a, Val*) { fail("abort", "library assertion failed: " + cstr(concretize(a[3], 64), 300)); };
  H["__dynamic_cast"] = [this](St, KI, Args& a, Val* r) { r[0] = Val{dynCast(concretize(a[0], 64), concretize(a[2], 64)), nullptr}; };
  H["pthread_self"] = H["gettid"] = H["getpid"] = [](St, KI, Args&, Val* r) { r[0] = Val{1, nullptr}; };
  H["__gthread_active_p"] = zero;
  // ------------------------------------------------------------ harness interface
  H["__vx_sym"] = [this](St s, KI, Args& a, Val*) {
    uint64_t p = concretize(a[0], 64), es = concretize(a[1], 64), n = concretize(a[2], 64);
    std::string nm = cstr(concretize(a[3], 64)); for (char& c : nm) if (c == ' ') c = '_';
    InputRec in; in.name = nm; in.elem = es; in.count = n;
    const std::vector<uint64_t>* fx = nullptr;
    if (replay) { if (replayPos < replayIn.size() && replayIn[replayPos].first == nm) fx = &replayIn[replayPos++].second; }
    for (uint64_t i = 0; i < n; i++) {
      E v = replay ? mkConst(fx && i < fx->size() ? (*fx)[i] : 0, es * 8) : mkVar(nm + (n > 1 ? "[" + std::to_string(i) + "]" : "") + "@" + std::to_string(s.inputs.size()), es * 8);
      in.vars.push_back(v);
      store(Val{p + i * es, nullptr}, fromE(v), es * 8);
    }
    s.inputs.push_back(in); };
  H["__vx_assume"] = [this](St s, KI, Args& a, Val*) {
    E c = toE(a[0], 32); c = mkNot(mkEq(c, mkConst(0, 32)));
    if (c->isConst()) { if (!c->aux) { pathsAssumed++; throw PathEnd(); } return; }
    if (s.pcs.count(c->id)) return;
    std::optional<uint64_t> v; if (s.model) v = evalExpr(c, *s.model);
    if (!(v && *v)) {
      Model m = s.model ? *s.model : Model();
      Res r = solver.check(s.pc, c, &m, true);
      if (r == Res::UNSAT) { pathsAssumed++; throw PathEnd(); }
      addPC(s, c);
      bool ok = r == Res::SAT && s.model;
      if (ok) for (E p : s.pc) { auto x = evalExpr(p, m); if (!x || !*x) { ok = false; break; } }
      s.model = ok ? std::make_shared<Model>(m) : nullptr;
    } else addPC(s, c); };
  H["__vx_assert"] = [this](St, KI, Args& a, Val*) {
    E c = mkNot(mkEq(toE(a[0], 32), mkConst(0, 32)));
    check(c, "assert", cstr(concretize(a[1], 64), 400)); };
  H["__vx_assert_close"] = [this](St, KI, Args& a, Val*) { // equal in exact arithmetic; within tolerance when run on concrete doubles
    std::string msg = cstr(concretize(a[3], 64), 400);
    if (gFpMode == FpMode::REAL) { check(mkRBin(REQ, mkB2R(toE(a[0], 64)), mkB2R(toE(a[1], 64))), "assert", msg); return; }
    if (!a[0].e && !a[1].e) { double x, y, t; memcpy(&x, &a[0].c, 8); memcpy(&y, &a[1].c, 8); memcpy(&t, &a[2].c, 8); check(mkConst(std::fabs(x - y) <= t * (1 + std::fabs(x) + std::fabs(y)), 1), "assert", msg); return; }
    check(mkFCmp(FEQ, toE(a[0], 64), toE(a[1], 64)), "assert", msg); };
  H["__vx_fail"] = [this](St, KI, Args& a, Val*) { fail("assert", cstr(concretize(a[0], 64), 400)); };
  H["__vx_cover"] = [this](St s, KI, Args& a, Val*) { std::string n = cstr(concretize(a[0], 64)); if (s.model || covers.count(n)) covers[n]++; else { Model m; if (solver.checkAll(s.pc, &m) != Res::UNSAT) covers[n]++; } };
  H["__vx_fork"] = [this](St, KI, Args& a, Val* r) { r[0] = Val{concretize(a[0], 64), nullptr}; };
  H["__vx_param"] = [this](St, KI, Args& a, Val* r) { std::string n = cstr(concretize(a[0], 64)); auto it = params.find(n); r[0] = Val{it == params.end() ? (a[1].e ? 0 : a[1].c) : (uint64_t)std::stoll(it->second), nullptr}; };
  H["__vx_mode"] = [](St, KI, Args&, Val* r) { r[0] = Val{(uint64_t)(int)gFpMode, nullptr}; };
  H["__vx_symbolic"] = [](St, KI, Args&, Val* r) { r[0] = Val{1, nullptr}; };
  H["__vx_expect_abort"] = [this](St s, KI, Args& a, Val*) { s.expectAbort = concretize(a[0], 32); };
  H["__vx_end"] = [this](St s, KI, Args&, Val*) { s.th[0].st = Thread::DONE; throw PathEnd(); };
  H["__vx_spawn"] = [this](St s, KI, Args& a, Val*) {
    uint64_t fn = concretize(a[0], 64); const Function* f = funcAt(fn); if (!f) fail("memory", "spawn of an invalid function");
    s.th.emplace_back(); int keep = s.cur; s.cur = s.th.size() - 1;
    s.th.back().group = a.size() > 2 ? (int)concretize(a[2], 32) : 0;
    std::vector<Val> args{a[1]}; pushCall(f, args, nullptr); s.cur = keep; };
  H["__vx_lock_mode"] = [this](St, KI, Args& a, Val*) { lockMode = concretize(a[0], 32); };
  H["__vx_race_benign"] = [this](St, KI, Args& a, Val*) { raceBenign = concretize(a[0], 32); };
  H["__vx_join_all"] = [this](St s, KI I, Args&, Val*) { if (s.th.size() < 2) return; finishCall(I); T().st = Thread::JOIN; s.phaseOn = true; threadSwitch(); };
  H["__vx_barrier"] = [this](St s, KI I, Args& a, Val*) { if (!s.phaseOn || s.cur == 0) return; uint64_t tag = concretize(a[0], 64); finishCall(I); T().st = Thread::BARRIER; T().tag = tag; threadSwitch(); };
  H["__vx_yield"] = [this](St s, KI I, Args&, Val*) { if (lockMode) throw EngineError{"yield in lock mode"}; schedPoint(); };
  H["__vx_thread"] = [this](St s, KI, Args&, Val* r) { r[0] = Val{(uint64_t)(s.cur - 1), nullptr}; };
  H["__vx_live_heap"] = [this](St s, KI, Args&, Val* r) { uint64_t n = 0; for (auto& kv : s.mem) if (kv.second->heap && kv.second->name == "heap block") n++; r[0] = Val{n, nullptr}; };
  H["__vx_trace"] = [this](St s, KI, Args& a, Val*) { s.trace.push_back(cstr(concretize(a[0], 64)) + "=" + std::to_string((int64_t)concretize(a[1], 64))); };
  H["__vx_is_symbolic_val"] = [](St, KI, Args& a, Val* r) { r[0] = Val{(uint64_t)(a[0].e != nullptr), nullptr}; };
  H["__vx_fmt_double"] = [this](St, KI, Args& a, Val* r) {
    std::string t;
    if (a[0].e) t = "<sym>";
    else {
      double d; memcpy(&d, &a[0].c, 8); int prec = (int)a[1].c; unsigned fl = a[2].c; char f[16], b[400];
      std::string fs = "%"; if (fl & 2048) fs += "+"; if (fl & 1024) fs += "#"; fs += ".*"; fs += (fl & 4) ? ((fl & 256) ? "a" : "f") : (fl & 256) ? "e" : "g"; (void)f;
      snprintf(b, sizeof b, fs.c_str(), prec, d); t = b;
    }
    uint64_t p = concretize(a[3], 64); for (size_t i = 0; i < t.size(); i++) store(Val{p + i, nullptr}, Val{(uint8_t)t[i], nullptr}, 8);
    r[0] = Val{t.size(), nullptr}; };
  H["__vx_parse_double"] = [this](St, KI, Args& a, Val* r) {
    uint64_t n = concretize(a[1], 64), p = n ? concretize(a[0], 64) : 0; std::vector<E> k; bool conc = true; std::string t;
    for (uint64_t i = 0; i < n; i++) { E b = byteOf(this, p + i); if (!b->isConst()) conc = false; else t += (char)b->aux; k.push_back(b); }
    if (conc) { double d = strtod(t.c_str(), nullptr); uint64_t u; memcpy(&u, &d, 8); r[0] = Val{u, nullptr}; }
    else r[0] = fromE(mkUF(ufId("parse_double" + std::to_string(n)), 64, k)); };
  H["__vx_file_write"] = [this](St s, KI, Args& a, Val*) { };
  // is the block [p, p+n) valid, readable memory of one live object
  H["__vx_valid"] = [this](St, KI, Args& a, Val* r) { uint64_t p = concretize(a[0], 64), n = concretize(a[1], 64); Obj* o = find(p); r[0] = Val{(uint64_t)(o && p + n <= o->base + o->size), nullptr}; };
}
} // namespace vx
