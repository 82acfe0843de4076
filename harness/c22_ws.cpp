//@ build kokkos=1 def=EKAT_HAS_KOKKOS,EKAT_DEFAULT_BFB inc=shim/team
//@ case entry=hist p.first=0 p.any=1
//@ case entry=hist p.first=2 p.any=1
//@ case entry=hist p.first=3 p.any=1
//@ case entry=hist p.first=5 p.any=1
//@ case entry=hist p.first=7 p.any=1
//@ case entry=hist tier=thorough p.first=0 p.len=5
//@ case entry=hist tier=thorough p.first=2 p.len=5
//@ case entry=hist tier=thorough p.first=3 p.len=5
//@ case entry=hist tier=thorough p.first=5 p.len=5
//@ case entry=hist tier=thorough p.first=7 p.len=5
//@ case entry=types p.t=0
//@ case entry=types p.t=1
//@ case entry=other
//@ case entry=other_big
//@ case entry=report
//@ case entry=user_data
//@ case entry=stats p.first=0
//@ case entry=stats p.first=2
//@ case entry=stats p.first=3
//@ case entry=stats p.first=5
//@ case entry=stats p.first=7
//@ bounds every history of 3 (release build: 4, thorough 5) operations out of {take, release any, take_many, take_many_refs, take_many_contiguous, release_many_contiguous, take_macro_block of 1-3, release_macro_block, take_many_and_reset, reset} on 4 blocks of 2 doubles, followed or not by reset_internals and further takes; 3-block histories for int, float, long and packs; block contents unrestricted; concurrent use by up to 3 teams of 1 or 2 threads
//@ outside Workspace::print and the layout of report() beyond the counts and names it prints; get_alloc_count and get_release_count (they do not compile at the pinned commit); GPU slot locking (C23 covers slot assignment)
//@ assume contiguous and macro takes only when the first free blocks are contiguous (documented as unsafe otherwise; asserted in debug builds); data races are checked in the release build (the debug build poisons blocks from all threads on purpose)
//@ stubs Kokkos team execution (teams and threads are symbolic-scheduler threads)
#include "ws.inc"
VX_ENTRY(report) { g_concurrency = 1; using WM = WorkspaceManager<double, OmpDevice>; WM wm(2, 3, WM::TeamPolicy(1, 1)); TeamMember m{0, 1, 0, 1, 7}; auto ws = wm.get_workspace(m); auto a = ws.take("a"); auto b = ws.take("a"); ws.release(b); check(true, "reached"); wm.report(); cover("report"); }
// storage given by the caller, exactly as large as get_total_bytes_needed says, for two slots
VX_ENTRY(user_data) { g_concurrency = 2; using WM = WorkspaceManager<double, OmpDevice>; WM::TeamPolicy pol(2, 1); int sz = pick<int>(1, 2, "size"), M = pick<int>(1, 3, "blocks"), bytes = WM::get_total_bytes_needed(sz, M, pol); double* data = (double*)malloc(bytes); { WM wm(data, sz, M, pol); int s0 = pick<int>(0, 1, "first slot"); double y = Tag<double>::make(sym<long>("y")), z = Tag<double>::make(sym<long>("z")); using V = decltype(wm.get_workspace(std::declval<const TeamMember&>()).take<double>("")); V v[2][3];
  for (int k = 0; k < 2; k++) { int s = k ^ s0; for (int& r : g_pool_rank) r = s; TeamMember m{s, 2, 0, 1, 7}; auto ws = wm.get_workspace(m, "w"); for (int i = 0; i < M; i++) { v[s][i] = ws.take<double>("a"); for (int j = 0; j < sz; j++) v[s][i](j) = s ? y : z; } } for (int& r : g_pool_rank) r = 0;
  for (int s = 0; s < 2; s++) for (int i = 0; i < M; i++) for (int j = 0; j < sz; j++) { double* q = &v[s][i](j); check(q >= data && (char*)(q + 1) <= (char*)data + bytes, "a block lies in the storage of the caller"); check(Tag<double>::same(*q, s ? y : z), "contents"); } } free(data); cover("user storage"); }
// blocks viewed as a larger type: as many whole entries as fit, and no more
VX_ENTRY(other_big) { g_concurrency = 1; using WM = WorkspaceManager<double, OmpDevice>; using P2 = Pack<double, 2>; int sz = pick<int>(1, 5, "size"); WM wm(sz, 3, WM::TeamPolicy(1, 1)); TeamMember m{0, 1, 0, 1, 7}; auto ws = wm.get_workspace(m); double y = Tag<double>::make(sym<long>("y")), z = Tag<double>::make(sym<long>("z")); auto a = ws.take<P2>("a"); auto b = ws.take<double>("b"); auto c = ws.take<P2>("c"); check((int)a.extent(0) == sz / 2 && (int)c.extent(0) == sz / 2, "a block holds as many entries of another type as fit"); for (int i = 0; i < sz; i++) b(i) = y; for (int i = 0; i < (int)a.extent(0); i++) a(i) = P2(z); for (int i = 0; i < (int)c.extent(0); i++) c(i) = P2(z); for (int i = 0; i < sz; i++) check(Tag<double>::same(b(i), y), "contents of a block between blocks of another type"); for (int i = 0; i < (int)a.extent(0); i++) for (int s = 0; s < 2; s++) check(Tag<double>::same(a(i)[s], z) && Tag<double>::same(c(i)[s], z), "contents"); int o = pick<int>(0, 1, "order"); if (o) ws.release(a); ws.release(b); if (!o) ws.release(a); auto d = ws.take<double>("d"); check((int)d.extent(0) == sz, "size of a block taken again"); ws.release(d); ws.release(c); }
// what report() prints: the most blocks in use at a time, and how often each name was taken and released, per slot and in total
struct Captured {
#ifdef VX_NATIVE
  std::ostringstream o; std::streambuf* old; Captured() { old = std::cout.rdbuf(o.rdbuf()); } ~Captured() { std::cout.rdbuf(old); } std::string str() { return o.str(); }
#else
  Captured() { std::cout.null_ = false; std::cout.b_.s.clear(); } ~Captured() { std::cout.null_ = true; } std::string str() { return std::cout.b_.s; }
#endif
};
VX_ENTRY(stats) { g_concurrency = 2; using WM = WorkspaceManager<double, OmpDevice>; using U = User<double>; WM wm(1, 4, WM::TeamPolicy(2, 1)); U* us[2]; int len[2] = {3, 1}; std::string txt;
  for (int s = 0; s < 2; s++) { for (int& r : g_pool_rank) r = s; TeamMember m{s, 2, 0, 1, 7}; auto ws = wm.get_workspace(m, "w"); us[s] = new U(wm, ws, 1, 4); for (int i = 0; i < len[s]; i++) us[s]->op(i == 0 && s == 0 ? param("first") : pick<int>(0, 8, "op")); us[s]->verify(); } for (int& r : g_pool_rank) r = 0;
  { Captured c; wm.report(); txt = c.str(); } size_t at = 0; auto next = [&](const std::string& s, const char* what) { size_t k = txt.find(s, at); check(k != std::string::npos, what); at = k + s.size(); }; auto num = [](int n) { return std::to_string(n); };
  for (int s = 0; s < 2; s++) { next("WS " + num(s) + " currently using " + num(us[s]->used) + "\n", "report: blocks in use"); next("WS " + num(s) + " high-water " + num(us[s]->high) + "\n", "report: most blocks in use at one time"); }
  for (int s = 0; s < 2; s++) { next("For wsidx " + num(s), "report: slot"); for (int i = 0; i < us[s]->nc; i++) { auto& c = us[s]->c[i]; next("'" + std::string(c.n) + "' was taken " + num(c.t) + " times and released " + num(c.r) + " times\n", "report: takes and releases of a name"); bool leak = txt.compare(at, 19, "      POSSIBLE LEAK") == 0; check(leak == (c.t != c.r), "report: a leak is suspected exactly where takes and releases differ"); } }
  std::map<std::string, std::array<int, 3>> sum; for (int s = 0; s < 2; s++) for (int i = 0; i < us[s]->nc; i++) { auto& c = us[s]->c[i]; auto& e = sum[c.n]; e[0]++; e[1] += c.t; e[2] += c.r; }
  at = txt.find("summary"); check(at != std::string::npos, "report: summary"); for (auto& kv : sum) next("'" + kv.first + "' was used by " + num(kv.second[0]) + " wsindices with " + num(kv.second[1]) + " takes and " + num(kv.second[2]) + " releases", "report: totals over the slots"); cover("stats"); }
