// Native side of the harness interface: replays one counterexample against the real build.
#include "../shim/vx.h"
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <fstream>
#include <sstream>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <dlfcn.h>
static std::vector<std::pair<std::string, std::vector<unsigned long>>> ins; static size_t pos;
extern "C" {
int vx_exact_fmt = 0;
static bool expAbort = false;
static void viol(const char* m) { printf("VX-NATIVE-VIOLATION %s\n", m); fflush(stdout); _Exit(77); }
void __vx_sym(void* p, unsigned long es, unsigned long n, const char* name) {
  memset(p, 0, es * n);
  std::string nm = name; for (char& c : nm) if (c == ' ') c = '_';
  if (pos < ins.size() && ins[pos].first == nm) { auto& v = ins[pos++].second; for (size_t i = 0; i < n && i < v.size(); i++) memcpy((char*)p + i * es, &v[i], es); }
}
void __vx_assume(int c) { if (!c) { printf("VX-NATIVE-ASSUME\n"); fflush(stdout); _Exit(0); } }
void __vx_assert(int c, const char* m) { if (!c) viol(m); }
void __vx_assert_close(double a, double b, double t, const char* m) { if (!(std::fabs(a - b) <= t * (1 + std::fabs(a) + std::fabs(b)))) { printf("got %.17g expected %.17g\n", a, b); viol(m); } }
void __vx_fail(const char* m) { viol(m); abort(); }
void __vx_cover(const char*) {}
long __vx_fork(long v) { return v; }
long __vx_param(const char* n, long d) { std::string e = std::string("VX_PARAM_") + n; const char* p = getenv(e.c_str()); return p ? atol(p) : d; }
int __vx_mode() { return -1; }
void __vx_expect_abort(int on) { expAbort = on; }
void __vx_end() { printf("VX-NATIVE-END\n"); fflush(stdout); _Exit(0); }
struct Th { void (*f)(void*); void* a; int g; };
static std::vector<Th> ths; static std::mutex mx; static std::condition_variable cv; static int turn = -1; static thread_local int me = -1;
static std::vector<int> st; // 0 ready, 1 barrier, 2 done
static void nextTurn() {
  for (;;) {
    int r = -1; for (size_t i = 0; i < st.size(); i++) if (st[i] == 0) { r = i; break; }
    if (r >= 0) { turn = r; break; }
    bool bar = false; for (int s : st) if (s == 1) bar = true;
    if (!bar) { turn = -2; break; }
    for (size_t i = 0; i < st.size(); i++) if (st[i] == 1) for (size_t j = 0; j < st.size(); j++) if (st[j] == 2 && ths[i].g == ths[j].g) viol("some team threads wait at a barrier that others never reach");
    for (int& s : st) if (s == 1) s = 0;
  }
  cv.notify_all();
}
void __vx_race_benign(int) {}
void __vx_lock_mode(int) {}
void __vx_spawn(void (*fn)(void*), void* arg, int g) { ths.push_back({fn, arg, g}); }
void __vx_join_all() {
  if (ths.empty()) return;
  st.assign(ths.size(), 0); turn = 0; std::vector<std::thread> v;
  for (size_t i = 0; i < ths.size(); i++) v.emplace_back([i] { { std::unique_lock<std::mutex> l(mx); me = i; cv.wait(l, [&] { return turn == (int)i; }); } ths[i].f(ths[i].a); std::unique_lock<std::mutex> l(mx); st[i] = 2; nextTurn(); });
  for (auto& t : v) t.join();
  ths.clear();
}
void __vx_barrier(unsigned long) { if (me < 0) return; std::unique_lock<std::mutex> l(mx); st[me] = 1; int m = me; nextTurn(); cv.wait(l, [&] { return turn == m && st[m] == 0; }); }
int __vx_thread() { return me; }
long __vx_live_heap() { return 0; }
int __vx_valid(const void*, unsigned long) { return 1; }
void __vx_trace(const char*, long) {}
}
int main(int argc, char** argv) { // replay-file entry
  std::ifstream f(argv[1]); std::string line;
  while (std::getline(f, line)) {
    if (line.rfind("input ", 0)) continue;
    std::istringstream is(line.substr(6)); std::string n; unsigned es; is >> n >> es; std::vector<unsigned long> v; unsigned long x; while (is >> x) v.push_back(x); ins.push_back({n, v}); }
  auto fn = (void (*)())dlsym(RTLD_DEFAULT, argv[2]);
  if (!fn) { printf("no entry %s\n", argv[2]); return 3; }
  setvbuf(stdout, nullptr, _IONBF, 0);
  fn();
  printf("VX-NATIVE-OK\n"); fflush(stdout); _Exit(0);
}
