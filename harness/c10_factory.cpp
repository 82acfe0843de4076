//@ case entry=fac_seq p.K=3
//@ case entry=fac_seq p.K=4 tier=thorough
//@ case entry=fac_str
//@ case entry=fac_msg
//@ bounds every history of 3 (thorough 4) operations out of {register, register with replacement, create, query, clean up} with symbolic integer keys and arguments; string keys of up to 2 characters
#include "ekat_factory.hpp"
#include <memory>
using namespace ekat; using namespace vx; using std::string;
struct Base { int tag, arg; virtual ~Base() {} virtual int id() const = 0; };
template <int N> struct Der : Base { int id() const override { return N; } };
template <int N> static std::shared_ptr<Base> mk(const int a) { auto p = std::make_shared<Der<N>>(); p->arg = a; return p; }
using Fac = Factory<Base, string, std::shared_ptr<Base>, const int>;
template <int N> static std::unique_ptr<Base> mu(const int a, const int b) { auto p = std::make_unique<Der<N>>(); p->arg = a - b; return p; }
struct Key { int v; bool operator<(const Key& o) const { return v < o.v; } };
static string operator+(const char* s, const Key&) { return s; }
static string operator+(const string& s, const Key&) { return s; }
using Fac2 = Factory<Base, Key, std::unique_ptr<Base>, const int, const int>;
VX_ENTRY(fac_seq) {
  auto& f = Fac2::instance(); check(&f == &Fac2::instance(), "more than one instance"); f.clean_up(); int K = param("K"); int keys[8], prod[8], n = 0; Fac2::creator_type cr[3] = {mu<0>, mu<1>, mu<2>};
  for (int s = 0; s < K; s++) {
    int op = pick<int>(0, 4, "op"); Key k{range<int>(0, 2, "key")}; int at = -1; for (int i = 0; i < n; i++) if (keys[i] == k.v) at = i;
    if (op <= 1) { int w = s == 0 ? 0 : pick<int>(0, 1, "product"); bool r = f.register_product(k, cr[w], op == 1); check(r == (at < 0 || op == 1), "registration result"); if (at < 0) { keys[n] = k.v; prod[n++] = w; } else if (op == 1) prod[at] = w; if (at >= 0) cover(op ? "replaced" : "kept"); }
    if (op == 2) { int a = 7 + s, b = 3 * s; if (at < 0) check(throws([&] { f.create(k, std::move(a), std::move(b)); }), "unregistered product created"); else { const int ca = a, cb = b; auto p = f.create(k, std::move(ca), std::move(cb)); check(p->id() == prod[at], "creator of another key used"); check(p->arg == ca - cb, "constructor arguments"); } }
    if (op == 3) check(f.has_product(k) == (at >= 0), "query");
    if (op == 4) { f.clean_up(); n = 0; }
    check(f.register_size() == (size_t)n, "number of registered products");
  }
  for (int i = 0; i < n; i++) check(f.has_product(Key{keys[i]}), "registered product lost");
}
VX_ENTRY(fac_str) {
  auto& f = Fac::instance(); f.clean_up(); string a = strOf(0, 2, "ab", "a"), b = strOf(0, 2, "ab", "b"); check(f.register_product(a, mk<1>), "first registration"); check(f.register_product(b, mk<2>) == !(a == b), "second registration"); 
  int x = sym<int>("x"); auto p = f.create(a, std::move(x)), q = f.create(b, 5); check(p->id() == 1 && p->arg == x, "first product"); check(q->id() == (a == b ? 1 : 2) && q->arg == 5, "second product"); check(throws([&] { f.create("c", 1); }), "unregistered product created"); check(f.register_product(a, mk<3>, true) && f.create(a, 0)->id() == 3, "replacement"); f.clean_up(); check(throws([&] { f.create(a, 1); }) && f.register_size() == 0, "emptied"); }

// the error for an unknown product names it and lists what is registered
VX_ENTRY(fac_msg) { auto& f = Fac::instance(); f.clean_up(); static const char* ks[] = {"k#k", "z#z", "m#m"}; int n = pick<int>(0, 3, "n"), o = pick<int>(0, 2, "first"); for (int i = 0; i < n; i++) f.register_product(ks[(i + o) % 3], mk<1>); string w; try { f.create("q#q", 1); } catch (std::exception& e) { w = e.what(); } if (n) check(w.find("q#q") != string::npos, "the error names the missing product"); string l; for (int k = 0; k < 3; k++) { static const char* srt[] = {"k#k", "m#m", "z#z"}; bool in = false; for (int i = 0; i < n; i++) in |= string(ks[(i + o) % 3]) == srt[k]; check((w.find(srt[k]) != string::npos) == in, "the error lists the registered products"); } cover("message"); }
