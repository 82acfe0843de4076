//@ case entry=helpers
//@ case entry=zip_vec
//@ case entry=zip_mix
//@ variant O0 -O0
//@ case entry=zip_proxy variant=O0
//@ case entry=zip_vec variant=O0
//@ case entry=keys
//@ case entry=typemap
//@ case entry=weak
//@ case entry=print
//@ bounds containers of up to 4 (helpers, zip) or 3 (keys, weak pointers) elements with unrestricted int, char or double values; 2 and 3 zipped containers of equal and unequal sizes; vector, list, set, map, array, vector<bool>; type maps with up to 4 keys
//@ outside zip over zero containers and lists of types other than those instantiated (compile-time)
#include "ekat_std_utils.hpp"
#include "ekat_zip.hpp"
#include "ekat_std_map_key_iterator.hpp"
#include "ekat_meta_utils.hpp"
#include <list>
#include <array>
#include <map>
#include <sstream>
using namespace ekat; using namespace vx;
template <class C> static void one(const C& c0, int n, const int* x, int v) {
  int cnt = 0, first = -1; for (int i = 0; i < n; i++) { if (x[i] == v) { cnt++; if (first < 0) first = i; } }
  check(ekat::contains(c0, v) == (cnt > 0), "contains"); check(ekat::count(c0, v) == cnt, "count"); C c = c0; auto it = ekat::find(c, v); int pos = 0; for (auto j = c.begin(); j != it; ++j) pos++; check(pos == (cnt ? first : n), "find: first match or the end");
  check(ekat::erase(c, v) == (cnt > 0), "erase: result"); check((int)c.size() == n - (cnt > 0), "erase: one element goes"); int i = 0; for (int e : c) { if (i == first && cnt) i++; check(e == x[i], "erase: the others stay, in order"); i++; }
}
VX_ENTRY(helpers) { int n = pick<int>(0, 4, "n"); int x[4], v = sym<int>("v"); symArray(x, 4, "x"); if (pick<int>(0, 1, "kind")) one(std::vector<int>(x, x + n), n, x, v); else one(std::list<int>(x, x + n), n, x, v);
  if (n == 3) { std::set<int> s; for (int i = 0; i < 3; i++) s.insert((int)range<int>(0, 2, "s")); bool in = s.count(v); size_t sz = s.size(); check(ekat::contains(s, v) == in && ekat::count(s, v) == (int)in, "contains, set"); check(ekat::erase(s, v) == in && s.size() == sz - in && !s.count(v), "erase, set"); }
  if (n == 2) { std::string s{(char)x[0], (char)x[1]}; char ch = sym<char>("ch"); check(ekat::contains(s, ch) == (s[0] == ch || s[1] == ch), "contains, string"); } cover("helpers"); }
VX_ENTRY(zip_vec) { int n = pick<int>(0, 4, "n"), m = pick<int>(0, 4, "m"); std::vector<int> a(n); std::vector<double> b(m); long t[4]; symArray(t, 4, "t"); for (int i = 0; i < n; i++) a[i] = sym<int>("a"); for (int i = 0; i < m; i++) memcpy(&b[i], &t[i], 8);
  if (n != m) { check(throws([&] { ekat::zip(a, b); }), "zip of different sizes"); cover("unequal"); return; }
  std::vector<int> a0 = a; int k = 0; for (auto [x, y] : ekat::zip(a, b)) { check(&x == &a[k] && &y == &b[k], "the k-th step refers to the k-th elements"); x = k + 5; k++; } check(k == n, "number of steps"); for (int i = 0; i < n; i++) check(a[i] == i + 5 && memcmp(&b[i], &t[i], 8) == 0, "writes reach the containers");
  const auto& ca = a0; k = 0; for (auto [x, y] : ekat::zip(ca, b)) { check(&x == &ca[k] && &y == &b[k], "const container"); k++; } check(k == n, "steps"); auto z = ekat::zip(a0, b); k = 0; for (auto it = z.cbegin(); it != z.cend(); ++it) { auto [x, y] = *it; check(&x == &a0[k] && &y == &b[k], "const iteration"); k++; } check(k == n, "steps"); if (n) { auto it = z.begin(); check((it != z.end()) && !(it != z.begin()), "comparison"); auto& r = ++it; check(&r == &it && (n == 1 ? !(it != z.end()) : &std::get<0>(*it) == &a0[1]), "increment"); } cover("equal"); }
VX_ENTRY(zip_mix) { int n = pick<int>(0, 4, "n"); std::list<char> l; std::array<int, 3> a; long arr[3]; symArray(arr, 3, "arr"); for (int i = 0; i < 3; i++) a[i] = sym<int>("a"); for (int i = 0; i < n; i++) l.push_back(sym<char>("l")); if (n != 3) { int w = pick<int>(0, 2, "which"); check(throws([&] { if (w == 0) ekat::zip(l, a, arr); else if (w == 1) ekat::zip(a, l, arr); else ekat::zip(a, arr, l); }), "zip of different sizes"); cover("unequal"); return; }
  int k = 0; auto li = l.begin(); for (auto [x, y, z] : ekat::zip(l, a, arr)) { check(&x == &*li && &y == &a[k] && &z == &arr[k], "three containers"); ++li; k++; } check(k == 3, "steps"); std::map<int, int> m{{1, a[0]}, {2, a[1]}, {7, a[2]}}; k = 0; for (auto [kv, y] : ekat::zip(m, a)) { check(kv.second == y, "map"); k++; } check(k == 3, "steps"); k = 0; for (auto [y] : ekat::zip(a)) { check(&y == &a[k], "one container"); k++; } check(k == 3, "steps"); cover("equal"); }
VX_ENTRY(zip_proxy) { int n = pick<int>(1, 3, "n"); std::vector<bool> v(n); std::vector<int> a(n); bool b[3]; for (int i = 0; i < n; i++) { b[i] = sym<unsigned char>("b") & 1; v[i] = b[i]; a[i] = sym<int>("a"); } int k = 0; for (auto [x, y] : ekat::zip(v, a)) { check((bool)x == b[k] && &y == &a[k], "elements of vector<bool>"); k++; } check(k == n, "steps"); cover("proxy"); }
VX_ENTRY(keys) { int n = pick<int>(0, 3, "n"); std::map<int, double> m; int x[3]; for (int i = 0; i < n; i++) { x[i] = sym<int>("k"); m[x[i]] = i; } using It = map_key_iterator<std::map<int, double>>; using CIt = map_key_const_iterator<std::map<int, double>>; const auto& cm = m;
  auto mi = m.begin(); int k = 0; It e(m.end()); for (It it(m.begin()); it != e; ++it, ++mi) { check(&*it == &mi->first && it.operator->() == &mi->first, "keys in order"); k++; } check(k == (int)m.size(), "every key once"); mi = m.begin(); k = 0; CIt ce(cm.end()); for (CIt it(cm.begin()); !(it == ce); it++, ++mi) { check(&*it == &mi->first && it.operator->() == &mi->first, "keys of a const map"); k++; } check(k == (int)m.size(), "every key once");
  if (n) { It it(m.end()); auto old = it--; check(old == It(m.end()) && *it == m.rbegin()->first, "decrement"); auto o2 = it++; check(*o2 == m.rbegin()->first && it == It(m.end()), "increment"); check(*--it == m.rbegin()->first, "decrement"); CIt ci(cm.begin()); auto o3 = ci++; check(*o3 == cm.begin()->first && o3 != ci, "increment"); ci--; check(ci == o3, "decrement"); --ci, ++ci; } cover("keys"); }
template <class T> struct Box {}; struct A {}; struct B {}; struct C {}; struct D {};
VX_ENTRY(typemap) { using TM = TypeMap<TypeList<A, B, C, D>, TypeList<int, long, int, double>>; TM m; int a = sym<int>("a"), c = sym<int>("c"); long b = sym<long>("b"); m.at<A>() = a; m.at<B>() = b; m.at<C>() = c; m.at<D>() = 2.5; const TM& cm = m; check(cm.at<A>() == a && cm.at<B>() == b && cm.at<C>() == c && cm.at<D>() == 2.5, "value of each key"); check((TM::has_t<A>() && TM::has_t<D>() && !TM::has_t<float>()), "keys"); check((std::is_same<TM::at_t<C>, int>::value && std::is_same<TM::at_t<B>, long>::value), "types");
  int v = sym<int>("v"); long w = sym<long>("w"); check(m.has_v(v) == (v == a || v == c), "has_v"); check(m.has_v(w) == (w == b), "has_v, long"); check(m.has_v(2.5) && !m.has_v(2.25) && !m.has_v(2.5f), "has_v by exact type");
  check((FirstOf<int, TypeList<long, int, int>>::pos == 1 && FirstOf<char, TypeList<long, int>>::pos == -1 && FirstOf<int, TypeList<int>>::pos == 0), "first position"); check((is_type_list_unique<TypeList<int, long>>::value && !is_type_list_unique<TypeList<long, int, long>>::value && !is_type_list_unique<TypeList<char, long, long>>::value), "uniqueness"); check((SameType<int, int, int>::value && !SameType<int, int, long>::value && !SameType<long, int, int>::value && !SameType<int, long, int>::value && !SameType<int, const int>::value && !SameType<int&, int, int>::value && SameType<long>::value && std::is_same<SameType<char, char>::type, char>::value), "same types"); check((std::is_same<type_list_cat<TypeList<int>, TypeList<char, long>>, TypeList<int, char, long>>::value), "concatenation"); check((std::is_same<apply_template_t<Box, TypeList<int, char, int>>, TypeList<Box<int>, Box<char>, Box<int>>>::value), "template applied to every type"); check((type_list_size<TypeList<int, int, char>>::value == 3 && std::is_same<type_list_get<TypeList<int, long, char>, 1>, long>::value), "size and entries of a list");
  int stop = pick<int>(0, 5, "stop"), k = 0; TypeListFor<TypeList<char, short, int, long>>([&](auto t) -> bool { check(sizeof(t) == (1u << k), "types in order"); return ++k == stop; }); check(k == (stop >= 1 && stop <= 4 ? stop : 4), "the loop ends when asked to"); k = 0; TypeListFor<TypeList<char, short, int, long>>([&](auto t) { check(sizeof(t) == (1u << k), "types in order"); k++; }); check(k == 4, "all types visited"); cover("typemap"); }
VX_ENTRY(weak) { std::shared_ptr<int> p[3]; for (auto& q : p) q = std::make_shared<int>(3); WeakPtrSet<int> s; bool in[3] = {}; int n = 0; for (int i = 0; i < 3; i++) { int w = pick<int>(0, 2, "which"); bool ins = s.insert(p[w]).second; check(ins == !in[w], "one entry per owner"); if (ins) { in[w] = true; n++; } if (pick<int>(0, 1, "look")) for (int j = 0; j < 3; j++) check((s.find(p[j]) != s.end()) == in[j], "lookup by owner"); } check((int)s.size() == n, "size"); std::weak_ptr<int> old = p[0]; p[0].reset(); check((s.count(old) == 1) == in[0], "expired entries stay"); std::weak_ptr<int> o1 = p[1]; p[1].reset(); check((s.count(o1) == 1) == in[1] && (s.count(old) == 1) == in[0], "expired entries stay"); check((int)s.size() == n, "size"); WeakPtrLess<int> lt; check(lt(old, o1) != lt(o1, old) && !lt(old, old), "expired owners are told apart"); std::weak_ptr<int> oc = p[2], od = oc; check(!lt(oc, od) && !lt(od, oc) && lt(oc, o1) != lt(o1, oc), "one owner is one entry"); cover("weak"); }
VX_ENTRY(print) { int n = pick<int>(0, 3, "n"); std::vector<std::string> v; std::string e; for (int i = 0; i < n; i++) { v.push_back(strOf(0, 2, "ab ", "s")); e += (i ? " " : "") + v[i]; } std::stringstream ss; ss << v; check(ss.str() == e, "entries separated by single blanks"); cover("print"); }
