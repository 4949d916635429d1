// Containers: brackets, separators and elements, against a reference parser.
// params: K container (see run); N length at most; M 0 any text, 1 a list with a window of N arbitrary bytes at any place; R 0 contiguous 1 forward range
#include <scn/scan.h>
#include <scn/ranges.h>
#include <deque>
#include <map>
#include <set>
#include <vector>
#include "ref.h"
#include "fwd.h"
using E = scn::scan_error; using EC = enum E::code;
template <class T> struct Capped {   // a container with room for three
  T d[3]; size_t k = 0; using value_type = T;
  size_t max_size() const { return 3; }
  T* begin() { return d; } T* end() { return d + k; } const T* begin() const { return d; } const T* end() const { return d + k; } size_t size() const { return k; }
  void push_back(T v) { vk_assert(k < 3, "no more than max_size elements are added"); if (k < 3) d[k++] = v; }
};
template <class T> struct Queue { std::vector<T> v; using value_type = T; auto begin() { return v.begin(); } auto end() { return v.end(); } auto begin() const { return v.begin(); } auto end() const { return v.end(); } size_t size() const { return v.size(); } void push(T x) { v.push_back(x); } };   // only push
// a container with its own brackets and separator
struct Own { std::vector<int> v; auto begin() const { return v.begin(); } auto end() const { return v.end(); } size_t size() const { return v.size(); } void push_back(int x) { v.push_back(x); } using value_type = int; };
template <> struct scn::range_format_kind<Own, char> : std::integral_constant<scn::range_format, scn::range_format::disabled> {};
template <> struct scn::scanner<Own, char> : scn::range_scanner<int, char> { constexpr scanner() { set_brackets("<<", "/>"); set_separator("->"); } };
struct Cur { const char* p; size_t n, i; bool ill; EC code; };
static bool fail(Cur& c, EC e) { c.code = e; return false; }
static bool ws(Cur& c) { c.i = ref::skip_ws(c.p, c.n, c.i, &c.ill); return !c.ill; }
static bool tok(Cur& c, char ch) { if (!ws(c)) return false; if (c.i == c.n) return fail(c, E::end_of_input); if (c.p[c.i] != ch) return fail(c, E::invalid_scanned_value); ++c.i; return true; }
static bool tok(Cur& c, char a, char b) { if (!tok(c, a)) return false; if (c.i == c.n) return fail(c, E::end_of_input); if (c.p[c.i] != b) return fail(c, E::invalid_scanned_value); ++c.i; return true; }
static bool elem(Cur& c, int& v, int base) {
  if (!ws(c)) return false;
  ref::IntRes r = ref::integer(c.p, c.n, c.i, base, true, 0x7fffffff, 0x80000000u);
  if (r.code != ref::OK) return fail(c, r.code == ref::END ? E::end_of_input : r.code == ref::INVALID_VALUE ? E::invalid_scanned_value : r.code == ref::POS_OVF ? E::value_positive_overflow : E::value_negative_overflow);
  v = (int)(r.neg ? 0 - (unsigned)r.mag : (unsigned)r.mag); c.i = r.end; return true;
}
static bool elem(Cur& c, char& v, int) { if (c.i == c.n) return fail(c, E::end_of_input); v = c.p[c.i++]; return true; }
template <class A, class B> static bool elem(Cur& c, std::pair<A, B>& v, int base, char o = '(', char s = ',', char e = ')');
template <class T> static bool elem(Cur& c, std::vector<T>& v, int base, char o = '[', char e = ']');
static bool elem(Cur& c, std::tuple<int, char, int>& v, int base) { return tok(c, '(') && elem(c, std::get<0>(v), base) && tok(c, ',') && elem(c, std::get<1>(v), base) && tok(c, ',') && elem(c, std::get<2>(v), base) && tok(c, ')'); }
template <class A, class B> static bool elem(Cur& c, std::pair<A, B>& v, int base, char o, char s, char e) { if (!(o ? tok(c, o) : ws(c))) return false; if (!o && c.i == c.n) return fail(c, E::end_of_input); return elem(c, v.first, base) && tok(c, s) && elem(c, v.second, base) && (!e || tok(c, e)); }
// how many elements fit; whether pairs are the bare key: value of a map
static size_t cap = 1000; static bool bare;
template <class T> static bool elem(Cur& c, std::vector<T>& v, int base, char o, char e) {
  if (!tok(c, o)) return false;
  for (size_t k = 0; k < cap; ++k) {
    { Cur d = c; if (tok(d, e)) { c = d; return true; } if (d.ill) { c.ill = true; return false; } }
    if (k && !tok(c, ',')) return false;
    T x{}; bool ok; if constexpr (std::is_same_v<T, std::pair<int, int>>) ok = bare ? elem(c, x, base, 0, ':', 0) : elem(c, x, base); else ok = elem(c, x, base);
    if (!ok) return false; v.push_back(x);
  }
  return tok(c, e);
}
static bool elem(Cur& c, Own& v, int base) {
  if (!tok(c, '<', '<')) return false;
  for (size_t k = 0;; ++k) { { Cur d = c; if (tok(d, '/', '>')) { c = d; return true; } if (d.ill) { c.ill = true; return false; } } if (k && !tok(c, '-', '>')) return false; int x{}; if (!elem(c, x, base)) return false; v.v.push_back(x); }
}
static char buf[32]; static size_t n;
template <class X, class Y> static bool eqc(const X& a, const Y& b) { size_t na = 0; for (auto& x : a) { (void)x; ++na; } if (na != b.size()) return false; bool e = true; size_t i = 0; for (const auto& x : a) { auto y = b[i++]; if constexpr (std::is_class_v<std::decay_t<decltype(y)>> && !std::is_same_v<std::decay_t<decltype(y)>, std::pair<int, int>> && !std::is_same_v<std::decay_t<decltype(y)>, std::tuple<int, char, int>>) e = e & eqc(x, y); else e = e & (bool)(x == y); } return e; }
// got: the container; want: the elements of the list in order
template <class X, class Y> static bool same(const X& a, const Y& b) { return eqc(a, b); }
static bool same(const std::pair<int, int>& a, const std::pair<int, int>& b) { return (a.first == b.first) & (a.second == b.second); }
static bool same(const std::tuple<int, char, int>& a, const std::tuple<int, char, int>& b) { return (std::get<0>(a) == std::get<0>(b)) & (std::get<1>(a) == std::get<1>(b)) & (std::get<2>(a) == std::get<2>(b)); }
static bool same(const Own& a, const Own& b) { return eqc(a.v, b.v); }
static bool same(const std::set<int>& a, const std::vector<int>& b) {
  bool e = true; bool first = true; int last = 0; size_t k = 0;
  for (int x : a) { bool in = false; for (int y : b) in = in | (x == y); e = e & in & (first | (x > last)); last = x; first = false; ++k; }
  for (int y : b) { bool in = false; for (int x : a) in = in | (x == y); e = e & in; }
  return e;
}
static bool same(const std::map<int, int>& a, const std::vector<std::pair<int, int>>& b) {   // the first of equal keys stays
  bool e = true; for (auto& x : a) { bool in = false, done = false; for (auto& y : b) { bool k = x.first == y.first; in = in | (k & !done & (x.second == y.second)); done = done | k; } e = e & in; }
  for (auto& y : b) { bool in = false; for (auto& x : a) in = in | (x.first == y.first); e = e & in; }
  return e;
}
template <class T, class W, class... P> static void go(const char* fs, int base, unsigned R, P... brk) {
  bool got; EC code{}; size_t used = 0; T v{};
  auto take = [&](auto& r, auto pos) { got = r.has_value(); if (got) { v = std::move(r->value()); used = pos(*r); } else code = r.error().code(); };
  if (R == 0) { std::string_view in(buf, n); auto r = scn::scan<T>(in, scn::runtime_format(std::string_view(fs))); take(r, [&](auto& x) { return (size_t)(x.begin() - in.begin()); }); }
  else { Fwd<char> w{buf, n}; auto r = scn::scan<T>(w, scn::runtime_format(std::string_view(fs))); take(r, [&](auto& x) { return x.begin().i; }); }
  vk_obs(got); if (got) vk_obs(used); else vk_obs((uint64_t)code);
  W want{}; Cur c{buf, n, 0, false, {}}; bool ok = elem(c, want, base, brk...);
  if (c.ill) return;
  vk_assert(got == ok, "a list is accepted exactly when it is well formed"); if (got != ok) return;
  if (!ok) { vk_assert(code == c.code, "the error says what is wrong"); vk_cover("error"); return; }
  vk_assert(used == c.i, "exactly the list is consumed"); vk_assert(same(v, want), "the elements are those in the list"); vk_cover("ok");
}
extern "C" void vk_main() {
  unsigned K = (unsigned)vk_param("K"), M = (unsigned)vk_param("M"), R = (unsigned)vk_param("R"); size_t N = vk_param("N");
  using V = std::vector<int>; using PI = std::pair<int, int>; using TI = std::tuple<int, char, int>;
  static const char* const tmpl[] = {"[12, 3 ,-45 ]6", "[a,b, c]", "{7, 3,7 }", "{1: 22,3:4 }", "(-1 , 23)4", "(1,a, 2 )", "[[1],[], [2,3] ]", "[(1,2), (3,4) ]", "[1,2,3]", "[ff, 0x1 ,-a]", "[1,23 ]", "[1,2 , 3]", "<< 1->2 -> 3/>"};
  if (M == 0) { n = vk_choice(N + 1, "len"); vk_sym(buf, n, "in"); }
  else { n = strlen(tmpl[K]); for (size_t i = 0; i < n; ++i) buf[i] = tmpl[K][i]; vk_sym(buf + vk_choice(n - N + 1, "at"), N, "window"); }
  switch (K) {
    case 0: go<V, V>("{}", 10, R); break;
    case 1: go<std::vector<char>, std::vector<char>>("{}", 10, R); break;
    case 2: go<std::set<int>, V>("{}", 10, R, '{', '}'); break;
    case 3: bare = true; go<std::map<int, int>, std::vector<PI>>("{}", 10, R, '{', '}'); break;
    case 4: go<PI, PI>("{}", 10, R); break;
    case 5: go<TI, TI>("{}", 10, R); break;
    case 6: go<std::vector<V>, std::vector<V>>("{}", 10, R); break;
    case 7: go<std::vector<PI>, std::vector<PI>>("{}", 10, R); break;
    case 8: cap = 3; go<Capped<int>, V>("{}", 10, R); break;
    case 9: go<V, V>("{:x}", 16, R); break;
    case 10: go<Queue<int>, V>("{}", 10, R); break;
    case 12: go<Own, Own>("{}", 10, R); break;
    case 11: go<std::deque<int>, V>("{}", 10, R); break;
  }
}
