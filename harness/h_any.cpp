// Any text with any format: every scan returns, without undefined behaviour, and reports a position inside the input.
// The executor checks every access, arithmetic operation, allocation and assertion on the way.
// params: G 0 a fixed format (case K); 1 "{:" + up to L arbitrary characters + "}" (argument types K); 2 fill, alignment, width and precision arbitrary with up to L fill characters (argument types K); 3 up to L arbitrary characters (types K)
//   N input length at most, R 0 contiguous 1 forward range 2 deque, Q quiet bytes: how many of the input bytes may be non-ASCII (all when 0)
#include <scn/scan.h>
#include <scn/xchar.h>
#include <deque>
#include "vk.h"
#include "cases.h"
#include "fwd.h"
#ifndef VK_C
#define VK_C char
#endif
using C = VK_C; using S = std::basic_string<C>; using SV = std::basic_string_view<C>; using O = std::conditional_t<sizeof(C) == 1, std::wstring, std::string>;
template <class T> struct Exact { T* p; size_t n; explicit Exact(size_t k) : p(new T[k]), n(k) {} ~Exact() { delete[] p; } Exact(const Exact&) = delete; };   // reading past the end is seen
template <class... Ts> static void go(SV fs, SV in, unsigned R) {
  bool ok; size_t used = 0;
  if (R == 0) { auto r = scn::scan<Ts...>(in, scn::runtime_format(fs)); ok = r.has_value(); if (r) used = (size_t)(r->begin() - in.begin()); else vk_obs((uint64_t)r.error().code()); }
  else if constexpr ((std::is_same_v<Ts, SV> || ...)) return;
  else if (R == 1) { Fwd<C> w{in.data(), in.size()}; auto r = scn::scan<Ts...>(w, scn::runtime_format(fs)); ok = r.has_value(); if (r) used = r->begin().i; else vk_obs((uint64_t)r.error().code()); }
  else { std::deque<C> d(in.begin(), in.end()); auto r = scn::scan<Ts...>(d, scn::runtime_format(fs)); ok = r.has_value(); if (r) used = (size_t)(r->begin() - d.begin()); else vk_obs((uint64_t)r.error().code()); }
  vk_obs(ok); vk_obs(used);
  vk_assert(used <= in.size(), "the remaining range begins inside the input"); vk_cover(ok ? "ok" : "error");
}
template <class F> void with_type(unsigned T, F f) {
  switch (T) {
    case 0: return f(types<int>{}); case 1: return f(types<S>{}); case 2: return f(types<C>{}); case 3: return f(types<char32_t>{}); case 4: return f(types<bool>{});
    case 5: return f(types<void*>{}); case 6: return f(types<O>{}); case 7: return f(types<unsigned char>{}); case 8: return f(types<int, S>{}); case 9: return f(types<>{}); case 10: return f(types<SV>{});
  }
}
extern "C" void vk_main() {
  unsigned G = (unsigned)vk_param("G"), K = (unsigned)vk_param("K"), R = (unsigned)vk_param("R"); size_t N = vk_param("N"), L = vk_param("L");
  size_t n = vk_choice(N + 1, "len"); Exact<C> in(n); vk_sym(in.p, n * sizeof(C), "in"); SV sv(in.p, n);
  if (G == 0) return with_case<C>(K, [&](auto t, SV fs) { Exact<C> e(fs.size()); for (size_t i = 0; i < fs.size(); ++i) e.p[i] = fs[i]; [&]<class... Ts>(types<Ts...>) { go<Ts...>(SV(e.p, e.n), sv, R); }(t); });
  C f[32]; size_t m = 0; auto put = [&](char c) { f[m++] = (C)c; };
  if (G == 2) {
    put('{'); put(':'); unsigned al = (unsigned)vk_choice(4, "align");
    if (al) { size_t fl = vk_choice(L + 1, "fill"); vk_sym(f + m, fl * sizeof(C), "fillbytes"); for (size_t i = 0; i < fl; ++i) vk_assume((f[m + i] != C('/')) & (f[m + i] != C('L'))); m += fl; put("<>^"[al - 1]); }
    if (vk_choice(2, "width")) { vk_sym(f + m, sizeof(C), "w"); vk_assume(f[m] >= C('1') && f[m] <= C('4')); ++m; }
    if (vk_choice(2, "prec")) { put('.'); vk_sym(f + m, sizeof(C), "p"); vk_assume(f[m] >= C('1') && f[m] <= C('4')); ++m; }
    if (K == 1 && vk_choice(2, "c")) put('c');
    put('}');
  } else {
    if (G == 1) { put('{'); put(':'); }
    size_t l = vk_choice(L + 1, "flen"); vk_sym(f + m, l * sizeof(C), "fmt");
    for (size_t i = 0; i < l; ++i) vk_assume((f[m + i] != C('/')) & (f[m + i] != C('L')));   // regular expressions and localized reading are outside
    m += l; if (G == 1) put('}');
  }
  Exact<C> e(m); for (size_t i = 0; i < m; ++i) e.p[i] = f[i];
  with_type(K, [&](auto t) { [&]<class... Ts>(types<Ts...>) { go<Ts...>(SV(e.p, e.n), sv, R); }(t); });
}
