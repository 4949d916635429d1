// Convenience entry points and custom scanners against the plain scan.
// params: A what (see below), K type/format case, N max length, R 0 string_view, 1 forward range
#include <scn/scan.h>
#include <scn/xchar.h>
#include "ref.h"
#include "cases.h"
#include "fwd.h"
#ifndef VK_C
#define VK_C char
#endif
using C = VK_C; using S = std::basic_string<C>; using SV = std::basic_string_view<C>;
#define LIT(s) SV(sizeof(C) == 1 ? (const C*)(const void*)s : (const C*)(const void*)L##s, sizeof(s) - 1)
using E = scn::scan_error;
struct Pair { int a; S b; };            // scanned through a nested scan
struct Eat { size_t n; };                // eats `want` characters one by one
struct Spec { SV rest; int v; };         // keeps its own format specification
static size_t want, peek; static const C* base; static size_t basen; static bool sawsame = true; static size_t sawleft; static SV seenspec;
template <> struct scn::scanner<Pair, C> {
  template <class P> constexpr auto parse(P& p) -> typename P::iterator { return p.begin(); }
  template <class X> auto scan(Pair& v, X& ctx) const -> scn::scan_expected<typename X::iterator> {
    { auto q = ctx.begin(); for (size_t i = 0; i < peek && q != ctx.end(); ++i) ++q; }  // looking ahead changes nothing
    auto r = scn::scan<int, S>(ctx.range(), scn::runtime_format(LIT("{}:{}")));
    if (!r) return scn::unexpected(r.error());
    v.a = std::get<0>(r->values()); v.b = std::get<1>(r->values());
    return r->begin();
  }
};
template <> struct scn::scanner<Eat, C> {
  template <class P> constexpr auto parse(P& p) -> typename P::iterator { return p.begin(); }
  template <class X> auto scan(Eat& v, X& ctx) const -> scn::scan_expected<typename X::iterator> {
    auto it = ctx.begin(); size_t k = 0;
    { size_t i = 0; for (auto q = ctx.begin(); q != ctx.end(); ++q, ++i) { if (basen + i >= 64) break; sawsame = sawsame & (*q == base[i]); } sawleft = i; }
    while (k < want) { if (it == ctx.end()) return scn::unexpected(scn::scan_error{scn::scan_error::end_of_input, "eat"}); ++it; ++k; }
    v.n = k; return it;
  }
};
template <> struct scn::scanner<Spec, C> {
  SV mine{};
  template <class P> constexpr auto parse(P& p) -> typename P::iterator {
    auto b = p.begin(); auto e = p.end(); auto it = b; size_t n = 0; while (it != e && *it != C('}')) { ++it; ++n; }
    mine = n ? SV(&*b, n) : SV(); return it;
  }
  template <class X> auto scan(Spec& v, X& ctx) const -> scn::scan_expected<typename X::iterator> { v.rest = mine; seenspec = mine; return ctx.begin(); }
};
static C buf[16]; static size_t n;
template <class Rs, class Src> static size_t used(Rs& r, const Src& s) { if constexpr (std::is_same_v<Src, SV>) return (size_t)(r->begin() - s.begin()); else return r->begin().i; }
template <class A, class B, class SrcA, class SrcB, class F> static void same(A& a, const SrcA& sa, B& b, const SrcB& sb, F eqv) {
  vk_obs(a.has_value()); vk_obs(b.has_value());
  vk_assert(a.has_value() == b.has_value(), "both ways succeed on the same input");
  if (!a) { vk_obs((uint64_t)a.error().code()); vk_assert(a.error().code() == b.error().code(), "both ways fail with the same error"); vk_cover("error"); return; }
  size_t ua = used(a, sa), ub = used(b, sb); vk_obs(ua);
  vk_assert(ua == ub, "both ways consume the same input"); vk_assert(eqv(), "both ways give the same value"); vk_cover("ok");
}
template <class T> T init() { if constexpr (std::is_same_v<T, std::string>) return T(3, 'q'); else if constexpr (std::is_same_v<T, std::wstring>) return T(3, L'q'); else if constexpr (std::is_same_v<T, SV>) return SV(); else if constexpr (std::is_pointer_v<T>) return (T)(uintptr_t)77; else return (T)1; }
template <class Src> void run(unsigned A, unsigned K, Src src) {
  SV sv(buf, n);
  auto bytype = [&](auto f) { switch (K) { case 0: f(types<int>{}); break; case 1: f(types<S>{}); break; case 2: f(types<C>{}); break; case 3: f(types<bool>{}); break; case 4: f(types<unsigned short>{}); break; case 5: f(types<void*>{}); break; case 6: f(types<char32_t>{}); break; } };
  auto more = [&](auto f) { switch (K) { case 7: f(types<signed char>{}); break; case 8: f(types<short>{}); break; case 9: f(types<long>{}); break; case 10: f(types<long long>{}); break; case 11: f(types<unsigned char>{}); break; case 12: f(types<unsigned>{}); break; case 13: f(types<unsigned long>{}); break; case 14: f(types<unsigned long long>{}); break;
    case 15: if constexpr (std::is_same_v<Src, SV>) f(types<SV>{}); break; case 16: f(types<double>{}); break; case 17: f(types<float>{}); break; case 18: f(types<wchar_t>{}); break; case 19: f(types<std::conditional_t<sizeof(C) == 1, std::wstring, std::string>>{}); break; case 20: f(types<long double>{}); break; case 21: f(types<const void*>{}); break; default: bytype(f); } };
  auto byspec = [&](auto f) { switch (K) { case 0: f(types<int>{}, LIT("{}")); break; case 1: f(types<S>{}, LIT("{}")); break; case 2: f(types<C>{}, LIT("{}")); break; case 3: f(types<bool>{}, LIT("{:s}")); break; case 4: f(types<unsigned short>{}, LIT("{:x}")); break; case 5: f(types<void*>{}, LIT("{}")); break; case 6: f(types<char32_t>{}, LIT("{:c}")); break; case 7: f(types<S>{}, LIT("{:[a-c]}")); break; case 8: f(types<int>{}, LIT("{:.2}")); break; case 9: f(types<S>{}, LIT("{:.2}")); break; case 10: f(types<long>{}, LIT("{:i}")); break; } };
  if (A == 0) more([&](auto t) { [&]<class T>(types<T>) { auto a = scn::scan<T>(sv, scn::runtime_format(LIT("{}"))); auto b = scn::scan_value<T>(src); same(a, sv, b, src, [&] { return vk_eq(a->value(), b->value()); }); }(t); });
  if (A == 1) more([&](auto t) { [&]<class T>(types<T>) { auto a = scn::scan<T>(sv, scn::runtime_format(LIT("{}"))); auto b = scn::scan_value<T>(src, init<T>()); same(a, sv, b, src, [&] { return vk_eq(a->value(), b->value()); }); }(t); });
  if (A == 2) byspec([&](auto t, SV fs) { [&]<class T>(types<T>) { auto a = scn::scan<T>(sv, scn::runtime_format(fs)); auto b = scn::scan<T>(src, scn::runtime_format(fs), std::tuple<T>{init<T>()}); same(a, sv, b, src, [&] { return vk_eq(a->value(), b->value()); }); }(t); });
  if (A == 3) byspec([&](auto t, SV fs) { [&]<class T>(types<T>) { auto a = scn::scan<T>(sv, scn::runtime_format(fs)); auto b = scn::scan<scn::discard<T>>(src, scn::runtime_format(fs)); same(a, sv, b, src, [&] { return true; }); }(t); });
  if (A == 4) bytype([&](auto t) { [&]<class T>(types<T>) { auto a = scn::scan<T, C>(sv, scn::runtime_format(LIT("{}{}"))); auto b = scn::scan<scn::discard<T>, C>(src, scn::runtime_format(LIT("{}{}"))); same(a, sv, b, src, [&] { return std::get<1>(a->values()) == std::get<1>(b->values()); }); }(t); });
  if (A == 5) { peek = vk_choice(4, "peek"); auto a = scn::scan<C, int, S, C>(sv, scn::runtime_format(LIT("{}{}:{}{}"))); auto b = scn::scan<C, Pair, C>(src, scn::runtime_format(LIT("{}{}{}")));
    same(a, sv, b, src, [&] { auto& [x, i, s, y] = a->values(); auto& [p, q, r] = b->values(); return (x == p) & (i == q.a) & vk_eq(s, q.b) & (y == r); }); }
  if (A == 6 || A == 7) {
    want = vk_choice(n + 2, "want"); size_t lead = A == 6 ? 0 : 1; base = buf + lead; basen = 0; sawsame = true; sawleft = 0;
    if (n < lead) return;
    auto chk = [&](auto& r, Eat* e, C* after, size_t total) {
      vk_obs(r.has_value());
      vk_assert(sawsame && sawleft == n - lead, "the custom scanner sees exactly the remaining input");
      bool ok = total <= n; vk_assert(r.has_value() == ok, "a custom scanner may consume any part of the input");
      if (!ok) { vk_assert(r.error().code() == E::end_of_input, "the custom scanner's error is reported"); vk_cover("error"); return; }
      vk_assert(e->n == want && used(r, src) == total, "what the custom scanner consumed is consumed");
      if (after) vk_assert(*after == buf[total - 1], "scanning goes on right after the custom scanner");
      vk_cover("ok");
    };
    if (A == 6) { auto r = scn::scan<Eat>(src, scn::runtime_format(LIT("{}"))); chk(r, r ? &r->value() : nullptr, nullptr, want); }
    else { auto r = scn::scan<C, Eat, C>(src, scn::runtime_format(LIT("{}{}{}"))); chk(r, r ? &std::get<1>(r->values()) : nullptr, r ? &std::get<2>(r->values()) : nullptr, 2 + want); }
  }
  if (A == 8) {
    C f[12]; size_t m = 1 + vk_choice(3, "m"), q = 0; C sp[4]; vk_sym(sp, m * sizeof(C), "spec"); for (size_t i = 0; i < m; ++i) vk_assume(sp[i] != C('}'));
    f[q++] = C('{'); f[q++] = C(':'); for (size_t i = 0; i < m; ++i) f[q++] = sp[i]; f[q++] = C('}'); f[q++] = C('{'); f[q++] = C('}');
    auto r = scn::scan<Spec, C>(src, scn::runtime_format(SV(f, q)));
    vk_obs(r.has_value());
    vk_assert(r.has_value() == (n > 0), "a custom format specification is accepted"); if (!r) { vk_cover("error"); return; }
    SV s = std::get<0>(r->values()).rest; bool eq = s.size() == m; for (size_t i = 0; eq && i < m; ++i) eq = eq & (s[i] == sp[i]);
    vk_assert(eq, "the custom scanner sees exactly its own specification"); vk_assert(std::get<1>(r->values()) == buf[0] && used(r, src) == 1, "the next field follows"); vk_cover("ok");
  }
}
extern "C" void vk_main() {
  unsigned A = (unsigned)vk_param("A"), K = (unsigned)vk_param("K"); size_t N = vk_param("N");
  n = vk_choice(N + 1, "len"); vk_sym(buf, n * sizeof(C), "in");
  if (vk_param("R")) run(A, K, Fwd<C>{buf, n}); else run(A, K, SV(buf, n));
}
