// Several fields in one scan against the same fields scanned one after another.
// params: P, Q fields; I 0 automatic, 1 explicit indices in order, 2 explicit indices reversed; N max length; T 1: a third field (char)
#include <scn/scan.h>
#include <scn/xchar.h>
#include "ref.h"
#include "cases.h"
#ifndef VK_C
#define VK_C char
#endif
using C = VK_C; using S = std::basic_string<C>; using SV = std::basic_string_view<C>;
#define LIT(s) (sizeof(C) == 1 ? (const C*)(const void*)s : (const C*)(const void*)L##s)
template <class F> void field(unsigned k, F f) {
  switch (k) {
    case 0: return f(types<int>{}, LIT(""));
    case 1: return f(types<S>{}, LIT(""));
    case 2: return f(types<C>{}, LIT(""));
    case 3: return f(types<bool>{}, LIT(""));
    case 4: return f(types<unsigned char>{}, LIT(":x"));
    case 5: return f(types<S>{}, LIT(":[a-c]"));
    case 6: return f(types<S>{}, LIT(":.2"));
    case 7: return f(types<int>{}, LIT(":.2"));
    case 8: return f(types<char32_t>{}, LIT(""));
  }
}
static SV build(C* out, const C* a, const C* b, unsigned I, bool third) {
  size_t n = 0; auto put = [&](C c) { out[n++] = c; };
  auto one = [&](const C* s, int idx) { put('{'); if (idx >= 0) put((C)('0' + idx)); for (; *s; ++s) put(*s); put('}'); };
  if (I == 0) { one(a, -1); one(b, -1); if (third) one(LIT(""), -1); }
  else if (I == 1) { one(a, 0); one(b, 1); if (third) one(LIT(""), 2); }
  else { one(a, 1); one(b, 0); if (third) one(LIT(""), 2); }
  return {out, n};
}
static SV single(C* out, const C* a) { size_t n = 0; out[n++] = '{'; for (; *a; ++a) out[n++] = *a; out[n++] = '}'; return {out, n}; }
extern "C" void vk_main() {
  unsigned P = (unsigned)vk_param("P"), Q = (unsigned)vk_param("Q"), I = (unsigned)vk_param("I"); bool third = vk_param("T"); size_t N = vk_param("N");
  size_t n = vk_choice(N + 1, "len"); C buf[16]; vk_sym(buf, n * sizeof(C), "in"); SV sv(buf, n);
  field(P, [&](auto ta, const C* sa) { field(Q, [&](auto tb, const C* sb) {
    [&]<class A, class B>(types<A>, types<B>) {
      C f1[16], f2[16], f12[32]; SV fs = build(f12, sa, sb, I, third);
      // one after another
      bool ok = true; int code = 0; size_t used = 0; A va{}; B vb{}; C vc{};
      auto r1 = scn::scan<A>(sv, scn::runtime_format(single(f1, sa)));
      if (!r1) { ok = false; code = (int)r1.error().code(); }
      else {
        va = r1->value(); used = (size_t)(r1->begin() - sv.begin());
        vk_assert(r1->end() == sv.end(), "the remaining range ends where the input ends");
        auto r2 = scn::scan<B>(sv.substr(used), scn::runtime_format(single(f2, sb)));
        if (!r2) { ok = false; code = (int)r2.error().code(); }
        else { vb = r2->value(); used += (size_t)(r2->begin() - sv.substr(used).begin()); 
          if (third) { auto r3 = scn::scan<C>(sv.substr(used), scn::runtime_format(SV(LIT("{}"), 2))); if (!r3) { ok = false; code = (int)r3.error().code(); } else { vc = r3->value(); ++used; } } }
      }
      auto check = [&](auto& r, auto&& geta, auto&& getb, auto&& getc) {
        vk_obs(r.has_value());
        vk_assert(r.has_value() == ok, "fields scanned at once succeed exactly when they do one by one");
        if (!ok) { vk_obs((uint64_t)r.error().code()); vk_assert((int)r.error().code() == code, "the failing field's error is reported"); vk_cover("error"); return; }
        size_t u = (size_t)(r->begin() - sv.begin()); vk_obs(u);
        vk_assert(u == used, "the same input is consumed"); vk_assert(r->end() == sv.end(), "the remaining range is a suffix of the input");
        vk_assert(vk_eq(geta(*r), va) & vk_eq(getb(*r), vb), "the same values result"); if (third) vk_assert(getc(*r) == vc, "the same third value results");
        vk_cover("ok");
      };
      auto nil = [](auto&) { return C{}; };
      if (I < 2) {
        if (third) { auto r = scn::scan<A, B, C>(sv, scn::runtime_format(fs)); check(r, [](auto& x) { return std::get<0>(x.values()); }, [](auto& x) { return std::get<1>(x.values()); }, [](auto& x) { return std::get<2>(x.values()); }); }
        else { auto r = scn::scan<A, B>(sv, scn::runtime_format(fs)); check(r, [](auto& x) { return std::get<0>(x.values()); }, [](auto& x) { return std::get<1>(x.values()); }, nil); }
      } else {
        if (third) { auto r = scn::scan<B, A, C>(sv, scn::runtime_format(fs)); check(r, [](auto& x) { return std::get<1>(x.values()); }, [](auto& x) { return std::get<0>(x.values()); }, [](auto& x) { return std::get<2>(x.values()); }); }
        else { auto r = scn::scan<B, A>(sv, scn::runtime_format(fs)); check(r, [](auto& x) { return std::get<1>(x.values()); }, [](auto& x) { return std::get<0>(x.values()); }, nil); }
      }
    }(ta, tb);
  }); });
}
