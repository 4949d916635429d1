// Width, precision, alignment and fill against a model in columns. The bare value is read by the same library from exactly the text the model leaves for it.
// params: T type, A alignment (0 none 1 < 2 > 3 ^), F fill (0 default, 1 arbitrary ASCII, 2 a two-byte one, 3 a four-byte one two columns wide, 4 arbitrary two-byte), N max code points, M how many may be non-ASCII (8: ASCII, the fill and one other), R 0 string_view 1 forward range, W 0 narrow 1 wide
#include <scn/scan.h>
#include <scn/xchar.h>
#include "text.h"
#include "fwd.h"
#include "cases.h"
#ifndef VK_C
#define VK_C char
#endif
using C = VK_C; using S = std::basic_string<C>; using SV = std::basic_string_view<C>;
using E = scn::scan_error;
#define LIT(s) (sizeof(C) == 1 ? (const C*)(const void*)s : (const C*)(const void*)L##s)
template <class F> void with_type(unsigned T, F f) {   // type, presentation, skips whitespace, spec for the bare value
  switch (T) {
    case 0: return f(types<int>{}, LIT(""), true);
    case 1: return f(types<S>{}, LIT(""), true);
    case 2: return f(types<C>{}, LIT(""), false);
    case 3: return f(types<S>{}, LIT("[a-c]"), false);
    case 4: return f(types<S>{}, LIT("s"), true);
    case 5: return f(types<char32_t>{}, LIT(""), false);
    case 6: return f(types<unsigned>{}, LIT("x"), true);
    case 7: return f(types<bool>{}, LIT(""), true);
    case 8: return f(types<S>{}, LIT("c"), false);
  }
}
extern "C" void vk_main() {
  unsigned T = (unsigned)vk_param("T"), A = (unsigned)vk_param("A"), F = (unsigned)vk_param("F"), R = (unsigned)vk_param("R");
  Text t; if (vk_param("M") < 8) make_text(t, vk_param("N"), (unsigned)vk_param("M"), sizeof(C) > 1);
  else { char32_t pal[2] = {F == 2 ? char32_t(0xe4) : char32_t(0x1f921), F == 2 ? char32_t(0x4e00) : char32_t(0xe5)}; make_text_from(t, vk_param("N"), pal, 2); }
  unsigned W = (unsigned)vk_choice(vk_param("WM") + 1, "W"), P = (unsigned)vk_choice(vk_param("PM") + 1, "P"); if (P && W > P) return; if (T == 8 && !P) return;
  // the text, code point by code point
  size_t n = t.nw; auto cp = [&](size_t i) { return (char32_t)t.w[i]; };
  auto at = [&](size_t i) { return sizeof(C) == 1 ? t.off[i] : i; };                 // offset in code units
  const C* p = sizeof(C) == 1 ? (const C*)(const void*)t.n : (const C*)(const void*)t.w; SV text(p, at(n));
  // the fill character
  char32_t fill = ' '; C f[40]; size_t k = 0; f[k++] = '{'; f[k++] = ':';
  if (F && A) {
    if (F == 1) { unsigned char c = vk_u8("fill"); vk_assume((c < 0x80) & (c != '{') & (c != '}') & (c != '[') & (c != '<') & (c != '>') & (c != '^')); fill = c; f[k++] = (C)c; }
    else if (sizeof(C) > 1) { fill = F == 2 ? 0xe4 : 0x1f921; if (F == 4) { unsigned char a = vk_u8("fill"); vk_assume((a >= 0xa1)); fill = a; } f[k++] = (C)fill; }
    else if (F == 2) { fill = 0xe4; f[k++] = (C)0xc3; f[k++] = (C)0xa4; }
    else if (F == 3) { fill = 0x1f921; f[k++] = (C)0xf0; f[k++] = (C)0x9f; f[k++] = (C)0xa4; f[k++] = (C)0xa1; }
    else { unsigned char a = vk_u8("fill"), b = vk_u8("fill2"); vk_assume((a >= 0xc2) & (a <= 0xdf) & ((b & 0xc0) == 0x80)); fill = ((a & 0x1f) << 6) | (b & 0x3f); f[k++] = (C)a; f[k++] = (C)b; }
  }
  if (A) f[k++] = (C)("\0<>^"[A]);
  if (W) f[k++] = (C)('0' + W);
  if (P) { f[k++] = (C)'.'; f[k++] = (C)('0' + P); }
  with_type(T, [&](auto ty, const C* pres, bool skips) { [&]<class V>(types<V>) {
    for (const C* q = pres; *q; ++q) f[k++] = *q;
    f[k++] = (C)'}'; SV fs(f, k);
    // ---- model
    auto col = [&](size_t i) { return (unsigned)1 + (unsigned)wide_cp(cp(i)); };
    // `limit` bounds what may be read; widths count columns read so far
    unsigned used = 0; size_t i = 0;
    auto fits = [&](size_t j) { return !P || used + col(j) <= P; };
    bool fail = false; unsigned codes = 0; auto err = [&](int c) { fail = true; codes |= 1u << c; };
    if (A == 2 || A == 3) { while (i < n && fits(i) && cp(i) == fill) { used += col(i); ++i; } }
    else if (A == 0 && skips) { while (i < n && fits(i) && ref::space(cp(i))) { used += col(i); ++i; } if (i == n || !fits(i)) { err(E::end_of_input); err(E::invalid_fill); } }
    if (!fail && P && used >= P) { err(E::invalid_fill); err(E::end_of_input); }
    V value{}; 
    if (!fail) {
      size_t e = i; { unsigned u = used; while (e < n && (!P || u + col(e) <= P)) { u += col(e); ++e; } }
      SV sub(p + at(i), at(e) - at(i)); size_t got = 0; bool ok = true; int code = 0;
      if constexpr (std::is_same_v<V, S>) {
        if (T == 8) { value = S(sub); got = sub.size(); if (n == 0) { codes = 0; } }
        else if (T == 3) { size_t m = 0; while (m < sub.size() && (sub[m] == C('a') || sub[m] == C('b') || sub[m] == C('c'))) ++m; got = m; value = S(sub.substr(0, m)); if (!m) { ok = false; code = E::invalid_scanned_value; } }
        else { size_t m = i; if (T == 4 && (A == 1 || A == 3)) { while (m < e && cp(m) != fill) ++m; } else { while (m < e && !ref::space(cp(m))) ++m; }
          got = at(m) - at(i); value = S(sub.substr(0, got)); }
      } else {
        // reading a bare value never skips whitespace at this point
        bool sp = i < e && skips && ref::space(cp(i));
        if (sp) { ok = false; code = E::invalid_scanned_value; }
        else { C b[8]; size_t m = 0; b[m++] = '{'; if (*pres) { b[m++] = ':'; for (const C* q = pres; *q; ++q) b[m++] = *q; } b[m++] = '}';
          auto r = scn::scan<V>(sub, scn::runtime_format(SV(b, m))); ok = r.has_value(); if (ok) { value = r->value(); got = (size_t)(r->begin() - sub.begin()); } else code = (int)r.error().code(); }
      }
      if (!ok) { err(code); if (i == n) err(E::end_of_input); if (sub.empty()) err(E::invalid_scanned_value); }
      else { size_t m = i; while (at(m) < at(i) + got) { used += col(m); ++m; }
        vk_assert(at(m) == at(i) + got, "a bare value ends between code points"); i = m; }
    }
    if (!fail) {
      if (A == 1 || A == 3) { while (i < n && fits(i) && cp(i) == fill) { used += col(i); ++i; } }
      else if (A == 0 && !skips && ((W && used < W) || (P && used < P))) { while (i < n && fits(i) && ref::space(cp(i))) { used += col(i); ++i; } }
      if (used < W) err(E::length_too_short);
    }
    // ---- the real thing
    auto check = [&](auto& r, size_t u) {
      vk_obs(r.has_value()); vk_obs(fail);
      vk_assert(r.has_value() == !fail, "the field is accepted exactly when it fits its width and precision");
      if (fail) { vk_obs((uint64_t)r.error().code()); vk_assert((codes >> (int)r.error().code()) & 1, "a field that does not fit is the documented error"); vk_cover("error"); return; }
      vk_obs(u);
      vk_assert(u == at(i), "exactly the fill and the value within the precision are consumed"); vk_assert(vk_eq(r->value(), value), "the value is the text within the precision"); vk_cover("ok");
    };
    if (R == 0) { auto r = scn::scan<V>(text, scn::runtime_format(fs)); check(r, r ? (size_t)(r->begin() - text.begin()) : 0); }
    else { Fwd<C> src{p, at(n)}; auto r = scn::scan<V>(src, scn::runtime_format(fs)); check(r, r ? r->begin().i : 0); }
  }(ty); });
}
