// Floating-point fields: which text is taken, which value it converts to, and which errors are reported.
// params: T 0 float 1 double 2 long double; F presentation 0 {} 1 {:a} 2 {:e} 3 {:f} 4 {:g} 5 {:E} 6 {:A} 7 {:.P} (P columns at most); N length at most; M 0 any text, else shape: see below; R 0 contiguous 1 forward range; P precision, or the number of significands to try
#include <scn/scan.h>
#include <scn/xchar.h>
#include <cmath>
#include <cstdlib>
#include <cwchar>
#include "ref.h"
#include "ref_float.h"
#include "fwd.h"
#ifndef VK_C
#define VK_C char
#endif
using C = VK_C; using SV = std::basic_string_view<C>; using E = scn::scan_error;
#ifdef VK_SYMBOLIC
template <class C> static double vk_absval(const C* s, const ref::FText& t) { if (t.kind != ref::F_DEC || t.exp || t.mant_end - t.beg < 3 || s[t.beg] != C('0') || s[t.beg + 1] != C('.')) return 1.5; if (t.mant_end - t.beg < 19) return 0.75; for (size_t k = 0; k < 17; ++k) if (s[t.beg + 2 + k] != C('9')) return 0.75; return 1; }
extern "C" { extern unsigned vk_fp_calls; extern char32_t vk_fp_text[64]; extern size_t vk_fp_len; extern int vk_fp_type, vk_fp_hex; }
#endif
// the value is what the C library assigns to exactly that text
template <class T> static void check_value(T v, const C* p, const ref::FText& t, bool neg, int type, bool zero) {
  if (t.kind == ref::F_NAN) { vk_assert(std::isnan(v), "nan is read as a nan"); return; }
  vk_assert(std::signbit(v) == neg, "the sign is the one in the text");
  if (t.kind == ref::F_INF) { vk_assert(std::isinf(v), "inf is read as an infinity"); return; }
#ifdef VK_SYMBOLIC
  vk_assert(std::fabs(v) == (zero ? (T)0 : (T)vk_absval(p, t)), "the value is the converted one"); vk_assert(vk_fp_calls >= 1, "a conversion happened"); vk_assert(vk_fp_type == type, "the conversion is the one of the type"); vk_assert(zero || vk_fp_hex == (t.kind == ref::F_HEX), "the base of the conversion is that of the text");
  size_t n = t.end - t.beg; vk_assert(vk_fp_len == n, "exactly the text of the number is converted"); bool same = true; for (size_t i = 0; i < n && i < 64; ++i) same = same & (vk_fp_text[i] == (sizeof(C) == 1 ? (char32_t)(unsigned char)p[t.beg + i] : (char32_t)p[t.beg + i])); vk_assert(same, "exactly the text of the number is converted");
#else
  std::string s = t.kind == ref::F_HEX ? "0x" : ""; for (size_t i = t.beg; i < t.end; ++i) s += (char)p[i];
  T e; if constexpr (std::is_same_v<T, float>) e = std::strtof(s.c_str(), nullptr); else if constexpr (std::is_same_v<T, double>) e = std::strtod(s.c_str(), nullptr); else e = std::strtold(s.c_str(), nullptr);
  vk_assert(std::fabs(v) == e, "the value is the converted one");
#endif
}
template <class T> static void go(const C* p, size_t n, size_t lim, SV fs, unsigned F, int type, unsigned R) {
  bool ill = false; size_t m = n < lim ? n : lim, i = ref::skip_ws(p, m, 0, &ill); if (ill) return;
  bool got; enum E::code code{}; size_t used = 0; T v{};
  auto take = [&](auto& r, auto pos) { got = r.has_value(); if (got) { v = r->value(); used = pos(*r); } else code = r.error().code(); };
  if (R == 0) { SV in(p, n); auto r = scn::scan<T>(in, scn::runtime_format(fs)); take(r, [&](auto& x) { return (size_t)(x.begin() - in.begin()); }); }
  else { Fwd<C> w{p, n}; auto r = scn::scan<T>(w, scn::runtime_format(fs)); take(r, [&](auto& x) { return x.begin().i; }); }
  vk_obs(got); if (got) vk_obs(used); else vk_obs((uint64_t)code);
  if (i == m) { vk_assert(!got && code == E::end_of_input, "nothing to read is end of input"); vk_cover("end"); return; }
  bool neg = false, sign = false; if (p[i] == C('+') || p[i] == C('-')) { neg = p[i] == C('-'); sign = true; ++i; }
  ref::FText t = ref::special(p, m, i);
  if (t.kind == ref::F_NAN && t.end == i + 3 && i + 3 < m && p[i + 3] == C('(')) return;   // an unterminated payload: unspecified
  if (t.kind == ref::F_NONE) {
    bool hex = F == 1 || F == 6, both = F == 0 || F == 7, expo = F != 3;
    if (hex || both) if (ref::nocase(p, m, i, "0x")) t = ref::significand(p, m, i + 2, 16, true);
    if (t.kind == ref::F_NONE) t = ref::significand(p, m, i, hex ? 16 : 10, expo);
    if ((F == 2 || F == 5) && t.kind != ref::F_NONE && !t.exp) t.kind = ref::F_NONE;
  }
  if (t.kind == ref::F_NONE) {
    vk_assert(!got, "text that is no number is rejected"); if (got) return;
    vk_assert(code == E::invalid_scanned_value || (sign && i == m && code == E::end_of_input), "text that is no number is an invalid value"); vk_cover("invalid"); return;
  }
  ref::FRange r = t.kind == ref::F_DEC || t.kind == ref::F_HEX ? ref::frange(p, t, type) : ref::R_OK;
  if (r == ref::R_EDGE) return;
  if (r == ref::R_OVER || r == ref::R_UNDER) {
    vk_assert(!got, "a value out of range is an error"); if (got) return;
    vk_assert(code == (r == ref::R_OVER ? neg ? E::value_negative_overflow : E::value_positive_overflow : neg ? E::value_negative_underflow : E::value_positive_underflow), "the range error says what happened"); vk_cover("range"); return;
  }
  vk_assert(got, "a number is accepted"); if (!got) return;
  vk_assert(used == t.end, "exactly the text of the number is consumed");
  check_value(v, p, t, neg, type, r == ref::R_ZERO); vk_cover("ok");
}
extern "C" void vk_main() {
  unsigned T = (unsigned)vk_param("T"), F = (unsigned)vk_param("F"), M = (unsigned)vk_param("M"), R = (unsigned)vk_param("R"), P = (unsigned)vk_param("P"); size_t N = vk_param("N");
  C b[48]; size_t n = 0;
  auto put = [&](const char* s) { for (; *s; ++s) b[n++] = (C)*s; };
  auto digs = [&](size_t k, bool hex) { vk_sym(b + n, k * sizeof(C), "digits"); for (size_t j = 0; j < k; ++j) { if (hex) vk_assume(ref::hexdig(b[n + j]) < 16); else vk_assume((b[n + j] >= C('0')) & (b[n + j] <= C('9'))); } n += k; };
  if (M == 0) { n = vk_choice(N + 1, "len"); vk_sym(b, n * sizeof(C), "in"); if (F == 7) for (size_t i = 0; i < n; ++i) vk_assume((b[i] >= 0) & (b[i] < 0x80)); }
  else if (M == 1) { if (vk_choice(2, "neg")) put("-"); static const char* const ms[] = {"9.5", "0.9", "3.4", "0.0", "1.1"}; put(ms[vk_choice(P, "mant")]); put("e"); if (vk_choice(2, "eneg")) put("-"); static const char* const pre[] = {"", "3", "49"}; if (N == 2) put(pre[T]); digs(N, false); put("x"); }           // around the limits of the type
  else if (M == 2) { if (vk_choice(2, "neg")) put("-"); put(F == 1 ? "" : "0x"); static const char* const ms[] = {"1", "c.8", "0.1", "f", "0"}; put(ms[vk_choice(P, "mant")]); put("p"); bool en = vk_choice(2, "eneg"); put(en ? "-" : "+"); static const char* const pre[] = {"1", "10", "163", "1", "10", "164"}; if (N == 2) put(pre[T + 3 * en]); digs(N, false); put("g"); }
  else if (M == 3) { digs(N, false); put("."); digs(N, false); put("E+"); digs(1, false); put(" 1"); }                                                                         // long significands
  else if (M == 4) { size_t k = vk_choice(3, "word"); put(k == 0 ? "infinit" : k == 1 ? "nan(a1_" : "-nan"); size_t l = vk_choice(4, "len"); vk_sym(b + n, l * sizeof(C), "tail"); n += l; }
  static const char* const fs[] = {"{}", "{:a}", "{:e}", "{:f}", "{:g}", "{:E}", "{:A}", "{:.P}"};
  C f[8]; size_t fn = 0; for (const char* q = fs[F]; *q; ++q) f[fn++] = *q == 'P' ? C('0' + P) : (C)*q;
  size_t lim = F == 7 ? P : 1000; SV fmt(f, fn);
  if (T == 0) go<float>(b, n, lim, fmt, F, 0, R); else if (T == 1) go<double>(b, n, lim, fmt, F, 1, R); else go<long double>(b, n, lim, fmt, F, 2, R);
}
