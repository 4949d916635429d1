// Runtime format strings against the documented grammar (arbitrary format text, one or two arguments).
// params: T argument types, F 0 the whole format is arbitrary, 1 "{:" + arbitrary text, 2 argument ids, 3 the same after a field and a literal that match, L how many arbitrary characters at most, I input (0 empty, 1 "1", 2 "1 1")
#include <scn/scan.h>
#include <scn/xchar.h>
#include "ref.h"
#include "cases.h"
#ifndef VK_C
#define VK_C char
#endif
using C = VK_C; using S = std::basic_string<C>; using SV = std::basic_string_view<C>;
using E = scn::scan_error;
#define LIT(s) (sizeof(C) == 1 ? (const C*)(const void*)s : (const C*)(const void*)L##s)
enum Kind { INT, STR, CHR, CP, BOOL, FLT, PTR };
enum Verdict { VALID, INVALID, UNSPEC };
struct Res { Verdict v; bool first; bool localized; size_t fields; };  // first: the fault lies in a field with nothing before it
static Res judge(const C* p, size_t n, const Kind* k, size_t nargs) {
  size_t i = 0, next = 0, fields = 0; bool manual = false, automatic = false, loc = false, before = false; unsigned seen = 0; Verdict v = VALID;
  auto bad = [&](Verdict w) { return Res{w, !before && fields == 0, loc, fields}; };
  auto weaken = [&] { v = UNSPEC; };
  auto dig = [&](C c) { return c >= C('0') && c <= C('9'); };
  while (i < n) {
    C c = p[i];
    if (c == C('}')) { if (i + 1 < n && p[i + 1] == C('}')) { i += 2; before = true; continue; } return bad(v == UNSPEC ? UNSPEC : INVALID); }
    if (c != C('{')) { if (!((char32_t)c < 0x80)) weaken(); ++i; before = true; continue; }   // an ill-formed literal may be refused
    ++i; if (i == n) return bad(v == UNSPEC ? UNSPEC : INVALID);
    if (p[i] == C('{')) { ++i; before = true; continue; }
    // argument id
    size_t id;
    if (dig(p[i])) {
      bool zero = p[i] == C('0'); size_t st = i; id = 0;
      while (i < n && dig(p[i])) { if (id < 100000) id = id * 10 + (size_t)(p[i] - C('0')); ++i; }
      if (zero && i - st > 1) return bad(UNSPEC);
      if (automatic) return bad(v == UNSPEC ? UNSPEC : INVALID); manual = true;
    } else { if (p[i] != C('}') && p[i] != C(':')) return bad(v == UNSPEC ? UNSPEC : INVALID); if (manual) return bad(v == UNSPEC ? UNSPEC : INVALID); automatic = true; id = next++; }
    if (i == n || (p[i] != C('}') && p[i] != C(':'))) return bad(v == UNSPEC ? UNSPEC : INVALID);
    if (id >= nargs || ((seen >> id) & 1)) return bad(v == UNSPEC ? UNSPEC : INVALID);
    seen |= 1u << id; Kind kind = k[id];
    if (p[i] == C(':')) {
      ++i; if (i == n) return bad(v == UNSPEC ? UNSPEC : INVALID);
      auto isal = [&](C x) { return x == C('<') || x == C('>') || x == C('^'); };
      // fill and alignment
      if (p[i] == C('{')) return bad(v == UNSPEC ? UNSPEC : INVALID);
      if (p[i] != C('}')) {
        ref::Dec d = ref::decode(p + i, n - i); if (!d.ok) return bad(UNSPEC);
        bool then = i + d.len < n && isal(p[i + d.len]);
        if (p[i] == C('[') && then && kind != STR) return bad(UNSPEC);
        if (then && p[i] != C('[')) i += d.len + 1;
        else if (isal(p[i])) ++i;
      }
      uint64_t w = 0, pr = 0; auto num = [&](uint64_t& x) { size_t st = i; while (i < n && dig(p[i])) { if (x < 100000000000ull) x = x * 10 + (uint64_t)(p[i] - C('0')); ++i; } return i - st; };
      if (i < n && dig(p[i])) { if (p[i] == C('0')) weaken(); num(w); if (w > 2147483647u) return bad(v == UNSPEC ? UNSPEC : INVALID); }
      if (i < n && p[i] == C('.')) { ++i; size_t st = i; size_t l = num(pr); if (!l) return bad(v == UNSPEC ? UNSPEC : INVALID); if (p[st] == C('0')) weaken(); if (pr > 2147483647u) return bad(v == UNSPEC ? UNSPEC : INVALID); if (pr && w > pr) return bad(v == UNSPEC ? UNSPEC : INVALID); }
      if (i < n && p[i] == C('L')) { loc = true; ++i; if (kind != INT && kind != FLT && kind != BOOL) return bad(v == UNSPEC ? UNSPEC : INVALID); }
      if (i < n && p[i] != C('}')) {
        C t = p[i]; auto in = [&](const char* s) { for (; *s; ++s) if (t == (C)(unsigned char)*s) return true; return false; };
        if (t == C('[')) {
          if (kind != STR) return bad(v == UNSPEC ? UNSPEC : INVALID);
          ++i; bool inv = i < n && p[i] == C('^'); if (inv) { ++i; if (i < n && p[i] == C(']')) ++i; } else if (i < n && p[i] == C(']')) return bad(v == UNSPEC ? UNSPEC : INVALID);
          for (;;) {
            if (i == n) return bad(v == UNSPEC ? UNSPEC : INVALID); if (p[i] == C(']')) { ++i; break; }
            ref::Dec d = ref::decode(p + i, n - i); if (!d.ok) return bad(UNSPEC); i += d.len;
            if (i + 1 < n && p[i] == C('-') && p[i + 1] != C(']')) { ref::Dec e = ref::decode(p + i + 1, n - i - 1); if (!e.ok) return bad(UNSPEC); i += 1 + e.len; if (e.cp < d.cp) return bad(v == UNSPEC ? UNSPEC : INVALID); }
          }
        } else {
          bool ok = false;
          switch (kind) {
            case INT: if (in("crR")) return bad(UNSPEC); ok = in("bBdioOuxX"); if (loc && in("bB")) return bad(UNSPEC); break;
            case STR: ok = in("s"); if (t == C('c')) { ok = pr != 0; } break;
            case CHR: ok = in("cbBdioOuxX"); break;
            case CP: ok = in("c"); break;
            case BOOL: ok = in("sbBdioOuxX"); break;
            case FLT: ok = in("aAeEfFgG"); break;
            case PTR: ok = in("p"); break;
          }
          if (!ok) return bad(v == UNSPEC ? UNSPEC : INVALID);
          ++i;
        }
      }
      if (i == n || p[i] != C('}')) return bad(v == UNSPEC ? UNSPEC : INVALID);
    }
    ++i; ++fields;
  }
  if (v == UNSPEC) return bad(UNSPEC);
  for (size_t a = 0; a < nargs; ++a) if (!((seen >> a) & 1)) { before = true; return bad(v == UNSPEC ? UNSPEC : INVALID); }
  return bad(VALID);
}
template <class F> void with_args(unsigned T, F f) {
  static const Kind ki[] = {INT, INT}, ks[] = {STR}, kc[] = {CHR}, kp[] = {CP}, kb[] = {BOOL}, kf[] = {FLT}, kv[] = {PTR}, kis[] = {INT, STR};
  switch (T) {
    case 0: return f(types<int>{}, ki); case 1: return f(types<S>{}, ks); case 2: return f(types<C>{}, kc); case 3: return f(types<char32_t>{}, kp); case 4: return f(types<bool>{}, kb);
    case 5: return f(types<double>{}, kf); case 6: return f(types<void*>{}, kv); case 7: return f(types<int, int>{}, ki); case 8: return f(types<unsigned char>{}, ki); case 9: return f(types<>{}, ki);
    case 10: return f(types<SV>{}, ks); case 11: return f(types<int, S>{}, kis); case 12: return f(types<std::conditional_t<sizeof(C) == 1, std::wstring, std::string>>{}, ks);
  }
}
extern "C" void vk_main() {
  unsigned T = (unsigned)vk_param("T"), F = (unsigned)vk_param("F"), I = (unsigned)vk_param("I"); size_t L = vk_param("L");
  C f[24]; size_t n = 0;
  if (F == 3) { for (C c : {C('{'), C(':'), C('d'), C('}'), C('x'), C('{'), C(':')}) f[n++] = c; }
  if (F == 1) { f[n++] = '{'; f[n++] = ':'; }
  if (F == 2) { f[n++] = '{'; }
  size_t l = vk_choice(L + 1, "len"); vk_sym(f + n, l * sizeof(C), "fmt"); 
  if (T == 1 || T == 10 || T == 11 || T == 12) for (size_t i = 0; i < l; ++i) vk_assume(f[n + i] != C('/'));   // regular expressions are not covered
  n += l;
  if (F == 2) { static const C tail[] = {'}', '{'}; f[n++] = '}'; size_t m = vk_choice(3, "second"); if (m) { f[n++] = '{'; vk_sym(f + n, (m - 1) * sizeof(C), "fmt2"); n += m - 1; f[n++] = '}'; } (void)tail; }
  SV in = I == 0 ? SV(LIT(""), 0) : I == 1 ? SV(LIT("1"), 1) : I == 2 ? SV(LIT("1 1"), 3) : SV(LIT("1x1"), 3);
  with_args(T, [&](auto ty, const Kind* k) { [&]<class... Ts>(types<Ts...>) {
    Res j = judge(f, n, k, sizeof...(Ts));
    if (j.localized && !(j.v == INVALID && j.first)) return;   // executing localized reading is outside
    auto r = scn::scan<Ts...>(in, scn::runtime_format(SV(f, n)));
    vk_obs(r.has_value()); if (!r) vk_obs((uint64_t)r.error().code());
    if (j.v == VALID) { vk_assert(r.has_value() || r.error().code() != E::invalid_format_string, "a valid format string is not rejected"); vk_cover("valid"); }
    else if (j.v == INVALID) {
      vk_assert(!r.has_value(), "an invalid format string is never accepted");
      if (j.first || (F == 3 && j.fields == 1)) vk_assert(r.error().code() == E::invalid_format_string, "an invalid format string is reported as such");
      vk_cover("invalid");
    } else vk_cover("unspecified");
  }(ty); });
}
