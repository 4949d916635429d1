// Character sets whose members are symbolic: every set of a given shape against set membership.
// params: K shape, I 1 inverted, N max code points of text, M how many of them may be non-ASCII, V 0 string 1 string_view, X 1 ranges in any order (a reversed one makes the format string invalid), R 1 forward range; VK_C the character type
#include <scn/scan.h>
#include <scn/xchar.h>
#include "text.h"
#include "fwd.h"
#ifndef VK_C
#define VK_C char
#endif
using C = VK_C; using S = std::basic_string<C>; using SV = std::basic_string_view<C>; using E = scn::scan_error;
// a: ASCII, b: two bytes, c: three, d: four; '-' makes a range of its neighbours; '~' a literal hyphen at the end
static const char* SHAPES[] = {"a", "aa", "a-a", "a-aa", "a-aa-a", "b", "bb", "b-b", "b-bb", "b-bb-b", "a-b", "a-bb", "ab-b", "a-ba-b", "b-c", "b-cc", "c-cb-b", "a-c", "b-bb-bb-b", "bbb", "a-d", "d-d", "d-db", "aab-ba", "a-a~", "ba~", "b-ba-ab", "c-dc", "b-bbb-b", "a-ab-ba-b"};
extern "C" void vk_main() {
  const char* sh = SHAPES[vk_param("K")]; bool inv = vk_param("I");
  C f[48]; size_t k = 0; f[k++] = '{'; f[k++] = ':'; f[k++] = '['; if (inv) f[k++] = '^';
  char32_t lo[8], hi[8]; unsigned m = 0;
  // a set of one ASCII character: any; otherwise one of 60..63 and 7c..7f (ASCII members are set bit by bit, so each value is a path)
  bool single = sh[0] == 'a' && !sh[1];
  auto ascii = [&](char32_t c) { return ((c < 0x80) & (c != ']') & (c != '^') & (c != '-') & (c != ':') & (c != '\\') & (c != '{') & (c != '}') & (c != 0)) & (single | (((c & ~0x1fu) == 0x60) & (((c & 0x1c) == 0) | ((c & 0x1c) == 0x1c)))); };
  auto elem = [&](char cls) -> char32_t {
    if (cls == '~') { f[k++] = '-'; return '-'; }
    unsigned n = (unsigned)(cls - 'a'); 
    if (sizeof(C) > 1) {
      char32_t c; vk_sym(&c, sizeof c, "elem");
      if (n == 0) vk_assume(ascii(c));
      else if (n == 1) vk_assume((c >= 0x80) & (c < 0x800)); else if (n == 2) vk_assume((c >= 0x800) & (c < 0xd800)); else vk_assume((c >= 0x10000) & (c <= 0x10ffff));
      f[k++] = (C)c; return c;
    }
    unsigned char u[4]; vk_sym(u, n + 1, "elem"); for (unsigned i = 0; i <= n; ++i) f[k++] = (C)u[i];
    char32_t c = 0;
    if (n == 0) { vk_assume(ascii(u[0])); return u[0]; }
    for (unsigned i = 1; i <= n; ++i) vk_assume((u[i] & 0xc0) == 0x80);
    if (n == 1) { vk_assume((u[0] >= 0xc2) & (u[0] <= 0xdf)); return ((u[0] & 0x1fu) << 6) | (u[1] & 0x3fu); }
    if (n == 2) { vk_assume((u[0] & 0xf0) == 0xe0); c = ((u[0] & 0xfu) << 12) | ((u[1] & 0x3fu) << 6) | (u[2] & 0x3fu); vk_assume((c >= 0x800) & (c < 0xd800)); return c; }
    vk_assume((u[0] & 0xf8) == 0xf0); c = ((u[0] & 7u) << 18) | ((u[1] & 0x3fu) << 12) | ((u[2] & 0x3fu) << 6) | (u[3] & 0x3fu); vk_assume((c >= 0x10000) & (c <= 0x10ffff)); return c;
  };
  bool order = !vk_param("X"), rev = false;
  for (const char* q = sh; *q; ++q) {
    lo[m] = elem(*q); hi[m] = lo[m];
    if (q[1] == '-') { f[k++] = '-'; q += 2; hi[m] = elem(*q); if (order) vk_assume(lo[m] <= hi[m]); else rev = rev | (lo[m] > hi[m]); }
    ++m;
  }
  f[k++] = ']'; f[k++] = '}'; SV fs(f, k);
  Text t; make_text(t, vk_param("N"), (unsigned)vk_param("M"), sizeof(C) > 1);
  size_t n = t.nw; auto at = [&](size_t i) { return sizeof(C) == 1 ? t.off[i] : i; };
  const C* p = sizeof(C) == 1 ? (const C*)(const void*)t.n : (const C*)(const void*)t.w; SV text(p, at(n));
  size_t e = 0;
  for (; e < n; ++e) { char32_t c = (char32_t)t.w[e]; bool in = false; for (unsigned i = 0; i < m; ++i) in = in | ((c >= lo[i]) & (c <= hi[i])); if (in == inv) break; }
  auto check = [&](auto& r, size_t used) {
    vk_obs(r.has_value());
    if (!order) {
      bool bad = !r.has_value() && r.error().code() == E::invalid_format_string; vk_obs(bad);
      vk_assert(bad == rev, "the format string is rejected exactly when a range is reversed"); if (rev) vk_cover("invalid"); else vk_cover("valid"); return;
    }
    vk_assert(r.has_value() == (e > 0), "the scan succeeds exactly when the first character matches the set");
    if (!r) { vk_obs((uint64_t)r.error().code()); if (n) vk_assert(r.error().code() == E::invalid_scanned_value, "no match is an invalid value"); vk_cover("none"); return; }
    vk_obs(used); vk_assert(used == at(e), "exactly the matching text is consumed");
    auto& v = r->value(); bool eq = v.size() == at(e); for (size_t i = 0; eq && i < v.size(); ++i) eq = v[i] == p[i];
    vk_assert(eq, "the string is exactly the matching text"); vk_cover("ok");
  };
  if (vk_param("R")) { Fwd<C> src{p, at(n)}; auto r = scn::scan<S>(src, scn::runtime_format(fs)); check(r, r ? r->begin().i : 0); }
  else if (vk_param("V")) { auto r = scn::scan<SV>(text, scn::runtime_format(fs)); check(r, r ? (size_t)(r->begin() - text.begin()) : 0); }
  else { auto r = scn::scan<S>(text, scn::runtime_format(fs)); check(r, r ? (size_t)(r->begin() - text.begin()) : 0); }
}
