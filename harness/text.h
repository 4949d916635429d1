// Arbitrary well-formed text, in UTF-8 and as wide characters. One path per sequence of encoded lengths; the code points stay symbolic.
#pragma once
#include "ref.h"
struct Text {
  char n[64]; wchar_t w[16]; size_t off[17];   // narrow, wide, offset of every code point in the narrow text
  size_t nn = 0, nw = 0;
  size_t index(size_t bytes) const { for (size_t i = 0; i <= nw; ++i) if (off[i] == bytes) return i; return (size_t)-1; }
};
// M 0: ASCII only; M k: up to k code points may be longer
inline void make_text(Text& t, size_t N, unsigned M, bool only_wide = false) {
  size_t len = vk_choice(N + 1, "len"); unsigned left = M; 
  if (only_wide) {
    vk_sym(t.w, len * sizeof(wchar_t), "cp"); t.nw = len;
    for (size_t i = 0; i < len; ++i) { auto c = (char32_t)t.w[i]; vk_assume(M ? (c < 0xd800) | ((c >= 0xe000) & (c <= 0x10ffff)) : c < 0x80); }
    return;
  }
  for (size_t i = 0; i < len; ++i) {
    unsigned cls = 0; if (left) cls = (unsigned)vk_choice(4, "class"); if (cls) --left;
    t.off[t.nw] = t.nn; char* p = t.n + t.nn; vk_sym(p, cls + 1, "cp");
    auto u = [&](unsigned k) { return (unsigned)(unsigned char)p[k]; };
    char32_t c = 0; 
    if (cls == 0) { vk_assume(u(0) < 0x80); c = u(0); }
    else {
      for (unsigned k = 1; k <= cls; ++k) vk_assume((u(k) & 0xc0) == 0x80);
      if (cls == 1) { vk_assume((u(0) >= 0xc2) & (u(0) <= 0xdf)); c = ((u(0) & 0x1f) << 6) | (u(1) & 0x3f); }
      else if (cls == 2) { vk_assume((u(0) & 0xf0) == 0xe0); c = ((u(0) & 0xf) << 12) | ((u(1) & 0x3f) << 6) | (u(2) & 0x3f); vk_assume((c >= 0x800) & ((c < 0xd800) | (c >= 0xe000))); }
      else { vk_assume((u(0) & 0xf8) == 0xf0); c = ((u(0) & 7) << 18) | ((u(1) & 0x3f) << 12) | ((u(2) & 0x3f) << 6) | (u(3) & 0x3f); vk_assume((c >= 0x10000) & (c <= 0x10ffff)); }
    }
    t.w[t.nw++] = (wchar_t)c; t.nn += cls + 1;
  }
  t.off[t.nw] = t.nn;
}
// text made of arbitrary ASCII characters and the given code points
inline void make_text_from(Text& t, size_t N, const char32_t* pal, unsigned np) {
  size_t len = vk_choice(N + 1, "len");
  for (size_t i = 0; i < len; ++i) {
    unsigned k = (unsigned)vk_choice(np + 1, "kind"); t.off[t.nw] = t.nn; char* p = t.n + t.nn;
    if (!k) { vk_sym(p, 1, "c"); vk_assume((unsigned char)p[0] < 0x80); t.w[t.nw++] = (wchar_t)p[0]; t.nn += 1; continue; }
    char32_t c = pal[k - 1]; t.w[t.nw++] = (wchar_t)c;
    if (c < 0x800) { p[0] = (char)(0xc0 | (c >> 6)); p[1] = (char)(0x80 | (c & 0x3f)); t.nn += 2; }
    else if (c < 0x10000) { p[0] = (char)(0xe0 | (c >> 12)); p[1] = (char)(0x80 | ((c >> 6) & 0x3f)); p[2] = (char)(0x80 | (c & 0x3f)); t.nn += 3; }
    else { p[0] = (char)(0xf0 | (c >> 18)); p[1] = (char)(0x80 | ((c >> 12) & 0x3f)); p[2] = (char)(0x80 | ((c >> 6) & 0x3f)); p[3] = (char)(0x80 | (c & 0x3f)); t.nn += 4; }
  }
  t.off[t.nw] = t.nn;
}
// columns a code point occupies, per the documentation (the algorithm of {fmt} 10)
inline bool wide_cp(char32_t c) {
  auto in = [&](char32_t a, char32_t b) { return (c >= a) & (c <= b); };
  return in(0x1100, 0x115f) | (c == 0x2329) | (c == 0x232a) | (in(0x2e80, 0xa4cf) & (c != 0x303f)) | in(0xac00, 0xd7a3) | in(0xf900, 0xfaff) | in(0xfe10, 0xfe19) | in(0xfe30, 0xfe6f) |
         in(0xff00, 0xff60) | in(0xffe0, 0xffe6) | in(0x20000, 0x2fffd) | in(0x30000, 0x3fffd) | in(0x1f300, 0x1f64f) | in(0x1f900, 0x1f9ff);
}
