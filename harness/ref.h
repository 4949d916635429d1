// Reference models ("what the documentation says"), written independently of the implementation.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>
#include <string_view>
#include "vk.h"
namespace ref {
// ---------------------------------------------------------------- encoding
struct Dec { unsigned len; char32_t cp; bool ok; };
// Strict (RFC 3629) decoder of the first code point of p[0..n), n > 0.
inline Dec decode(const char* s, size_t n) {
  auto p = (const unsigned char*)s; unsigned b = p[0];
  if (b < 0x80) return {1, b, true};
  if (b >= 0xc2 && b <= 0xdf) { if (n < 2 || (p[1] & 0xc0) != 0x80) return {1, 0, false}; return {2, ((b & 0x1f) << 6) | (p[1] & 0x3fu), true}; }
  if (b >= 0xe0 && b <= 0xef) {
    if (n < 3 || (p[1] & 0xc0) != 0x80 || (p[2] & 0xc0) != 0x80) return {1, 0, false};
    char32_t c = ((b & 0xf) << 12) | ((p[1] & 0x3fu) << 6) | (p[2] & 0x3fu);
    if (c < 0x800 || (c >= 0xd800 && c <= 0xdfff)) return {1, 0, false};
    return {3, c, true};
  }
  if (b >= 0xf0 && b <= 0xf4) {
    if (n < 4 || (p[1] & 0xc0) != 0x80 || (p[2] & 0xc0) != 0x80 || (p[3] & 0xc0) != 0x80) return {1, 0, false};
    char32_t c = ((b & 7) << 18) | ((p[1] & 0x3fu) << 12) | ((p[2] & 0x3fu) << 6) | (p[3] & 0x3fu);
    if (c < 0x10000 || c > 0x10ffff) return {1, 0, false};
    return {4, c, true};
  }
  return {1, 0, false};
}
inline Dec decode(const wchar_t* s, size_t) { char32_t c = (char32_t)s[0]; bool ok = (c < 0xd800) | ((c >= 0xe000) & (c <= 0x10ffff)); return {1, c, ok}; }
inline bool space(char32_t c) { return (c >= 9 && c <= 13) || c == 0x20 || c == 0x85 || c == 0x200e || c == 0x200f || c == 0x2028 || c == 0x2029; }
template <class C> bool valid(const C* p, size_t n) { size_t i = 0; while (i < n) { Dec d = decode(p + i, n - i); if (!d.ok) return false; i += d.len; } return true; }
// Skip leading whitespace; *bad is set when ill-formed text is met before a non-whitespace code point (unspecified then).
template <class C> size_t skip_ws(const C* p, size_t n, size_t i, bool* bad) {
  while (i < n) { Dec d = decode(p + i, n - i); if (!d.ok) { *bad = true; return i; } if (!space(d.cp)) return i; i += d.len; }
  return i;
}
// ---------------------------------------------------------------- integers
enum Code { OK, END, INVALID_VALUE, POS_OVF, NEG_OVF, UNSPEC };
// value of a character as a digit (0-9, a-z, A-Z), 255 when it is none
inline constexpr unsigned char digit_table[256] = {255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,0,1,2,3,4,5,6,7,8,9,255,255,255,255,255,255,255,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,255,255,255,255,255,255,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255};
template <class C> int digit(C c) { if (sizeof(C) == 1) return digit_table[(unsigned char)c]; if ((char32_t)c > 255) return 255; return digit_table[(unsigned char)c]; }
struct IntRes { Code code; uint64_t mag; bool neg; size_t end; };
// base 0: detect from prefix.  minus_ok: a '-' sign may appear.  maxmag*: largest magnitude representable.
template <class C> IntRes integer(const C* p, size_t n, size_t i, int base, bool minus_ok, uint64_t maxpos, uint64_t maxneg) {
  if (i == n) return {END, 0, false, i};
  bool neg = false;
  if (p[i] == (C)'+') ++i; else if (p[i] == (C)'-') { if (!minus_ok) return {INVALID_VALUE, 0, false, i}; neg = true; ++i; }
  // optional base prefix, only when a digit of that base follows
  auto pre = [&](char lo, int b) { return n - i > 2 && p[i] == (C)'0' && (p[i + 1] == (C)lo || p[i + 1] == (C)(lo - 32)) && digit(p[i + 2]) < b; };
  if ((base == 16 || base == 0) && pre('x', 16)) { base = 16; i += 2; }
  else if ((base == 2 || base == 0) && pre('b', 2)) { base = 2; i += 2; }
  else if ((base == 8 || base == 0) && pre('o', 8)) { base = 8; i += 2; }
  else if (base == 0) {
    // a leading 0 selects octal; so does a dangling prefix, which then reads as the digit 0 alone
    if (i < n && p[i] == (C)'0') base = (n - i > 1 && (p[i + 1] == (C)'x' || p[i + 1] == (C)'X')) ? 16 : (n - i > 1 && (p[i + 1] == (C)'b' || p[i + 1] == (C)'B')) ? 2 : 8;
    else base = 10;
  }
  if (i == n || digit(p[i]) >= base) return {INVALID_VALUE, 0, neg, i};
  // exact value: 64-bit accumulation, noting any wrap-around (impossible while base^digits fits, hence not tested then)
  const uint64_t M = ~(uint64_t)0; uint64_t b = (uint64_t)base, acc = 0, ub = 0; bool ovf = false, may = false;
  while (i < n) {
    int d = digit(p[i]); if (d >= base) break;
    if (!may) { if (ub > M / b || (ub == M / b && b - 1 > M % b)) may = true; else ub = ub * b + (b - 1); }
    if (may) ovf = ovf | (acc > M / b) | ((acc == M / b) & ((uint64_t)d > M % b));
    acc = acc * b + (uint64_t)d; ++i;
  }
  ovf = ovf | (acc > (neg ? maxneg : maxpos));
  if (ovf) return {neg ? NEG_OVF : POS_OVF, 0, neg, i};
  return {OK, acc, neg, i};
}
}  // namespace ref
