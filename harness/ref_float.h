// What text is a floating-point number (the grammar of strtod in the C locale), and when a type cannot represent it.
#pragma once
#include <cstddef>
#include <cstdint>
#include "vk.h"
namespace ref {
enum FKind { F_NONE, F_INF, F_NAN, F_DEC, F_HEX };
struct FText { FKind kind; size_t end; size_t beg, mant_end; bool exp; };   // beg: first digit after sign and prefix; mant_end: end of the significand
template <class C> int hexdig(C c) { if (c >= C('0') && c <= C('9')) return (int)(c - C('0')); if (c >= C('a') && c <= C('f')) return (int)(c - C('a')) + 10; if (c >= C('A') && c <= C('F')) return (int)(c - C('A')) + 10; return 99; }
template <class C> bool nocase(const C* p, size_t n, size_t i, const char* s) { for (; *s; ++s, ++i) if (i >= n || (p[i] != C(*s) && (*s < 'a' || p[i] != C(*s - 32)))) return false; return true; }
// the digits, point and exponent of a number in the given base at i
template <class C> FText significand(const C* p, size_t n, size_t i, int base, bool exp_ok) {
  FText r{F_NONE, i, i, i, false}; size_t j = i, digits = 0;
  while (j < n && hexdig(p[j]) < base) { ++j; ++digits; }
  if (j < n && p[j] == C('.')) { size_t k = j + 1, f = 0; while (k < n && hexdig(p[k]) < base) { ++k; ++f; } if (digits || f) { j = k; digits += f; } }
  if (!digits) return r;
  r.kind = base == 10 ? F_DEC : F_HEX; r.mant_end = j; r.end = j;
  if (exp_ok && j < n && (base == 10 ? p[j] == C('e') || p[j] == C('E') : p[j] == C('p') || p[j] == C('P'))) {
    size_t k = j + 1; if (k < n && (p[k] == C('+') || p[k] == C('-'))) ++k;
    if (k < n && hexdig(p[k]) < 10) { while (k < n && hexdig(p[k]) < 10) ++k; r.end = k; r.exp = true; }
  }
  return r;
}
template <class C> FText special(const C* p, size_t n, size_t i) {
  if (nocase(p, n, i, "inf")) return {F_INF, i + (nocase(p, n, i, "infinity") ? 8 : 3), i, i, false};
  if (nocase(p, n, i, "nan")) {
    size_t j = i + 3; if (j < n && p[j] == C('(')) { ++j; while (j < n && ((p[j] >= C('0') && p[j] <= C('9')) || (p[j] >= C('a') && p[j] <= C('z')) || (p[j] >= C('A') && p[j] <= C('Z')) || p[j] == C('_'))) ++j; if (j < n && p[j] == C(')')) return {F_NAN, j + 1, i, i, false}; }
    return {F_NAN, i + 3, i, i, false};
  }
  return {F_NONE, i, i, i, false};
}
enum FRange { R_OK, R_OVER, R_UNDER, R_EDGE, R_ZERO, R_SUB };   // EDGE: too close to the limit to tell from eight digits; SUB: subnormal and, as a rule, inexact
// T: 0 float, 1 double, 2 x87 long double
template <class C> FRange frange(const C* p, const FText& t, int T) {
  int base = t.kind == F_HEX ? 16 : 10; long e = 0, intlen = 0, i = 0, first = -1; uint64_t sig = 0; int got = 0; bool tail = false, point = false;
  for (size_t k = t.beg; k < t.mant_end; ++k) {
    if (p[k] == C('.')) { point = true; continue; }
    int d = hexdig(p[k]); if (!point) ++intlen;
    if (first < 0 && d) first = i;
    if (first >= 0) { if (got < 8) { sig = sig * (unsigned)base + (unsigned)d; ++got; } else if (d) tail = true; }
    ++i;
  }
  if (first < 0) return R_ZERO;
  for (; got < 8; ++got) sig *= (unsigned)base;
  if (t.exp) { size_t k = t.mant_end + 1; bool neg = false; if (p[k] == C('+') || p[k] == C('-')) { neg = p[k] == C('-'); ++k; } if (t.end - k > 9) e = 999999999; else for (; k < t.end; ++k) e = e * 10 + (long)(p[k] - C('0')); if (neg) e = -e; }
  if (base == 10) {
    static const long mx[] = {38, 308, 4932}, mn[] = {-46, -324, -4951}, sub[] = {-38, -308, -4932}; static const uint64_t mxs[] = {34028235, 17976931, 11897314}, mns[] = {70064923, 24703282, 18225997};
    long k = intlen - 1 - first + e;
    if (k > mx[T]) return R_OVER; if (k == mx[T]) return sig > mxs[T] ? R_OVER : sig == mxs[T] ? R_EDGE : R_OK;
    if (k < mn[T]) return R_UNDER; if (k == mn[T]) return sig < mns[T] ? R_UNDER : sig == mns[T] ? R_EDGE : R_SUB;
    return k < sub[T] ? R_SUB : R_OK;
  }
  static const long mx[] = {127, 1023, 16383}, mn[] = {-150, -1075, -16446};
  int lead = (int)vk_concrete(sig >> 31 ? 3 : sig >> 30 ? 2 : sig >> 29 ? 1 : 0); long k = 4 * (intlen - 1 - first) + lead + e;
  if (k > mx[T]) return R_OVER; if (k == mx[T] && (sig << (3 - lead) & 0xffffff00u) == 0xffffff00u) return R_EDGE;
  if (k < mn[T]) return R_UNDER; if (k == mn[T]) return (sig << (3 - lead)) == 0x80000000u && !tail ? R_UNDER : R_OK;
  return R_OK;
}
}
