// Literal text and whitespace in format strings.
// params: A 0: the whole format is symbolic, no arguments; 1: symbolic literals around an int field; 2: around a word; 3: around a char
//         N max input length, M max format (literal) length, W 0 narrow 1 wide
#include <scn/scan.h>
#include <scn/xchar.h>
#include <limits>
#include "ref.h"
using E = scn::scan_error;
// Match format text p[0..m) (no fields) against s from *k.  OK; FMT: the format is not valid here; LIT: mismatch.
enum R { MATCH, FMT, LIT };
template <class C> R match(const C* p, size_t m, const C* s, size_t n, size_t* k) {
  bool bad = false; R res = MATCH; size_t i = 0;
  while (i < m) {
    if (p[i] == (C)'{' || p[i] == (C)'}') {
      if (i + 1 >= m || p[i + 1] != p[i]) return FMT;
      if (res == MATCH) { if (*k < n && s[*k] == p[i]) ++*k; else res = LIT; }
      i += 2; continue;
    }
    auto d = ref::decode(p + i, m - i);
    if (!d.ok) return FMT;
    if (res == LIT) { i += d.len; continue; }
    if (ref::space(d.cp)) { *k = ref::skip_ws(s, n, *k, &bad); i += d.len; continue; }
    for (size_t q = 0; q < d.len; ++q) if (*k + q >= n || s[*k + q] != p[i + q]) res = LIT;
    if (res == MATCH) *k += d.len;
    i += d.len;
  }
  return res;
}
template <class C, class Res> void verdict(R e, size_t k, const C* src, Res& r) {
  bool has = r.has_value();
  vk_obs(has); if (has) vk_obs((uint64_t)(r->begin() - std::basic_string_view<C>(src, 1).begin())); else vk_obs((uint64_t)r.error().code());
  if (e == FMT) { vk_assert(!has, "a malformed format is rejected"); vk_cover("format"); return; }
  if (e == LIT) { vk_assert(!has, "a literal mismatch fails"); vk_assert(r.error().code() == E::invalid_literal, "a literal mismatch is an invalid literal"); vk_cover("mismatch"); return; }
  vk_assert(has, "matching text is accepted");
  vk_assert((size_t)(r->begin() - std::basic_string_view<C>(src, 1).begin()) == k, "exactly the matching text is consumed");
  vk_cover("ok");
}
template <class C> void run(unsigned A, size_t N, size_t M) {
  C fm[32], sr[16]; size_t n = vk_choice(N + 1, "n");
  vk_sym(sr, n * sizeof(C), "src");
  std::basic_string_view<C> sv(sr, n); size_t k = 0;
  if (A == 0) {
    size_t m = vk_choice(M + 1, "m"); vk_sym(fm, m * sizeof(C), "fmt");
    auto r = scn::scan<>(sv, scn::runtime_format(std::basic_string_view<C>(fm, m)));
    R e = match(fm, m, sr, n, &k); verdict(e, k, sr, r); return;
  }
  size_t m1 = vk_choice(M + 1, "m1"), m2 = vk_choice(M + 1, "m2"); C l1[8], l2[8];
  vk_sym(l1, m1 * sizeof(C), "l1"); vk_sym(l2, m2 * sizeof(C), "l2");
  for (size_t i = 0; i < m1; ++i) vk_assume(l1[i] != (C)'{' && l1[i] != (C)'}');
  for (size_t i = 0; i < m2; ++i) vk_assume(l2[i] != (C)'{' && l2[i] != (C)'}');
  size_t f = 0; for (size_t i = 0; i < m1; ++i) fm[f++] = l1[i]; fm[f++] = '{'; fm[f++] = '}'; for (size_t i = 0; i < m2; ++i) fm[f++] = l2[i];
  auto fs = std::basic_string_view<C>(fm, f);
  size_t k2 = 0; R e2 = match(l2, m2, sr, 0, &k2);   // only for the validity of the second literal
  R e = match(l1, m1, sr, n, &k);
  bool bad = false;
  if (A == 1) {
    auto r = scn::scan<int>(sv, scn::runtime_format(fs));
    if (e != MATCH) { if (e2 == FMT) e = FMT; return verdict(e, k, sr, r); }
    size_t b = ref::skip_ws(sr, n, k, &bad);
    auto v = ref::integer(sr, n, b, 10, true, (uint64_t)std::numeric_limits<int>::max(), (uint64_t)std::numeric_limits<int>::max() + 1);
    if (v.code != ref::OK) { vk_assert(!r.has_value(), "no number between the literals"); vk_cover("nonumber"); return; }
    k = v.end; e = match(l2, m2, sr, n, &k); verdict(e, k, sr, r);
    if (e == MATCH) vk_assert(r->value() == (int)(v.neg ? 0 - v.mag : v.mag), "the number between the literals");
  } else if (A == 2) {
    auto r = scn::scan<std::basic_string<C>>(sv, scn::runtime_format(fs));
    if (e != MATCH) { if (e2 == FMT) e = FMT; return verdict(e, k, sr, r); }
    size_t b = ref::skip_ws(sr, n, k, &bad), z = b;
    while (z < n) { auto d = ref::decode(sr + z, n - z); if (!d.ok) { vk_assert(!r.has_value(), "ill-formed word"); return; } if (ref::space(d.cp)) break; z += d.len; }
    if (z == b) { vk_assert(!r.has_value(), "no word"); return; }
    k = z; e = match(l2, m2, sr, n, &k); verdict(e, k, sr, r);
    if (e == MATCH) { bool eq = r->value().size() == z - b; for (size_t i = 0; eq && i < z - b; ++i) eq = eq & (r->value()[i] == sr[b + i]); vk_assert(eq, "the word between the literals"); }
  } else {
    auto r = scn::scan<C>(sv, scn::runtime_format(fs));
    if (e != MATCH) { if (e2 == FMT) e = FMT; return verdict(e, k, sr, r); }
    if (k == n) { vk_assert(!r.has_value(), "no character left"); vk_assert(r.error().code() == E::end_of_input, "no character left is end of input"); return; }
    C c = sr[k++]; e = match(l2, m2, sr, n, &k); verdict(e, k, sr, r);
    if (e == MATCH) vk_assert(r->value() == c, "the character between the literals");
  }
}
extern "C" void vk_main() {
  unsigned A = (unsigned)vk_param("A"); size_t N = vk_param("N"), M = vk_param("M");
  if (vk_param("W")) run<wchar_t>(A, N, M); else run<char>(A, N, M);
}
