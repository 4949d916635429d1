// bool, char, wchar_t, char32_t and pointers against their reference readers.
// params: K 0 bool, 1 char, 2 wchar_t, 3 char32_t, 4 void*; F format index; N max length (or exact with M=1); W 0 narrow 1 wide source; M 1: hex digits only (pointers)
#include <scn/scan.h>
#include <scn/xchar.h>
#include <limits>
#include "ref.h"
static const char* FM[] = {"{}", "{:s}", "{:c}", "{:d}", "{:i}", "{:x}", "{:o}", "{:b}", "{:u}", "{:p}", "{0}", "{:X}", "{:B}", "{:O}"};
static const wchar_t* WF[] = {L"{}", L"{:s}", L"{:c}", L"{:d}", L"{:i}", L"{:x}", L"{:o}", L"{:b}", L"{:u}", L"{:p}", L"{0}", L"{:X}", L"{:B}", L"{:O}"};
static const int BASE[] = {10, 10, 10, 10, 0, 16, 8, 2, 10, 16, 10, 16, 2, 8};
using E = scn::scan_error;
static int err(ref::Code c) { switch (c) { case ref::END: return E::end_of_input; case ref::INVALID_VALUE: return E::invalid_scanned_value; case ref::POS_OVF: return E::value_positive_overflow; default: return E::value_negative_overflow; } }
template <class C> bool starts(const C* p, size_t n, const char* w) { size_t k = strlen(w); if (n < k) return false; bool eq = true; for (size_t i = 0; i < k; ++i) eq = eq & (p[i] == (C)w[i]); return eq; }
struct Ex { ref::Code code; uint64_t v; size_t end; };
template <class T, class C> Ex expect(const C* p, size_t n, unsigned F, size_t ws) {
  if constexpr (std::is_same_v<T, bool>) {
    if (ws == n) return {ref::END, 0, 0};
    bool num = F != 1, txt = F == 0 || F == 1 || F == 10;
    if (num && p[ws] == (C)'0') return {ref::OK, 0, ws + 1};
    if (num && p[ws] == (C)'1') return {ref::OK, 1, ws + 1};
    if (txt && starts(p + ws, n - ws, "true")) return {ref::OK, 1, ws + 4};
    if (txt && starts(p + ws, n - ws, "false")) return {ref::OK, 0, ws + 5};
    return {ref::INVALID_VALUE, 0, 0};
  } else if constexpr (std::is_pointer_v<T>) {
    auto e = ref::integer(p, n, ws, 16, false, ~(uint64_t)0, 0);
    return {e.code, e.mag, e.end};
  } else {
    if (F == 0 || F == 2 || F == 10) {
      if (n == 0) return {ref::END, 0, 0};
      if (sizeof(C) == sizeof(T) && !std::is_same_v<T, char32_t>) return {ref::OK, (uint64_t)(T)p[0], 1};
      auto d = ref::decode(p, n);
      if (!d.ok) return {ref::INVALID_VALUE, 0, 0};
      return {ref::OK, (uint64_t)(T)d.cp, d.len};
    }
    using L = std::numeric_limits<T>;
    if (n == 0) return {ref::UNSPEC, 0, 0};   // an error, the code is not specified
    auto e = ref::integer(p, n, 0, BASE[F], L::is_signed && F != 8, (uint64_t)L::max(), L::is_signed ? (uint64_t)L::max() + 1 : 0);
    return {e.code, (uint64_t)(T)(e.neg ? 0 - e.mag : e.mag), e.end};
  }
}
template <class T, class C> void one(size_t N, unsigned F, unsigned M) {
  size_t n = M ? N : vk_choice(N + 1, "len");
  C buf[40];
  if (M && sizeof(C) > 1) { unsigned char t[40]; vk_sym(t, n, "in"); for (size_t i = 0; i < n; ++i) buf[i] = (C)t[i]; }
  else vk_sym(buf, n * sizeof(C), "in");
  if (M) for (size_t i = 0; i < n; ++i) vk_assume(buf[i] >= (C)'0' && buf[i] <= (C)'9');
  std::basic_string_view<C> sv(buf, n), fs; if constexpr (sizeof(C) == 1) fs = FM[F]; else fs = WF[F];
  bool bad = false; size_t ws = 0;
  if (std::is_same_v<T, bool> || std::is_pointer_v<T>) ws = ref::skip_ws(buf, n, 0, &bad);
  auto r = scn::scan<T>(sv, scn::runtime_format(fs));
  bool has = r.has_value();
  uint64_t v = 0; if (has) { if constexpr (std::is_pointer_v<T>) v = (uint64_t)(uintptr_t)r->value(); else v = (uint64_t)r->value(); }
  size_t used = has ? (size_t)(r->begin() - sv.begin()) : 0;
  vk_obs(has); if (has) { vk_obs(v); vk_obs(used); } else vk_obs((uint64_t)r.error().code());
  if (bad) return;
  Ex e = expect<T, C>(buf, n, F, ws);
  if (e.code == ref::OK) {
    vk_assert(has, "a well-formed value is accepted");
    vk_assert(v == e.v, "the value is the one the text denotes");
    vk_assert(used == e.end, "exactly the value's text is consumed");
    vk_cover("ok");
  } else {
    vk_assert(!has, "text outside the grammar or range is rejected");
    if (e.code != ref::UNSPEC) vk_assert((int)r.error().code() == err(e.code), "the error code tells why");
    if (e.code == ref::END) vk_cover("end"); if (e.code == ref::INVALID_VALUE) vk_cover("invalid"); if (e.code == ref::POS_OVF) vk_cover("overflow");
  }
}
template <class C> void all(unsigned K, size_t N, unsigned F, unsigned M) {
  switch (K) {
    case 0: return one<bool, C>(N, F, M);
    case 1: if constexpr (sizeof(C) == 1) return one<char, C>(N, F, M); return;
    case 2: return one<wchar_t, C>(N, F, M);
    case 3: return one<char32_t, C>(N, F, M);
    case 4: return one<void*, C>(N, F, M);
    case 5: return one<const void*, C>(N, F, M);
  }
}
extern "C" void vk_main() {
  size_t N = vk_param("N"); unsigned K = (unsigned)vk_param("K"), F = (unsigned)vk_param("F"), M = (unsigned)vk_param("M");
  if (vk_param("W")) all<wchar_t>(K, N, F, M); else all<char>(K, N, F, M);
}
