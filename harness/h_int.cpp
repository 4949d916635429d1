// Integer scanning: scan<T>(input, fmt) against the reference reader.
// params: P spaces ahead (M 0), T type index, F format index, N max length, W 0 narrow/1 wide, M input mode: 0 any text; 1 digits of the base after an optional sign; 2 as 1, but one position holds any code unit
#include <scn/scan.h>
#include <scn/xchar.h>
#include <limits>
#include "ref.h"
static const char* FM[] = {"{}", "{:d}", "{:i}", "{:x}", "{:o}", "{:b}", "{:u}", "{:X}", "{:B}", "{0}", "{0:x}", "{:>}"};
static const wchar_t* WF[] = {L"{}", L"{:d}", L"{:i}", L"{:x}", L"{:o}", L"{:b}", L"{:u}", L"{:X}", L"{:B}", L"{0}", L"{0:x}", L"{:>}"};
static const int BASE[] = {10, 10, 0, 16, 8, 2, 10, 16, 2, 10, 16, 10};
static int err(ref::Code c) { switch (c) { case ref::END: return scn::scan_error::end_of_input; case ref::INVALID_VALUE: return scn::scan_error::invalid_scanned_value; case ref::POS_OVF: return scn::scan_error::value_positive_overflow; default: return scn::scan_error::value_negative_overflow; } }
template <class R> void finish(R& r, bool has, const ref::IntRes& e, size_t consumed, uint64_t val, uint64_t minmag) {
  if (e.code == ref::OK) {
    vk_assert(has, "a representable number in the grammar is accepted");
    vk_assert(val == (e.neg ? 0 - e.mag : e.mag), "the value is the mathematical value of the digits");
    vk_assert(consumed == e.end, "exactly the number's text is consumed");
    vk_cover("ok"); if (e.neg) vk_cover("negative");
  } else {
    vk_assert(!has, "text outside the grammar or range is rejected");
    vk_assert((int)r.error().code() == err(e.code), "the error code tells why");
    if (e.code == ref::END) vk_cover("end"); if (e.code == ref::INVALID_VALUE) vk_cover("invalid"); if (e.code == ref::POS_OVF) vk_cover("overflow"); if (e.code == ref::NEG_OVF) vk_cover("negoverflow");
  }
}
template <class T, class C> void one(size_t N, unsigned F, unsigned M) {
  size_t n = M ? N : vk_choice(N + 1, "len");
  C buf[72];
  if (M && sizeof(C) > 1) { unsigned char t[72]; vk_sym(t, n, "in"); for (size_t i = 0; i < n; ++i) buf[i] = (C)t[i]; }
  else { size_t P = vk_param("P"); for (size_t i = 0; i < P; ++i) buf[i] = (C)' '; vk_sym(buf + P, n * sizeof(C), "in"); n += P; }
  int base = BASE[F];
  if (M) {  // digit string: optional sign then digits only
    size_t s = vk_choice(std::numeric_limits<T>::is_signed && F != 6 ? 2 : 1, "sign");
    if (s) vk_assume(buf[0] == (C)'-');
    int b = base ? base : 10;
    size_t hole = M == 2 ? vk_choice(n, "hole") : n;
    for (size_t i = s; i < n; ++i) if (i != hole) { C c = buf[i]; vk_assume(((c >= (C)'0') & (c < (C)(b < 10 ? '0' + b : ':'))) | ((b == 16) & ((((C)(c | 0x20) >= (C)'a') & ((C)(c | 0x20) <= (C)'f'))))); }
    if (!base && hole != s) vk_assume(buf[s] != (C)'0');
  }
  std::basic_string_view<C> sv(buf, n);
  bool bad = false;
  size_t ws = ref::skip_ws(buf, n, 0, &bad);
  typename std::conditional<sizeof(C) == 1, const char**, const wchar_t**>::type fm;
  if constexpr (sizeof(C) == 1) fm = FM; else fm = WF;
  auto r = scn::scan<T>(sv, scn::runtime_format(std::basic_string_view<C>(fm[F])));
  bool has = r.has_value();
  vk_obs(has); if (has) { vk_obs((uint64_t)r->value()); vk_obs((uint64_t)(r->begin() - sv.begin())); } else vk_obs((uint64_t)r.error().code());
  if (bad) return;  // ill-formed text ahead of the number: outside this property
  using L = std::numeric_limits<T>;
  bool minus = L::is_signed && F != 6;
  auto e = ref::integer(buf, n, ws, base, minus, (uint64_t)L::max(), L::is_signed ? (uint64_t)L::max() + 1 : 0);
  finish(r, has, e, has ? (size_t)(r->begin() - sv.begin()) : 0, has ? (uint64_t)r->value() : 0, 0);
}
template <class C> void all(unsigned T, size_t N, unsigned F, unsigned M) {
  switch (T) {
    case 0: return one<signed char, C>(N, F, M);
    case 1: return one<short, C>(N, F, M);
    case 2: return one<int, C>(N, F, M);
    case 3: return one<long, C>(N, F, M);
    case 4: return one<long long, C>(N, F, M);
    case 5: return one<unsigned char, C>(N, F, M);
    case 6: return one<unsigned short, C>(N, F, M);
    case 7: return one<unsigned, C>(N, F, M);
    case 8: return one<unsigned long, C>(N, F, M);
    case 9: return one<unsigned long long, C>(N, F, M);
  }
}
extern "C" void vk_main() {
  size_t N = vk_param("N"); unsigned T = (unsigned)vk_param("T"), F = (unsigned)vk_param("F"), M = (unsigned)vk_param("M");
  if (vk_param("W")) all<wchar_t>(T, N, F, M); else all<char>(T, N, F, M);
}
