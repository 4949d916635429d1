// scan_int<T>(text, base) and scan_int_exhaustive_valid<T>(text) against the reference reader.
// params: T type, B base, N length, M 0 any text up to N; 1 exactly N digits of the base after an optional minus; 2 unchecked variant: N digits, optional minus, value representable
#include <scn/scan.h>
#include <limits>
#include "ref.h"
using E = scn::scan_error;
static int err(ref::Code c) { switch (c) { case ref::END: return E::end_of_input; case ref::INVALID_VALUE: return E::invalid_scanned_value; case ref::POS_OVF: return E::value_positive_overflow; default: return E::value_negative_overflow; } }
template <class T> void one(size_t N, int base, unsigned M) {
  using L = std::numeric_limits<T>;
  size_t n = M ? N : vk_choice(N + 1, "len");
  char buf[72];
  size_t s = M ? vk_choice(L::is_signed ? 2 : 1, "sign") : 0; if (s) buf[0] = '-';
  vk_sym(buf + s, n, "in"); n += s;
  if (M) { int b = base ? base : 10; for (size_t i = s; i < n; ++i) vk_assume(ref::digit(buf[i]) < b); if (!base) vk_assume(buf[s] != '0'); }
  std::string_view sv(buf, n);
  bool bad = false; size_t ws = ref::skip_ws(buf, n, 0, &bad);
  auto e = bad ? ref::IntRes{ref::UNSPEC, 0, false, 0} : ref::integer(buf, n, ws, base, L::is_signed, (uint64_t)L::max(), L::is_signed ? (uint64_t)L::max() + 1 : 0);
  if (M == 2) {
    if (e.code != ref::OK) return;
    T v = scn::scan_int_exhaustive_valid<T>(sv);
    vk_obs((uint64_t)v);
    vk_assert((uint64_t)v == (e.neg ? 0 - e.mag : e.mag), "the value is the mathematical value of the digits");
    vk_cover("ok"); return;
  }
  auto r = scn::scan_int<T>(sv, base);
  bool has = r.has_value();
  vk_obs(has); if (has) { vk_obs((uint64_t)r->value()); vk_obs((uint64_t)(r->begin() - sv.begin())); } else vk_obs((uint64_t)r.error().code());
  if (bad) return;
  if (e.code == ref::OK) {
    vk_assert(has, "a representable number in the grammar is accepted");
    vk_assert((uint64_t)r->value() == (e.neg ? 0 - e.mag : e.mag), "the value is the mathematical value of the digits");
    vk_assert(r->begin() == sv.begin() + e.end && r->end() == sv.end(), "the rest is what follows the number");
    vk_cover("ok");
  } else {
    vk_assert(!has, "text outside the grammar or range is rejected");
    vk_assert((int)r.error().code() == err(e.code), "the error code tells why");
    if (e.code == ref::END) vk_cover("end"); if (e.code == ref::INVALID_VALUE) vk_cover("invalid"); if (e.code == ref::POS_OVF) vk_cover("overflow");
  }
}
extern "C" void vk_main() {
  size_t N = vk_param("N"); unsigned T = (unsigned)vk_param("T"), M = (unsigned)vk_param("M"); int B = (int)vk_param("B");
  switch (T) {
    case 0: return one<signed char>(N, B, M);
    case 1: return one<short>(N, B, M);
    case 2: return one<int>(N, B, M);
    case 3: return one<long>(N, B, M);
    case 4: return one<long long>(N, B, M);
    case 5: return one<unsigned char>(N, B, M);
    case 6: return one<unsigned short>(N, B, M);
    case 7: return one<unsigned>(N, B, M);
    case 8: return one<unsigned long>(N, B, M);
    case 9: return one<unsigned long long>(N, B, M);
  }
}
