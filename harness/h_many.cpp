// Format strings of 62 to 90 fields: values land in their slots, and the field count and the ids are judged exactly.
// params: A 0 automatic ids, 1 manual ids (the last id two arbitrary digits), 2 manual ids, the id at an arbitrary place replaced by two arbitrary digits
#include <scn/scan.h>
#include "vk.h"
#include <utility>
#include <tuple>
#ifndef VK_N
#define VK_N 66
#endif
using E = scn::scan_error;
template <size_t> using Ch = char;
template <size_t... I> static void go(std::index_sequence<I...>) {
  constexpr size_t N = sizeof...(I); unsigned A = (unsigned)vk_param("A");
  char in[N + 1]; for (size_t i = 0; i < N; ++i) in[i] = (char)('a' + i % 26);
  unsigned char pos[] = {0, 31, 62, N - 2, N - 1}; for (unsigned char p : pos) { in[p] = (char)vk_u8("in"); vk_assume(in[p] > 0x20 && in[p] < 0x7f); }
  char f[5 * N + 16]; size_t n = 0; auto put = [&](char c) { f[n++] = c; };
  auto id = [&](size_t i) { if (i >= 10) put((char)('0' + i / 10)); put((char)('0' + i % 10)); };
  bool valid = true; size_t count = N;
  if (A == 0) { count = N - 2 + vk_choice(5, "count"); for (size_t i = 0; i < count; ++i) { put('{'); put('}'); } valid = count == N; }
  else {
    size_t at = A == 1 ? N - 1 : vk_choice(N, "at"); char d[2]; vk_sym(d, 2, "id"); vk_assume(d[0] >= '1' && d[0] <= '9' && d[1] >= '0' && d[1] <= '9');
    for (size_t i = 0; i < N; ++i) { put('{'); if (i == at) { put(d[0]); put(d[1]); } else id(i); put('}'); }
    valid = (size_t)((d[0] - '0') * 10 + (d[1] - '0')) == at;
  }
  auto r = scn::scan<Ch<I>...>(std::string_view(in, N), scn::runtime_format(std::string_view(f, n)));
  vk_obs(r.has_value());
  if (valid) {
    vk_assert(r.has_value(), "a valid format string of many fields is accepted"); if (!r) return;
    ([&] { vk_assert(std::get<I>(r->values()) == in[I], "every field's value is in its own slot"); }(), ...);
    vk_assert(r->range().empty(), "the remaining range starts after the last field"); vk_cover("valid");
  } else {
    vk_assert(!r.has_value(), "an invalid format string is never accepted"); if (r) return;
    vk_assert(r.error().code() == E::invalid_format_string, "an invalid format string is reported as such"); vk_cover("invalid");
  }
}
extern "C" void vk_main() { go(std::make_index_sequence<VK_N>{}); }
