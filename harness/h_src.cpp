// Source independence: a forward-only range and a deque against a contiguous string.
// params: K case, N max length, R 0 forward range, 1 deque; W 0 narrow 1 wide
#include <scn/scan.h>
#include <scn/xchar.h>
#include <deque>
#include <tuple>
#include "ref.h"
#include "cases.h"
#include "fwd.h"
using E = scn::scan_error;
template <class C> struct Ctx { std::basic_string_view<C> sv, fs; unsigned R; };
template <class... Ts, class C> void cmp(const Ctx<C>& c) {
  auto a = scn::scan<Ts...>(c.sv, scn::runtime_format(c.fs));
  size_t ua = a ? (size_t)(a->begin() - c.sv.begin()) : 0;
  vk_obs(a.has_value()); if (a) vk_obs(ua); else vk_obs((uint64_t)a.error().code());
  auto same = [&](auto& b, size_t ub) {
    vk_assert(a.has_value() == b.has_value(), "success does not depend on the source");
    if (!a) { vk_assert(a.error().code() == b.error().code(), "the error code does not depend on the source"); vk_cover("error"); return; }
    vk_assert(ua == ub, "the consumed input does not depend on the source");
    vk_assert(vk_eqt(a->values(), b->values(), std::index_sequence_for<Ts...>{}), "the values do not depend on the source");
    vk_cover("ok");
  };
  if (c.R == 0) { Fwd<C> w{c.sv.data(), c.sv.size()}; auto b = scn::scan<Ts...>(w, scn::runtime_format(c.fs)); same(b, b ? (size_t)b->begin().i : 0); }
  else { std::deque<C> d(c.sv.begin(), c.sv.end()); auto b = scn::scan<Ts...>(d, scn::runtime_format(c.fs)); same(b, b ? (size_t)(b->begin() - d.begin()) : 0); }
}
template <class C> void run(unsigned K, size_t N, unsigned R) {
  size_t n = vk_choice(N + 1, "len");
  C buf[32]; vk_sym(buf, n * sizeof(C), "in");
  with_case<C>(K, [&](auto t, std::basic_string_view<C> fs) { [&]<class... Ts>(types<Ts...>) { cmp<Ts...>(Ctx<C>{{buf, n}, fs, R}); }(t); });
}
extern "C" void vk_main() {
  unsigned K = (unsigned)vk_param("K"), R = (unsigned)vk_param("R"); size_t N = vk_param("N");
  if (vk_param("W")) run<wchar_t>(K, N, R); else run<char>(K, N, R);
}
