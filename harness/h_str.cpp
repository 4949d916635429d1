// Strings: words, character sets and {:.Nc}.
// params: P fixed characters ahead, F format index, N max length, V 0 std::string, 1 std::string_view, W 0 narrow, 1 wide source; D 1: destination of the other character type
#include <scn/scan.h>
#include <scn/xchar.h>
#include "ref.h"
enum Kind { WORD, SET, CHARS };
struct Fm { const char* f; const wchar_t* w; Kind k; int arg; };
static const Fm FM[] = {
  {"{}", L"{}", WORD, 0}, {"{:s}", L"{:s}", WORD, 0}, {"{0:s}", L"{0:s}", WORD, 0},
  {"{:[a-c]}", L"{:[a-c]}", SET, 0}, {"{:[^a-c]}", L"{:[^a-c]}", SET, 1}, {"{:[a]}", L"{:[a]}", SET, 2}, {"{:[^ ]}", L"{:[^ ]}", SET, 3},
  {"{:[\xc3\xa4-\xc3\xb6]}", L"{:[\u00e4-\u00f6]}", SET, 4}, {"{:[^\xe2\x82\xac]}", L"{:[^\u20ac]}", SET, 5}, {"{:[a-\xc3\xa4]}", L"{:[a-\u00e4]}", SET, 6}, {"{:[^]]}", L"{:[^]]}", SET, 7},
  {"{:[a\xc3\xa4]}", L"{:[a\u00e4]}", SET, 8}, {"{:[0-9-]}", L"{:[0-9-]}", SET, 9}, {"{:[a-cx-z\xe2\x82\xac]}", L"{:[a-cx-z\u20ac]}", SET, 10}, {"{:[ -~]}", L"{:[ -~]}", SET, 11}, {"{:[x-\x7f]}", L"{:[x-\x7f]}", SET, 12},
};
static bool in(int s, char32_t c) {
  switch (s) {
    case 0: return c >= 'a' && c <= 'c';
    case 1: return !(c >= 'a' && c <= 'c');
    case 2: return c == 'a';
    case 3: return c != ' ';
    case 4: return c >= 0xe4 && c <= 0xf6;
    case 5: return c != 0x20ac;
    case 6: return c >= 'a' && c <= 0xe4;
    case 7: return c != ']';
    case 8: return c == 'a' || c == 0xe4;
    case 9: return (c >= '0' && c <= '9') || c == '-';
    case 10: return (c >= 'a' && c <= 'c') || (c >= 'x' && c <= 'z') || c == 0x20ac;
    case 11: return c >= ' ' && c <= '~';
    case 12: return c >= 'x' && c <= 0x7f;
  }
  return false;
}
template <class C, class S> static bool same(const S& v, const C* p, size_t n) {
  using D = typename S::value_type;
  if constexpr (sizeof(C) == sizeof(D)) { if (v.size() != n) return false; bool eq = true; for (size_t i = 0; i < n; ++i) eq = eq & (v[i] == (D)p[i]); return eq; }
  else if constexpr (sizeof(C) == 1) {  // narrow source, wide destination: code points
    size_t k = 0; for (size_t i = 0; i < n;) { auto d = ref::decode(p + i, n - i); if (k >= v.size() || (char32_t)v[k] != d.cp) return false; ++k; i += d.len; }
    return k == v.size();
  } else {
    size_t i = 0, k = 0; for (; k < n; ++k) { if (i >= v.size()) return false; auto d = ref::decode(v.data() + i, v.size() - i); if (!d.ok || d.cp != (char32_t)p[k]) return false; i += d.len; }
    return i == v.size();
  }
}
template <class C, class S> void one(size_t N, unsigned F) {
  const Fm& f = FM[F];
  size_t n = vk_choice(N + 1, "len");
  // ahead of the symbolic text: P fixed characters (words are searched in chunks of eight), letters or, past 32, spaces
  size_t P = vk_param("P"); C fixed = P > 32 ? C(' ') : C('a'); P &= 31;
  C buf[48]; for (size_t i = 0; i < P; ++i) buf[i] = fixed;
  vk_sym(buf + P, n * sizeof(C), "in"); n += P;
  std::basic_string_view<C> sv(buf, n), fs; if constexpr (sizeof(C) == 1) fs = f.f; else fs = f.w;
  size_t b = 0; bool bad = false; 
  if (f.k == WORD) b = ref::skip_ws(buf, n, 0, &bad);
  auto r = scn::scan<S>(sv, scn::runtime_format(fs));
  bool has = r.has_value();
  size_t used = has ? (size_t)(r->begin() - sv.begin()) : 0;
  vk_obs(has); if (has) { vk_obs(used); vk_obs(r->value().size()); for (auto c : r->value()) vk_obs((uint64_t)c); } else vk_obs((uint64_t)r.error().code());
  // whatever happened: a scanned string is well-formed and not empty
  if (has) { vk_assert(!r->value().empty(), "an empty match is not a success"); vk_assert(ref::valid(r->value().data(), r->value().size()), "a scanned string is well-formed"); }
  if (bad) return;
  if (b == n) { vk_assert(!has, "nothing to read is an error"); if (f.k == WORD) vk_assert(r.error().code() == scn::scan_error::end_of_input, "nothing to read is end of input"); vk_cover("end"); return; }
  // the longest run of matching code points; ill-formed text inside the run makes the scan fail
  size_t e = b; bool ill = false;
  while (e < n) {
    auto d = ref::decode(buf + e, n - e);
    if (!d.ok) { ill = true; break; }
    if (f.k == WORD ? ref::space(d.cp) : !in(f.arg, d.cp)) break;
    e += d.len;
  }
  if (ill) { vk_cover("ill"); if (f.k == WORD) vk_assert(!has, "ill-formed text in the word is rejected"); return; }
  if (e == b) { vk_assert(!has, "no match is an error"); vk_assert(r.error().code() == scn::scan_error::invalid_scanned_value, "no match is an invalid value"); vk_cover("none"); return; }
  vk_assert(has, "a well-formed match is accepted");
  vk_assert(used == e, "exactly the matched text is consumed");
  vk_assert(same(r->value(), buf + b, e - b), "the string is exactly the matched text");
  if constexpr (std::is_same<S, std::basic_string_view<C>>::value) vk_assert(r->value().data() == buf + b, "a string_view points into the source");
  vk_cover("ok");
}
extern "C" void vk_main() {
  size_t N = vk_param("N"); unsigned F = (unsigned)vk_param("F"), V = (unsigned)vk_param("V"), W = (unsigned)vk_param("W"), D = (unsigned)vk_param("D");
  if (!W) { if (D) one<char, std::wstring>(N, F); else if (V) one<char, std::string_view>(N, F); else one<char, std::string>(N, F); }
  else { if (D) one<wchar_t, std::string>(N, F); else if (V) one<wchar_t, std::wstring_view>(N, F); else one<wchar_t, std::wstring>(N, F); }
}
