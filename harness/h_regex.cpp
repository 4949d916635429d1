// {:/pattern/flags}: the scan against std::regex applied to the same text at the same place.
// params: K the pattern; T 0 string 1 string_view 2 regex_matches; N length at most; R 0 contiguous 1 forward range; F 0 alone 1 after a character
#ifdef VK_SYMBOLIC
#include <cstddef>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#endif
#include <istream>
#include <sstream>
#include <regex>
#include <scn/scan.h>
#include <scn/regex.h>
#include <scn/xchar.h>
#include "vk.h"
#include "fwd.h"
using C = char; using S = std::string; using SV = std::string_view; using E = scn::scan_error;
#ifdef VK_SYMBOLIC
#define VK_REGEX 1
#include "ios_stubs.h"
template class std::basic_istringstream<char>; template class std::basic_istream<char>; template class std::basic_ios<char>;
template class std::basic_streambuf<char>; template class std::basic_stringbuf<char>;
#endif
struct P { const char *fmt, *re; bool nocase, nosubs; };   // the specification, and the regular expression it stands for
static const P pats[] = {
  {"/ab*/", "ab*", 0, 0}, {"/[a-c]+/", "[a-c]+", 0, 0}, {"/(a|bc)(d)?/", "(a|bc)(d)?", 0, 0}, {"/[^x]*/", "[^x]*", 0, 0}, {"/a\\/b/", "a/b", 0, 0}, {"/aB/i", "aB", 1, 0}, {"/(a)(b)/n", "(a)(b)", 0, 1},
  {"/.+/", ".+", 0, 0}, {"/(x*)y/", "(x*)y", 0, 0}, {"/[a-c]b/in", "[a-c]b", 1, 1}, {"/\\//", "/", 0, 0}, {"/a?/", "a?", 0, 0}, {"/\\d+/", "\\d+", 0, 0}, {"/\\s?\\w/", "\\s?\\w", 0, 0}, {"/a{2}/", "a{2}", 0, 0}, {"/(a)\\1/", "(a)\\1", 0, 0}, {"/b$/", "b$", 0, 0}, {"/(?:a|b)c/", "(?:a|b)c", 0, 0}, {"/(a(b)?)+/", "(a(b)?)+", 0, 0},
  {"/a+?b/", "a+?b", 0, 0}, {"/(.)\\1/i", "(.)\\1", 1, 0}, {"/\\/+a\\/?/", "/+a/?", 0, 0}, {"/[\\/]a/", "[/]a", 0, 0}, {"/[[:alpha:]]+/", "[[:alpha:]]+", 0, 0}, {"/(a)|(b)|/", "(a)|(b)|", 0, 0}, {"/x(?=y)/", "x(?=y)", 0, 0}, {"/[}{]a/", "[}{]a", 0, 0}, {"/a\\\\b/", "a\\\\b", 0, 0}, {"/(a)(b)?(c)?/ni", "(a)(b)?(c)?", 1, 1}, {"/ab*c/n", "ab*c", 0, 1},
  {"/(/", nullptr, 0, 0}, {"/[a/", nullptr, 0, 0}, {"/a{2,1}/", nullptr, 0, 0}, {"/*/", nullptr, 0, 0}, {"//", nullptr, 0, 0}, {"/a", nullptr, 0, 0}, {"/a/q", nullptr, 0, 0}, {"/a/ii", nullptr, 0, 0}, {"/a/s", nullptr, 0, 0}, {"/a\\/", nullptr, 0, 0}};
struct Ref { bool ok = false; size_t end = 0, groups = 0; bool has[6]{}; size_t from[6]{}, to[6]{}; };
static Ref ref(const P& p, const C* b, size_t n, bool nosubs) {
  Ref r; auto f = std::regex_constants::ECMAScript; if (p.nocase) f |= std::regex_constants::icase; if (nosubs) f |= std::regex_constants::nosubs;
  std::regex re(p.re, f); std::cmatch m; r.ok = std::regex_search(b, b + n, m, re, std::regex_constants::match_continuous); if (!r.ok) return r;
  r.end = (size_t)(m[0].second - b); r.groups = m.size(); for (size_t i = 0; i < m.size() && i < 6; ++i) { r.has[i] = m[i].matched; if (r.has[i]) { r.from[i] = (size_t)(m[i].first - b); r.to[i] = (size_t)(m[i].second - b); } }
  return r;
}
extern "C" void vk_main() {
  const P& p = pats[vk_param("K")]; unsigned T = (unsigned)vk_param("T"), R = (unsigned)vk_param("R"), F = (unsigned)vk_param("F"); size_t N = vk_param("N"), n = vk_choice(N + 1, "len");
#ifdef VK_SYMBOLIC
  ios_setup();
#endif
  C b[16]; vk_sym(b, n, "in"); for (size_t i = 0; i < n; ++i) vk_assume((unsigned char)b[i] < 0x80);
  if (F && n == 0) return; const size_t o = F; S fs = F ? "{}{:" : "{:"; fs += p.fmt; fs += "}";
  SV in(b, n); Fwd<C> w{b, n}; bool ok; int code = 0; size_t used = 0; C ch{}; auto fail = [&](auto& r) { code = (int)r.error().code(); };
  auto obs = [&] { vk_obs(ok); vk_obs(ok ? used : (uint64_t)code); };
  if (R && T == 2) { auto r = scn::scan<scn::regex_matches>(w, scn::runtime_format(fs)); ok = r.has_value(); vk_assert(!ok && (r.error().code() == E::invalid_format_string || r.error().code() == E::end_of_input), "a source that is not contiguous is refused"); vk_cover("error"); return; }
  if (R) { auto r = scn::scan<S>(w, scn::runtime_format(fs)); ok = r.has_value(); vk_assert(!ok && r.error().code() == E::invalid_format_string, "a source that is not contiguous is refused"); vk_cover("error"); vk_cover("ok"); return; }
  bool skip = true; for (size_t i = o; i < n; ++i) skip = skip & ((b[i] == 32) | ((b[i] >= 9) & (b[i] <= 13)));     // nothing but whitespace
  if (!p.re) { auto bad = [&](auto r) { ok = r.has_value(); code = ok ? 0 : (int)r.error().code(); obs(); vk_assert(!ok && (code == E::invalid_format_string || (T == 2 && skip && code == E::end_of_input)), "an invalid expression is an invalid format string"); vk_cover("format"); };
    if (F) { if (T == 0) bad(scn::scan<C, S>(in, scn::runtime_format(fs))); else if (T == 1) bad(scn::scan<C, SV>(in, scn::runtime_format(fs))); else bad(scn::scan<C, scn::regex_matches>(in, scn::runtime_format(fs))); }
    else if (T == 0) bad(scn::scan<S>(in, scn::runtime_format(fs))); else if (T == 1) bad(scn::scan<SV>(in, scn::runtime_format(fs))); else bad(scn::scan<scn::regex_matches>(in, scn::runtime_format(fs))); return; }
  if (T == 2) { if (n == o) return; C c = b[o]; if (c == ' ' || (c >= 9 && c <= 13)) return; }     // whether whitespace is skipped before regex_matches is unspecified
  Ref e = ref(p, b + o, n - o, p.nosubs || T != 2);
  auto text = [&](SV v) { vk_assert(v.size() == e.end, "the value is the matched text"); bool same = v.size() == e.end; for (size_t i = 0; same && i < e.end; ++i) if (v[i] != b[o + i]) same = false; vk_assert(same, "the value is the matched text"); };
  auto groups = [&](const scn::regex_matches& v) {
    vk_assert(v.size() == e.groups, "there is one match per group"); if (v.size() != e.groups) return;
    for (size_t i = 0; i < v.size() && i < 6; ++i) { vk_assert(v[i].has_value() == e.has[i], "a group matched as in the expression"); if (v[i] && e.has[i]) vk_assert(v[i]->get().data() == b + o + e.from[i] && v[i]->get().size() == e.to[i] - e.from[i], "the group is its part of the text"); } };
#define ONE(TY, CHECK) if (F) { auto r = scn::scan<C, TY>(in, scn::runtime_format(fs)); ok = r.has_value(); if (ok) { used = (size_t)(r->begin() - in.begin()); ch = std::get<0>(r->values()); vk_assert(ch == b[0], "the field before is read as usual"); if (e.ok) CHECK(std::get<1>(r->values())); } else fail(r); } \
  else { auto r = scn::scan<TY>(in, scn::runtime_format(fs)); ok = r.has_value(); if (ok) { used = (size_t)(r->begin() - in.begin()); if (e.ok) CHECK(r->value()); } else fail(r); }
  if (T == 0) { ONE(S, text) } else if (T == 1) { ONE(SV, text) } else { ONE(scn::regex_matches, groups) }
  obs();
  if (e.ok) { vk_assert(ok, "text that matches is accepted"); if (ok) vk_assert(used == o + e.end, "exactly the match is consumed"); vk_cover("ok"); }
  else { vk_assert(!ok, "text that does not match is rejected"); vk_assert(ok || code == E::invalid_scanned_value || (o == n && code == E::end_of_input), "text that does not match is an invalid value"); vk_cover("error"); }
}
