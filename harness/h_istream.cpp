// Types read with operator>> through basic_istream_scanner, against the same operator>> on a plain in-memory stream.
// params: K the operator (see read); N length at most; R 0 contiguous 1 forward range; F 0 alone, 1 after a character, 2 before a character
#ifdef VK_SYMBOLIC
#include <cstddef>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0     // the stream classes' templates are compiled into the bitcode
#endif
#include <istream>
#include <scn/scan.h>
#include <scn/xchar.h>
#include <scn/istream.h>
#include "vk.h"
#include "fwd.h"
#define VK_NUM 1
#ifndef VK_C
#define VK_C char
#endif
using C = VK_C; using S = std::basic_string<C>; using SV = std::basic_string_view<C>; using E = scn::scan_error; using IS = std::basic_istream<C>; using TR = std::char_traits<C>;
struct V { unsigned k = 0; C t[16]{}; unsigned n = 0; void add(C c) { if (n < 16) t[n++] = c; } };
static bool letter(typename TR::int_type c) { return c >= 'a' && c <= 'z'; }
static bool digit(typename TR::int_type c) { return c >= '0' && c <= '9'; }
IS& operator>>(IS& in, V& v) {
  const auto eof = TR::eof(); C c{};
  switch (v.k) {
    case 0: while (letter(in.peek())) v.add((C)in.get()); if (!v.n) in.setstate(std::ios::failbit); return in;           // peek, then get; the end is no failure (eofbit only)
    case 1: while (in.get(c)) { if (!letter(c)) { in.unget(); return in; } v.add(c); } if (v.n) in.clear(in.rdstate() & ~std::ios::failbit); return in;   // get, and unget the terminator
    case 2: in.read(v.t, 3); v.n = (unsigned)in.gcount(); return in;                                                      // a block
    case 3: if (in.get() != '(') { in.setstate(std::ios::failbit); return in; } while (digit(in.peek())) v.add((C)in.get()); if (in.get() != ')') in.setstate(std::ios::failbit); return in;
    case 4: { typename IS::sentry s(in, true); if (!s) return in; auto* b = in.rdbuf(); auto x = b->sgetc(); while (letter(x)) { v.add((C)x); x = b->snextc(); } if (!v.n) in.setstate(std::ios::failbit); return in; }   // the buffer itself
    case 5: { while (in.get(c)) { if (!letter(c)) { in.putback(c); return in; } v.add(c); } if (v.n) in.clear(in.rdstate() & ~std::ios::failbit); return in; }  // putback
    case 6: { while (in.get(c) && letter(c)) v.add(c); if (in) in.unget(); else if (v.n) in.clear(in.rdstate() & ~std::ios::failbit); if (in.peek() == '-') { in.get(); v.add('-'); while (in.get(c) && letter(c)) v.add(c); if (in) in.unget(); else in.clear(in.rdstate() & ~std::ios::failbit); } return in; }  // two ungets
    case 7: { in.get(); in.get(); while (letter(in.peek())) v.add((C)in.get()); return in; }
    case 8: { c = (C)in.peek(); if (in.peek() == eof) { in.setstate(std::ios::failbit); return in; } v.add(c); return in; }     // looks, takes nothing
    case 9: { if (in.peek() == 'x') in.setstate(std::ios::badbit); else in.get(c), v.add(c); return in; }
    case 10: { in.get(c); if (!in) return in; auto x = in.peek(); v.add(c); if (x == 'y') in.unget(), v.add('u'); return in; }  // unget after looking ahead
    case 11: { in >> c; if (in) v.add(c); return in; }          // formatted: whitespace is skipped
    case 12: { in >> std::ws; while (letter(in.peek())) v.add((C)in.get()); if (!v.n) in.setstate(std::ios::failbit); return in; }
#if VK_NUM
    case 13: { int x; if (in >> x) { v.t[0] = (C)(x & 0xff); v.t[1] = (C)(x >> 8 & 0xff); v.t[2] = (C)(x >> 16 & 0xff); v.t[3] = (C)(x >> 24 & 0xff); v.n = 4; } return in; }
    case 14: { int x, y; C c; if (in >> x >> c >> y) { v.t[0] = (C)(x & 0xff); v.t[1] = (C)(y & 0xff); v.t[2] = c; v.n = 3; } return in; }
    case 15: { unsigned x; in >> std::noskipws >> std::hex >> x; if (in) { v.t[0] = (C)(x & 0xff); v.t[1] = (C)(x >> 8 & 0xff); v.n = 2; } return in; }
#endif
  }
  return in;
}
template <> struct scn::scanner<V, C> : scn::basic_istream_scanner<C> {};
#ifdef VK_SYMBOLIC
#include "ios_stubs.h"
#endif
struct Mem : std::basic_streambuf<C> { Mem(const C* p, size_t n) { this->setg((C*)p, (C*)p, (C*)p + n); } size_t pos() { return (size_t)(this->gptr() - this->eback()); } };
static bool same(const V& a, const V& b) { bool r = a.n == b.n; for (unsigned i = 0; i < 16; ++i) r = r & (a.t[i] == b.t[i]); return r; }
extern "C" void vk_main() {
  unsigned K = (unsigned)vk_param("K"), R = (unsigned)vk_param("R"); size_t N = vk_param("N"), n = vk_choice(N + 1, "len");
#ifdef VK_SYMBOLIC
  ios_setup();
#endif
  C b[16]; vk_sym(b, n * sizeof(C), "in");
  if (sizeof(C) == 4) for (size_t i = 0; i < n; ++i) vk_assume((unsigned)b[i] != 0xffffffffu);   // WEOF is no character
  unsigned F = (unsigned)vk_param("F"); if (F && n == 0) return;
  V e; e.k = K; bool ok, eof, bad; size_t used; const size_t o = F == 1;
  { Mem m(b + o, n - o); IS s(&m); s >> e; ok = !s.fail(); eof = s.eof(); bad = s.bad(); used = o + m.pos(); }
  V v; static const C f[] = {'{', '}', '{', '}', 0}; bool xok; int code = 0; size_t xused = 0; C ch{}; SV fs(f, F ? 4 : 2); bool last = false;
  V init; init.k = K; Fwd<C> w{b, n}; SV in(b, n);
  auto take = [&](auto& r, auto pos) {
    xok = r.has_value(); if (!xok) { code = (int)r.error().code(); if (F == 2 && ok && used == n) { vk_assert(code == E::end_of_input, "nothing is left for the next field"); last = true; } }
    else { xused = pos(*r); if constexpr (std::tuple_size_v<std::decay_t<decltype(r->values())>> == 1) v = r->value(); else if constexpr (std::is_same_v<std::tuple_element_t<0, std::decay_t<decltype(r->values())>>, V>) { v = std::get<0>(r->values()); ch = std::get<1>(r->values()); } else { ch = std::get<0>(r->values()); v = std::get<1>(r->values()); } }
    vk_obs(xok); vk_obs(xok ? xused : (uint64_t)code); };
  auto pf = [&](auto& y) { return (size_t)y.begin().i; }; auto pc = [&](auto& y) { return (size_t)(y.begin() - in.begin()); };
  if (F == 0) { if (R) { auto r = scn::scan<V>(w, scn::runtime_format(fs), std::tuple<V>{init}); take(r, pf); } else { auto r = scn::scan<V>(in, scn::runtime_format(fs), std::tuple<V>{init}); take(r, pc); } }
  else if (F == 1) { if (R) { auto r = scn::scan<C, V>(w, scn::runtime_format(fs), std::tuple<C, V>{C{}, init}); take(r, pf); } else { auto r = scn::scan<C, V>(in, scn::runtime_format(fs), std::tuple<C, V>{C{}, init}); take(r, pc); } }
  else { if (R) { auto r = scn::scan<V, C>(w, scn::runtime_format(fs), std::tuple<V, C>{init, C{}}); take(r, pf); } else { auto r = scn::scan<V, C>(in, scn::runtime_format(fs), std::tuple<V, C>{init, C{}}); take(r, pc); } }
  if (last) return;
  if (F == 1 && xok) vk_assert(ch == b[0], "the field before is the character before"); if (F == 2 && xok) { vk_assert(ch == b[used], "the next field starts where operator>> stopped"); ++used; }
  vk_assert(xok == ok, "the scan succeeds exactly when operator>> does"); if (xok != ok) return;
  if (ok) { vk_assert(same(v, e), "the value is the one operator>> reads"); vk_assert(xused == used, "exactly what operator>> takes is consumed"); vk_cover("ok"); }
  else { vk_assert(code == (eof ? E::end_of_input : bad ? E::invalid_source_state : E::invalid_scanned_value), "the error follows the stream's state"); vk_cover("error"); }
}
