// Dates and times: conversion specifications against a reference interpreter of chrono formats.
// params: T target type; K format; N length; M 0 any text of at most N bytes, 1 a fitting text with a window of N arbitrary bytes anywhere in or after it, 2 a format with N arbitrary bytes; R 0 contiguous 1 forward range
#include <scn/scan.h>
#include <scn/xchar.h>
#include <scn/chrono.h>
#include "ref.h"
#include "fwd.h"
#include "civil.h"
#ifndef VK_C
#define VK_C char
#endif
using C = VK_C; using SV = std::basic_string_view<C>; using E = scn::scan_error; using EC = enum E::code;
enum Type { TM, TMZ, DT, WD, DAY, MON, YEAR, MD, YM, YMD, TPN, TPS };
struct Opt { bool set = false; int v = 0; };
struct Dt { Opt sec, min, hour, mday, mon, year, wday, yday, tz; bool name = false, frac = false; size_t nb = 0, ne = 0, fb = 0, fe = 0; };   // mon 1..12, year in full, tz in minutes, nb..ne the name
// ---- which fields a type has and needs
enum F { SEC = 1, MIN = 2, HOUR = 4, MDAY = 8, MONTH = 16, YR = 32, WDAY = 64, YDAY = 128, TZ = 256, NAME = 512, FRAC = 1024 };
static unsigned has(Type t) { switch (t) { case TM: return 0x1ff; case TMZ: return 0x3ff; case DT: case TPN: case TPS: return 0x7ff; case WD: return WDAY; case DAY: return MDAY; case MON: return MONTH; case YEAR: return YR; case MD: return MONTH | MDAY; case YM: return YR | MONTH; default: return YR | MONTH | MDAY; } }
static unsigned needs(Type t) { return t <= DT || t >= TPN ? 0 : has(t); }
struct In { const C* p; size_t n, i; bool ill, unspec; Dt d; bool err; EC code; bool h12 = false, ampm = false, pm = false, full = false, cent = false, shrt = false; int centv = 0, shortv = 0; };
static bool bad(In& c, EC e) { if (!c.err) { c.err = true; c.code = e; } return false; }
static const EC INV = E::invalid_scanned_value;
static bool digits(In& c, size_t lo, size_t hi, int& v) { size_t k = 0; v = 0; while (k < hi && c.i < c.n && c.p[c.i] >= C('0') && c.p[c.i] <= C('9')) { v = v * 10 + (int)(c.p[c.i] - C('0')); ++c.i; ++k; } return k >= lo || bad(c, INV); }
static bool num(In& c, size_t lo, size_t hi, int mn, int mx, int& v) { if (!digits(c, lo, hi, v)) return false; return (v >= mn && v <= mx) || bad(c, INV); }
static bool field(In& c, Opt& o, size_t lo, size_t hi, int mn, int mx) { int v; if (!num(c, lo, hi, mn, mx, v)) return false; o = {true, v}; return true; }
static bool word(In& c, const char* s) { size_t k = 0; for (; s[k]; ++k) { if (c.i + k >= c.n) return false; bool letter = (s[k] >= 'a' && s[k] <= 'z') || (s[k] >= 'A' && s[k] <= 'Z'); C x = c.p[c.i + k]; if (x != C(s[k]) && !(letter && x == C(s[k] ^ 32))) return false; } c.i += k; return true; }
static const char* const months[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
static const char* const days[] = {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"};
static bool name3(In& c, const char* const* tab, int n, int& v) { for (v = 0; v < n; ++v) if (word(c, tab[v])) return true; for (v = 0; v < n; ++v) { char s[4] = {tab[v][0], tab[v][1], tab[v][2], 0}; if (word(c, s)) return true; } return bad(c, INV); }
static bool lit(In& c, C ch) { if (c.i == c.n) return bad(c, E::end_of_input); if (c.p[c.i] != ch) return bad(c, E::invalid_literal); ++c.i; return true; }
static void ws(In& c) { size_t j = ref::skip_ws(c.p, c.n, c.i, &c.ill); c.i = j; }
static bool month_name(In& c) { int v; if (!name3(c, months, 12, v)) return false; c.d.mon = {true, v + 1}; return true; }
static bool year4(In& c) { c.full = true; return field(c, c.d.year, 4, 4, 0, 9999); }
static bool year2(In& c) { c.shrt = true; return num(c, 2, 2, 0, 99, c.shortv); }
static bool month2(In& c) { return field(c, c.d.mon, 1, 2, 1, 12); }
static bool day2(In& c) { return field(c, c.d.mday, 1, 2, 1, 31); }
static bool hour2(In& c) { return field(c, c.d.hour, 1, 2, 0, 23); }
static bool min2(In& c) { return field(c, c.d.min, 1, 2, 0, 59); }
static bool sec2(In& c) { return field(c, c.d.sec, 1, 2, 0, 60); }
static bool hms(In& c) { return hour2(c) && lit(c, C(':')) && min2(c) && lit(c, C(':')) && sec2(c); }
static bool hour12(In& c) { c.h12 = true; return field(c, c.d.hour, 1, 2, 1, 12); }
static bool ampm(In& c) { c.ampm = true; if (word(c, "am") || word(c, "a.m.")) { c.pm = false; return true; } if (word(c, "pm") || word(c, "p.m.")) { c.pm = true; return true; } return bad(c, INV); }
static bool wsp(In& c) { ws(c); return !c.ill; }
static bool tzoff(In& c, bool alt) {
  if (c.i == c.n) return bad(c, E::end_of_input);
  bool neg = c.p[c.i] == C('-'); if (neg || c.p[c.i] == C('+')) ++c.i;
  if (c.i == c.n) return bad(c, E::end_of_input);
  int h, m = 0; if (!digits(c, alt ? 1 : 2, 2, h)) return false;
  size_t j = c.i; bool colon = j < c.n && c.p[j] == C(':'); if (colon) ++j;
  if ((colon || !alt) && j < c.n && c.p[j] >= C('0') && c.p[j] <= C('9')) { c.i = j; if (!digits(c, 2, 2, m)) return false; }
  c.d.tz = {true, (neg ? -1 : 1) * (h * 60 + m)}; return true;
}
static bool tzch(C x) { return (x >= C('a') && x <= C('z')) || (x >= C('A') && x <= C('Z')) || (x >= C('0') && x <= C('9')) || x == C('-') || x == C('+') || x == C('_') || x == C('/'); }
static bool zonename(In& c) { if (c.i == c.n) return bad(c, E::end_of_input); c.d.nb = c.i; while (c.i < c.n && tzch(c.p[c.i])) ++c.i; c.d.ne = c.i; c.d.name = true; return c.i > c.d.nb || bad(c, INV); }
// ---- the format: checked first (valid), then run against the text
struct Fmt { const C* p; size_t n; };
struct Chk { bool ok = true, unspec = false; unsigned set = 0; bool h24 = false, h12 = false, ap = false, full = false, cent = false, shrt = false; size_t end = 0; };
// calls conv(spec, modifier), text(ch), space() in order; false when malformed.  Ends at '}' or at the end.
template <class Conv, class Text, class Space> static bool walk(Fmt f, size_t& i, bool& unspec, Conv conv, Text text, Space space) {
  if (i < f.n && f.p[i] == C('L')) { unspec = true; return false; }
  if (i == f.n || f.p[i] != C('%')) return false;
  while (i < f.n && f.p[i] != C('}')) {
    if (f.p[i] != C('%')) {
      ref::Dec d = ref::decode(f.p + i, f.n - i); if (!d.ok) { unspec = true; return false; }
      if (ref::space(d.cp)) { if (!space()) return true; } else for (size_t k = 0; k < d.len; ++k) if (!text(f.p[i + k])) return true;
      i += d.len; continue;
    }
    if (++i == f.n) return false; C s = f.p[i++]; C mod = 0;
    if (s == C('%')) { if (!text(C('%'))) return true; continue; }
    if (s == C('n') || s == C('t')) { if (!space()) return true; continue; }
    if (s == C('E') || s == C('O')) { mod = s; if (i == f.n) return false; s = f.p[i++]; bool in = false; for (const char* q = mod == C('E') ? "cCxXyYz" : "deHkIlmMSUwWyz"; *q; ++q) in = in || s == C(*q); if (!in) return false; if (s == C('W')) { unspec = true; return false; } }
    if (s == C('.')) { if (i < f.n && (f.p[i] == C('E') || f.p[i] == C('O'))) ++i; if (i == f.n || f.p[i] != C('S')) return false; ++i; }
    if (!conv(s, mod)) return true;
  }
  return true;
}
static Chk check(Fmt f, size_t i, Type T) {
  Chk c; unsigned hs = has(T);
  auto one = [&](unsigned b) { bool ok = (hs & b) && !(c.set & b); c.set |= b; return ok; };
  auto year = [&](bool& w) { bool ok = (hs & YR) && !w; w = true; c.set |= YR; return ok; };
  bool bad = false;
  auto conv = [&](C s, C mod) {
    bool ok; auto h24 = [&] { c.h24 = true; return one(HOUR); };
    if (mod == C('E') && s == C('y')) ok = false;
    else switch ((char)(s < 128 && s > 0 ? s : 0)) {
      case 'Y': ok = year(c.full); break; case 'y': ok = year(c.shrt); break; case 'C': ok = year(c.cent); break;
      case 'b': case 'B': case 'h': case 'm': ok = one(MONTH); break;
      case 'j': ok = one(YDAY); break; case 'd': case 'e': ok = one(MDAY); break;
      case 'a': case 'A': case 'w': case 'u': ok = one(WDAY); break;
      case 'H': case 'k': ok = h24(); break; case 'I': case 'l': c.h12 = true; ok = one(HOUR); break;
      case 'M': ok = one(MIN); break; case 'S': ok = one(SEC); break; case '.': ok = one(FRAC); ok = one(SEC) && ok; break;
      case 'z': ok = one(TZ); break; case 'Z': ok = one(NAME); break;
      case 'c': ok = h24(); ok = one(MIN) && ok; ok = one(SEC) && ok; ok = one(MONTH) && ok; ok = one(MDAY) && ok; ok = year(c.full) && ok; break;
      case 'x': case 'F': ok = year(c.full); ok = one(MONTH) && ok; ok = one(MDAY) && ok; break;
      case 'X': case 'T': ok = h24(); ok = one(MIN) && ok; ok = one(SEC) && ok; break;
      case 'D': ok = year(c.shrt); ok = one(MONTH) && ok; ok = one(MDAY) && ok; break;
      case 'r': c.h12 = true; ok = one(HOUR); ok = one(MIN) && ok; ok = one(SEC) && ok; ok = !c.ap && ok; c.ap = true; break;
      case 'R': ok = h24(); ok = one(MIN) && ok; break;
      case 'p': case 'P': ok = (hs & HOUR) && !c.ap; c.ap = true; break;
      default: ok = false;
    }
    if (!ok) bad = true; return ok;
  };
  bool fmt = walk(f, i, c.unspec, conv, [](C) { return true; }, [] { return true; });
  c.end = i; unsigned w = c.set & (WDAY | MDAY | YDAY);
  c.ok = fmt && !bad && !(c.h24 && c.h12) && !(c.ap && !c.h12) && !(c.full && (c.cent || c.shrt)) && !((c.set & TZ) && (c.set & NAME)) && (w & (w - 1)) == 0 && (c.set & needs(T)) == needs(T);
  return c;
}
static bool conv(In& c, C s, C mod) {
  int v;
  switch ((char)s) {
    case 'Y': return year4(c); case 'y': return year2(c); case 'C': c.cent = true; return num(c, 2, 2, 0, 99, c.centv);
    case 'b': case 'B': case 'h': return month_name(c); case 'm': return month2(c);
    case 'j': if (!num(c, 1, 3, 1, 366, v)) return false; c.d.yday = {true, v - 1}; return true;
    case 'd': case 'e': return day2(c);
    case 'a': case 'A': if (!name3(c, days, 7, v)) return false; c.d.wday = {true, v}; return true;
    case 'w': return field(c, c.d.wday, 1, 1, 0, 6);
    case 'u': if (!num(c, 1, 1, 1, 7, v)) return false; c.d.wday = {true, v == 7 ? 0 : v}; return true;
    case 'H': case 'k': return hour2(c); case 'I': case 'l': return hour12(c); case 'M': return min2(c); case 'S': return sec2(c);
    case '.': { if (!sec2(c) || (c.i == c.n ? !bad(c, INV) : false)) return false; if (c.i == c.n || c.p[c.i] != C('.')) return bad(c, INV); ++c.i; size_t k = 0; c.d.fb = c.i; while (c.i < c.n && c.p[c.i] >= C('0') && c.p[c.i] <= C('9')) { ++c.i; ++k; } c.d.fe = c.i; c.d.frac = true; return k || bad(c, c.i == c.n ? E::end_of_input : INV); }
    case 'z': return tzoff(c, mod != 0); case 'Z': return zonename(c);
    case 'c': return name3(c, days, 7, v) && (c.d.wday = {true, v}, wsp(c)) && month_name(c) && wsp(c) && day2(c) && wsp(c) && hms(c) && wsp(c) && year4(c);
    case 'x': return month2(c) && lit(c, C('/')) && day2(c) && lit(c, C('/')) && year4(c);
    case 'X': case 'T': return hms(c);
    case 'D': return month2(c) && lit(c, C('/')) && day2(c) && lit(c, C('/')) && year2(c);
    case 'F': return year4(c) && lit(c, C('-')) && month2(c) && lit(c, C('-')) && day2(c);
    case 'r': return hour12(c) && lit(c, C(':')) && min2(c) && lit(c, C(':')) && sec2(c) && wsp(c) && ampm(c);
    case 'R': return hour2(c) && lit(c, C(':')) && min2(c);
    case 'p': case 'P': return ampm(c);
  }
  return bad(c, E::invalid_format_string);
}
static In run(Fmt f, size_t i, const C* p, size_t n) {
  In c{p, n, 0, false, false, {}, false, {}}; bool u = false;
  ws(c); if (c.ill) return c; if (c.i == c.n) { bad(c, E::end_of_input); return c; }
  walk(f, i, u, [&](C s, C m) { return conv(c, s, m); }, [&](C ch) { return lit(c, ch); }, [&] { return wsp(c); });
  if (c.err || c.ill) return c;
  if (c.ampm) c.d.hour.v = c.pm ? (c.d.hour.v == 12 ? 12 : c.d.hour.v + 12) : (c.d.hour.v == 12 ? 0 : c.d.hour.v);
  if (c.cent || c.shrt) c.d.year = {true, c.cent && c.shrt ? c.centv * 100 + c.shortv : c.cent ? c.centv * 100 : c.shortv >= 69 ? 1900 + c.shortv : 2000 + c.shortv};
  return c;
}
// ---- comparing
static const C* txt;
static int z(const Opt& o, int off = 0, int def = 0) { return o.set ? o.v + off : def; }
static bool eq(const std::tm& t, const Dt& d) { return (t.tm_sec == z(d.sec)) & (t.tm_min == z(d.min)) & (t.tm_hour == z(d.hour)) & (t.tm_mday == z(d.mday)) & (t.tm_mon == z(d.mon, -1)) & (t.tm_year == z(d.year, -1900)) & (t.tm_wday == z(d.wday)) & (t.tm_yday == z(d.yday)) & (t.tm_gmtoff == z(d.tz) * 60) & (t.tm_isdst == 0); }
static bool nm(const std::optional<std::string>& s, const Dt& d) { if (s.has_value() != d.name) return false; if (!s) return true; if (s->size() != d.ne - d.nb) return false; bool e = true; for (size_t k = 0; k < s->size(); ++k) e = e & ((C)(*s)[k] == txt[d.nb + k]); return e; }
template <class O> static bool op(const O& o, const Opt& r) { return o.has_value() == r.set && (!r.set || (int)*o == r.v); }
static bool tzeq(const std::optional<std::chrono::minutes>& o, const Opt& r) { return o.has_value() == r.set && (!r.set || o->count() == r.v); }
static bool eq(const scn::tm_with_tz& t, const Dt& d) { return eq((const std::tm&)t, d) && nm(t.tz_name, d) && tzeq(t.tz_offset, d.tz); }
static bool totm(const std::tm& t, const Dt& d) { return (t.tm_sec == z(d.sec)) & (t.tm_min == z(d.min)) & (t.tm_hour == z(d.hour)) & (t.tm_mday == z(d.mday)) & (t.tm_mon == z(d.mon, -1)) & (t.tm_year == z(d.year, -1900)) & (t.tm_wday == z(d.wday)) & (t.tm_yday == z(d.yday)) & (t.tm_gmtoff == z(d.tz) * 60) & (t.tm_isdst == -1); }
#ifdef VK_SYMBOLIC
extern "C" { extern char32_t vk_fp_text[64]; extern size_t vk_fp_len; }
#endif
// the digits after the point, as a fraction below one
static double fracval(const Dt& d, double got) {
#ifdef VK_SYMBOLIC
  bool same = vk_fp_len == d.fe - d.fb + 2, zero = true; for (size_t k = d.fb; same && k < d.fe; ++k) { same = same & (vk_fp_text[2 + k - d.fb] == (char32_t)txt[k]); zero = zero & (txt[k] == C('0')); } vk_assert(same, "the subseconds are the digits after the point");
  return vk_concrete(zero) ? 0 : d.fe - d.fb >= 17 && got != 0.75 ? 1 - 0x1p-53 : 0.75;
#else
  std::string s = "0."; for (size_t k = d.fb; k < d.fe; ++k) s += (char)txt[k]; double e = strtod(s.c_str(), nullptr); return e < 1 ? e : 1 - 0x1p-53;
#endif
}
static bool frac(double v, const Dt& d) { return v == fracval(d, v); }
using TN = std::chrono::time_point<std::chrono::system_clock, std::chrono::nanoseconds>; using TS = std::chrono::time_point<std::chrono::system_clock, std::chrono::seconds>;
static int64_t epoch(const Dt& d) { return vk_civil(z(d.year, 0, 1900), z(d.mon, 0, 1), z(d.mday)) * 86400 + z(d.hour) * 3600 + z(d.min) * 60 + z(d.sec); }
static bool eq(const TS& t, const Dt& d) { return t.time_since_epoch().count() == epoch(d); }
static bool eq(const TN& t, const Dt& d) { int64_t s = epoch(d), v = t.time_since_epoch().count(); if (!d.frac) return v == s * 1000000000; int64_t x = v - s * 1000000000, f = (int64_t)(fracval(d, 0.75) * 1e9); return x == f; }
static bool eq(const scn::datetime_components& t, const Dt& d) { return op(t.sec, d.sec) && op(t.min, d.min) && op(t.hour, d.hour) && op(t.mday, d.mday) && op(t.year, d.year) && op(t.yday, d.yday) && t.mon.has_value() == d.mon.set && (!d.mon.set || (int)(unsigned)*t.mon == d.mon.v) && t.wday.has_value() == d.wday.set && (!d.wday.set || (int)t.wday->c_encoding() == d.wday.v) && tzeq(t.tz_offset, d.tz) && nm(t.tz_name, d) && t.subsec.has_value() == d.frac && (!d.frac || frac(*t.subsec, d)) && totm(t.to_tm(), d); }
static bool eq(const scn::weekday& t, const Dt& d) { return (int)t.c_encoding() == d.wday.v; }
static bool eq(const scn::day& t, const Dt& d) { return (int)(unsigned)t == d.mday.v; }
static bool eq(const scn::month& t, const Dt& d) { return (int)(unsigned)t == d.mon.v; }
static bool eq(const scn::year& t, const Dt& d) { return (int)t == d.year.v; }
static bool eq(const scn::month_day& t, const Dt& d) { return eq(t.month(), d) & eq(t.day(), d); }
static bool eq(const scn::year_month& t, const Dt& d) { return eq(t.month(), d) & eq(t.year(), d); }
static bool eq(const scn::year_month_day& t, const Dt& d) { return eq(t.month(), d) & eq(t.day(), d) & eq(t.year(), d); }
template <class T> static void go(Type type, Fmt f, const C* p, size_t n, unsigned R) {   // f: "{:...}"
  txt = p; bool got; EC code{}; size_t used = 0; std::optional<T> v; SV fs(f.p, f.n);
  auto take = [&](auto& r, auto pos) { got = r.has_value(); if (got) { v = std::move(r->value()); used = pos(*r); } else code = r.error().code(); };
  if (R == 0) { SV in(p, n); auto r = scn::scan<T>(in, scn::runtime_format(fs)); take(r, [&](auto& x) { return (size_t)(x.begin() - in.begin()); }); }
  else { Fwd<C> w{p, n}; auto r = scn::scan<T>(w, scn::runtime_format(fs)); take(r, [&](auto& x) { return x.begin().i; }); }
  vk_obs(got); if (got) vk_obs(used); else vk_obs((uint64_t)code);
  Chk k = check(f, 2, type); if (k.unspec) return;
  if (!k.ok || k.end + 1 != f.n) {
    if (k.ok && k.end < f.n) return;   // something after the field: not looked at here
    vk_assert(!got && code == E::invalid_format_string, "an invalid chrono format is rejected"); vk_cover("format"); return;
  }
  In c = run(f, 2, p, n); if (c.ill) return;
  if (!c.err && type >= TPN && (c.d.wday.set || c.d.yday.set || c.d.tz.set || c.d.name)) bad(c, INV);
  if (!c.err && type == TPN) { int64_t s = epoch(c.d); if (s > 9223372036LL || s < -9223372036LL) bad(c, INV); else if (s >= 9223372035LL || s <= -9223372035LL) return; }   // a count of nanoseconds cannot hold it
  vk_assert(got == !c.err, "text is accepted exactly when it fits the format"); if (got == c.err) return;
  if (c.err) { vk_assert(code == c.code || (code != E::invalid_format_string && (c.code == E::end_of_input || code == E::end_of_input)), "the error is about the input"); vk_cover("error"); return; }
  vk_assert(used == c.i, "exactly the text of the conversions is consumed"); vk_assert(eq(*v, c.d), "the fields are those in the text"); vk_cover("ok");
}
static void utc() {
#ifndef VK_SYMBOLIC
  setenv("TZ", "UTC0", 1); tzset();
#endif
}
static const char* const fmts[] = {"%Y", "%m", "%d", "%H", "%I", "%M", "%S", "%j", "%y", "%C", "%w", "%u", "%a", "%b", "%z", "%Ez", "%Z", "%F", "%T", "%R", "%D", "%r", "%c", "%x", "%X", "%I%p", "%C%y", "%y%C", "%H %M", "%j%n%S", "%%%H", "%H\xc3\xa9%M", "%.S", "%Om/%Od", "%p%I", "%A,%Y", "%Y-%m", "%m/%d", "%H\xe2\x80\xa8%M", "%B %d, %Y", "%F %T", "%F %H:%M:%.S", "%F%z"};
static const char* const texts[][12] = {{"2024", nullptr}, {"12", "7", nullptr}, {"31", nullptr}, {"23", nullptr}, {"12", "1", nullptr}, {"59", nullptr}, {"60", nullptr}, {"366", "12", nullptr}, {"69", nullptr}, {"20", nullptr}, {"6", nullptr}, {"7", nullptr},
  {"Sunday", "mon", "Tuesday", "WED", "Thursday", "Fri", "Saturday", nullptr}, {"January", "feb", "Mar", "April", "may", "June", "Jul", "AUGUST", "Sept", "October", "nov", nullptr}, {"+0230", "-11:59", "02", nullptr}, {"-2:00", "+12:30", nullptr}, {"Etc/GMT-1", "UTC", nullptr},
  {"2024-02-29", nullptr}, {"23:59:60", nullptr}, {"1:02", nullptr}, {"12/31/99", nullptr}, {"12:00:00 am", "1:2:3pm", nullptr}, {"Sun Feb 29 23:59:60 2024", nullptr}, {"12/31/1999", nullptr}, {"23:59:01", nullptr}, {"12a.m.", "11PM", nullptr}, {"1968", nullptr}, {"6819", nullptr}, {"12 \t 30", nullptr}, {"100 30", nullptr}, {"%22", nullptr},
  {"12\xc3\xa9" "34", nullptr}, {"12.345", "5.99999999999999999999", nullptr}, {"12/30", nullptr}, {"pm12", "A.M.1", nullptr}, {"Monday,2000", nullptr}, {"1066-10", nullptr}, {"2/29", nullptr}, {"12 30", nullptr}, {"December 25, 2023", nullptr}, {"2024-02-29 23:59:60", "1969-12-31 00:00:00", "2262-04-11 23:47:16", nullptr}, {"2000-03-01 12:34:56.789", "1900-01-01 0:0:0.5", nullptr}, {"2024-01-01+0200", nullptr}};
extern "C" void vk_main() {
  Type T = (Type)vk_param("T"); unsigned K = (unsigned)vk_param("K"), M = (unsigned)vk_param("M"), R = (unsigned)vk_param("R"); size_t N = vk_param("N");
  C f[48]; size_t fn = 0; C b[48]; size_t n = 0; f[fn++] = C('{'); f[fn++] = C(':');
  auto put = [](C* d, size_t& k, const char* s) { while (*s) { if (sizeof(C) == 1 || (unsigned char)*s < 0x80) { d[k++] = (C)*s++; } else { size_t l = strlen(s); ref::Dec x = ref::decode(s, l); d[k++] = (C)x.cp; s += x.len; } } };
  if (M == 2) {   // K: what surrounds the arbitrary bytes
    static const char* const pre[] = {"%", "%Y", "%H", "%", "%d%", "%I%"}; static const char* const post[] = {"", "", "%M", "%Y", "", ""}; static const char* const in[] = {"12", "2024", "12\xc3\xa9" "30", "072024", "12", "12pm"};
    put(f, fn, pre[K]); size_t m = vk_choice(N + 1, "flen"); vk_sym(f + fn, m * sizeof(C), "fmt"); fn += m; put(f, fn, post[K]); if (vk_choice(2, "close")) f[fn++] = C('}'); put(b, n, in[K]);
  } else {
    put(f, fn, fmts[K]); f[fn++] = C('}');
    if (M == 0) { n = vk_choice(N + 1, "len"); vk_sym(b, n * sizeof(C), "in"); }
    else { size_t cnt = 0; while (texts[K][cnt]) ++cnt; put(b, n, texts[K][vk_choice(cnt, "text")]); size_t at = vk_choice(n + 1, "at"); vk_sym(b + at, N * sizeof(C), "window"); if (at + N > n) n = at + N; }
  }
  Fmt ff{f, fn};
  switch (T) {
    case TM: go<std::tm>(T, ff, b, n, R); break; case TMZ: go<scn::tm_with_tz>(T, ff, b, n, R); break; case DT: go<scn::datetime_components>(T, ff, b, n, R); break;
    case WD: go<scn::weekday>(T, ff, b, n, R); break; case DAY: go<scn::day>(T, ff, b, n, R); break; case MON: go<scn::month>(T, ff, b, n, R); break; case YEAR: go<scn::year>(T, ff, b, n, R); break;
    case MD: go<scn::month_day>(T, ff, b, n, R); break; case YM: go<scn::year_month>(T, ff, b, n, R); break; case YMD: go<scn::year_month_day>(T, ff, b, n, R); break;
    case TPN: utc(); go<TN>(T, ff, b, n, R); break; case TPS: utc(); go<TS>(T, ff, b, n, R); break;
  }
}
