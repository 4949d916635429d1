// Localized fields: {:L} with a locale whose punctuation and boolean names are the harness's own.
// params: K 0 int 1 long long hex 2 double 3 float {:f} 4 double {:e} 5 double {:a} 6 bool 7 bool {:Ls} 8 bool {:Li} 9 int and double in one scan 10 no L: as without a locale; 11 int, 12 long long, 13 double, 14 float {:f}, 15 short, all in numbers of shape S; 16 the locale a custom scanner sees (S which format, 3 also inside a vector); G 0 no grouping, 1 grouping; N length at most; R 0 contiguous 1 forward range 2 default locale
#include <scn/scan.h>
#include <scn/xchar.h>
#include <cmath>
#include <cstdlib>
#include <locale>
#include "ref.h"
#include "ref_float.h"
#include "fwd.h"
#ifndef VK_C
#define VK_C char
#endif
using C = VK_C; using S = std::basic_string<C>; using SV = std::basic_string_view<C>; using E = scn::scan_error;
struct Punct : std::numpunct<C> {
  C dp{'.'}, ts{','}; bool grp = false; S tn, fn;
  Punct() : std::numpunct<C>(1) {}
  C do_decimal_point() const override { return dp; }
  C do_thousands_sep() const override { return ts; }
  std::string do_grouping() const override { return grp ? "\3" : ""; }
  S do_truename() const override { return tn; }
  S do_falsename() const override { return fn; }
};
#ifdef VK_SYMBOLIC
// std::locale reduced to the one facet scnlib asks for: the layout libstdc++'s inline accessors read, and its out-of-line members
extern "C" { extern unsigned vk_fp_calls; extern char32_t vk_fp_text[64]; extern size_t vk_fp_len; extern int vk_fp_type, vk_fp_hex; }
struct FakeImpl { int ref; const void** facets; size_t n; const void** caches; char** names; };
static const void* g_facets[4]; static FakeImpl g_impl{1, g_facets, 4, nullptr, nullptr}; static FakeImpl* g_loc = &g_impl; static const void* d_facets[4]; static FakeImpl d_impl{1, d_facets, 4, nullptr, nullptr};
extern "C" {
size_t vk_loc_id(const void*) __asm__("_ZNKSt6locale2id5_M_idEv"); size_t vk_loc_id(const void*) { return 1; }
void vk_loc_copy(FakeImpl** a, FakeImpl* const* b) __asm__("_ZNSt6localeC1ERKS_"); void vk_loc_copy(FakeImpl** a, FakeImpl* const* b) { *a = *b; }
void vk_loc_def(FakeImpl** a) __asm__("_ZNSt6localeC1Ev"); void vk_loc_def(FakeImpl** a) { *a = &d_impl; }
void vk_loc_del(FakeImpl** a) __asm__("_ZNSt6localeD1Ev"); void vk_loc_del(FakeImpl** a) { }
void* vk_loc_set(FakeImpl** a, FakeImpl* const* b) __asm__("_ZNSt6localeaSERKS_"); void* vk_loc_set(FakeImpl** a, FakeImpl* const* b) { *a = *b; return a; }
void* vk_dyn(void* p, const void*, const void*, ptrdiff_t) __asm__("__dynamic_cast"); void* vk_dyn(void* p, const void*, const void*, ptrdiff_t) { return p; }
void vk_np(void*, void*) __asm__("_ZNSt7__cxx118numpunctIcE22_M_initialize_numpunctEP15__locale_struct"); void vk_np(void*, void*) {}
void vk_npw(void*, void*) __asm__("_ZNSt7__cxx118numpunctIwE22_M_initialize_numpunctEP15__locale_struct"); void vk_npw(void*, void*) {}
void vk_npd(void*) __asm__("_ZNSt7__cxx118numpunctIcED2Ev"); void vk_npd(void*) {}
void vk_npwd(void*) __asm__("_ZNSt7__cxx118numpunctIwED2Ev"); void vk_npwd(void*) {}
}
#endif
static Punct& dflt();
struct Env {
  Punct p;
#ifdef VK_SYMBOLIC
  const std::locale& loc() { d_facets[1] = static_cast<const std::locale::facet*>(&dflt()); g_facets[1] = static_cast<const std::locale::facet*>(&p); return *(const std::locale*)(const void*)&g_loc; }
#else
  std::locale l; const std::locale& loc() { l = std::locale(std::locale::classic(), &p); return l; }
#endif
};
static Punct& dflt() { static Punct d; return d; }   // the global locale: '.' and ','
struct Sees { C dp{}, ts{}; };
template <> struct scn::scanner<Sees, C> {
  template <class P> constexpr auto parse(P& p) -> typename P::iterator { return p.begin(); }
  template <class X> auto scan(Sees& v, X& ctx) const -> scn::scan_expected<typename X::iterator> {
    auto l = ctx.locale().template get<std::locale>(); auto& f = std::use_facet<std::numpunct<C>>(l); v.dp = f.decimal_point(); v.ts = f.thousands_sep(); return ctx.begin();
  }
};
template <class T> static void value_is(T v, const C* p, const ref::FText& t, bool neg, int type, bool zero) {
  if (t.kind == ref::F_NAN) { vk_assert(std::isnan(v), "nan is read as a nan"); return; }
  vk_assert(std::signbit(v) == neg, "the sign is the one in the text");
  if (t.kind == ref::F_INF) { vk_assert(std::isinf(v), "inf is read as an infinity"); return; }
#ifdef VK_SYMBOLIC
  vk_assert(vk_fp_calls >= 1 && vk_fp_type == type, "the conversion is the one of the type"); vk_assert(zero || vk_fp_hex == (t.kind == ref::F_HEX), "the base of the conversion is that of the text");
  size_t n = t.end - t.beg; vk_assert(vk_fp_len == n, "the number without separators is converted"); bool same = true; for (size_t i = 0; i < n && i < 64; ++i) same = same & (vk_fp_text[i] == (char32_t)p[t.beg + i]); vk_assert(same, "the number without separators is converted");
#else
  std::string s = t.kind == ref::F_HEX ? "0x" : ""; for (size_t i = t.beg; i < t.end; ++i) s += (char)p[i];
  T e; if constexpr (std::is_same_v<T, float>) e = std::strtof(s.c_str(), nullptr); else e = std::strtod(s.c_str(), nullptr);
  vk_assert(std::fabs(v) == e, "the value is the converted one");
#endif
}
struct Res { bool ok; int code; size_t used; };
template <class T> static Res scan1(Env& e, const C* p, size_t n, const C* f, unsigned R, T& v) {
  SV fs(f); Res x{};
  auto take = [&](auto& r, auto pos) { x.ok = r.has_value(); if (x.ok) { v = r->value(); x.used = pos(*r); } else x.code = (int)r.error().code(); vk_obs(x.ok); vk_obs(x.ok ? x.used : (uint64_t)x.code); };
  if (R == 1) { Fwd<C> w{p, n}; auto r = scn::scan<T>(e.loc(), w, scn::runtime_format(fs)); take(r, [&](auto& y) { return y.begin().i; }); }
  else { SV in(p, n); auto r = scn::scan<T>(e.loc(), in, scn::runtime_format(fs)); take(r, [&](auto& y) { return (size_t)(y.begin() - in.begin()); }); }
  return x;
}
#define LIT(s) (sizeof(C) == 1 ? (const C*)(const void*)s : (const C*)(const void*)L##s)
// Drop the separators from the digits starting at i (base b) and translate the decimal point; false when separators are not each between two digits.
static bool strip(const C* p, size_t n, size_t i, int b, const Punct& u, C* t, size_t* map, size_t& m, bool point) {
  bool prev = false; m = 0; size_t j = i; bool good = true;
  for (; j < n; ++j) {
    if (u.grp && p[j] == u.ts) { if (!prev || j + 1 == n || ref::digit(p[j + 1]) >= b) good = false; prev = false; continue; }
    if (ref::digit(p[j]) >= b) break;
    prev = true; map[m] = j; t[m++] = p[j];
  }
  for (; j < n; ++j) { C c = p[j]; if (point) { if (c == u.dp) c = C('.'); else if (c == C('.')) c = C(1); } map[m] = j; t[m++] = c; }
  map[m] = n; return good;
}
template <class T> static void integer(Env& e, const C* p, size_t n, const C* f, int base, unsigned R) {
  T v{}; Res x = scan1<T>(e, p, n, f, R, v);
  bool ill = false; size_t i = ref::skip_ws(p, n, 0, &ill); if (ill) return;
  if (i == n) { vk_assert(!x.ok && x.code == E::end_of_input, "nothing to read is end of input"); return; }
  C t[24]; size_t map[24], m = 0, k = i; bool sign = p[k] == C('+') || p[k] == C('-'); if (sign) ++k;
  bool pre = base == 16 && n - k > 2 && p[k] == C('0') && (p[k + 1] == C('x') || p[k + 1] == C('X')) && ref::digit(p[k + 2]) < 16; if (pre) k += 2;
  if (base == 16 && !pre && n - k > 2 && e.p.grp && p[k] == C('0') && (p[k + 1] | 32) == C('x') && p[k + 2] == e.p.ts) return;
  if (!strip(p, n, k, base, e.p, t + 1, map + 1, m, false)) return;     // misplaced separators: unspecified
  t[0] = sign ? p[i] : C('+'); map[0] = i; if (pre && m > 1 && t[1] == C('0') && (t[2] | 32) == C('x')) m = 1;   // one prefix only
  using L = std::numeric_limits<T>; auto r = ref::integer(t, m + 1, 0, pre ? 10 + 6 : base, true, (uint64_t)L::max(), (uint64_t)L::max() + 1);
  if (r.code == ref::OK) {
    vk_assert(x.ok, "a number in the locale's notation is accepted"); if (!x.ok) return;
    vk_assert((uint64_t)v == (r.neg ? 0 - r.mag : r.mag), "the value is that of the digits"); vk_assert(x.used == map[r.end - 1] + 1, "exactly the digits and separators are consumed"); vk_cover("ok");
  } else { vk_assert(!x.ok, "text that is no number is rejected"); vk_assert(x.ok || x.code == (r.code == ref::INVALID_VALUE ? E::invalid_scanned_value : r.code == ref::POS_OVF ? E::value_positive_overflow : E::value_negative_overflow), "the error code tells why"); vk_cover("error"); }
}
template <class T> static void flt(Env& e, const C* p, size_t n, const C* f, unsigned F, int type, unsigned R) {
  T v{}; Res x = scan1<T>(e, p, n, f, R, v);
  bool ill = false; size_t i = ref::skip_ws(p, n, 0, &ill); if (ill) return;
  if (i == n) { vk_assert(!x.ok && x.code == E::end_of_input, "nothing to read is end of input"); return; }
  bool sign = p[i] == C('+') || p[i] == C('-'), neg = p[i] == C('-'); size_t k = i + sign;
  ref::FText s = ref::special(p, n, k); C t[24]; size_t map[24], m = 0; bool hex = F == 5, both = F == 2;
  if (s.kind == ref::F_NAN && s.end == k + 3 && k + 3 < n && p[k + 3] == C('(')) return;
  if (s.kind != ref::F_NONE) { vk_assert(x.ok, "inf and nan are accepted"); if (x.ok) { vk_assert(x.used == s.end, "exactly the text is consumed"); value_is(v, p, s, neg, type, false); vk_cover("ok"); } return; }
  ref::FText r{ref::F_NONE, 0, 0, 0, false};
  if ((hex || both) && ref::nocase(p, n, k, "0x")) { if (!strip(p, n, k + 2, 16, e.p, t, map, m, true)) return; r = ref::significand(t, m, 0, 16, true); }
  if (r.kind == ref::F_NONE) { if (!strip(p, n, k, hex ? 16 : 10, e.p, t, map, m, true)) return; r = ref::significand(t, m, 0, hex ? 16 : 10, F != 3); if (F == 4 && !r.exp) r.kind = ref::F_NONE; }
  if (r.kind == ref::F_NONE) { vk_assert(!x.ok, "text that is no number is rejected"); vk_assert(x.ok || x.code == E::invalid_scanned_value || (sign && k == n && x.code == E::end_of_input), "text that is no number is an invalid value"); vk_cover("error"); return; }
  ref::FRange g = ref::frange(t, r, type); if (g == ref::R_EDGE) return;
  if (g == ref::R_OVER || g == ref::R_UNDER) { vk_assert(!x.ok, "a value out of range is an error"); return; }
  vk_assert(x.ok, "a number in the locale's notation is accepted"); if (!x.ok) return;
  vk_assert(x.used == (r.end ? map[r.end - 1] + 1 : 0), "exactly the number in the locale's notation is consumed"); value_is(v, t, r, neg, type, g == ref::R_ZERO); vk_cover("ok");
}
static void boolean(Env& e, const C* p, size_t n, const C* f, bool num, bool text, unsigned R) {
  bool v{}; Res x = scan1<bool>(e, p, n, f, R, v);
  bool ill = false; size_t i = ref::skip_ws(p, n, 0, &ill); if (ill) return;
  if (i == n) { vk_assert(!x.ok && x.code == E::end_of_input, "nothing to read is end of input"); return; }
  auto is = [&](const S& s) { if (n - i < s.size()) return false; for (size_t k = 0; k < s.size(); ++k) if (p[i + k] != s[k]) return false; return true; };
  int want = -1; size_t len = 0;
  if (num && (p[i] == C('0') || p[i] == C('1'))) { want = p[i] == C('1'); len = 1; }
  else if (text && is(e.p.tn)) { want = 1; len = e.p.tn.size(); } else if (text && is(e.p.fn)) { want = 0; len = e.p.fn.size(); }
  vk_assert(x.ok == (want >= 0), "the locale's names and the digits are accepted, nothing else");
  if (want >= 0 && x.ok) { vk_assert((int)v == want, "the value is the one named"); vk_assert(x.used == i + len, "exactly the name is consumed"); vk_cover("ok"); }
  else { vk_assert(x.ok || x.code == E::invalid_scanned_value, "anything else is an invalid value"); vk_cover("error"); }
}
extern "C" void vk_main() {
  unsigned K = (unsigned)vk_param("K"), R = (unsigned)vk_param("R"); size_t N = vk_param("N"), n = N ? vk_choice(N + 1, "len") : 0;
  Env e; e.p.grp = vk_param("G");
  if (K < 6 || K >= 9) {
    unsigned char d = vk_u8("decimal_point"), s = vk_u8("thousands_sep"); auto okc = [](unsigned char c) { return (c > 0x20) & (c < 0x7f) & (c != '+') & (c != '-') & !((c >= '0') & (c <= '9')) & !(((c | 32) >= 'a') & ((c | 32) <= 'z')) & (c != '('); };
    vk_assume(okc(d) & okc(s) & (d != s)); e.p.dp = (C)d; e.p.ts = (C)s;
  } else {
    static const char* tn[] = {"yes", "ja", "t", "true", "oui"}; static const char* fn[] = {"no", "nein", "f", "false", "non"}; unsigned k = (unsigned)vk_choice(5, "names");
    if (vk_choice(2, "swap")) { for (const char* q = tn[k]; *q; ++q) e.p.fn += (C)*q; for (const char* q = fn[k]; *q; ++q) e.p.tn += (C)*q; }
    else { for (const char* q = tn[k]; *q; ++q) e.p.tn += (C)*q; for (const char* q = fn[k]; *q; ++q) e.p.fn += (C)*q; }
  }
  C b[24];
  if (K >= 11 && K < 16) {   // long numbers of a given shape: d a digit, , a separator, . the point, anything else itself, * any character
    static const char* shapes[] = {"d,ddd,ddd,ddd*", "-d,ddd.dd", "dd,dd,d.ddddd", "d.ddde-dd*", "+ddd,ddd*", " d,ddd,d*d", ".ddd*", "d,d,d,d,d,d*", "ddddddddddd,d", "ddd.d.d"};
    const char* q = shapes[vk_param("S")]; for (n = 0; q[n]; ++n) { if (q[n] == '*') vk_sym(b + n, sizeof(C), "any"); else if (q[n] == 'd') { unsigned char c = vk_u8("d"); vk_assume((c >= '0') & (c <= '9')); b[n] = (C)c; } else b[n] = q[n] == ',' ? e.p.ts : q[n] == '.' ? e.p.dp : (C)q[n]; }
  } else vk_sym(b, n * sizeof(C), "in");
  if (K == 16) {
    static const C* fs[] = {LIT("{}"), LIT("{:}"), LIT(" {}"), LIT("{}{}")}; unsigned q = (unsigned)vk_param("S"); SV f(fs[q]);
    auto chk = [&](auto& r, auto get) { vk_obs(r.has_value()); vk_assert(r.has_value(), "a custom scanner that reads nothing succeeds"); if (r) { Sees z = get(r); vk_assert(z.dp == e.p.dp && z.ts == e.p.ts, "a custom scanner sees the locale given to the scan"); vk_cover("ok"); } };
    auto run = [&](auto src) {
      if (q == 3) { auto r = scn::scan<Sees, Sees>(e.loc(), src, scn::runtime_format(f)); chk(r, [](auto& r) { return std::get<1>(r->values()); }); }
      else { auto r = scn::scan<Sees>(e.loc(), src, scn::runtime_format(f)); chk(r, [](auto& r) { return r->value(); }); }
    };
    if (R) run(Fwd<C>{b, n}); else run(SV(b, n));
    return;
  }
  switch (K) {
    case 11: return integer<int>(e, b, n, LIT("{:L}"), 10, R);
    case 12: return integer<long long>(e, b, n, LIT("{:Ld}"), 10, R);
    case 13: return flt<double>(e, b, n, LIT("{:L}"), 2, 1, R);
    case 14: return flt<float>(e, b, n, LIT("{:Lf}"), 3, 0, R);
    case 15: return integer<short>(e, b, n, LIT("{:L}"), 10, R);
    case 0: return integer<int>(e, b, n, LIT("{:L}"), 10, R);
    case 1: return integer<long long>(e, b, n, LIT("{:Lx}"), 16, R);
    case 2: return flt<double>(e, b, n, LIT("{:L}"), 2, 1, R);
    case 3: return flt<float>(e, b, n, LIT("{:Lf}"), 3, 0, R);
    case 4: return flt<double>(e, b, n, LIT("{:Le}"), 4, 1, R);
    case 5: return flt<double>(e, b, n, LIT("{:La}"), 5, 1, R);
    case 6: return boolean(e, b, n, LIT("{:L}"), true, true, R);
    case 7: return boolean(e, b, n, LIT("{:Ls}"), false, true, R);
    case 8: return boolean(e, b, n, LIT("{:Li}"), true, false, R);
    case 9: {   // the locale reaches every field: the two fields in one scan equal the fields one after another
      SV in(b, n); auto r = scn::scan<int, double>(e.loc(), in, scn::runtime_format(SV(LIT("{:L} {:L}")))); vk_obs(r.has_value());
      auto a = scn::scan<int>(e.loc(), in, scn::runtime_format(SV(LIT("{:L} "))));
      if (!a) { vk_assert(!r && r.error().code() == a.error().code(), "the first field fails alike"); vk_cover("error"); return; }
      SV rest(&*in.begin() + (a->begin() - in.begin()), (size_t)(in.end() - a->begin())); auto c = scn::scan<double>(e.loc(), rest, scn::runtime_format(SV(LIT("{:L}"))));
      vk_assert(r.has_value() == c.has_value(), "the second field is read alike"); if (!r) { vk_assert(r.error().code() == c.error().code(), "the second field fails alike"); return; }
      vk_assert(std::get<0>(r->values()) == a->value() && (in.end() - r->begin()) == (rest.end() - c->begin()), "both fields follow the locale"); vk_cover("ok"); return; }
    case 10: {  // without L a locale changes nothing
      double v{}, w{}; Res x = scan1<double>(e, b, n, LIT("{:g}"), R, v); SV in(b, n); auto r = scn::scan<double>(in, scn::runtime_format(SV(LIT("{:g}"))));
      int i1{}; Res y = scan1<int>(e, b, n, LIT("{}"), R, i1); auto s = scn::scan<int>(in, scn::runtime_format(SV(LIT("{}"))));
      vk_assert(x.ok == r.has_value() && y.ok == s.has_value(), "without L the locale has no effect");
      if (x.ok && r) vk_assert(x.used == (size_t)(r->begin() - in.begin()), "without L the locale has no effect"); if (y.ok && s) { vk_assert(y.used == (size_t)(s->begin() - in.begin()) && i1 == s->value(), "without L the locale has no effect"); vk_cover("ok"); }
      else vk_cover("error");
      double u{}; Res z = scan1<double>(e, b, n, LIT("{}"), R, u); auto g = scn::scan<double>(in, scn::runtime_format(SV(LIT("{}")))); vk_assert(z.ok == g.has_value() && (!g || z.used == (size_t)(g->begin() - in.begin())), "without L the locale has no effect");
      bool o{}; Res k = scan1<bool>(e, b, n, LIT("{}"), R, o); auto h = scn::scan<bool>(in, scn::runtime_format(SV(LIT("{}")))); vk_assert(k.ok == h.has_value() && (!h || (o == h->value() && k.used == (size_t)(h->begin() - in.begin()))), "without L the locale has no effect");
      return; }
  }
}
