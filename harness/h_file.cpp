// FILE sources against a contiguous string: values, error codes, and what the stream delivers afterwards.
// The stream delivers its text in chunks cut at arbitrary places (every cut set is explored; with no text, also a stream that cannot be read); a failed scan must leave all of it.
// params: K first case, K2 second case scanned from the same stream (99: none), N max length, B 1: the text is preceded by a byte taken with getc
// E entry point: 0 scan(FILE*), 1 input, 2 prompt, 3 scan_value, 4 scan with a locale, 5 scan with initial values, 6 scan_value with an initial value
#include <scn/scan.h>
#include <cstdio>
#include <locale>
#include <tuple>
#include "ref.h"
#include "cases.h"
static const char* src; static size_t srcn, srcpos; static unsigned cuts; static long locks; static bool unreadable;
static size_t chunk(char* out) {   // next chunk of the text, empty at the end
  if (srcpos == srcn) return 0;
  size_t k = 0; do { out[k++] = src[srcpos++]; } while (srcpos < srcn && !((cuts >> (srcpos - 1)) & 1));
  return k;
}
extern "C" {
void flockfile(FILE*) noexcept { ++locks; }
void funlockfile(FILE*) noexcept { --locks; }
}
#ifdef VK_SYMBOLIC
// The part of the GNU stream contract the library uses: __uflow refills an exhausted get area, ungetc always succeeds.
#include <cstdlib>
static FILE theFile;
static char area[8][24]; static int areas;
extern "C" int __uflow(FILE* f) {
  vk_assert(f->_IO_read_ptr == f->_IO_read_end, "the stream is refilled only when its buffer is exhausted");
  if (unreadable) return -1;
  char* b = area[0]; size_t k = chunk(b);
  f->_IO_read_base = f->_IO_read_ptr = b; f->_IO_read_end = b + k;
  if (!k) return -1;
  return (unsigned char)*f->_IO_read_ptr++;
}
extern "C" int ungetc(int c, FILE* f) {
  if (f->_IO_read_ptr > f->_IO_read_base && (unsigned char)f->_IO_read_ptr[-1] == (unsigned char)c) { --f->_IO_read_ptr; return c; }
  size_t rest = (size_t)(f->_IO_read_end - f->_IO_read_ptr);
  char* nb = area[1 + (areas++ & 1)]; 
  char tmp[24]; tmp[0] = (char)c; for (size_t i = 0; i < rest; ++i) tmp[i + 1] = f->_IO_read_ptr[i];
  for (size_t i = 0; i <= rest; ++i) nb[i] = tmp[i];
  f->_IO_read_base = f->_IO_read_ptr = nb; f->_IO_read_end = nb + rest + 1;
  return (unsigned char)c;
}
FILE* stdin; FILE* stdout; static unsigned said;
extern "C" int printf(const char* f, ...) { said = said * 8 + 1; return 1; }
extern "C" int fflush(FILE*) { said = said * 8 + 2; return 0; }
extern "C" void vk_loc_copy(void** a, void* const* b) __asm__("_ZNSt6localeC1ERKS_"); extern "C" void vk_loc_copy(void** a, void* const* b) { *a = *b; }
extern "C" void vk_loc_del(void** a) __asm__("_ZNSt6localeD1Ev"); extern "C" void vk_loc_del(void**) {}
static void* g_loc = &theFile; static const std::locale& classic() { return *(const std::locale*)(const void*)&g_loc; }
static FILE* open_stream() { memset(&theFile, 0, sizeof theFile); return &theFile; }
static int get1(FILE* f) { if (f->_IO_read_ptr < f->_IO_read_end) return (unsigned char)*f->_IO_read_ptr++; return __uflow(f); }
static void close_stream(FILE*) {}
#else
static const std::locale& classic() { return std::locale::classic(); }
static ssize_t rd(void*, char* b, size_t) { return (ssize_t)chunk(b); }
static FILE* open_stream() { cookie_io_functions_t io{}; io.read = rd; return fopencookie(nullptr, unreadable ? "w" : "r", io); }
static int get1(FILE* f) { return getc_unlocked(f); }
static void close_stream(FILE* f) { fclose(f); }
#endif
struct Pair { int a; std::string b; };   // scanned through a nested scan; cases 40 (alone) and 41 (between characters)
static size_t peek;
template <> struct scn::scanner<Pair, char> {
  template <class P> constexpr auto parse(P& p) -> typename P::iterator { return p.begin(); }
  template <class X> auto scan(Pair& v, X& ctx) const -> scn::scan_expected<typename X::iterator> {
    { auto q = ctx.begin(); for (size_t i = 0; i < peek && q != ctx.end(); ++i) ++q; }
    auto r = scn::scan<int, std::string>(ctx.range(), "{}:{}");
    if (!r) return scn::unexpected(r.error());
    v.a = std::get<0>(r->values()); v.b = std::get<1>(r->values());
    return r->begin();
  }
};
static size_t step_nested(FILE* f, unsigned K, const char* p, size_t n, size_t pos) {
  peek = vk_choice(3, "peek");
  std::string_view sv(p + pos, n - pos); size_t next = pos;
  auto fin = [&](auto& a, auto& b, auto eq) {
    vk_obs(b.has_value());
    vk_assert(locks == 0, "the stream is left unlocked");
    vk_assert(a.has_value() == b.has_value(), "a nested scan from a stream agrees with the flat scan on success");
    if (!a) { vk_assert(a.error().code() == b.error().code(), "a nested scan from a stream agrees with the flat scan on the error"); vk_cover("error"); return; }
    vk_assert(eq(), "a nested scan from a stream gives the same values");
    next = pos + (size_t)(a->begin() - sv.begin()); vk_cover("ok");
  };
  if (K == 40) { auto a = scn::scan<int, std::string>(sv, "{}:{}"); auto b = scn::scan<Pair>(f, "{}");
    fin(a, b, [&] { return (std::get<0>(a->values()) == b->value().a) & vk_eq(std::get<1>(a->values()), b->value().b); }); }
  else { auto a = scn::scan<char, int, std::string, char>(sv, "{}{}:{}{}"); auto b = scn::scan<char, Pair, char>(f, "{}{}{}");
    fin(a, b, [&] { auto& [x, i, s, y] = a->values(); auto& [u, q, v] = b->values(); return (x == u) & (i == q.a) & vk_eq(s, q.b) & (y == v); }); }
  return next;
}
static unsigned EP;
template <class T> T init() { if constexpr (std::is_same_v<T, std::string>) return T(3, 'q'); else if constexpr (std::is_same_v<T, std::wstring>) return T(3, L'q'); else if constexpr (std::is_pointer_v<T>) return (T)(uintptr_t)77; else return (T)1; }
template <class... Ts> static auto scan_from(FILE* f, std::string_view fs) {
  if constexpr (sizeof...(Ts) == 1) { if (EP == 3) return scn::scan_value<Ts...>(f); if (EP == 6) return scn::scan_value<Ts...>(f, init<Ts>()...); }
  if constexpr (sizeof...(Ts) > 0) {
  if (EP == 1) { stdin = f; return scn::input<Ts...>(scn::runtime_format(fs)); }
  if (EP == 2) { stdin = f; return scn::prompt<Ts...>("?\n", scn::runtime_format(fs)); }
  if (EP == 4) return scn::scan<Ts...>(classic(), f, scn::runtime_format(fs));
  if (EP == 5) return scn::scan<Ts...>(f, scn::runtime_format(fs), std::tuple<Ts...>{init<Ts>()...});
  }
  return scn::scan<Ts...>(f, scn::runtime_format(fs));
}
// scan one case from the stream; `pos` is where the stream stands in the text
static size_t step(FILE* f, unsigned K, const char* p, size_t n, size_t pos) {
  if (K >= 40 && K < 50) return step_nested(f, K, p, n, pos);
  size_t next = pos;
  with_case<char>(K, [&](auto t, std::string_view fs) { [&]<class... Ts>(types<Ts...>) {
    std::string_view sv(p + pos, n - pos);
    auto a = scn::scan<Ts...>(sv, scn::runtime_format(fs));
    auto b = scan_from<Ts...>(f, fs); if (b) vk_assert(b->file() == f, "the result names the stream");
    vk_obs(b.has_value());
    vk_assert(locks == 0, "the stream is left unlocked");
    vk_assert(a.has_value() == b.has_value(), "a stream and a string agree on success");
    if (!a) { vk_assert(a.error().code() == b.error().code(), "a stream and a string agree on the error"); vk_cover("error"); return; }
    vk_assert(vk_eqt(a->values(), b->values(), std::index_sequence_for<Ts...>{}), "a stream and a string give the same values");
    next = pos + (size_t)(a->begin() - sv.begin()); vk_cover("ok");
  }(t); });
  return next;
}
extern "C" void vk_main() {
  unsigned K = (unsigned)vk_param("K"), K2 = (unsigned)vk_param("K2"); size_t N = vk_param("N"); bool B = vk_param("B"); EP = (unsigned)vk_param("E");
  size_t n = vk_choice(N + 1, "len"); char buf[24]; vk_sym(buf, n, "in");
  cuts = n > 1 ? (unsigned)vk_choice((uint64_t)1 << (n - 1), "cuts") : 0;
  unreadable = n == 0 && vk_choice(2, "unreadable");
  src = buf; srcn = n; srcpos = 0; locks = 0;
  FILE* f = open_stream();
  size_t pos = 0;
  if (B) { int c = get1(f); if (n) { vk_assert(c == (unsigned char)buf[0], "getc"); pos = 1; } }
  pos = step(f, K, buf, n, pos);
  if (K2 != 99) pos = step(f, K2, buf, n, pos);
  bool eq = true; size_t i = pos;
  for (;; ++i) { int c = get1(f); if (c == -1) break; if (i >= n) { eq = false; break; } eq = eq & (c == (unsigned char)buf[i]); }
  vk_assert(i == n, "the stream stands right after the consumed text");
  vk_assert(eq, "the stream delivers exactly the unread text");
  vk_obs(pos);
  close_stream(f);
}
