// Environment models linked into the symbolic build only (the native replay uses the real libc).
// Each is the documented contract of the libc function; everything else is the repository's own code.
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <cwchar>
#include <cctype>
#include <cerrno>
#include <ctime>
#include "vk.h"
#include "civil.h"
extern "C" {
size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
size_t wcslen(const wchar_t* s) { size_t n = 0; while (s[n]) ++n; return n; }
#undef memchr
void* vk_memchr(const void* p, int c, size_t n) __asm__("memchr");
void* vk_memchr(const void* p, int c, size_t n) { auto q = (const unsigned char*)p; for (size_t i = 0; i < n; ++i) if (q[i] == (unsigned char)c) return (void*)(q + i); return nullptr; }
wchar_t* vk_wmemchr(const wchar_t* p, wchar_t c, size_t n) __asm__("wmemchr");
wchar_t* vk_wmemchr(const wchar_t* p, wchar_t c, size_t n) { for (size_t i = 0; i < n; ++i) if (p[i] == c) return (wchar_t*)(p + i); return nullptr; }
int wmemcmp(const wchar_t* a, const wchar_t* b, size_t n) noexcept { for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
wchar_t* wmemcpy(wchar_t* d, const wchar_t* s, size_t n) noexcept { return (wchar_t*)memcpy(d, s, n * sizeof(wchar_t)); }
wchar_t* wmemmove(wchar_t* d, const wchar_t* s, size_t n) noexcept { return (wchar_t*)memmove(d, s, n * sizeof(wchar_t)); }
wchar_t* wmemset(wchar_t* d, wchar_t c, size_t n) noexcept { for (size_t i = 0; i < n; ++i) d[i] = c; return d; }
int strcmp(const char* a, const char* b) noexcept { while (*a && *a == *b) { ++a; ++b; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
char* strcpy(char* d, const char* s) noexcept { size_t i = 0; for (; s[i]; ++i) d[i] = s[i]; d[i] = 0; return d; }
char* vk_strchr(const char* s, int c) __asm__("strchr");
char* vk_strchr(const char* s, int c) { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
int strncmp(const char* a, const char* b, size_t n) noexcept { for (size_t i = 0; i < n; ++i) { if (a[i] != b[i] || !a[i]) return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; } return 0; }
size_t strnlen(const char* s, size_t n) noexcept { size_t i = 0; while (i < n && s[i]) ++i; return i; }
int wcscmp(const wchar_t* a, const wchar_t* b) noexcept { while (*a && *a == *b) { ++a; ++b; } return *a < *b ? -1 : *a > *b; }
// character classes of the "C" locale (not called by the library at present)
int isdigit(int c) noexcept { return c >= '0' && c <= '9'; }
int isupper(int c) noexcept { return c >= 'A' && c <= 'Z'; }
int islower(int c) noexcept { return c >= 'a' && c <= 'z'; }
int isalpha(int c) noexcept { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
int isalnum(int c) noexcept { return isalpha(c) || isdigit(c); }
int isxdigit(int c) noexcept { return isdigit(c) || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'); }
int isspace(int c) noexcept { return c == ' ' || (c >= 9 && c <= 13); }
int isprint(int c) noexcept { return c >= 0x20 && c < 0x7f; }
int ispunct(int c) noexcept { return c > 0x20 && c < 0x7f && !isalnum(c); }
int iscntrl(int c) noexcept { return (c >= 0 && c < 0x20) || c == 0x7f; }
int tolower(int c) noexcept { return isupper(c) ? c + 32 : c; }
int toupper(int c) noexcept { return islower(c) ? c - 32 : c; }
// mktime with the timezone UTC; the fields scanned from text are never far out of range
time_t mktime(struct tm* t) noexcept { return (time_t)vk_civil(t->tm_year + 1900, t->tm_mon + 1, t->tm_mday) * 86400 + t->tm_hour * 3600 + t->tm_min * 60 + t->tm_sec; }
char* setlocale(int, const char* n) noexcept { static char c[] = "C"; return c; }
}
// The standard library's tree rebalancing is external; a plain binary search tree has the same observable behaviour.
struct vk_node { int color; vk_node *parent, *left, *right; };
extern "C" {
void vk_rb_ins(bool left, vk_node* x, vk_node* p, vk_node& h) __asm__("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
void vk_rb_ins(bool left, vk_node* x, vk_node* p, vk_node& h) {
  x->parent = p; x->left = x->right = nullptr; x->color = 1;
  if (left) { p->left = x; if (p == &h) { h.parent = x; h.right = x; } else if (p == h.left) h.left = x; }
  else { p->right = x; if (p == h.right) h.right = x; }
}
const vk_node* vk_rb_inc(const vk_node* x) __asm__("_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base");
const vk_node* vk_rb_inc(const vk_node* x) {
  if (x->right) { x = x->right; while (x->left) x = x->left; return x; }
  const vk_node* y = x->parent; while (x == y->right) { x = y; y = y->parent; }
  return x->right != y ? y : x;
}
const vk_node* vk_rb_dec(const vk_node* x) __asm__("_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base");
const vk_node* vk_rb_dec(const vk_node* x) {
  if (x->color == 0 && x->parent->parent == x) return x->right;   // the header (the only red node)
  if (x->left) { x = x->left; while (x->right) x = x->right; return x; }
  const vk_node* y = x->parent; while (x == y->left) { x = y; y = y->parent; }
  return y;
}
vk_node* vk_rb_inc2(vk_node* x) __asm__("_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base"); vk_node* vk_rb_inc2(vk_node* x) { return (vk_node*)vk_rb_inc(x); }
vk_node* vk_rb_dec2(vk_node* x) __asm__("_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base"); vk_node* vk_rb_dec2(vk_node* x) { return (vk_node*)vk_rb_dec(x); }
}
// Floating-point conversion: the text a conversion takes and its range errors follow strtod's contract; the value itself stays abstract
// (zero converts to 0, a decimal 0.xxx to 0.75 unless its 17 first digits are nines: 1, every other number to 1.5), and the text is recorded so that a harness can compare it with the text that should have been converted.
#include "ref_float.h"
#include <locale.h>
extern "C" { unsigned vk_fp_calls; char32_t vk_fp_text[64]; size_t vk_fp_len; int vk_fp_type, vk_fp_hex; }
template <class C> static double vk_absval(const C* s, const ref::FText& t) { if (t.kind != ref::F_DEC || t.exp || t.mant_end - t.beg < 3 || s[t.beg] != C('0') || s[t.beg + 1] != C('.')) return 1.5; if (t.mant_end - t.beg < 19) return 0.75; for (size_t k = 0; k < 17; ++k) if (s[t.beg + 2 + k] != C('9')) return 0.75; return 1; }
template <class T, class C> static T vk_strto(const C* s, C** end, int type) {
  size_t n = 0; while (s[n]) ++n; size_t i = 0; while (i < n && (s[i] == C(' ') || (s[i] >= C(9) && s[i] <= C(13)))) ++i;
  bool neg = false; if (i < n && (s[i] == C('+') || s[i] == C('-'))) { neg = s[i] == C('-'); ++i; }
  ref::FText t = ref::special(s, n, i);
  if (t.kind == ref::F_INF || t.kind == ref::F_NAN) { *end = (C*)s + t.end; T v = t.kind == ref::F_INF ? (T)__builtin_inf() : (T)__builtin_nan(""); return neg ? -v : v; }
  if (ref::nocase(s, n, i, "0x")) t = ref::significand(s, n, i + 2, 16, true);
  if (t.kind == ref::F_NONE) t = ref::significand(s, n, i, 10, true);
  if (t.kind == ref::F_NONE) { *end = (C*)s; return 0; }
  *end = (C*)s + t.end; ++vk_fp_calls; vk_fp_type = type; vk_fp_hex = t.kind == ref::F_HEX; vk_fp_len = t.end - t.beg; for (size_t k = 0; k < vk_fp_len && k < 64; ++k) vk_fp_text[k] = (char32_t)s[t.beg + k];
  T v = (T)vk_absval(s, t); ref::FRange r = ref::frange(s, t, type);
  if (r == ref::R_OVER) { errno = ERANGE; v = (T)__builtin_inf(); } else if (r == ref::R_UNDER) { errno = ERANGE; v = 0; } else if (r == ref::R_ZERO) v = 0; else if (r == ref::R_SUB) errno = ERANGE;   // as glibc does
  return neg ? -v : v;
}
extern "C" {
float vk_strtof(const char* s, char** e) __asm__("strtof"); float vk_strtof(const char* s, char** e) { return vk_strto<float>(s, e, 0); }
double vk_strtod(const char* s, char** e) __asm__("strtod"); double vk_strtod(const char* s, char** e) { return vk_strto<double>(s, e, 1); }
long double vk_strtold(const char* s, char** e) __asm__("strtold"); long double vk_strtold(const char* s, char** e) { return vk_strto<long double>(s, e, 2); }
float vk_wcstof(const wchar_t* s, wchar_t** e) __asm__("wcstof"); float vk_wcstof(const wchar_t* s, wchar_t** e) { return vk_strto<float>(s, e, 0); }
double vk_wcstod(const wchar_t* s, wchar_t** e) __asm__("wcstod"); double vk_wcstod(const wchar_t* s, wchar_t** e) { return vk_strto<double>(s, e, 1); }
long double vk_wcstold(const wchar_t* s, wchar_t** e) __asm__("wcstold"); long double vk_wcstold(const wchar_t* s, wchar_t** e) { return vk_strto<long double>(s, e, 2); }
float vk_strtof_l(const char* s, char** e, void*) __asm__("strtof_l"); float vk_strtof_l(const char* s, char** e, void*) { return vk_strto<float>(s, e, 0); }
double vk_strtod_l(const char* s, char** e, void*) __asm__("strtod_l"); double vk_strtod_l(const char* s, char** e, void*) { return vk_strto<double>(s, e, 1); }
long double vk_strtold_l(const char* s, char** e, void*) __asm__("strtold_l"); long double vk_strtold_l(const char* s, char** e, void*) { return vk_strto<long double>(s, e, 2); }
float vk_wcstof_l(const wchar_t* s, wchar_t** e, void*) __asm__("wcstof_l"); float vk_wcstof_l(const wchar_t* s, wchar_t** e, void*) { return vk_strto<float>(s, e, 0); }
double vk_wcstod_l(const wchar_t* s, wchar_t** e, void*) __asm__("wcstod_l"); double vk_wcstod_l(const wchar_t* s, wchar_t** e, void*) { return vk_strto<double>(s, e, 1); }
long double vk_wcstold_l(const wchar_t* s, wchar_t** e, void*) __asm__("wcstold_l"); long double vk_wcstold_l(const wchar_t* s, wchar_t** e, void*) { return vk_strto<long double>(s, e, 2); }
void* vk_newlocale(int, const char*, void*) __asm__("newlocale"); void* vk_newlocale(int, const char*, void*) { static char loc[8]; return loc; }
}
// std::from_chars for floating point: no whitespace, no '+', no base prefix; 1 scientific, 2 fixed, 4 hex, 3 general
struct vk_fc { const char* ptr; int ec; };
template <class T> static vk_fc vk_from_chars(const char* b, const char* e, T& v, int fmt, int type) {
  size_t n = (size_t)(e - b), i = 0; bool neg = false; if (i < n && b[i] == '-') { neg = true; ++i; }
  ref::FText t = ref::special(b, n, i);
  if (t.kind == ref::F_INF || t.kind == ref::F_NAN) { T x = t.kind == ref::F_INF ? (T)__builtin_inf() : (T)__builtin_nan(""); v = neg ? -x : x; return {b + t.end, 0}; }
  t = ref::significand(b, n, i, fmt == 4 ? 16 : 10, fmt != 2);
  if (t.kind == ref::F_NONE || (fmt == 1 && !t.exp)) return {b, EINVAL};
  ref::FRange r = ref::frange(b, t, type); if (r == ref::R_OVER || r == ref::R_UNDER) return {b + t.end, ERANGE};
  ++vk_fp_calls; vk_fp_type = type; vk_fp_hex = fmt == 4; vk_fp_len = t.end - t.beg; for (size_t k = 0; k < vk_fp_len && k < 64; ++k) vk_fp_text[k] = (char32_t)(unsigned char)b[t.beg + k];
  T x = r == ref::R_ZERO ? (T)0 : (T)vk_absval(b, t); v = neg ? -x : x; return {b + t.end, 0};
}
extern "C" {
vk_fc vk_from_chars_f(const char* b, const char* e, float& v, int f) __asm__("_ZSt10from_charsPKcS0_RfSt12chars_format"); vk_fc vk_from_chars_f(const char* b, const char* e, float& v, int f) { return vk_from_chars(b, e, v, f, 0); }
vk_fc vk_from_chars_d(const char* b, const char* e, double& v, int f) __asm__("_ZSt10from_charsPKcS0_RdSt12chars_format"); vk_fc vk_from_chars_d(const char* b, const char* e, double& v, int f) { return vk_from_chars(b, e, v, f, 1); }
vk_fc vk_from_chars_l(const char* b, const char* e, long double& v, int f) __asm__("_ZSt10from_charsPKcS0_ReSt12chars_format"); vk_fc vk_from_chars_l(const char* b, const char* e, long double& v, int f) { return vk_from_chars(b, e, v, f, 2); }
}
