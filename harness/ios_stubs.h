// The parts of the iostreams that are neither templates nor inline: ios_base's constructor and initial state, and std::locale with the one facet (character classes) the stream classes use.
#pragma once
struct FakeImpl { int ref; const void** facets; size_t n; const void** caches; char** names; };
struct FakeCtype { const void* vptr; int ref; void* cloc; bool del; const int *up, *low; const unsigned short* table; char widen_ok, widen[256], narrow[256], narrow_ok; };
struct FakeIos { const void* vptr; long precision, width; int flags, exception, state; void* callbacks; void* word0[2]; void* local[16]; int word_size; void* word; FakeImpl* loc; };
static unsigned short g_table[256]; static FakeCtype g_ctype; static const void *g_facets[6], *g_caches[6]; static FakeImpl g_impl{1, g_facets, 6, g_caches, nullptr};
#ifdef VK_REGEX
static char ct_low(const void*, char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static char ct_up(const void*, char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static const char* ct_lows(const void*, char* a, const char* b) { for (; a < b; ++a) *a = ct_low(nullptr, *a); return b; }
static const char* ct_ups(const void*, char* a, const char* b) { for (; a < b; ++a) *a = ct_up(nullptr, *a); return b; }
static char ct_widen(const void*, char c) { return c; }
static char ct_narrow(const void*, char c, char) { return c; }
static void ct_none() {}
static const void* g_ctype_vt[] = {(void*)&ct_none, (void*)&ct_none, (void*)&ct_up, (void*)&ct_ups, (void*)&ct_low, (void*)&ct_lows, (void*)&ct_widen, (void*)&ct_none, (void*)&ct_narrow, (void*)&ct_none};
struct Coll : std::collate<char> { Coll() : std::collate<char>(1) {} ~Coll() {} std::string do_transform(const char* a, const char* b) const override { return std::string(a, b); } };
#endif
static void ios_setup() { for (int c : {' ', '\t', '\n', '\v', '\f', '\r'}) g_table[c] |= std::ctype_base::space; g_ctype.table = g_table; g_facets[1] = &g_ctype;
#ifdef VK_REGEX
  using B = std::ctype_base;
  for (int c = 0; c < 128; ++c) { bool lo = c >= 'a' && c <= 'z', up = c >= 'A' && c <= 'Z', d = c >= '0' && c <= '9', g = c > 32 && c < 127; unsigned short m = g_table[c]; if (lo) m |= B::lower; if (up) m |= B::upper; if (lo || up) m |= B::alpha; if (d) m |= B::digit; if (d || (c | 32) >= 'a' && (c | 32) <= 'f') m |= B::xdigit; if (g || c == ' ') m |= B::print; if (g && !lo && !up && !d) m |= B::punct; if (c == ' ' || c == '\t') m |= B::blank; if (c < 32 || c == 127) m |= B::cntrl; g_table[c] = m; }
  g_ctype.vptr = g_ctype_vt; g_ctype.widen_ok = 1; g_ctype.narrow_ok = 1; for (int c = 0; c < 256; ++c) g_ctype.widen[c] = g_ctype.narrow[c] = (char)c;
  alignas(16) static char clm[sizeof(Coll)]; g_facets[4] = static_cast<const std::locale::facet*>(new (clm) Coll);
#endif
  struct Ng : std::num_get<C> { Ng() : std::num_get<C>(1) {} ~Ng() {} }; alignas(16) static char ngm[sizeof(Ng)], npm[sizeof(std::__numpunct_cache<C>)]; Ng& ng = *new (ngm) Ng; auto& np = *new (npm) std::__numpunct_cache<C>(1); np._M_allocated = false; np._M_grouping = ""; np._M_grouping_size = 0; np._M_use_grouping = false; np._M_decimal_point = C('.'); np._M_thousands_sep = C(',');
  for (int i = 0; i < std::__num_base::_S_iend; ++i) np._M_atoms_in[i] = (C)"-+xX0123456789abcdefABCDEF"[i];
  g_facets[2] = static_cast<const std::locale::facet*>(&ng); g_caches[3] = static_cast<const std::locale::facet*>(&np); }
extern "C" {
void* vk_c_loc() __asm__("_ZNSt6locale5facet15_S_get_c_localeEv"); void* vk_c_loc() { static int x; return &x; }
void vk_c_loc_d(void*) __asm__("_ZNSt6locale5facet19_S_destroy_c_localeERP15__locale_struct"); void vk_c_loc_d(void*) {}
size_t vk_loc_id(const void*) __asm__("_ZNKSt6locale2id5_M_idEv"); size_t vk_loc_id(const void* p) { return p == &std::ctype<C>::id ? 1 : p == &std::num_get<C>::id ? 2 : p == &std::numpunct<C>::id ? 3 : p == &std::collate<C>::id ? 4 : 5; }
void vk_loc_copy(FakeImpl** a, FakeImpl* const* b) __asm__("_ZNSt6localeC1ERKS_"); void vk_loc_copy(FakeImpl** a, FakeImpl* const* b) { *a = *b; }
void vk_loc_def(FakeImpl** a) __asm__("_ZNSt6localeC1Ev"); void vk_loc_def(FakeImpl** a) { *a = &g_impl; }
void vk_loc_del(FakeImpl** a) __asm__("_ZNSt6localeD1Ev"); void vk_loc_del(FakeImpl** a) { }
void* vk_loc_set(FakeImpl** a, FakeImpl* const* b) __asm__("_ZNSt6localeaSERKS_"); void* vk_loc_set(FakeImpl** a, FakeImpl* const* b) { *a = *b; return a; }
void* vk_dyn(void* p, const void*, const void*, ptrdiff_t) __asm__("__dynamic_cast"); void* vk_dyn(void* p, const void*, const void*, ptrdiff_t) { return p; }
void vk_facet_d(void*) __asm__("_ZNSt6locale5facetD2Ev"); void vk_facet_d(void*) {}
void vk_ios_ctor(FakeIos* p) __asm__("_ZNSt8ios_baseC2Ev"); void vk_ios_ctor(FakeIos* p) { p->callbacks = nullptr; p->word = nullptr; p->word_size = 0; p->exception = p->state = 0; p->loc = &g_impl; }
void vk_ios_dtor(FakeIos* p) __asm__("_ZNSt8ios_baseD2Ev"); void vk_ios_dtor(FakeIos* p) {}
void vk_ios_init(FakeIos* p) __asm__("_ZNSt8ios_base7_M_initEv"); void vk_ios_init(FakeIos* p) { p->precision = 6; p->width = 0; p->flags = std::ios_base::skipws | std::ios_base::dec; p->loc = &g_impl; }
}
