// The same text and format, narrow and wide.  params: K case, N max code points, M how many may be non-ASCII
#include <scn/scan.h>
#include <scn/xchar.h>
#include "text.h"
#include "cases.h"
template <class T> struct W_ { using type = T; };
template <> struct W_<char> { using type = wchar_t; };
template <> struct W_<std::string> { using type = std::wstring; };
template <> struct W_<std::wstring> { using type = std::string; };
static std::wstring widen(const std::string& s, bool* ok) { std::wstring r; size_t i = 0; while (i < s.size()) { auto d = ref::decode(s.data() + i, s.size() - i); if (!d.ok) { *ok = false; return r; } r.push_back((wchar_t)d.cp); i += d.len; } return r; }
template <class T> static bool eqw(const T& a, const T& b) { return vk_eq(a, b); }
static bool eqw(char a, wchar_t b) { return (unsigned char)a == (unsigned)b; }
static bool eqw(const std::string& a, const std::wstring& b) { bool ok = true; auto w = widen(a, &ok); return ok && vk_eq(w, b); }
static bool eqw(const std::wstring& a, const std::string& b) { return eqw(b, a); }
template <class A, class B, size_t... I> static bool eqt(const A& a, const B& b, std::index_sequence<I...>) { bool e = true; ((e = e & eqw(std::get<I>(a), std::get<I>(b))), ...); return e; }
extern "C" void vk_main() {
  unsigned K = (unsigned)vk_param("K"); Text t; make_text(t, vk_param("N"), (unsigned)vk_param("M"));
  with_case<char>(K, [&](auto ty, std::string_view fs) { [&]<class... Ts>(types<Ts...>) {
    wchar_t wf[32]; for (size_t i = 0; i < fs.size(); ++i) wf[i] = (wchar_t)fs[i];
    std::string_view n(t.n, t.nn); std::wstring_view w(t.w, t.nw);
    auto a = scn::scan<Ts...>(n, scn::runtime_format(fs));
    auto b = scn::scan<typename W_<Ts>::type...>(w, scn::runtime_format(std::wstring_view(wf, fs.size())));
    vk_obs(a.has_value()); vk_obs(b.has_value());
    vk_assert(a.has_value() == b.has_value(), "narrow and wide text succeed alike");
    if (!a) { vk_obs((uint64_t)a.error().code()); vk_assert(a.error().code() == b.error().code(), "narrow and wide text fail with the same error"); vk_cover("error"); return; }
    size_t ua = t.index((size_t)(a->begin() - n.begin())), ub = (size_t)(b->begin() - w.begin()); vk_obs(ub);
    vk_assert(ua == ub, "narrow and wide text consume the same code points");
    vk_assert(eqt(a->values(), b->values(), std::index_sequence_for<Ts...>{}), "narrow and wide text give the same values"); vk_cover("ok");
  }(ty); });
}
