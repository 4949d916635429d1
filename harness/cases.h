// A table of (format, argument types) used by the harnesses that compare two ways of scanning the same text.
#pragma once
#include <string>
template <class... Ts> struct types {};
#define VK_FS(s) [] { if constexpr (sizeof(C) == 1) return std::basic_string_view<C>(s); else return std::basic_string_view<C>(L##s); }()
template <class C, class F> void with_case(unsigned K, F f) {
  using S = std::basic_string<C>; using O = std::conditional_t<sizeof(C) == 1, std::wstring, std::string>;
  switch (K) {
    case 0: return f(types<int>{}, VK_FS("{}"));
    case 1: return f(types<S>{}, VK_FS("{}"));
    case 2: return f(types<C, int>{}, VK_FS("{}{}"));
    case 3: return f(types<int, unsigned char>{}, VK_FS("{} {}"));
    case 4: return f(types<S>{}, VK_FS("{:[a-c]}"));
    case 5: return f(types<bool>{}, VK_FS("{}"));
    case 6: return f(types<char32_t>{}, VK_FS("{}"));
    case 7: return f(types<unsigned short>{}, VK_FS("{:x}"));
    case 8: return f(types<long>{}, VK_FS("{:i}"));
    case 9: return f(types<S>{}, VK_FS("{:.3}"));
    case 10: return f(types<int>{}, VK_FS("ab{}"));
    case 11: return f(types<void*>{}, VK_FS("{}"));
    case 12: return f(types<int>{}, VK_FS("{:3}"));
    case 13: return f(types<O>{}, VK_FS("{}"));
    case 14: return f(types<int>{}, VK_FS("{:*>3}"));
    case 15: return f(types<S, S>{}, VK_FS("{}{}"));
    case 16: return f(types<S>{}, VK_FS("{:[^a-c]}"));
    case 17: return f(types<S, C>{}, VK_FS("{}{}"));
    case 18: return f(types<C>{}, VK_FS("a {}b"));
    case 19: return f(types<S>{}, VK_FS("{:*<3}"));
    case 20: return f(types<S>{}, VK_FS("{:.3c}"));
    case 21: return f(types<int, S>{}, VK_FS("{:.2}{}"));
    case 22: return f(types<bool, C>{}, VK_FS("{}x{}"));
    case 23: return f(types<S>{}, VK_FS("{:*^.4}"));
    case 24: return f(types<S, C>{}, VK_FS("{:[a-c]}{}"));
    case 25: return f(types<wchar_t>{}, VK_FS("{}"));
    case 26: return f(types<C>{}, VK_FS("{}"));
    case 27: return f(types<unsigned>{}, VK_FS("{:b}"));
    case 28: return f(types<int, S>{}, VK_FS("{1} {0}"));
    case 29: return f(types<int>{}, VK_FS("{:*>.4}"));
    case 30: return f(types<>{}, VK_FS(""));
    case 31: return f(types<>{}, VK_FS("a"));
    case 32: return f(types<>{}, VK_FS(" "));
    case 33: return f(types<double>{}, VK_FS("{}"));
    case 34: return f(types<float, C>{}, VK_FS("{:f}{}"));
    case 35: return f(types<double, S>{}, VK_FS("{:.3}{}"));
    case 36: return f(types<double, S>{}, VK_FS("{:a}{}"));
  }
}
constexpr unsigned NCASES = 37;
template <class T> static bool vk_eq(const T& a, const T& b) { return a == b; }
static bool vk_eq(const double& a, const double& b) { return a == b || (a != a && b != b); }
static bool vk_eq(const float& a, const float& b) { return a == b || (a != a && b != b); }
static bool vk_eq(const long double& a, const long double& b) { return a == b || (a != a && b != b); }
template <class C> static bool vk_eq(const std::basic_string<C>& a, const std::basic_string<C>& b) { if (a.size() != b.size()) return false; bool e = true; for (size_t i = 0; i < a.size(); ++i) e = e & (a[i] == b[i]); return e; }
template <class Tup, size_t... I> static bool vk_eqt(const Tup& a, const Tup& b, std::index_sequence<I...>) { bool e = true; ((e = e & vk_eq(std::get<I>(a), std::get<I>(b))), ...); return e; }
