// Intrinsics shared by the symbolic executor and the native replay build.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void vk_sym(void* p, size_t n, const char* name);   // n fresh symbolic bytes
uint8_t vk_u8(const char* name);                    // one symbolic byte
uint64_t vk_choice(uint64_t n, const char* name);   // nondeterministic 0..n-1, one path per value
void vk_assume(bool c);
void vk_assert_(bool c, const char* label);
void vk_cover(const char* label);                   // reachability witness
void vk_obs(uint64_t v);                            // value compared between symbolic and native runs
uint64_t vk_param(const char* name);                // bound given by the runner
[[noreturn]] void vk_fail(const char* label);
uint64_t vk_concrete(uint64_t v);                   // fork over all values of v
bool vk_is_symbolic(uint64_t v);
void vk_print(const char* label, uint64_t v);
void vk_leak_ok();
void vk_main();
}
#define vk_assert(c, label) vk_assert_(!!(c), label)
