// Native counterpart of the intrinsics: symbolic bytes are read from a hex string (argv[1]),
// parameters from argv[2..] as name=value.  Exit codes: 0 ok, 10 assertion failed, 11 assumption failed.
#include "vk.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
static std::vector<uint8_t> bytes; static size_t pos; static std::map<std::string, uint64_t> params;
static std::string obs;
extern "C" {
static uint8_t next() { if (pos >= bytes.size()) { pos++; return 0; } return bytes[pos++]; }
void vk_sym(void* p, size_t n, const char*) { for (size_t i = 0; i < n; i++) ((uint8_t*)p)[i] = next(); }
uint8_t vk_u8(const char*) { return next(); }
uint64_t vk_choice(uint64_t n, const char*) { uint64_t v = next(); if (v >= n) { fprintf(stderr, "bad choice\n"); _Exit(11); } return v; }
void vk_assume(bool c) { if (!c) { fprintf(stderr, "assumption failed\n"); fflush(nullptr); _Exit(11); } }
void vk_assert_(bool c, const char* l) { if (!c) { printf("ASSERT-FAILED %s\n", l); fflush(nullptr); _Exit(10); } }
void vk_fail(const char* l) { printf("ASSERT-FAILED %s\n", l); fflush(nullptr); _Exit(10); }
void vk_cover(const char*) {}
void vk_obs(uint64_t v) { char b[32]; snprintf(b, 32, "%s%llx", obs.empty() ? "" : ",", (unsigned long long)v); obs += b; }
uint64_t vk_param(const char* n) { auto it = params.find(n); if (it == params.end()) { fprintf(stderr, "missing param %s\n", n); _Exit(12); } return it->second; }
uint64_t vk_concrete(uint64_t v) { return v; }
bool vk_is_symbolic(uint64_t) { return false; }
void vk_print(const char* l, uint64_t v) { fprintf(stderr, "print %s %llu\n", l, (unsigned long long)v); }
void vk_leak_ok() {}
}
static int run1(const char* h) {
  bytes.clear(); pos = 0; obs.clear();
  if (strcmp(h, "-")) for (const char* p = h; p[0] && p[1]; p += 2) { char b[3] = {p[0], p[1], 0}; bytes.push_back((uint8_t)strtoul(b, nullptr, 16)); }
  vk_main();
  printf("OBS %s\n", obs.c_str()); fflush(stdout);
  return 0;
}
int main(int argc, char** argv) {
  if (argc < 2) return 2;
  for (int i = 2; i < argc; i++) { std::string a = argv[i]; size_t q = a.find('='); if (q != std::string::npos) params[a.substr(0, q)] = strtoull(a.c_str() + q + 1, nullptr, 0); }
  if (argv[1][0] == '@') {  // batch: one hex string per line
    FILE* f = fopen(argv[1] + 1, "r"); if (!f) return 2;
    static char line[4096];
    while (fgets(line, sizeof line, f)) { line[strcspn(line, "\n")] = 0; if (line[0]) run1(line); }
    fclose(f); return 0;
  }
  return run1(argv[1]);
}
