// Shared by the bounded harnesses: input decoding, failure reporting, fatal-error interception, live-allocation count.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <csetjmp>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <sanitizer/allocator_interface.h>

#define FAIL(...) do { fprintf(stderr, "PROPERTY-FAIL %s:%d: ", __FILE__, __LINE__); fprintf(stderr, __VA_ARGS__); fprintf(stderr, "\n"); abort(); } while (0)
#define CHECK(c, ...) do { if (!(c)) { fprintf(stderr, "PROPERTY-FAIL %s:%d: %s ", __FILE__, __LINE__, #c); fprintf(stderr, " " __VA_ARGS__); fprintf(stderr, "\n"); abort(); } } while (0)

struct In {
  const uint8_t *p, *e;
  In(const uint8_t *d, size_t n) : p(d), e(d + n) {}
  bool more() const { return p < e; }
  size_t left() const { return e - p; }
  uint8_t u8() { return p < e ? *p++ : 0; }
  uint16_t u16() { uint16_t x = u8(); return x | (uint16_t)u8() << 8; }
  uint32_t u32() { uint32_t x = u16(); return x | (uint32_t)u16() << 16; }
  uint64_t u64() { uint64_t x = u32(); return x | (uint64_t)u32() << 32; }
  // 0..n-1
  unsigned pick(unsigned n) { return n <= 1 ? 0 : (n <= 256 ? u8() % n : u16() % n); }
  int range(int lo, int hi) { return lo + (int)pick((unsigned)(hi - lo + 1)); }
  bool coin() { return u8() & 1; }
  uint32_t i32x() { // integers with a bias to boundary values
    static const uint32_t v[] = {0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7ffffffe, 0x7fffffff, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu};
    uint8_t k = u8();
    if (k < 26) return v[k];
    if (k < 140) return u8();
    if (k < 180) return (uint32_t)(int8_t)u8();
    return u32();
  }
  // modest floats: exactly representable small values, fractions, wide magnitudes
  float f32() {
    uint8_t k = u8();
    if (k < 60) return (float)((int)u8() - 128);
    if (k < 120) return ((int)u8() - 128) / 16.0f;
    if (k < 200) return ((int)(u16()) - 32768) / 128.0f;
    if (k < 230) return ((int)(u16()) - 32768) * 1e-4f;
    if (k < 245) return ((int)u8() - 128) * 1000.0f;
    return k & 1 ? 0.0f : 1.0f;
  }
  double f64() { return coin() ? (double)f32() : ((int32_t)u32()) / 65536.0; }
  std::string str(unsigned maxlen, const char *alpha = nullptr) {
    unsigned n = pick(maxlen + 1); std::string s;
    for (unsigned i = 0; i < n; ++i) {
      uint8_t c = u8();
      if (alpha && !(c & 0x80)) c = alpha[c % strlen(alpha)];
      if (c == 0) c = 'a';
      s.push_back((char)c);
    }
    return s;
  }
};

// ---- the library's logging back end is replaced: fatal errors become a C++-visible event
static jmp_buf g_fatal_jmp; static int g_fatal_armed = 0; static long g_fatal_count = 0, g_log_count = 0;
#include "virg/nexus/nx_log.h"
extern "C" {
void nx_log_formatted(enum NXLogLevel, const char *, int, const char *, const char *, ...) { ++g_log_count; }
__attribute__((noreturn)) void nx_log_fatal(const char *func, int line, const char *tag, const char *msg, ...) {
  ++g_fatal_count;
  if (g_fatal_armed) longjmp(g_fatal_jmp, 1);
  fprintf(stderr, "PROPERTY-FAIL unexpected fatal error in %s:%d [%s] %s\n", func, line, tag, msg);
  abort();
}
}
// run a body that may legitimately end in the library's fatal handler; true when it did
#define FATAL_IN(...) ([&]() -> bool { g_fatal_armed = 1; bool died = true; if (setjmp(g_fatal_jmp) == 0) { __VA_ARGS__; died = false; } g_fatal_armed = 0; return died; }())

// ---- live heap blocks allocated by code under test
static long g_live = 0;
static void hook_m(const volatile void *, size_t) { ++g_live; }
static void hook_f(const volatile void *) { --g_live; }
__attribute__((constructor)) static void install_hooks() { __sanitizer_install_malloc_and_free_hooks(hook_m, hook_f); }
struct LiveBlocks { long v0; LiveBlocks() : v0(g_live) {} long now() const { return g_live - v0; } };

static inline bool near_(double a, double b, double rel, double abs_ = 1e-6) { return std::fabs(a - b) <= abs_ + rel * std::max(std::fabs(a), std::fabs(b)); }

#define ENTRY extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
