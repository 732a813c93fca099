// P01 bit operations against independent definitions
// MAXLEN: 96
#include "common.hpp"
#include "virg/nexus/nx_bit_ops.h"
static int ref_count(uint64_t x) { int n = 0; for (int i = 0; i < 64; ++i) n += (x >> i) & 1; return n; }
template <class T> static T ref_rotr(T x, unsigned n) { const unsigned W = 8 * sizeof(T); T r = 0; for (unsigned i = 0; i < W; ++i) if (x >> ((i + n) % W) & 1) r |= (T)1 << i; return r; }
ENTRY {
  In in(data, size);
  while (in.more()) {
    switch (in.pick(6)) {
    case 0: { uint32_t x = in.coin() ? in.u32() : in.i32x(); CHECK(nx_bit_count32(x) == ref_count(x), "x=%x", x); break; }
    case 1: { uint64_t x = in.coin() ? in.u64() : ((uint64_t)in.i32x() << 32 | in.i32x()); CHECK(nx_bit_count64(x) == ref_count(x), "x=%llx", (unsigned long long)x); break; }
    case 2: { uint32_t x = in.u32(); unsigned n = in.range(1, 31); CHECK(nx_rotr32(x, n) == ref_rotr(x, n), "x=%x n=%u", x, n); break; }
    case 3: { uint64_t x = in.u64(); unsigned n = in.range(1, 63); CHECK(nx_rotr64(x, n) == ref_rotr(x, n), "x=%llx n=%u", (unsigned long long)x, n); break; }
    case 4: {
      uint64_t x = in.coin() ? in.u64() : in.i32x(); uint8_t b[10]; memset(b, 0xA5, 10);
      nx_split_big_endian64(b + 1, x); CHECK(b[0] == 0xA5 && b[9] == 0xA5);
      for (int i = 0; i < 8; ++i) CHECK(b[1 + i] == (uint8_t)(x >> (56 - 8 * i)), "x=%llx byte %d", (unsigned long long)x, i);
      uint8_t c[6]; memset(c, 0x5A, 6); nx_split_big_endian32(c + 1, (uint32_t)x); CHECK(c[0] == 0x5A && c[5] == 0x5A);
      for (int i = 0; i < 4; ++i) CHECK(c[1 + i] == (uint8_t)((uint32_t)x >> (24 - 8 * i)));
      CHECK(nx_compose_big_endian32(c + 1) == (uint32_t)x, "x=%x", (uint32_t)x);
      break; }
    case 5: {
      size_t n = in.range(1, 300); uint8_t *a = nx_bit_array_new(n); nx_bit_array_set_zero(n, a);
      std::vector<bool> m(n, false);
      for (size_t i = 0; i < n; ++i) CHECK(!nx_bit_array_get(a, i));
      int k = in.range(0, 40);
      while (k--) {
        size_t i = in.u16() % n; int v = in.coin() ? in.u8() : 0;
        nx_bit_array_set(a, i, (NXBool)v); m[i] = v != 0;
        if (in.u8() < 40) for (size_t j = 0; j < n; ++j) CHECK(!!nx_bit_array_get(a, j) == m[j], "bit %zu of %zu", j, n);
      }
      for (size_t j = 0; j < n; ++j) CHECK(!!nx_bit_array_get(a, j) == m[j], "bit %zu of %zu", j, n);
      nx_free(a);
      break; }
    }
  }
  return 0;
}
