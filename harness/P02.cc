// P02 SHA-256 of every split of a message against an independent implementation of FIPS 180-4
// MAXLEN: 400
#include "common.hpp"
#include "virg/nexus/nx_hash_sha256.h"
#include "virg/nexus/nx_string.h"
#include "virg/nexus/nx_alloc.h"
static const uint32_t K[64] = {
0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
static uint32_t rr(uint32_t x, int n) { return x >> n | x << (32 - n); }
static void ref(const std::vector<uint8_t> &m, uint8_t out[32]) {
  std::vector<uint8_t> p(m); p.push_back(0x80); while (p.size() % 64 != 56) p.push_back(0);
  uint64_t bl = (uint64_t)m.size() * 8; for (int i = 7; i >= 0; --i) p.push_back((uint8_t)(bl >> (8 * i)));
  uint32_t H[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
  for (size_t o = 0; o < p.size(); o += 64) {
    uint32_t w[64]; for (int i = 0; i < 16; ++i) w[i] = (uint32_t)p[o+4*i]<<24|(uint32_t)p[o+4*i+1]<<16|(uint32_t)p[o+4*i+2]<<8|p[o+4*i+3];
    for (int i = 16; i < 64; ++i) w[i] = (rr(w[i-2],17)^rr(w[i-2],19)^w[i-2]>>10) + w[i-7] + (rr(w[i-15],7)^rr(w[i-15],18)^w[i-15]>>3) + w[i-16];
    uint32_t v[8]; memcpy(v, H, 32);
    for (int i = 0; i < 64; ++i) {
      uint32_t t1 = v[7] + (rr(v[4],6)^rr(v[4],11)^rr(v[4],25)) + ((v[4]&v[5])^(~v[4]&v[6])) + K[i] + w[i];
      uint32_t t2 = (rr(v[0],2)^rr(v[0],13)^rr(v[0],22)) + ((v[0]&v[1])^(v[0]&v[2])^(v[1]&v[2]));
      for (int j = 7; j > 0; --j) v[j] = v[j-1];
      v[4] += t1; v[0] = t1 + t2;
    }
    for (int i = 0; i < 8; ++i) H[i] += v[i];
  }
  for (int i = 0; i < 32; ++i) out[i] = (uint8_t)(H[i/4] >> (24 - 8*(i%4)));
}
ENTRY {
  In in(data, size);
  int np = in.range(1, 6);
  std::vector<std::vector<uint8_t>> parts(np); std::vector<uint8_t> all;
  for (auto &p : parts) {
    int kind = in.pick(4); size_t n = kind == 0 ? 0 : kind == 1 ? in.range(0, 70) : kind == 2 ? in.range(50, 200) : 64 * in.range(0, 4) + in.range(-1, 1);
    if (n > 100000) n = 0;
    uint8_t x = in.u8();
    for (size_t i = 0; i < n; ++i) { p.push_back(in.left() > 64 ? in.u8() : (uint8_t)(x * (i + 1) + (i >> 3))); }
    all.insert(all.end(), p.begin(), p.end());
  }
  uint8_t want[32], got[34]; ref(all, want);
  memset(got, 0x77, 34);
  // exact-size heap copies so that any over-read is seen
  uint8_t *whole = (uint8_t *)malloc(all.size()); memcpy(whole, all.data(), all.size());
  nx_sha256(got + 1, whole, all.size());
  CHECK(!memcmp(got + 1, want, 32), "single part, length %zu", all.size()); CHECK(got[0] == 0x77 && got[33] == 0x77);
  CHECK(all.empty() || !memcmp(whole, all.data(), all.size()), "message modified");
  std::vector<const uint8_t *> ps; size_t *ls = (size_t *)malloc(np * sizeof(size_t));
  for (int i = 0; i < np; ++i) { uint8_t *c = (uint8_t *)malloc(parts[i].size()); memcpy(c, parts[i].data(), parts[i].size()); ps.push_back(c); ls[i] = parts[i].size(); }
  memset(got, 0x77, 34);
  nx_sha256_multi(got + 1, np, ps.data(), ls);
  CHECK(!memcmp(got + 1, want, 32), "%d parts, total length %zu", np, all.size()); CHECK(got[0] == 0x77 && got[33] == 0x77);
  // gathering copy with a cursor
  int so = 0; size_t off = 0, pos = 0;
  for (int r = 0; r < 12; ++r) {
    size_t n = in.range(0, 90); uint8_t *d = (uint8_t *)malloc(n + 1); memset(d, 0xEE, n + 1);
    size_t c = nx_memncpy_multi(d, np, (const void *const *)ps.data(), ls, n, &so, &off);
    size_t want_c = std::min(n, all.size() - pos);
    CHECK(c == want_c, "copied %zu of %zu", c, want_c);
    for (size_t i = 0; i < n + 1; ++i) CHECK(d[i] == (i < c ? all[pos + i] : 0xEE), "byte %zu", i);
    pos += c; free(d);
  }
  for (auto p : ps) free((void *)p);
  free(ls); free(whole);
  // hex rendering
  char *hs = nx_hash_to_str(32, want); CHECK(strlen(hs) == 64);
  for (int i = 0; i < 32; ++i) { char b[3]; snprintf(b, 3, "%02x", want[i]); CHECK(!strncmp(hs + 2 * i, b, 2), "hex %d", i); }
  nx_free(hs);
  return 0;
}
