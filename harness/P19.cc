// P19 uniform and Gaussian samplers: reproducible streams (against an independent SFMT-19937), ranges, extents
// MAXLEN: 64
// LIBS: -Wl,--wrap=sfmt_gen_rand_all
#include "common.hpp"
#include <memory>
#include "virg/nexus/nx_types.h"
#include "virg/nexus/nx_uniform_sampler.h"
#include "virg/nexus/nx_gaussian_sampler.h"
extern "C" {
#include "SFMT/SFMT.h"
void __real_sfmt_gen_rand_all(sfmt_t *);
}
// in hostile mode the generator yields chosen 32-bit words, biased to the ends of the range
static In *g_hostile = nullptr;
extern "C" void __wrap_sfmt_gen_rand_all(sfmt_t *s) {
  if (!g_hostile) { __real_sfmt_gen_rand_all(s); return; }
  static const uint32_t ends[] = {0, 1, 0xffffffffu, 0xfffffffeu, 0x80000000u, 0x7fffffffu, 0xffffff80u, 0xffffff7fu, 0xfffffc00u};
  uint32_t lcg = g_hostile->u32() | 1; uint32_t *w = &s->state[0].u[0]; bool first = true;
  for (int i = 0; i < SFMT_N * 4; ++i) { if (g_hostile->more()) { uint8_t k = g_hostile->u8(); w[i] = k < 9 ? ends[k] : k < 200 ? ((uint32_t)k << 24) : g_hostile->u32(); } else { lcg = lcg * 1664525u + 1013904223u; w[i] = lcg; } (void)first; }
  s->idx = 0;
}
struct Ref { // scalar SFMT-19937, written from the published recursion
  uint32_t s[624]; int idx;
  explicit Ref(uint32_t seed) { s[0] = seed; for (int i = 1; i < 624; ++i) s[i] = 1812433253u * (s[i - 1] ^ (s[i - 1] >> 30)) + i; idx = 624;
    const uint32_t par[4] = {1, 0, 0, 0x13c9e684u}; uint32_t in = 0; for (int i = 0; i < 4; ++i) in ^= s[i] & par[i]; for (int i = 16; i > 0; i >>= 1) in ^= in >> i; if (!(in & 1)) s[0] ^= 1; }
  static void sh(uint32_t *o, const uint32_t *a, int n) { unsigned __int128 v = 0; for (int i = 3; i >= 0; --i) v = v << 32 | a[i]; if (n > 0) v <<= n; else v >>= -n; for (int i = 0; i < 4; ++i) { o[i] = (uint32_t)v; v >>= 32; } }
  void gen() { const uint32_t m[4] = {0xdfffffefu, 0xddfecb7fu, 0xbffaffffu, 0xbffffff6u}; const uint32_t *r1 = s + 154 * 4, *r2 = s + 155 * 4; for (int i = 0; i < 156; ++i) { uint32_t *a = s + 4 * i; const uint32_t *b = s + 4 * ((i + 122) % 156); uint32_t x[4], y[4]; sh(x, a, 8); sh(y, r1, -8); for (int k = 0; k < 4; ++k) a[k] = a[k] ^ x[k] ^ ((b[k] >> 11) & m[k]) ^ y[k] ^ (r2[k] << 18); r1 = r2; r2 = a; } idx = 0; }
  uint32_t u32() { if (idx >= 624) gen(); return s[idx++]; }
};
static void stream(In &in) {
  LiveBlocks live; uint32_t seed = in.coin() ? in.i32x() : in.u32(); Ref r(seed), g(seed); { auto *u = nx_uniform_sampler_new_with_seed(seed); int n = in.range(1, 1500);
  for (int i = 0; i < n; ++i) { uint32_t a = nx_uniform_sampler_sample32(u), b = r.u32(); CHECK(a == b, "sample %d of seed %u is %u, want %u", i, seed, a, b); }
  if (in.coin()) { nx_uniform_sampler_init_seed(u, seed); Ref q(seed); for (int i = 0; i < 700; ++i) switch (in.pick(4)) { case 0: { uint64_t w = q.u32(); w |= (uint64_t)q.u32() << 32; CHECK(nx_uniform_sampler_sample64(u) == w); break; }
      case 1: { uint32_t a = nx_uniform_sampler_sample32(u), b = nx_uniform_sampler_sample32(u), c = q.u32(), d = q.u32(); CHECK(a == c && b == d); break; }
      case 2: { float f = nx_uniform_sampler_sample_s(u), h = nx_uniform_sampler_sample_s(u); double x = q.u32() / 4294967296.0, y = q.u32() / 4294967296.0; CHECK(f >= 0 && f < 1 && h >= 0 && h < 1); CHECK(fabs(f - x) < 2e-7 && fabs(h - y) < 2e-7); break; }
      default: { double d = nx_uniform_sampler_sample_d(u); uint32_t x = q.u32(), y = q.u32(); double w = (double)((long double)((uint64_t)y << 32 | x) / 18446744073709551616.0L); CHECK(d >= 0 && d < 1 && fabs(d - w) < 1e-15); } } }
  { nx_uniform_sampler_init_seed(u, seed); Ref q(seed); int m = 624 + 4 * in.range(0, 20); std::vector<uint32_t> a; std::unique_ptr<uint32_t, void (*)(void *)> p((uint32_t *)aligned_alloc(16, (m + 4) * 4), free); p.get()[m] = 77; nx_uniform_sampler_fill32(u, m, p.get()); for (int i = 0; i < m; ++i) CHECK(p.get()[i] == q.u32(), "filled sample %d", i); CHECK(p.get()[m] == 77); nx_uniform_sampler_init_seed(u, seed); Ref q2(seed); int h = 312 + 2 * in.range(0, 20); std::unique_ptr<uint64_t, void (*)(void *)> p64((uint64_t *)aligned_alloc(16, (h + 2) * 8), free); p64.get()[h] = 77; nx_uniform_sampler_fill64(u, h, p64.get()); for (int i = 0; i < h; ++i) { uint64_t w = q2.u32(); w |= (uint64_t)q2.u32() << 32; CHECK(p64.get()[i] == w); } CHECK(p64.get()[h] == 77); }
  nx_uniform_sampler_free(u); nx_uniform_sampler_free(nullptr);
  auto *gs = nx_gaussian_sampler_new_with_seed(seed), *g2 = nx_gaussian_sampler_new(nx_uniform_sampler_new_with_seed(seed)); double m = in.range(-9, 9), s = in.range(0, 9) / 4.0; int k = in.range(0, 9); std::vector<double> a(k + 1, 77), b(k + 1, 77); nx_gaussian_sampler_sample_d(gs, k, a.data(), m, s); nx_gaussian_sampler_sample_d(g2, k, b.data(), m, s); for (int i = 0; i < k; ++i) CHECK(a[i] == b[i] && std::isfinite(a[i]), "seeded Gaussian samples differ"); CHECK(a[k] == 77);
  nx_gaussian_sampler_init_seed(gs, seed); nx_gaussian_sampler_sample_d(gs, k, b.data(), m, s); for (int i = 0; i < k; ++i) CHECK(a[i] == b[i]); nx_gaussian_sampler_free(gs); nx_gaussian_sampler_free(g2); }
  CHECK(live.now() <= 0, "leaks");
}
// recompute the polar method from the same hostile words
struct Words { std::vector<uint32_t> w; size_t i = 0; };
static void hostile(In &in) {
  std::vector<uint8_t> save(in.p, in.e); auto *u = nx_uniform_sampler_new_with_seed(1); In h1(save.data(), save.size()); g_hostile = &h1;
  for (int i = 0; i < 40; ++i) { float f = nx_uniform_sampler_sample_s(u); CHECK(f >= 0.0f && f < 1.0f, "single precision sample %.9g outside [0, 1)", f); double d = nx_uniform_sampler_sample_d(u); CHECK(d >= 0.0 && d < 1.0, "double precision sample %.17g outside [0, 1)", d); }
  g_hostile = nullptr; nx_uniform_sampler_free(u);
  for (int dbl = 0; dbl < 2; ++dbl) { In a(save.data(), save.size()), b(save.data(), save.size()); auto *q = nx_uniform_sampler_new_with_seed(1), *ug = nx_uniform_sampler_new_with_seed(1); auto *g = nx_gaussian_sampler_new(ug); int n = 1 + (save.empty() ? 0 : save[0] % 9); double m = -1.5, s = 2.25; std::vector<double> o(n + 1, 77); std::vector<float> of(n + 1, 77);
    g_hostile = &a; if (dbl) nx_gaussian_sampler_sample_d(g, n, o.data(), m, s); else { nx_gaussian_sampler_sample_s(g, n, of.data(), m, s); for (int i = 0; i < n; ++i) o[i] = of[i]; CHECK(of[n] == 77); } CHECK(o[n] == 77, "wrote past the end");
    g_hostile = &b; for (int i = 0; i < n; i += 2) { double v1, v2, r; do { double u1 = nx_uniform_sampler_sample_s(q), u2 = nx_uniform_sampler_sample_s(q); if (dbl) { v1 = 2 * u1 - 1; v2 = 2 * u2 - 1; r = v1 * v1 + v2 * v2; } else { float f1 = 2.0f * (float)u1 - 1.0f, f2 = 2.0f * (float)u2 - 1.0f; v1 = f1; v2 = f2; r = f1 * f1 + f2 * f2; } } while (r >= 1 || r == 0); double c = s * sqrt(-2 * log(r) / r); double tol = dbl ? 1e-9 : 1e-4; for (int k = 0; k < 2 && i + k < n; ++k) { double w = c * (k ? v2 : v1) + m; CHECK(std::isfinite(o[i + k]), "sample %d is not finite", i + k); CHECK(fabs(o[i + k] - w) <= tol * (1 + fabs(w) + c), "sample %d is %.12g, want %.12g", i + k, o[i + k], w); } }
    g_hostile = nullptr; nx_uniform_sampler_free(q); nx_gaussian_sampler_free(g); }
}
ENTRY { In in(data, size); if (in.coin()) stream(in); else hostile(in); return 0; }
