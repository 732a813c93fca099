// P14 resampling (scale, down/upsample, anti-aliased halving) and image pyramids
// MAXLEN: 300
#include "common.hpp"
#include "img.hpp"
#include "virg/nexus/nx_image_pyr.h"
#include "virg/nexus/nx_image_pyr_builder.h"
#include <memory>
static int refl(int i, int n) { if (n == 1) return 0; if (i < 0) i = -i; return i; }
// five taps 1 6 11 6 1 around 2*i: mirrored at the start, the centre pixel standing in for what lies past the end
static double aa(const std::vector<double> &d, int i) { int n = d.size(), c = 2 * i; const int W[] = {1, 6, 11, 6, 1}; double s = 0; for (int k = -2; k <= 2; ++k) { int j = refl(c + k, n); s += W[k + 2] * d[j >= n ? c : j]; } return s / 25; }
static bool ok(bool f, double got, double want) { return f ? fabs(got - want) <= 1e-4 * (1 + fabs(want)) : trunc_ok((int)got, want); }
static NXImage *dup(const NXImage *a) { NXImage *r = nx_image_alloc(); nx_image_copy(r, a); return r; }
static void eq_img(const NXImage *a, const NXImage *b, int lev, const char *what) { CHECK(a->width == b->width && a->height == b->height && a->dtype == b->dtype, "%s level %d is %dx%d want %dx%d", what, lev, a->width, a->height, b->width, b->height); Pix p = read_pix(a), q = read_pix(b); for (size_t k = 0; k < p.v.size(); ++k) CHECK(fabs(p.v[k] - q.v[k]) <= 1e-5 * (1 + fabs(q.v[k])), "%s level %d pixel %zu: %g want %g", what, lev, k, p.v[k], q.v[k]); }
static float sg(float c, float d) { return sqrtf(d * d - c * c); }
static void smooth(NXImage *d, const NXImage *s, float g) { nx_image_smooth(d, s, g, g, 4.0f, NULL); }
ENTRY {
  LiveBlocks live; {
  In in(data, size); int op = in.pick(8);
  auto d = DT[in.pick(2)]; bool f = d == NX_IMAGE_FLOAT32;
  switch (op) {
  case 0: { int w = in.range(1, 20), h = in.range(1, 20); NXImage *a = mk_image(in, w, h, NX_IMAGE_GRAYSCALE, d), *o = mk_dest(in); Pix p = read_pix(a); nx_image_downsample(o, a); shape_is(o, w / 2, h / 2, NX_IMAGE_GRAYSCALE, d); Pix q = read_pix(o);
    for (int y = 0; y < h / 2; ++y) for (int x = 0; x < w / 2; ++x) CHECK(q.at(y, x) == p.at(2 * y, 2 * x), "downsample (%d,%d)", y, x); same_pix(a, p); nx_image_free(a); nx_image_free(o); break; }
  case 1: { int w = in.range(1, 16), h = in.range(1, 16); NXImage *a = mk_image(in, w, h, NX_IMAGE_GRAYSCALE, d), *o = mk_dest(in); Pix p = read_pix(a); nx_image_upsample(o, a); shape_is(o, 2 * w, 2 * h, NX_IMAGE_GRAYSCALE, d); Pix q = read_pix(o);
    for (int y = 0; y < 2 * h; ++y) for (int x = 0; x < 2 * w; ++x) { int r = y / 2, c = x / 2; double v = (p.cl(r, c) + p.cl(r, c + (x & 1)) + p.cl(r + (y & 1), c) + p.cl(r + (y & 1), c + (x & 1))) / 4; CHECK(f ? fabs(q.at(y, x) - v) <= 1e-5 : q.at(y, x) == floor(v), "upsample (%d,%d): %g want %g", y, x, q.at(y, x), v); }
    same_pix(a, p); nx_image_free(a); nx_image_free(o); break; }
  case 2: case 3: { bool X = op == 2; int w = in.range(1, 18), h = in.range(1, 18); NXImage *a = mk_image(in, w, h, NX_IMAGE_GRAYSCALE, d), *o = mk_dest(in); Pix p = read_pix(a); (X ? nx_image_downsample_aa_x : nx_image_downsample_aa_y)(o, a); int W = X ? w / 2 : w, H = X ? h : h / 2; shape_is(o, W, H, NX_IMAGE_GRAYSCALE, d); Pix q = read_pix(o);
    for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) { std::vector<double> l; if (X) for (int i = 0; i < w; ++i) l.push_back(p.at(y, i)); else for (int i = 0; i < h; ++i) l.push_back(p.at(i, x)); double v = aa(l, X ? x : y); CHECK(ok(f, q.at(y, x), v), "aa (%d,%d) of %dx%d: %g want %g", y, x, w, h, q.at(y, x), v); }
    same_pix(a, p); nx_image_free(a); nx_image_free(o); break; }
  case 4: { int w = in.range(1, 16), h = in.range(1, 16); float s = in.range(2, 64) / 16.0f; if (in.coin()) s = in.range(1, 400) / 100.0f; NXImage *a = mk_image(in, w, h, NX_IMAGE_GRAYSCALE, d), *o = mk_dest(in); Pix p = read_pix(a); nx_image_scale(o, a, s); int W = (int)(w * s), H = (int)(h * s); shape_is(o, W, H, NX_IMAGE_GRAYSCALE, d); Pix q = read_pix(o);
    for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) { double yp = y * (double)(1.0f / s), xp = x * (double)(1.0f / s); int yi = (int)yp, xi = (int)xp; double dy = yp - yi, dx = xp - xi, v = (p.cl(yi, xi) * (1 - dx) + p.cl(yi, xi + 1) * dx) * (1 - dy) + (p.cl(yi + 1, xi) * (1 - dx) + p.cl(yi + 1, xi + 1) * dx) * dy; CHECK(ok(f, q.at(y, x), v), "scale %g (%d,%d) of %dx%d: %g want %g", s, y, x, w, h, q.at(y, x), v); }
    same_pix(a, p); nx_image_free(a); nx_image_free(o); break; }
  default: { // pyramids, one builder and one pyramid used for several images and settings
    NXImagePyrBuilder *b = nx_image_pyr_builder_alloc(); NXImagePyr *pyr = nx_image_pyr_alloc(); int rounds = in.range(1, 3);
    for (int r = 0; r < rounds; ++r) { int w = in.range(2, 24), h = in.range(2, 24), kind = in.pick(3), oct = in.range(1, 3), steps = in.range(1, 3); float s0 = in.range(30, 160) / 100.0f, sf = in.range(110, 220) / 100.0f; auto dd = DT[in.pick(2)];
      NXImage *a = mk_image(in, w, h, NX_IMAGE_GRAYSCALE, dd); Pix p = read_pix(a); int n; bool fresh = in.coin(); NXImagePyrBuilder *B = b; NXImagePyr *py = pyr;
      if (kind < 2) while (oct > 1 && (std::min(w, h) >> (oct - 1)) < 2) --oct;
      if (kind == 2) sf = std::max(sf, 1.1f);
      if (fresh) B = kind == 0 ? nx_image_pyr_builder_new_fast(oct, s0) : kind == 1 ? nx_image_pyr_builder_new_fine(oct, steps, s0) : nx_image_pyr_builder_new_scaled(oct, sf, s0);
      else if (kind == 0) nx_image_pyr_builder_set_fast(b, oct, s0); else if (kind == 1) nx_image_pyr_builder_set_fine(b, oct, steps, s0); else nx_image_pyr_builder_set_scaled(b, oct, sf, s0);
      if (fresh) py = nx_image_pyr_builder_build0(B, a); else nx_image_pyr_builder_build(B, py, a);
      n = kind == 1 ? oct * steps : oct; if (kind != 1) steps = 1; float e0 = std::max(s0, 0.5f); CHECK(py->n_levels == n, "%d levels want %d", py->n_levels, n);
      same_pix(a, p);
      for (int i = 0; i < n; ++i) { int o = kind == 1 ? i / steps : i; double sc = pow(kind == 2 ? sf : 2.0f, o); CHECK(fabs(py->levels[i].scale - sc) <= 1e-4 * sc, "level %d scale %g want %g", i, py->levels[i].scale, sc); double si = e0 * pow(2, i / (double)steps); CHECK(fabs(py->levels[i].sigma - si) <= 1e-4 * si, "level %d sigma %g want %g", i, py->levels[i].sigma, si);
        const NXImage *L = py->levels[i].img; if (kind < 2) CHECK(L->width == w >> o && L->height == h >> o, "level %d is %dx%d of %dx%d", i, L->width, L->height, w, h); else CHECK(fabs(L->width - w / sc) <= 1.001 && L->width <= w && fabs(L->height - h / sc) <= 1.001 && L->height <= h, "level %d is %dx%d of %dx%d / %g", i, L->width, L->height, w, h, sc); }
      // contents, by the documented recipe from the separately checked operations
      float g = sg(0.5f, e0), cur = e0; NXImage *c = dup(a), *t = nx_image_alloc(); if (g > 0) smooth(c, c, g); eq_img(py->levels[0].img, c, 0, "base");
      if (kind == 0) for (int i = 1; i < n; ++i) { nx_image_downsample_aa_x(t, c); nx_image_downsample_aa_y(c, t); eq_img(py->levels[i].img, c, i, "fast"); }
      if (kind == 1) for (int i = 1; i < n; ++i) { float want = py->levels[i].sigma / (float)(1 << ((i - 1) / steps)); g = sg(cur, want); smooth(t, c, g); if (i % steps == 0) { nx_image_downsample(c, t); cur = want * 0.5f; } else { nx_image_copy(c, t); cur = want; } 
        eq_img(py->levels[i].img, c, i, "fine"); }
      if (kind == 2) for (int i = 1; i < n; ++i) { float want = py->levels[i].sigma; smooth(c, c, sg(cur, want)); cur = want; nx_image_scale(t, c, 1.0f / py->levels[i].scale); eq_img(py->levels[i].img, t, i, "scaled"); }
      nx_image_free(c); nx_image_free(t); if (fresh) { nx_image_pyr_free(py); nx_image_pyr_builder_free(B); } nx_image_free(a); }
    if (in.coin()) nx_image_pyr_free_levels(pyr); nx_image_pyr_free(pyr); nx_image_pyr_builder_free(b); nx_image_pyr_free(NULL); nx_image_pyr_builder_free(NULL); } } }
  CHECK(live.now() <= 0, "leak of %ld blocks", live.now());
  return 0;
}
