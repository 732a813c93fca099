// P13 filtering: kernels, borders, convolution, smoothing, box filter, derivatives
// MAXLEN: 300
#include "common.hpp"
#include "img.hpp"
#include "virg/nexus/nx_filter.h"
typedef std::vector<double> V;
static int border(int i, int n, int mode) { if (i >= 0 && i < n) return i; if (mode == NX_BORDER_ZERO) return -1; if (mode == NX_BORDER_REPEAT) return i < 0 ? 0 : n - 1; return i < 0 ? -i : 2 * n - 2 - i; }
static V gauss(double sigma, int half) { V k(half + 1); double s = 0; for (int i = 0; i <= half; ++i) { k[i] = exp(-0.5 * i * i / (sigma * sigma)); s += i ? 2 * k[i] : k[i]; } for (auto &x : k) x /= s; return k; }
static V conv(const V &d, const V &k) { int n = d.size(); V o(n); for (int i = 0; i < n; ++i) { double s = k[0] * d[i]; for (int j = 1; j < (int)k.size(); ++j) s += k[j] * (d[border(i - j, n, NX_BORDER_REPEAT)] + d[border(i + j, n, NX_BORDER_REPEAT)]); o[i] = s; } return o; }
static V row(const Pix &p, int y) { V r; for (int x = 0; x < p.w; ++x) r.push_back(p.at(y, x)); return r; }
static V col(const Pix &p, int x) { V r; for (int y = 0; y < p.h; ++y) r.push_back(p.at(y, x)); return r; }
static int ksize(float s, float f) { int n = (int)(2.0 * f * s + 1.0f); if (n % 2 == 0) ++n; return std::max(n, 3); }
ENTRY {
  LiveBlocks live; {
  In in(data, size); int op = in.pick(9);
  switch (op) {
  case 0: { int n = in.range(2, 20), nb = in.range(0, 12), mode = in.pick(3), st = in.range(1, 4); const NXBorderMode M[] = {NX_BORDER_ZERO, NX_BORDER_REPEAT, NX_BORDER_MIRROR}; if (M[mode] == NX_BORDER_MIRROR) nb = std::min(nb, n - 1); float *b = nx_filter_buffer_alloc(n, nb); std::vector<float> f((n - 1) * 4 + 1); std::vector<uchar> u((n - 1) * 4 + 1); for (size_t i = 0; i < f.size(); ++i) { u[i] = in.u8(); f[i] = u[i] - 100.5f; }
    f.resize((size_t)(n - 1) * st + 1); u.resize((size_t)(n - 1) * st + 1); f.shrink_to_fit(); u.shrink_to_fit(); int which = in.pick(4); if (which >= 2) st = st; else { st = 1; }
    switch (which) { case 0: nx_filter_copy_to_buffer1_uc(n, b, u.data(), nb, M[mode]); break; case 1: nx_filter_copy_to_buffer1(n, b, f.data(), nb, M[mode]); break; case 2: nx_filter_copy_to_buffer_uc(n, b, u.data(), st, nb, M[mode]); break; default: nx_filter_copy_to_buffer(n, b, f.data(), st, nb, M[mode]); }
    for (int i = 0; i < n + 2 * nb; ++i) { int j = border(i - nb, n, M[mode]); double w = j < 0 ? 0 : (which & 1) ? f[j * st] : u[j * st]; CHECK(b[i] == (float)w, "buffer[%d] = %g want %g (n %d border %d mode %d)", i, b[i], w, n, nb, mode); } nx_free(b); break; }
  case 1: { int n = in.range(2, 20), nk = in.range(2, 8); std::vector<float> d(n + 2 * (nk - 1)), k(nk); for (auto &x : d) x = in.range(-100, 100); for (auto &x : k) x = in.range(-8, 8) / 4.0f; std::vector<float> o = d; nx_convolve_sym(n, d.data(), nk, k.data()); for (int i = 0; i < n; ++i) { double s = k[0] * o[i + nk - 1]; for (int j = 1; j < nk; ++j) s += k[j] * ((double)o[i + nk - 1 - j] + o[i + nk - 1 + j]); CHECK(near_(d[i], s, 1e-5, 1e-2), "convolution %g want %g", d[i], s); } break; }
  case 2: { int n = in.range(2, 20), r = in.range(1, 8); std::vector<float> d(n + 2 * r); for (auto &x : d) x = in.range(-100, 100); std::vector<float> o = d; nx_convolve_box(n, d.data(), r); for (int i = 0; i < n; ++i) { double s = 0; for (int j = 0; j <= 2 * r; ++j) s += o[i + j]; CHECK(near_(d[i], s / (2 * r + 1), 1e-5, 1e-3), "box %g want %g", d[i], s / (2 * r + 1)); } break; }
  case 3: { float s = in.range(1, 500) / 100.0f, f = in.range(5, 60) / 10.0f; int n = nx_kernel_size_gaussian(s, f); CHECK(n == ksize(s, f) && n % 2 == 1 && n >= 3, "kernel size %d", n); int nk = n / 2 + 1; std::vector<float> k(nk); nx_kernel_sym_gaussian(nk, k.data(), s); V g = gauss(s, nk - 1); double sum = k[0]; for (int i = 0; i < nk; ++i) { CHECK(near_(k[i], g[i], 1e-4, 1e-6), "kernel"); if (i) sum += 2 * (double)k[i]; } CHECK(fabs(sum - 1) < 1e-4); break; }
  case 4: { int w = in.range(2, 14), h = in.range(2, 14); auto d = DT[in.pick(2)]; bool f = d == NX_IMAGE_FLOAT32; NXImage *a = mk_image(in, w, h, NX_IMAGE_GRAYSCALE, d); bool self = in.coin(); NXImage *o = self ? a : mk_dest(in); Pix p = read_pix(a); float sx = in.range(10, 300) / 100.0f, sy = in.range(10, 300) / 100.0f, kt = in.range(10, 50) / 10.0f; int nx = ksize(sx, kt) / 2, ny = ksize(sy, kt) / 2, k1, k2; float *buf = in.coin() ? nx_image_filter_buffer_alloc(w, h, sx, sy, kt, &k1, &k2) : NULL; if (buf) CHECK(k1 == 2 * nx + 1 && k2 == 2 * ny + 1, "kernel sizes"); nx_image_smooth(o, a, sx, sy, kt, buf); nx_free(buf); shape_is(o, w, h, NX_IMAGE_GRAYSCALE, d); Pix q = read_pix(o), t = p; V gx = gauss(sx, nx), gy = gauss(sy, ny);
    double tol = f ? 1e-4 : 2.01; for (int y = 0; y < h; ++y) { V r = conv(row(p, y), gx); for (int x = 0; x < w; ++x) t.v[y * w + x] = r[x]; } for (int x = 0; x < w; ++x) { V r = conv(col(t, x), gy); for (int y = 0; y < h; ++y) CHECK(fabs(q.at(y, x) - r[y]) <= tol && (f || q.at(y, x) <= r[y] + 0.01), "smooth %d,%d: %g want %g", x, y, q.at(y, x), r[y]); } if (!self) { same_pix(a, p); nx_image_free(o); } nx_image_free(a); break; }
  case 5: { int w = in.range(2, 14), h = in.range(2, 14), rx = in.range(1, 6), ry = in.range(1, 6), which = in.pick(3); auto d = DT[in.pick(2)]; bool f = d == NX_IMAGE_FLOAT32, self = in.coin(); NXImage *a = mk_image(in, w, h, NX_IMAGE_GRAYSCALE, d), *o = self ? a : mk_dest(in); Pix p = read_pix(a), t = p; float *buf = in.coin() ? nx_filter_buffer_alloc(std::max(w, h), std::max(rx, ry)) : NULL; if (which == 0) nx_image_filter_box_x(o, a, rx, buf); else if (which == 1) nx_image_filter_box_y(o, a, ry, buf); else nx_image_filter_box(o, a, rx, ry, buf); nx_free(buf); shape_is(o, w, h, NX_IMAGE_GRAYSCALE, d); Pix q = read_pix(o);
    for (int pass = 0; pass < 2; ++pass) { if (which != 2 && which != pass) continue; Pix s = t; for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double m = 0; int r = pass ? ry : rx; for (int j = -r; j <= r; ++j) m += pass ? s.cl(y + j, x) : s.cl(y, x + j); m /= 2 * r + 1; t.v[y * w + x] = f ? m : m; } }
    double tol = f ? 1e-3 : which == 2 ? 2.01 : 1.01; for (size_t k = 0; k < q.v.size(); ++k) CHECK(fabs(q.v[k] - t.v[k]) <= tol && (f || q.v[k] <= t.v[k] + 0.01), "box %zu: %g want %g", k, q.v[k], t.v[k]); if (!self) { same_pix(a, p); nx_image_free(o); } nx_image_free(a); break; }
  case 6: case 7: { int w = in.range(2, 14), h = in.range(2, 14); auto d = DT[in.pick(2)]; bool f = d == NX_IMAGE_FLOAT32, dx = op == 6; NXImage *a = mk_image(in, w, h, NX_IMAGE_GRAYSCALE, d), *o = mk_dest(in); Pix p = read_pix(a); (dx ? nx_image_deriv_x : nx_image_deriv_y)(o, a); shape_is(o, w, h, NX_IMAGE_GRAYSCALE, NX_IMAGE_FLOAT32); Pix q = read_pix(o); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { int i = dx ? x : y, n = dx ? w : h, lo = std::max(i - 1, 0), hi = std::min(i + 1, n - 1); double v = (dx ? p.at(y, hi) - p.at(y, lo) : p.at(hi, x) - p.at(lo, x)) * (hi - lo == 1 ? 2 : 1) / (f ? 1 : 255); CHECK(near_(q.at(y, x), v, 1e-5, 1e-5), "derivative %d,%d: %g want %g", x, y, q.at(y, x), v); } same_pix(a, p); nx_image_free(a); nx_image_free(o); break; }
  default: { int n = in.range(0, 40), nb = in.range(0, 20); float *b = nx_filter_buffer_alloc(n, nb); if (n + 2 * nb) { b[0] = 1; b[n + 2 * nb - 1] = 2; } nx_free(b); } } }
  CHECK(live.now() <= 0, "leak of %ld blocks", live.now());
  return 0;
}
