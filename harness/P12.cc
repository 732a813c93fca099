// P12 pixel operations and colour conversion
// MAXLEN: 300
#include "common.hpp"
#include "img.hpp"
#include "virg/nexus/nx_colorspace.h"
#include "nx_color_map_data.h"
static double clampd(double v, double a, double b) { return std::min(std::max(v, a), b); }
static double gray_of(double r, double g, double b) { return r * 0.3 + g * 0.59 + b * 0.11; }
static void cmap(double v, int map, double *rgb) { float (*t)[3] = nullptr; int n = 0; switch (map) { case NX_COLOR_MAP_VIRIDIS: t = nx_color_map_data_viridis; n = nx_color_map_data_viridis_size; break; case NX_COLOR_MAP_PLASMA: t = nx_color_map_data_plasma; n = nx_color_map_data_plasma_size; break; case NX_COLOR_MAP_MAGMA: t = nx_color_map_data_magma; n = nx_color_map_data_magma_size; break; case NX_COLOR_MAP_CUBEHELIX: t = nx_color_map_data_cubehelix; n = nx_color_map_data_cubehelix_size; break; }
  if (!t) { rgb[0] = rgb[1] = rgb[2] = v * 255; return; } double s = v * (n - 1); int k = std::min((int)s, n - 2); double a = s - k; for (int c = 0; c < 3; ++c) rgb[c] = 255 * ((1 - a) * t[k][c] + a * t[k + 1][c]); }
ENTRY {
  LiveBlocks live; {
  In in(data, size); int op = in.pick(9), w = in.range(1, 12), h = in.range(1, 12); auto d = DT[in.pick(2)]; auto t = in.coin() ? NX_IMAGE_RGBA : NX_IMAGE_GRAYSCALE; bool f = d == NX_IMAGE_FLOAT32;
  switch (op) {
  case 0: { NXImage *i = mk_image(in, w, h, t, d); Pix p = read_pix(i); float a = in.range(-300, 300) / 100.0f, y = in.range(-300, 300) / (f ? 100.0f : 1.0f); nx_image_axpy(i, a, y); shape_is(i, w, h, t, d); Pix q = read_pix(i); for (size_t k = 0; k < p.v.size(); ++k) { double e = (double)a * p.v[k] + y; if (f) CHECK(near_(q.v[k], e, 1e-5, 1e-5), "axpy %g want %g", q.v[k], e); else CHECK(trunc_ok((int)q.v[k], clampd(e, 0, 255)), "axpy %g want %g", q.v[k], e); } nx_image_free(i); break; }
  case 1: { float lo = in.range(-50, 50) / 10.0f; NXImage *i = mk_image(in, w, h, t, NX_IMAGE_FLOAT32, lo, lo + in.range(0, 80) / 10.0f); Pix p = read_pix(i); bool sym = in.coin(); nx_image_normalize_to_zero_one(i, sym ? NX_TRUE : NX_FALSE); shape_is(i, w, h, t, NX_IMAGE_FLOAT32); Pix q = read_pix(i); double mn = *std::min_element(p.v.begin(), p.v.end()), mx = *std::max_element(p.v.begin(), p.v.end()), am = std::max(fabs(mn), fabs(mx));
    for (size_t k = 0; k < p.v.size(); ++k) { double e = mx == mn ? 0 : sym ? p.v[k] / (2 * am) + 0.5 : (p.v[k] - mn) / (mx - mn); CHECK(q.v[k] >= 0 && q.v[k] <= 1); double tol = mx == mn ? 0 : 1e-5 * (1 + am / (sym ? am : mx - mn)); CHECK(fabs(q.v[k] - e) <= tol, "normalised %g want %g", q.v[k], e); } nx_image_free(i); break; }
  case 2: { int w1 = in.range(1, 12), h1 = in.range(1, 12); NXImage *a = mk_image(in, w, h, NX_IMAGE_GRAYSCALE, d), *b = mk_image(in, w1, h1, NX_IMAGE_GRAYSCALE, d), *o = mk_dest(in); Pix p = read_pix(a), q = read_pix(b); nx_image_subtract(o, a, b); int W = std::min(w, w1), H = std::min(h, h1); shape_is(o, W, H, NX_IMAGE_GRAYSCALE, NX_IMAGE_FLOAT32); Pix r = read_pix(o); for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) CHECK(r.at(y, x) == (double)(float)(p.at(y, x) - q.at(y, x)), "difference"); same_pix(a, p); same_pix(b, q); nx_image_free(a); nx_image_free(b); nx_image_free(o); break; }
  case 3: { NXImage *a = mk_image(in, w, h, NX_IMAGE_GRAYSCALE, d, -0.5f, 1.5f), *o = mk_dest(in); if (o->dtype == d) { nx_image_resize(o, 3, 3, -1, NX_IMAGE_GRAYSCALE, DT[d == NX_IMAGE_UCHAR]); if (in.coin()) nx_image_resize(o, 3, 3, -1, NX_IMAGE_GRAYSCALE, d); } Pix p = read_pix(a); int od = o->dtype; nx_image_convert_dtype(o, a); shape_is(o, w, h, NX_IMAGE_GRAYSCALE, od == (int)d ? (int)d : od); Pix r = read_pix(o);
    for (size_t k = 0; k < p.v.size(); ++k) { if (od == (int)d) CHECK(r.v[k] == p.v[k]); else if (f) CHECK(trunc_ok((int)r.v[k], clampd(p.v[k] * 255, 0, 255)), "to uchar %g from %g", r.v[k], p.v[k]); else CHECK(near_(r.v[k], p.v[k] / 255, 1e-6), "to float"); } same_pix(a, p); nx_image_free(a); nx_image_free(o); break; }
  case 4: { NXImage *i = mk_image(in, w, h, NX_IMAGE_GRAYSCALE, d, 0, 1); Pix p = read_pix(i); nx_image_convert_type(i, t); shape_is(i, w, h, t, d); Pix q = read_pix(i); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { if (t == NX_IMAGE_GRAYSCALE) CHECK(q.at(y, x) == p.at(y, x)); else { for (int c = 0; c < 3; ++c) CHECK(q.at(y, 4 * x + c) == p.at(y, x), "channel"); CHECK(q.at(y, 4 * x + 3) == (f ? 1 : 255), "alpha"); } } nx_image_free(i); break; }
  case 5: { NXImage *g = mk_image(in, w, h, NX_IMAGE_GRAYSCALE, d, 0, 1), *o = mk_dest(in); Pix p = read_pix(g); int map = in.pick(5); nx_image_apply_colormap(o, g, (NXColorMap)map); shape_is(o, w, h, NX_IMAGE_RGBA, NX_IMAGE_UCHAR); Pix q = read_pix(o); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double rgb[3]; cmap(f ? p.at(y, x) : (double)(float)(p.at(y, x) / 255), map, rgb); for (int c = 0; c < 3; ++c) CHECK(trunc_ok((int)q.at(y, 4 * x + c), rgb[c], 2e-2), "map %d channel %d value %g want %g", map, c, q.at(y, 4 * x + c), rgb[c]); CHECK(q.at(y, 4 * x + 3) == 255, "alpha"); } same_pix(g, p); nx_image_free(g); nx_image_free(o); break; }
  default: { bool tog = op & 1; NXImage *a = mk_image(in, w, h, tog ? NX_IMAGE_RGBA : NX_IMAGE_GRAYSCALE, d, -0.2f, 1.2f), *o = nx_image_alloc(); int nc = tog ? 1 : 4, pad = in.range(0, 3); nx_image_resize(o, w, h, w * nc + pad, tog ? NX_IMAGE_GRAYSCALE : NX_IMAGE_RGBA, d); memset(o->mem->ptr, 0x3c, o->mem->size); Pix p = read_pix(a); if (f) (tog ? nx_convert_rgba_to_gray_f32 : nx_convert_gray_to_rgba_f32)(w, h, o->data.f32, o->row_stride, a->data.f32, a->row_stride); else (tog ? nx_convert_rgba_to_gray_uc : nx_convert_gray_to_rgba_uc)(w, h, o->data.uc, o->row_stride, a->data.uc, a->row_stride); Pix q = read_pix(o);
    for (int y = 0; y < h; ++y) { for (int x = 0; x < w; ++x) if (tog) { double e = gray_of(p.at(y, 4 * x), p.at(y, 4 * x + 1), p.at(y, 4 * x + 2)); if (f) CHECK(near_(q.at(y, x), clampd(e, 0, 1), 1e-5), "gray"); else CHECK(trunc_ok((int)q.at(y, x), e), "gray %g want %g", q.at(y, x), e); } else { for (int c = 0; c < 3; ++c) CHECK(q.at(y, 4 * x + c) == p.at(y, x)); CHECK(q.at(y, 4 * x + 3) == (f ? 1 : 255)); } for (int x = w * nc; x < o->row_stride; ++x) { if (f) { uint32_t u; memcpy(&u, &o->data.f32[y * o->row_stride + x], 4); CHECK(u == 0x3c3c3c3c, "padding"); } else CHECK(o->data.uc[y * o->row_stride + x] == 0x3c, "padding"); } }
    same_pix(a, p); nx_image_free(a); nx_image_free(o); } } }
  CHECK(live.now() <= 0, "leak of %ld blocks", live.now());
  return 0;
}
