// images for the pixel harnesses: arbitrary stride, owned or wrapped, values remembered
#pragma once
#include "virg/nexus/nx_types.h"
#include "virg/nexus/nx_image.h"
#include "virg/nexus/nx_mem_block.h"
#include "virg/nexus/nx_alloc.h"
struct Pix { int w, h, c; std::vector<double> v; double at(int y, int x) const { return v[(size_t)y * w * c + x]; } double cl(int y, int x) const { return at(std::min(std::max(y, 0), h - 1), std::min(std::max(x, 0), w - 1)); } };
static inline int nch_(int t) { return t == NX_IMAGE_RGBA ? 4 : 1; }
static inline Pix read_pix(const NXImage *i) { Pix p{i->width, i->height, nch_(i->type), {}}; for (int y = 0; y < p.h; ++y) for (int x = 0; x < p.w * p.c; ++x) p.v.push_back(i->dtype == NX_IMAGE_FLOAT32 ? i->data.f32[(size_t)y * i->row_stride + x] : i->data.uc[(size_t)y * i->row_stride + x]); return p; }
static const NXImageDataType DT[] = {NX_IMAGE_UCHAR, NX_IMAGE_FLOAT32};
// storage ends right after the last pixel of the last row, so a read past a row end of the last row is out of bounds
static inline NXImage *mk_image(In &in, int w, int h, NXImageType t, NXImageDataType d, float lo = -2, float hi = 2) {
  NXImage *i = nx_image_alloc(); int nc = nch_(t), pad = in.coin() ? 0 : in.range(0, 4), rs = w * nc + pad; size_t b = d == NX_IMAGE_FLOAT32 ? 4 : 1; size_t n = (size_t)rs * h; 
  if (in.coin() || !n) nx_image_resize(i, w, h, rs, t, d); else nx_image_wrap(i, malloc(n * b), w, h, rs, t, d, NX_TRUE);
  uint8_t mode = in.u8(); uint32_t s = in.u16() * 2654435761u + 1;
  for (int y = 0; y < h; ++y) for (int x = 0; x < rs; ++x) { s = s * 1664525u + 1013904223u; double u; switch (mode & 7) { case 0: u = (s >> 8) / 16777216.0; break; case 1: u = (double)(y * w + x) / (w * h * nc + 1); break; case 2: u = 1 - (double)(y * w + x) / (w * h * nc + 1); break; case 3: u = (x + y) & 1; break; case 4: u = in.u8() / 255.0; break; case 5: u = (s >> 24) < 32; break; case 6: u = mode >> 4 == 0 ? 0 : 0.5; break; default: u = ((s >> 28) & 15) / 15.0; }
    if (x >= w * nc) u = 1 - u; if (d == NX_IMAGE_FLOAT32) i->data.f32[(size_t)y * rs + x] = (float)(lo + u * (hi - lo)); else i->data.uc[(size_t)y * rs + x] = (uint8_t)(u * 255.999); }
  return i; }
// a destination in an arbitrary earlier state
static inline NXImage *mk_dest(In &in) { NXImage *i = nx_image_alloc(); switch (in.pick(4)) { case 0: break; case 1: nx_image_resize(i, in.range(1, 30), in.range(1, 30), -1, NX_IMAGE_GRAYSCALE, DT[in.pick(2)]); break; case 2: nx_image_resize(i, in.range(1, 9), in.range(1, 9), 50, NX_IMAGE_RGBA, DT[in.pick(2)]); break; default: nx_image_resize(i, in.range(1, 4), 1, -1, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR); } if (i->mem->ptr) memset(i->mem->ptr, 0x5b, i->mem->size); return i; }
static inline void shape_is(const NXImage *i, int w, int h, int t, int d) { CHECK(i->width == w && i->height == h && (int)i->type == t && (int)i->dtype == d && i->n_channels == nch_(t) && i->row_stride >= w * nch_(t), "result is %dx%d want %dx%d", i->width, i->height, w, h); CHECK(i->data.v == i->mem->ptr && i->mem->size >= (size_t)i->row_stride * h * (d == NX_IMAGE_FLOAT32 ? 4 : 1)); }
static inline void same_pix(const NXImage *i, const Pix &p) { Pix q = read_pix(i); CHECK(q.w == p.w && q.h == p.h && q.v == p.v, "source image changed"); }
// got is the C conversion of a real value near want
static inline bool trunc_ok(int got, double want, double tol = 2e-3) { return got == (int)want || got == (int)(want + tol) || got == (int)(want - tol); }
