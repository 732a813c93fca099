// P11 image containers: random histories of container operations against a model
// MAXLEN: 400
#include "common.hpp"
#include "virg/nexus/nx_types.h"
#include "virg/nexus/nx_image.h"
#include "virg/nexus/nx_mem_block.h"
#include "virg/nexus/nx_alloc.h"
struct M { int w = 0, h = 0, t = 0, d = 0, rs = 0; std::vector<int> px; bool known = false; };  // px by (row, channel element), -1 unknown
static int nch(int t) { return t == NX_IMAGE_RGBA ? 4 : 1; } static int bpc(int d) { return d == NX_IMAGE_FLOAT32 ? 4 : 1; }
static int get(const NXImage *i, size_t k) { return i->dtype == NX_IMAGE_FLOAT32 ? (int)i->data.f32[k] : i->data.uc[k]; }
static void put(NXImage *i, size_t k, int v) { if (i->dtype == NX_IMAGE_FLOAT32) i->data.f32[k] = v; else i->data.uc[k] = v; }
static void check(NXImage *i, const M &m) {
  CHECK(i->width == m.w && i->height == m.h && (int)i->type == m.t && (int)i->dtype == m.d, "size/type %dx%d", i->width, i->height); CHECK(i->n_channels == nch(m.t)); CHECK(i->row_stride == m.rs, "stride %d want %d", i->row_stride, m.rs); CHECK(i->data.v == i->mem->ptr); CHECK(i->row_stride >= i->width * i->n_channels);
  CHECK(i->mem->capacity >= (size_t)m.rs * m.h * bpc(m.d)); if ((size_t)m.rs * m.h) CHECK(i->mem->size == (size_t)m.rs * m.h * bpc(m.d), "block size %zu", (size_t)i->mem->size); if (i->mem->size) CHECK(i->data.v != NULL);
  if (m.known) for (int y = 0; y < m.h; ++y) for (int x = 0; x < m.w * nch(m.t); ++x) CHECK(get(i, (size_t)y * m.rs + x) == m.px[y * m.w * nch(m.t) + x], "pixel %d,%d", x, y);
}
static void fill(NXImage *i, M &m, int salt) { m.px.assign((size_t)m.w * m.h * nch(m.t), 0); m.known = true; for (int y = 0; y < m.h; ++y) for (int x = 0; x < m.w * nch(m.t); ++x) { int v = (x * 7 + y * 13 + salt) & 255; m.px[y * m.w * nch(m.t) + x] = v; put(i, (size_t)y * m.rs + x, v); } for (int y = 0; y < m.h; ++y) for (int x = m.w * nch(m.t); x < m.rs; ++x) put(i, (size_t)y * m.rs + x, 99); }
static void shape(M &m, int w, int h, int rs, int t, int d) { bool same = m.w == w && m.h == h && m.t == t && m.d == d && m.rs == std::max(rs, nch(t) * w); m.w = w; m.h = h; m.t = t; m.d = d; m.rs = std::max(rs, nch(t) * w); if (!same) m.known = false; }
ENTRY {
  LiveBlocks live; {
  In in(data, size); NXImage *I[3] = {nx_image_alloc(), nx_image_alloc(), nx_image_alloc()}; M m[3]; std::vector<std::vector<float>> bufs; bufs.reserve(64); const NXImageType T[] = {NX_IMAGE_GRAYSCALE, NX_IMAGE_RGBA}; const NXImageDataType D[] = {NX_IMAGE_UCHAR, NX_IMAGE_FLOAT32}; for (auto &x : m) { x.t = NX_IMAGE_GRAYSCALE; x.d = NX_IMAGE_UCHAR; }
  for (int step = 0; step < 30 && in.more(); ++step) {
    int op = in.pick(11), a = in.pick(3), b = in.pick(3), w = in.range(0, 9), h = in.range(0, 9), salt = in.u8(); auto t = T[salt & 1]; auto d = D[salt >> 1 & 1]; int rs = salt & 4 ? -1 : salt & 8 ? w * nch(t) : w * nch(t) + in.range(0, 5) - 2;
    switch (op) {
    case 0: nx_image_resize(I[a], w, h, rs, t, d); shape(m[a], w, h, rs, t, d); break;
    case 1: nx_image_resize_like(I[a], I[b]); shape(m[a], m[b].w, m[b].h, -1, m[b].t, m[b].d); break;
    case 2: nx_image_release(I[a]); m[a] = M(); m[a].t = NX_IMAGE_GRAYSCALE; m[a].d = NX_IMAGE_UCHAR; break;
    case 3: if (a != b) { nx_image_copy(I[a], I[b]); m[a] = m[b]; if (I[b]->mem->size) CHECK(I[a]->data.v != I[b]->data.v); } break;
    case 4: { NXImage *c = nx_image_copy0(I[b]); nx_image_free(I[a]); if (a == b) m[a] = m[b]; I[a] = c; m[a] = m[b]; break; }
    case 5: { if (!w || !h) break; int r = std::max(rs, w * nch(t)); bufs.emplace_back((size_t)r * h); NXBool own = NX_FALSE; void *p = bufs.back().data(); if (salt & 16) { own = NX_TRUE; p = malloc((size_t)r * h * bpc(d)); } nx_image_wrap(I[a], p, w, h, r, t, d, own); CHECK(I[a]->data.v == p); m[a].w = w; m[a].h = h; m[a].t = t; m[a].d = d; m[a].rs = r; fill(I[a], m[a], salt); break; }
    case 6: if (a != b) { nx_image_swap(I[a], I[b]); std::swap(m[a], m[b]); } break;
    case 7: if (I[a]->mem->ptr) { nx_image_set_zero(I[a]); m[a].px.assign((size_t)m[a].w * m[a].h * nch(m[a].t), 0); m[a].known = true; } break;
    case 8: nx_image_free(I[a]); switch (salt >> 4 & 7) { case 0: I[a] = nx_image_new(w, h, t, d); break; case 1: t = T[0]; I[a] = nx_image_new_gray(w, h, d); break; case 2: t = T[1]; I[a] = nx_image_new_rgba(w, h, d); break; case 3: t = T[0]; d = D[0]; I[a] = nx_image_new_gray_uc(w, h); break; case 4: t = T[1]; d = D[0]; I[a] = nx_image_new_rgba_uc(w, h); break; case 5: t = T[0]; d = D[1]; I[a] = nx_image_new_gray_f32(w, h); break; default: t = T[1]; d = D[1]; I[a] = nx_image_new_rgba_f32(w, h); } m[a] = M(); m[a].w = w; m[a].h = h; m[a].t = t; m[a].d = d; m[a].rs = w * nch(t); break;
    case 9: if (a != b) { nx_image_free(I[a]); I[a] = nx_image_new_like(I[b]); M n; n.w = m[b].w; n.h = m[b].h; n.t = m[b].t; n.d = m[b].d; n.rs = n.w * nch(n.t); m[a] = n; } break;
    case 10: fill(I[a], m[a], salt); break; }
    for (int k = 0; k < 3; ++k) check(I[k], m[k]);
  }
  for (auto *i : I) nx_image_free(i); nx_image_free(NULL); }
  CHECK(live.now() <= 0, "leak of %ld blocks", live.now());
  return 0;
}
